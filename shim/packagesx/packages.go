// Package packages is a stand-in for golang.org/x/tools/go/packages: packages come from the
// sources a harness registered, type-checked by go/types.
package packages

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	real "golang.org/x/tools/go/packages"
)

type (
	Package   = real.Package
	Config    = real.Config
	LoadMode  = real.LoadMode
	Error     = real.Error
	ErrorKind = real.ErrorKind
	Module    = real.Module
)

const (
	NeedName            = real.NeedName
	NeedFiles           = real.NeedFiles
	NeedCompiledGoFiles = real.NeedCompiledGoFiles
	NeedImports         = real.NeedImports
	NeedDeps            = real.NeedDeps
	NeedExportFile      = real.NeedExportFile
	NeedTypes           = real.NeedTypes
	NeedSyntax          = real.NeedSyntax
	NeedTypesInfo       = real.NeedTypesInfo
	NeedTypesSizes      = real.NeedTypesSizes
	NeedModule          = real.NeedModule
	LoadFiles           = real.LoadFiles
	LoadImports         = real.LoadImports
	LoadTypes           = real.LoadTypes
	LoadSyntax          = real.LoadSyntax
	LoadAllSyntax       = real.LoadAllSyntax

	UnknownError = real.UnknownError
	ListError    = real.ListError
	ParseError   = real.ParseError
	TypeError    = real.TypeError
)

// Source is one registered file.
type Source struct{ Pkg, File, Text string }

// Sources are the files of the program under analysis.
var Sources []Source

// universe is what one Load builds: as with the real package, positions and objects of different
// loads have nothing to do with each other.
type universe struct {
	loaded map[string]*Package
	fset   *token.FileSet
}

// LoadErr, when set, makes Load of a path fail.
var LoadErr func(path string) error

// Loads records the patterns asked for.
var Loads []string

// Reset registers a new program.
func Reset(src []Source) {
	Sources = src
	LoadErr = nil
	Loads = nil
}

type imp struct{ u *universe }

func (i imp) Import(path string) (*types.Package, error) {
	p, err := i.u.load(path)
	if err != nil {
		return nil, err
	}
	return p.Types, nil
}

func (u *universe) load(path string) (*Package, error) {
	if p, ok := u.loaded[path]; ok {
		if p == nil {
			return nil, errors.New("import cycle through " + path)
		}
		return p, nil
	}
	if path == "unsafe" {
		return &Package{PkgPath: path, ID: path, Name: "unsafe", Types: types.Unsafe}, nil
	}
	u.loaded[path] = nil
	p := &Package{ID: path, PkgPath: path, Fset: u.fset, Imports: map[string]*Package{}}
	for _, s := range Sources {
		if s.Pkg != path {
			continue
		}
		f, err := parser.ParseFile(u.fset, s.File, s.Text, parser.AllErrors|parser.ParseComments)
		if err != nil {
			p.Errors = append(p.Errors, Error{Msg: err.Error(), Kind: ParseError})
		}
		if f == nil {
			continue
		}
		p.Name = f.Name.Name
		p.Syntax = append(p.Syntax, f)
		p.GoFiles = append(p.GoFiles, s.File)
		p.CompiledGoFiles = append(p.CompiledGoFiles, s.File)
	}
	if len(p.Syntax) == 0 {
		delete(u.loaded, path)
		return nil, errors.New("package " + path + " is not in std")
	}
	p.TypesInfo = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Implicits:  map[ast.Node]types.Object{},
		Instances:  map[*ast.Ident]types.Instance{},
		Scopes:     map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	p.TypesSizes = types.SizesFor("gc", "amd64")
	cfg := &types.Config{
		Importer: imp{u},
		Sizes:    p.TypesSizes,
		Error: func(err error) {
			p.Errors = append(p.Errors, Error{Msg: err.Error(), Kind: TypeError})
		},
	}
	p.Types, _ = cfg.Check(path, u.fset, p.Syntax, p.TypesInfo)
	for _, q := range p.Types.Imports() {
		p.Imports[q.Path()] = u.loaded[q.Path()]
	}
	u.loaded[path] = p
	return p, nil
}

// Load returns the packages of the patterns.
func Load(cfg *Config, patterns ...string) ([]*Package, error) {
	var out []*Package
	u := &universe{map[string]*Package{}, token.NewFileSet()}
	for _, pat := range patterns {
		Loads = append(Loads, pat)
		if LoadErr != nil {
			if err := LoadErr(pat); err != nil {
				return nil, err
			}
		}
		p, err := u.load(strings.TrimPrefix(pat, "./"))
		if err != nil {
			p = &Package{ID: pat, PkgPath: pat, Fset: u.fset, Errors: []Error{{Msg: err.Error(), Kind: ListError}}}
		}
		out = append(out, p)
	}
	return out, nil
}

// Visit and PrintErrors as in the real package.
func Visit(pkgs []*Package, pre func(*Package) bool, post func(*Package)) {
	real.Visit(pkgs, pre, post)
}
func PrintErrors(pkgs []*Package) int { return real.PrintErrors(pkgs) }
