package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ls6-events/astra"

// engine is the loaded program and the global settings of a run.
type engine struct {
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     map[string]*ssa.Package
	methodMu sync.Mutex
	implMu   sync.RWMutex
	impl     map[[2]types.Type]bool

	maxSamples  int
	sampleEvery int64
	maxSteps    int64
	maxDepth    int
	debug       bool
	thorough    bool
	debugInit   bool
	z3          string

	repo    string
	verif   string
	overlay map[string][]byte
	goenv   []string
	goBin   string
}

// rewrites are the packages replaced by stand-ins in the code under test.
var rewrites = map[string]string{
	"os":                             modPath + "/zzverif/osx",
	"path/filepath":                  modPath + "/zzverif/filepathx",
	"github.com/gin-gonic/gin":       modPath + "/zzverif/ginx",
	"golang.org/x/tools/go/packages": modPath + "/zzverif/packagesx",
	"github.com/spf13/cobra":         modPath + "/zzverif/cobrax",
	"github.com/ls6-events/astra/cli/astra/cmd": modPath + "/zzverif/clicmd",
}

// rewriteImports replaces import paths, keeping every line in place.
func rewriteImports(name string, src []byte) ([]byte, map[string]bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ImportsOnly)
	if err != nil {
		return nil, nil, err
	}
	used := map[string]bool{}
	type edit struct {
		off, end int
		s        string
	}
	var es []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if to, ok := rewrites[p]; ok {
			used[p] = true
			es = append(es, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, strconv.Quote(to)})
		}
	}
	if len(es) == 0 {
		return nil, used, nil
	}
	var out bytes.Buffer
	last := 0
	for _, e := range es {
		out.Write(src[last:e.off])
		out.WriteString(e.s)
		last = e.end
	}
	out.Write(src[last:])
	return out.Bytes(), used, nil
}

// selectorsOf lists the names used as qualifier.X in a file for the given import path.
func selectorsOf(src []byte, importPath, defName string) map[string]bool {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return nil
	}
	name := ""
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == importPath {
			name = defName
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	if name == "" {
		return nil
	}
	out := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == name {
				out[s.Sel.Name] = true
			}
		}
		return true
	})
	return out
}

// buildOverlay regenerates the overlay from the repository's current sources.
func (e *engine) buildOverlay(harnessPkg string) error {
	e.overlay = map[string][]byte{}
	need := map[string]map[string]bool{"os": {}, "path/filepath": {}}
	addSel := func(src []byte) {
		for s := range selectorsOf(src, "os", "os") {
			need["os"][s] = true
		}
		for s := range selectorsOf(src, "path/filepath", "filepath") {
			need["path/filepath"][s] = true
		}
	}
	skip := map[string]bool{".git": true, "examples": true, "tests": true, "docs": true, "testfiles": true, "node_modules": true, "zzverif": true, "testdata": true, "vendor": true}
	err := filepath.WalkDir(e.repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(e.repo, p)
		if d.IsDir() {
			if rel != "." && skip[d.Name()] {
				return filepath.SkipDir
			}
			if rel != "." && rel != filepath.Join("cli", "astra") && rel != filepath.Join("cli", "astra", "cmd") {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		inCli := strings.HasPrefix(rel, filepath.Join("cli", "astra")+string(filepath.Separator))
		if inCli && filepath.Base(filepath.Dir(p)) != "cmd" {
			return nil
		}
		addSel(src)
		out, _, err := rewriteImports(p, src)
		if err != nil {
			return fmt.Errorf("%s: %v", p, err)
		}
		if inCli {
			if out == nil {
				out = src
			}
			e.overlay[filepath.Join(e.repo, "zzverif", "clicmd", d.Name())] = out
			return nil
		}
		if out != nil {
			e.overlay[p] = out
		}
		return nil
	})
	if err != nil {
		return err
	}
	addDir := func(from, to string) error {
		ents, err := os.ReadDir(from)
		if err != nil {
			return err
		}
		for _, d := range ents {
			if strings.HasSuffix(d.Name(), ".go") {
				b, err := os.ReadFile(filepath.Join(from, d.Name()))
				if err != nil {
					return err
				}
				e.overlay[filepath.Join(to, d.Name())] = b
			}
		}
		return nil
	}
	for _, s := range []string{"v", "osx", "filepathx", "ginx", "packagesx", "cobrax", "clicmd"} {
		if err := addDir(filepath.Join(e.verif, "shim", s), filepath.Join(e.repo, "zzverif", s)); err != nil {
			return err
		}
	}
	if err := e.passthrough("os", "os", "osx", need["os"]); err != nil {
		return err
	}
	if err := e.passthrough("path/filepath", "filepath", "filepathx", need["path/filepath"]); err != nil {
		return err
	}
	if err := addDir(filepath.Join(e.verif, "harness", "hc"), filepath.Join(e.repo, "zzverif", "hc")); err != nil {
		return err
	}
	if harnessPkg != "" {
		hdir := filepath.Join(e.verif, "harness", harnessPkg)
		to := filepath.Join(e.repo, "zzverif", harnessPkg)
		if err := addDir(hdir, to); err != nil {
			return err
		}
		names, err := harnessNames(hdir)
		if err != nil {
			return err
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package main\n\nimport (\n\t%q\n\t%q\n)\n\nfunc main() {\n\tv.Main(map[string]func(){\n", modPath+"/zzverif/v", modPath+"/zzverif/"+harnessPkg)
		for _, n := range names {
			fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", n, harnessPkg, n)
		}
		sb.WriteString("\t})\n}\n")
		e.overlay[filepath.Join(e.repo, "zzverif", "replay", "main.go")] = []byte(sb.String())
	}
	return nil
}

// passthrough adds to a stand-in package every name the code uses and the stand-in lacks.
func (e *engine) passthrough(realPath, name, dir string, need map[string]bool) error {
	have := map[string]bool{}
	prefix := filepath.Join(e.repo, "zzverif", dir) + string(filepath.Separator)
	for p, b := range e.overlay {
		if !strings.HasPrefix(p, prefix) {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, b, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	var missing []string
	for n := range need {
		if !have[n] && token.IsExported(n) {
			missing = append(missing, n)
		}
	}
	if len(missing) == 0 {
		return nil
	}
	sort.Strings(missing)
	pkg, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(realPath)
	if err != nil {
		return err
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport real %q\n\n", name, realPath)
	n := 0
	for _, m := range missing {
		switch o := pkg.Scope().Lookup(m).(type) {
		case *types.TypeName:
			fmt.Fprintf(&sb, "type %s = real.%s\n", m, m)
		case *types.Const:
			fmt.Fprintf(&sb, "const %s = real.%s\n", m, m)
		case nil:
			continue
		default:
			_ = o
			fmt.Fprintf(&sb, "var %s = real.%s\n", m, m)
		}
		n++
	}
	if n > 0 {
		e.overlay[prefix+"zz_passthrough.go"] = []byte(sb.String())
	}
	return nil
}

func harnessNames(dir string) ([]string, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, d := range ents {
		if !strings.HasSuffix(d.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, d.Name()), nil, 0)
		if err != nil {
			return nil, err
		}
		for _, x := range f.Decls {
			if fd, ok := x.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H_") {
				names = append(names, fd.Name.Name)
			}
		}
	}
	sort.Strings(names)
	return names, nil
}

func (e *engine) setupGo() {
	e.goBin = "/opt/veriftools/go1.23.12/bin"
	if _, err := os.Stat(e.goBin); err != nil {
		if p, err := exec.LookPath("go1.23.12"); err == nil {
			e.goBin = filepath.Dir(p)
		}
	}
	os.Setenv("PATH", e.goBin+":"+os.Getenv("PATH"))
	e.goenv = append(os.Environ(), "PATH="+e.goBin+":"+os.Getenv("PATH"), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOROOT=", "GO111MODULE=on", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
}

// load type-checks and builds SSA for the harness package and everything it reaches.
func (e *engine) load(harnessPkg string) error {
	e.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     e.repo,
		Env:     e.goenv,
		Fset:    e.fset,
		Overlay: e.overlay,
	}
	pkgs, err := packages.Load(cfg, modPath+"/zzverif/"+harnessPkg)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.pkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.impl = map[[2]types.Type]bool{}
	if rt := e.pkgs["runtime"]; rt != nil {
		runtimeErrorType = canon(rt.Pkg.Scope().Lookup("errorString").Type())
	}
	return nil
}

func (e *engine) namedType(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsup("package %s not loaded", pkg))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsup("type %s.%s not found", pkg, name))
	}
	return canon(o.Type())
}

// buildReplay compiles the native replay binary from the same overlay.
func (e *engine) buildReplay(harnessPkg, outDir string) (string, error) {
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		return "", err
	}
	dir := filepath.Join(outDir, "overlay-"+harnessPkg)
	if err := os.RemoveAll(dir); err != nil {
		return "", err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	repl := map[string]string{}
	i := 0
	keys := make([]string, 0, len(e.overlay))
	for k := range e.overlay {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		i++
		if err := os.WriteFile(f, e.overlay[k], 0o644); err != nil {
			return "", err
		}
		repl[k] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	oj := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(oj, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(outDir, "replay-"+harnessPkg)
	cmd := exec.Command(filepath.Join(e.goBin, "go"), "build", "-overlay", oj, "-o", bin, modPath+"/zzverif/replay")
	cmd.Dir = e.repo
	cmd.Env = e.goenv
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build: %v\n%s", err, out)
	}
	return bin, nil
}

func hashFiles(m map[string][]byte) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	h := sha256.New()
	for _, k := range keys {
		fmt.Fprintf(h, "%s\x00%d\x00", k, len(m[k]))
		h.Write(m[k])
	}
	return fmt.Sprintf("%x", h.Sum(nil))[:16]
}
