// Package os is an in-memory stand-in for package os: the code under test runs against a file
// system that exists only inside the harness, records every change, and can be told to fail.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"path"
	"strings"
	"time"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
	LinkError = real.LinkError
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrInvalid    = fs.ErrInvalid
	ErrClosed     = fs.ErrClosed
	Stdout        = real.Stdout
	Stderr        = real.Stderr
	Stdin         = real.Stdin
	Args          = []string{"astra"}
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_TRUNC  = 0x200

	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir

	PathSeparator     = '/'
	PathListSeparator = ':'
)

// Node is a file or directory of the in-memory file system.
type Node struct {
	Path string
	Dir  bool
	Data []byte
}

// nodes is kept sorted by insertion; lookups are linear so that symbolic names work.
var nodes []*Node
var cwd = "/w"

// Op is one recorded call.
type Op struct {
	Name string
	Path string
	Err  bool
}

var Ops []Op

// Fault, when set, is asked before every call that can fail.
var Fault func(op, path string) error

// ExitCode is the status of a stand-in Exit.
type ExitCode struct{ Code int }

// ErrPartial is the error of writes that stop halfway.
var ErrPartial = errors.New("injected fault after half of the data")

// ErrInjected is the error of injected faults.
var ErrInjected = errors.New("injected fault")

// Reset empties the file system and sets the working directory.
func Reset(dir string) {
	nodes = nil
	Ops = nil
	Fault = nil
	cwd = dir
	MkdirAll(dir, 0o755)
	Ops = nil
}

// Snapshot lists the file system, sorted by path.
func Snapshot() []Node {
	var out []Node
	for _, n := range nodes {
		out = append(out, Node{n.Path, n.Dir, append([]byte(nil), n.Data...)})
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].Path < out[j-1].Path; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// Get returns the data of a file.
func Get(p string) ([]byte, bool) {
	n := find(p)
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Exists reports whether a file or directory exists.
func Exists(p string) bool { return find(p) != nil }

// Put creates a file and its parents without recording.
func Put(p string, data string) {
	f, o := Fault, Ops
	Fault = nil
	MkdirAll(path.Dir(abs(p)), 0o755)
	WriteFile(p, []byte(data), 0o644)
	Fault, Ops = f, o
}

// PutDir creates a directory and its parents without recording.
func PutDir(p string) {
	f, o := Fault, Ops
	Fault = nil
	MkdirAll(p, 0o755)
	Fault, Ops = f, o
}

func abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Clean(cwd + "/" + p)
}

func find(p string) *Node {
	p = abs(p)
	for _, n := range nodes {
		if n.Path == p {
			return n
		}
	}
	return nil
}

func call(op, p string) error {
	p = abs(p)
	Ops = append(Ops, Op{Name: op, Path: p})
	if Fault != nil {
		if err := Fault(op, p); err != nil {
			Ops[len(Ops)-1].Err = true
			return &PathError{Op: op, Path: p, Err: err}
		}
	}
	return nil
}

func perr(op, p string, err error) error {
	if len(Ops) > 0 {
		Ops[len(Ops)-1].Err = true
	}
	return &PathError{Op: op, Path: p, Err: err}
}

func isDir(p string) bool {
	n := find(p)
	return p == "/" || p == "." || n != nil && n.Dir
}

var errNotDir = errors.New("not a directory")
var errIsDir = errors.New("is a directory")
var errNotEmpty = errors.New("directory not empty")

func Getwd() (string, error) {
	if Fault != nil {
		if err := Fault("getwd", cwd); err != nil {
			return "", err
		}
	}
	return cwd, nil
}

func Chdir(dir string) error { cwd = abs(dir); return nil }

func Exit(code int) { panic(ExitCode{code}) }

func Mkdir(p string, perm FileMode) error {
	if err := call("mkdir", p); err != nil {
		return err
	}
	return mkdir(p)
}

func mkdir(p string) error {
	if find(p) != nil {
		return perr("mkdir", p, ErrExist)
	}
	if !isDir(path.Dir(abs(p))) {
		return perr("mkdir", p, ErrNotExist)
	}
	nodes = append(nodes, &Node{Path: abs(p), Dir: true})
	return nil
}

func MkdirAll(p string, perm FileMode) error {
	if err := call("mkdirall", p); err != nil {
		return err
	}
	return mkdirAll(abs(p))
}

func mkdirAll(p string) error {
	if p == "/" {
		return nil
	}
	if n := find(p); n != nil {
		if n.Dir {
			return nil
		}
		return perr("mkdir", p, errNotDir)
	}
	if err := mkdirAll(path.Dir(p)); err != nil {
		return err
	}
	return mkdir(p)
}

func RemoveAll(p string) error {
	if err := call("removeall", p); err != nil {
		return err
	}
	p = abs(p)
	var keep []*Node
	for _, n := range nodes {
		if n.Path == p || strings.HasPrefix(n.Path, p+"/") || p == "/" {
			continue
		}
		keep = append(keep, n)
	}
	nodes = keep
	return nil
}

func Remove(p string) error {
	if err := call("remove", p); err != nil {
		return err
	}
	n := find(p)
	if n == nil {
		return perr("remove", p, ErrNotExist)
	}
	p = n.Path
	var keep []*Node
	for _, m := range nodes {
		if strings.HasPrefix(m.Path, p+"/") {
			return perr("remove", p, errNotEmpty)
		}
		if m != n {
			keep = append(keep, m)
		}
	}
	nodes = keep
	return nil
}

func Rename(from, to string) error {
	if err := call("rename", to); err != nil {
		return err
	}
	src := find(from)
	if src == nil || !isDir(path.Dir(abs(to))) {
		return perr("rename", from, ErrNotExist)
	}
	f, t := abs(from), abs(to)
	if f == t {
		return nil
	}
	if d := find(t); d != nil {
		if d.Dir != src.Dir {
			if d.Dir {
				return perr("rename", to, ErrExist)
			}
			return perr("rename", to, errNotDir)
		}
		if d.Dir {
			for _, n := range nodes {
				if strings.HasPrefix(n.Path, t+"/") {
					return perr("rename", to, ErrExist)
				}
			}
		}
		var keep []*Node
		for _, n := range nodes {
			if n != d {
				keep = append(keep, n)
			}
		}
		nodes = keep
	}
	for _, n := range nodes {
		if n.Path == f {
			n.Path = t
		} else if strings.HasPrefix(n.Path, f+"/") {
			n.Path = t + n.Path[len(f):]
		}
	}
	return nil
}

type info struct{ n *Node }

func (i info) Name() string               { return path.Base(i.n.Path) }
func (i info) Size() int64                { return int64(len(i.n.Data)) }
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) Sys() any                   { return nil }
func (i info) IsDir() bool                { return i.n.Dir }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Mode() fs.FileMode {
	if i.n.Dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}

func Stat(p string) (FileInfo, error) {
	if err := call("stat", p); err != nil {
		return nil, err
	}
	if abs(p) == "/" {
		return info{&Node{Path: "/", Dir: true}}, nil
	}
	n := find(p)
	if n == nil {
		return nil, perr("stat", p, ErrNotExist)
	}
	return info{n}, nil
}

func Lstat(p string) (FileInfo, error) { return Stat(p) }

func ReadDir(p string) ([]DirEntry, error) {
	if err := call("readdir", p); err != nil {
		return nil, err
	}
	if !isDir(abs(p)) {
		return nil, perr("open", p, ErrNotExist)
	}
	d := abs(p)
	if d != "/" {
		d += "/"
	}
	var out []DirEntry
	for _, n := range nodes {
		if strings.HasPrefix(n.Path, d) && !strings.Contains(n.Path[len(d):], "/") {
			out = append(out, info{n})
		}
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].Name() < out[j-1].Name(); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out, nil
}

func ReadFile(p string) ([]byte, error) {
	if err := call("readfile", p); err != nil {
		return nil, err
	}
	n := find(p)
	if n == nil {
		return nil, perr("open", p, ErrNotExist)
	}
	if n.Dir {
		return nil, perr("read", p, errIsDir)
	}
	return append([]byte{}, n.Data...), nil
}

func WriteFile(p string, data []byte, perm FileMode) error {
	fault := call("writefile", p)
	if fault != nil && !errors.Is(fault, ErrPartial) {
		return fault
	}
	n, err := create(p)
	if err != nil {
		return err
	}
	if fault != nil {
		data = data[:len(data)/2]
	}
	n.Data = append([]byte(nil), data...)
	return fault
}

func create(p string) (*Node, error) {
	n := find(p)
	if n != nil {
		if n.Dir {
			return nil, perr("open", p, errIsDir)
		}
		n.Data = nil
		return n, nil
	}
	if !isDir(path.Dir(abs(p))) {
		return nil, perr("open", p, ErrNotExist)
	}
	n = &Node{Path: abs(p)}
	nodes = append(nodes, n)
	return n, nil
}

// File is an open file.
type File struct {
	n      *Node
	pos    int
	closed bool
	write  bool
}

func Create(p string) (*File, error) {
	if err := call("create", p); err != nil {
		return nil, err
	}
	n, err := create(p)
	if err != nil {
		return nil, err
	}
	return &File{n: n, write: true}, nil
}

func Open(p string) (*File, error) {
	if err := call("open", p); err != nil {
		return nil, err
	}
	n := find(p)
	if n == nil {
		return nil, perr("open", p, ErrNotExist)
	}
	return &File{n: n}, nil
}

func OpenFile(p string, flag int, perm FileMode) (*File, error) {
	if flag&(O_WRONLY|O_RDWR) == 0 {
		return Open(p)
	}
	if err := call("create", p); err != nil {
		return nil, err
	}
	n := find(p)
	if n == nil && flag&O_CREATE == 0 {
		return nil, perr("open", p, ErrNotExist)
	}
	if n != nil && flag&O_EXCL != 0 && flag&O_CREATE != 0 {
		return nil, perr("open", p, ErrExist)
	}
	if n == nil || flag&O_TRUNC != 0 {
		var err error
		n, err = create(p)
		if err != nil {
			return nil, err
		}
	}
	f := &File{n: n, write: true}
	if flag&O_APPEND != 0 {
		f.pos = len(n.Data)
	}
	return f, nil
}

func (f *File) Name() string { return f.n.Path }

func (f *File) Write(b []byte) (int, error) {
	err := call("write", f.n.Path)
	if err != nil && !errors.Is(err, ErrPartial) {
		return 0, err
	}
	if f.closed || !f.write {
		return 0, perr("write", f.n.Path, ErrClosed)
	}
	if err != nil {
		b = b[:len(b)/2]
	}
	d := append([]byte(nil), f.n.Data...)
	if f.pos < len(d) {
		n := copy(d[f.pos:], b)
		d = append(d, b[n:]...)
	} else {
		d = append(d, b...)
	}
	f.n.Data = d
	f.pos += len(b)
	return len(b), err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if err := call("read", f.n.Path); err != nil {
		return 0, err
	}
	if f.closed {
		return 0, perr("read", f.n.Path, ErrClosed)
	}
	if f.n.Dir {
		return 0, perr("read", f.n.Path, errIsDir)
	}
	if f.pos >= len(f.n.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.Data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) Sync() error { return call("sync", f.n.Path) }

func (f *File) Stat() (FileInfo, error) { return info{f.n}, nil }

func (f *File) Close() error {
	if f.closed {
		return ErrClosed
	}
	f.closed = true
	return nil
}

func IsNotExist(err error) bool { return errors.Is(err, ErrNotExist) }
func IsExist(err error) bool    { return errors.Is(err, ErrExist) }
func IsPermission(err error) bool {
	return errors.Is(err, ErrPermission)
}

func Getenv(k string) string            { return "" }
func LookupEnv(k string) (string, bool) { return "", false }
func IsPathSeparator(c uint8) bool      { return c == '/' }
func Chmod(p string, m FileMode) error  { return call("chmod", p) }
func TempDir() string                   { return "/tmp" }
func MkdirTemp(d, pat string) (string, error) {
	if d == "" {
		d = TempDir()
	}
	p := d + "/" + strings.Replace(pat, "*", "", 1) + "0"
	return p, MkdirAll(p, 0o755)
}
