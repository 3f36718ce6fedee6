// Package filepath is path/filepath over the in-memory file system.
package filepath

import (
	"errors"
	"io/fs"
	real "path/filepath"

	os "github.com/ls6-events/astra/zzverif/osx"
)

type WalkFunc = real.WalkFunc

var SkipDir = fs.SkipDir
var SkipAll = fs.SkipAll

const Separator = real.Separator
const ListSeparator = real.ListSeparator

func Base(p string) string                  { return real.Base(p) }
func Clean(p string) string                 { return real.Clean(p) }
func Dir(p string) string                   { return real.Dir(p) }
func Ext(p string) string                   { return real.Ext(p) }
func FromSlash(p string) string             { return p }
func ToSlash(p string) string               { return p }
func IsAbs(p string) bool                   { return real.IsAbs(p) }
func Join(e ...string) string               { return real.Join(e...) }
func Rel(b, t string) (string, error)       { return real.Rel(b, t) }
func Split(p string) (string, string)       { return real.Split(p) }
func Match(p, n string) (bool, error)       { return real.Match(p, n) }
func EvalSymlinks(p string) (string, error) { return real.Clean(p), nil }
func Glob(p string) ([]string, error)       { return nil, errors.New("glob is not available") }

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return real.Join(wd, p), nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	st, err := os.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(st), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	ents, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range ents {
		if err := walk(real.Join(p, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, _ := d.Info()
		return fn(p, i, err)
	})
}
