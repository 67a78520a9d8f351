// Package simfilepath stands in for path/filepath: the lexical functions are
// the real ones, those that look at files look at the simulated ones.
package simfilepath

import (
	"io/fs"
	"path/filepath"
	"sort"

	"wpkverif/simos"
)

type WalkFunc = filepath.WalkFunc

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
	ErrBadPattern = filepath.ErrBadPattern
)

func Base(p string) string                     { return filepath.Base(p) }
func Clean(p string) string                    { return filepath.Clean(p) }
func Dir(p string) string                      { return filepath.Dir(p) }
func Ext(p string) string                      { return filepath.Ext(p) }
func FromSlash(p string) string                { return filepath.FromSlash(p) }
func ToSlash(p string) string                  { return filepath.ToSlash(p) }
func HasPrefix(p, q string) bool               { return filepath.HasPrefix(p, q) }
func IsAbs(p string) bool                      { return filepath.IsAbs(p) }
func IsLocal(p string) bool                    { return filepath.IsLocal(p) }
func Join(e ...string) string                  { return filepath.Join(e...) }
func Localize(p string) (string, error)        { return filepath.Localize(p) }
func Match(pattern, name string) (bool, error) { return filepath.Match(pattern, name) }
func Rel(b, t string) (string, error)          { return filepath.Rel(b, t) }
func Split(p string) (string, string)          { return filepath.Split(p) }
func SplitList(p string) []string              { return filepath.SplitList(p) }
func VolumeName(p string) string               { return filepath.VolumeName(p) }
func EvalSymlinks(p string) (string, error) {
	return simos.EvalSymlinks(p)
}

// Abs is relative to the simulated working directory.
func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := simos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

// WalkDir is filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := simos.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(filepath.Join(path, d1.Name()), d1, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk is filepath.Walk.
func Walk(root string, fn WalkFunc) error {
	info, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	ents, err := simos.ReadDir(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range ents {
		name := filepath.Join(path, e.Name())
		fi, err := simos.Lstat(name)
		if err != nil {
			if err := fn(name, fi, err); err != nil && err != SkipDir {
				return err
			}
		} else if err = walk(name, fi, fn); err != nil {
			if !fi.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

// Glob is filepath.Glob.
func Glob(pattern string) (l []string, err error) {
	if _, err = filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	root := "."
	if filepath.IsAbs(pattern) {
		root = "/"
	}
	WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if ok, _ := filepath.Match(pattern, p); ok {
			l = append(l, p)
		}
		return nil
	})
	sort.Strings(l)
	return
}
