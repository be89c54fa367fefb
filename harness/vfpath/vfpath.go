// Package vfpath stands for path/filepath in native replays of the persistence code.
package vfpath

import (
	"io/fs"
	"path/filepath"

	"github.com/williamflynt/topolith/zz_verif/vf"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

type WalkFunc = filepath.WalkFunc

var (
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
	ErrBadPattern = filepath.ErrBadPattern
)

func Join(e ...string) string                  { return filepath.Join(e...) }
func Base(p string) string                     { return filepath.Base(p) }
func Dir(p string) string                      { return filepath.Dir(p) }
func Ext(p string) string                      { return filepath.Ext(p) }
func Clean(p string) string                    { return filepath.Clean(p) }
func IsAbs(p string) bool                      { return filepath.IsAbs(p) }
func IsLocal(p string) bool                    { return filepath.IsLocal(p) }
func Localize(p string) (string, error)        { return filepath.Localize(p) }
func Rel(a, b string) (string, error)          { return filepath.Rel(a, b) }
func Split(p string) (string, string)          { return filepath.Split(p) }
func SplitList(p string) []string              { return filepath.SplitList(p) }
func ToSlash(p string) string                  { return filepath.ToSlash(p) }
func FromSlash(p string) string                { return filepath.FromSlash(p) }
func VolumeName(p string) string               { return filepath.VolumeName(p) }
func Match(p, n string) (bool, error)          { return filepath.Match(p, n) }
func Abs(p string) (string, error)             { return vf.MAbs(p) }
func EvalSymlinks(p string) (string, error)    { return vf.MEvalSymlinks(p) }
func Glob(p string) ([]string, error)          { return vf.MGlob(p) }
func WalkDir(p string, f fs.WalkDirFunc) error { return vf.MWalkDir(p, f) }
func Walk(p string, f WalkFunc) error          { return vf.MWalk(p, f) }
