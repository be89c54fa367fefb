// Package vfos stands for os in native replays of the persistence code: the recording file system.
package vfos

import (
	"io/fs"
	"os"

	"github.com/williamflynt/topolith/zz_verif/vf"
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModePerm          = os.ModePerm
	ModeDir           = os.ModeDir
	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
	LinkError = os.LinkError
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrInvalid    = fs.ErrInvalid
	ErrPermission = fs.ErrPermission
	ErrClosed     = fs.ErrClosed
	Stdout        = os.Stdout
	Stderr        = os.Stderr
	Args          = os.Args
)

// File is an open file.
type File struct{ f *os.File }

func wrap(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

func MkdirAll(p string, m FileMode) error                    { return vf.MMkdirAll(p, m) }
func Mkdir(p string, m FileMode) error                       { return vf.MMkdir(p, m) }
func WriteFile(p string, b []byte, m FileMode) error         { return vf.MWriteFile(p, b, m) }
func ReadFile(p string) ([]byte, error)                      { return vf.MReadFile(p) }
func ReadDir(p string) ([]DirEntry, error)                   { return vf.MReadDir(p) }
func CreateTemp(d, p string) (*File, error)                  { return wrap(vf.MCreateTemp(d, p)) }
func MkdirTemp(d, p string) (string, error)                  { return vf.MMkdirTemp(d, p) }
func Create(p string) (*File, error)                         { return wrap(vf.MCreate(p)) }
func OpenFile(p string, flag int, m FileMode) (*File, error) { return wrap(vf.MOpenFile(p, flag, m)) }
func Open(p string) (*File, error)                           { return wrap(vf.MOpen(p)) }
func Rename(a, b string) error                               { return vf.MRename(a, b) }
func Remove(p string) error                                  { return vf.MRemove(p) }
func RemoveAll(p string) error                               { return vf.MRemoveAll(p) }
func Truncate(p string, n int64) error                       { return vf.MTruncate(p, n) }
func Stat(p string) (FileInfo, error)                        { return vf.MStat(p) }
func Lstat(p string) (FileInfo, error)                       { return vf.MStat(p) }
func Getenv(k string) string                                 { return vf.MGetenv(k) }
func UserHomeDir() (string, error)                           { return vf.MUserHomeDir() }
func TempDir() string                                        { return "/tmp" }
func Getwd() (string, error)                                 { return "/cwd", nil }
func Getpid() int                                            { return 1 }
func IsNotExist(err error) bool                              { return vf.MIsNotExist(err) }
func IsExist(err error) bool                                 { return os.IsExist(err) }
func IsPathSeparator(c uint8) bool                           { return c == '/' }
func Chmod(p string, m FileMode) error                       { return vf.MChmod(p, m) }
func (f *File) Write(b []byte) (int, error)                  { return vf.MFileWrite(f.f, b) }
func (f *File) WriteString(s string) (int, error)            { return vf.MFileWriteString(f.f, s) }
func (f *File) Read(b []byte) (int, error)                   { return vf.MFileRead(f.f, b) }
func (f *File) Close() error                                 { return vf.MFileClose(f.f) }
func (f *File) Sync() error                                  { return vf.MFileSync(f.f) }
func (f *File) Name() string                                 { return vf.MFileName(f.f) }
func (f *File) Chmod(m FileMode) error                       { return nil }
func (f *File) Truncate(n int64) error                       { return vf.MFileTruncate(f.f, n) }
func (f *File) ReadDir(n int) ([]DirEntry, error)            { return vf.MFileReadDir(f.f, n) }
func (f *File) Readdirnames(n int) ([]string, error)         { return vf.MFileReaddirnames(f.f, n) }
func (f *File) Stat() (FileInfo, error)                      { return vf.MStat(vf.MFileName(f.f)) }
