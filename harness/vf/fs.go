package vf

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"time"
)

// A model file system for the persistence code. Paths are compared as cleaned strings.
// Faults: when FaultAt is reached (counting mutating calls), the call fails after having done part
// of its work; CrashAt works likewise but ends the operation for good (everything after it is a no-op
// and reports an error), which stands for a crash of the process.

type fsFile struct {
	path string
	data string
}

type FSState struct {
	Files   []*fsFile
	Dirs    []string
	Home    string
	Outside bool     // set when something outside Root was written
	Root    string   // everything must stay below
	Writes  []string // paths written, created, renamed to or removed
	Step    int      // mutating calls so far
	FaultAt int      // 0: never; otherwise the call that fails
	Partial int      // how many bytes of the failing write reach the file
	Crash   bool     // the failing call is a crash: nothing happens after it
	crashed bool
	tmp     int
}

var FS *FSState

type fsErr struct{ s string }

func (e *fsErr) Error() string { return e.s }

type notExist struct{ path string }

func (e *notExist) Error() string        { return "open " + e.path + ": no such file or directory" }
func (e *notExist) Is(target error) bool { return target == fs.ErrNotExist }

func clean(p string) string {
	// lexical cleaning as filepath.Clean does for absolute paths; relative paths start at /cwd
	if len(p) == 0 || p[0] != '/' {
		p = "/cwd/" + p
	}
	var parts []string
	i := 0
	for i < len(p) {
		for i < len(p) && p[i] == '/' {
			i++
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		if j > i {
			switch c := p[i:j]; c {
			case ".":
			case "..":
				if len(parts) > 0 {
					parts = parts[:len(parts)-1]
				}
			default:
				parts = append(parts, c)
			}
		}
		i = j
	}
	out := ""
	for _, c := range parts {
		out += "/" + c
	}
	if out == "" {
		out = "/"
	}
	return out
}

func dirOf(p string) string {
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return "/"
}

func (f *FSState) find(p string) *fsFile {
	for _, x := range f.Files {
		if x.path == p {
			return x
		}
	}
	return nil
}
func (f *FSState) isDir(p string) bool {
	for _, d := range f.Dirs {
		if d == p {
			return true
		}
	}
	return p == "/"
}

// below reports whether p lies strictly inside dir.
func below(p, dir string) bool {
	return len(p) > len(dir)+1 && p[:len(dir)] == dir && p[len(dir)] == '/'
}

func (f *FSState) note(p string) {
	f.Writes = append(f.Writes, p)
	if f.Root != "" && !below(p, f.Root) {
		f.Outside = true
	}
}

// begin counts a mutating call; fail says it is the one that fails.
func (f *FSState) begin() (ok bool, fail bool) {
	if f.crashed {
		return false, false
	}
	f.Step++
	if f.Step == f.FaultAt {
		if f.Crash {
			f.crashed = true
		}
		return true, true
	}
	return true, false
}

// Hit says whether the fault has happened.
func (f *FSState) Hit() bool { return f.FaultAt > 0 && f.Step >= f.FaultAt }

// Recover ends the faults: the system runs normally again.
func (f *FSState) Recover() { f.FaultAt, f.crashed = 0, false }

// Add puts a file there, without noting it.
func (f *FSState) Add(path, data string) {
	f.Files = append(f.Files, &fsFile{path: clean(path), data: data})
}

var errIO = &fsErr{"input/output error"}

func badName(p string) error {
	for i := 0; i < len(p); i++ {
		if p[i] == 0 {
			return &fsErr{"invalid argument"}
		}
	}
	return nil
}

func MMkdirAll(path string, perm fs.FileMode) error {
	p := clean(path)
	if FS.isDir(p) {
		return nil
	}
	if FS.find(p) != nil {
		return &fsErr{"not a directory"}
	}
	ok, fail := FS.begin()
	if !ok || fail {
		return errIO
	}
	if p != FS.Root && FS.Root != "" && !below(FS.Root, p) {
		FS.note(p)
	}
	for !FS.isDir(p) {
		FS.Dirs = append(FS.Dirs, p)
		p = dirOf(p)
	}
	return nil
}

func (f *FSState) openForWrite(path string, trunc, excl bool) (*fsFile, error) {
	if err := badName(path); err != nil {
		return nil, err
	}
	p := clean(path)
	if f.isDir(p) {
		return nil, &fsErr{"is a directory"}
	}
	if n := len(path); n > 0 && path[n-1] == '/' {
		return nil, &fsErr{"is a directory"}
	}
	if !f.isDir(dirOf(p)) {
		return nil, &notExist{path}
	}
	x := f.find(p)
	if x != nil && excl {
		return nil, fs.ErrExist
	}
	ok, fail := f.begin()
	if !ok || fail {
		return nil, errIO
	}
	if x == nil {
		x = &fsFile{path: p}
		f.Files = append(f.Files, x)
		f.note(p)
	} else if trunc {
		x.data = ""
		f.note(p)
	}
	return x, nil
}

func (f *FSState) write(x *fsFile, data string) (int, error) {
	ok, fail := f.begin()
	if !ok {
		return 0, errIO
	}
	if fail {
		n := f.Partial
		if n > len(data) {
			n = len(data)
		}
		x.data += data[:n]
		return n, errIO
	}
	x.data += data
	return len(data), nil
}

func MWriteFile(path string, data []byte, perm fs.FileMode) error {
	x, err := FS.openForWrite(path, true, false)
	if err != nil {
		return err
	}
	_, err = FS.write(x, string(data))
	return err
}

func MReadFile(path string) ([]byte, error) {
	p := clean(path)
	x := FS.find(p)
	if x == nil || badName(path) != nil {
		return nil, &notExist{path}
	}
	return []byte(x.data), nil
}

type dirEntry struct {
	name string
	dir  bool
}

func (d dirEntry) Name() string { return d.name }
func (d dirEntry) IsDir() bool  { return d.dir }
func (d dirEntry) Type() fs.FileMode {
	if d.dir {
		return fs.ModeDir
	}
	return 0
}
func (d dirEntry) Info() (fs.FileInfo, error) { return fileInfo{d.name, d.dir, 0}, nil }

type fileInfo struct {
	name string
	dir  bool
	size int64
}

func (d fileInfo) Name() string { return d.name }
func (d fileInfo) IsDir() bool  { return d.dir }
func (d fileInfo) Mode() fs.FileMode {
	if d.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (d fileInfo) Size() int64        { return d.size }
func (d fileInfo) ModTime() time.Time { return time.Time{} }
func (d fileInfo) Sys() any           { return nil }

func MReadDir(path string) ([]os.DirEntry, error) {
	p := clean(path)
	if !FS.isDir(p) {
		return nil, &notExist{path}
	}
	var names []string
	var dirs []bool
	add := func(n string, d bool) {
		// sorted insertion
		i := len(names)
		names = append(names, n)
		dirs = append(dirs, d)
		for i > 0 && names[i-1] > n {
			names[i], dirs[i] = names[i-1], dirs[i-1]
			i--
			names[i], dirs[i] = n, d
		}
	}
	for _, x := range FS.Files {
		if dirOf(x.path) == p {
			add(x.path[len(p)+1:], false)
		}
	}
	for _, d := range FS.Dirs {
		if d != "/" && dirOf(d) == p {
			add(d[len(p)+1:], true)
		}
	}
	out := make([]os.DirEntry, 0)
	for i := range names {
		out = append(out, dirEntry{names[i], dirs[i]})
	}
	return out, nil
}

// open handles: the executor passes *os.File values around opaquely, so handles are looked up by pointer
type handle struct {
	f      *os.File
	x      *fsFile
	name   string
	closed bool
	pos    int
}

var handles []*handle

func newHandle(x *fsFile, name string) *os.File {
	h := &handle{f: new(os.File), x: x, name: name}
	handles = append(handles, h)
	return h.f
}
func handleOf(f *os.File) *handle {
	for _, h := range handles {
		if h.f == f {
			return h
		}
	}
	return nil
}

func MCreateTemp(dir, pattern string) (*os.File, error) {
	for i := 0; i < len(pattern); i++ {
		if pattern[i] == '/' {
			return nil, &fsErr{"pattern contains path separator"}
		}
	}
	if dir == "" {
		dir = "/tmp"
	}
	pre, post := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, post = pattern[:i], pattern[i+1:]
			break
		}
	}
	FS.tmp++
	name := dir + "/" + pre + "000" + string(rune('0'+FS.tmp%10)) + post
	x, err := FS.openForWrite(name, true, true)
	if err != nil {
		return nil, err
	}
	return newHandle(x, name), nil
}
func MCreate(name string) (*os.File, error) {
	x, err := FS.openForWrite(name, true, false)
	if err != nil {
		return nil, err
	}
	return newHandle(x, name), nil
}
func MOpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return MOpen(name)
	}
	p := clean(name)
	if flag&os.O_CREATE == 0 && FS.find(p) == nil {
		return nil, &notExist{name}
	}
	x, err := FS.openForWrite(name, flag&os.O_TRUNC != 0, flag&os.O_EXCL != 0)
	if err != nil {
		return nil, err
	}
	if flag&(os.O_TRUNC|os.O_APPEND|os.O_EXCL) == 0 && x.data != "" {
		unsupported("opening a file for overwriting in place")
	}
	return newHandle(x, name), nil
}
func MOpen(name string) (*os.File, error) {
	p := clean(name)
	x := FS.find(p)
	if x == nil {
		if FS.isDir(p) {
			return newHandle(nil, name), nil
		}
		return nil, &notExist{name}
	}
	return newHandle(x, name), nil
}
func MFileWrite(f *os.File, b []byte) (int, error) { return MFileWriteString(f, string(b)) }
func MFileWriteString(f *os.File, s string) (int, error) {
	h := handleOf(f)
	if h == nil || h.closed {
		return 0, &fsErr{"file already closed"}
	}
	return FS.write(h.x, s)
}
func MFileClose(f *os.File) error {
	h := handleOf(f)
	if h == nil || h.closed {
		return &fsErr{"file already closed"}
	}
	h.closed = true
	ok, fail := FS.begin()
	if !ok || fail {
		return errIO
	}
	return nil
}
func MFileSync(f *os.File) error {
	ok, fail := FS.begin()
	if !ok || fail {
		return errIO
	}
	return nil
}
func MFileName(f *os.File) string {
	if h := handleOf(f); h != nil {
		return h.name
	}
	return ""
}
func MFileChmod(f *os.File, m fs.FileMode) error { return nil }
func MChmod(name string, m fs.FileMode) error    { return nil }

func MRename(from, to string) error {
	a, b := clean(from), clean(to)
	x := FS.find(a)
	if x == nil {
		return &notExist{from}
	}
	if badName(to) != nil {
		return badName(to)
	}
	if FS.isDir(b) {
		return &fsErr{"file exists"}
	}
	if !FS.isDir(dirOf(b)) {
		return &notExist{to}
	}
	ok, fail := FS.begin()
	if !ok || fail {
		return errIO
	}
	FS.note(b)
	if a == b {
		return nil
	}
	FS.drop(b)
	x.path = b
	return nil
}
func (f *FSState) drop(p string) {
	for i, x := range f.Files {
		if x.path == p {
			f.Files = append(f.Files[:i:i], f.Files[i+1:]...)
			return
		}
	}
}
func MRemove(name string) error {
	p := clean(name)
	if FS.find(p) == nil {
		return &notExist{name}
	}
	ok, fail := FS.begin()
	if !ok || fail {
		return errIO
	}
	FS.note(p)
	FS.drop(p)
	return nil
}
func MStat(name string) (os.FileInfo, error) {
	p := clean(name)
	if x := FS.find(p); x != nil {
		return fileInfo{p, false, int64(len(x.data))}, nil
	}
	if FS.isDir(p) {
		return fileInfo{p, true, 0}, nil
	}
	return nil, &notExist{name}
}
func MGetenv(k string) string {
	if k == "HOME" {
		return "/home/u"
	}
	return ""
}
func MIsNotExist(err error) bool { return errors.Is(err, fs.ErrNotExist) }

func MMkdir(path string, perm fs.FileMode) error {
	p := clean(path)
	if FS.isDir(p) || FS.find(p) != nil {
		return fs.ErrExist
	}
	if !FS.isDir(dirOf(p)) {
		return &notExist{path}
	}
	return MMkdirAll(path, perm)
}
func MMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	FS.tmp++
	name := dir + "/" + pattern + "000" + string(rune('0'+FS.tmp%10))
	return name, MMkdir(name, 0700)
}
func MRemoveAll(path string) error {
	p := clean(path)
	ok, fail := FS.begin()
	if !ok || fail {
		return errIO
	}
	FS.note(p)
	var files []*fsFile
	for _, x := range FS.Files {
		if x.path != p && !below(x.path, p) {
			files = append(files, x)
		}
	}
	FS.Files = files
	var dirs []string
	for _, d := range FS.Dirs {
		if d != p && !below(d, p) {
			dirs = append(dirs, d)
		}
	}
	FS.Dirs = dirs
	return nil
}
func (f *FSState) cut(x *fsFile, n int64) error {
	ok, fail := f.begin()
	if !ok || fail {
		return errIO
	}
	f.note(x.path)
	if int(n) > len(x.data) {
		unsupported("growing a file")
	}
	x.data = x.data[:n]
	return nil
}
func MTruncate(name string, n int64) error {
	x := FS.find(clean(name))
	if x == nil {
		return &notExist{name}
	}
	return FS.cut(x, n)
}
func MFileTruncate(f *os.File, n int64) error {
	h := handleOf(f)
	if h == nil || h.closed || h.x == nil {
		return fs.ErrClosed
	}
	return FS.cut(h.x, n)
}
func MFileRead(f *os.File, b []byte) (int, error) {
	h := handleOf(f)
	if h == nil || h.closed || h.x == nil {
		return 0, fs.ErrClosed
	}
	if h.pos >= len(h.x.data) {
		return 0, io.EOF
	}
	n := copy(b, h.x.data[h.pos:])
	h.pos += n
	return n, nil
}
func MFileReadDir(f *os.File, n int) ([]os.DirEntry, error) { return MReadDir(MFileName(f)) }
func MFileReaddirnames(f *os.File, n int) ([]string, error) {
	es, err := MReadDir(MFileName(f))
	var names []string
	for _, e := range es {
		names = append(names, e.Name())
	}
	return names, err
}
func MUserHomeDir() (string, error) { return "/home/u", nil }
func MGetwd() (string, error)       { return "/cwd", nil }
func MTempDir() string              { return "/tmp" }
func MAbs(p string) (string, error) { return clean(p), nil }
func MEvalSymlinks(p string) (string, error) {
	if _, err := MStat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}
func MGlob(pattern string) ([]string, error) {
	dir, file := filepath.Split(pattern)
	es, err := MReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range es {
		ok, err := filepath.Match(file, e.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, filepath.Join(dir, e.Name()))
		}
	}
	return out, nil
}
func MWalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := MStat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, dirEntry{filepath.Base(root), info.IsDir()}, fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}
func walkDir(path string, d os.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, _ := MReadDir(path)
	for _, e := range es {
		if err := walkDir(filepath.Join(path, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
func MWalk(root string, fn filepath.WalkFunc) error {
	return MWalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, _ := d.Info()
		return fn(p, i, err)
	})
}
func MIsExist(err error) bool                   { return errors.Is(err, fs.ErrExist) }
func MFileStat(f *os.File) (os.FileInfo, error) { return MStat(MFileName(f)) }
