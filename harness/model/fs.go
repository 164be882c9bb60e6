package model

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// The operating system's file system: a tree of directories and plain files without links and permissions, on
// which nothing but the program acts. Paths are concrete, contents are not.

type fsNode struct {
	path string // clean and absolute
	dir  bool
	mode fs.FileMode
	data []byte
}

var fsNodes = []*fsNode{{path: "/", dir: true, mode: 0755}, {path: "/tmp", dir: true, mode: 0755}, {path: "/work", dir: true, mode: 0755}}
var fsTemp = 0

type fsHandle struct {
	node                *fsNode
	name                string
	read, write, append bool
	pos                 int
	listed              bool
	list                []fs.DirEntry
	closed              bool
}

var fsHandles = map[*os.File]*fsHandle{}

var (
	errNotDir   = errors.New("not a directory")
	errIsDir    = errors.New("is a directory")
	errNotEmpty = errors.New("directory not empty")
	errBadFD    = errors.New("bad file descriptor")
)

func fsErr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func fsAbs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = "/work/" + name
	}
	return filepath.Clean(name)
}

func fsExact(p string) *fsNode {
	for _, n := range fsNodes {
		if n.path == p {
			return n
		}
	}
	return nil
}

// fsFind looks a name up as the kernel does.
func fsFind(name string) (*fsNode, error) {
	if name == "" || strings.IndexByte(name, 0) >= 0 {
		return nil, fs.ErrNotExist
	}
	p := fsAbs(name)
	for i := 1; i < len(p); i++ {
		if p[i] == '/' {
			d := fsExact(p[:i])
			if d == nil {
				return nil, fs.ErrNotExist
			}
			if !d.dir {
				return nil, errNotDir
			}
		}
	}
	n := fsExact(p)
	if n == nil {
		return nil, fs.ErrNotExist
	}
	if !n.dir && strings.HasSuffix(name, "/") {
		return nil, errNotDir
	}
	return n, nil
}

// fsParent checks that the directory a new entry goes into exists.
func fsParent(name string) error {
	if name == "" || strings.IndexByte(name, 0) >= 0 {
		return fs.ErrNotExist
	}
	d, err := fsFind(filepath.Dir(fsAbs(name)))
	if err != nil {
		return err
	}
	if !d.dir {
		return errNotDir
	}
	return nil
}

func fsAdd(n *fsNode) *fsNode {
	i := 0
	for i < len(fsNodes) && fsNodes[i].path < n.path {
		i++
	}
	fsNodes = append(fsNodes, nil)
	copy(fsNodes[i+1:], fsNodes[i:])
	fsNodes[i] = n
	return n
}

func fsBelow(p, dir string) bool {
	if dir == "/" {
		return p != "/"
	}
	return strings.HasPrefix(p, dir+"/")
}

func fsChildren(dir string) []fs.DirEntry {
	l := []fs.DirEntry{}
	for _, n := range fsNodes {
		if fsBelow(n.path, dir) && filepath.Dir(n.path) == dir {
			l = append(l, fsInfo{n, filepath.Base(n.path), len(n.data)})
		}
	}
	return l
}

// fsInfo is a FileInfo and a DirEntry.
type fsInfo struct {
	n    *fsNode
	name string
	size int
}

func (i fsInfo) Name() string { return i.name }
func (i fsInfo) Size() int64 {
	if i.n.dir {
		return 4096
	}
	return int64(i.size)
}
func (i fsInfo) Mode() fs.FileMode {
	if i.n.dir {
		return i.n.mode | fs.ModeDir
	}
	return i.n.mode
}
func (i fsInfo) ModTime() time.Time         { return time.Time{} }
func (i fsInfo) IsDir() bool                { return i.n.dir }
func (i fsInfo) Sys() any                   { return nil }
func (i fsInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i fsInfo) Info() (fs.FileInfo, error) { return i, nil }

func fsHandleOf(f *os.File, op string) (*fsHandle, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	h := fsHandles[f]
	if h.closed {
		return nil, fsErr(op, h.name, fs.ErrClosed)
	}
	return h, nil
}

//vp:model os.OpenFile
func OSOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	h := &fsHandle{name: name, append: flag&os.O_APPEND != 0}
	switch flag & (os.O_WRONLY | os.O_RDWR) {
	case os.O_WRONLY:
		h.write = true
	case os.O_RDWR:
		h.read, h.write = true, true
	default:
		h.read = true
	}
	n, err := fsFind(name)
	switch {
	case err == nil:
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, fsErr("open", name, fs.ErrExist)
		}
		if n.dir && (h.write || flag&os.O_CREATE != 0) {
			return nil, fsErr("open", name, errIsDir)
		}
		if flag&os.O_TRUNC != 0 && h.write {
			n.data = nil
		}
	case err == fs.ErrNotExist && flag&os.O_CREATE != 0:
		if strings.HasSuffix(name, "/") {
			return nil, fsErr("open", name, errIsDir)
		}
		if err := fsParent(name); err != nil {
			return nil, fsErr("open", name, err)
		}
		n = fsAdd(&fsNode{path: fsAbs(name), mode: perm &^ 022})
	default:
		return nil, fsErr("open", name, err)
	}
	h.node = n
	f := new(os.File)
	fsHandles[f] = h
	return f, nil
}

//vp:model os.Open
func OSOpen(name string) (*os.File, error) { return OSOpenFile(name, os.O_RDONLY, 0) }

//vp:model os.Create
func OSCreate(name string) (*os.File, error) {
	return OSOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//vp:model os.ReadFile
func OSReadFile(name string) ([]byte, error) {
	f, err := OSOpen(name)
	if err != nil {
		return nil, err
	}
	if h := fsHandles[f]; h.node.dir {
		return nil, fsErr("read", name, errIsDir)
	}
	return append([]byte{}, fsHandles[f].node.data...), nil
}

//vp:model os.WriteFile
func OSWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OSOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	fsHandles[f].node.data = append([]byte(nil), data...)
	return nil
}

//vp:model os.ReadDir
func OSReadDir(name string) ([]fs.DirEntry, error) {
	n, err := fsFind(name)
	if err != nil {
		return nil, fsErr("open", name, err)
	}
	if !n.dir {
		return nil, fsErr("readdirent", name, errNotDir)
	}
	return fsChildren(n.path), nil
}

func fsStat(name string) (fs.FileInfo, error) {
	n, err := fsFind(name)
	if err != nil {
		return nil, fsErr("stat", name, err)
	}
	return fsInfo{n, filepath.Base(name), len(n.data)}, nil
}

//vp:model os.Stat
func OSStat(name string) (fs.FileInfo, error) { return fsStat(name) }

//vp:model os.Lstat
func OSLstat(name string) (fs.FileInfo, error) { return fsStat(name) }

//vp:model os.Mkdir
func OSMkdir(name string, perm os.FileMode) error {
	if _, err := fsFind(name); err == nil {
		return fsErr("mkdir", name, fs.ErrExist)
	}
	if err := fsParent(name); err != nil {
		return fsErr("mkdir", name, err)
	}
	fsAdd(&fsNode{path: fsAbs(name), dir: true, mode: perm &^ 022})
	return nil
}

//vp:model os.MkdirAll
func OSMkdirAll(name string, perm os.FileMode) error {
	p := fsAbs(name)
	for i := 1; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			n := fsExact(p[:i])
			if n == nil {
				fsAdd(&fsNode{path: p[:i], dir: true, mode: perm &^ 022})
			} else if !n.dir {
				return fsErr("mkdir", p[:i], errNotDir)
			}
		}
	}
	return nil
}

func fsTempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	fsTemp++
	r := string([]byte{'v', 'p', byte('0' + fsTemp/10), byte('0' + fsTemp%10)})
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return filepath.Join(dir, pattern[:i]+r+pattern[i+1:])
	}
	return filepath.Join(dir, pattern+r)
}

//vp:model os.TempDir
func OSTempDir() string { return "/tmp" }

//vp:model os.Getwd
func OSGetwd() (string, error) { return "/work", nil }

//vp:model os.MkdirTemp
func OSMkdirTemp(dir, pattern string) (string, error) {
	n := fsTempName(dir, pattern)
	return n, OSMkdir(n, 0700)
}

//vp:model os.CreateTemp
func OSCreateTemp(dir, pattern string) (*os.File, error) {
	return OSOpenFile(fsTempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

//vp:model os.Remove
func OSRemove(name string) error {
	n, err := fsFind(name)
	if err != nil {
		return fsErr("remove", name, err)
	}
	if len(fsChildren(n.path)) > 0 {
		return fsErr("remove", name, errNotEmpty)
	}
	fsDrop(func(m *fsNode) bool { return m == n })
	return nil
}

func fsDrop(f func(*fsNode) bool) {
	var l []*fsNode
	for _, n := range fsNodes {
		if !f(n) {
			l = append(l, n)
		}
	}
	fsNodes = l
}

//vp:model os.RemoveAll
func OSRemoveAll(name string) error {
	n, err := fsFind(name)
	if err != nil {
		return nil
	}
	fsDrop(func(m *fsNode) bool { return m == n || fsBelow(m.path, n.path) })
	return nil
}

//vp:model os.Rename
func OSRename(from, to string) error {
	n, err := fsFind(from)
	if err != nil {
		return fsErr("rename", from, err)
	}
	if n.dir {
		panic("model: renaming a directory")
	}
	if m, err := fsFind(to); err == nil {
		if m.dir {
			return fsErr("rename", to, fs.ErrExist)
		}
		if m == n {
			return nil
		}
		fsDrop(func(x *fsNode) bool { return x == m })
	} else if err := fsParent(to); err != nil {
		return fsErr("rename", to, err)
	}
	fsDrop(func(x *fsNode) bool { return x == n })
	n.path = fsAbs(to)
	fsAdd(n)
	return nil
}

//vp:model (*os.File).Name
func FileName(f *os.File) string { return fsHandles[f].name }

//vp:model (*os.File).Close
func FileClose(f *os.File) error {
	h, err := fsHandleOf(f, "close")
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}

//vp:model (*os.File).Sync
func FileSync(f *os.File) error {
	_, err := fsHandleOf(f, "sync")
	return err
}

//vp:model (*os.File).Chmod
func FileChmod(f *os.File, mode os.FileMode) error {
	h, err := fsHandleOf(f, "chmod")
	if err == nil {
		h.node.mode = mode
	}
	return err
}

//vp:model (*os.File).Stat
func FileStat(f *os.File) (fs.FileInfo, error) {
	h, err := fsHandleOf(f, "stat")
	if err != nil {
		return nil, err
	}
	return fsInfo{h.node, filepath.Base(h.name), len(h.node.data)}, nil
}

func (h *fsHandle) readable() error {
	if h.node.dir {
		return fsErr("read", h.name, errIsDir)
	}
	if !h.read {
		return fsErr("read", h.name, errBadFD)
	}
	return nil
}

//vp:model (*os.File).Read
func FileRead(f *os.File, b []byte) (int, error) {
	h, err := fsHandleOf(f, "read")
	if err == nil {
		err = h.readable()
	}
	if err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.node.data) {
		return 0, io.EOF
	}
	n := copy(b, h.node.data[h.pos:])
	h.pos += n
	return n, nil
}

//vp:model (*os.File).ReadAt
func FileReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := fsHandleOf(f, "read")
	if err == nil {
		err = h.readable()
	}
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, fsErr("readat", h.name, errors.New("negative offset"))
	}
	n := 0
	if int(off) < len(h.node.data) {
		n = copy(b, h.node.data[off:])
	}
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

//vp:model (*os.File).Seek
func FileSeek(f *os.File, offset int64, whence int) (int64, error) {
	h, err := fsHandleOf(f, "seek")
	if err != nil {
		return 0, err
	}
	p := int(offset)
	switch whence {
	case io.SeekCurrent:
		p += h.pos
	case io.SeekEnd:
		p += len(h.node.data)
	}
	if p < 0 {
		return 0, fsErr("seek", h.name, fs.ErrInvalid)
	}
	h.pos = p
	return int64(p), nil
}

//vp:model (*os.File).Write
func FileWrite(f *os.File, b []byte) (int, error) {
	h, err := fsHandleOf(f, "write")
	if err != nil {
		return 0, err
	}
	if !h.write {
		return 0, fsErr("write", h.name, errBadFD)
	}
	if h.append {
		h.pos = len(h.node.data)
	}
	d := append([]byte(nil), h.node.data...)
	for len(d) < h.pos+len(b) {
		d = append(d, 0)
	}
	copy(d[h.pos:], b)
	h.node.data = d
	h.pos += len(b)
	return len(b), nil
}

//vp:model (*os.File).WriteString
func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

type fileReader struct{ f *os.File }

func (r fileReader) Read(b []byte) (int, error)  { return FileRead(r.f, b) }
func (r fileReader) Write(b []byte) (int, error) { return FileWrite(r.f, b) }

//vp:model (*os.File).ReadFrom
func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{fileReader{f}}, r)
}

//vp:model (*os.File).WriteTo
func FileWriteTo(f *os.File, w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{fileReader{f}})
}

//vp:model (*os.File).Truncate
func FileTruncate(f *os.File, size int64) error {
	h, err := fsHandleOf(f, "truncate")
	if err != nil {
		return err
	}
	d := append([]byte(nil), h.node.data...)
	for len(d) < int(size) {
		d = append(d, 0)
	}
	h.node.data = d[:size]
	return nil
}

//vp:model (*os.File).ReadDir
func FileReadDir(f *os.File, n int) ([]fs.DirEntry, error) {
	h, err := fsHandleOf(f, "readdir")
	if err != nil {
		return nil, err
	}
	if !h.node.dir {
		return nil, fsErr("readdirent", h.name, errNotDir)
	}
	if !h.listed {
		h.listed = true
		h.list = fsChildren(h.node.path)
	}
	if n > 0 {
		if len(h.list) == 0 {
			return nil, io.EOF
		}
		if n > len(h.list) {
			n = len(h.list)
		}
		l := h.list[:n]
		h.list = h.list[n:]
		return l, nil
	}
	l := h.list
	h.list = nil
	return l, nil
}

//vp:model (*os.File).Readdir
func FileReaddir(f *os.File, n int) ([]fs.FileInfo, error) {
	l, err := FileReadDir(f, n)
	r := []fs.FileInfo{}
	for _, e := range l {
		r = append(r, e.(fsInfo))
	}
	return r, err
}

//vp:model (*os.File).Readdirnames
func FileReaddirnames(f *os.File, n int) ([]string, error) {
	l, err := FileReadDir(f, n)
	r := []string{}
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, err
}

//vp:model os.IsNotExist
func OSIsNotExist(err error) bool { return fsUnder(err) == fs.ErrNotExist }

//vp:model os.IsExist
func OSIsExist(err error) bool { return fsUnder(err) == fs.ErrExist }

func fsUnder(err error) error {
	if e, ok := err.(*fs.PathError); ok {
		return e.Err
	}
	return err
}
