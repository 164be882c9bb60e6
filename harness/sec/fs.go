package sec

import (
	"crypto/rand"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"

	"github.com/axgrid/axutils/crypto_fs"
	"vpharness/vp"
)

// scratch is a fresh directory, removed at the end of the harness.
func scratch() string {
	d, err := os.MkdirTemp("", "vp")
	if err != nil {
		panic(err)
	}
	return d
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// entry is a file or (data == nil) a directory, with its path.
type entry struct {
	path string
	data []byte
}

func (e entry) dir() bool { return e.data == nil }

func create(es []entry) {
	for _, e := range es {
		if e.dir() {
			must(os.Mkdir(e.path, 0755))
		} else {
			must(os.WriteFile(e.path, e.data, 0644))
		}
	}
}

func content(max int) []byte {
	return append([]byte{}, vp.Bytes("content", vp.Choose("size", max+1))...)
}

// secret is none, or any 16, 24 or 32 bytes.
func secret() []byte {
	n := vp.Choose("secret", 4)
	if n == 0 {
		return nil
	}
	return vp.Bytes("key", 8+8*n)
}

func builder(key []byte) *crypto_fs.CryptoFSBuilder {
	rand.Reader = &source{}
	b := crypto_fs.NewCryptoFSBuilder()
	if key != nil {
		b = b.WithAES(clone(key))
	}
	return b
}

func load(file string, key []byte) crypto_fs.CryptoFS {
	f, err := crypto_fs.CryptoFSFromFile(file, key)
	vp.Assert(err == nil && f != nil, "a saved archive can be loaded")
	return f
}

func under(dir string, es []entry) []entry {
	var l []entry
	for _, e := range es {
		if path.Dir(e.path) == dir {
			l = append(l, e)
		}
	}
	return l
}

func isInfo(i fs.FileInfo, err error, e entry) {
	vp.Assert(err == nil, "an entry has file information")
	vp.Assert(i.Name() == path.Base(e.path), "the name is the last element of the path")
	vp.Assert(i.IsDir() == e.dir(), "directories are directories and files are files")
	if !e.dir() {
		vp.Assert(i.Size() == int64(len(e.data)), "the size is that of the content")
	}
}

// present: e can be opened and has the expected name, kind, size and content.
func present(f crypto_fs.CryptoFS, e entry) {
	o, err := f.Open(e.path)
	vp.Assert(err == nil, "an added entry can be opened")
	i, err := o.Stat()
	isInfo(i, err, e)
	if !e.dir() {
		b, err := io.ReadAll(o)
		vp.Assert(err == nil, "an added file can be read to the end")
		vp.Assert(len(b) == len(e.data) && vp.EqBytes(b, e.data), "the content is that of the file")
	}
	vp.Assert(o.Close() == nil, "an opened entry can be closed")
}

func absent(f crypto_fs.CryptoFS, p string) {
	o, err := f.Open(p)
	vp.Assert(err != nil && errors.Is(err, fs.ErrNotExist), "opening an unknown path is a not-exist error")
	vp.Assert(o == nil, "no file with an error")
	l, err := f.ReadDir(p)
	vp.Assert(err != nil && errors.Is(err, fs.ErrNotExist), "listing an unknown path is a not-exist error")
	vp.Assert(len(l) == 0, "no entries with an error")
}

// listed: the directory lists exactly its entries.
func listed(f crypto_fs.CryptoFS, dir string, es []entry) {
	want := under(dir, es)
	l, err := f.ReadDir(dir)
	vp.Assert(err == nil, "an added directory can be listed")
	vp.Assert(len(l) == len(want), "a directory has as many entries as the real one")
	for _, w := range want {
		n := 0
		for _, e := range l {
			if e.Name() == path.Base(w.path) {
				n++
				vp.Assert(e.IsDir() == w.dir(), "a listed entry has the right directory flag")
			}
		}
		vp.Assert(n == 1, "every entry of the real directory is listed once")
	}
}

// exactly: es are the entries of the file system, all of them and nothing else, where anything else is any path of up to
// two bytes below the directories given.
func exactly(f crypto_fs.CryptoFS, es []entry, dirs ...string) {
	for _, e := range es {
		present(f, e)
	}
	p := path.Join(dirs[vp.Choose("where", len(dirs))])
	if n := vp.Choose("length", 3); n > 0 {
		p += "/" + vp.String("name", n)
	}
	for _, e := range es {
		if e.path == p {
			return
		}
	}
	absent(f, p)
}

// One or two files of arbitrary content of up to 3 bytes, added one by one (possibly with a name that does not exist, or a
// directory), any secret or none; the originals are removed before loading.
//
//vp:check F01
func FSFiles() {
	dir := scratch()
	defer os.RemoveAll(dir)
	src := dir + "/s"
	es := []entry{{src + "/a", content(3)}, {src + "/b.c", content(2)}}
	create(append([]entry{{src, nil}}, es...))
	key := secret()
	b := builder(key).WithSavePath(dir + "/out")
	n := 1 + vp.Choose("files", 2)
	for _, e := range es[:n] {
		b = b.AddFile(e.path)
	}
	switch vp.Choose("also", 3) {
	case 1:
		b = b.AddFile(src + "/x")
	case 2:
		b = b.AddFile(src)
	}
	vp.Assert(b.Save() == nil, "saving succeeds")
	must(os.RemoveAll(src))
	exactly(load(dir+"/out", key), es[:n], src, dir)
}

// A directory tree: a file, a directory with up to two files and a directory, an empty directory, each there or not, with
// contents of up to 2 arbitrary bytes.
func tree(root string) []entry {
	es := []entry{{root, nil}}
	if vp.Choose("file", 2) == 1 {
		es = append(es, entry{root + "/a", content(2)})
	}
	if vp.Choose("empty", 2) == 1 {
		es = append(es, entry{root + "/b", nil})
	}
	if k := vp.Choose("sub", 4); k > 0 {
		es = append(es, entry{root + "/c", nil}, entry{root + "/c/a", vp.Bytes("inner", 1)})
		if k > 1 {
			es = append(es, entry{root + "/c/b.", append([]byte{}, vp.Bytes("inner", 0)...)})
		}
		if k > 2 {
			es = append(es, entry{root + "/c/c", nil}, entry{root + "/c/c/c", vp.Bytes("inner", 2)})
		}
	}
	return es
}

// Trees added as a folder, by full path or below a root directory; with and without secret.
//
//vp:check F01,F02
func FSTree() {
	dir := scratch()
	defer os.RemoveAll(dir)
	src := dir + "/s"
	es := tree(src)
	create(es)
	create([]entry{{dir + "/t", []byte{1}}})
	key := secret()
	b := builder(key).WithSavePath(dir + "/out")
	switch vp.Choose("how", 4) {
	case 0:
		b = b.AddFolder(src)
	case 1:
		b = b.WithRootDir(dir).AddFolder("s")
	case 2:
		b = b.WithRootDir(dir + "/").AddFolder("./s/")
	case 3:
		b = b.AddFolder(src).AddFolder(src)
	}
	vp.Assert(b.Save() == nil, "saving succeeds")
	must(os.RemoveAll(src))
	f := load(dir+"/out", key)
	for _, e := range es {
		if e.dir() {
			listed(f, e.path, es)
		}
	}
	exactly(f, es, src, dir, src+"/c")
}

// A folder and single files, inside and outside of it, in either order; the folder or the file may be missing.
//
//vp:check F01,F02
func FSMixed() {
	dir := scratch()
	defer os.RemoveAll(dir)
	src := dir + "/s"
	out := entry{dir + "/t", content(2)}
	in := entry{src + "/a", content(2)}
	create([]entry{{src, nil}, out, in})
	b := builder(nil).WithSavePath(dir + "/out")
	var es []entry
	order := vp.Choose("order", 3)
	if order == 1 {
		b = b.AddFile(out.path)
	}
	switch vp.Choose("folder", 3) {
	case 0:
		b = b.AddFolder(src)
		es = append(es, entry{src, nil}, in)
	case 1:
		b = b.AddFolder(dir + "/missing")
	case 2: // a single file as a folder
		b = b.AddFolder(in.path)
		es = append(es, in)
	}
	switch order {
	case 0:
		b = b.AddFile(out.path)
		es = append(es, out)
	case 1:
		es = append(es, out)
	case 2: // nothing else
	}
	vp.Assert(b.Save() == nil, "saving succeeds")
	exactly(load(dir+"/out", nil), es, src, dir, dir+"/missing")
}

// Two folders, one inside the other or side by side.
//
//vp:check F01,F02
func FSTwo() {
	dir := scratch()
	defer os.RemoveAll(dir)
	a, s := dir+"/a", dir+"/a/s"
	if vp.Choose("beside", 2) == 1 {
		s = dir + "/b"
	}
	es := []entry{{a, nil}, {s, nil}, {a + "/f", content(1)}, {s + "/f", content(2)}}
	create(es)
	b := builder(nil).WithSavePath(dir + "/out")
	if vp.Choose("order", 2) == 0 {
		b = b.AddFolder(a).AddFolder(s)
	} else {
		b = b.AddFolder(s).AddFolder(a)
	}
	vp.Assert(b.Save() == nil, "saving succeeds")
	f := load(dir+"/out", nil)
	listed(f, a, es)
	listed(f, s, es)
	exactly(f, es, dir, a, s)
}

func refused(file string, key []byte) {
	f, err := crypto_fs.CryptoFSFromFile(file, key)
	vp.Assert(err != nil, "an archive that does not open is an error")
	vp.Assert(f == nil, "no file system with an error")
}

// An archive with a secret: any other secret, none, any changed byte, any truncation, any byte appended is refused.
//
//vp:check F01
func FSWrong() {
	dir := scratch()
	defer os.RemoveAll(dir)
	es := []entry{{dir + "/a", content(1)}}
	create(es)
	key := vp.Bytes("key", keyLen("keylen"))
	out := dir + "/out"
	vp.Assert(builder(key).AddFile(es[0].path).WithSavePath(out).Save() == nil, "saving succeeds")
	data, err := os.ReadFile(out)
	vp.Assert(err == nil, "the archive is written to the save path")
	switch vp.Choose("how", 5) {
	case 0:
		other := vp.Bytes("other", keyLen("otherlen"))
		vp.Assume(!vp.EqBytes(key, other))
		refused(out, other)
	case 1:
		refused(out, vp.Bytes("other", []int{0, 1, 15, 17, 31, 33}[vp.Choose("badlen", 6)]))
	case 2:
		d := vp.Byte("xor")
		vp.Assume(d != 0)
		n := vp.Choose("at", 32)
		if n >= 16 {
			n = len(data) - 32 + n
		}
		data[n] ^= d
		must(os.WriteFile(out, data, 0644))
		refused(out, key)
	case 3:
		n := vp.Choose("cut", 64)
		if n >= 32 {
			n = len(data) - 64 + n
		}
		must(os.WriteFile(out, data[:n], 0644))
		refused(out, key)
	case 4:
		must(os.WriteFile(out, append(data, vp.Byte("more")), 0644))
		refused(out, key)
	}
}

// An archive without secret, cut anywhere in the first 16 or last 8 bytes, is refused, and so is one that does not exist.
//
//vp:check F01
func FSCut() {
	dir := scratch()
	defer os.RemoveAll(dir)
	es := []entry{{dir + "/a", content(2)}}
	create(es)
	out := dir + "/out"
	vp.Assert(builder(nil).AddFile(es[0].path).WithSavePath(out).Save() == nil, "saving succeeds")
	data, err := os.ReadFile(out)
	vp.Assert(err == nil, "the archive is written to the save path")
	n := vp.Choose("cut", 25)
	if n == 24 {
		refused(dir+"/missing", nil)
		refused(dir, nil)
		return
	}
	if n >= 16 {
		n = len(data) - 24 + n
	}
	must(os.WriteFile(out, data[:n], 0644))
	refused(out, nil)
}

// Saving over an earlier, longer or shorter, archive; an archive without any file; the builder saves twice.
//
//vp:check F01
func FSAgain() {
	dir := scratch()
	defer os.RemoveAll(dir)
	a, c := entry{dir + "/a", content(2)}, entry{dir + "/b", content(2)}
	create([]entry{a, c})
	key := secret()
	out := dir + "/out"
	b := builder(nil).WithSavePath(out)
	first := vp.Choose("first", 3)
	if first > 0 {
		b = b.AddFile(a.path)
	}
	if first > 1 {
		b = b.AddFile(c.path)
	}
	vp.Assert(b.Save() == nil, "saving succeeds")
	var es []entry
	if vp.Choose("same", 2) == 1 {
		es = []entry{a, c}[:first]
		must(os.WriteFile(a.path, []byte{7, 7, 7}, 0644)) // changes after adding do not count
		vp.Assert(b.Save() == nil, "saving again succeeds")
		key = nil
	} else {
		b = builder(key).WithSavePath(out)
		if vp.Choose("second", 2) == 1 {
			b = b.AddFile(c.path)
			es = []entry{c}
		}
		vp.Assert(b.Save() == nil, "saving succeeds")
	}
	exactly(load(out, key), es, dir)
}

// A builder without save path, with one in a missing directory, with one that is a directory, or with a secret of a wrong length: Save is
// an error.
//
//vp:check F01
func FSUnsaved() {
	dir := scratch()
	defer os.RemoveAll(dir)
	a := entry{dir + "/a", content(1)}
	create([]entry{a})
	b := builder(nil).AddFile(a.path)
	switch vp.Choose("how", 4) {
	case 0:
	case 1:
		b = b.WithSavePath(dir + "/missing/out")
	case 2:
		b = b.WithSavePath(dir)
	case 3:
		b = b.WithSavePath(dir + "/out").WithAES(vp.Bytes("key", []int{1, 15, 17, 31, 33}[vp.Choose("badlen", 5)]))
	}
	vp.Assert(b.Save() != nil, "an archive that could not be written is an error")
}

// Lookups in a small tree: every directory lists its entries, a file lists as an error, any path of up to 3 arbitrary bytes
// below the root that is not an entry is unknown to both, and the standard walk sees exactly the entries.
//
//vp:check F02
func FSLookup() {
	dir := scratch()
	defer os.RemoveAll(dir)
	es := []entry{{dir + "/s", nil}, {dir + "/s/a", vp.Bytes("content", 1)}, {dir + "/s/b", nil}, {dir + "/s/b/a", append([]byte{}, vp.Bytes("content", 0)...)}}
	create(es)
	out := dir + "/out"
	vp.Assert(builder(nil).AddFolder(dir+"/s").WithSavePath(out).Save() == nil, "saving succeeds")
	f := load(out, nil)
	switch vp.Choose("what", 3) {
	case 0:
		for _, e := range es {
			if e.dir() {
				listed(f, e.path, es)
			} else {
				l, err := f.ReadDir(e.path)
				vp.Assert(err != nil, "listing a file is an error")
				vp.Assert(len(l) == 0, "no entries with an error")
			}
		}
	case 1:
		p := dir + "/s" + vp.String("name", vp.Choose("length", 4))
		for _, e := range es {
			if e.path == p {
				return
			}
		}
		absent(f, p)
	case 2:
		var seen []string
		err := fs.WalkDir(f, dir+"/s", func(p string, d fs.DirEntry, err error) error {
			vp.Assert(err == nil, "the walk meets no error")
			seen = append(seen, p)
			for _, e := range es {
				if e.path == p {
					vp.Assert(d.IsDir() == e.dir() && d.Name() == path.Base(p), "the walk sees name and kind")
					i, err := d.Info()
					isInfo(i, err, e)
				}
			}
			return nil
		})
		vp.Assert(err == nil, "the walk succeeds")
		vp.Assert(len(seen) == len(es), "the walk sees every entry once")
		for i := range es {
			vp.Assert(seen[i] == es[i].path, "the walk sees the entries in order")
		}
	}
}

func opened(data []byte) (crypto_fs.CryptoFS, string, func()) {
	dir := scratch()
	p := dir + "/f"
	create([]entry{{p, data}})
	vp.Assert(builder(nil).AddFile(p).WithSavePath(dir+"/out").Save() == nil, "saving succeeds")
	return load(dir+"/out", nil), p, func() { os.RemoveAll(dir) }
}

// reading is one opened file and what remains of its content.
type reading struct {
	f    fs.File
	rest []byte
}

// step reads once with a buffer of n bytes.
func (r *reading) step(n int) {
	b := vp.Bytes("buffer", n)
	was := clone(b)
	k, err := r.f.Read(b)
	vp.Assert(0 <= k && k <= n && k <= len(r.rest), "a read returns at most what is asked for and what is left")
	vp.Assert(vp.EqBytes(b[:k], r.rest[:k]), "a read returns the next bytes of the content")
	vp.Assert(vp.EqBytes(b[k:], was[k:]), "a read leaves the rest of the buffer alone")
	if n > 0 && len(r.rest) > 0 {
		vp.Assert(k > 0, "a read makes progress")
	}
	r.rest = r.rest[k:]
	vp.Assert(err == nil || err == io.EOF && len(r.rest) == 0, "no error before the end")
	if n > 0 && k == 0 {
		vp.Assert(err == io.EOF, "end-of-file after the last byte")
	}
}

// readTwo: a file of up to size arbitrary bytes is opened twice and both are read alternately in any order with buffers of up
// to max bytes, reads times in all.
func readTwo(size, max, reads int) {
	data := content(size)
	f, p, done := opened(data)
	defer done()
	var rs []*reading
	for range 2 {
		o, err := f.Open(p)
		vp.Assert(err == nil, "an added file can be opened")
		rs = append(rs, &reading{o, data})
	}
	for range reads {
		rs[vp.Choose("which", 2)].step(vp.Choose("n", max+1))
	}
	for _, r := range rs {
		b, err := io.ReadAll(r.f)
		vp.Assert(err == nil && len(b) == len(r.rest) && vp.EqBytes(b, r.rest), "the rest can be read to the end")
	}
}

// Arbitrary contents of up to 3 bytes, two opens, 4 reads with buffers of up to 3 bytes.
//
//vp:check F03
func FSRead() { readTwo(3, 3, 4) }

// Arbitrary contents of up to 4 bytes, two opens, 5 reads with buffers of up to 5 bytes.
//
//vp:check F03 thorough budget=600
func FSReadMore() { readTwo(4, 5, 5) }

// Larger contents (511, 512, 513 and 1300 bytes, some of them arbitrary) read through the standard helpers.
//
//vp:check F03 instr=4000000
func FSReadAll() {
	n := []int{0, 1, 511, 512, 513, 1300}[vp.Choose("size", 6)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 7)
	}
	copy(data, vp.Bytes("first", 2))
	if n > 1 {
		copy(data[n-2:], vp.Bytes("last", 2))
	}
	f, p, done := opened(data)
	defer done()
	for range 2 {
		b, err := fs.ReadFile(f, p)
		vp.Assert(err == nil && len(b) == n && vp.EqBytes(b, data), "fs.ReadFile returns the content")
	}
	o, err := f.Open(p)
	vp.Assert(err == nil, "an added file can be opened")
	q, err := f.Open(p)
	vp.Assert(err == nil, "an added file can be opened twice")
	if n > 0 {
		b := make([]byte, n)
		_, err = io.ReadFull(o, b)
		vp.Assert(err == nil && vp.EqBytes(b, data), "io.ReadFull returns the content")
	}
	b, err := io.ReadAll(o)
	vp.Assert(err == nil && len(b) == 0, "nothing is left")
	vp.Assert(o.Close() == nil, "an opened file can be closed")
	b, err = io.ReadAll(q)
	vp.Assert(err == nil && len(b) == n && vp.EqBytes(b, data), "the other open is unaffected")
	o, err = f.Open(p)
	vp.Assert(err == nil, "a closed file can be opened again")
	b, err = io.ReadAll(o)
	vp.Assert(err == nil && len(b) == n && vp.EqBytes(b, data), "and read again")
}

// A legal name of an entry, of 1 to max bytes.
func name(max int) string {
	s := vp.String("name", 1+vp.Choose("length", max))
	for i := range len(s) {
		vp.Assume(vp.And(s[i] != 0, s[i] != '/'))
	}
	vp.Assume(s != ".")
	vp.Assume(s != "..")
	return s
}

// A folder with a directory and two files of any names of up to three bytes, in it and in the directory.
//
//vp:check F01,F02
func FSNames() {
	dir := scratch()
	defer os.RemoveAll(dir)
	src := dir + "/s"
	d := src + "/" + name(3)
	es := []entry{{src, nil}, {d, nil}, {d + "/" + name(2), []byte{1}}}
	if vp.Choose("beside", 2) == 1 {
		f := src + "/" + name(1)
		vp.Assume(f != d)
		es = append(es, entry{f, []byte{2, 3}})
	}
	create(es)
	b := builder(nil).WithSavePath(dir + "/out").AddFolder(src)
	vp.Assert(b.Save() == nil, "saving succeeds")
	must(os.RemoveAll(src))
	f := load(dir+"/out", nil)
	for _, e := range es {
		present(f, e)
		if e.dir() {
			listed(f, e.path, es)
		} else {
			l, err := f.ReadDir(e.path)
			vp.Assert(err != nil && len(l) == 0, "listing a file is an error")
		}
	}
}
