package sec

import (
	"crypto/rand"
	"fmt"
	"io"
	"os"

	"github.com/axgrid/axutils/crypto"
	"vpharness/vp"
)

// Larger inputs: most of each is fixed, some of it is arbitrary.

func long(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(7*i + i/256)
	}
	copy(b, vp.Bytes("first", 2))
	copy(b[n-2:], vp.Bytes("last", 2))
	return b
}

// Data of some sizes up to 5000 bytes, arbitrary at both ends, any key: the round trip, and the rejection of any change
// at an arbitrary one of some places, and of a cut.
//
//vp:check K01 instr=8000000
func AESMany() {
	key := vp.Bytes("key", keyLen("keylen"))
	n := []int{15, 16, 17, 127, 128, 129, 255, 256, 1023, 1024, 4096, 5000}[vp.Choose("n", 12)]
	data := long(n)
	ct := encrypt(key, data)
	pt, err := crypto.NewAES(key).Decrypt(ct)
	vp.Assert(err == nil && len(pt) == n && vp.EqBytes(pt, data), "decryption returns the original data")
	d := vp.Byte("xor")
	vp.Assume(d != 0)
	at := []int{0, 11, 12, n / 2, n + 11, n + 12, n + 27}[vp.Choose("at", 7)]
	x := clone(ct)
	x[at] ^= d
	rejected(key, x)
	rejected(key, ct[:at])
	rejected(key, ct[1:])
}

// counter is a random source whose output never repeats.
type counter struct {
	n     int
	drawn []byte
}

func (s *counter) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(s.n >> 4)
	}
	if len(b) > 1 {
		b[1] = byte(s.n)
	}
	s.n += len(b)
	s.drawn = append(s.drawn, b...)
	return len(b), nil
}

// Forty encryptions by one object: a nonce is drawn for each.
//
//vp:check K02 instr=8000000
func AESNonceMany() {
	s := &counter{}
	rand.Reader = s
	key := vp.Bytes("key", 32)
	data := vp.Bytes("data", 2)
	a := crypto.NewAES(key)
	for range 40 {
		before := len(s.drawn)
		ct, err := a.Encrypt(data)
		vp.Assert(err == nil, "encryption with a valid key succeeds")
		vp.Assert(len(s.drawn)-before == 12, "a full-length nonce is drawn for every encryption")
		vp.Assert(len(ct) == 30 && vp.EqBytes(ct[:12], s.drawn[before:]), "the nonce is the bytes drawn")
	}
}

// Data of 10000 to 70000 bytes.
//
//vp:check Z01 instr=40000000
func GzipMany() {
	roundTrip(long([]int{10000, 32767, 32768, 65535, 65536, 70000}[vp.Choose("size", 6)]))
}

// A folder with 30 files in two directories and a path six directories deep; one of the files has 5000 bytes.
//
//vp:check F01,F02 instr=40000000
func FSMany() {
	dir := scratch()
	defer os.RemoveAll(dir)
	src := dir + "/s"
	es := []entry{{src, nil}, {src + "/a", nil}, {src + "/b", nil}}
	for i := range 30 {
		d := src + "/a"
		if i%3 == 0 {
			d = src + "/b"
		}
		data := []byte{byte(i), vp.Byte("content")}
		if i == 17 {
			data = long(5000)
		}
		es = append(es, entry{fmt.Sprintf("%s/f%d", d, i), data})
	}
	deep := src
	for i := range 6 {
		deep += fmt.Sprintf("/d%d", i)
		es = append(es, entry{deep, nil})
	}
	es = append(es, entry{deep + "/f", []byte{1}})
	create(es)
	key := secret()
	vp.Assert(builder(key).WithSavePath(dir+"/out").AddFolder(src).Save() == nil, "saving succeeds")
	must(os.RemoveAll(src))
	f := load(dir+"/out", key)
	for _, e := range es {
		present(f, e)
		if e.dir() {
			listed(f, e.path, es)
		}
	}
	absent(f, src+"/f17")
	absent(f, deep+"/g")
}

// A file of 5000 bytes read through two opens in turn with buffers of 1, 700, 4096 and 9000 bytes.
//
//vp:check F03 instr=40000000
func FSReadMany() {
	data := long(5000)
	f, p, done := opened(data)
	defer done()
	o, err := f.Open(p)
	vp.Assert(err == nil, "an added file can be opened")
	q, err := f.Open(p)
	vp.Assert(err == nil, "an added file can be opened twice")
	pos := [2]int{}
	for k, h := range []io.Reader{o, q, q, o, q, o, o, q, q, o} {
		i := 0
		if h == io.Reader(q) {
			i = 1
		}
		b := make([]byte, []int{1, 700, 4096, 9000, 3}[(k+vp.Choose("shift", 2))%5])
		n, err := h.Read(b)
		if pos[i] == len(data) {
			vp.Assert(n == 0 && err == io.EOF, "the end is reported")
			continue
		}
		vp.Assert(n > 0 && (err == nil || err == io.EOF && pos[i]+n == len(data)), "a read before the end gives something")
		vp.Assert(pos[i]+n <= len(data) && vp.EqBytes(b[:n], data[pos[i]:pos[i]+n]), "the bytes come in order")
		pos[i] += n
	}
}
