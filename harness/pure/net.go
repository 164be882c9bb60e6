package pure

import (
	"encoding/binary"
	"errors"
	"io"
	stdnet "net"
	"time"

	"github.com/axgrid/axutils/net"
	_ "vpharness/model"
	"vpharness/vp"
)

// Any int, any byte count 0..8: length, position and value of every byte, and reading back.
//
//vp:check N01
func IntBytes() {
	v := vp.Int("v")
	n := vp.Choose("n", 9)
	b := net.GetBytesFromInt(v, n)
	vp.Assert(len(b) == n, "GetBytesFromInt gives n bytes")
	for i := range b {
		vp.Assert(b[i] == byte(v>>(8*i)), "byte i is bits 8i..8i+7 of the integer")
	}
	want := v
	if n < 8 {
		want = v & (1<<(8*n) - 1)
	}
	got := net.GetIntFromBytes(b)
	vp.Assert(got == want, "reading back gives the integer modulo 2^(8n)")
	vp.ObserveInt("got", got)
}

// Any byte string of length 0..8: reading and writing again returns the bytes.
//
//vp:check N01
func BytesInt() {
	n := vp.Choose("n", 9)
	b := vp.Bytes("b", n)
	v := net.GetIntFromBytes(b)
	c := net.GetBytesFromInt(v, n)
	vp.Assert(vp.EqBytes(b, c), "writing back gives the bytes")
	var w uint64
	for i := n - 1; i >= 0; i-- {
		w = w<<8 | uint64(b[i])
	}
	vp.Assert(uint64(v) == w, "value is the little-endian number")
	vp.ObserveInt("v", v)
}

// Every uint32 and uint16; every 4- and 2-byte string, also with trailing bytes.
//
//vp:check N01
func FixedWidth() {
	v := vp.Uint32("v")
	b := net.GetBytesFromUInt32(v)
	vp.Assert(len(b) == 4, "32-bit form has 4 bytes")
	vp.Assert(vp.And(b[0] == byte(v), b[1] == byte(v>>8), b[2] == byte(v>>16), b[3] == byte(v>>24)), "32-bit form is little-endian")
	vp.Assert(net.GetUInt32FromBytes(b) == v, "32-bit round trip")
	w := vp.Uint16("w")
	c := net.GetBytesFromUInt16(w)
	vp.Assert(len(c) == 2, "16-bit form has 2 bytes")
	vp.Assert(vp.And(c[0] == byte(w), c[1] == byte(w>>8)), "16-bit form is little-endian")
	vp.Assert(net.GetUInt16FromBytes(c) == w, "16-bit round trip")
	d := vp.Bytes("d", 4)
	vp.Assert(vp.EqBytes(net.GetBytesFromUInt32(net.GetUInt32FromBytes(d)), d), "4 bytes round trip")
	e := vp.Bytes("e", 2)
	vp.Assert(vp.EqBytes(net.GetBytesFromUInt16(net.GetUInt16FromBytes(e)), e), "2 bytes round trip")
	vp.Assert(net.GetIntFromBytes(b) == int(v), "agrees with the integer helper")
	vp.ObserveInt("b0", int(b[0]))
}

func order(big bool) binary.ByteOrder {
	if big {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

// Every value of each unsigned type, both byte orders; unpacking any byte string of the right width.
//
//vp:check N02
func Pack() {
	big := vp.Choose("big", 2) == 1
	o := order(big)
	at := func(b []byte, i int) byte {
		if big {
			return b[len(b)-1-i]
		}
		return b[i]
	}
	switch vp.Choose("type", 4) {
	case 0:
		v := vp.Uint64("v")
		b := net.PackUint(o, v)
		vp.Assert(len(b) == 8, "uint64 packs to 8 bytes")
		for i := 0; i < 8; i++ {
			vp.Assert(at(b, i) == byte(v>>(8*i)), "byte order of the packed uint64")
		}
		r := vp.Uint64("old")
		vp.Assert(net.UnpackUint(o, b, &r) == nil, "unpacking a packed value succeeds")
		vp.Assert(r == v, "uint64 round trip")
		d := vp.Bytes("d", 8)
		vp.Assert(net.UnpackUint(o, d, &r) == nil && vp.EqBytes(net.PackUint(o, r), d), "8 bytes round trip")
	case 1:
		v := vp.Uint32("v")
		b := net.PackUint(o, v)
		vp.Assert(len(b) == 4, "uint32 packs to 4 bytes")
		for i := 0; i < 4; i++ {
			vp.Assert(at(b, i) == byte(v>>(8*i)), "byte order of the packed uint32")
		}
		r := vp.Uint32("old")
		vp.Assert(net.UnpackUint(o, b, &r) == nil, "unpacking a packed value succeeds")
		vp.Assert(r == v, "uint32 round trip")
		d := vp.Bytes("d", 4)
		vp.Assert(net.UnpackUint(o, d, &r) == nil && vp.EqBytes(net.PackUint(o, r), d), "4 bytes round trip")
	case 2:
		v := vp.Uint16("v")
		b := net.PackUint(o, v)
		vp.Assert(len(b) == 2, "uint16 packs to 2 bytes")
		for i := 0; i < 2; i++ {
			vp.Assert(at(b, i) == byte(v>>(8*i)), "byte order of the packed uint16")
		}
		r := vp.Uint16("old")
		vp.Assert(net.UnpackUint(o, b, &r) == nil, "unpacking a packed value succeeds")
		vp.Assert(r == v, "uint16 round trip")
		d := vp.Bytes("d", 2)
		vp.Assert(net.UnpackUint(o, d, &r) == nil && vp.EqBytes(net.PackUint(o, r), d), "2 bytes round trip")
	default:
		v := vp.Byte("v")
		b := net.PackUint(o, v)
		vp.Assert(len(b) == 1, "uint8 packs to 1 byte")
		vp.Assert(b[0] == v, "packed uint8")
		r := vp.Byte("old")
		vp.Assert(net.UnpackUint(o, b, &r) == nil, "unpacking a packed value succeeds")
		vp.Assert(r == v, "uint8 round trip")
	}
}

func packPanics(o binary.ByteOrder, v any) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	net.PackUint(o, v)
	return false
}

// Nine unsupported types each, both byte orders.
//
//vp:check N02
func PackUnsupported() {
	o := order(vp.Choose("big", 2) == 1)
	d := vp.Bytes("d", 8)
	i := vp.Int("i")
	i64, i32, i16, i8, u, b, s := int64(i), int32(i), int16(i), int8(i), uint(i), i > 0, "x"
	var f float64 = 1
	ps := []any{&i, &i64, &i32, &i16, &i8, &u, &b, &s, &f, uint64(1), uint32(1), nil}
	vs := []any{i, i64, i32, i16, i8, u, b, s, f, d, new(uint64), nil}
	k := vp.Choose("k", len(ps))
	err := net.UnpackUint(o, d, ps[k])
	vp.Assert(err != nil && errors.Is(err, net.ErrUnsupportedType), "unpacking into an unsupported type reports the unsupported-type error")
	vp.Assert(vp.And(i64 == int64(i), i32 == int32(i), u == uint(i)), "an unsupported target is not written")
	vp.Assert(packPanics(o, vs[k]), "packing an unsupported type panics")
}

// Payloads of up to 4 arbitrary bytes and selected lengths up to 65600 (first, middle and last bytes arbitrary,
// with spare capacity behind the payload): prefix value, payload, and independence from the caller's slice.
//
//vp:check N03
func AddSize() {
	lens := []int{0, 1, 2, 3, 4, 7, 255, 256, 257, 300, 65535, 65536, 65537, 65600}
	n := lens[vp.Choose("n", len(lens))]
	back := make([]byte, n+8)
	for _, i := range []int{0, 1, 2, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n {
			back[i] = vp.Byte("b")
		}
	}
	tail := vp.Byte("tail")
	back[n] = tail
	data := back[:n]
	want := append([]byte(nil), data...)
	wide := vp.Choose("wide", 2) == 1
	var r []byte
	var p int
	if wide {
		r, p = net.AddSize32(data), 4
	} else {
		r, p = net.AddSize16(data), 2
	}
	vp.Assert(len(r) == n+p, "result is prefix plus payload")
	for i := 0; i < p; i++ {
		vp.Assert(r[i] == byte(n>>(8*i)), "prefix is the little-endian payload length")
	}
	vp.Assert(vp.EqBytes(r[p:], want), "payload bytes follow unchanged")
	vp.Assert(vp.EqBytes(data, want) && back[n] == tail, "the caller's payload is unchanged")
	for _, i := range []int{0, 1, 2, 3, p, p + 1, p + n/2, len(r) - 2, len(r) - 1} {
		if i >= 0 && i < len(r) {
			r[i]++
		}
	}
	_ = append(r, 1, 2, 3)
	vp.Assert(vp.EqBytes(data, want) && back[n] == tail, "the result shares no memory with the payload")
}

// Slices of 0..10, 16, 21 and 32 arbitrary bytes, every positive int as chunk size.
//
//vp:check N04
func Chunks() {
	n := vp.Choose("n", 14)
	if n > 10 {
		n = []int{16, 21, 32}[n-11]
	}
	chunks(n)
}

// Slices of 0..48 arbitrary bytes, every positive int as chunk size.
//
//vp:check N04 thorough
func Chunks48() { chunks(vp.Choose("n", 49)) }

func chunks(n int) {
	size := vp.IntRange("size", 1, 1<<63-1)
	data := vp.Bytes("d", n)
	want := append([]byte(nil), data...)
	cs := net.Chunk(data, size)
	if n == 0 {
		vp.Assert(len(cs) == 0, "an empty slice gives no chunks")
	}
	var all []byte
	for i, c := range cs {
		if i < len(cs)-1 {
			vp.Assert(len(c) == size, "every chunk but the last has exactly the size")
		} else {
			vp.Assert(len(c) > 0 && len(c) <= size, "the last chunk is non-empty and not larger than the size")
		}
		all = append(all, c...)
	}
	vp.Assert(vp.EqBytes(all, want), "the concatenation of the chunks is the original slice")
	vp.Assert(vp.EqBytes(data, want), "the input is unchanged")
	vp.ObserveInt("chunks", len(cs))
}

// Slices of 0..5 arbitrary bytes, every prefix length.
//
//vp:check N04
func Copies() {
	n := vp.Choose("n", 6)
	data := vp.Bytes("d", n)
	want := append([]byte(nil), data...)
	l := vp.IntRange("l", 0, n)
	c := net.CopyBytes(data, l)
	vp.Assert(len(c) == l, "the copy has the requested length")
	vp.Assert(vp.EqBytes(c, want[:l]), "the copy has the first bytes")
	for i := range c {
		c[i] ^= 0xff
	}
	vp.Assert(vp.EqBytes(data, want), "changing the copy leaves the original")
	for i := range data {
		data[i] = 7
	}
	for i := range c {
		vp.Assert(c[i] == want[i]^0xff, "changing the original leaves the copy")
	}
	_ = append(c, 9)
	for i := range data {
		vp.Assert(data[i] == 7, "appending to the copy leaves the original")
	}
}

// Boolean arrays of length 0..10 (thorough: 0..17), all values.
//
//vp:check N05 qtimeout=20000
func Bools() {
	n := vp.Choose("n", 11)
	boolsN(n)
}

// Boolean arrays of length 15..17, all values.
//
//vp:check N05 thorough
func BoolsLong() {
	boolsN(15 + vp.Choose("n", 3))
}

func boolsN(n int) {
	a := make([]bool, n)
	for i := range a {
		a[i] = vp.Bool("a")
	}
	b := net.BoolArrayToByte(a)
	vp.Assert(len(b) == (n+7)/8, "packing uses ceil(n/8) bytes")
	for i := 0; i < 8*len(b); i++ {
		bit := b[i/8]>>(i%8)&1 == 1
		if i < n {
			vp.Assert(bit == a[i], "bit i is element i, least significant bit first")
		} else {
			vp.Assert(!bit, "unused bits are zero")
		}
	}
	r := net.ByteToBoolArray(b, n)
	vp.Assert(len(r) == n, "unpacking with the original length gives that length")
	for i := range r {
		vp.Assert(r[i] == a[i], "unpacking gives the array back")
	}
}

// Byte strings of length 0..4, all values; unpacking without and with a count.
//
//vp:check N05
func Bits() {
	n := vp.Choose("n", 5)
	b := vp.Bytes("b", n)
	want := append([]byte(nil), b...)
	a := net.ByteToBoolArray(b)
	vp.Assert(len(a) == 8*n, "unpacking gives 8 elements per byte")
	for i := range a {
		vp.Assert(a[i] == (b[i/8]>>(i%8)&1 == 1), "element i is bit i, least significant bit first")
	}
	vp.Assert(vp.EqBytes(b, want), "the input is unchanged")
}

// Byte strings of length 0..1, all values: unpacking and packing again.
//
//vp:check N05
func BitsBack() {
	n := vp.Choose("n", 2)
	b := vp.Bytes("b", n)
	c := net.BoolArrayToByte(net.ByteToBoolArray(b))
	vp.Assert(vp.EqBytes(b, c), "packing the unpacked bits returns the bytes")
}

// Sizes 0..40.
//
//vp:check N05
func AllTrue() {
	n := vp.Choose("n", 41)
	a := net.CreateAllTrueBoolArray(n)
	vp.Assert(len(a) == n, "the all-true array has the requested length")
	for _, x := range a {
		vp.Assert(x, "every element is true")
	}
}

var errConn = errors.New("connection failed")
var errDeadline = errors.New("deadline not supported")

// conn delivers stream in fragments of arbitrary size and then fails with end.
type conn struct {
	stdnet.Conn
	stream   []byte
	pos      int
	end      error
	together bool // the error comes with the last fragment
	reads    int
	zero     int
	deadline time.Time
	dl       int
	dlErr    error
	dlFirst  bool
}

func (c *conn) Read(p []byte) (int, error) {
	c.reads++
	if c.dl > 0 && c.reads == 1 {
		c.dlFirst = true
	}
	if len(p) == 0 {
		return 0, nil
	}
	left := len(c.stream) - c.pos
	if left == 0 {
		return 0, c.end
	}
	lo := 1
	if c.zero > 0 {
		lo = 0
	}
	k := vp.Concrete(vp.IntRange("frag", lo, min(len(p), left)))
	if k == 0 {
		c.zero--
	}
	copy(p, c.stream[c.pos:c.pos+k])
	c.pos += k
	if k > 0 && c.pos == len(c.stream) && c.together {
		return k, c.end
	}
	return k, nil
}
func (c *conn) SetReadDeadline(t time.Time) error {
	c.dl++
	c.deadline = t
	return c.dlErr
}
func (c *conn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

// n in 0..4, streams of 0..5 arbitrary bytes ending in EOF or an error (alone or together with the last bytes),
// every fragmentation including an empty read; with and without timeout (any duration), failing deadline.
//
//vp:check N06
func Read() {
	n := vp.Choose("n", 5)
	m := vp.Choose("stream", 6)
	c := &conn{stream: vp.Bytes("s", m), zero: vp.Choose("zero", 2), end: io.EOF}
	if vp.Choose("fail", 2) == 1 {
		c.end = errConn
	}
	c.together = vp.Choose("together", 2) == 1
	var b []byte
	var err error
	if vp.Choose("timeout", 2) == 1 {
		d := time.Duration(vp.IntRange("d", -1000, 1<<40))
		if vp.Choose("dlfail", 2) == 1 {
			c.dlErr = errDeadline
		}
		now := time.Now()
		b, err = net.ReadNBytesWithTimeout(c, n, d)
		vp.Assert(c.dl == 1, "the deadline is set once")
		vp.Assert(c.deadline.Equal(now.Add(d)), "the deadline is now plus the timeout")
		if c.dlErr != nil {
			vp.Assert(err == errDeadline, "a failure to set the deadline is reported")
			vp.Assert(c.reads == 0 && c.pos == 0, "nothing is read when the deadline cannot be set")
			vp.Assert(len(b) == 0, "no data with an error")
			return
		}
		vp.Assert(c.reads == 0 || c.dlFirst, "the deadline is set before reading")
	} else {
		b, err = net.ReadNBytes(c, n)
	}
	if m >= n {
		vp.Assert(err == nil, "enough data: no error")
		vp.Assert(len(b) == n && vp.EqBytes(b, c.stream[:n]), "exactly the next n bytes are returned")
		vp.Assert(c.pos == n, "nothing more than n bytes is consumed")
	} else {
		vp.Assert(err != nil, "too little data: error")
		vp.Assert(len(b) == 0, "no partial data with an error")
	}
	vp.ObserveInt("len", len(b))
}
