package sec

import (
	"bytes"
	"compress/gzip"
	"io"

	"github.com/axgrid/axutils/zip"
	"vpharness/vp"
)

func compress(data []byte) []byte {
	d := clone(data)
	z, err := zip.GZipData(data)
	vp.Assert(err == nil, "compression succeeds")
	vp.Assert(vp.EqBytes(d, data), "compression leaves its argument alone")
	return z
}

// roundTrip: the data comes back, from the library and from a plain gzip reader that reads to the end.
func roundTrip(data []byte) {
	z := compress(data)
	c := clone(z)
	out, err := zip.GUnzipData(z)
	vp.Assert(err == nil, "decompression succeeds")
	vp.Assert(len(out) == len(data) && vp.EqBytes(out, data), "decompression returns the original data")
	vp.Assert(vp.EqBytes(c, z), "decompression leaves its argument alone")
	in := bytes.NewReader(z)
	r, err := gzip.NewReader(in)
	vp.Assert(err == nil, "the compressed form is a gzip stream")
	out, err = io.ReadAll(r)
	vp.Assert(err == nil && in.Len() == 0, "the gzip stream is complete")
	vp.Assert(len(out) == len(data) && vp.EqBytes(out, data), "the gzip stream holds the data")
}

// Arbitrary data of up to 8 bytes.
//
//vp:check Z01
func GzipShort() { roundTrip(vp.Bytes("data", vp.Choose("n", 9))) }

// Data of some larger sizes up to 5000 bytes, arbitrary first and last bytes.
//
//vp:check Z01 instr=4000000
func GzipLong() {
	n := []int{31, 32, 33, 255, 256, 511, 512, 513, 1023, 1024, 1025, 1535, 1536, 1537, 2048, 4096, 5000}[vp.Choose("size", 17)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 7)
	}
	copy(data, vp.Bytes("first", 4))
	copy(data[n-4:], vp.Bytes("last", 4))
	roundTrip(data)
}

func damaged(z []byte) {
	_, err := zip.GUnzipData(z)
	vp.Assert(err != nil, "damaged data is reported")
}

// Arbitrary data of up to 6 bytes, compressed: cut anywhere in the first 18 or last 10 bytes, or an arbitrary change of
// the magic bytes, the checksum or the size.
//
//vp:check Z01
func GzipDamaged() {
	z := compress(vp.Bytes("data", vp.Choose("n", 7)))
	switch vp.Choose("damage", 4) {
	case 0:
		damaged(z[:vp.Choose("keep", 19)])
	case 1:
		damaged(z[:len(z)-1-vp.Choose("drop", 10)])
	case 2:
		d := vp.Byte("xor")
		vp.Assume(d != 0)
		z[vp.Choose("at", 3)] ^= d
		damaged(z)
	case 3:
		d := vp.Byte("xor")
		vp.Assume(d != 0)
		z[len(z)-1-vp.Choose("at", 8)] ^= d
		damaged(z)
	}
}

// Arbitrary bytes (up to 24) that do not start like a gzip stream.
//
//vp:check Z01
func GzipGarbage() {
	b := vp.Bytes("in", vp.Choose("n", 25))
	if len(b) >= 10 {
		vp.Assume(vp.Or(b[0] != 0x1f, b[1] != 0x8b, b[2] != 8))
	}
	damaged(b)
}

// Two pieces of data (up to 3 bytes each) compressed and decompressed in turn do not disturb each other.
//
//vp:check Z01
func GzipTwo() {
	a, b := vp.Bytes("a", vp.Choose("n", 4)), vp.Bytes("b", vp.Choose("n", 4))
	za := compress(a)
	zb := compress(b)
	oa, err := zip.GUnzipData(za)
	vp.Assert(err == nil, "decompression succeeds")
	ob, err := zip.GUnzipData(zb)
	vp.Assert(err == nil, "decompression succeeds")
	vp.Assert(len(oa) == len(a) && vp.EqBytes(oa, a), "decompression returns the original data")
	vp.Assert(len(ob) == len(b) && vp.EqBytes(ob, b), "decompression returns the original data")
}
