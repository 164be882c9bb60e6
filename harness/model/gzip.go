package model

import (
	"bufio"
	"compress/gzip"
	"errors"
	"io"

	"vpharness/vp"
)

// Compression is idealised: a member is the ten-byte header, the data as given in counted blocks (one per flush),
// an empty block, a checksum that differs for different data, and the size.

type gzw struct {
	w            io.Writer
	head, closed bool
	pending, all []byte
}

var gzWriters = map[*gzip.Writer]*gzw{}

//vp:model compress/gzip.NewWriter
func GzipNewWriter(w io.Writer) *gzip.Writer {
	z := new(gzip.Writer)
	gzWriters[z] = &gzw{w: w}
	return z
}

//vp:model compress/gzip.NewWriterLevel
func GzipNewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	if level < -2 || level > 9 {
		return nil, errors.New("gzip: invalid compression level")
	}
	return GzipNewWriter(w), nil
}

//vp:model (*compress/gzip.Writer).Reset
func GzipWriterReset(z *gzip.Writer, w io.Writer) { gzWriters[z] = &gzw{w: w} }

//vp:model (*compress/gzip.Writer).Write
func GzipWrite(z *gzip.Writer, p []byte) (int, error) {
	g := gzWriters[z]
	if g.closed {
		return 0, errors.New("gzip: write after close")
	}
	if err := g.header(); err != nil {
		return 0, err
	}
	g.pending = append(g.pending, p...)
	g.all = append(g.all, p...)
	return len(p), nil
}

func (g *gzw) header() error {
	if g.head {
		return nil
	}
	g.head = true
	_, err := g.w.Write([]byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255})
	return err
}

func (g *gzw) block() error {
	for len(g.pending) > 0 {
		n := min(len(g.pending), 60000)
		b := append([]byte{byte(n), byte(n >> 8)}, g.pending[:n]...)
		g.pending = g.pending[n:]
		if _, err := g.w.Write(b); err != nil {
			return err
		}
	}
	return nil
}

//vp:model (*compress/gzip.Writer).Flush
func GzipFlush(z *gzip.Writer) error {
	g := gzWriters[z]
	if g.closed {
		return nil
	}
	if err := g.header(); err != nil {
		return err
	}
	return g.block()
}

//vp:model (*compress/gzip.Writer).Close
func GzipClose(z *gzip.Writer) error {
	g := gzWriters[z]
	if g.closed {
		return nil
	}
	if err := g.header(); err != nil {
		return err
	}
	g.closed = true
	if err := g.block(); err != nil {
		return err
	}
	_, err := g.w.Write(append(append([]byte{0, 0}, checksum(g.all)...), le32(len(g.all))...))
	return err
}

type sum struct{ data, sum []byte }

var sums []sum

// checksum is an arbitrary injective function.
func checksum(b []byte) []byte {
	for _, s := range sums {
		if len(s.data) == len(b) && vp.EqBytes(s.data, b) {
			return s.sum
		}
	}
	f := vp.Fresh("checksum", 4)
	for _, s := range sums {
		vp.Assume(!vp.EqBytes(s.sum, f))
	}
	sums = append(sums, sum{append([]byte(nil), b...), f})
	return f
}

type gzr struct {
	r            io.Reader
	pending, all []byte
	err          error
	single       bool
}

var gzReaders = map[*gzip.Reader]*gzr{}

//vp:model compress/gzip.NewReader
func GzipNewReader(r io.Reader) (*gzip.Reader, error) {
	z := new(gzip.Reader)
	if err := GzipReaderReset(z, r); err != nil {
		return nil, err
	}
	return z, nil
}

//vp:model (*compress/gzip.Reader).Reset
func GzipReaderReset(z *gzip.Reader, r io.Reader) error {
	if _, ok := r.(io.ByteReader); !ok {
		r = bufio.NewReader(r)
	}
	g := &gzr{r: r}
	gzReaders[z] = g
	g.err = g.header()
	return g.err
}

func (g *gzr) header() error {
	var h [10]byte
	if _, err := io.ReadFull(g.r, h[:]); err != nil {
		return err
	}
	if vp.Or(h[0] != 0x1f, h[1] != 0x8b, h[2] != 8) {
		return gzip.ErrHeader
	}
	if h[3] != 0 {
		panic("model: gzip header with flags")
	}
	g.all = nil
	return nil
}

func full(r io.Reader, b []byte) error {
	_, err := io.ReadFull(r, b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return err
}

//vp:model (*compress/gzip.Reader).Read
func GzipRead(z *gzip.Reader, p []byte) (int, error) {
	g := gzReaders[z]
	for len(g.pending) == 0 {
		if g.err == nil {
			g.err = g.next()
		}
		if g.err != nil {
			return 0, g.err
		}
	}
	n := copy(p, g.pending)
	g.pending = g.pending[n:]
	return n, nil
}

func (g *gzr) next() error {
	var h [2]byte
	if err := full(g.r, h[:]); err != nil {
		return err
	}
	n := int(h[0]) | int(h[1])<<8
	if n > 0 {
		b := make([]byte, n)
		if err := full(g.r, b); err != nil {
			return err
		}
		g.pending = b
		g.all = append(g.all, b...)
		return nil
	}
	var t [8]byte
	if err := full(g.r, t[:]); err != nil {
		return err
	}
	if vp.Or(!vp.EqBytes(t[:4], checksum(g.all)), !vp.EqBytes(t[4:], le32(len(g.all)))) {
		return gzip.ErrChecksum
	}
	if g.single {
		return io.EOF
	}
	return g.header() // io.EOF when there is no further member
}

//vp:model (*compress/gzip.Reader).Close
func GzipReaderClose(z *gzip.Reader) error { return nil }

//vp:model (*compress/gzip.Reader).Multistream
func GzipMultistream(z *gzip.Reader, ok bool) { gzReaders[z].single = !ok }
