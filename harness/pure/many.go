package pure

import (
	"errors"
	"io"
	stdnet "net"
	"time"

	"github.com/axgrid/axutils/comparer"
	"github.com/axgrid/axutils/flow"
	"github.com/axgrid/axutils/math"
	"github.com/axgrid/axutils/net"
	"vpharness/vp"
)

// Inputs of larger sizes: most of each is fixed, some of it is arbitrary.

// Slices of 40 and 35 elements with duplicates, large identifiers and an overlap, and one arbitrary identifier at an
// arbitrary one of a few places in one of them.
//
//vp:check D01
func CompareMany() {
	id := func(i int) uint64 {
		x := uint64(i) * 3
		if i%5 == 4 {
			x += 1 << 63
		}
		if i%7 == 6 {
			x = 3
		}
		if i%11 == 10 {
			x = uint64(i) << 32
		}
		return x
	}
	var cur []elA
	var mod []*elB
	for i := range 40 {
		cur = append(cur, elA{id(i), i})
	}
	for i := range 35 {
		mod = append(mod, &elB{"", id(70 - 2*i), i})
	}
	at := []int{0, 17, 34}[vp.Choose("at", 3)]
	c, m := cur[at].id, mod[34-at].id
	if vp.Choose("which", 2) == 0 {
		c = vp.Uint64("c")
	} else {
		m = vp.Uint64("m")
	}
	cur[at].id = c
	mod[34-at].id = m
	del, create, keep := comparer.CompareSlice(cur, mod)
	d, n, k := 0, 0, 0
	for i, x := range cur {
		in := x.id == m
		for j := range mod {
			if j != 34-at {
				in = vp.Or(in, mod[j].id == x.id)
			}
		}
		if in {
			vp.Assert(k < len(keep) && keep[k].tag == i && keep[k].id == x.id, "kept elements are those in both, in input order")
			k++
		} else {
			vp.Assert(d < len(del) && del[d].tag == i && del[d].id == x.id, "deleted elements are those missing from the modified slice, in input order")
			d++
		}
	}
	for i, y := range mod {
		in := y.id == c
		for j := range cur {
			if j != at {
				in = vp.Or(in, cur[j].id == y.id)
			}
		}
		if !in {
			vp.Assert(n < len(create) && create[n] == mod[i], "created elements are those missing from the current slice, in input order")
			n++
		}
	}
	vp.Assert(d == len(del) && n == len(create) && k == len(keep), "nothing else is reported")
}

// Boolean arrays of length 31..33, 63..65, 100, 256, 1000 and 4099 with two arbitrary elements at an arbitrary one of
// three places.
//
//vp:check N05 instr=8000000
func BoolsMany() {
	n := []int{31, 32, 33, 63, 64, 65, 100, 256, 1000, 4099}[vp.Choose("n", 10)]
	a := make([]bool, n)
	for i := range a {
		a[i] = i%3 == 0 || i%7 == 2
	}
	at := []int{0, n / 2, n - 8}[vp.Choose("at", 3)]
	for i := range 2 {
		a[at+5*i] = vp.Bool("a")
	}
	b := net.BoolArrayToByte(a)
	vp.Assert(len(b) == (n+7)/8, "packing uses ceil(n/8) bytes")
	ok := true
	for i := 0; i < 8*len(b); i++ {
		bit := b[i/8]>>(i%8)&1 == 1
		if i < n {
			ok = vp.And(ok, bit == a[i])
		} else {
			ok = vp.And(ok, !bit)
		}
	}
	vp.Assert(ok, "bit i is element i, least significant bit first, and unused bits are zero")
	r := net.ByteToBoolArray(b, n)
	vp.Assert(len(r) == n, "unpacking with the original length gives that length")
	for i := range r {
		ok = vp.And(ok, r[i] == a[i])
	}
	vp.Assert(ok, "unpacking gives the array back")
	vp.Assert(len(net.ByteToBoolArray(b)) == 8*len(b), "unpacking gives 8 elements per byte")
	t := net.CreateAllTrueBoolArray(n)
	vp.Assert(len(t) == n, "the all-true array has the requested length")
	for _, x := range t {
		vp.Assert(x, "every element is true")
	}
}

// Slices of 255, 256, 1024 and 5000 bytes, arbitrary at both ends, and some lengths of the copy.
//
//vp:check N04 instr=8000000
func CopiesMany() {
	n := []int{255, 256, 1024, 5000}[vp.Choose("n", 4)]
	data := long(n, 2)
	want := append([]byte(nil), data...)
	l := []int{0, 1, n / 2, n - 1, n}[vp.Choose("l", 5)]
	c := net.CopyBytes(data, l)
	vp.Assert(len(c) == l && vp.EqBytes(c, want[:l]), "the copy has the first bytes")
	for i := range c {
		c[i]++
	}
	vp.Assert(vp.EqBytes(data, want), "changing the copy leaves the original")
	clear(data)
	for i := range c {
		vp.Assert(c[i] == want[i]+1, "changing the original leaves the copy")
	}
}

// long: n bytes, the first and last k of them arbitrary.
func long(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(7*i + i/256)
	}
	copy(b, vp.Bytes("first", k))
	copy(b[n-k:], vp.Bytes("last", k))
	return b
}

// pieces delivers a stream in fragments of a fixed size.
type pieces struct {
	stdnet.Conn
	stream []byte
	size   int
	pos    int
	end    error
	dl     int
}

func (c *pieces) Read(p []byte) (int, error) {
	if c.pos == len(c.stream) {
		return 0, c.end
	}
	k := min(len(p), c.size, len(c.stream)-c.pos)
	copy(p, c.stream[c.pos:c.pos+k])
	c.pos += k
	return k, nil
}
func (c *pieces) SetReadDeadline(t time.Time) error { c.dl++; return nil }
func (c *pieces) SetDeadline(t time.Time) error     { c.dl++; return nil }

// n of 100, 512, 4096, 4097 and 70000 bytes, from streams with one byte less, as many, or three more, in fragments of 100, 1460
// or any number of bytes.
//
//vp:check N06 instr=8000000
func ReadMany() {
	n := []int{100, 512, 4096, 4097, 70000}[vp.Choose("n", 5)]
	m := n + []int{-1, 0, 3}[vp.Choose("stream", 3)]
	c := &pieces{stream: long(m, 2), size: []int{100, 1460, 1 << 20}[vp.Choose("size", 3)], end: io.EOF}
	if vp.Choose("fail", 2) == 1 {
		c.end = errConn
	}
	var b []byte
	var err error
	if vp.Choose("timeout", 2) == 1 {
		b, err = net.ReadNBytesWithTimeout(c, n, time.Second)
	} else {
		b, err = net.ReadNBytes(c, n)
	}
	if m >= n {
		vp.Assert(err == nil, "enough data: no error")
		vp.Assert(len(b) == n && vp.EqBytes(b, c.stream[:n]), "exactly the next n bytes are returned")
		vp.Assert(c.pos == n, "nothing more than n bytes is consumed")
	} else {
		vp.Assert(err != nil, "too little data: error")
		vp.Assert(len(b) == 0, "no partial data with an error")
	}
}

// Twelve routes of five steps each (and routes of two actions under a condition in between), of which an arbitrary one
// fails, or none.
//
//vp:check P01
func RoutesMany() {
	failing := vp.IntRange("failing", -1, 1000)
	failed := errors.New("failed")
	var trace []int
	n := 0
	next := func() int { n++; return n - 1 }
	b := flow.NewProcessor[int, int]()
	for i := range 12 {
		b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) {
			for j := range 5 {
				id := next()
				switch j {
				case 0, 3:
					r.On(func(int, int) bool { trace = append(trace, id); return id != failing })
				case 1:
					r.OnEvent(func(int) bool { trace = append(trace, id); return id != failing })
				default:
					r.Do(func(int, int) error {
						trace = append(trace, id)
						if id == failing {
							return failed
						}
						return nil
					})
				}
			}
		})
		if i%4 == 3 {
			x, y := next(), next()
			b.RouteOn(func(int) bool { return true },
				func(int, int) error { trace = append(trace, x); return nil },
				func(int, int) error {
					trace = append(trace, y)
					if y == failing {
						return failed
					}
					return nil
				})
		}
	}
	f := b.Build()
	for range 2 {
		trace = nil
		err := f(1, 2)
		vp.Assert(len(trace) <= n, "no step runs twice")
		for i, x := range trace {
			vp.Assert(x == i, "steps run in the order they were declared")
		}
		last := len(trace) - 1
		if err != nil {
			vp.Assert(last == failing, "nothing runs after the first failure")
			if k := last % 22 % 5; last%22 < 20 && (k == 2 || k == 4) || last%22 == 21 {
				vp.Assert(err == failed, "the error of the failing step is returned")
			}
		} else {
			vp.Assert(last == n-1, "every step up to the first failure runs")
			vp.Assert(failing < 0 || failing >= n || failing%22 == 20, "a failing step gives an error")
		}
	}
}

// Every int, some shifts of 26..100 upwards and downwards.
//
//vp:check A02
func ShiftFar() {
	v := vp.Int("v")
	n := []int{26, 31, 32, 33, 40, 62, 63, 64, 65, 100}[vp.Choose("n", 10)]
	vp.Assert(math.IntPointMove(v, n) == v*pow10(n), "shifting up multiplies by 10^n modulo the word size")
	vp.Assert(math.IntPointMove(v, -n) == 0, "shifting down by more digits than an int has gives zero")
}
