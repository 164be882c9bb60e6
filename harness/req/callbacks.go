package req

import (
	"context"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// The function that computes one key's value asks the request map for another key (which somebody else may ask for at
// the same time), or for the count.
//
//vp:check E02
func ReenterRequest() {
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewRequestMap[int, int](ctx, 1000)
	v, w := vp.Int("v"), vp.Int("w")
	inner := func() int { return m.GetOrCreate(1, func(int) int { return w }) }
	what, variant, other := vp.Choose("what", 3), vp.Choose("variant", 2), vp.Choose("other", 3)
	f := func(k int) int {
		switch what {
		case 0:
			vp.Assert(inner() == w, "the other key's value")
		case 1:
			r, err := m.GetOrCreateWithErr(1, func(int) (int, error) { return w, nil })
			vp.Assert(err == nil && r == w, "the other key's value")
		case 2:
			vp.Assert(m.Count() >= 1, "the count")
		}
		return v
	}
	get := func() {
		var r int
		if variant == 0 {
			r = m.GetOrCreate(0, f)
		} else {
			r, _ = m.GetOrCreateWithErr(0, func(k int) (int, error) { return f(k), nil })
		}
		vp.Assert(r == v, "a function that uses the map ends")
	}
	lin.Par(get, func() {
		switch other {
		case 0:
			get()
		case 1:
			vp.Assert(inner() == w, "the other key's value")
		case 2:
			m.Count()
		}
	})
	cancel()
}

// A function with a timeout uses the request map, and the request map's function is one with a timeout.
//
//vp:check E02
func ReenterTimeout() {
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewRequestMap[int, int](ctx, 1000000)
	v, w := vp.Int("v"), vp.Int("w")
	d := vp.IntRange("d", 1, 1000)
	vp.Assume(d != 100)
	f := m.Timeout(100, func(k int) (int, error) {
		vp.Assert(m.GetOrCreate(1, func(int) int { return w }) == w, "the other key's value")
		sleep(d)
		return v, nil
	})
	r, err := m.GetOrCreateWithErr(0, f)
	if d < 100 {
		vp.Assert(err == nil && r == v, "the value")
	} else {
		vp.Assert(err == collections.ErrTimeout, "the timeout")
	}
	vp.Assert(m.GetOrCreate(1, func(int) int { return v }) == w, "the other key's value is kept")
	cancel()
}
