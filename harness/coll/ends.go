package coll

import (
	"time"

	"vpharness/lin"
	"vpharness/vp"
)

// What a collection started in the background ends.

// A cache with a write or read timeout: two operations concurrent with the cancellation (or one after it), after which
// no goroutine is left.
//
//vp:check T02
func GuavaEnds() {
	ctx, cancel := vpContext()
	g := gConf{ctx: ctx, max: vp.Choose("max", 2), loader: goodLoader, load: func(int) (int, error) { return 5, nil }}
	if vp.Choose("read", 2) == 1 {
		g.read = 1000
	} else {
		g.write = 1000
	}
	c := newCache(g)
	c.m.Set(0, 1)
	a, b := vp.Choose("op", 9), vp.Choose("op", 9)
	k := vp.Choose("key", 2)
	when := vp.Choose("when", 3)
	if when == 0 {
		cancel()
	}
	lin.Par(func() { oneOp(c.m, a, 0) }, func() { oneOp(c.m, b, k) }, func() {
		if when == 1 {
			cancel()
		}
	})
	if when == 2 {
		cancel()
	}
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left after the cancellation")
	time.Sleep(2000)
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left after the cancellation")
}

// A cache whose context is never cancelled: when the entries have left it, whichever way, no goroutine is left.
//
//vp:check T02
func GuavaEntryEnds() {
	g := gConf{max: vp.Choose("max", 2)}
	if vp.Choose("read", 2) == 1 {
		g.read = 1000
	} else {
		g.write = 1000
	}
	c := newCache(g)
	vp.Settle()
	base := vp.Goroutines() // a worker that serves all entries
	vp.Assert(base <= 1, "no goroutines for entries that are not there")
	n := 1 + vp.Choose("n", 3)
	for range n {
		k := vp.Choose("key", 2)
		switch vp.Choose("op", 4) {
		case 0:
			c.m.Set(k, 1)
		case 1:
			c.m.HasOrCreate(k, 1)
		case 2:
			c.m.LockForUpdate(k, func() int { return 1 })
		case 3:
			c.m.Delete(k)
		}
		vp.Settle()
		vp.Assert(vp.Goroutines() <= base+c.m.Size(), "no more goroutines than entries")
		time.Sleep(time.Duration(vp.IntRange("d", 0, 1500)))
	}
	switch vp.Choose("end", 3) {
	case 0:
		c.m.Clear()
	case 1:
		c.m.Delete(0)
		c.m.Delete(1)
	case 2:
		time.Sleep(1001)
	}
	vp.Settle()
	vp.Assert(c.m.Size() == 0, "the cache is empty")
	vp.Assert(vp.Goroutines() == base, "no goroutine is left for entries that left the cache")
}

// A unique-struct set: the cancellation concurrent with two operations at an instant of an expiry or between two.
//
//vp:check T02
func UniqEnds() {
	ctx, cancel := vpContext()
	s := newWho(ctx, false, 100, 100)
	op := func(i int) {
		switch i {
		case 0:
			s.Add(who{A: 0})
		case 1:
			s.Remove(who{A: 0})
		case 2:
			s.Has(who{A: 0})
		case 3:
			s.Count()
		}
	}
	op(vp.Choose("pre", 2))
	time.Sleep(time.Duration([]int{0, 50, 100, 200}[vp.Choose("d", 4)]))
	a, b := vp.Choose("op", 4), vp.Choose("op", 4)
	when := vp.Choose("when", 2)
	lin.Par(func() { op(a) }, func() { op(b) }, func() {
		if when == 0 {
			cancel()
		}
	})
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left after the cancellation")
	op(0)
	op(2)
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left after the cancellation")
}
