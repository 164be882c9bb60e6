package req

import (
	"context"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// What a collection started in the background ends.

// A request map: the cancellation concurrent with two requests, whose function returns at once or later.
//
//vp:check T02
func RequestEnds() {
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewRequestMap[int, int](ctx, 150)
	d := vp.Choose("d", 2) * 1000
	f := func(int) int {
		if d > 0 {
			sleep(d)
		}
		return 1
	}
	k, variant, when := vp.Choose("key", 2), vp.Choose("variant", 2), vp.Choose("when", 2)
	lin.Par(func() { vp.Assert(m.GetOrCreate(0, f) == 1, "the value") }, func() {
		if variant == 0 {
			vp.Assert(m.GetOrCreate(k, f) == 1, "the value")
		} else {
			m.GetOrCreateWithErr(k, func(x int) (int, error) { return f(x), nil })
		}
	}, func() {
		if when == 0 {
			cancel()
		}
	})
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left after the cancellation")
	vp.Assert(m.GetOrCreate(2, f) == 1, "a request after the cancellation is answered")
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left after the cancellation")
}

// Nothing but the worker is left when the requests have been answered; a function with a timeout leaves nothing behind
// once it has returned.
//
//vp:check T02
func RequestIdle() {
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewRequestMap[int, int](ctx, 150)
	vp.Settle()
	base := vp.Goroutines()
	k := vp.Choose("key", 2)
	d := vp.IntRange("d", 1, 300)
	f := m.Timeout(100, func(int) (int, error) {
		sleep(d)
		return 1, nil
	})
	lin.Par(func() { m.GetOrCreateWithErr(0, f) }, func() { m.GetOrCreate(k, func(int) int { return 1 }) })
	sleep(300)
	vp.Settle()
	vp.Assert(vp.Goroutines() == base && base <= 1, "nothing but the worker is left")
	cancel()
}

// A wait map: waits and sets of two keys concurrent with the cancellation or after it; everything ends at once.
//
//vp:check T02
func WaitEnds() {
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(1000).WithResponseTtl(time.Duration(500 + 1000*vp.Choose("ttl", 2))).Build()
	a, b, k := vp.Choose("op", 2), vp.Choose("op", 2), vp.Choose("key", 2)
	when := vp.Choose("when", 3)
	op := func(kind, k int) {
		if kind == 0 {
			r := m.Wait(k)
			vp.Assert(r == 0 || r == 7, "zero or the value set")
		} else {
			m.Set(k, 7)
		}
	}
	if when == 0 {
		cancel()
	}
	lin.Par(func() { op(a, 0) }, func() { op(b, k) }, func() {
		if when == 1 {
			cancel()
		}
	})
	if when == 2 {
		sleep(vp.IntRange("d", 0, 2000))
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left after the cancellation")
	vp.Assert(m.Count() == 0, "nothing is kept after the cancellation")
}

// A wait map that is not cancelled: once the timeouts and times-to-live have passed nothing is left.
//
//vp:check T02
func WaitIdle() {
	rt, ttl := vp.IntRange("timeout", 1, 1000), vp.IntRange("ttl", 1, 1000)
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(time.Duration(rt)).WithResponseTtl(time.Duration(ttl)).Build()
	vp.Settle()
	base := vp.Goroutines()
	a, b, k := vp.Choose("op", 2), vp.Choose("op", 2), vp.Choose("key", 2)
	op := func(kind, k int) {
		if kind == 0 {
			m.Wait(k)
		} else {
			m.Set(k, 7)
		}
	}
	lin.Par(func() { op(a, 0) }, func() {
		sleep(vp.IntRange("d", 0, 2000))
		op(b, k)
	})
	sleep(2001)
	vp.Settle()
	vp.Assert(vp.Goroutines() == base && base <= 1, "no goroutine is left behind")
	vp.Assert(m.Count() == 0, "nothing is kept")
}

// A response map: waits and sets concurrent with the cancellation; the cleaner ends at once, and the last goroutine
// when the response timeout has passed.
//
//vp:check T02
func ResponseEnds() {
	ctx, cancel := context.WithCancel(context.Background())
	rt := vp.IntRange("timeout", 1, 1000)
	m := collections.NewResponseMap[int, int](ctx).WithResponseTimeout(time.Duration(rt)).WithClearTimeout(300).Build()
	a, b, k := vp.Choose("op", 2), vp.Choose("op", 2), vp.Choose("key", 2)
	when := vp.Choose("when", 2)
	op := func(kind, k int) {
		if kind == 0 {
			r := m.Wait(k)
			vp.Assert(r == 0 || r == 7, "zero or the value set")
		} else {
			m.Set(k, 7)
		}
	}
	lin.Par(func() { op(a, 0) }, func() { op(b, k) }, func() {
		if when == 1 {
			sleep([]int{0, 300, 350}[vp.Choose("d", 3)])
		}
		cancel()
	})
	vp.Settle()
	vp.Assert(vp.Goroutines() <= 2, "the cleaner ends with the context")
	sleep(rt)
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left after the response timeout")
}

// A holder map: waits, a release or an error, and the cancellation; the last goroutine ends when the time-to-live has
// passed, also without cancellation.
//
//vp:check T02
func HolderEnds() {
	ctx, cancel := context.WithCancel(context.Background())
	to, ttl := vp.IntRange("timeout", 1, 1000), vp.IntRange("ttl", 1, 1000)
	m := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(time.Duration(to)).WithTTL(time.Duration(ttl)).Build()
	vp.Settle()
	base := vp.Goroutines()
	op, k := vp.Choose("op", 4), vp.Choose("key", 2)
	lin.Par(func() { m.Wait(0, 1) }, func() {
		switch op {
		case 0:
			m.Release(0)
		case 1:
			m.Error(0, context.Canceled)
		case 2:
			cancel()
		case 3:
		}
	}, func() { m.Wait(k, 2) })
	vp.Settle()
	sleep(ttl)
	vp.Settle()
	vp.Assert(vp.Goroutines() <= base && base <= 1, "no goroutine is left once the time-to-live has passed")
	vp.Assert(m.Count() == 0, "nothing is kept")
	cancel()
}
