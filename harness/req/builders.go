package req

import (
	"context"
	"errors"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// Two objects from one builder, which is changed in between.

// Two wait maps, the second with another context, request timeout and time-to-live.
//
//vp:check B01
func WaitBuilder() {
	ctx1, cancel1 := context.WithCancel(context.Background())
	ctx2, cancel2 := context.WithCancel(context.Background())
	b := collections.NewWaitMap[int, int]().WithContext(ctx1).WithRequestTimeout(1000).WithResponseTtl(500)
	m1 := b.Build()
	m2 := b.WithContext(ctx2).WithRequestTimeout(100).WithResponseTtl(50).Build()
	v := vp.Int("v")
	lin.Par(func() {
		t := clock()
		r := m1.Wait(0)
		vp.Assert(r == v && t() == 300, "the first waits for its own value")
	}, func() {
		t := clock()
		r := m2.Wait(0)
		vp.Assert(r == 0 && t() == 100, "the second has its own timeout")
	}, func() {
		sleep(200)
		cancel2()
		sleep(100)
		m1.Set(0, v)
	})
	sleep(400)
	vp.Assert(m1.Count() == 1 && m2.Count() == 0, "each has its own values and time-to-live")
	sleep(101)
	vp.Assert(m1.Count() == 0, "each has its own time-to-live")
	cancel1()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left")
}

// Two response maps, the second with other timeouts.
//
//vp:check B01
func ResponseBuilder() {
	ctx, cancel := context.WithCancel(context.Background())
	b := collections.NewResponseMap[int, int](ctx).WithResponseTimeout(1000).WithClearTimeout(5000)
	m1 := b.Build()
	m2 := b.WithResponseTimeout(100).WithClearTimeout(400).Build()
	v := vp.Int("v")
	lin.Par(func() {
		t := clock()
		r := m1.Wait(0)
		vp.Assert(r == v && t() == 300, "the first waits for its own value")
	}, func() {
		t := clock()
		r := m2.Wait(0)
		vp.Assert(r == 0 && t() == 100, "the second has its own timeout")
	}, func() {
		sleep(300)
		m1.Set(0, v)
	})
	sleep(800)
	vp.Assert(m1.Wait(0) == v, "the first keeps its value")
	cancel()
	sleep(1000)
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left")
}

// Two holder maps, the second with another context, timeout and time-to-live.
//
//vp:check B01
func HolderBuilder() {
	ctx1, cancel1 := context.WithCancel(context.Background())
	ctx2, cancel2 := context.WithCancel(context.Background())
	b := collections.NewHolderMap[int, int]().WithContext(ctx1).WithTimeout(1000).WithTTL(500)
	m1 := b.Build()
	m2 := b.WithContext(ctx2).WithTimeout(100).WithTTL(50).Build()
	v := vp.Int("v")
	failed := errors.New("failed")
	lin.Par(func() {
		t := clock()
		err := m1.Wait(0, v)
		vp.Assert(err == failed && t() == 300, "the first waits for its own outcome")
	}, func() {
		t := clock()
		err := m2.Wait(0, 1)
		vp.Assert(err != nil && err != failed && t() == 100, "the second has its own timeout")
	}, func() {
		sleep(200)
		cancel2()
		vp.Assert(m2.Release(0) != nil, "the second has its own time-to-live")
		sleep(100)
		vp.Assert(m1.Error(0, failed) == nil, "the transaction of the first is there")
	})
	sleep(400)
	r, err := m1.Get(0)
	vp.Assert(r == v && err == failed, "the first keeps its object")
	cancel1()
	sleep(200)
	vp.Assert(m1.Count() == 0 && m2.Count() == 0, "nothing is kept")
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left")
}
