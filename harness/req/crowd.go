package req

import (
	"context"
	"errors"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/vp"
)

const many = 12

// crowd starts n goroutines one after the other, each running until it waits; collect returns when all are done.
func crowd(n int, f func(i int)) (collect func()) {
	done := make(chan bool, n)
	for i := range n {
		go func() {
			f(i)
			done <- true
		}()
		vp.Settle()
	}
	return func() {
		for range n {
			<-done
		}
	}
}

// Twelve waiters of one key (arbitrary int), then two sets, then another wait.
//
//vp:check R04 delay=3 t.delay=5 level=2000 adv=60
func WaitCrowd() {
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(long).WithResponseTtl(long).Build()
	k, v, now := vp.Int("k"), vp.Int("v"), clock()
	c := crowd(many, func(int) { vp.Assert(m.Wait(k) == v, "every wait returns the first value") })
	m.Set(k, v)
	m.Set(k, vp.Int("w"))
	c()
	vp.Assert(m.Wait(k) == v && now() == 0, "the first value is held")
}

// Twelve waiters of one key whose timeout passes: all return the zero value then, and none is left.
//
//vp:check R05 delay=3 t.delay=5 level=2000 adv=60
func WaitCrowdTimeout() {
	T := dur("timeout")
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(time.Duration(T)).WithResponseTtl(long).Build()
	k, now := vp.Int("k"), clock()
	stop := vp.Choose("cancel", 2) == 1
	c := crowd(many, func(int) { vp.Assert(m.Wait(k) == 0, "a wait that is not answered returns the zero value") })
	if stop {
		cancel()
		c()
		vp.Assert(now() == 0, "at once when the context is cancelled")
	} else {
		c()
		vp.Assert(now() == T, "when the timeout has passed")
	}
	cancel()
	ended()
}

// The same for the response map.
//
//vp:check R07 delay=3 t.delay=5 level=2000 adv=60
func ResponseCrowd() {
	m, cancel := newResponse(long, long)
	k, v, now := vp.Int("k"), vp.Int("v"), clock()
	c := crowd(many, func(int) { vp.Assert(m.Wait(k) == v, "every wait returns the first value") })
	m.Set(k, v)
	m.Set(k, vp.Int("w"))
	c()
	vp.Assert(m.Wait(k) == v && now() == 0, "the first value is held")
	cancel()
}

// Twelve waiters of one key of the response map whose timeout passes.
//
//vp:check R08 delay=3 t.delay=5 level=2000 adv=60
func ResponseCrowdTimeout() {
	T := dur("timeout")
	m, cancel := newResponse(T, long)
	k, now := vp.Int("k"), clock()
	c := crowd(many, func(int) { vp.Assert(m.Wait(k) == 0, "a wait that is not answered returns the zero value") })
	c()
	vp.Assert(now() == T, "when the timeout has passed")
	cancel()
}

// Twelve keys of the response map, half of them answered, half of them waited for, are cleared together.
//
//vp:check R08 delay=3 t.delay=5 level=2000 adv=60
func ResponseManyKeys() {
	T := dur("timeout")
	m, cancel := newResponse(long, T)
	c := crowd(many, func(i int) {
		if i%2 == 0 {
			m.Set(i, 1)
		} else {
			vp.Assert(m.Wait(i) == 0, "a waiter of a cleared key returns the zero value")
		}
	})
	sleep(3 * T)
	vp.Settle()
	c()
	for i := range many {
		m.Set(i, 10+i)
		vp.Assert(m.Wait(i) == 10+i, "a cleared key starts afresh")
	}
	cancel()
}

// Twelve waiters of one transaction, released or failed, or timed out.
//
//vp:check R09,R10 delay=3 t.delay=5 level=2000 adv=60
func HolderCrowd() {
	T := dur("timeout")
	m := newHolder(T, long)
	now := clock()
	how := vp.Choose("outcome", 3)
	c := crowd(many, func(i int) {
		err := m.Wait(5, i)
		switch how {
		case 0:
			vp.Assert(err == nil, "a released wait returns nil")
		case 1:
			vp.Assert(err == errFail, "a failed wait returns the error")
		case 2:
			vp.Assert(err != nil && !errors.Is(err, errFail) && now() == T, "a wait times out with an error after the timeout")
		}
	})
	switch how {
	case 0:
		vp.Assert(m.Release(5) == nil, "the transaction is known")
	case 1:
		vp.Assert(m.Error(5, errFail) == nil, "the transaction is known")
	}
	c()
	vp.Assert(how == 2 || now() == 0, "nobody waits longer than for the outcome")
}

// Twelve calls for one key whose load runs until it is released.
//
//vp:check R01 delay=3 t.delay=5 level=2000 adv=60
func RequestCrowd() {
	m, cancel := newRequest(long)
	k, v := vp.Int("k"), vp.Int("v")
	runs, gate := 0, make(chan bool)
	c := crowd(many, func(i int) {
		r, err := call(m, i%2 == 0, k, func(int) (int, error) {
			runs++
			<-gate
			return v, nil
		})
		vp.Assert(r == v && err == nil, "every call returns the result")
	})
	close(gate)
	c()
	vp.Assert(runs == 1, "the function runs once")
	cancel()
}

// Twelve keys of the request map, loaded one after the other, expire together.
//
//vp:check R02 delay=3 t.delay=5 level=2000 adv=60
func RequestManyKeys() {
	ttl := vp.IntRange("ttl", 1, 100000000)
	m, cancel := newRequest(ttl)
	runs := 0
	get := func(k int) {
		m.GetOrCreate(k, func(int) int { runs++; return k })
	}
	for k := range many {
		get(k)
	}
	for k := range many {
		get(k)
	}
	vp.Assert(runs == many, "every result is cached")
	sleep(ttl + 200000000)
	vp.Settle()
	for k := range many {
		get(k)
	}
	vp.Assert(runs == 2*many, "every result has expired")
	cancel()
}
