package model

import (
	"sync"

	"vpharness/vp"
)

// sync.Map, sync.Cond and sync.Pool: their state hangs off an unused field of the value itself, so that a zero
// value is ready for use wherever it lives.

type smap struct {
	mu sync.Mutex
	m  map[any]any
}
type scond struct{ waiters []chan struct{} }
type spool struct {
	mu    sync.Mutex
	items []any
}

func smapOf(m *sync.Map) *smap    { panic("model") }
func scondOf(c *sync.Cond) *scond { panic("model") }
func spoolOf(p *sync.Pool) *spool { panic("model") }

// atMap: one operation of a sync.Map is one atomic step.
func atMap(m *sync.Map, f func(s *smap)) {
	s := smapOf(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m == nil {
		s.m = map[any]any{}
	}
	f(s)
}

//vp:model (*sync.Map).Load
func MapLoad(m *sync.Map, k any) (v any, ok bool) {
	atMap(m, func(s *smap) { v, ok = s.m[k] })
	return
}

//vp:model (*sync.Map).Store
func MapStore(m *sync.Map, k, v any) { atMap(m, func(s *smap) { s.m[k] = v }) }

//vp:model (*sync.Map).Clear
func MapClear(m *sync.Map) { atMap(m, func(s *smap) { clear(s.m) }) }

//vp:model (*sync.Map).LoadOrStore
func MapLoadOrStore(m *sync.Map, k, v any) (a any, loaded bool) {
	atMap(m, func(s *smap) {
		if a, loaded = s.m[k]; !loaded {
			s.m[k], a = v, v
		}
	})
	return
}

//vp:model (*sync.Map).LoadAndDelete
func MapLoadAndDelete(m *sync.Map, k any) (v any, ok bool) {
	atMap(m, func(s *smap) { v, ok = s.m[k]; delete(s.m, k) })
	return
}

//vp:model (*sync.Map).Delete
func MapDelete(m *sync.Map, k any) { atMap(m, func(s *smap) { delete(s.m, k) }) }

//vp:model (*sync.Map).Swap
func MapSwap(m *sync.Map, k, v any) (old any, ok bool) {
	atMap(m, func(s *smap) { old, ok = s.m[k]; s.m[k] = v })
	return
}

//vp:model (*sync.Map).CompareAndSwap
func MapCompareAndSwap(m *sync.Map, k, old, v any) (ok bool) {
	atMap(m, func(s *smap) {
		if o, has := s.m[k]; has && o == old {
			s.m[k], ok = v, true
		}
	})
	return
}

//vp:model (*sync.Map).CompareAndDelete
func MapCompareAndDelete(m *sync.Map, k, old any) (ok bool) {
	atMap(m, func(s *smap) {
		if o, has := s.m[k]; has && o == old {
			delete(s.m, k)
			ok = true
		}
	})
	return
}

// Range visits the keys present when it starts and still present when their turn comes.
//
//vp:model (*sync.Map).Range
func MapRange(m *sync.Map, f func(k, v any) bool) {
	var ks []any
	atMap(m, func(s *smap) {
		for k := range s.m {
			ks = append(ks, k)
		}
	})
	for _, k := range ks {
		if v, ok := MapLoad(m, k); ok && !f(k, v) {
			return
		}
	}
}

//vp:model (*sync.Cond).Wait
func CondWait(c *sync.Cond) {
	s := scondOf(c)
	ch := make(chan struct{})
	vp.Atomic(func() { s.waiters = append(s.waiters, ch) })
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

//vp:model (*sync.Cond).Signal
func CondSignal(c *sync.Cond) {
	s := scondOf(c)
	vp.Atomic(func() {
		if len(s.waiters) > 0 {
			ch := s.waiters[0]
			s.waiters = s.waiters[1:]
			close(ch)
		}
	})
}

//vp:model (*sync.Cond).Broadcast
func CondBroadcast(c *sync.Cond) {
	s := scondOf(c)
	vp.Atomic(func() {
		for _, ch := range s.waiters {
			close(ch)
		}
		s.waiters = nil
	})
}

// A pool hands out what was put last, if there is anything.
//
//vp:model (*sync.Pool).Get
func PoolGet(p *sync.Pool) any {
	s := spoolOf(p)
	s.mu.Lock()
	if n := len(s.items); n > 0 {
		v := s.items[n-1]
		s.items = s.items[:n-1]
		s.mu.Unlock()
		return v
	}
	s.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

//vp:model (*sync.Pool).Put
func PoolPut(p *sync.Pool, v any) {
	if v == nil {
		return
	}
	s := spoolOf(p)
	s.mu.Lock()
	s.items = append(s.items, v)
	s.mu.Unlock()
}
