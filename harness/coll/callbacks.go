package coll

import (
	"context"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// Functions of the caller that panic, and functions of the caller that use the collection they are called by.

type boom struct{}

// panics runs f and reports whether it panicked with boom.
func panics(f func()) (p bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(boom); !ok {
				panic(x)
			}
			p = true
		}
	}()
	f()
	return
}

func anyMap(nkeys int) collections.Map[int, int] {
	if vp.Choose("impl", 2) == 0 {
		return collections.NewSimpleMap[int, int]()
	}
	return collections.NewShardMap[int, int]().WithShardsCount(2).WithShardsFunc(func(k int) int { return k % 2 }).Build()
}

// The function of a set-if-absent panics while another operation on the same or another key runs; a concurrent
// set-if-absent of the key still works, and so does everything afterwards.
//
//vp:check E01
func PanicMap() {
	m := anyMap(2)
	v, w := vp.Int("v"), vp.Int("w")
	pre := vp.Choose("pre", 2) == 1
	if pre {
		m.Set(1, 7)
	}
	k, op := vp.Choose("key", 2), vp.Choose("op", 7)
	called := false
	lin.Par(func() {
		p := panics(func() {
			r, ok := m.SetIfNotExistsWithFunc(0, func() int {
				vp.Ghost(func() { called = true })
				vp.Yield()
				panic(boom{})
			})
			vp.Assert(!ok && r == v && k == 0, "without a panic the key was there")
		})
		vp.Assert(p == called, "the panic reaches the caller")
	}, func() {
		switch op {
		case 0:
			m.Set(k, v)
		case 1:
			vp.Assert(m.SetIfNotExists(k, v) == !(k == 1 && pre), "set-if-absent wins on an absent key")
		case 2:
			r, ok := m.SetIfNotExistsWithFunc(k, func() int { return v })
			vp.Assert(ok == !(k == 1 && pre) && (r == v || !ok), "set-if-absent wins on an absent key")
		case 3:
			m.Get(k)
		case 4:
			m.Has(k)
		case 5:
			m.Delete(k)
		case 6:
			m.Size()
		}
	})
	set := k == 0 && op <= 2
	r, ok := m.Get(0)
	vp.Assert(ok == set && (r == v || !ok), "a panicking function stores nothing")
	r, ok = m.Get(1)
	vp.Assert(ok == (k == 1 && op <= 2 || pre && !(k == 1 && op == 5)), "other keys keep their values")
	r, ok = m.SetIfNotExistsWithFunc(0, func() int { return w })
	vp.Assert(ok == !set && r == vp.Ite(set, v, w), "the map is usable")
	m.Set(0, w)
	m.Delete(1)
	vp.Assert(m.Size() == 1 && m.Has(0), "the map is usable")
}

// A loader that panics the first time, with and without load locking, while another get, set, update or delete of the
// same key runs; a get waiting for the load loads itself.
//
//vp:check E01
func PanicLoad() {
	v, w := vp.Int("v"), vp.Int("w")
	loads := 0
	c := newCache(gConf{lockLoad: vp.Choose("lockLoad", 2) == 1, max: vp.Choose("max", 2), load: func(k int) (r int, err error) {
		n := 0
		vp.Ghost(func() {
			n = loads
			loads++
		})
		if n == 0 {
			vp.Yield()
			panic(boom{})
		}
		return v, nil
	}})
	op := vp.Choose("op", 4)
	pan := 0
	get := func() {
		var r int
		var err error
		if panics(func() { r, err = c.m.Get(0) }) {
			vp.Ghost(func() { pan++ })
		} else {
			vp.Assert(err == nil && (r == v || op != 0 && r == w), "a get returns a value that was loaded or stored")
		}
	}
	lin.Par(get, func() {
		switch op {
		case 0:
			get()
		case 1:
			c.m.Set(0, w)
		case 2:
			c.m.LockForUpdate(0, func() int { return w })
		case 3:
			c.m.Delete(0)
		}
	})
	vp.Assert(pan == min(1, loads), "the panic reaches the caller")
	if pan == 1 && op == 0 && loads == 1 {
		vp.Assert(false, "a get that waited for a failed load loads itself")
	}
	if loads == 0 {
		return
	}
	r, err := c.m.Get(0)
	vp.Assert(err == nil && (r == v || (op == 1 || op == 2) && r == w), "the key is usable")
	c.m.Delete(0)
	r, err = c.m.Get(0)
	vp.Assert(err == nil && r == v, "the key is loaded again")
	vp.Assert(c.m.Size() == 1, "the cache is usable")
	vp.Settle()
	vp.Assert(c.unl[0] >= 1, "the cache is usable")
}

// An update function that panics while another update, set or get of the same key runs: the stored value stays, and
// the next update runs.
//
//vp:check E01
func PanicUpdate() {
	v, w := vp.Int("v"), vp.Int("w")
	pre := vp.Choose("pre", 2) == 1
	c := newCache(gConf{max: vp.Choose("max", 2)})
	if pre {
		c.m.Set(0, v)
	}
	op := vp.Choose("op", 5)
	lin.Par(func() {
		p := panics(func() {
			c.m.LockForUpdate(0, func() int {
				vp.Yield()
				panic(boom{})
			})
		})
		vp.Assert(p, "the panic reaches the caller")
	}, func() {
		switch op {
		case 0:
			vp.Assert(c.m.LockForUpdate(0, func() int { return w }) == w, "the other update runs")
		case 1:
			c.m.Set(0, w)
		case 2:
			r, err := c.m.Get(0)
			vp.Assert(err == nil && r == vp.Ite(pre, v, 0), "a panicking update stores nothing")
		case 3:
			vp.Assert(panics(func() { c.m.LockForUpdate(0, func() int { panic(boom{}) }) }), "the panic reaches the caller")
		case 4:
			vp.Assert(c.m.LockForUpdate(1, func() int { return w }) == w, "an update of another key runs")
		}
	})
	r, ok := c.m.GetStored()[0]
	switch op {
	case 0, 1:
		vp.Assert(ok && r == w, "the value stored last is there")
	case 4:
	default:
		vp.Assert(ok == pre && (!ok || r == v), "a panicking update changes nothing")
	}
	vp.Assert(c.m.LockForUpdate(0, func() int { return 3 }) == 3, "the next update of the key runs")
	r, err := c.m.Get(0)
	vp.Assert(err == nil && r == 3, "the next update of the key stores its result")
	c.m.Clear()
	vp.Assert(c.m.Size() == 0, "the cache is usable")
}

// An identity function that panics on one of the two values, in one of the operations.
//
//vp:check E01
func PanicIdentity() {
	bad := false
	ctx, cancel := vpContext()
	s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(time.Duration(1000)).WithCheckInterval(time.Duration(100)).
		WithBuildFunc(func(v int, _ ...any) (h [16]byte, err error) {
			if bad && v == 1 {
				panic(boom{})
			}
			h[0] = byte(v)
			return h, nil
		}).Build()
	pre := vp.Choose("pre", 2) == 1
	if pre {
		s.Add(1)
	}
	bad = true
	op := vp.Choose("op", 3)
	lin.Par(func() {
		vp.Assert(panics(func() {
			switch op {
			case 0:
				s.Add(1)
			case 1:
				s.Has(1)
			case 2:
				s.Remove(1)
			}
		}), "the panic reaches the caller")
	}, func() {
		ok, err := s.Add(0)
		vp.Assert(ok && err == nil, "other values can be added")
	})
	bad = false
	vp.Assert(s.Count() == vp.Ite(pre, 2, 1), "nothing else was changed")
	ok, err := s.Has(1)
	vp.Assert(ok == pre && err == nil, "a panicking identity function changes nothing")
	ok, err = s.Remove(0)
	vp.Assert(ok && err == nil, "the set is usable")
	cancel()
}

// one performs one operation of the cache on key k, and checks nothing but that it returns.
func oneOp(m *collections.GuavaMap[int, int], op, k int) {
	switch op {
	case 0:
		m.Get(k)
	case 1:
		m.Set(k, 50)
	case 2:
		m.Has(k)
	case 3:
		m.HasOrCreate(k, 51)
	case 4:
		m.Delete(k)
	case 5:
		m.LockForUpdate(k, func() int { return 52 })
	case 6:
		m.Clear()
	case 7:
		m.Size()
	case 8:
		m.GetStored()
	}
}

// The loader of one key uses the cache: any operation on another key (which may be loaded by that), any on its own
// key but a get with load locking.
//
//vp:check E02
func ReenterLoad() {
	lock, op, k := vp.Choose("lockLoad", 2) == 1, vp.Choose("op", 9), vp.Choose("key", 2)
	if k == 0 && op == 0 {
		return // a get within the load of its key
	}
	depth := 0
	var m *collections.GuavaMap[int, int]
	v := vp.Int("v")
	m = collections.NewGuavaMap[int, int]().WithLockLoad(lock).WithMaxCount(vp.Choose("max", 3)).WithLoadFunc(func(x int) (int, error) {
		if x != 0 {
			return 40, nil
		}
		depth++
		vp.Assert(depth == 1, "one load")
		oneOp(m, op, k)
		return v, nil
	}).Build()
	other := vp.Choose("other", 3)
	lin.Par(func() {
		r, err := m.Get(0)
		vp.Assert(err == nil && vp.Or(r == v, k == 0 && r >= 50 && r <= 52, other == 1 && r == 60), "a loader that uses the cache ends")
	}, func() {
		switch other {
		case 1:
			m.Set(0, 60)
		case 2:
			r, _ := m.Get(1)
			vp.Assert(r == 40 || r >= 50 && r <= 52, "the other key")
		}
	})
	m.Set(0, 1)
	r, _ := m.Get(0)
	vp.Assert(r == 1, "the cache is usable")
}

// The update function of one key uses the cache: any operation on its own key but another update of it, any on another.
//
//vp:check E02
func ReenterUpdate() {
	op, k := vp.Choose("op", 9), vp.Choose("key", 2)
	if k == 0 && op == 5 {
		return
	}
	v := vp.Int("v")
	m := collections.NewGuavaMap[int, int]().WithMaxCount(vp.Choose("max", 3)).WithLoadFunc(func(x int) (int, error) { return 40, nil }).Build()
	other := vp.Choose("other", 4)
	lin.Par(func() {
		r := m.LockForUpdate(0, func() int {
			oneOp(m, op, k)
			return v
		})
		vp.Assert(r == v, "an update function that uses the cache ends")
	}, func() {
		switch other {
		case 1:
			m.Set(0, 60)
		case 2:
			m.LockForUpdate(1, func() int { return 3 })
		case 3:
			m.LockForUpdate(0, func() int { return 4 })
		}
	})
	m.LockForUpdate(0, func() int { return 1 })
	r, _ := m.Get(0)
	vp.Assert(r == 1, "the cache is usable")
}

// The unload function uses the cache: any operation on any key, whether called for a deletion, an eviction, a clear or
// a timeout.
//
//vp:check E02
func ReenterUnload() {
	op, k, why := vp.Choose("op", 9), vp.Choose("key", 2), vp.Choose("why", 4)
	calls := 0
	var m *collections.GuavaMap[int, int]
	b := collections.NewGuavaMap[int, int]().WithLoadFunc(func(x int) (int, error) { return 40, nil }).WithUnloadFunc(func(x, v int) {
		n := 0
		vp.Ghost(func() {
			calls++
			n = calls
		})
		if n == 1 {
			oneOp(m, op, k)
		}
	})
	if why == 1 {
		b = b.WithMaxCount(1)
	}
	if why == 3 {
		b = b.WithWriteTimeout(1000)
	}
	m = b.Build()
	m.Set(0, 7)
	switch why {
	case 0:
		m.Delete(0)
	case 1:
		m.Set(1, 8)
	case 2:
		m.Clear()
	case 3:
		time.Sleep(1000)
	}
	vp.Settle()
	vp.Assert(calls >= 1, "the unload function is called")
	m.Set(0, 1)
	r, _ := m.Get(0)
	vp.Assert(r == 1, "the cache is usable")
	m.Clear()
	vp.Settle()
	vp.Assert(m.Size() == 0 || why == 1, "the cache is usable")
}

func vpContext() (context.Context, context.CancelFunc) {
	return context.WithCancel(context.Background())
}
