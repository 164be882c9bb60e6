package coll

import (
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// Two objects from one builder, which is changed in between.

// Two caches from one builder, the second with another limit, loader, unload function, timeout, context and without
// load locking (or the other way round).
//
//vp:check B01
func GuavaBuilder() {
	ctx1, cancel1 := vpContext()
	ctx2, cancel2 := vpContext()
	v, w := vp.Int("v"), vp.Int("w")
	var unl [2]int
	lock := vp.Choose("lockLoad", 2) == 1
	b := collections.NewGuavaMap[int, int]().WithContext(ctx1).WithMaxCount(2).WithLockLoad(lock).WithWriteTimeout(1000).
		WithLoadFunc(func(int) (int, error) { return v, nil }).
		WithUnloadFunc(func(int, int) { vp.Ghost(func() { unl[0]++ }) })
	m1 := b.Build()
	// the functions of a cache use another cache of the builder
	b0 := collections.NewGuavaMap[int, int]().WithContext(ctx1).WithLockLoad(lock)
	other := b0.WithLoadFunc(func(int) (int, error) { return v, nil }).Build()
	m0 := b0.WithLoadFunc(func(k int) (int, error) { return other.Get(k) }).Build()
	r0, err0 := m0.Get(0)
	vp.Assert(err0 == nil && r0 == v, "a loader may use another cache of its builder")
	lin.Par(func() {
		r := m0.LockForUpdate(0, func() int { return other.LockForUpdate(0, func() int { return w }) })
		vp.Assert(r == w, "an update function may update another cache of its builder")
	}, func() { other.LockForUpdate(0, func() int { return w }) })
	var m2 *collections.GuavaMap[int, int]
	second := func() {
		m2 = b.WithContext(ctx2).WithMaxCount(1).WithLockLoad(!lock).WithWriteTimeout(500).
			WithLoadFunc(func(int) (int, error) { return w, nil }).
			WithUnloadFunc(func(int, int) { vp.Ghost(func() { unl[1]++ }) }).Build()
	}
	get := func(m **collections.GuavaMap[int, int], k, want int) {
		r, err := (*m).Get(k)
		vp.Assert(err == nil && r == want, "each has its own loader and entries")
	}
	if vp.Choose("concurrent", 2) == 1 {
		lin.Par(func() { get(&m1, 0, v) }, func() {
			second()
			get(&m2, 0, w)
		})
	} else {
		second()
		get(&m2, 0, w)
		get(&m1, 0, v)
	}
	m1.Set(1, 5)
	m2.Set(1, 6)
	vp.Settle()
	vp.Assert(m1.Size() == 2 && m2.Size() == 1, "each has its own limit")
	vp.Assert(unl == [2]int{0, 1}, "each has its own unload function")
	x, ok := m1.GetStored()[1]
	vp.Assert(ok && x == 5, "each has its own entries")
	time.Sleep(600)
	vp.Assert(m1.Size() == 2 && m2.Size() == 0, "each has its own timeout")
	cancel2()
	time.Sleep(500)
	vp.Assert(m1.Size() == 0, "each has its own context")
	vp.Settle()
	vp.Assert(unl == [2]int{2, 2}, "each has its own unload function")
	cancel1()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left")
}

// Two unique-struct sets from one builder, the second with another identity function, time-to-live, interval, context.
//
//vp:check B01
func UniqBuilder() {
	ctx1, cancel1 := vpContext()
	ctx2, cancel2 := vpContext()
	b := collections.NewStructUniqSet[who]().WithContext(ctx1).WithElementTtl(1000).WithCheckInterval(100)
	s1 := b.Build()
	var s2 *collections.StructUniqSet[who]
	second := func() {
		s2 = b.WithContext(ctx2).WithBuildFunc(byA).WithElementTtl(300).WithCheckInterval(50).Build()
	}
	add := func(s **collections.StructUniqSet[who], x who, want bool) {
		ok, err := (*s).Add(x)
		vp.Assert(err == nil && ok == want, "each has its own values and identity function")
	}
	if vp.Choose("concurrent", 2) == 1 {
		lin.Par(func() { add(&s1, who{A: 1, B: 1}, true) }, func() {
			second()
			add(&s2, who{A: 1, B: 1}, true)
		})
	} else {
		second()
		add(&s2, who{A: 1, B: 1}, true)
		add(&s1, who{A: 1, B: 1}, true)
	}
	add(&s1, who{A: 1, B: 2}, true)
	add(&s2, who{A: 1, B: 2}, false)
	vp.Assert(s1.Count() == 2 && s2.Count() == 1, "each has its own values")
	time.Sleep(401)
	vp.Assert(s1.Count() == 2 && s2.Count() == 0, "each has its own time-to-live")
	cancel2()
	time.Sleep(800)
	vp.Assert(s1.Count() == 0, "each has its own context")
	cancel1()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left")
}

// Two sharded maps, or two bounded sets, from one builder.
//
//vp:check B01
func MapBuilders() {
	v, w := vp.Int("v"), vp.Int("w")
	switch vp.Choose("what", 2) {
	case 0:
		b := collections.NewShardMap[int, int]().WithShardsCount(2).WithShardsFunc(func(k int) int { return k % 2 })
		m1 := b.Build()
		m2 := b.Build()
		var m3 *collections.ShardMap[int, int]
		lin.Par(func() { m1.Set(2, v) }, func() { m2.Set(2, w) }, func() {
			m3 = b.WithShardsCount(3).WithShardsFunc(func(k int) int { return k % 3 }).Build()
			m3.Set(2, 3)
		})
		a, ok := m1.Get(2)
		vp.Assert(ok && a == v, "each has its own entries")
		a, ok = m2.Get(2)
		vp.Assert(ok && a == w, "each has its own entries")
		m1.Clear()
		vp.Assert(m1.Size() == 0 && m2.Size() == 1 && m3.Size() == 1, "each has its own entries")
	case 1:
		b := collections.NewHashSet[int]().WithMaxCount(1)
		s1, s2 := b.Build(), b.Build()
		var s3 *collections.HashSet[int]
		lin.Par(func() { s1.Add(1) }, func() { s2.HasOrCreate(2) }, func() {
			s3 = b.WithMaxCount(2).Build()
			s3.Add(3)
		})
		s1.Add(4)
		s3.Add(4)
		vp.Assert(s1.Count() == 1 && s1.Has(4) && s2.Count() == 1 && s2.Has(2), "each has its own keys and limit")
		vp.Assert(s3.Count() == 2 && s3.Has(3) && s3.Has(4), "each has its own keys and limit")
	}
}
