package coll

import (
	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// guarded is data that only the lock under test protects: an unsynchronised access is a race, and a second
// goroutine inside is seen by the counter.
type guarded struct {
	x       int
	writers int
	readers int
}

func (g *guarded) write() {
	vp.Ghost(func() {
		vp.Assert(g.writers == 0 && g.readers == 0, "a writer is alone")
		g.writers++
	})
	g.x++
	vp.Yield()
	g.x++
	vp.Ghost(func() { g.writers-- })
}

func (g *guarded) read() {
	vp.Ghost(func() {
		vp.Assert(g.writers == 0, "no reader beside a writer")
		g.readers++
	})
	a := g.x
	vp.Yield()
	vp.Assert(a == g.x && a%2 == 0, "a reader sees no half-done write")
	vp.Ghost(func() { g.readers-- })
}

// Three goroutines lock arbitrary keys of {0,1}, starting from an unused lock; afterwards each key can be locked
// again.
//
//vp:check L01,T01
func MutexExclusive() {
	m := collections.NewMapMutex[int]()
	var g [2]guarded
	var fs []func()
	n := [2]int{}
	for range 3 {
		k := vp.Choose("key", 2)
		n[k]++
		fs = append(fs, func() {
			m.Lock(k)
			g[k].write()
			m.Unlock(k)
		})
	}
	lin.Par(fs...)
	for k := range 2 {
		m.Lock(k)
		vp.Assert(g[k].x == 2*n[k], "every waiter got the lock")
		m.Unlock(k)
	}
}

// Two goroutines, each locking an arbitrary key twice in a row.
//
//vp:check L01
func MutexReuse() {
	m := collections.NewMapMutex[int]()
	var g [2]guarded
	var fs []func()
	n := [2]int{}
	for range 2 {
		k, l := vp.Choose("key", 2), vp.Choose("key", 2)
		n[k]++
		n[l]++
		fs = append(fs, func() {
			m.Lock(k)
			g[k].write()
			m.Unlock(k)
			m.Lock(l)
			g[l].write()
			m.Unlock(l)
		})
	}
	lin.Par(fs...)
	for k := range 2 {
		m.Lock(k)
		vp.Assert(g[k].x == 2*n[k], "every waiter got the lock")
		m.Unlock(k)
	}
}

// Any two different keys (symbolic): a goroutine that holds one waits for a goroutine that takes and releases
// the other.
//
//vp:check L01
func MutexIndependent() {
	m := collections.NewMapMutex[int]()
	a, b := vp.Int("a"), vp.Int("b")
	if vp.Choose("used", 2) == 1 {
		m.Lock(b)
		m.Unlock(b)
	}
	done := make(chan bool)
	m.Lock(a)
	go func() {
		if a != b {
			m.Lock(b)
			m.Unlock(b)
		}
		close(done)
	}()
	<-done
	m.Unlock(a)
	m.Lock(a)
	m.Unlock(a)
}

// Any key (symbolic): a held lock is not handed out a second time; unlocking a key nobody locked does nothing.
//
//vp:check L01
func MutexHeld() {
	m := collections.NewMapMutex[int]()
	a, b := vp.Int("a"), vp.Int("b")
	vp.Assume(a != b)
	m.Lock(a)
	m.Unlock(b)
	in := false
	go func() {
		m.Lock(a)
		vp.Ghost(func() { in = true })
		m.Unlock(a)
	}()
	vp.Settle()
	vp.Assert(!in, "a held key is not acquired")
	m.Unlock(a)
	vp.Settle()
	vp.Assert(in, "a waiter acquires the key after it is unlocked")
}

// Three goroutines read- or write-lock arbitrary keys of {0,1}, starting from an unused lock.
//
//vp:check L02,T01
func RWExclusive() {
	m := collections.NewMapRWMutex[int]()
	var g [2]guarded
	var fs []func()
	n := [2]int{}
	for i := range 3 {
		k := 0
		if i > 0 {
			k = vp.Choose("key", 2)
		}
		if vp.Choose("write", 2) == 1 {
			n[k]++
			fs = append(fs, func() {
				m.Lock(k)
				g[k].write()
				m.Unlock(k)
			})
		} else {
			fs = append(fs, func() {
				m.RLock(k)
				g[k].read()
				m.RUnlock(k)
			})
		}
	}
	lin.Par(fs...)
	for k := range 2 {
		m.Lock(k)
		vp.Assert(g[k].x == 2*n[k], "every writer got the lock")
		m.Unlock(k)
	}
}

// Two goroutines with two rounds each, reading or writing one key.
//
//vp:check L02
func RWReuse() {
	m := collections.NewMapRWMutex[int]()
	var g guarded
	var fs []func()
	for range 2 {
		w1, w2 := vp.Choose("write", 2), vp.Choose("write", 2)
		round := func(w int) {
			if w == 1 {
				m.Lock(0)
				g.write()
				m.Unlock(0)
			} else {
				m.RLock(0)
				g.read()
				m.RUnlock(0)
			}
		}
		fs = append(fs, func() {
			round(w1)
			round(w2)
		})
	}
	lin.Par(fs...)
	m.Lock(0)
	m.Unlock(0)
}

// Readers of one key are inside together; any key (symbolic), used before or not.
//
//vp:check L02
func RWShared() {
	m := collections.NewMapRWMutex[int]()
	a := vp.Int("a")
	switch vp.Choose("used", 3) {
	case 1:
		m.Lock(a)
		m.Unlock(a)
	case 2:
		m.RLock(a)
		m.RUnlock(a)
	}
	c := make(chan bool)
	lin.Par(func() {
		m.RLock(a)
		c <- true
		m.RUnlock(a)
	}, func() {
		m.RLock(a)
		<-c
		m.RUnlock(a)
	})
	m.Lock(a)
	m.Unlock(a)
}

// A held write lock keeps readers and writers of its key out, a held read lock keeps writers out; any two
// different keys (symbolic) are independent and unlocking a key nobody locked does nothing.
//
//vp:check L02
func RWHeld() {
	m := collections.NewMapRWMutex[int]()
	a, b := vp.Int("a"), vp.Int("b")
	vp.Assume(a != b)
	hw := vp.Choose("holder writes", 2) == 1
	ow := vp.Choose("other writes", 2) == 1
	if hw {
		m.Lock(a)
	} else {
		m.RLock(a)
	}
	if vp.Choose("unlock other", 2) == 1 {
		m.Unlock(b)
		m.RUnlock(b)
	}
	in, inb := false, false
	go func() {
		if ow {
			m.Lock(a)
		} else {
			m.RLock(a)
		}
		vp.Ghost(func() { in = true })
		if ow {
			m.Unlock(a)
		} else {
			m.RUnlock(a)
		}
	}()
	go func() {
		if ow {
			m.Lock(b)
			m.Unlock(b)
		} else {
			m.RLock(b)
			m.RUnlock(b)
		}
		vp.Ghost(func() { inb = true })
	}()
	vp.Settle()
	vp.Assert(inb, "another key is not blocked")
	vp.Assert(in == (!hw && !ow), "a writer excludes and readers share")
	if hw {
		m.Unlock(a)
	} else {
		m.RUnlock(a)
	}
	vp.Settle()
	vp.Assert(in, "a waiter acquires the key after it is unlocked")
}
