// Package selftest holds small programs with known verdicts; they check the engine itself.
package selftest

import (
	"math"
	"sync"
	"sync/atomic"
	"time"

	_ "vpharness/model"
	"vpharness/vp"
)

// want: race
func RaceCounter() {
	x := 0
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			x++
			wg.Done()
		}()
	}
	wg.Wait()
}

// want: ok
func LockCounter() {
	x := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	wg.Add(3)
	for i := 0; i < 3; i++ {
		go func() {
			defer wg.Done()
			mu.Lock()
			x++
			mu.Unlock()
		}()
	}
	wg.Wait()
	vp.Assert(x == 3, "three")
}

// want: deadlock
func LockOrder() {
	var a, b sync.Mutex
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }()
	go func() { defer wg.Done(); b.Lock(); a.Lock(); a.Unlock(); b.Unlock() }()
	wg.Wait()
}

// want: ok
func PingPong() {
	c, d := make(chan int), make(chan int, 1)
	v := vp.Int("v")
	go func() {
		for x := range c {
			d <- x + 1
		}
		close(d)
	}()
	c <- v
	vp.Assert(<-d == v+1, "inc")
	c <- 5
	close(c)
	vp.Assert(<-d == 6, "inc2")
	_, ok := <-d
	vp.Assert(!ok, "closed")
}

// want: assert "order" fails, ok otherwise
func TimerOrder() {
	d1, d2 := vp.IntRange("d1", 1, 1000), vp.IntRange("d2", 1, 1000)
	t0 := time.Now()
	select {
	case <-time.After(time.Duration(d1)):
		vp.Assert(d1 <= d2, "first")
		vp.Assert(time.Since(t0) == time.Duration(d1), "elapsed")
	case <-time.After(time.Duration(d2)):
		vp.Assert(d1 < d2, "order")
	}
}

// want: assert "lost update"
func AtomicLost() {
	var x atomic.Int64
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			v := x.Load()
			x.Store(v + 1)
			wg.Done()
		}()
	}
	wg.Wait()
	vp.Assert(x.Load() == 2, "lost update")
}

// want: race (after unlock)
func TailRace() {
	x := 0
	var mu sync.Mutex
	done := make(chan bool)
	go func() {
		mu.Lock()
		mu.Unlock()
		x = 1
		done <- true
	}()
	mu.Lock()
	mu.Unlock()
	_ = x
	<-done
}

// want: race (buffered send then write)
func TailRace2() {
	x := 0
	c := make(chan int, 1)
	go func() {
		c <- 1
		x = 1
	}()
	<-c
	_ = x
}

// want: ok
func ChanSync() {
	x := 0
	c := make(chan int, 1)
	go func() {
		x = 1
		c <- 1
	}()
	<-c
	vp.Assert(x == 1, "sync")
}

// want: panic close of closed
func DoubleClose() {
	c := make(chan int)
	go func() { close(c) }()
	go func() { close(c) }()
	time.Sleep(time.Second)
}

// want: ok; recover and defer order
func Defers() {
	s := 0
	f := func() (r int) {
		defer func() {
			if e := recover(); e != nil {
				r = s*10 + 1
			}
		}()
		defer func() { s += 2 }()
		var m map[int]int
		m[1] = 2
		return 7
	}
	vp.Assert(f() == 21, "recovered")
}

// want: race (parent writes after spawn, child reads first thing)
func SpawnRace() {
	x := 0
	done := make(chan bool)
	go func() {
		if x == 1 {
			x = 3
		}
		done <- true
	}()
	x = 1
	<-done
}

// want: ok
func RW() {
	var mu sync.RWMutex
	x := 0
	var wg sync.WaitGroup
	wg.Add(3)
	go func() { defer wg.Done(); mu.Lock(); x++; mu.Unlock() }()
	go func() { defer wg.Done(); mu.RLock(); _ = x; mu.RUnlock() }()
	go func() { defer wg.Done(); mu.RLock(); _ = x; mu.RUnlock() }()
	wg.Wait()
	vp.Assert(x == 1, "one")
}

// want: ok
func OnceTest() {
	var o sync.Once
	n := 0
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			o.Do(func() { n++ })
			vp.Assert(n == 1, "done")
		}()
	}
	wg.Wait()
}

// Conversions between floating point and integers behave as in the compiled code (path samples are
// compared with it).
//
// want: ok
func FloatConv() {
	f := vp.Float64("f")
	vp.Assume(f == f)
	i := vp.Int("i")
	switch {
	case f < -1e30:
	case f < -1e19:
	case f < -1e10:
	case f < -3:
	case f < 0:
	case f < 1:
	case f < 1e6:
	case f < 1e12:
	case f < 1.5e19:
	case f < 1e30:
	}
	vp.ObserveInt("int64", int(int64(f)))
	vp.ObserveInt("int32", int(int32(f)))
	vp.ObserveInt("uint64", int(uint64(f)))
	vp.ObserveInt("uint32", int(uint32(f)))
	vp.ObserveInt("uint8", int(uint8(f)))
	vp.ObserveInt("int16", int(int16(f)))
	vp.ObserveInt("div", int(float64(i)/f))
	vp.ObserveInt("div32", int(float32(i)/float32(f)))
	vp.ObserveInt("floor", int(math.Floor(f)))
	vp.ObserveInt("ceil", int(math.Ceil(f)))
	vp.ObserveInt("round", int(math.Round(f)))
	vp.ObserveInt("sqrt", int(math.Sqrt(math.Abs(f))*1e6))
}
