// Package vpsched controls goroutine schedules when counterexamples are replayed against the compiled code: the
// replay build inserts a call of P before every statement of the code under test.
package vpsched

import (
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
)

var (
	mode    int // 0 off, 1 random preemption (race detector), 2 controlled
	mu      sync.Mutex
	parked  []chan struct{}
	fresh   int // parked[fresh:] parked since the last release
	settle  []chan struct{}
	wake    chan struct{}
	atomics int
	rng     *rand.Rand
	sticky  float64
)

// Race switches to random preemption without any synchronisation of its own.
func Race(seed int64) { state = uint64(seed)*0x9E3779B97F4A7C15 + 1; mode = 1 }

var state uint64

//go:norace
func preempt() {
	state = state*6364136223846793005 + 1442695040888963407
	for n := (state >> 60) & 3; n > 0; n-- {
		runtime.Gosched()
	}
}

// Start makes one goroutine run at a time, chosen at random at every point.
func Start(seed int64) {
	rng = rand.New(rand.NewSource(seed))
	sticky = []float64{0, 0.5, 0.8, 0.95}[seed&3]
	wake = make(chan struct{}, 1)
	mode = 2
	go control()
}

func control() {
	for {
		<-wake
		for {
			synctest.Wait()
			mu.Lock()
			if len(parked) == 0 {
				if len(settle) == 0 {
					mu.Unlock()
					break
				}
				parked, settle = settle, nil
				fresh = 0
			}
			i := rng.Intn(len(parked))
			if fresh < len(parked) && rng.Float64() < sticky {
				i = fresh + rng.Intn(len(parked)-fresh)
			}
			ch := parked[i]
			parked = append(parked[:i], parked[i+1:]...)
			fresh = len(parked)
			mu.Unlock()
			close(ch)
		}
	}
}

func park(q *[]chan struct{}) {
	ch := make(chan struct{})
	mu.Lock()
	*q = append(*q, ch)
	mu.Unlock()
	select {
	case wake <- struct{}{}:
	default:
	}
	<-ch
}

// P is a scheduling point.
func P() {
	switch mode {
	case 1:
		preempt()
	case 2:
		if atomics == 0 {
			park(&parked)
		}
	}
}

// Settle waits until every other goroutine is blocked.
func Settle() {
	if mode == 2 {
		park(&settle)
		return
	}
	quiet()
}

// quiet waits until every other goroutine is blocked. synctest.Wait does not return while one waits for a mutex, so
// the states of the goroutines are read first.
func quiet() {
	buf := make([]byte, 1<<16)
	for same := 0; ; {
		n := runtime.Stack(buf, true)
		if n == len(buf) {
			buf = make([]byte, 2*n)
			continue
		}
		active, locked := false, false
		for i, g := range strings.Split(string(buf[:n]), "\n\n") {
			head, _, _ := strings.Cut(g, "\n")
			if i == 0 || !strings.Contains(head, "synctest bubble") {
				continue
			}
			switch {
			case strings.Contains(head, "[runnable") || strings.Contains(head, "[running") || strings.Contains(head, "[syscall") || strings.Contains(head, "[waiting") || strings.Contains(head, "[preempted"):
				active = true
			case strings.Contains(head, "[sync.Mutex") || strings.Contains(head, "[sync.RWMutex") || strings.Contains(head, "[semacquire"):
				locked = true
			}
		}
		if !active && !locked {
			synctest.Wait()
			return
		}
		if active {
			same = 0
		} else if same++; same > 3 {
			return
		}
		runtime.Gosched()
	}
}

// Atomic runs f without scheduling points.
func Atomic(f func()) {
	if mode != 2 {
		gmu.Lock()
		defer gmu.Unlock()
		f()
		return
	}
	atomics++
	defer func() { atomics-- }()
	f()
}

var gmu sync.Mutex
