package selftest

import (
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"maps"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vpharness/vp"
)

// want: ok
func SyncMapOnce() {
	var m sync.Map
	var wg sync.WaitGroup
	var n atomic.Int32
	k := vp.Int("k")
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, ok := m.LoadOrStore(k, i); !ok {
				n.Add(1)
			}
		}()
	}
	wg.Wait()
	vp.Assert(n.Load() == 1, "one stores")
	v, ok := m.Load(k)
	vp.Assert(ok && (v == 0 || v == 1), "stored")
	m.Range(func(a, b any) bool { vp.Assert(a == k && b == v, "range"); return true })
	m.Delete(k)
	_, ok = m.LoadAndDelete(k)
	vp.Assert(!ok, "deleted")
}

// want: ok
func CondQueue() {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	var q []int
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			for len(q) == 0 {
				c.Wait()
			}
			q = q[1:]
			mu.Unlock()
		}()
	}
	mu.Lock()
	q = append(q, 1)
	mu.Unlock()
	c.Signal()
	mu.Lock()
	q = append(q, 2)
	mu.Unlock()
	c.Broadcast()
	wg.Wait()
	vp.Assert(len(q) == 0, "all taken")
}

// want: deadlock
func CondLost() {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	go func() { c.Signal() }()
	mu.Lock()
	c.Wait()
	mu.Unlock()
}

// want: ok
func PoolReuse() {
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.WriteByte(vp.Byte("b"))
	b.Reset()
	p.Put(b)
	vp.Assert(p.Get().(*bytes.Buffer).Len() == 0, "empty")
}

// want: ok
func StdCollections() {
	a, b := vp.Int("a"), vp.Int("b")
	m := map[int]int{1: a}
	c := maps.Clone(m)
	m[1] = b
	vp.Assert(c[1] == a, "clone")
	maps.DeleteFunc(c, func(k, v int) bool { return v == a })
	vp.Assert(len(c) == 0, "deleted")
	l := list.New()
	l.PushBack(a)
	e := l.PushFront(b)
	l.MoveToBack(e)
	vp.Assert(l.Front().Value == a && l.Len() == 2, "list")
	l.Remove(e)
	s := []int{a, b, 3}
	slices.Sort(s)
	vp.Assert(s[0] <= s[1] && s[1] <= s[2], "sorted")
	s = []int{b, a, 3}
	sort.Ints(s)
	vp.Assert(s[0] <= s[1] && s[1] <= s[2], "sorted 2")
	sort.Slice(s, func(i, j int) bool { return s[i] > s[j] })
	vp.Assert(s[0] >= s[1] && s[1] >= s[2], "sorted 3")
	i := slices.Index(s, a)
	vp.Assert(i >= 0 && s[i] == a, "index")
	vp.Assert(slices.Max(s) == s[0] && slices.Min(s) == s[2], "max")
	vp.Assert(slices.Equal(s, slices.Clone(s)), "eq")
	s = slices.DeleteFunc(s, func(v int) bool { return v == a })
	vp.Assert(!slices.Contains(s, a), "gone")
	h := &ih{3, a, b}
	heap.Init(h)
	x := heap.Pop(h).(int)
	vp.Assert(x <= (*h)[0], "heap")
	vp.Assert(cmp.Compare(a, b) == -cmp.Compare(b, a), "cmp")
	vp.Assert(slices.IsSortedFunc([]int{1, 2}, cmp.Compare[int]), "fn")
	keys := make([]int, 0)
	for k := range m {
		keys = append(keys, k)
	}
	slices.Reverse(keys)
	it := 0
	for range 3 {
		it++
	}
	for v := range slices.Values(s) {
		vp.Assert(v != a, "iter")
	}
}

type ih []int

func (h ih) Len() int           { return len(h) }
func (h ih) Less(i, j int) bool { return h[i] < h[j] }
func (h ih) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ih) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ih) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "my" }

// want: ok
func StdErrors() {
	e := &myErr{vp.Int("n")}
	w := fmt.Errorf("x: %w", e)
	var t *myErr
	vp.Assert(errors.As(w, &t) && t == e, "as")
	j := errors.Join(nil, w, io.EOF)
	vp.Assert(errors.Is(j, io.EOF) && errors.Is(j, e), "join")
	vp.Assert(errors.Unwrap(w) == error(e), "unwrap")
	vp.Assert(errors.Join(nil, nil) == nil, "nil join")
}

// want: ok
func StdBytes() {
	a := vp.Uint32("a")
	b := binary.BigEndian.AppendUint32(nil, a)
	vp.Assert(binary.BigEndian.Uint32(b) == a, "be")
	h := hex.EncodeToString(b)
	d, err := hex.DecodeString(h)
	vp.Assert(err == nil && bytes.Equal(b, d), "hex")
	var buf bytes.Buffer
	err = binary.Write(&buf, binary.LittleEndian, a)
	var c uint32
	err2 := binary.Read(&buf, binary.LittleEndian, &c)
	vp.Assert(err == nil && err2 == nil && c == a, "binary")
	r := bytes.NewReader(b)
	x := make([]byte, 2)
	n, err := io.ReadFull(r, x)
	vp.Assert(n == 2 && err == nil && x[0] == b[0], "readfull")
	rest, err := io.ReadAll(r)
	vp.Assert(err == nil && bytes.Equal(rest, b[2:]), "readall")
	var sb strings.Builder
	sb.WriteString("ab")
	sb.WriteByte('c')
	vp.Assert(sb.String() == "abc" && strings.ToUpper("abc") == "ABC", "sb")
	vp.Assert(strings.Join([]string{"a", "b"}, ",") == "a,b", "join")
	vp.Assert(len(strings.Split("a/b/c", "/")) == 3, "split")
	vp.Assert(strings.TrimSuffix("a.go", ".go") == "a" && strings.Contains("abc", "bc"), "trim")
	vp.Assert(bytes.HasPrefix(b, b[:2]) && bytes.Compare(b, b) == 0, "prefix")
	vp.Assert(strconv.Itoa(12) == "12" && strconv.FormatInt(-3, 10) == "-3", "itoa")
	u := binary.AppendUvarint(nil, uint64(a))
	v, k := binary.Uvarint(u)
	vp.Assert(v == uint64(a) && k == len(u), "uvarint")
	n64, err := io.Copy(&buf, bytes.NewReader(b))
	vp.Assert(n64 == 4 && err == nil && bytes.Equal(buf.Bytes(), b), "copy")
	vp.Assert(bytes.Equal(bytes.Join([][]byte{b, b}, nil), append(slices.Clone(b), b...)), "bjoin")
	lr := io.LimitReader(bytes.NewReader(b), 3)
	rest, err = io.ReadAll(lr)
	vp.Assert(len(rest) == 3 && err == nil, "limit")
	mr := io.MultiReader(bytes.NewReader(b), strings.NewReader("x"))
	rest, err = io.ReadAll(mr)
	vp.Assert(len(rest) == 5 && err == nil, "multi")
	var xx [4]byte
	vp.Assert(copy(xx[:], b) == 4 && xx == [4]byte(b), "array")
}

// want: ok
func StdOnce() {
	n := 0
	o := sync.OnceValue(func() int { n++; return n })
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); vp.Assert(o() == 1, "once") }()
	}
	wg.Wait()
	f := sync.OnceFunc(func() { n++ })
	f()
	f()
	vp.Assert(n == 2, "func")
	wg.Go(func() { n++ })
	wg.Wait()
}

// want: ok
func StdHash() {
	b := []byte{vp.Byte("a"), vp.Byte("b")}
	h := md5.New()
	h.Write(b[:1])
	io.WriteString(h, string(b[1:]))
	s := md5.Sum(b)
	vp.Assert(bytes.Equal(h.Sum(nil), s[:]), "same digest")
	vp.Assert(fmt.Sprintf("%x", s) == hex.EncodeToString(s[:]), "hex")
	var sb strings.Builder
	for _, c := range s {
		fmt.Fprintf(&sb, "%02x", c)
	}
	vp.Assert(sb.String() == fmt.Sprintf("%x", s[:]), "hex 2")
}

// want: ok
func AfterFuncReset() {
	n := 0
	var mu sync.Mutex
	t := time.AfterFunc(time.Second, func() { mu.Lock(); n++; mu.Unlock() })
	time.Sleep(2 * time.Second)
	vp.Assert(!t.Reset(time.Second), "had fired")
	time.Sleep(2 * time.Second)
	vp.Assert(!t.Stop(), "fired again")
	mu.Lock()
	vp.Assert(n == 2, "twice")
	mu.Unlock()
}
