package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Canonical form of a state: a shape (structure, control, concrete non-scalar data) plus the list of scalar
// terms in traversal order. States with equal shape can be merged by joining their terms.

type canon struct {
	e     *Engine
	s     *State
	buf   []byte
	terms []*Term
	num   map[ObjID]int
	queue []ObjID
	// write mode
	write bool
	repl  []*Term
	pos   int
	// what the alpha key leaves out
	nkey   int // length of buf without input counters and observations
	nterms int
	shift  *Term // current time, subtracted from instants
	// arrays behind slices: only the part some slice shows is part of the state
	live  map[ObjID]*liveSet
	order []ObjID
	refs  []arrRef
	// spawn numbers in use, per parent, in order: goroutines are named by rank
	rank  map[string]map[int]int
	emitd bool
	redo  map[ObjID]bool
}

type liveSet struct {
	all  bool
	on   []bool
	base int
}
type arrRef struct {
	obj ObjID
	i   int
}

// isArr: the object is an array whose elements are addressed one by one.
func (c *canon) isArr(id ObjID) *liveSet {
	if id < ObjID(len(c.e.base)) {
		return nil
	}
	o := c.s.obj(id)
	if o.kind != OCell || o.arr == nil {
		return nil
	}
	l := c.live[id]
	if l == nil {
		l = &liveSet{on: make([]bool, len(o.arr)), all: c.redo[id]}
		c.live[id] = l
	}
	return l
}

func (c *canon) mark(id ObjID, l *liveSet, lo, hi int) {
	for i := lo; i < hi; i++ {
		if !l.on[i] {
			l.on[i] = true
			if c.emitd && !l.all {
				c.redo[id] = true
			}
		}
	}
}

// arrays emits the live elements of all arrays.
func (c *canon) arrays() {
	c.emitd = true
	for len(c.order) > 0 {
		id := c.order[0]
		c.order = c.order[1:]
		l := c.live[id]
		o := c.s.obj(id)
		if c.write {
			o = c.s.mut(id)
		}
		c.b('a')
		c.i(c.num[id])
		if !l.all {
			for l.base < len(l.on) && !l.on[l.base] {
				l.base++
			}
		} else {
			c.i(len(o.arr))
		}
		for i, v := range o.arr {
			if !l.all && !l.on[i] {
				continue
			}
			c.i(i - l.base)
			n := c.val(v)
			if c.write {
				o.arr[i] = n
			}
		}
		c.drainQ()
	}
	c.emitd = false
	for _, r := range c.refs {
		c.i(r.i - c.live[r.obj].base)
	}
	c.b('.')
}

func (c *canon) b(x ...byte) { c.buf = append(c.buf, x...) }
func (c *canon) i(x int) {
	c.buf = binary.AppendVarint(c.buf, int64(x))
}
func (c *canon) str(x string) {
	c.i(len(x))
	c.buf = append(c.buf, x...)
}
func bb(x bool) byte {
	if x {
		return 1
	}
	return 0
}

func (c *canon) term(t *Term) *Term {
	if c.write {
		r := c.repl[c.pos]
		c.pos++
		return r
	}
	c.b('t', byte(t.sort.K), t.sort.W)
	c.terms = append(c.terms, t)
	return t
}

func (c *canon) obj(id ObjID) {
	nb := ObjID(len(c.e.base))
	if id < nb {
		c.b('B')
		c.i(int(id))
		return
	}
	n, ok := c.num[id]
	if !ok {
		n = len(c.num)
		c.num[id] = n
		c.queue = append(c.queue, id)
	}
	c.b('O')
	c.i(n)
}

func (c *canon) vals(vs []Value) []Value {
	var out []Value
	for i, v := range vs {
		n := c.val(v)
		if c.write {
			if out == nil {
				out = append([]Value(nil), vs...)
			}
			out[i] = n
		}
	}
	if !c.write || out == nil {
		return vs
	}
	return out
}

func (c *canon) val(v Value) Value {
	switch u := v.(type) {
	case nil:
		c.b('0')
	case *Term:
		return c.term(u)
	case Ptr:
		if u.Obj == 0 {
			c.b('z')
			return v
		}
		if l := c.isArr(u.Obj); l != nil {
			c.b('q')
			c.obj(u.Obj)
			if u.Path == "" {
				c.mark(u.Obj, l, 0, len(l.on))
				return v
			}
			i := pathIdx(u.Path, 0)
			c.mark(u.Obj, l, i, i+1)
			c.refs = append(c.refs, arrRef{u.Obj, i})
			c.str(u.Path[pathW:])
			return v
		}
		c.b('p')
		c.obj(u.Obj)
		c.str(u.Path)
	case SliceV:
		if u.Arr.Obj == 0 {
			c.b('n')
			return v
		}
		if l := c.isArr(u.Arr.Obj); l != nil && u.Arr.Path == "" {
			c.b('S')
			c.obj(u.Arr.Obj)
			n := u.Len
			if c.e.stale {
				n = u.Cap
			}
			c.mark(u.Arr.Obj, l, u.Off, u.Off+n)
			c.refs = append(c.refs, arrRef{u.Arr.Obj, u.Off})
			c.i(u.Len)
			c.i(u.Cap)
			return v
		}
		c.b('s')
		c.obj(u.Arr.Obj)
		c.str(u.Arr.Path)
		c.i(u.Off)
		c.i(u.Len)
		c.i(u.Cap)
	case StrV:
		if u.Sym == nil {
			c.b('"')
			c.str(u.S)
			return v
		}
		c.b('y')
		c.i(len(u.Sym))
		if c.write {
			n := make([]*Term, len(u.Sym))
			for i, t := range u.Sym {
				n[i] = c.term(t)
			}
			return mkStr(n)
		}
		for _, t := range u.Sym {
			c.term(t)
		}
	case StructV:
		c.b('{')
		f := c.vals(u.F)
		c.b('}')
		if c.write {
			return StructV{f}
		}
	case ArrayV:
		c.b('[')
		c.i(len(u.E))
		f := c.vals(u.E)
		if c.write {
			return ArrayV{f}
		}
	case TupleV:
		c.b('(')
		f := c.vals(u.E)
		c.b(')')
		if c.write {
			return TupleV{f}
		}
	case IfaceV:
		if u.T == nil {
			c.b('i', '0')
			return v
		}
		c.b('i')
		c.i(c.e.typeID(u.T))
		n := c.val(u.V)
		if c.write {
			return IfaceV{u.T, n}
		}
	case FuncV:
		if u.C == nil {
			c.b('f', '0')
			return v
		}
		c.b('f')
		if u.C.Fn != nil {
			c.i(c.e.info(u.C.Fn).id)
		} else {
			c.str(u.C.Nat)
		}
		bd := c.vals(u.C.Bind)
		na := c.vals(u.C.NatA)
		c.b(')')
		if c.write {
			return FuncV{&Closure{Fn: u.C.Fn, Nat: u.C.Nat, Bind: bd, NatA: na}}
		}
	case MapV:
		c.b('m')
		if u.Obj == 0 {
			c.b('0')
		} else {
			c.obj(u.Obj)
		}
	case ChanV:
		c.b('c')
		if u.Obj == 0 {
			c.b('0')
		} else {
			c.obj(u.Obj)
		}
	case IterV:
		c.b('I')
		c.obj(u.Obj)
	case UnsafeV:
		c.b('u')
		n := c.val(u.V)
		if c.write {
			return UnsafeV{n}
		}
	case MutexV:
		c.b('M', bb(u.Locked))
	case RWMutexV:
		c.b('R', bb(u.W), bb(u.Pending))
		c.i(u.R)
	case WaitGroupV:
		c.b('W')
		c.i(u.N)
	case TimeV:
		if u.T == zeroTimeT() {
			c.b('Z')
			return v
		}
		c.b('T')
		t := c.term(c.rel(u.T))
		if c.write {
			return TimeV{t}
		}
	default:
		panic(fmt.Sprintf("internal: canon of %T", v))
	}
	return v
}

// entOrder: map entries in canonical order (sorted when all keys are concrete scalars or strings).
func entOrder(o *Obj) []int {
	idx := make([]int, len(o.ents))
	keys := make([]string, len(o.ents))
	ok := len(o.ents) > 1
	for i, e := range o.ents {
		idx[i] = i
		if !ok {
			continue
		}
		switch k := e.K.(type) {
		case *Term:
			if k.IsConst() {
				keys[i] = fmt.Sprintf("%020d", k.val)
			} else {
				ok = false
			}
		case StrV:
			if k.Sym == nil {
				keys[i] = k.S
			} else {
				ok = false
			}
		default:
			ok = false
		}
	}
	if ok {
		sort.SliceStable(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
	}
	return idx
}

func (c *canon) object(id ObjID) {
	s := c.s
	o := s.obj(id)
	if c.write {
		o = s.mut(id)
	}
	c.b('#', byte(o.kind))
	switch o.kind {
	case OCell:
		if o.arr != nil {
			if l := c.isArr(id); l != nil {
				c.order = append(c.order, id)
				return
			}
			c.b('a')
			c.i(len(o.arr))
			for i, v := range o.arr {
				n := c.val(v)
				if c.write {
					o.arr[i] = n
				}
			}
		} else {
			n := c.val(o.val)
			if c.write {
				o.val = n
			}
		}
	case OMap:
		c.i(len(o.ents))
		for _, i := range entOrder(o) {
			// concrete keys are part of the shape
			k := o.ents[i].K
			if t, ok := k.(*Term); ok && t.IsConst() {
				c.b('k')
				c.i(int(t.val))
			} else {
				n := c.val(k)
				if c.write {
					o.ents[i].K = n
				}
			}
			n := c.val(o.ents[i].V)
			if c.write {
				o.ents[i].V = n
			}
		}
	case OChan:
		c.i(o.cap)
		c.b(bb(o.closed))
		c.i(len(o.buf))
		for i, v := range o.buf {
			n := c.val(v)
			if c.write {
				o.buf[i] = n
			}
		}
		if o.timer != 0 {
			c.obj(o.timer)
		}
	case OIter:
		if o.mapo == 0 {
			c.val(o.str)
			c.i(o.pos)
			return
		}
		c.obj(o.mapo)
		m := s.obj(o.mapo)
		ord := entOrder(m)
		inv := make(map[int]int, len(ord))
		for p, i := range ord {
			inv[m.ents[i].ID] = p
		}
		for _, k := range o.keys[o.pos:] {
			if p, ok := inv[k.ID]; ok {
				c.i(p)
			}
		}
		c.i(-1)
	case OTimer:
		c.b(bb(s.timerActive(id)))
		if s.timerActive(id) {
			n := c.term(c.rel(o.deadline))
			if c.write {
				o.deadline = n
			}
		}
		if o.period != nil {
			n := c.term(o.period)
			if c.write {
				o.period = n
			}
		}
		if o.ch != 0 {
			c.obj(o.ch)
		}
		c.str(c.tkey(o.thread))
		if o.creator != "" && s.timerActive(id) {
			c.str(c.tkey(fmt.Sprintf("%s.%d", o.creator, o.seq)))
		}
		n := c.val(o.fn)
		if c.write {
			o.fn = n.(FuncV)
		}
	}
}

func (c *canon) drainQ() {
	for len(c.queue) > 0 {
		id := c.queue[0]
		c.queue = c.queue[1:]
		c.object(id)
	}
}

func (c *canon) defers(f *Frame) {
	c.i(len(f.defers))
	for j := range f.defers {
		d := &f.defers[j]
		c.str(d.bi)
		if d.fn != nil {
			n := c.val(d.fn)
			if c.write {
				d.fn = n
			}
		}
		a := c.vals(d.args)
		if c.write {
			d.args = a
		}
	}
}

func (c *canon) frame(t *Thread, k int) {
	f := t.frames[k]
	top := k == len(t.frames)-1
	c.b('F')
	c.i(f.info.id)
	c.i(f.block.Index)
	c.i(f.idx)
	c.i(f.ret)
	c.b(bb(f.panicking), bb(f.recovered), bb(f.isDefer), bb(f.unwinding), bb(f.ghost), bb(f.unrec))
	if f.panicking {
		n := c.val(f.panicVal)
		if c.write {
			f.panicVal = n
		}
	}
	after := false
	if top {
		after = t.pend != nil && t.pend.adv
	} else {
		after = !t.frames[k+1].isDefer
	}
	live := f.info.liveAt(f.block, f.idx, after)
	for r := 0; r < f.info.nreg; r++ {
		if live.has(r) && f.regs[r] != nil {
			c.i(r)
			n := c.val(f.regs[r])
			if c.write {
				f.regs[r] = n
			}
		}
	}
	c.b(';')
	c.defers(f)
}

func (c *canon) thread(t *Thread) {
	c.b('@')
	c.str(c.tkey(t.key))
	c.b(byte(t.status), bb(t.firm), bb(t.announced), bb(t.virgin), bb(t.eagerRan), bb(t.spawnedNow))
	c.i(t.ghost)
	for k := range t.frames {
		c.frame(t, k)
	}
	if t.pend != nil {
		c.b('P')
		c.str(t.pend.name)
		if c.write {
			p := *t.pend
			p.args = c.vals(p.args)
			t.pend = &p
		} else {
			c.vals(t.pend.args)
		}
	}
	c.drainQ()
}

// state walks the whole state.
func (c *canon) state() {
	s := c.s
	ths := append([]*Thread(nil), s.threads...)
	sort.Slice(ths, func(i, j int) bool { return keyLess(ths[i].key, ths[j].key) })
	c.rankThreads(ths)
	for _, t := range ths {
		if c.write {
			t = s.mutThread(t.key)
		}
		c.thread(t)
	}
	// active timers that will start a goroutine or wake one
	c.b('!')
	for _, id := range s.timers {
		o := s.obj(id)
		if _, seen := c.num[id]; !seen && o.thread == "" && o.fn.C == nil {
			continue // the channel of this timer cannot be read any more
		}
		c.obj(id)
		c.drainQ()
	}
	var ov []int
	for id := range s.over {
		ov = append(ov, int(id))
	}
	sort.Ints(ov)
	for _, id := range ov {
		c.b('^')
		c.i(id)
		c.object(ObjID(id))
	}
	c.drainQ()
	if c.e.absTime || c.write || c.shift == nil {
		n := c.term(s.now)
		if c.write {
			s.now = n
		}
	}
	c.i(len(s.hashTab))
	for i := range s.hashTab {
		h := &s.hashTab[i]
		c.i(len(h.in))
		if c.write {
			if i == 0 {
				s.hashTab = append([]hashRec(nil), s.hashTab...)
				h = &s.hashTab[0]
			}
			h.in, h.out = append([]*Term(nil), h.in...), append([]*Term(nil), h.out...)
		}
		for j, t := range h.in {
			if n := c.term(t); c.write {
				h.in[j] = n
			}
		}
		for j, t := range h.out {
			if n := c.term(t); c.write {
				h.out[j] = n
			}
		}
	}
	c.drainQ()
	c.arrays()
	c.footprints(ths)
	c.nkey, c.nterms = len(c.buf), len(c.terms)
	c.i(s.advs)
	c.i(s.delays)
	for _, o := range s.occ {
		c.str(o.name)
		c.i(o.n)
	}
	c.b('|')
	for i, v := range s.obs {
		c.str(s.obsN[i])
		x := c.val(v)
		if c.write {
			if i == 0 {
				s.obs = append([]Value(nil), s.obs...)
			}
			s.obs[i] = x
		}
	}
	c.drainQ()
	c.refs = nil
	c.arrays()
}

// rel: an instant relative to the current time (in the alpha key only).
func (c *canon) rel(t *Term) *Term {
	if c.shift == nil || c.write {
		return t
	}
	return Bin(OSub, t, c.shift)
}

func (c *canon) footprints(ths []*Thread) {
	// footprints on objects that somebody else can still reach
	for _, t := range ths {
		if len(t.fp) == 0 {
			continue
		}
		var fs []string
		for _, fp := range t.fp {
			nb := ObjID(len(c.e.base))
			name, path := "", fp.Path
			if fp.Obj < nb {
				name = fmt.Sprintf("B%d", fp.Obj)
			} else if n, ok := c.num[fp.Obj]; ok {
				name = fmt.Sprintf("O%d", n)
				if l := c.live[fp.Obj]; l != nil && fp.Path != "" {
					i := pathIdx(fp.Path, 0)
					if !l.all && !l.on[i] {
						continue
					}
					name += fmt.Sprintf("[%d]", i-l.base)
					path = path[pathW:]
				}
			} else {
				continue
			}
			fs = append(fs, fmt.Sprintf("%s%x%c%d%v", name, path, fp.Kind, c.rank[t.key][fp.Spawn], fp.Tail))
		}
		sort.Strings(fs)
		c.str(c.tkey(t.key))
		c.str(strings.Join(fs, ","))
	}
}

// walk traverses the state; when an array turned out to be shown further after it was emitted, the traversal
// starts again with the whole array.
func (e *Engine) walk(s *State, shift *Term) *canon {
	redo := map[ObjID]bool{}
	for {
		n := len(redo)
		c := &canon{e: e, s: s, num: map[ObjID]int{}, live: map[ObjID]*liveSet{}, redo: redo, shift: shift}
		c.state()
		if len(redo) == n {
			return c
		}
	}
}

func (e *Engine) canonical(s *State) (string, []*Term) {
	c := e.walk(s, nil)
	return string(c.buf), c.terms
}

// alpha is the key of a state up to renaming of symbolic inputs and, unless absolute time is observed, shifting
// of time. Path constraints that share no variable with the rest of the state are satisfiable on their own and
// left out; the remaining ones are returned separately.
func (e *Engine) alpha(s *State) (string, []string) {
	var shift *Term
	if !e.absTime {
		shift = s.now
	}
	c := e.walk(s, shift)
	a := &renamer{num: map[*Term]int{}}
	key := append([]byte(nil), c.buf[:c.nkey]...)
	key = append(key, '~')
	a.memo = map[int]int{}
	for _, t := range c.terms[:c.nterms] {
		a.write(t)
	}
	key = append(key, a.buf...)
	used := make([]bool, len(s.pc))
	var out []string
	for {
		type cand struct {
			h string
			i int
		}
		var cs []cand
		for i, t := range s.pc {
			if used[i] {
				continue
			}
			live := false
			for _, v := range t.Vars() {
				if _, ok := a.num[v]; ok {
					live = true
					break
				}
			}
			if live {
				a.memo, a.buf, a.open = map[int]int{}, nil, false
				a.frozen = true
				a.write(t)
				a.frozen = false
				used[i] = true
				if !a.open {
					out = append(out, hashStr(string(a.buf)))
					continue
				}
				cs = append(cs, cand{string(a.buf), i})
			}
		}
		if len(cs) == 0 {
			break
		}
		sort.SliceStable(cs, func(x, y int) bool { return cs[x].h < cs[y].h })
		for _, k := range cs {
			a.memo, a.buf = map[int]int{}, nil
			a.write(s.pc[k.i])
			out = append(out, hashStr(string(a.buf)))
		}
	}
	sort.Strings(out)
	return hashStr(string(key)), out
}

// renamer serialises terms with variables numbered in order of first occurrence.
type renamer struct {
	num    map[*Term]int
	memo   map[int]int
	buf    []byte
	frozen bool // do not number new variables
	open   bool // a variable without number occurred
}

func (a *renamer) write(t *Term) {
	if t.op == OVar {
		n, ok := a.num[t]
		if !ok {
			if a.frozen {
				a.open = true
				a.buf = append(a.buf, '?', byte(t.sort.K), t.sort.W)
				return
			}
			n = len(a.num)
			a.num[t] = n
		}
		a.buf = append(a.buf, 'v', byte(t.sort.K), t.sort.W)
		a.buf = binary.AppendVarint(a.buf, int64(n))
		return
	}
	if t.op == OConst {
		a.buf = append(a.buf, 'k', byte(t.sort.K), t.sort.W)
		a.buf = binary.AppendUvarint(a.buf, t.val)
		return
	}
	if n, ok := a.memo[t.id]; ok {
		a.buf = append(a.buf, 'r')
		a.buf = binary.AppendVarint(a.buf, int64(n))
		return
	}
	a.memo[t.id] = len(a.memo)
	a.buf = append(a.buf, 'o', byte(t.op), byte(t.sort.K), t.sort.W, byte(len(t.args)))
	a.buf = binary.AppendUvarint(a.buf, t.val)
	for _, x := range t.args {
		a.write(x)
	}
}

func subset(a, b []string) bool {
	i := 0
	for _, x := range a {
		for i < len(b) && b[i] < x {
			i++
		}
		if i == len(b) || b[i] != x {
			return false
		}
	}
	return true
}

func (e *Engine) rewrite(s *State, terms []*Term) {
	c := &canon{e: e, s: s, num: map[ObjID]int{}, live: map[ObjID]*liveSet{}, redo: map[ObjID]bool{}, write: true, repl: terms}
	c.state()
	if c.pos != len(terms) {
		panic("internal: rewrite traversal differs")
	}
}

// tryMerge joins b into a if few scalars differ; a and b have the same shape. Returns nil if they stay apart.
func (e *Engine) tryMerge(a, b *State, ta, tb []*Term) (*State, []*Term) {
	diff := 0
	seen := map[[2]*Term]bool{}
	for i := range ta {
		if ta[i] != tb[i] {
			k := [2]*Term{ta[i], tb[i]}
			if !seen[k] {
				seen[k] = true
				diff++
			}
			if ta[i].sort.K == KFP && diff > 0 {
				return nil, nil
			}
		}
	}
	if diff > e.cfg.MergeDiff {
		return nil, nil
	}
	var common, ra, rb []*Term
	inB := map[int]bool{}
	for _, t := range b.pc {
		inB[t.id] = true
	}
	inA := map[int]bool{}
	for _, t := range a.pc {
		inA[t.id] = true
		if inB[t.id] {
			common = append(common, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b.pc {
		if !inA[t.id] {
			rb = append(rb, t)
		}
	}
	ga, gb := And(ra...), And(rb...)
	n := a.clone()
	n.pc = nil
	n.pcset = map[int]bool{}
	for _, t := range common {
		n.addPC(t)
	}
	n.addPC(Or(ga, gb))
	if diff > 0 {
		nt := make([]*Term, len(ta))
		for i := range ta {
			nt[i] = ta[i]
			if ta[i] != tb[i] {
				nt[i] = Ite(ga, ta[i], tb[i])
			}
		}
		e.rewrite(n, nt)
		e.merges++
		return n, nt
	}
	e.merges++
	return n, ta
}

func splitKey(k string) []int {
	var out []int
	for _, p := range strings.Split(k, ".") {
		n, _ := strconv.Atoi(p)
		out = append(out, n)
	}
	return out
}

func keyLess(a, b string) bool {
	x, y := splitKey(a), splitKey(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

// rankThreads: only the order in which a goroutine's children were started matters.
func (c *canon) rankThreads(ths []*Thread) {
	set := map[string]map[int]bool{}
	add := func(p string, n int) {
		if set[p] == nil {
			set[p] = map[int]bool{}
		}
		set[p][n] = true
	}
	all := func(k string) {
		for {
			i := strings.LastIndexByte(k, '.')
			if i < 0 {
				break
			}
			n, _ := strconv.Atoi(k[i+1:])
			k = k[:i]
			add(k, n)
		}
	}
	for _, id := range c.s.timers {
		if o := c.s.obj(id); o.creator != "" {
			all(fmt.Sprintf("%s.%d", o.creator, o.seq))
		}
	}
	for _, t := range ths {
		all(t.key)
		for _, fp := range t.fp {
			add(t.key, fp.Spawn)
		}
	}
	c.rank = map[string]map[int]int{}
	for p, m := range set {
		var l []int
		for n := range m {
			l = append(l, n)
		}
		sort.Ints(l)
		r := map[int]int{}
		for i, n := range l {
			r[n] = i
		}
		c.rank[p] = r
	}
}

func (c *canon) tkey(k string) string {
	if !strings.Contains(k, ".") {
		return k
	}
	out := ""
	p := ""
	for i, x := range strings.Split(k, ".") {
		if i == 0 {
			out, p = x, x
			continue
		}
		n, _ := strconv.Atoi(x)
		r, ok := c.rank[p][n]
		if !ok {
			return k
		}
		out += "." + strconv.Itoa(r)
		p += "." + x
	}
	return out
}
