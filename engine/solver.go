package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives one incremental SMT process. Every Check is a check-sat-assuming.

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	cmd        *exec.Cmd
	in         *bufio.Writer
	inc        io.WriteCloser
	out        *bufio.Reader
	defined    map[int]bool
	cache      map[string]cached
	argv       []string
	timeout    int // ms
	curTimeout int
	floatT     map[int]bool
	GuessN     int
	hardT      map[int]bool
	assumed    map[int]bool    // literals with an assumption variable
	cores      map[int][][]int // unsatisfiable sets of literals by their greatest literal
	recent     []*Model        // models of the latest satisfiable queries
	IntN       int             // queries decided by the integer encoding

	CoreHits, ModelHits                        int
	Queries, CacheHits, SatN, UnsatN, UnknownN int
	Time                                       time.Duration
	MaxTime                                    time.Duration
	Errors                                     []string
	log                                        io.Writer
}
type cached struct {
	r Result
	m map[*Term]uint64
}

func NewSolver(timeoutMS int) *Solver {
	s := &Solver{argv: []string{"z3-new", "-in", "-smt2"}, timeout: timeoutMS, cache: map[string]cached{}}
	if _, err := exec.LookPath("z3-new"); err != nil {
		s.argv[0] = "z3"
	}
	if f := os.Getenv("GOSMT_SMTLOG"); f != "" {
		s.log, _ = os.Create(fmt.Sprintf("%s.%d", f, os.Getpid()))
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReader(r)
	s.defined = map[int]bool{}
	s.assumed = map[int]bool{}
	s.curTimeout = s.timeout
	s.send(fmt.Sprintf("(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :produce-unsat-assumptions true)\n(set-option :timeout %d)\n", s.timeout))
}
func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}
func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func (s *Solver) ref(t *Term) string {
	if t.op == OVar {
		return "|" + t.name + "|"
	}
	if t.op == OConst && t.sort.K != KFP {
		return t.smtBody(nil)
	}
	return "t" + strconv.Itoa(t.id)
}
func (s *Solver) define(t *Term) {
	if t.op == OConst && t.sort.K != KFP {
		return
	}
	if s.defined[t.id] {
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	s.defined[t.id] = true
	if t.op == OVar {
		s.send("(declare-const |" + t.name + "| " + t.sort.SMT() + ")\n")
		return
	}
	s.send("(define-fun t" + strconv.Itoa(t.id) + " () " + t.sort.SMT() + " " + t.smtBody(s.ref) + ")\n")
}

// Check decides the conjunction of cs; on Sat it returns values of its variables.
func (s *Solver) Check(cs []*Term) (Result, map[*Term]uint64) {
	var lits []*Term
	for _, c := range cs {
		if c.IsFalse() {
			return Unsat, nil
		}
		if !c.IsTrue() {
			lits = append(lits, c)
		}
	}
	if len(lits) == 0 {
		return Sat, map[*Term]uint64{}
	}
	ids := make([]int, len(lits))
	for i, c := range lits {
		ids[i] = c.id
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(' ')
	}
	key := kb.String()
	if c, ok := s.cache[key]; ok {
		s.CacheHits++
		return c.r, c.m
	}
	if s.hasCore(ids) {
		s.CoreHits++
		s.cache[key] = cached{r: Unsat}
		return Unsat, nil
	}
	if m := s.hasModel(lits); m != nil {
		s.ModelHits++
		s.cache[key] = cached{Sat, m}
		return Sat, m
	}
	var r Result
	var m map[*Term]uint64
	if s.floats(lits) {
		// floating-point arithmetic is slow to solve: look for a model by evaluation first
		m = s.guess(lits, 2000)
	}
	if m != nil {
		r = Sat
		s.GuessN++
	} else if r, m = s.check(lits); r == Unknown {
		if m = s.guess(lits, 5000); m != nil {
			r = Sat
			s.GuessN++
		}
	}
	if r == Sat {
		s.recent = append(s.recent, NewModel().With(m))
		if len(s.recent) > 16 {
			s.recent = s.recent[1:]
		}
	}
	s.cache[key] = cached{r, m}
	return r, m
}

// hasCore: a set of literals that was found unsatisfiable is among ids (sorted).
func (s *Solver) hasCore(ids []int) bool {
	in := map[int]bool{}
	for _, i := range ids {
		in[i] = true
	}
	for _, i := range ids {
	next:
		for _, c := range s.cores[i] {
			for _, l := range c {
				if !in[l] {
					continue next
				}
			}
			return true
		}
	}
	return false
}

// hasModel: one of the latest models satisfies lits.
func (s *Solver) hasModel(lits []*Term) map[*Term]uint64 {
	for k := len(s.recent) - 1; k >= 0; k-- {
		mo := s.recent[k]
		ok := true
		for _, l := range lits {
			if !mo.True(l) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		m := map[*Term]uint64{}
		for _, l := range lits {
			for _, v := range l.Vars() {
				m[v] = mo.Eval(v)
			}
		}
		return m
	}
	return nil
}

func (s *Solver) check(lits []*Term) (Result, map[*Term]uint64) {
	t0 := time.Now()
	nerr := len(s.Errors)
	hard := s.hard(lits)
	lim := s.timeout
	if hard {
		lim = min(lim, 1000)
	}
	if lim != s.curTimeout {
		s.curTimeout = lim
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", lim))
	}
	vars := map[*Term]bool{}
	for _, c := range lits {
		s.define(c)
		for _, v := range c.Vars() {
			vars[v] = true
		}
	}
	for _, c := range lits {
		if !s.assumed[c.id] {
			s.assumed[c.id] = true
			s.send(fmt.Sprintf("(declare-const a%d Bool)\n(assert (=> a%d %s))\n", c.id, c.id, s.ref(c)))
		}
	}
	s.send("(check-sat-assuming (")
	for _, c := range lits {
		s.send(" a" + strconv.Itoa(c.id))
	}
	s.send("))\n(echo \"|done|\")\n")
	s.in.Flush()
	res := Unknown
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Errors = append(s.Errors, "solver died: "+err.Error())
			s.Close()
			s.start()
			s.UnknownN++
			return Unknown, nil
		}
		line = strings.TrimSpace(line)
		if line == "|done|" {
			break
		}
		switch line {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		case "unknown", "timeout":
			res = Unknown
		default:
			if strings.Contains(line, "error") {
				s.Errors = append(s.Errors, line)
				res = Unknown
			}
		}
	}
	if len(s.Errors) > nerr {
		// an error line makes the answer untrustworthy
		s.Close()
		s.start()
		s.Queries++
		s.UnknownN++
		return Unknown, nil
	}
	var m map[*Term]uint64
	if res == Sat {
		m = map[*Term]uint64{}
		if len(vars) > 0 {
			vl := make([]*Term, 0, len(vars))
			for v := range vars {
				vl = append(vl, v)
			}
			sort.Slice(vl, func(i, j int) bool { return vl[i].id < vl[j].id })
			s.send("(get-value (")
			for _, v := range vl {
				s.send(s.ref(v) + " ")
			}
			s.send("))\n(echo \"|done|\")\n")
			s.in.Flush()
			txt, err := s.reply()
			if err != nil {
				return Unknown, nil
			}
			vals := parseValues(txt)
			if len(vals) != len(vl) {
				s.Errors = append(s.Errors, "bad model: "+txt)
				res = Unknown
			} else {
				for i, v := range vl {
					m[v] = vals[i]
				}
			}
		}
	}
	if res == Unsat && len(s.Errors) == nerr {
		s.send("(get-unsat-assumptions)\n(echo \"|done|\")\n")
		s.in.Flush()
		txt, err := s.reply()
		if err != nil {
			return Unsat, nil
		}
		var core []int
		ok := true
		for _, f := range strings.Fields(strings.Trim(txt, "() \n")) {
			n, err := strconv.Atoi(strings.TrimPrefix(f, "a"))
			ok = ok && err == nil
			core = append(core, n)
		}
		if ok && len(core) > 0 {
			g := core[0]
			for _, c := range core {
				g = max(g, c)
			}
			if s.cores == nil {
				s.cores = map[int][][]int{}
			}
			s.cores[g] = append(s.cores[g], core)
		}
	}
	if res == Unknown && hard {
		res, m = s.asInt(lits, vars)
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	s.Queries++
	switch res {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	return res, m
}

// reply reads the solver's output up to the marker; a dead solver is started again.
func (s *Solver) reply() (string, error) {
	var sb strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			s.start()
			return "", err
		}
		if strings.TrimSpace(line) == "|done|" {
			return sb.String(), nil
		}
		sb.WriteString(line)
	}
}

// parseValues reads ((name value) ...) and returns the values in order.
func parseValues(x string) []uint64 {
	var out []uint64
	i := 0
	skip := func() {
		for i < len(x) && (x[i] == ' ' || x[i] == '\n' || x[i] == '\t' || x[i] == '\r') {
			i++
		}
	}
	skip()
	if i >= len(x) || x[i] != '(' {
		return nil
	}
	i++
	for {
		skip()
		if i >= len(x) || x[i] != '(' {
			break
		}
		i++
		skip()
		if x[i] == '|' {
			i++
			for x[i] != '|' {
				i++
			}
			i++
		} else {
			for x[i] != ' ' && x[i] != '\n' {
				i++
			}
		}
		skip()
		st := i
		for i < len(x) && x[i] != ')' {
			i++
		}
		v := strings.TrimSpace(x[st:i])
		i++
		var u uint64
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, _ = strconv.ParseUint(v[2:], 2, 64)
		default:
			return nil
		}
		out = append(out, u)
	}
	return out
}

// floats: the query computes with floating-point numbers, beyond comparing inputs.
func (s *Solver) floats(lits []*Term) bool {
	if s.floatT == nil {
		s.floatT = map[int]bool{}
	}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if r, ok := s.floatT[t.id]; ok {
			return r
		}
		r := false
		switch t.op {
		case OFAdd, OFSub, OFMul, OFDiv, OFSqrt, OFFromS, OFFromU, OFToS, OFToF:
			r = true
		}
		for _, a := range t.args {
			r = r || walk(a)
		}
		s.floatT[t.id] = r
		return r
	}
	for _, l := range lits {
		if walk(l) {
			return true
		}
	}
	return false
}

// guess looks for a model by local search: values of one variable at a time are changed to random or boundary ones
// as long as no literal is lost. What it returns satisfies lits; that it returns nothing says nothing.
func (s *Solver) guess(lits []*Term, n int) map[*Term]uint64 {
	seen := map[*Term]bool{}
	var vars []*Term
	for _, l := range lits {
		for _, v := range l.Vars() {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	}
	if len(vars) == 0 {
		return nil
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	rng := rand.New(rand.NewSource(int64(len(lits))*1000 + int64(len(vars))))
	value := func(v *Term) uint64 {
		if v.sort.K == KBool {
			return uint64(rng.Intn(2))
		}
		w := v.sort.W
		x := rng.Uint64()
		switch rng.Intn(6) {
		case 0: // a power of two, or next to it
			x = 1<<rng.Intn(int(w)) + uint64(rng.Intn(3)) - 1
		case 1: // a small number
			x = uint64(rng.Intn(300) - 100)
		case 2:
			x = []uint64{0, 1<<(w-1) - 1, 1 << (w - 1), ^uint64(0)}[rng.Intn(4)]
		case 3: // a number of random length and sign
			x >>= rng.Intn(int(w))
			if rng.Intn(2) == 0 {
				x = -x
			}
		case 4: // the bits of a floating-point number of moderate size
			f := (rng.Float64() - 0.5) * math.Ldexp(1, rng.Intn(70))
			if rng.Intn(2) == 0 {
				f = math.Round(f)
			}
			x = fbits(f, w)
		}
		return x & mask(w)
	}
	score := func(m *Model) int {
		k := 0
		for _, l := range lits {
			if m.True(l) {
				k++
			}
		}
		return k
	}
	cur := NewModel()
	if len(s.recent) > 0 {
		r := s.recent[len(s.recent)-1]
		for _, v := range vars {
			cur.m[v] = r.m[v]
		}
	}
	best := score(cur)
	for i := 0; i < n && best < len(lits); i++ {
		v := vars[rng.Intn(len(vars))]
		m := cur.With(map[*Term]uint64{v: value(v)})
		if k := score(m); k >= best {
			cur, best = m, k
		}
	}
	if best < len(lits) {
		return nil
	}
	return cur.m
}

// hard: the query multiplies or divides wide words by constants that are not powers of two, which bit-blasting
// handles badly; the integer encoding of cvc5 is tried for those.
func (s *Solver) hard(lits []*Term) bool {
	if s.hardT == nil {
		s.hardT = map[int]bool{}
	}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if r, ok := s.hardT[t.id]; ok {
			return r
		}
		r := false
		switch t.op {
		case OMul, OUDiv, OSDiv, OURem, OSRem:
			b := t.args[1]
			r = t.sort.W >= 16 && !(b.IsConst() && b.val&(b.val-1) == 0)
		}
		if !r {
			for _, a := range t.args {
				if a.sort.K == KFP || walk(a) {
					r = a.sort.K != KFP
					break
				}
			}
		}
		s.hardT[t.id] = r
		return r
	}
	for _, l := range lits {
		if walk(l) {
			return true
		}
	}
	return false
}

// asInt decides the query with cvc5's integer encoding of bit-vectors; a model is checked by evaluation.
func (s *Solver) asInt(lits []*Term, vars map[*Term]bool) (Result, map[*Term]uint64) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	save, sin, slog := s.defined, s.in, s.log
	s.defined, s.in, s.log = map[int]bool{}, bufio.NewWriter(&sb), nil
	for _, l := range lits {
		s.define(l)
	}
	for _, l := range lits {
		s.send("(assert " + s.ref(l) + ")\n")
	}
	vl := make([]*Term, 0, len(vars))
	for v := range vars {
		vl = append(vl, v)
	}
	sort.Slice(vl, func(i, j int) bool { return vl[i].id < vl[j].id })
	s.send("(check-sat)\n")
	if len(vl) > 0 {
		s.send("(get-value (")
		for _, v := range vl {
			s.send(s.ref(v) + " ")
		}
		s.send("))\n")
	}
	s.in.Flush()
	s.defined, s.in, s.log = save, sin, slog
	cmd := exec.Command("cvc5", "--lang=smt2", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", min(s.timeout, 10000)))
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	first, rest, _ := strings.Cut(string(out), "\n")
	switch strings.TrimSpace(first) {
	case "unsat":
		s.IntN++
		return Unsat, nil
	case "sat":
		vals := parseValues(rest)
		if len(vals) != len(vl) {
			return Unknown, nil
		}
		m := map[*Term]uint64{}
		for i, v := range vl {
			m[v] = vals[i]
		}
		mo := NewModel().With(m)
		for _, l := range lits {
			if !mo.True(l) {
				return Unknown, nil
			}
		}
		s.IntN++
		return Sat, m
	}
	return Unknown, nil
}
