package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Native replay: the harness is compiled together with the real code and run with the inputs (and, for
// concurrent programs, the schedule) of a counterexample inside a testing/synctest bubble.

type NativeResult struct {
	Confirmed bool
	Detail    string
	Kind      string
	Msg       string
	Obs       []WObs
	Runs      int
}

type native struct {
	dir  string
	tmp  string
	bins map[string]string
	errs map[string]string
}

func newNative(dir string) *native {
	return &native{dir: dir, bins: map[string]string{}, errs: map[string]string{}}
}
func (n *native) close() {
	if n.tmp != "" {
		os.RemoveAll(n.tmp)
	}
}

const testMain = `package zzreplay

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"testing"
	"testing/synctest"

	h %q
	"vpharness/vp"
	"vpharness/vpsched"
)

type result struct {
	Kind string
	Msg  string
	Obs  []vp.Obs
}

func out(kind, msg string) {
	b, _ := json.Marshal(result{kind, msg, vp.Observed})
	fmt.Printf("\nVPRESULT %%s\n", b)
	if kind == "ok" && os.Getenv("VP_MODE") == "race" {
		runtime.Goexit() // let the race detector see the end of the program
	}
	os.Exit(0)
}

func TestReplay(t *testing.T) {
	if err := vp.LoadFile(os.Getenv("VP_INPUT")); err != nil {
		t.Fatal(err)
	}
	vp.Native.Fail = out
	debug.SetTraceback("all")
	seed, _ := strconv.ParseInt(os.Getenv("VP_SEED"), 10, 64)
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				out("panic", fmt.Sprint(r))
			}
		}()
		vp.Native.Yield = vpsched.P
		vp.Native.Settle = vpsched.Settle
		vp.Native.Atomic = vpsched.Atomic
		switch os.Getenv("VP_MODE") {
		case "sched":
			vpsched.Start(seed)
		case "race":
			vpsched.Race(seed)
		}
		vp.SetBase(runtime.NumGoroutine())
		h.%s()
		out("ok", "")
	})
	out("deadlock", "")
}
`

func (n *native) build(en Entry, mode string) (string, error) {
	key := en.name() + " " + mode
	if b, ok := n.bins[key]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", n.errs[key])
		}
		return b, nil
	}
	if n.tmp == "" {
		t, err := os.MkdirTemp("", "gosmt")
		if err != nil {
			return "", err
		}
		n.tmp = t
	}
	d, err := os.MkdirTemp(n.tmp, "b")
	if err != nil {
		return "", err
	}
	repl := map[string]string{}
	main := fmt.Sprintf(testMain, en.Pkg, en.Fn)
	os.WriteFile(filepath.Join(d, "r_test.go"), []byte(main), 0o644)
	repl[filepath.Join(n.dir, "zzreplay", "r_test.go")] = filepath.Join(d, "r_test.go")
	if mode != "plain" {
		ins, err := instrument(repoDir(n.dir), d, mode == "sched")
		if err != nil {
			return "", err
		}
		for k, v := range ins {
			repl[k] = v
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(filepath.Join(d, "overlay.json"), ov, 0o644)
	bin := filepath.Join(d, "replay")
	args := []string{"test", "-c", "-o", bin, "-vet=off", "-overlay", filepath.Join(d, "overlay.json")}
	if strings.Contains(mode, "race") {
		args = append(args, "-race")
	}
	args = append(args, "./zzreplay")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	if err := cmd.Run(); err != nil {
		n.bins[key] = ""
		n.errs[key] = fmt.Sprintf("native build failed: %v %s", err, eb.String())
		return "", fmt.Errorf("%s", n.errs[key])
	}
	n.bins[key] = bin
	return bin, nil
}

func (n *native) run(bin string, tr WTrace, timeout time.Duration, env ...string) NativeResult {
	in, _ := json.Marshal(tr.Inputs)
	fh, err := os.CreateTemp(filepath.Dir(bin), "in*.json")
	if err != nil {
		return NativeResult{Kind: "error", Msg: err.Error()}
	}
	f := fh.Name()
	fh.Write(in)
	fh.Close()
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestReplay$", "-test.timeout", "0")
	cmd.Dir = filepath.Dir(bin)
	cmd.Env = append(append(os.Environ(), "VP_INPUT="+f), env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	s := out.String()
	res := NativeResult{}
	if i := strings.LastIndex(s, "VPRESULT "); i >= 0 {
		line := s[i+9:]
		if j := strings.IndexByte(line, '\n'); j >= 0 {
			line = line[:j]
		}
		json.Unmarshal([]byte(line), &res)
	} else {
		switch {
		case ctx.Err() != nil:
			res.Kind, res.Msg = "timeout", "did not finish"
		case strings.Contains(s, "deadlock: ") || strings.Contains(s, "all goroutines are asleep"):
			res.Kind, res.Msg = "deadlock", firstLine(s, "deadlock")
		case strings.Contains(s, "panic: "):
			res.Kind, res.Msg = "panic", firstLine(s, "panic: ")
		case strings.Contains(s, "fatal error: "):
			res.Kind, res.Msg = "fatal", firstLine(s, "fatal error: ")
		default:
			res.Kind, res.Msg = "error", fmt.Sprintf("%v %.300s", err, s)
		}
	}
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		res.Kind = "race"
		t := s[i:]
		if len(t) > 1500 {
			t = t[:1500]
		}
		res.Msg = t
	}
	return res
}

func firstLine(s, pat string) string {
	i := strings.Index(s, pat)
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.IndexByte(s, '\n'); j >= 0 {
		s = s[:j]
	}
	return s
}

// matches: the native outcome shows the violation.
func matches(f WFinding, r NativeResult) bool {
	switch f.Kind {
	case "assert":
		return r.Kind == "assert" && r.Msg == f.Msg
	case "panic":
		return r.Kind == "panic" && !strings.Contains(r.Msg, "deadlock")
	case "fatal":
		return r.Kind == "fatal"
	case "deadlock":
		return r.Kind == "deadlock"
	case "race":
		return r.Kind == "race" || r.Kind == "fatal" && strings.Contains(r.Msg, "concurrent map")
	}
	return false
}

// confirm replays a counterexample: its inputs with the compiled code as it is; if the failure depends on the
// schedule, with schedules forced by a controller (or, for data races, under the race detector).
func (n *native) confirm(en Entry, f WFinding, limit time.Duration) NativeResult {
	t0 := time.Now()
	var last NativeResult
	var mu sync.Mutex
	runs := 0
	traces := append([]WTrace{f.Trace}, f.Alt...)
	try := func(mode string, env []string, max int, what string) bool {
		bin, err := n.build(en, mode)
		if err != nil {
			last.Detail = err.Error()
			return false
		}
		var wg sync.WaitGroup
		stop := false
		next := 0
		for range min(max, runtime.NumCPU()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					i := next
					next++
					if stop || i >= max || i > 3 && time.Since(t0) > limit {
						mu.Unlock()
						return
					}
					mu.Unlock()
					r := n.run(bin, traces[i%len(traces)], 20*time.Second, append(env, fmt.Sprintf("VP_SEED=%d", i+1))...)
					mu.Lock()
					runs++
					if !stop {
						last = r
						if matches(f, r) {
							stop = true
							last.Confirmed = true
							last.Detail = fmt.Sprintf("same failure with the same inputs (%s: %s), %s, run %d", r.Kind, r.Msg, what, i+1)
						} else if r.Kind == "timeout" {
							next = max
						}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		last.Runs = runs
		return last.Confirmed
	}
	if f.Kind == "race" {
		try("race", []string{"VP_MODE=race", "GORACE=halt_on_error=0 exitcode=0"}, 400, "race detector")
		if !last.Confirmed {
			last.Detail = "the race detector did not report it: " + last.Detail
		}
		return last
	}
	if try("plain", []string{"VP_MODE=plain"}, 2, "code as compiled") {
		return last
	}
	if try("sched", []string{"VP_MODE=sched"}, 4000, "controlled schedule") {
		return last
	}
	last.Detail = fmt.Sprintf("compiled code gave %s: %s %s", last.Kind, last.Msg, last.Detail)
	return last
}

func (n *native) validate(en Entry, tr WTrace) (bool, string) {
	bin, err := n.build(en, "plain")
	if err != nil {
		return false, err.Error()
	}
	r := n.run(bin, tr, 20*time.Second, "VP_MODE=plain")
	if r.Kind != "ok" {
		return false, r.Kind + ": " + r.Msg
	}
	if len(r.Obs) != len(tr.Obs) {
		return false, "different number of observations"
	}
	for i := range r.Obs {
		if r.Obs[i] != tr.Obs[i] {
			return false, fmt.Sprintf("%s: engine %s, compiled %s", tr.Obs[i].Name, tr.Obs[i].Val, r.Obs[i].Val)
		}
	}
	return true, ""
}
