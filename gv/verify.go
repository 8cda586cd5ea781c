package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- discharging

func (o *Obl) assumptions(ex *Exec) []*Term {
	var out []*Term
	for f := o.facts; f != nil; f = f.prev {
		if f.f.cand != nil && !f.f.cand.alive || f.f.opt && !ex.useOpt {
			continue
		}
		out = append(out, f.f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

var traceHoudini bool
var showSlow = os.Getenv("GV_SLOW") != ""

// houdini keeps the largest set of loop-invariant candidates that is
// inductive. Candidates whose check ran out of time are tried again, with more
// time, once everything that is plainly not inductive is gone.
func (t *Task) houdini(limits ...int) (rounds int) {
	if traceHoudini {
		defer func() {
			seen := map[*Cand]bool{}
			for _, o := range t.obls {
				if o.cand != nil && o.cand.alive && !seen[o.cand] {
					seen[o.cand] = true
					fmt.Printf("     kept: %s\n", o.cand.text)
				}
			}
		}()
	}
	ex := t.ex
	byFacts := map[*FactList][]*Obl{}
	var order []*FactList
	for _, o := range t.obls {
		if o.cand == nil {
			continue
		}
		if byFacts[o.facts] == nil {
			order = append(order, o.facts)
		}
		byFacts[o.facts] = append(byFacts[o.facts], o)
	}
	const (
		clean = iota
		dirty
		slow // ran out of time
	)
	state := map[*Obl]int{}
	uses := map[*FactList]map[*Cand]bool{}
	for _, f := range order {
		for _, o := range byFacts[f] {
			state[o] = dirty
		}
		u := map[*Cand]bool{}
		for x := f; x != nil; x = x.prev {
			if x.f.cand != nil {
				u[x.f.cand] = true
			}
		}
		uses[f] = u
	}
	level := 0
	lvl := map[*Obl]int{}
	for {
		rounds++
		type job struct {
			f  *FactList
			os []*Obl
		}
		collect := func(want int) (jobs []job) {
			size := 24
			if want == slow {
				size = 1
			}
			for _, f := range order {
				var live []*Obl
				for _, o := range byFacts[f] {
					if o.cand.alive && !o.goal.isTrue() && state[o] == want && (want != slow || lvl[o] == level) {
						live = append(live, o)
					}
				}
				for len(live) > 0 {
					n := min(len(live), size)
					jobs = append(jobs, job{f, live[:n]})
					live = live[n:]
				}
			}
			return
		}
		level = 0
		jobs := collect(dirty)
		for len(jobs) == 0 {
			level++
			if level == len(limits) {
				return
			}
			jobs = collect(slow)
		}
		last := level == len(limits)-1
		msec := limits[level]
		results := make([][]string, len(jobs))
		tr := time.Now()
		parallel(len(jobs), func(i int) {
			j := jobs[i]
			as := j.os[0].assumptions(ex)
			goals := make([]*Term, len(j.os))
			for k, o := range j.os {
				goals[k] = o.goal
			}
			results[i] = proveBatch(as, goals, msec)
		})
		if showSlow {
			n := 0
			for _, j := range jobs {
				n += len(j.os)
			}
			fmt.Printf("     round %d: %d jobs, %d goals, level %d, %s\n", rounds, len(jobs), n, level, time.Since(tr))
		}
		dropped := map[*Cand]bool{}
		for i, rs := range results {
			for k, r := range rs {
				o := jobs[i].os[k]
				switch {
				case r == "unsat":
					state[o] = clean
				case r == "timeout" && !last:
					state[o] = slow
					lvl[o] = level + 1
					if showSlow && level > 0 {
						fmt.Printf("     timeout: %s [%s] level %d at %s\n", o.cand.text, o.Kind, level, o.Pos)
					}
				default:
					if traceHoudini {
						fmt.Printf("     drop: %s [%s, %s] round %d at %s\n", o.cand.text, o.Kind, r, rounds, o.Pos)
					}
					if o.cand.alive {
						o.cand.alive = false
						dropped[o.cand] = true
						t.dropped++
					}
				}
			}
		}
		for _, f := range order {
			for c := range dropped {
				if uses[f][c] {
					for _, o := range byFacts[f] {
						if state[o] == clean {
							state[o] = dirty
						}
					}
					break
				}
			}
		}
	}
}

// proveBatch checks several goals under the same assumptions in one solver run.
func proveBatch(facts []*Term, goals []*Term, msec int) []string {
	res := make([]string, len(goals))
	if len(goals) == 1 {
		res[0] = "unknown"
		r := Prove(facts, goals[0], true, (msec+999)/1000)
		if r.Status == "unsat" {
			res[0] = "unsat"
		} else if r.Status == "timeout" {
			res[0] = "timeout"
		}
		return res
	}
	for i := range res {
		res[i] = "timeout"
	}
	s := BatchScript(facts, goals, msec)
	release := acquire()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(msec*len(goals)+5000)*time.Millisecond)
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "auto_config=false", "smt.mbqi=false")
	cmd.Stdin = strings.NewReader(s)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	cancel()
	release()
	atomic.AddInt64(&solverNs, int64(time.Since(t0)))
	atomic.AddInt64(&solverRuns, 1)
	lines := strings.Split(strings.TrimSpace(out.String()), "\n")
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("b%05d.smt2", n)), []byte(s+"\n; "+strings.Join(lines, " ")), 0o644)
	}
	n := 0
	for _, l := range lines {
		switch {
		case l == "unsat" || l == "sat" || l == "timeout":
			if n < len(goals) {
				res[n] = l
			}
			n++
		case l == "unknown":
			if n < len(goals) {
				res[n] = "unknown"
			}
			n++
		case strings.HasPrefix(l, "(:reason-unknown") && n > 0 && n <= len(goals) && res[n-1] == "unknown":
			if strings.Contains(l, "timeout") || strings.Contains(l, "cancel") || strings.Contains(l, "resource") {
				res[n-1] = "timeout"
			}
		case strings.HasPrefix(l, "(error") && !strings.Contains(l, "reason-unknown"):
			os.WriteFile("/tmp/gv_error.smt2", []byte(s), 0o644)
		}
	}
	return res
}

// discharge proves everything that is not a candidate.
func (t *Task) discharge(want func(o *Obl) bool, sec int) {
	var todo []*Obl
	for _, o := range t.obls {
		if o.cand == nil && want(o) && o.res.Status != "unsat" {
			todo = append(todo, o)
		}
	}
	var failed int64
	parallel(len(todo), func(i int) {
		o := todo[i]
		t0 := time.Now()
		s := sec
		if n := atomic.LoadInt64(&failed); n > 4 {
			// the outcome is settled; spend little on the rest
			s = min(sec, 2)
		}
		if len(o.split) > 0 {
			o.res = Prove(o.assumptions(t.ex), o.goal, false, min(s, 4))
			if o.res.Status != "unsat" && s > 2 {
				o.res = t.bySplit(o, s)
			}
		} else {
			o.res = Prove(o.assumptions(t.ex), o.goal, false, s)
		}
		if o.res.Status != "unsat" {
			if dumpDir != "" {
				os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("F_%s_%d.smt2", o.Label, atomic.AddInt64(&dumpN, 1))), []byte(Script(o.assumptions(t.ex), o.goal, false)), 0o644)
			}
			atomic.AddInt64(&failed, 1)
		}
		if d := time.Since(t0); showSlow && d > 2*time.Second {
			fmt.Printf("     slow: %s at %s: %.1fs %s %s\n", o.Name(), o.Pos, d.Seconds(), o.res.Backend, o.res.Status)
		}
	})
}

// bySplit proves an obligation case by case: each case the contract names, and
// none of them.
func (t *Task) bySplit(o *Obl, sec int) Result {
	as := o.assumptions(t.ex)
	var none []*Term
	var r Result
	for i := 0; i <= len(o.split); i++ {
		termMu.Lock()
		c := And(none...)
		if i < len(o.split) {
			c = And(append(append([]*Term{}, none...), o.split[i])...)
			none = append(none, Not(o.split[i]))
		}
		g := Implies(c, o.goal)
		termMu.Unlock()
		r = Prove(as, g, false, sec)
		if showSlow && r.Status != "unsat" {
			fmt.Printf("     case %d: %s at %s: %s\n", i, o.Name(), o.Pos, r.Status)
		}
		if r.Status != "unsat" {
			return r
		}
	}
	return r
}

var debugTrustHints = os.Getenv("GV_TRUST_HINTS") != ""

func (t *Task) failed(want func(o *Obl) bool) {
	for _, o := range t.failures(want) {
		fmt.Printf("     open: %s at %s [%s]\n", o.Name(), o.Pos, o.res.Status)
	}
	t.err = "hints were trusted"
}

func (t *Task) failures(want func(o *Obl) bool) []*Obl {
	var fs []*Obl
	for _, o := range t.obls {
		if o.cand == nil && want(o) && o.res.Status != "unsat" {
			fs = append(fs, o)
		}
	}
	return fs
}

// Hints: which candidates survived on the reviewed tree, by task.
type Hints map[string][]string

func loadHints(path string) Hints {
	h := Hints{}
	b, err := os.ReadFile(path)
	if err == nil {
		json.Unmarshal(b, &h)
	}
	return h
}

// Verify runs one function's proof. The surviving candidates of the reviewed
// tree are tried first; if that is not enough all candidates are considered.
func (t *Task) Verify(hints Hints, want func(o *Obl) bool, sec int) {
	if t.err != "" {
		return
	}
	any := false
	for _, o := range t.obls {
		if o.cand == nil && want(o) {
			any = true
		}
	}
	if !any {
		return
	}
	t.ran = true
	quick := 400
	reset := func(alive func(c *Cand) bool, opt bool) {
		t.ex.useOpt = opt
		t.dropped = 0
		for _, c := range t.ex.cands {
			c.alive = alive(c)
		}
	}
	if hs, ok := hints[t.name]; ok {
		m := map[string]bool{}
		for _, h := range hs {
			m[h] = true
		}
		reset(func(c *Cand) bool { return m[c.text] }, m[optHint])
		if len(t.ex.cands) > 0 && !debugTrustHints {
			t.houdini(5000, 20000)
		}
		if debugTrustHints {
			// for debugging a specification only: nothing is reported as proved
			t.discharge(want, sec)
			t.failed(want)
			return
		}
		if t.dropped > 0 {
			t.discharge(want, min(sec, 3))
		} else {
			t.discharge(want, sec)
		}
		if len(t.failures(want)) == 0 {
			t.finish()
			return
		}
		t.full = true
	}
	all := func(*Cand) bool { return true }
	opts := []bool{false, true}
	for _, h := range hints[t.name] {
		if h == optHint {
			opts = []bool{true}
		}
	}
	for _, opt := range opts {
		reset(all, opt)
		if len(t.ex.cands) > 0 {
			t.houdini(quick, 2000, 8000)
		}
		if !opt && t.hasOpt() {
			t.discharge(want, min(sec, 2))
		} else {
			t.discharge(want, sec)
		}
		if len(t.failures(want)) == 0 || !t.hasOpt() {
			break
		}
	}
	t.finish()
}

const optHint = "contents of the heap at loop heads are valid"

// hasOpt: some obligation has a fact that the first attempt leaves out.
func (t *Task) hasOpt() bool {
	for _, o := range t.obls {
		for f := o.facts; f != nil; f = f.prev {
			if f.f.opt {
				return true
			}
		}
	}
	return false
}

func (t *Task) finish() {
	t.candUsed = 0
	for _, c := range t.ex.cands {
		if c.alive {
			t.candUsed++
		}
	}
}

// shrinkHints finds a small set of candidates that is still sufficient.
func (t *Task) surviving() []string {
	var out []string
	for _, c := range t.ex.cands {
		if c.alive {
			out = append(out, c.text)
		}
	}
	if t.ex.useOpt {
		out = append(out, optHint)
	}
	sort.Strings(out)
	return uniq(out)
}

func uniq(s []string) []string {
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// cover: at least one return of the function must be reachable under the
// assumptions, otherwise everything about it would hold vacuously.
func (t *Task) cover() (live, deadN int) {
	type ex struct{ o *Obl }
	seen := map[*FactList]bool{}
	var os []*Obl
	for _, o := range t.obls {
		if o.exit > 0 && !seen[o.facts] {
			seen[o.facts] = true
			os = append(os, o)
		}
	}
	dead := make([]bool, len(os))
	parallel(len(os), func(i int) {
		dead[i] = Prove(os[i].assumptions(t.ex), False(), true, 2).Status == "unsat"
	})
	for _, d := range dead {
		if d {
			deadN++
		} else {
			live++
		}
	}
	return
}

var debugPanics bool

func rel(root, p string) string {
	if r, err := filepath.Rel(root, p); err == nil {
		return r
	}
	return p
}

var _ = fmt.Sprint
