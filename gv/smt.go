package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// fnAxioms: axioms sent whenever the function symbol occurs in a query.
var fnAxioms = map[string][]*Term{}

func AddFnAxiom(fn string, ax *Term) { fnAxioms[fn] = append(fnAxioms[fn], ax) }

type collector struct {
	seen  map[*Term]bool
	syms  map[string]bool
	sorts map[string]bool
	refs  map[*Term]int
	order []*Term
	todo  []*Term // axioms to add
	axs   []*Term
	axm   map[*Term]bool
}

func (c *collector) visit(x *Term) {
	c.refs[x]++
	if c.seen[x] {
		return
	}
	c.seen[x] = true
	c.sortUse(x.sort)
	if x.op == "sym" {
		c.syms[x.name] = true
		for _, a := range T.symFacts[x.name] {
			if !c.axm[a] {
				c.axm[a] = true
				c.todo = append(c.todo, a)
			}
		}
	} else if x.op == "app" {
		if _, ok := T.decls[x.name]; ok {
			c.syms[x.name] = true
		}
		for _, a := range fnAxioms[x.name] {
			if !c.axm[a] {
				c.axm[a] = true
				c.todo = append(c.todo, a)
			}
		}
	}
	for _, v := range x.qv {
		c.sortUse(v.sort)
	}
	for _, a := range x.args {
		c.visit(a)
	}
	for _, p := range x.pats {
		for _, y := range p {
			c.visit(y)
		}
	}
	c.order = append(c.order, x)
}

func (c *collector) sortUse(s Sort) {
	if c.sorts[s] {
		return
	}
	c.sorts[s] = true
	if strings.HasPrefix(s, "(Array ") {
		c.sortUse(arrIdx(s))
		c.sortUse(arrElem(s))
	}
	if d := T.dts[s]; d != nil {
		for _, k := range d.Ctors {
			for _, f := range k.Fields {
				c.sortUse(f.Sort)
			}
		}
	}
}

func litStr(x *Term) string {
	if x.n != nil {
		if x.n.Sign() < 0 {
			return "(- " + new(big.Int).Neg(x.n).String() + ")"
		}
		return x.n.String()
	}
	return x.name
}

// Script renders assumptions and the negated goal as an SMT-LIB query.
func Script(facts []*Term, goal *Term, wantModel bool) string {
	return script(facts, []*Term{goal}, wantModel, 0)
}

// BatchScript asks about several goals in turn under the same assumptions.
func BatchScript(facts []*Term, goals []*Term, msec int) string {
	return script(facts, goals, false, msec)
}

func script(facts []*Term, goals []*Term, wantModel bool, msec int) string {
	termMu.Lock()
	defer termMu.Unlock()
	c := &collector{seen: map[*Term]bool{}, syms: map[string]bool{}, sorts: map[string]bool{}, refs: map[*Term]int{}, axm: map[*Term]bool{}}
	memo := map[*Term]*Term{}
	var all []*Term
	for _, f := range facts {
		all = append(all, prepFact(f, memo))
	}
	var negs []*Term
	for _, g := range goals {
		negs = append(negs, Not(prepGoalSide(g, memo)))
	}
	for _, f := range all {
		c.visit(f)
	}
	for _, f := range negs {
		c.visit(f)
	}
	for len(c.todo) > 0 {
		a := c.todo[0]
		c.todo = c.todo[1:]
		c.axs = append(c.axs, a)
		c.visit(a)
	}
	var b strings.Builder
	if msec > 0 {
		fmt.Fprintf(&b, "(set-option :timeout %d)\n", msec)
	}
	b.WriteString("(set-logic ALL)\n")
	// sorts
	b.WriteString("(declare-sort Str 0)\n(declare-sort GMap 0)\n(declare-sort Flt 0)\n")
	// datatypes in dependency order
	for _, n := range dtOrder(c.sorts) {
		d := T.dts[n]
		b.WriteString("(declare-datatypes ((" + n + " 0)) ((")
		for i, k := range d.Ctors {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("(" + q(k.Name))
			for _, f := range k.Fields {
				b.WriteString(" (" + q(f.Name) + " " + f.Sort + ")")
			}
			b.WriteString(")")
		}
		b.WriteString(")))\n")
	}
	var lits, flits []string
	for _, n := range T.declOrd {
		if c.syms[n] {
			b.WriteString(T.decls[n])
			b.WriteByte('\n')
			if strings.HasPrefix(n, "str$") {
				lits = append(lits, n)
			}
			if strings.HasPrefix(n, "flt$") {
				flits = append(flits, n)
			}
		}
	}
	if len(lits) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
	}
	if len(flits) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(flits, " ") + "))\n")
	}
	for _, fn := range []string{"flt", "feq", "fle"} {
		if !c.syms[fn] {
			continue
		}
		for _, x := range flits {
			for _, y := range flits {
				a, b2, _ := fltLits(T.mk("sym", x, SFlt), T.mk("sym", y, SFlt))
				v := fn == "flt" && a < b2 || fn == "feq" && a == b2 || fn == "fle" && a <= b2
				fmt.Fprintf(&b, "(assert (= (%s %s %s) %v))\n", fn, x, y, v)
			}
		}
	}
	if c.syms["strlen"] {
		for _, l := range lits {
			s, _ := strLitOf(T.mk("sym", l, SStr))
			fmt.Fprintf(&b, "(assert (= (strlen %s) %d))\n", l, len(s))
		}
	}
	// shared closed subterms become macros
	p := &printer{macro: map[*Term]string{}}
	for _, x := range c.order {
		if c.refs[x] > 1 && len(x.args) > 0 && !x.bound && x.op == "app" && depthAtLeast(x, 2) {
			s := p.str(x)
			name := fmt.Sprintf("d!%d", x.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", name, x.sort, s)
			p.macro[x] = name
		}
	}
	for _, a := range c.axs {
		b.WriteString("(assert " + p.str(a) + ")\n")
	}
	for _, f := range all {
		b.WriteString("(assert " + p.str(f) + ")\n")
	}
	if len(goals) > 1 {
		for _, g := range negs {
			b.WriteString("(push 1)\n(assert " + p.str(g) + ")\n(check-sat)\n(get-info :reason-unknown)\n(pop 1)\n")
		}
		return b.String()
	}
	b.WriteString("(assert " + p.str(negs[0]) + ")\n(check-sat)\n")
	if wantModel {
		b.WriteString("(get-model)\n")
	}
	return b.String()
}

func depthAtLeast(x *Term, d int) bool {
	if d <= 1 {
		return len(x.args) > 0
	}
	for _, a := range x.args {
		if depthAtLeast(a, d-1) {
			return true
		}
	}
	return false
}

func dtOrder(sorts map[string]bool) []string {
	var out []string
	done := map[string]bool{}
	var rec func(s Sort)
	rec = func(s Sort) {
		if strings.HasPrefix(s, "(Array ") {
			rec(arrIdx(s))
			rec(arrElem(s))
			return
		}
		d := T.dts[s]
		if d == nil || done[s] {
			return
		}
		done[s] = true
		for _, k := range d.Ctors {
			for _, f := range k.Fields {
				rec(f.Sort)
			}
		}
		out = append(out, s)
	}
	for _, n := range T.dtOrd {
		if sorts[n] {
			rec(n)
		}
	}
	return out
}

type printer struct {
	macro map[*Term]string
}

func (p *printer) str(x *Term) string {
	var b strings.Builder
	p.write(&b, x)
	return b.String()
}
func (p *printer) write(b *strings.Builder, x *Term) {
	if m, ok := p.macro[x]; ok {
		b.WriteString(m)
		return
	}
	switch x.op {
	case "lit":
		b.WriteString(litStr(x))
		return
	case "sym":
		b.WriteString(q(x.name))
		return
	case "forall", "exists":
		b.WriteString("(" + x.op + " (")
		for _, v := range x.qv {
			b.WriteString("(" + q(v.name) + " " + v.sort + ")")
		}
		b.WriteString(") ")
		b.WriteString("(! ")
		p.write(b, x.args[0])
		for _, pt := range x.pats {
			b.WriteString(" :pattern (")
			for i, y := range pt {
				if i > 0 {
					b.WriteByte(' ')
				}
				p.write(b, y)
			}
			b.WriteString(")")
		}
		fmt.Fprintf(b, " :qid q%d)", x.id)
		b.WriteString(")")
		return
	}
	if x.name == "constarr" {
		b.WriteString("((as const " + x.sort + ") ")
		p.write(b, x.args[0])
		b.WriteString(")")
		return
	}
	n := x.name
	if !strings.HasPrefix(n, "(_ is ") {
		n = q(n)
	}
	b.WriteString("(" + n)
	for _, a := range x.args {
		b.WriteByte(' ')
		p.write(b, a)
	}
	b.WriteByte(')')
}

// ---------------------------------------------------------------- solving

type Result struct {
	Status  string // "unsat", "sat", "unknown", "timeout", "error"
	Backend string
	Time    time.Duration
	Output  string
}

type Backend struct {
	Name string
	Cmd  func(sec int) []string
	Pre  string
}

var backends = []Backend{
	{"z3-5.3.2 (e-matching)", func(s int) []string {
		return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false"}
	}, ""},
	{"z3-5.3.2 (mbqi)", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s)} }, ""},
	{"cvc5-1.1.2", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "-"}
	}, ""},
	{"z3-4.8.12", func(s int) []string {
		return []string{"z3", "-in", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false"}
	}, ""},
}

var termMu sync.Mutex

var (
	solverSem  = make(chan struct{}, 8)
	tokenDir   = os.Getenv("GV_TOKENS") // shared among worker processes
	solverNs   int64
	solverRuns int64
	dumpDir    string
	dumpN      int64
)

func runBackend(be Backend, script string, sec int) Result {
	defer acquire()()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+2)*time.Second)
	defer cancel()
	argv := be.Cmd(sec)
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&solverNs, int64(d))
	atomic.AddInt64(&solverRuns, 1)
	o := out.String()
	r := Result{Backend: be.Name, Time: d, Output: o}
	first := strings.TrimSpace(o)
	for strings.HasPrefix(first, "WARNING") {
		_, rest, _ := strings.Cut(first, "\n")
		first = strings.TrimSpace(rest)
	}
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = strings.TrimSpace(first[:i])
	}
	switch {
	case first == "unsat":
		r.Status = "unsat"
	case first == "sat":
		r.Status = "sat"
	case first == "unknown":
		r.Status = "unknown"
	case first == "timeout" || d > time.Duration(sec)*time.Second:
		r.Status = "timeout"
	default:
		r.Status = "error"
	}
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%05d_%s.smt2", n, r.Status)), []byte(script), 0o644)
	}
	if r.Status == "error" && dumpDir == "" {
		os.WriteFile("/tmp/gv_error.smt2", []byte(script), 0o644)
	}
	return r
}

var smtCache sync.Map // script -> Result, for identical queries within one run

// Prove discharges one obligation, trying back ends in turn.
func Prove(facts []*Term, goal *Term, quick bool, sec int) Result {
	if goal.isTrue() {
		return Result{Status: "unsat", Backend: "simplifier"}
	}
	for _, f := range facts {
		if f == goal {
			return Result{Status: "unsat", Backend: "simplifier"}
		}
		if f.isFalse() {
			return Result{Status: "unsat", Backend: "simplifier"}
		}
	}
	facts, goal = specialise(facts, goal)
	if goal.isTrue() {
		return Result{Status: "unsat", Backend: "simplifier"}
	}
	for _, f := range facts {
		if f.isFalse() {
			return Result{Status: "unsat", Backend: "simplifier"}
		}
	}
	s := Script(facts, goal, false)
	if r, ok := smtCache.Load(s); ok {
		return r.(Result)
	}
	if r, ok := proveSliced(facts, goal, sec); ok {
		smtCache.Store(s, r)
		return r
	}
	var last Result
	n := len(backends)
	if quick {
		n = 1
	}
	for i := 0; i < n; i++ {
		r := runBackend(backends[i], s, sec)
		if r.Status == "unsat" {
			smtCache.Store(s, r)
			return r
		}
		if r.Status == "sat" && i == 1 {
			last = r
			break
		}
		if last.Status == "" || r.Status == "sat" || last.Status == "error" {
			last = r
		}
	}
	smtCache.Store(s, last)
	return last
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

func sortInts(a []int) { sort.Ints(a) }

// acquire limits the number of solver processes, across worker processes too.
func acquire() func() {
	solverSem <- struct{}{}
	if tokenDir == "" {
		return func() { <-solverSem }
	}
	for {
		for i := 0; i < 9; i++ {
			f, err := os.OpenFile(filepath.Join(tokenDir, fmt.Sprint("t", i)), os.O_RDWR|os.O_CREATE, 0o644)
			if err != nil {
				return func() { <-solverSem }
			}
			if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
				return func() { f.Close(); <-solverSem }
			}
			f.Close()
		}
		time.Sleep(3 * time.Millisecond)
	}
}
