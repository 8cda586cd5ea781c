package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- worker

// TaskReport is what a worker process reports about one function.
type TaskReport struct {
	Task     string
	Func     string
	Key      string // contract key
	Err      string // outside the verifier's reach
	Obls     []OblReport
	Called   []string // contracts relied upon
	Inlined  []string
	Uses     []string // external functions relied upon
	Cands    int
	Alive    int
	Live     int // returns reachable under the assumptions
	Dead     int
	Full     bool // the recorded invariants were not enough
	Hints    []string
	SolverNs int64
	Runs     int64
	Millis   int64
}

type OblReport struct {
	Name, Kind, Label string
	Props             []string
	Pos               string
	Status, Backend   string
	Millis            int64
	Output            string
	Goal              string
}

type workItem struct {
	Task string
	Mode string // "all", "deps" (everything but crash freedom), or a property
}

func (w workItem) want(o *Obl) bool {
	switch w.Mode {
	case "all":
		return true
	case "deps":
		return !(len(o.Props) == 1 && o.Props[0] == "C23" && o.Kind == "panic")
	}
	for _, p := range strings.Split(w.Mode, "+") {
		if p == "deps" && !(len(o.Props) == 1 && o.Props[0] == "C23" && o.Kind == "panic") {
			return true
		}
		if contains(o.Props, p) {
			return true
		}
	}
	return false
}

func runTask(prog *Program, book *Book, t *Task, w workItem, hints Hints, sec int, fast bool) (rep TaskReport) {
	t0 := time.Now()
	ns0, r0 := atomic.LoadInt64(&solverNs), atomic.LoadInt64(&solverRuns)
	rep.Task = t.name
	if t.ct != nil {
		rep.Key = t.ct.Key
	}
	if t.fi != nil {
		rep.Func = t.fi.Key
	}
	defer func() {
		if r := recover(); r != nil {
			rep.Err = fmt.Sprintf("verifier failed: %v", r)
		}
		rep.Millis = time.Since(t0).Milliseconds()
		rep.SolverNs = atomic.LoadInt64(&solverNs) - ns0
		rep.Runs = atomic.LoadInt64(&solverRuns) - r0
	}()
	if t.err == "" {
		t.Execute(prog, book)
	}
	if t.err != "" {
		rep.Err = t.err
		return
	}
	if w.Mode == "exec" {
		for _, o := range t.obls {
			if o.cand == nil {
				rep.Obls = append(rep.Obls, OblReport{Props: o.Props})
			}
		}
		rep.Called = sortedKeys(t.ex.called)
		return
	}
	t.fast = fast
	t.Verify(hints, w.want, sec)
	for _, o := range t.obls {
		if o.cand != nil || !w.want(o) {
			continue
		}
		r := OblReport{Name: t.name + "/" + o.Kind + "/" + o.Label, Kind: o.Kind, Label: o.Label, Props: o.Props, Pos: o.Pos, Status: o.res.Status, Backend: o.res.Backend, Millis: o.res.Time.Milliseconds()}
		if r.Status != "unsat" {
			r.Output = clip(o.res.Output, 2000)
			r.Goal = clip(o.goal.String(), 2000)
		}
		rep.Obls = append(rep.Obls, r)
	}
	rep.Live, rep.Dead = t.cover()
	rep.Called = sortedKeys(t.ex.called)
	rep.Inlined = sortedKeys(t.ex.inlined)
	rep.Uses = sortedKeys(t.ex.uses)
	rep.Cands, rep.Alive, rep.Full = len(t.ex.cands), t.candUsed, t.full
	rep.Hints = t.surviving()
	return
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func workerMain(prog *Program, book *Book, reg *Registry, hints Hints, sec int, fast bool) {
	byName := map[string]*Task{}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var w workItem
		if json.Unmarshal(in.Bytes(), &w) != nil {
			continue
		}
		for _, t := range BuildTasks(prog, book, reg) {
			byName[t.name] = t
		}
		t := byName[w.Task]
		if t == nil {
			out.Encode(TaskReport{Task: w.Task, Err: "no such task"})
			continue
		}
		out.Encode(runTask(prog, book, t, w, hints, sec, fast))
	}
}

// runPool distributes the work over worker processes.
func runPool(args []string, items []workItem, n int, deadline time.Time) []TaskReport {
	res := make([]TaskReport, len(items))
	done := make([]bool, len(items))
	ch := make(chan int, len(items))
	for i := range items {
		ch <- i
	}
	close(ch)
	self, _ := os.Executable()
	if tok, err := os.MkdirTemp("", "gvtok"); err == nil {
		defer os.RemoveAll(tok)
		os.Setenv("GV_TOKENS", tok)
		defer os.Unsetenv("GV_TOKENS")
	}
	var wg sync.WaitGroup
	for k := 0; k < min(n, len(items)); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var enc *json.Encoder
			var dec *json.Decoder
			var stdin interface{ Close() error }
			start := func() bool {
				cmd = exec.Command(self, append([]string{"-worker"}, args...)...)
				cmd.Stderr = os.Stderr
				in, e1 := cmd.StdinPipe()
				out, e2 := cmd.StdoutPipe()
				if e1 != nil || e2 != nil || cmd.Start() != nil {
					return false
				}
				enc, dec, stdin = json.NewEncoder(in), json.NewDecoder(out), in
				return true
			}
			if !start() {
				return
			}
			for i := range ch {
				left := time.Until(deadline)
				if left <= 0 {
					res[i] = TaskReport{Task: items[i].Task, Err: "time budget of the check exhausted before this function"}
					done[i] = true
					continue
				}
				enc.Encode(items[i])
				kill := time.AfterFunc(left, func() { cmd.Process.Kill() })
				var r TaskReport
				err := dec.Decode(&r)
				kill.Stop()
				if err != nil {
					stdin.Close()
					cmd.Wait()
					why := "worker process ended: " + err.Error()
					if time.Until(deadline) <= 0 {
						why = "time budget of the check exhausted in this function"
					}
					r = TaskReport{Task: items[i].Task, Err: why}
					if !start() {
						return
					}
				}
				res[i] = r
				done[i] = true
			}
			stdin.Close()
			cmd.Wait()
		}()
	}
	wg.Wait()
	for i := range res {
		if !done[i] {
			res[i] = TaskReport{Task: items[i].Task, Err: "not run"}
		}
	}
	return res
}

// ---------------------------------------------------------------- the check

// Baseline: what the reviewed tree looked like to the verifier.
type Baseline struct {
	Bind    map[string]string // operator name -> function
	Bounded map[string]string // task -> why it is not under proof
	Props   map[string][]string
	// Literals of the recorded tree; the bounded harness tries the ones a tree
	// has beyond these.
	Literals []string
}

type harnessOut struct {
	Evaluations int
	Distinct    int
	Rule        string
	Samples     []any
	Failures    []struct{ Key, Input, Expected, Got string }
	Error       string
}

func tasksFor(book *Book, tasks []*Task, prop string) []workItem {
	var items []workItem
	byKey := map[string]*Task{}
	for _, t := range tasks {
		if t.ct != nil {
			byKey[t.ct.Key] = t
		}
	}
	for _, t := range tasks {
		if prop == "C23" || prop == "C25" || contains(t.ct.Props, prop) || t.ct.tags(prop) {
			items = append(items, workItem{t.name, prop})
		}
	}
	return items
}

func (c *Contract) tags(p string) bool {
	for _, l := range [][]Clause{c.Requires, c.Ensures} {
		for _, x := range l {
			if contains(x.Props, p) {
				return true
			}
		}
	}
	return false
}

func checkMain(prog *Program, book *Book, reg *Registry, prop, verif string, workerArgs []string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	tasks := BuildTasks(prog, book, reg)
	items := tasksFor(book, tasks, prop)
	byKey := map[string]*Task{}
	for _, t := range tasks {
		byKey[t.ct.Key] = t
	}
	base := loadBaseline(filepath.Join(verif, "baseline.json"))
	if prop == "C22" {
		// a name that is bound to another function than on the reviewed tree
		// must still run the operation documented for it
		have := map[string]bool{}
		for _, t := range tasks {
			for _, op := range t.ct.Ops {
				if t.err == "" && base.Bind[op] != "" && reg.Bind[op] != base.Bind[op] && t.fi != nil && t.fi.Key == reg.Bind[op] && !have[t.name] {
					have[t.name] = true
					items = append(items, workItem{t.name, "deps"})
				}
			}
		}
	}
	budget := 640 * time.Second
	if tier == "thorough" {
		budget = 740 * time.Second
	}
	deadline := t0.Add(budget)

	// the bounded harness runs beside the proof
	hch := make(chan harnessOut, 1)
	go func() { hch <- runHarness(verif, prop, seed, tier) }()

	nw := max(2, runtime.NumCPU())
	reports := map[string]TaskReport{}
	var order []string
	pending := items
	seen := map[string]bool{}
	for _, w := range pending {
		seen[w.Task] = true
	}
	depth := 0
	for len(pending) > 0 {
		var next []workItem
		for i, r := range runPool(workerArgs, pending, nw, deadline) {
			w := pending[i]
			if old, ok := reports[w.Task]; ok {
				_ = old
			} else {
				order = append(order, w.Task)
			}
			reports[w.Task] = r
			for _, k := range r.Called {
				d := byKey[k]
				if d == nil || d.ct.Trusted != "" || seen[d.name+"#deps"] {
					continue
				}
				seen[d.name+"#deps"] = true
				next = append(next, workItem{d.name, prop + "+deps"})
			}
		}
		pending = next
		depth++
	}
	h := <-hch

	ct := &checkResult{prop: prop, verif: verif}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), prop)

	var failed []OblReport
	nObl, nOK := 0, 0
	back := map[string]int{}
	var under []string
	var bounded []map[string]string
	var solver, wall int64
	uses := map[string]bool{}
	trusted := map[string]bool{}
	dead := []string{}
	var samples []map[string]any
	for _, name := range order {
		r := reports[name]
		solver += r.SolverNs
		wall += r.Millis
		if r.Err != "" {
			why := r.Err
			if b, ok := base.Bounded[name]; ok {
				why = b
			} else {
				fmt.Printf("NOTE: %s is outside the verifier's reach on this tree (%s); it is only covered by the bounded harness\n", name, clip(r.Err, 200))
			}
			bounded = append(bounded, map[string]string{"function": name, "reason": why})
			continue
		}
		under = append(under, r.Func+" ["+name+"]")
		if r.Live == 0 && len(r.Obls) > 0 {
			dead = append(dead, name)
		}
		for _, u := range r.Uses {
			uses[u] = true
		}
		for _, c := range r.Called {
			if d := book.funcs[c]; d != nil && d.Trusted != "" {
				trusted[c+": "+d.Trusted] = true
			}
			if d := book.funcs[c]; d != nil {
				for _, a := range d.Assumes {
					trusted[c+": "+a.Label+" (assumed of its calls, not proved)"] = true
				}
			}
		}
		for _, o := range r.Obls {
			nObl++
			if o.Status == "unsat" {
				nOK++
				back[o.Backend]++
				if len(samples) < 12 && o.Kind == "ensures" {
					samples = append(samples, map[string]any{"obligation": o.Name, "at": o.Pos, "backend": o.Backend, "ms": o.Millis})
				}
			} else {
				failed = append(failed, o)
			}
		}
	}
	// operator bindings (C22)
	if prop == "C22" {
		for _, f := range registryFailures(reg, base) {
			nObl++
			failed = append(failed, OblReport{Name: "registry/" + f, Kind: "binding", Label: f, Status: "refuted"})
		}
		for n := range reg.Bind {
			if base.Bind[n] != "" {
				nObl++
				nOK++
				back["symbolic execution of init"]++
			}
		}
	}
	for _, d := range dead {
		failed = append(failed, OblReport{Name: d + "/cover", Kind: "cover", Label: "some return is reachable under the contract", Status: "refuted"})
	}

	exit := 0
	// failing inputs
	for _, f := range h.Failures {
		if k := known.match("input", f.Key); k != "" {
			ct.knownLine(k)
			continue
		}
		p := ct.replay(map[string]any{"property": prop, "kind": "failing input", "key": f.Key, "input": f.Input, "expected": f.Expected, "got": f.Got, "seed": seed,
			"failed_obligations": failed, "rerun": fmt.Sprintf("cd %s && VERIF_SEED=%d ./check.sh %s", verif, seed, prop)})
		fmt.Printf("failing input (%s): %s\n  expected %s\n  got      %s\n", f.Key, clip(f.Input, 600), clip(f.Expected, 300), clip(f.Got, 300))
		for _, o := range failed {
			fmt.Printf("  failed obligation %s at %s\n", o.Name, o.Pos)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		exit = 1
	}
	if exit == 0 {
		for _, o := range failed {
			if k := known.match("obligation", o.Name); k != "" {
				ct.knownLine(k)
				continue
			}
			p := ct.replay(map[string]any{"property": prop, "kind": "failed obligation", "obligation": o, "all_failed": failed, "note": "no failing input was found by the bounded search"})
			fmt.Printf("failed obligation %s at %s [%s] %v\n", o.Name, o.Pos, o.Status, o.Props)
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
			exit = 1
		}
	}
	for _, k := range known.unseen() {
		ct.knownLine(k)
	}
	if h.Error != "" {
		fmt.Println("NOTE: bounded harness:", clip(h.Error, 1500))
	}

	var useList []string
	for _, u := range sortedKeys(uses) {
		useList = append(useList, "external: "+u)
	}
	for _, u := range sortedKeys(trusted) {
		useList = append(useList, "trusted contract: "+u)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(),
		"coverage": map[string]any{
			"obligations": nObl, "discharged": nOK,
			"checker_cmd":              "bin/gv -check " + prop + " (verification conditions generated from /repo's current source; z3 5.3.2, cvc5 1.1.2, z3 4.8.12)",
			"trusted_base":             append(baseTrust(), useList...),
			"functions_under_contract": under, "backends": back,
			"solver_time_s":   float64(solver) / 1e9,
			"bounded_instead": bounded,
			"bounded_harness": map[string]any{"evaluations": h.Evaluations, "distinct_nontrivial": h.Distinct, "rule": h.Rule, "samples": h.Samples, "label": "bounded; never counted as proved"},
			"samples":         samples,
			"failed":          failed,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %d functions bounded; harness %d cases (%d distinct), %d failures; %.1fs\n",
		prop, len(under), nObl, nOK, len(bounded), h.Evaluations, h.Distinct, len(h.Failures), time.Since(t0).Seconds())
	return exit
}

func baseTrust() []string {
	return []string{
		"the verification-condition generator gv (its Go semantics, heap model and loop rule)",
		"the SMT solvers z3 5.3.2, cvc5 1.1.2 and z3 4.8.12",
		"Go's type checker (go/types) and compiler",
		"allocation never fails and slices have at most 2^48 elements; stack depth is unbounded",
		"no data races: the code under contract is sequential",
		"floating point operations are uninterpreted functions with IEEE equality/order axioms, not bit-level arithmetic",
	}
}

func registryFailures(reg *Registry, base Baseline) []string {
	if len(reg.Errs) > 0 {
		fmt.Println("NOTE: operator table not resolved:", clip(strings.Join(reg.Errs, "; "), 300))
		return nil
	}
	var out []string
	for _, n := range sortedKeys(base.Bind) {
		if reg.Bind[n] == "" {
			out = append(out, n+" is not bound to any operator")
		}
	}
	for _, n := range sortedKeys(reg.Bind) {
		if base.Bind[n] == "" {
			out = append(out, n+" is bound but is not a documented operator")
		}
	}
	return out
}

type checkResult struct {
	prop, verif string
	n           int
	printed     map[string]bool
}

func (c *checkResult) replay(v any) string {
	c.n++
	dir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, c.n))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func (c *checkResult) knownLine(what string) {
	if c.printed == nil {
		c.printed = map[string]bool{}
	}
	if !c.printed[what] {
		c.printed[what] = true
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, what)
	}
}

func loadBaseline(p string) Baseline {
	b := Baseline{Bind: map[string]string{}, Bounded: map[string]string{}}
	if d, err := os.ReadFile(p); err == nil {
		json.Unmarshal(d, &b)
	}
	return b
}

// Known findings: lines "finding: property=<id> input=<key> <what>" or
// "finding: property=<id> obligation=<name> <what>"; "fixed:" lines are a record only.
type knownSet struct {
	list []knownEntry
	seen map[int]bool
}
type knownEntry struct{ kind, key, what string }

func loadKnown(p, prop string) *knownSet {
	k := &knownSet{seen: map[int]bool{}}
	d, err := os.ReadFile(p)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(d), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+prop {
			continue
		}
		kk, key, _ := strings.Cut(f[2], "=")
		k.list = append(k.list, knownEntry{kk, key, f[3]})
	}
	return k
}

func (k *knownSet) match(kind, key string) string {
	for i, e := range k.list {
		if e.kind == kind && e.key == strings.ReplaceAll(key, " ", "_") {
			k.seen[i] = true
			return e.what
		}
	}
	return ""
}

func (k *knownSet) unseen() []string {
	var out []string
	for i, e := range k.list {
		if !k.seen[i] {
			out = append(out, e.what)
		}
	}
	return out
}

// sourceLiterals gives the literals of the non-test source, and its bare
// comparisons with whole numbers that look like sizes.
func sourceLiterals(root string) map[string]bool {
	out := map[string]bool{}
	for _, dir := range []string{"core", "lib", "engine"} {
		files, _ := filepath.Glob(filepath.Join(root, dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			t, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(t, func(n ast.Node) bool {
				if _, is := n.(*ast.ImportSpec); is {
					return false
				}
				if l, is := n.(*ast.BasicLit); is && len(l.Value) <= 26 && (l.Kind != token.STRING || !strings.ContainsAny(l.Value, " %\n\t")) {
					out[l.Kind.String()+" "+l.Value] = true
				}
				return true
			})
		}
	}
	return out
}

// oddLiterals gives those the recorded tree does not have, as the harness reads them.
func oddLiterals(verif string) string {
	known := map[string]bool{}
	b := loadBaseline(filepath.Join(verif, "baseline.json"))
	for _, l := range b.Literals {
		known[l] = true
	}
	if len(known) == 0 {
		return "{}"
	}
	var odd struct {
		Strings []string
		Ints    []int
		Floats  []float64
	}
	var all []string
	for l := range sourceLiterals("/repo") {
		if !known[l] {
			all = append(all, l)
		}
	}
	sort.Strings(all)
	for _, l := range all {
		kind, v, _ := strings.Cut(l, " ")
		switch kind {
		case "STRING":
			if s, err := strconv.Unquote(v); err == nil {
				odd.Strings = append(odd.Strings, s)
			}
		case "CHAR":
			if s, err := strconv.Unquote(v); err == nil {
				odd.Strings = append(odd.Strings, s)
			}
		case "INT":
			if n, err := strconv.ParseInt(v, 0, 64); err == nil {
				odd.Ints = append(odd.Ints, int(n))
			}
		case "FLOAT":
			if x, err := strconv.ParseFloat(v, 64); err == nil {
				odd.Floats = append(odd.Floats, x)
			}
		}
	}
	d, _ := json.Marshal(odd)
	return string(d)
}

// runHarness runs the bounded checks of the property against the real code.
func runHarness(verif, prop string, seed int, tier string) (h harnessOut) {
	hd := filepath.Join(verif, "harness")
	files, _ := filepath.Glob(filepath.Join(hd, "*_test.go"))
	if len(files) == 0 {
		h.Error = "no harness"
		return
	}
	tmp, err := os.MkdirTemp("", "gvh")
	if err != nil {
		h.Error = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	for _, f := range files {
		rep["/repo/internal/verifharness/"+filepath.Base(f)] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, b, 0o644)
	outFile := filepath.Join(tmp, "out.json")
	budget := 40
	if tier == "thorough" {
		budget = 400
	}
	bin := filepath.Join(tmp, "harness.test")
	build := exec.Command("go", "test", "-c", "-o", bin, "-overlay", ov, "-vet=off", "./internal/verifharness")
	build.Dir = "/repo"
	if out, err := build.CombinedOutput(); err != nil {
		h.Error = "build: " + clip(string(out), 4000)
		return
	}
	cmd := exec.Command(bin, "-test.timeout", "700s", "-test.run", "^TestVerif$")
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VERIF_PROP="+prop, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_BUDGET=%d", budget), "VERIF_OUT="+outFile, "VERIF_TIER="+tier, "VERIF_ODD="+oddLiterals(verif))
	out, err := cmd.CombinedOutput()
	d, e2 := os.ReadFile(outFile)
	if e2 == nil {
		json.Unmarshal(d, &h)
	}
	if err != nil && len(h.Failures) == 0 {
		h.Error = clip(string(out), 4000)
		if bytes.Contains(out, []byte("goroutine stack exceeds")) { // no recover catches this one
			h.Failures = append(h.Failures, struct{ Key, Input, Expected, Got string }{"stack-overflow", fmt.Sprintf("case of the generator with seed %d after which the run stopped", seed), "an answer", clip(string(out), 1500)})
		}
	}
	return
}

// ---------------------------------------------------------------- hints

func writeHintsMain(items []workItem, workerArgs []string, path string, old Hints, partial bool) {
	h := Hints{}
	if partial {
		h = old
	}
	reports := runPool(workerArgs, items, runtime.NumCPU(), time.Now().Add(3*time.Hour))
	for _, r := range reports {
		if r.Err != "" {
			fmt.Printf("-- %s: %s\n", r.Task, clip(r.Err, 200))
			delete(h, r.Task)
			continue
		}
		bad := 0
		for _, o := range r.Obls {
			if o.Status != "unsat" {
				bad++
				fmt.Printf("   ** %s %v at %s [%s]\n", o.Name, o.Props, o.Pos, o.Status)
			}
		}
		fmt.Printf("%s: %d obligations, %d open, %d ms\n", r.Task, len(r.Obls), bad, r.Millis)
		h[r.Task] = r.Hints
		if r.Hints == nil {
			h[r.Task] = []string{}
		}
	}
	b, _ := json.MarshalIndent(h, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func sortItems(w []workItem) { sort.Slice(w, func(i, j int) bool { return w[i].Task < w[j].Task }) }

func writeBaseline(p string, reg *Registry) {
	b := loadBaseline(p)
	b.Bind = reg.Bind
	b.Literals = nil
	for l := range sourceLiterals("/repo") {
		b.Literals = append(b.Literals, l)
	}
	sort.Strings(b.Literals)
	d, _ := json.MarshalIndent(b, "", " ")
	os.WriteFile(p, append(d, '\n'), 0o644)
}
