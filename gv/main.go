package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	root := flag.String("root", "/repo", "repository")
	specs := flag.String("specs", "", "directory of contracts")
	only := flag.String("only", "", "verify only tasks whose name contains this")
	dump := flag.String("dump", "", "directory for the solver queries")
	flag.BoolVar(&traceHoudini, "trace", false, "trace dropped candidates")
	verbose := flag.Bool("v", false, "list every obligation")
	sec := flag.Int("sec", 10, "seconds per obligation and back end")
	hintsFile := flag.String("hints", "", "hints file")
	writeHints := flag.Bool("write-hints", false, "rewrite the hints file")
	listReg := flag.Bool("registry", false, "print the operator table")
	props := flag.String("prop", "", "only obligations of this property")
	worker := flag.Bool("worker", false, "serve verification requests on standard input")
	check := flag.String("check", "", "decide this property")
	verif := flag.String("verif", "/verif", "directory of the framework")
	writeBase := flag.Bool("write-baseline", false, "rewrite baseline.json")
	flag.BoolVar(&debugPanics, "panics", false, "do not recover from verifier errors")
	flag.Parse()
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
		dumpDir = *dump
	}
	if T == nil {
		T = NewTerms()
	}
	initAxioms()
	prog, err := LoadProgram(*root)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	book := NewBook(prog)
	if *specs != "" {
		if err := book.Load(*specs); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	reg := ResolveRegistry(prog, book)
	if *listReg {
		for _, n := range sortedKeys(reg.Bind) {
			fmt.Println(n, reg.Bind[n])
		}
		fmt.Println(reg.Errs)
		return
	}
	hints := Hints{}
	if *hintsFile != "" {
		hints = loadHints(*hintsFile)
	}
	if *worker {
		workerMain(prog, book, reg, hints, *sec, false)
		return
	}
	workerArgs := []string{"-root", *root, "-specs", *specs, "-hints", *hintsFile, "-sec", fmt.Sprint(*sec)}
	if *check != "" {
		os.Exit(checkMain(prog, book, reg, *check, *verif, workerArgs))
	}
	if *writeBase {
		writeBaseline(*verif+"/baseline.json", reg)
		return
	}
	tasks := BuildTasks(prog, book, reg)
	if *writeHints {
		var items []workItem
		for _, t := range tasks {
			if *only == "" || matchAny(t.name, *only) {
				items = append(items, workItem{t.name, "all"})
			}
		}
		writeHintsMain(items, []string{"-root", *root, "-specs", *specs, "-sec", fmt.Sprint(*sec)}, *hintsFile, hints, *only != "")
		return
	}
	want := func(o *Obl) bool {
		if *props == "" {
			return true
		}
		return contains(o.Props, *props)
	}
	for _, t := range tasks {
		if *only != "" && !matchAny(t.name, *only) {
			continue
		}
		t0 := time.Now()
		t.Execute(prog, book)
		t1 := time.Now()
		t.Verify(hints, want, *sec)
		if t.err != "" {
			fmt.Printf("FAIL %-40s %s\n", t.name, t.err)
			continue
		}
		n, bad := 0, 0
		for _, o := range t.obls {
			if o.cand != nil || !want(o) {
				continue
			}
			n++
			if o.res.Status != "unsat" {
				bad++
				fmt.Printf("   ** %s  %v at %s [%s]\n", o.Name(), o.Props, o.Pos, o.res.Status)
				if *verbose {
					fmt.Printf("        goal %s\n", o.goal.String())
				}
			} else if *verbose {
				fmt.Printf("   ok %s at %s by %s %v\n", o.Name(), o.Pos, o.res.Backend, o.res.Time.Round(time.Millisecond))
			}
		}
		st := "ok  "
		if bad > 0 {
			st = "FAIL"
		}
		fmt.Printf("%s %-40s %d obligations, %d undischarged; candidates %d/%d; exec %v, prove %v\n", st, t.name, n, bad, t.candUsed, len(t.ex.cands), t1.Sub(t0).Round(time.Millisecond), time.Since(t1).Round(time.Millisecond))
		if *verbose {
			for _, c := range t.ex.cands {
				fmt.Printf("     cand %v %s\n", c.alive, c.text)
			}
		}
	}
}

func matchAny(n, pat string) bool {
	for _, p := range strings.Split(pat, ",") {
		if strings.Contains(n, p) {
			return true
		}
	}
	return false
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// BuildTasks lists every function that has to be verified: those with a
// contract, and the functions the operator names are bound to.
func BuildTasks(p *Program, book *Book, reg *Registry) []*Task {
	var ts []*Task
	seen := map[string]bool{}
	for _, ct := range book.list {
		if ct.Ops == nil {
			fi := p.ByKey[ct.Key]
			if fi == nil {
				ts = append(ts, &Task{ct: ct, name: ct.Key, err: "function not found: " + ct.Key})
				continue
			}
			if ct.Trusted != "" {
				continue
			}
			ts = append(ts, &Task{fi: fi, ct: ct, name: ct.Key})
			continue
		}
		for _, op := range ct.Ops {
			k := reg.Bind[op]
			fi := p.ByKey[k]
			if fi == nil {
				ts = append(ts, &Task{ct: ct, name: "op " + op, err: "operator " + op + " is not bound to a known function"})
				continue
			}
			key := ct.Key + "=" + k
			if seen[key] {
				continue
			}
			seen[key] = true
			ts = append(ts, &Task{fi: fi, ct: ct, name: "op " + op})
		}
	}
	return ts
}
