package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property id")
	spec := flag.String("spec", "", "contract file (default contracts/<prop>.spec)")
	only := flag.String("only", "", "verify only functions containing this text (development)")
	dump := flag.String("dump", "", "directory for SMT files (development)")
	list := flag.Bool("list", false, "list obligations")
	noh := flag.Bool("noharness", false, "do not run the replay harness (development)")
	maxf := flag.Int("maxfail", 4, "stop after this many failed obligations")
	quickfail := flag.Bool("short", false, "short timeouts (development)")
	flag.Parse()
	if *prop == "names" {
		if err := writeNames(*repo, filepath.Join(*verif, "contracts", "names.json"), flag.Args()); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	type res struct {
		code int
		why  string
	}
	t0 := time.Now()
	done := make(chan res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if *list {
					panic(r)
				}
				done <- res{-1, fmt.Sprintf("the contracts cannot be checked against this tree: %v", r)}
			}
		}()
		done <- res{run(*repo, *verif, *prop, *spec, *only, *dump, *list, *noh, *maxf, *quickfail), lastErr}
	}()
	limit := 660 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		limit = 6 * time.Hour
	}
	var r res
	select {
	case r = <-done:
	case <-time.After(limit):
		r = res{-1, "the obligations could not be decided within the time limit"}
	}
	if r.code == 2 && *only == "" && repoBuilds(*repo) {
		r.code = -1
	}
	if r.code == -1 {
		if r.why == "" {
			r.why = "the contracts cannot be checked against this tree"
		}
		r.code = undecided(*repo, *verif, *prop, r.why, *noh, t0)
	}
	os.Exit(r.code)
}

var lastErr string

// repoBuilds reports whether the verified packages compile at all (a tree that does not
// compile gives no answer).
func repoBuilds(repo string) bool {
	cmd := exec.Command("go", "build", "./riblt", "./lt", "./iblt", "./ldpc", "./des", "./newsim", "./simulator", "./node", "./testbed")
	cmd.Dir = repo
	return cmd.Run() == nil
}

// undecided reports obligations that could not even be generated from the current source: the
// property is not established, which is a violation report without an input.
func undecided(repo, verif, prop, why string, noh bool, t0 time.Time) int {
	rp := filepath.Join(verif, "replays", prop+".txt")
	os.MkdirAll(filepath.Dir(rp), 0755)
	text := fmt.Sprintf("property %s: not established on %s\n\nobligation: contracts apply to the current source\n  verifier output: %s\n", prop, repo, why)
	fmt.Println("failed obligation: contracts apply to the current source:", trunc(why, 600))
	suffix := " no-failing-input-found"
	if !noh {
		out, found := runHarness(repo, verif, prop, t0, "quick")
		text += "\nreplay against the real code:\n" + out + "\n"
		if found {
			suffix = ""
			fmt.Println(trunc(out, 3000))
		}
	}
	os.WriteFile(rp, []byte(text), 0644)
	ev := map[string]any{"property": prop, "tier": "quick", "seed": 1, "level": "proof", "assumptions": []string{}, "wall_s": time.Since(t0).Seconds(), "violations": 1,
		"coverage": map[string]any{"obligations": 1, "discharged": 0, "checker_cmd": "bin/govc -prop " + prop, "trusted_base": []string{}, "not_generated": why}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	return 1
}

func run(repo, verif, prop, spec, only, dump string, list, noh bool, maxf int, short bool) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if spec == "" {
		spec = filepath.Join(verif, "contracts", prop+".spec")
	}
	sf := newSpecFile()
	if a := os.Getenv("GOVC_ALT"); a != "" {
		sf.Opts[a] = "true"
	}
	if err := readSpec(sf, spec, "", map[string]bool{}); err != nil {
		fmt.Fprintln(os.Stderr, "contract file:", err)
		lastErr = "contract file: " + err.Error()
		return 2
	}
	if sf.Opts["floats"] == "real" {
		fltSort = "Real"
	}
	p, err := loadProg(repo, sf.Pkgs, filepath.Join(verif, "contracts", "names.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "loading the repository:", err)
		lastErr = "loading the repository: " + err.Error()
		return 2
	}
	var dropped []string
	var missing []*Obligation
	for _, c := range sf.Contracts {
		f := p.funcs[c.Pkg+"."+c.Name]
		why := ""
		switch {
		case f == nil:
			why = "no such function in the current tree"
		case len(f.Params) != len(c.Params):
			why = fmt.Sprintf("has %d parameters, contract names %d", len(f.Params), len(c.Params))
		case len(f.Blocks) == 0:
			why = "has no body"
		}
		if why == "" {
			continue
		}
		c.dropped = true
		last := c.Name[strings.LastIndex(c.Name, ".")+1:]
		exported := last[0] >= 'A' && last[0] <= 'Z'
		dropped = append(dropped, c.Pkg+"."+c.Name+": "+why)
		if exported && !c.Optional {
			missing = append(missing, &Obligation{Func: c.Pkg + "." + c.Name, Kind: "binding", Name: "function under contract: " + why, Goal: "false", Status: "failed", Output: why})
		}
	}
	env := &Env{p: p, sf: sf, dump: dump}
	// generate
	var execs []*Exec
	var obls []*Obligation
	var trusted []string
	funcs := 0
	lemmas := 0
	var lemmaObls [][]*Obligation
	for _, lm := range sf.Lemmas {
		if lm.Axiom {
			trusted = append(trusted, "axiom "+lm.Name+": "+lm.Note)
		} else {
			x := verifyLemma(p, sf, lm)
			for _, o := range x.obls {
				o.Extra = append([]string{}, env.axioms...)
			}
			lemmaObls = append(lemmaObls, x.obls)
			lemmas++
		}
		if !lm.NoAxiom {
			a, err := lemmaAxiom(p, sf, lm)
			if err != nil {
				fmt.Fprintln(os.Stderr, "lemma", lm.Name, err)
				lastErr = "lemma " + lm.Name + ": " + err.Error()
				return 2
			}
			env.axioms = append(env.axioms, a)
			env.axNames = append(env.axNames, lm.Name)
		}
	}
	var names []string
	var vac []*Obligation
	bodies := map[string]bool{}
	used := map[string]bool{}
	inl := map[string]bool{}
	for _, c := range sf.Contracts {
		if c.dropped || c.Inline {
			continue
		}
		n := c.Pkg + "." + c.Name
		if c.Trusted || c.NoVerify {
			trusted = append(trusted, "contract of "+n+" assumed in this check: "+c.Note)
			continue
		}
		if only != "" && !strings.Contains(n, only) {
			continue
		}
		names = append(names, n)
		funcs++
		tg := time.Now()
		x := verifyFunc(p, sf, c)
		if list {
			fmt.Printf("%-50s %4d obligations, %d returns, %v\n", n, len(x.obls), len(x.retFacts), time.Since(tg).Round(time.Millisecond))
		}
		execs = append(execs, x)
		obls = append(obls, x.obls...)
		for k := range x.usedExt {
			used[k] = true
		}
		for k := range x.inlined {
			inl[k] = true
		}
		bodies[n] = true
		for i, f := range x.retFacts {
			if i >= 3 && tier == "quick" {
				break
			}
			vac = append(vac, &Obligation{Func: n, Kind: "vacuity", Name: fmt.Sprintf("return path %d is reachable", i+1), Goal: "false", Facts: f, x: x})
		}
		if len(x.retFacts) == 0 && len(x.obls) == 0 {
			obls = append(obls, &Obligation{Func: n, Kind: "vacuity", Name: "function never returns under its contract", Goal: "false", Status: "failed", x: x})
		}
	}
	obls = append(obls, missing...)
	// a lemma query uses only earlier axioms
	stages := quickStages
	limit := 600 * time.Second
	if tier == "thorough" {
		stages = thoroughStages
		limit = 3000 * time.Second
	}
	if short {
		stages = []stage{{[]int{0}, 1500}, {[]int{12, 7, 5, 6, 2, 3}, 5000}}
	}
	deadline := t0.Add(limit)
	for i, o := range obls {
		o.id = i
	}
	var all, ls []*Obligation
	lenv := &Env{p: p, sf: sf, dump: dump}
	if only == "" || strings.HasPrefix(only, "lemma") {
		for _, l := range lemmaObls {
			for _, o := range l {
				o.id = 5000 + len(ls)
				if only != "" && !strings.Contains(o.Func, strings.TrimSpace(strings.TrimPrefix(only, "lemma"))) {
					continue
				}
				ls = append(ls, o)
			}
		}
		lenv.discharge(ls, stages, maxf, deadline)
		all = append(all, ls...)
	}
	tGen := time.Since(t0)
	env.discharge(obls, stages, maxf, deadline)
	obls, vac = env.alternatives(sf, obls, vac, stages, maxf, deadline)
	all = append(all, obls...)
	// "option alternatives a b": another reading of the contracts (lines tagged [a]) that says the
	// same about the property; all its obligations have to be discharged
	if alts := strings.Fields(sf.Opts["alternatives"]); len(alts) > 0 && os.Getenv("GOVC_ALT") == "" && only == "" && anyFailed(all) {
		for _, a := range alts {
			args := []string{"-repo", repo, "-verif", verif, "-prop", prop, "-noharness"}
			if short {
				args = append(args, "-short")
			}
			cmd := exec.Command(os.Args[0], args...)
			cmd.Env = append(os.Environ(), "GOVC_ALT="+a)
			if out, err := cmd.Output(); err == nil {
				fmt.Printf("under the alternative %s of the contracts:\n%s", a, out)
				return 0
			}
		}
	}
	// a rejected obligation: look for a failing input; without one, try the proof for longer
	harnessOut, harnessFound, harnessRan := "", false, false
	for _, o := range all {
		if o.Status != "proved" && !harnessRan && !noh && !short && only == "" {
			harnessRan = true
			harnessOut, harnessFound = runHarness(repo, verif, prop, t0, tier)
			if !harnessFound {
				lenv.persist(ls, stages, deadline)
				env.persist(obls, stages, deadline)
			}
		}
	}
	var failed []*Obligation
	proved := 0
	solverMs := map[string]int64{}
	solverN := map[string]int{}
	for _, o := range all {
		switch o.Status {
		case "proved":
			proved++
			solverMs[o.Solver] += o.Ms
			solverN[o.Solver]++
		case "skipped":
		default:
			failed = append(failed, o)
		}
	}
	// vacuity: the assumptions of each function must not be contradictory
	vacN := 0
	var vacBad []*Obligation
	if len(failed) == 0 {
		perFn := map[string][]*Obligation{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for _, o := range vac {
			wg.Add(1)
			go func(o *Obligation) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				env.solve(ctxBg(), o, []stage{{[]int{0}, 1000}})
				mu.Lock()
				perFn[o.Func] = append(perFn[o.Func], o)
				mu.Unlock()
			}(o)
		}
		wg.Wait()
		for _, os := range perFn {
			ok := false
			for _, o := range os {
				vacN++
				if o.Status != "proved" {
					ok = true
				}
			}
			if !ok {
				vacBad = append(vacBad, os[0])
			}
		}
	}
	if list {
		for _, o := range all {
			if o.Status == "skipped" {
				continue
			}
			fmt.Printf("  [%s] %s | %s | %s (%s) %s %dms %s\n", o.Status, o.Func, o.Kind, o.Name, o.Pos, o.Solver, o.Ms, o.file)
		}
	} else if dump != "" || only != "" {
		for _, o := range failed {
			fmt.Printf("  [%s] %s | %s | %s (%s) %s %s\n", o.Status, o.Func, o.Kind, o.Name, o.Pos, o.file, trunc(o.Output, 300))
		}
		var slow []*Obligation
		for _, o := range all {
			if o.Status == "proved" && o.Ms > 3000 {
				slow = append(slow, o)
			}
		}
		sort.Slice(slow, func(i, j int) bool { return slow[i].Ms > slow[j].Ms })
		for i, o := range slow {
			if i < 8 {
				fmt.Printf("  slow %dms %s | %s (%s) %s\n", o.Ms, o.Func, o.Name, o.Pos, o.Solver)
			}
		}
	}
	for _, o := range vacBad {
		fmt.Fprintf(os.Stderr, "vacuous: every path of %s has contradictory assumptions\n", o.Func)
	}
	fmt.Printf("%s: %d functions under contract, %d lemmas, %d obligations, %d discharged, %d failed (generation %v, total %v)\n",
		prop, funcs, lemmas, len(all), proved, len(failed), tGen.Round(time.Millisecond), time.Since(t0).Round(time.Millisecond))
	for _, d := range p.renamed {
		fmt.Println("  renamed:", d)
	}
	for _, d := range dropped {
		fmt.Println("  contract not bound (function verified inlined in its callers):", d)
	}
	if only != "" {
		if len(failed) > 0 {
			return 1
		}
		return 0
	}
	// evidence
	var tb []string
	for k := range used {
		tb = append(tb, "external contract: "+k)
	}
	sort.Strings(tb)
	tb = append(trusted, tb...)
	tb = append(tb, "govc (this repository's contract verifier: SSA translation, heap model, path enumeration)", "golang.org/x/tools/go/ssa 0.52.0", "z3-new, z3 4.8.12, cvc5 1.1.2")
	assume := append([]string{}, sf.Assume...)
	assume = append(assume, "int and int64 arithmetic is mathematical (no overflow); uint32/uint64 arithmetic is exact modulo 2^n",
		"floating point operations are uninterpreted functions unless stated otherwise", "single-threaded execution of each verified function; memory safety of the Go runtime")
	var inls []string
	for k := range inl {
		inls = append(inls, k)
	}
	sort.Strings(inls)
	kinds := map[string]int{}
	for _, o := range all {
		if o.Status == "proved" {
			kinds[o.Kind]++
		}
	}
	cov := map[string]any{
		"obligations": len(all), "discharged": proved,
		"checker_cmd":              "bin/govc -prop " + prop + " (z3-new/z3/cvc5 on every generated verification condition)",
		"trusted_base":             tb,
		"functions_under_contract": names,
		"functions_inlined":        inls,
		"contracts_not_bound":      dropped,
		"names_read_as":            p.renamed,
		"lemmas_proved":            lemmas,
		"obligations_by_kind":      kinds,
		"solver_ms":                solverMs,
		"discharged_by":            solverN,
		"vacuity_probes":           vacN,
	}
	viol := 0
	if len(failed) > 0 || len(vacBad) > 0 {
		viol = 1
	}
	writeEv := func() {
		seed := 1
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		evd := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": viol}
		b, _ := json.MarshalIndent(evd, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
	}
	if len(failed) == 0 && len(vacBad) == 0 {
		writeEv()
		return 0
	}
	if len(failed) == 0 {
		writeEv()
		fmt.Fprintln(os.Stderr, "error: vacuous contracts")
		lastErr = "the assumptions of " + vacBad[0].Func + " contradict each other on every path"
		return 2
	}
	// replay
	rp := filepath.Join(verif, "replays", prop+".txt")
	os.MkdirAll(filepath.Dir(rp), 0755)
	var rb strings.Builder
	fmt.Fprintf(&rb, "property %s: the verifier rejected %d obligation(s) generated from %s\n", prop, len(failed), repo)
	for _, o := range failed {
		fmt.Fprintf(&rb, "\nobligation: %s\n  function: %s\n  kind: %s\n  at: %s\n  verdict: %s\n  verifier output: %s\n  goal: %s\n", o.Name, o.Func, o.Kind, o.Pos, o.Status, o.Output, trunc(o.Goal, 1500))
		fmt.Printf("failed obligation: %s | %s | %s (%s)\n", o.Func, o.Kind, o.Name, o.Pos)
	}
	suffix := " no-failing-input-found"
	if !noh {
		out, found := harnessOut, harnessFound
		if !harnessRan {
			out, found = runHarness(repo, verif, prop, t0, tier)
		}
		fmt.Fprintf(&rb, "\nreplay against the real code:\n%s\n", out)
		if found {
			suffix = ""
			fmt.Println(trunc(out, 3000))
			cov["replay"] = "failing input found"
		} else {
			cov["replay"] = "no failing input found"
		}
	}
	os.WriteFile(rp, []byte(rb.String()), 0644)
	writeEv()
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	return 1
}

func anyFailed(obls []*Obligation) bool {
	for _, o := range obls {
		if o.Status != "proved" && o.Status != "skipped" {
			return true
		}
	}
	return false
}

// alternatives: a function whose obligations are rejected is verified again under the other
// loop invariants its contract gives ("loop N or"); one set under which everything is proved is
// enough.
func (env *Env) alternatives(sf *SpecFile, obls, vac []*Obligation, stages []stage, maxf int, deadline time.Time) ([]*Obligation, []*Obligation) {
	bad := map[string]bool{}
	loops := map[string]int{}
	phis := map[string]map[int][]string{}
	for _, o := range obls {
		if o.x != nil {
			loops[o.Func] = len(o.x.loopOrds)
			phis[o.Func] = o.x.loopPhis
		}
		if o.Status != "proved" && o.Status != "skipped" {
			bad[o.Func] = true
		}
	}
	swapped := false
	for _, c := range sf.Contracts {
		n := c.Pkg + "." + c.Name
		if c.dropped || !bad[n] {
			continue
		}
		main := c.Loops
		var sets []map[int]*LoopSpec
		for _, a := range c.Alts {
			m := map[int]*LoopSpec{}
			for k, v := range main {
				m[k] = v
			}
			for k, v := range a {
				m[k] = v
			}
			sets = append(sets, m)
		}
		sets = append(sets, renumbered(main, loops[n])...)
		sets = append(sets, nil) // the given invariants with equalities found for the code's own variables
		for _, set := range sets {
			if set == nil {
				if set = env.equalities(sf, c, main, phis[n], stages, deadline); set == nil {
					continue
				}
			}
			c.Loops = set
			x := verifyFunc(env.p, sf, c)
			for i, o := range x.obls {
				o.id = 8000 + i
			}
			env.discharge(x.obls, stages, 1, deadline)
			ok := len(x.retFacts)+len(x.obls) > 0
			for _, o := range x.obls {
				ok = ok && o.Status == "proved"
			}
			if !ok {
				continue
			}
			var os, vs []*Obligation
			for _, o := range obls {
				if o.Func != n {
					os = append(os, o)
				}
			}
			for _, o := range vac {
				if o.Func != n {
					vs = append(vs, o)
				}
			}
			for i, f := range x.retFacts {
				if i < 3 {
					vs = append(vs, &Obligation{Func: n, Kind: "vacuity", Name: fmt.Sprintf("return path %d is reachable", i+1), Goal: "false", Facts: f, x: x})
				}
			}
			obls, vac = append(os, x.obls...), vs
			swapped = true
			break
		}
		c.Loops = main
	}
	if swapped {
		for _, o := range obls {
			if o.Status == "skipped" {
				o.Status = ""
			}
		}
		env.discharge(obls, stages, maxf, deadline)
	}
	return obls, vac
}

// equalities: loop variables the contract does not speak of may repeat a value it does speak of
// ("for i := 0; ...; i = int(m.next())" where i is always m.last). Each such equation that is
// established and preserved becomes an invariant.
func (env *Env) equalities(sf *SpecFile, c *Contract, main map[int]*LoopSpec, phis map[int][]string, stages []stage, deadline time.Time) map[int]*LoopSpec {
	set := map[int]*LoopSpec{}
	for k, v := range main {
		set[k] = v
	}
	found := false
	var ks []int
	for k := range main {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		ids, terms := map[string]bool{}, []Expr{}
		seen := map[string]bool{}
		for _, cl := range main[k].Clauses {
			collectTerms(cl.E, map[string]bool{}, func(e Expr, name string) {
				if i, ok := e.(EIdent); ok {
					ids[i.Name] = true
				}
				if !seen[name] {
					seen[name] = true
					terms = append(terms, e)
				}
			})
		}
		for _, v := range phis[k] {
			if ids[v] {
				continue
			}
			tried := 0
			for _, t := range terms {
				if i, ok := t.(EIdent); ok && !strings.HasPrefix(i.Name, "$") && !contains(phis[k], i.Name) {
					continue
				}
				if tried++; tried > 10 || time.Now().After(deadline) {
					break
				}
				cand := Clause{Kind: "invariant", Src: "equal", Name: "equation for " + v, E: EBin{"==", EIdent{v}, t}}
				try := map[int]*LoopSpec{}
				for q, s := range set {
					try[q] = s
				}
				try[k] = &LoopSpec{N: k, Clauses: append([]Clause{cand}, set[k].Clauses...)}
				c.Loops = try
				x := verifyFunc(env.p, sf, c)
				var mine []*Obligation
				for i, o := range x.obls {
					o.id = 7000 + i
					if strings.Contains(o.Name, cand.Name) {
						mine = append(mine, o)
					}
				}
				if len(mine) == 0 || len(x.errs) > 0 {
					continue
				}
				env.discharge(mine, stages[:1], 1, deadline)
				ok := true
				for _, o := range mine {
					ok = ok && o.Status == "proved"
				}
				if os.Getenv("GOVC_DROPPED") != "" {
					fmt.Printf("  equation in %s loop %d: %s == %v: %v\n", c.Name, k, v, t, ok)
				}
				if ok {
					set, found = try, true
					break
				}
			}
		}
	}
	c.Loops = main
	if !found {
		return nil
	}
	return set
}

func contains(l []string, s string) bool {
	for _, t := range l {
		if t == s {
			return true
		}
	}
	return false
}

// collectTerms: the variables and fields (not of bound variables) an expression names
func collectTerms(e Expr, bound map[string]bool, f func(e Expr, name string)) string {
	switch e := e.(type) {
	case EIdent:
		if bound[e.Name] || e.Name == "true" || e.Name == "false" {
			return ""
		}
		f(e, e.Name)
		return e.Name
	case ESel:
		if n := collectTerms(e.X, bound, func(Expr, string) {}); n != "" {
			f(e, n+"."+e.F)
			return n + "." + e.F
		}
		collectTerms(e.X, bound, f)
	case EIdx:
		collectTerms(e.X, bound, f)
		collectTerms(e.I, bound, f)
	case ECall:
		for _, a := range e.Args {
			collectTerms(a, bound, f)
		}
	case EUn:
		collectTerms(e.X, bound, f)
	case EBin:
		collectTerms(e.X, bound, f)
		collectTerms(e.Y, bound, f)
	case EQuant:
		b := map[string]bool{}
		for k := range bound {
			b[k] = true
		}
		for _, v := range e.Vars {
			if v.In != nil {
				collectTerms(v.In, bound, f)
			}
			b[v.Name] = true
		}
		collectTerms(e.Body, b, f)
	case ELet:
		collectTerms(e.E, bound, f)
		b := map[string]bool{e.Name: true}
		for k := range bound {
			b[k] = true
		}
		collectTerms(e.Body, b, f)
	}
	return ""
}

// renumbered: the contract's loops in the same order, when the code has fewer loops (one became
// a library call, say) or more.
func renumbered(specs map[int]*LoopSpec, n int) []map[int]*LoopSpec {
	var ks []int
	for k := range specs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	if len(ks) == n || len(ks) == 0 || n == 0 {
		return nil
	}
	var r []map[int]*LoopSpec
	var pick func(from, total, need int, got []int)
	pick = func(from, total, need int, got []int) {
		if len(r) >= 12 {
			return
		}
		if need == 0 {
			m := map[int]*LoopSpec{}
			for i, g := range got {
				if len(ks) > n {
					m[i+1] = specs[ks[g]]
				} else {
					m[g+1] = specs[ks[i]]
				}
			}
			r = append(r, m)
			return
		}
		for i := from; i+need <= total; i++ {
			pick(i+1, total, need-1, append(append([]int{}, got...), i))
		}
	}
	if len(ks) > n {
		pick(0, len(ks), n, nil)
	} else {
		pick(0, n, len(ks), nil)
	}
	return r
}

// runHarness searches for a concrete failing input on the real code.
func runHarness(repo, verif, prop string, t0 time.Time, tier string) (string, bool) {
	script := filepath.Join(verif, "harness", "run.sh")
	if _, err := os.Stat(script); err != nil {
		return "no harness", false
	}
	left := 840*time.Second - time.Since(t0)
	if left < 30*time.Second {
		left = 30 * time.Second
	}
	if left > 200*time.Second {
		left = 200 * time.Second
	}
	cmd := exec.Command("timeout", "-k", "5", fmt.Sprint(int(left.Seconds())), "bash", script, prop)
	cmd.Dir = verif
	cmd.Env = append(os.Environ(), "REPO="+repo)
	b, err := cmd.CombinedOutput()
	out := string(b)
	if len(out) > 20000 {
		out = out[:20000]
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 && strings.Contains(out, "FAILING-INPUT") {
		return out, true
	}
	return out, false
}
