package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type Env struct {
	p      *Prog
	sf     *SpecFile
	axioms []string // lemma axioms in order
	axNames []string
	dump   string
	fast   bool
}

const prelude = `(set-option :produce-models true)
(declare-sort Flt 0)
(declare-sort Str 0)
(declare-sort Iface 0)
(declare-const nil_iface Iface)
(declare-fun ityp (Iface) Int)
(assert (= (ityp nil_iface) 0))
(assert (forall ((x Iface)) (! (=> (= (ityp x) 0) (= x nil_iface)) :pattern ((ityp x)))))
(declare-const flt_zero Flt)
(declare-const str_empty Str)
(declare-fun str_lt (Str Str) Bool)
(assert (forall ((x Str) (y Str)) (! (=> (str_lt x y) (not (str_lt y x))) :pattern ((str_lt x y)))))
(assert (forall ((x Str) (y Str)) (! (=> (not (= x y)) (or (str_lt x y) (str_lt y x))) :pattern ((str_lt x y)))))
(assert (forall ((x Str) (y Str) (z Str)) (! (=> (and (str_lt x y) (str_lt y z)) (str_lt x z)) :pattern ((str_lt x y) (str_lt y z)))))
(declare-fun bxor (Int Int) Int)
(declare-fun le64 (Int Int Int Int Int Int Int Int) Int)
(declare-fun nthbyte (Int Int) Int)
(assert (forall ((v Int) (k Int)) (! (and (<= 0 (nthbyte v k)) (< (nthbyte v k) 256)) :pattern ((nthbyte v k)))))
(assert (forall ((x Int)) (! (= (bxor x x) 0) :pattern ((bxor x x)))))
(assert (forall ((x Int)) (! (= (bxor x 0) x) :pattern ((bxor x 0)))))
(assert (forall ((x Int)) (! (= (bxor 0 x) x) :pattern ((bxor 0 x)))))
(declare-fun umul64 (Int Int) Int)
(declare-fun tdiv (Int Int) Int)
(declare-fun tmod (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (< 0 b)) (= (tdiv a b) (div a b))) :pattern ((tdiv a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (< 0 b)) (= (tmod a b) (mod a b))) :pattern ((tmod a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (< a 0) (< 0 b)) (= (tmod a b) (- (mod (- a) b)))) :pattern ((tmod a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (< a 0) (< 0 b)) (= (tdiv a b) (- (div (- a) b)))) :pattern ((tdiv a b)))))
(define-fun rtrunc ((x Real)) Int (ite (>= x 0.0) (to_int x) (- (to_int (- x)))))
(declare-fun teq (Int Int) Bool)
(assert (forall ((a Int)) (! (teq a a) :pattern ((teq a a)))))
`

var tokRe = regexp.MustCompile(`[A-Za-z_$][\w$.!~]*`)

func (env *Env) query(o *Obligation) string {
	x := o.x
	var b strings.Builder
	b.WriteString(prelude)
	body := &strings.Builder{}
	hidden := func(n string) bool {
		if n == "" || o.x == nil || o.x.ct == nil {
			return false
		}
		for _, h := range o.x.ct.Hide {
			if h == n || strings.HasSuffix(h, "*") && strings.HasPrefix(n, strings.TrimSuffix(h, "*")) {
				return true
			}
		}
		return false
	}
	for i, s := range env.sf.SMT {
		if strings.HasPrefix(s, "(assert") && hidden(env.sf.SMTGroup[i]) {
			continue
		}
		body.WriteString(s)
		body.WriteString("\n")
		if strings.HasPrefix(s, "(assert") {
			continue
		}
	}
	sig := body.String()
	body.Reset()
	for i, a := range env.axioms {
		if hidden(env.axNames[i]) {
			continue
		}
		body.WriteString("(assert " + a + ")\n")
	}
	for _, e := range o.Extra {
		body.WriteString("(assert " + e + ")\n")
	}
	for _, f := range x.initFacts {
		body.WriteString("(assert " + f + ")\n")
	}
	for _, f := range factList(o.Facts) {
		body.WriteString("(assert " + f + ")\n")
	}
	body.WriteString("(assert (! (not " + o.Goal + ") :named goal))\n")
	txt := body.String()
	used := map[string]bool{}
	for _, t := range tokRe.FindAllString(txt, -1) {
		used[t] = true
	}
	for _, t := range tokRe.FindAllString(sig, -1) {
		used[t] = true
	}
	// interface boxes and strings
	for i, s := range strOrder {
		n := fmt.Sprintf("str_%d", i+1)
		_ = s
		b.WriteString("(declare-const " + n + " Str)\n")
	}
	if len(strOrder) > 0 {
		b.WriteString("(assert (distinct str_empty")
		for i := range strOrder {
			fmt.Fprintf(&b, " str_%d", i+1)
		}
		b.WriteString("))\n")
	}
	for i := range fltOrder {
		fmt.Fprintf(&b, "(declare-const flt_c%d Flt)\n", i+1)
	}
	for _, n := range x.dtypeOrd {
		b.WriteString(x.dtypes[n] + "\n")
	}
	if used["ityp"] || anyPrefix(used, "box") || anyPrefix(used, "un_box") {
		for _, d := range boxDecls() {
			b.WriteString(d + "\n")
		}
		for _, d := range implDecls() {
			b.WriteString(d + "\n")
		}
	}
	for _, n := range x.uifOrd {
		if used[n] {
			if _, dup := env.sf.Logic[n]; !dup {
				b.WriteString(x.uif[n] + "\n")
			}
		}
	}
	b.WriteString(sig)
	var ds []string
	for n := range x.decls {
		if used[n] {
			ds = append(ds, n)
		}
	}
	sort.Strings(ds)
	for _, n := range ds {
		b.WriteString("(declare-const " + n + " " + x.decls[n] + ")\n")
	}
	b.WriteString(txt)
	b.WriteString("(check-sat)\n")
	return b.String()
}

func anyPrefix(m map[string]bool, p string) bool {
	for k := range m {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

type solverCfg struct {
	name string
	bin  string
	args func(ms int) []string
	pre  string
}

var solvers = []solverCfg{
	{"z3-new(ematch)", "z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false", "smt.qi.eager_threshold=50"}
	}, ""},
	{"z3-new", "z3-new", func(ms int) []string { return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms)} }, ""},
	{"z3-4.8", "z3", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false"}
	}, ""},
	{"cvc5", "cvc5", func(ms int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant"}
	}, "(set-logic ALL)\n"},
	{"cvc5(ematch)", "cvc5", func(ms int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--no-cbqi"}
	}, "(set-logic ALL)\n"},
	{"z3-new(ematch,-pairs)", "z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false"}
	}, ""},
	{"z3-new(ematch,lazy)", "z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false"}
	}, ""},
	{"z3-new(ematch,nonlinear abstracted)", "z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false"}
	}, ""},
	{"z3-new(ematch,seed 7)", "z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false", "smt.random_seed=7", "smt.qi.eager_threshold=20"}
	}, ""},
	{"z3-new(ematch,lazy,seed 11)", "z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false", "smt.random_seed=11"}
	}, ""},
	{"z3-new(ematch,case split 3)", "z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false", "smt.random_seed=5", "smt.case_split=3"}
	}, ""},
	{"z3-new(ematch,seed 3,nonlinear abstracted)", "z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false", "smt.random_seed=3", "smt.qi.eager_threshold=20"}
	}, ""},
	{"z3-new(ematch,arith 2)", "z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false", "smt.arith.solver=2", "smt.qi.eager_threshold=50"}
	}, ""},
	{"z3-new(ematch,lazy,arith 2)", "z3-new", func(ms int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false", "smt.arith.solver=2"}
	}, ""},
}

// dropPairs leaves out facts quantified over pairs that carry no trigger (fewer
// assumptions only make a proof harder, never wrong).
func dropPairs(q string) string {
	ls := strings.Split(q, "\n")
	out := ls[:0]
	for _, l := range ls {
		if strings.HasPrefix(l, "(assert (forall ((q_") && !strings.Contains(l, ":pattern") {
			if i := strings.Index(l, "))"); i > 0 && strings.Contains(l[:i], ") (") {
				continue
			}
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// at most this many solver processes at a time
var procs = make(chan bool, 8)

func runSolver(ctx context.Context, s solverCfg, q string, ms int) (string, string) {
	if strings.HasSuffix(s.name, "abstracted)") {
		if q = abstractNonlinear(q); q == "" {
			return "unknown", ""
		}
	}
	select {
	case procs <- true:
		defer func() { <-procs }()
	case <-ctx.Done():
		return "cancelled", ""
	}
	c, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c, s.bin, s.args(ms)...)
	if strings.HasSuffix(s.name, "-pairs)") {
		q = dropPairs(q)
	}
	cmd.Stdin = strings.NewReader(s.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	txt := out.String()
	for _, l := range strings.Split(txt, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return "unsat", txt
		case "sat":
			return "sat", txt
		case "unknown", "timeout":
			return "unknown", txt
		}
	}
	return "error", txt
}

type stage struct {
	idx []int
	ms  int
}

var (
	quickStages    = []stage{{[]int{0}, 1500}, {[]int{12, 7, 6, 5, 3, 2, 1}, 5000}, {[]int{12, 0, 7, 6, 5, 3, 13, 2}, 25000}}
	// for an obligation that failed although no failing input was found
	lastStages     = []stage{{[]int{12, 7, 8, 13, 5, 9, 3, 0}, 100000}}
	thoroughStages = []stage{{[]int{0}, 1500}, {[]int{7, 6, 5, 3, 2, 1}, 5000}, {[]int{0, 7, 6, 5, 3, 4, 2}, 60000}}
)

var cacheDir = os.Getenv("GOVC_CACHE")

func (env *Env) solve(ctx context.Context, o *Obligation, stages []stage) {
	q := env.query(o)
	if env.dump != "" {
		n := sanitize(o.Func + "_" + o.Name)
		if len(n) > 100 {
			n = n[:100]
		}
		os.MkdirAll(env.dump, 0755)
		o.file = filepath.Join(env.dump, fmt.Sprintf("%04d_%s.smt2", o.id, n))
		os.WriteFile(o.file, []byte(q), 0644)
	}
	key := ""
	if cacheDir != "" {
		key = filepath.Join(cacheDir, fmt.Sprintf("%x", sha256.Sum256([]byte(q))))
		if b, err := os.ReadFile(key); err == nil {
			o.Status, o.Solver = "proved", string(b)
			return
		}
	}
	o.tried = true
	t0 := time.Now()
	defer func() { o.Ms += time.Since(t0).Milliseconds() }()
	for _, sg := range stages {
		cc, cancel := context.WithCancel(ctx)
		type res struct{ name, st, out string }
		ch := make(chan res, len(sg.idx))
		for _, i := range sg.idx {
			go func(s solverCfg) {
				st, out := runSolver(cc, s, q, sg.ms)
				ch <- res{s.name, st, out}
			}(solvers[i])
		}
		done := false
		for range sg.idx {
			r := <-ch
			if done {
				continue
			}
			if r.st == "unsat" {
				o.Status, o.Solver = "proved", r.name
				done = true
				cancel()
			} else if r.st == "sat" && !strings.Contains(r.name, "ematch") {
				o.Status, o.Solver = "refuted", r.name
				o.Output = r.name + ": sat"
				done = true
				cancel()
			} else if r.st == "error" && o.Output == "" && cc.Err() == nil {
				o.Output = r.name + ": " + trunc(r.out, 400)
			} else if r.st == "unknown" {
				o.Output += r.name + ": unknown; "
			}
		}
		cancel()
		if done {
			if o.Status == "proved" && key != "" {
				os.WriteFile(key, []byte(o.Solver), 0644)
			}
			return
		}
		if ctx.Err() != nil {
			break
		}
	}
	o.Status = "failed"
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// discharge runs all obligations in parallel: first every one with the fast strategy,
// then the remaining ones with the others. It stops early after a few failures.
func (env *Env) discharge(obls []*Obligation, stages []stage, maxFail int, deadline time.Time) (skipped int) {
	ctx, cancel := context.WithDeadline(context.Background(), deadline)
	defer cancel()
	var mu sync.Mutex
	fails := 0
	for _, o := range obls {
		if o.Status == "failed" {
			fails++
		}
	}
	pass := func(stages []stage, last bool, workers int) {
		var wg sync.WaitGroup
		ch := make(chan *Obligation)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for o := range ch {
					mu.Lock()
					stop := maxFail > 0 && fails >= maxFail || ctx.Err() != nil
					mu.Unlock()
					if stop {
						mu.Lock()
						o.Status = "skipped"
						skipped++
						mu.Unlock()
						continue
					}
					env.solve(ctx, o, stages)
					if o.Status == "failed" && !last {
						o.Status = ""
						continue
					}
					if o.Status != "proved" {
						mu.Lock()
						fails++
						if maxFail > 0 && fails >= maxFail {
							cancel()
						}
						mu.Unlock()
					}
				}
			}()
		}
		for _, o := range obls {
			if o.Status == "" {
				ch <- o
			}
		}
		close(ch)
		wg.Wait()
	}
	pass(stages[:1], len(stages) == 1, 8)
	if len(stages) > 1 {
		pass(stages[1:], true, 4)
	}
	return
}

// persist gives every obligation that failed a last, much longer attempt, one at a time with all
// processors, and then resumes the obligations that were skipped. It stops at the first one
// that still fails.
func (env *Env) persist(obls []*Obligation, stages []stage, deadline time.Time) {
	for {
		var bad []*Obligation
		left := 0
		for _, o := range obls {
			switch o.Status {
			case "proved":
			case "skipped":
				left++
			default:
				if !o.tried || o.Status == "refuted" {
					return
				}
				bad = append(bad, o)
			}
		}
		if len(bad) == 0 && left == 0 {
			return
		}
		ctx, cancel := context.WithDeadline(context.Background(), deadline)
		for _, o := range bad {
			was := o.Output
			o.Status, o.Output = "", ""
			env.solve(ctx, o, lastStages)
			if o.Status != "proved" {
				o.Output = was
				cancel()
				return
			}
		}
		cancel()
		if left > 0 {
			for _, o := range obls {
				if o.Status == "skipped" {
					o.Status = ""
				}
			}
			env.discharge(obls, stages, 4, deadline)
		}
	}
}

func ctxBg() context.Context { return context.Background() }
