package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// verifyFunc generates the obligations of one contract.
func verifyFunc(p *Prog, sf *SpecFile, c *Contract) (x *Exec) {
	x = newExec(p, sf)
	x.ct = c
	x.fnName = c.Pkg + "." + c.Name
	f := p.funcs[c.Pkg+"."+c.Name]
	f = x.bodyOf(f)
	x.topFn = f
	defer func() {
		if r := recover(); r != nil {
			switch q := r.(type) {
			case unsupportedErr:
				x.obls = append(x.obls, &Obligation{Func: x.fnName, Kind: "unsupported", Name: "code outside the verifier's reach: " + q.msg, Goal: "false", Status: "failed", Output: q.msg, x: x})
			case evalErr:
				x.obls = append(x.obls, &Obligation{Func: x.fnName, Kind: "binding", Name: "specification does not bind: " + q.msg, Goal: "false", Status: "failed", Output: q.msg, x: x})
			default:
				panic(r)
			}
		}
	}()
	n := 0
	x.numberLoops(f, "t", &n, 0)
	st := newState()
	fr := x.newFrame(f, "t", nil)
	x.top = fr
	x.bindParams(st, fr)
	if sig := f.Signature; sig.Recv() != nil && !c.Nilable {
		if pt, ok := st.env[envKey{fr, f.Params[0]}].(Pt); ok {
			x.assume(st, not(eq(pt.Ref, "0")))
		}
	}
	x.oldSt = st.clone()
	for _, cl := range c.Clauses {
		if cl.Kind == "requires" {
			g, err := x.evalTop(st, fr, nil, cl.E, nil)
			if err != nil {
				x.bindErr(st, cl, err, nil)
				continue
			}
			x.assume(st, g)
		}
	}
	// the entry state keeps the assumed preconditions
	old := st.clone()
	x.oldSt = old
	for _, cl := range c.Clauses {
		if cl.Kind == "entry" {
			x.hintAssert(st, fr, nil, cl, "entry assertion")
		}
	}
	fr.ret = func(st *State, res []Val) {
		x.atReturn(st, fr, res)
	}
	x.runFrom(st, fr, f.Blocks[0], 0)
	for _, s := range c.Funcal {
		x.functional(s)
	}
	return x
}

func (x *Exec) bindParams(st *State, fr *Frame) {
	for _, p := range fr.fn.Params {
		v := x.freshVal(st, "p_"+p.Name(), p.Type())
		for _, t := range flatten(v) {
			x.paramRef[t] = x.nfresh
		}
		st.env[envKey{fr, p}] = v
		x.bindName(st, fr, p.Name(), v, false, p.Type(), p)
	}
	for _, p := range fr.fn.FreeVars {
		v := x.freshVal(st, "fv_"+p.Name(), p.Type())
		st.env[envKey{fr, p}] = v
		if pt, ok := v.(Pt); ok {
			x.assume(st, not(eq(pt.Ref, "0")))
		}
	}
	x.assume(st, lt("0", "alloc!0"))
}

func (x *Exec) resultVars(res []Val) map[string]tv {
	m := map[string]tv{}
	sig := x.topFn.Signature
	for i, r := range res {
		t := tv{v: r, t: sig.Results().At(i).Type()}
		if i < len(x.ct.Results) {
			m[x.ct.Results[i]] = t
		}
		if i == 0 {
			m["result"] = t
		}
		m[fmt.Sprintf("result%d", i)] = t
	}
	return m
}

func (x *Exec) atReturn(st *State, fr *Frame, res []Val) {
	if x.dry > 0 {
		return
	}
	c := x.ct
	vars := x.resultVars(res)
	// postconditions speak about the arguments the caller passed
	entry := x.entryParams()
	for _, cl := range c.Clauses {
		if cl.Kind == "exit" {
			// hints; one that names a variable not in scope on this path is skipped
			if x.lemmaHint(st, fr, st.done, cl, vars) {
				continue
			}
			if g, err := x.evalTop(st, fr, st.done, cl.E, vars); err == nil {
				x.assert(st, g, "assert", "exit assertion: "+clauseName(cl, 0), token.NoPos)
			}
		}
	}
	for _, g := range c.GhostUpd {
		v, err := x.guard(func() string {
			e := &ev{x: x, st: st, fr: fr, vars: vars, old: x.oldSt, params: entry, pkg: x.curPkg()}
			return e.term(g.E)
		})
		if err != nil {
			x.bindErr(st, Clause{Kind: "ghost", Src: g.Name}, err, nil)
			continue
		}
		k := x.ghostKey(g.Name)
		x.hset(st, k, v)
		x.wlogAdd(st, k, "")
	}
	for i, cl := range c.Clauses {
		if cl.Kind != "ensures" {
			continue
		}
		g, err := x.guard(func() string {
			v := &ev{x: x, st: st, fr: fr, vars: vars, old: x.oldSt, params: entry, pkg: x.curPkg()}
			return v.term(cl.E)
		})
		if err != nil {
			x.bindErr(st, cl, err, nil)
			continue
		}
		x.assert(st, g, "postcondition", "postcondition: "+clauseName(cl, i), token.NoPos)
	}
	if c.HasMod {
		x.frameCheck(st, fr)
	}
	x.retFacts = append(x.retFacts, st.facts)
	x.rets = append(x.rets, retInfo{st, res})
}

func (x *Exec) entryParams() map[string]tv {
	m := map[string]tv{}
	f := x.topFn
	for i, p := range f.Params {
		if v, ok := x.oldSt.env[envKey{x.top, p}]; ok {
			t := tv{v: v, t: p.Type()}
			m[p.Name()] = t
			if i < len(x.ct.Params) {
				m[x.ct.Params[i]] = t
			}
		}
	}
	return m
}

// lemmaHint: a hint that is an application of a proved lemma assumes its instance.
func (x *Exec) lemmaHint(st *State, fr *Frame, ctx *LoopCtx, cl Clause, vars map[string]tv) bool {
	if c, ok := cl.E.(ECall); !ok || x.sf.lemma(c.F) == nil {
		return false
	}
	g, err := x.guard(func() string {
		v := &ev{x: x, st: st, fr: fr, ctx: ctx, vars: vars, old: x.oldSt, pkg: x.curPkg()}
		s, _ := v.lemmaInst(cl.E, "")
		return s
	})
	if err == nil {
		x.assume(st, g)
	} else if cl.Kind != "exit" && cl.Kind != "after" && cl.Kind != "before" && cl.Kind != "grant" {
		x.bindErr(st, cl, err, nil)
	} else {
		dropped(cl, err)
	}
	return true
}

func (sf *SpecFile) lemma(n string) *Lemma {
	for _, l := range sf.Lemmas {
		if l.Name == n {
			return l
		}
	}
	return nil
}

// lemmaInst is the statement of a lemma for given arguments; before limits it to
// lemmas stated earlier than the named one.
func (e *ev) lemmaInst(ex Expr, before string) (string, bool) {
	c, ok := ex.(ECall)
	if !ok {
		return "", false
	}
	var lm *Lemma
	for _, l := range e.x.sf.Lemmas {
		if l.Name == before {
			break
		}
		if l.Name == c.F {
			lm = l
		}
	}
	if lm == nil {
		return "", false
	}
	if len(c.Args) != len(lm.Params) {
		panic(everr("lemma %s: wrong number of arguments", c.F))
	}
	b := &ev{x: e.x, st: e.st, vars: map[string]tv{}, pkg: e.pkg}
	if sp, ok := e.x.p.pkgs[lm.Pkg]; ok {
		b.pkg = sp.Pkg
	}
	for i, a := range c.Args {
		q := lm.Params[i]
		v := e.eval(a)
		so, t := b.quantSort(q.Typ)
		if t != nil {
			b.vars[q.Name] = tv{v: v.v, t: t}
		} else {
			b.vars[q.Name] = logical(e.scalar(v), so)
		}
	}
	req, ens := "true", "true"
	for _, c := range lm.Requires {
		req = and(req, b.term(c.E))
	}
	for _, c := range lm.Ensures {
		ens = and(ens, b.term(c.E))
	}
	return implies(req, ens), true
}

// frameAllowed: the heap keys and roots the modifies clauses cover.
func (x *Exec) frameAllowed(fr *Frame) map[string]map[string]bool {
	if x.allowedC != nil && x.allowedCt == x.ct {
		return x.allowedC
	}
	allowed := map[string]map[string]bool{}
	e := &ev{x: x, st: x.oldSt, fr: fr, old: x.oldSt, pkg: x.curPkg()}
	for _, m := range x.ct.Modifies {
		var locs []modLoc
		_, err := x.guard(func() string { locs = e.locs(m); return "" })
		if err != nil {
			x.bindErr(nil, Clause{Kind: "modifies", Src: fmt.Sprint(m)}, err, nil)
			continue
		}
		for _, l := range locs {
			ks, root := x.keysOf(l)
			for _, k := range ks {
				if allowed[k] == nil {
					allowed[k] = map[string]bool{}
				}
				allowed[k][root] = true
			}
		}
	}
	x.allowedC, x.allowedCt = allowed, x.ct
	return allowed
}

// rowFrame: rows of a heap that existed at entry and are not listed in modifies are unchanged.
func (x *Exec) rowFrame(st *State, k string, al map[string]bool) string {
	hk := x.hkeys[k]
	if al[""] || al["global"] || x.hget(st, k) == x.hget(x.oldSt, k) {
		return "true"
	}
	var als []string
	for r := range al {
		als = append(als, r)
	}
	sort.Strings(als)
	var ne []string
	for _, r := range als {
		ne = append(ne, not(eq("r", r)))
	}
	ne = append(ne, lt("r", "alloc!0"), le("0", "r"))
	if hk.Kind == "E" {
		// array 0 stands for the arrays of nil slices: they have no elements
		ne[len(ne)-1] = lt("0", "r")
	}
	a, b := sel(x.hget(st, k), "r"), sel(x.hget(x.oldSt, k), "r")
	if hk.Kind == "E" {
		return fmt.Sprintf("(forall ((r Int) (j Int)) (! %s :pattern (%s)))", implies(and(ne...), eq(sel(a, "j"), sel(b, "j"))), sel(a, "j"))
	}
	return fmt.Sprintf("(forall ((r Int)) (! %s :pattern (%s)))", implies(and(ne...), eq(a, b)), a)
}

// loopFrames: the function's frame condition as invariant for heaps a loop writes at unknown places.
func (x *Exec) loopFrames(st *State, ctx *LoopCtx) map[string]string {
	r := map[string]string{}
	if x.ct == nil || !x.ct.HasMod || x.oldSt == nil || ctx.mods == nil || x.dry > 0 {
		return r
	}
	allowed := x.frameAllowed(x.top)
	for k, roots := range ctx.mods.Keys {
		hk := x.hkeys[k]
		if !roots[""] || hk.Kind == "G" || hk.Kind == "$" || strings.HasPrefix(k, "L:") {
			continue
		}
		if g := x.rowFrame(st, k, allowed[k]); g != "true" {
			r[k] = g
		}
	}
	return r
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// frameCheck: everything written is listed in modifies or was allocated here.
func (x *Exec) frameCheck(st *State, fr *Frame) {
	allowed := x.frameAllowed(fr)
	done := map[string]bool{}
	var keys []string
	byKey := map[string][]string{}
	for w := st.wlog; w != nil; w = w.Prev {
		if strings.HasPrefix(w.Key, "L:") {
			continue
		}
		if done[w.Key+"|"+w.Root] {
			continue
		}
		done[w.Key+"|"+w.Root] = true
		if len(byKey[w.Key]) == 0 {
			keys = append(keys, w.Key)
		}
		byKey[w.Key] = append(byKey[w.Key], w.Root)
	}
	sort.Strings(keys)
	for _, k := range keys {
		al := allowed[k]
		if al[""] || al["global"] {
			continue
		}
		hk := x.hkeys[k]
		if hk.Kind == "G" || hk.Kind == "$" && !strings.HasPrefix(hk.Sort, "(Array") {
			x.assert(st, eq(x.hget(st, k), x.hget(x.oldSt, k)), "frame", "only listed locations change: "+k, token.NoPos)
			continue
		}
		top := false
		for _, r := range byKey[k] {
			if r == "" {
				top = true
			}
		}
		var als []string
		for r := range al {
			als = append(als, r)
		}
		sort.Strings(als)
		if top {
			g := x.rowFrame(st, k, al)
			if g == "true" {
				continue
			}
			x.assert(st, g, "frame", "only listed locations change: "+k, token.NoPos)
			continue
		}
		for _, r := range byKey[k] {
			if x.isAlloc[r] > 0 || al[r] {
				continue
			}
			alt := []string{le("alloc!0", r)}
			if hk.Kind == "E" {
				alt = append(alt, le(r, "0"))
			}
			for _, q := range als {
				alt = append(alt, eq(r, q))
			}
			// or the object is unchanged after all
			x.assert(st, or(append(alt, eq(x.rd(x.hget(st, k), r), x.rd(x.hget(x.oldSt, k), r)))...), "frame", "only listed locations change: "+k, token.NoPos)
		}
	}
}

// functional proves that listed outputs depend on listed inputs only, by running
// the function twice on states that agree on those inputs alone.
// syntax: functional in1, in2 => out1, out2   (result allowed in outputs)
func (x *Exec) functional(cl Clause) {
	parts := strings.SplitN(cl.Src, "=>", 2)
	if len(parts) != 2 {
		x.bindErr(nil, cl, fmt.Errorf("bad functional clause"), nil)
		return
	}
	ins, err1 := parseExprList(parts[0])
	outs, err2 := parseExprList(parts[1])
	if err1 != nil || err2 != nil {
		x.bindErr(nil, cl, fmt.Errorf("%v %v", err1, err2), nil)
		return
	}
	first := x.rets
	x.rets = nil
	old1 := x.oldSt
	// second run: new parameters, new heap
	keepObls := x.obls
	keepRet := x.retFacts
	st := newState()
	st.gen = "b"
	st.alloc = "alloc!0"
	fr := x.newFrame(x.topFn, "t", nil)
	top1 := x.top
	x.top = fr
	x.bindParams(st, fr)
	if x.topFn.Signature.Recv() != nil && !x.ct.Nilable {
		if pt, ok := st.env[envKey{fr, x.topFn.Params[0]}].(Pt); ok {
			x.assume(st, not(eq(pt.Ref, "0")))
		}
	}
	x.oldSt = st.clone()
	for _, c := range x.ct.Clauses {
		if c.Kind == "requires" {
			if g, err := x.evalTop(st, fr, nil, c.E, nil); err == nil {
				x.assume(st, g)
			}
		}
	}
	old2 := st.clone()
	x.oldSt = old2
	fr.ret = func(st *State, res []Val) {
		if x.dry == 0 {
			x.rets = append(x.rets, retInfo{st, res})
		}
	}
	x.mcache = map[string]*Mods{}
	x.runFrom(st, fr, x.topFn.Blocks[0], 0)
	second := x.rets
	x.obls = keepObls
	x.retFacts = keepRet
	evalIn := func(top *Frame, old *State, s *State, e Expr, vars map[string]tv) string {
		sv, so := x.top, x.oldSt
		x.top, x.oldSt = top, old
		defer func() { x.top, x.oldSt = sv, so }()
		r, err := x.guard(func() string {
			v := &ev{x: x, st: s, fr: top, vars: vars, old: old, pkg: x.curPkg()}
			return strings.Join(flatten(v.eval(e).v), "\x00")
		})
		if err != nil {
			x.bindErr(nil, cl, err, nil)
			return ""
		}
		return r
	}
	eqs := func(a, b string) string {
		as, bs := strings.Split(a, "\x00"), strings.Split(b, "\x00")
		r := "true"
		for i := range as {
			r = and(r, eq(as[i], bs[i]))
		}
		return r
	}
	for i, r1 := range first {
		for j, r2 := range second {
			both := newState()
			both.alloc = r1.st.alloc
			for _, f := range factList(r1.st.facts) {
				x.assume(both, f)
			}
			for _, f := range factList(r2.st.facts) {
				x.assume(both, f)
			}
			for _, in := range ins {
				x.assume(both, eqs(evalIn(top1, old1, old1, in, nil), evalIn(fr, old2, old2, in, nil)))
			}
			for k, o := range outs {
				g := eqs(evalIn(top1, old1, r1.st, o, x.resultVars(r1.res)), evalIn(fr, old2, r2.st, o, x.resultVars(r2.res)))
				x.assert(both, g, "functional", fmt.Sprintf("output %d depends on the listed inputs only (paths %d,%d): %s", k+1, i+1, j+1, strings.Join(strings.Fields(cl.Src), " ")), token.NoPos)
			}
		}
	}
	x.top, x.oldSt = top1, old1
	x.rets = first
}

// ---------- lemmas ----------

func (x *Exec) lemmaTerms(p *Prog, sf *SpecFile, lm *Lemma) (decl []string, names []string, vars map[string]tv, e *ev) {
	vars = map[string]tv{}
	e = &ev{x: x, st: newState(), vars: vars}
	if sp, ok := p.pkgs[lm.Pkg]; ok {
		e.pkg = sp.Pkg
	}
	for _, q := range lm.Params {
		so, t := e.quantSort(q.Typ)
		n := "l_" + q.Name
		decl = append(decl, "("+n+" "+so+")")
		names = append(names, n)
		if t != nil {
			vars[q.Name] = tv{v: unflatten(t, []string{n}), t: t}
		} else {
			vars[q.Name] = logical(n, so)
		}
	}
	return
}

// lemmaAxiom is the universally quantified statement.
func lemmaAxiom(p *Prog, sf *SpecFile, lm *Lemma) (string, error) {
	x := newExec(p, sf)
	return x.guard(func() string {
		decl, _, _, e := x.lemmaTerms(p, sf, lm)
		req, ens := "true", "true"
		for _, c := range lm.Requires {
			req = and(req, e.term(c.E))
		}
		for _, c := range lm.Ensures {
			ens = and(ens, e.term(c.E))
		}
		pats := ""
		for _, tr := range lm.Trig {
			var ts []string
			for _, t := range tr {
				ts = append(ts, e.term(t))
			}
			pats += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		b := implies(req, ens)
		if len(decl) == 0 {
			return b
		}
		if pats != "" {
			b = "(! " + b + pats + ")"
		}
		return "(forall (" + strings.Join(decl, " ") + ") " + b + ")"
	})
}

// verifyLemma produces the obligation of a lemma (with its induction hypothesis).
func verifyLemma(p *Prog, sf *SpecFile, lm *Lemma) *Exec {
	x := newExec(p, sf)
	x.fnName = "lemma " + lm.Name
	_, err := x.guard(func() string {
		st := newState()
		vars := map[string]tv{}
		e := &ev{x: x, st: st, vars: vars}
		if sp, ok := p.pkgs[lm.Pkg]; ok {
			e.pkg = sp.Pkg
		}
		for _, q := range lm.Params {
			so, t := e.quantSort(q.Typ)
			n := x.fresh("l_"+q.Name, so)
			if t != nil {
				vars[q.Name] = tv{v: unflatten(t, []string{n}), t: t}
			} else {
				vars[q.Name] = logical(n, so)
			}
		}
		for _, c := range lm.Requires {
			x.assume(st, e.term(c.E))
		}
		if lm.Induct != "" {
			// induction hypothesis for the predecessor of the induction variable
			iv, ok := vars[lm.Induct]
			if !ok {
				panic(everr("induction variable %s", lm.Induct))
			}
			from := "0"
			if lm.From != "" {
				fe, err := parseExpr(lm.From)
				if err != nil {
					panic(everr("%v", err))
				}
				from = e.term(fe)
			}
			t := e.scalar(iv)
			h := e.with(lm.Induct, logical(sub(t, "1"), "Int"))
			var decl []string
			for _, g := range lm.General {
				gv := vars[g]
				x.nfresh++
				q := fmt.Sprintf("q_%s_%d", g, x.nfresh)
				so := e.sortOf(gv)
				decl = append(decl, "("+q+" "+so+")")
				if gv.t != nil {
					h = h.with(g, tv{v: unflatten(gv.t, []string{q}), t: gv.t})
				} else {
					h = h.with(g, logical(q, so))
				}
			}
			req, ens := "true", "true"
			for _, c := range lm.Requires {
				req = and(req, h.term(c.E))
			}
			for _, c := range lm.Ensures {
				ens = and(ens, h.term(c.E))
			}
			body := implies(req, ens)
			if len(decl) > 0 {
				pats := ""
				for _, tr := range lm.Trig {
					var ts []string
					for _, t := range tr {
						ts = append(ts, h.term(t))
					}
					pats += " :pattern (" + strings.Join(ts, " ") + ")"
				}
				if pats != "" {
					body = "(! " + body + pats + ")"
				}
				body = "(forall (" + strings.Join(decl, " ") + ") " + body + ")"
			}
			// the base case needs the statement without the hypothesis
			x.assume(st, implies(lt(from, t), body))
		}
		for i, c := range lm.Hints {
			if g, ok := e.lemmaInst(c.E, lm.Name); ok {
				x.assume(st, g)
				continue
			}
			x.assert(st, e.term(c.E), "lemma", fmt.Sprintf("hint %d: %s", i+1, clauseName(c, i)), token.NoPos)
		}
		for i, c := range lm.Ensures {
			x.assert(st, e.term(c.E), "lemma", "lemma "+lm.Name+": "+clauseName(c, i), token.NoPos)
		}
		return ""
	})
	if err != nil {
		x.obls = append(x.obls, &Obligation{Func: x.fnName, Kind: "binding", Name: "lemma does not evaluate: " + err.Error(), Goal: "false", Status: "failed", Output: err.Error(), x: x})
	}
	return x
}

var _ = types.Typ
