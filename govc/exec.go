package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Func  string
	Name  string
	Kind  string
	Pos   string
	Goal  string
	Facts *FactNode
	Extra []string
	// result
	tried  bool   // given to the solvers
	Status string // "proved","trivial","failed","unknown"
	Solver string
	Ms     int64
	Output string
	file   string
	id     int
	x      *Exec
}

type Frame struct {
	id      string
	fn      *ssa.Function
	parent  *Frame
	ret     func(st *State, res []Val)
	loops   map[*ssa.BasicBlock]*loopInfo
	depth   int
	bind    map[string]Val // formal spec parameter names (top frame)
	lastBlk *ssa.BasicBlock
	alias   map[string]string // caller variable handed in and assigned from the result -> parameter
}

type loopInfo struct {
	hdr    *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type LoopCtx struct {
	parent    *LoopCtx
	fr        *Frame
	li        *loopInfo
	spec      *LoopSpec
	pre       *State
	head      *State
	k         string
	dry       bool
	mods      *Mods
	headFresh int
	wlog0     *WNode
	dec       []string
	auto      []autoInd
}

type Mods struct {
	Keys    map[string]map[string]bool // key -> roots ("" = top)
	Locals  map[string]bool
	Alloc   bool
	n       int
	carried []*carried
}

func newMods() *Mods {
	return &Mods{Keys: map[string]map[string]bool{}, Locals: map[string]bool{}}
}

func (m *Mods) addKey(k, r string) {
	if m.Keys[k] == nil {
		m.Keys[k] = map[string]bool{}
	}
	if !m.Keys[k][r] && !m.Keys[k][""] {
		if r == "" {
			m.Keys[k] = map[string]bool{"": true}
		} else {
			m.Keys[k][r] = true
		}
		m.n++
	}
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	ins  *ssa.Defer
}

type Exec struct {
	allowedC    map[string]map[string]bool
	allowedCt   *Contract
	p           *Prog
	sf          *SpecFile
	nfresh      int
	decls       map[string]string
	defs        map[string]string
	hkeys       map[string]hkey
	hkeyOrd     []string
	initHeap    map[string]string
	initFacts   []string
	isAlloc     map[string]int
	paramRef    map[string]int
	dtypes      map[string]string
	dtypeOrd    []string
	mapKeyKind  map[string]string
	obls        []*Obligation
	ct          *Contract
	fnName      string
	topFn       *ssa.Function
	oldSt       *State
	dry         int
	curCall     ssa.CallInstruction
	mcache      map[string]*Mods
	steps       int
	top         *Frame
	defers      map[*Frame][]deferred
	oblNames    map[string]int
	usedExt     map[string]bool
	inlined     map[string]bool
	uif         map[string]string // uninterpreted function decls
	uifOrd      []string
	returns     int
	retFacts    []*FactNode
	rets        []retInfo
	loopOrds    map[string]int
	loopPhis    map[int][]string // integer variables of loop N
	hintN       int
	errs        map[string]bool
	globalsInit map[string]bool
}

type retInfo struct {
	st  *State
	res []Val
}

func newExec(p *Prog, sf *SpecFile) *Exec {
	return &Exec{p: p, sf: sf, decls: map[string]string{"alloc!0": "Int"}, defs: map[string]string{}, hkeys: map[string]hkey{}, initHeap: map[string]string{},
		isAlloc: map[string]int{}, paramRef: map[string]int{}, dtypes: map[string]string{}, mapKeyKind: map[string]string{}, mcache: map[string]*Mods{}, oblNames: map[string]int{},
		usedExt: map[string]bool{}, inlined: map[string]bool{}, uif: map[string]string{}, loopOrds: map[string]int{}, loopPhis: map[int][]string{}, errs: map[string]bool{}}
}

func newState() *State {
	return &State{heap: map[string]string{}, locals: map[string]Val{}, localT: map[string]types.Type{}, env: map[envKey]Val{}, names: map[*Frame]map[string]nameBind{}, alloc: "alloc!0"}
}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.p.fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, x.p.repo+"/"); i >= 0 {
		f = f[i+len(x.p.repo)+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// assert records a proof obligation and then assumes it.
func (x *Exec) assert(st *State, goal, kind, name string, pos token.Pos) {
	if x.dry > 0 {
		x.assume(st, goal)
		return
	}
	if goal == "true" {
		return
	}
	if x.sf.Opts["partial"] != "" {
		// partial correctness: an execution that panics is not continued
		switch kind {
		case "bounds", "nil", "div", "typeassert", "panic":
			x.assume(st, goal)
			return
		}
	}
	if cs := conjuncts(goal); len(cs) > 1 {
		for i, a := range cs {
			x.assert(st, a, kind, fmt.Sprintf("%s.%d", name, i+1), pos)
		}
		return
	}
	if st.knows(goal) {
		return
	}
	o := &Obligation{Func: x.fnName, Kind: kind, Name: name, Pos: x.posOf(pos), Goal: goal, Facts: st.facts, x: x}
	x.obls = append(x.obls, o)
	x.assume(st, goal)
}

func conjuncts(g string) []string {
	if op, args, ok := splitApp(g); ok && op == "and" && len(args) > 1 {
		var r []string
		for _, a := range args {
			r = append(r, conjuncts(a)...)
		}
		return r
	}
	return []string{g}
}

func (x *Exec) fail(st *State, kind, name string, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	x.obls = append(x.obls, &Obligation{Func: x.fnName, Kind: kind, Name: name, Pos: x.posOf(pos), Goal: "false", Facts: st.facts, x: x})
}

// ---------- values ----------

func (x *Exec) get(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return Pt{LV: &LV{Kind: "global", Key: globalName(c), Root: c.Type().(*types.Pointer).Elem(), T: c.Type().(*types.Pointer).Elem()}}
	case *ssa.Function:
		return Fn{F: c, T: x.funcConst(c)}
	case *ssa.Builtin:
		return c
	}
	if r, ok := st.env[envKey{fr, v}]; ok {
		return r
	}
	panic(unsupported("value %s of %s not available", v.Name(), fr.fn))
}

func globalName(g *ssa.Global) string {
	p := ""
	if g.Pkg != nil {
		p = g.Pkg.Pkg.Path()
		p = p[strings.LastIndex(p, "/")+1:] + "."
	}
	return p + g.Name()
}

func (x *Exec) funcConst(f *ssa.Function) string {
	n := "fn_" + sanitize(f.String())
	if _, ok := x.decls[n]; !ok {
		x.decls[n] = "Int"
	}
	return n
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return Sc{"true", "Bool"}
		}
		return Sc{"false", "Bool"}
	case constant.String:
		s := constant.StringVal(c.Value)
		if s == "" {
			return Sc{"str_empty", "Str"}
		}
		n := x.strConst(s)
		return Sc{n, "Str"}
	case constant.Int, constant.Float:
		if sortOf(t) == fltSort {
			return Sc{x.fltConst(c.Value), fltSort}
		}
		iv := constant.ToInt(c.Value)
		s := iv.ExactString()
		if strings.HasPrefix(s, "-") {
			s = "(- " + s[1:] + ")"
		}
		return Sc{s, "Int"}
	}
	panic(unsupported("constant %s", c))
}

var strConsts = map[string]string{}
var strOrder []string

func (x *Exec) strConst(s string) string {
	if n, ok := strConsts[s]; ok {
		return n
	}
	n := fmt.Sprintf("str_%d", len(strOrder)+1)
	strConsts[s] = n
	strOrder = append(strOrder, s)
	return n
}

var fltConsts = map[string]string{}
var fltOrder []string

func (x *Exec) fltConst(v constant.Value) string {
	if fltSort == "Real" {
		r := constant.ToFloat(v)
		n, d := constant.Num(r), constant.Denom(r)
		s := n.ExactString()
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimPrefix(s, "-")
		e := "(/ " + s + ".0 " + d.ExactString() + ".0)"
		if neg {
			e = "(- " + e + ")"
		}
		return e
	}
	s := v.ExactString()
	if s == "0" {
		return "flt_zero"
	}
	if n, ok := fltConsts[s]; ok {
		return n
	}
	n := fmt.Sprintf("flt_c%d", len(fltOrder)+1)
	fltConsts[s] = n
	fltOrder = append(fltOrder, s)
	return n
}

// uf declares (once) and applies an uninterpreted function.
func (x *Exec) uf(name string, args []string, asorts []string, ret string) string {
	name = sanitize(name)
	if _, ok := x.uif[name]; !ok {
		x.uif[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(asorts, " "), ret)
		x.uifOrd = append(x.uifOrd, name)
	}
	return app(name, args...)
}

// ---------- loops ----------

func findLoops(fn *ssa.Function) []*loopInfo {
	byHdr := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				li := byHdr[s]
				if li == nil {
					li = &loopInfo{hdr: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHdr[s] = li
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.blocks[n] {
						continue
					}
					li.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	var r []*loopInfo
	for _, l := range byHdr {
		r = append(r, l)
	}
	minIdx := func(l *loopInfo) int {
		m := 1 << 30
		for b := range l.blocks {
			if b.Index < m {
				m = b.Index
			}
		}
		return m
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := minIdx(r[i]), minIdx(r[j])
		if a != b {
			return a < b
		}
		return len(r[i].blocks) > len(r[j].blocks)
	})
	return r
}

// numberLoops assigns loop ordinals over a function and everything inlined into it.
func (x *Exec) numberLoops(fn *ssa.Function, id string, n *int, depth int) {
	if depth > 8 {
		return
	}
	type item struct {
		blk, ins int
		loop     *loopInfo
		call     ssa.CallInstruction
		size     int
	}
	var items []item
	for _, l := range findLoops(fn) {
		m := 1 << 30
		for b := range l.blocks {
			if b.Index < m {
				m = b.Index
			}
		}
		items = append(items, item{blk: m, ins: -1, loop: l, size: len(l.blocks)})
	}
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && x.willInline(f) {
					items = append(items, item{blk: b.Index, ins: i, call: c})
				}
			}
		}
	}
	sort.SliceStable(items, func(i, j int) bool {
		a, b := items[i], items[j]
		if a.blk != b.blk {
			return a.blk < b.blk
		}
		if a.ins != b.ins {
			return a.ins < b.ins
		}
		return a.size > b.size
	})
	for _, it := range items {
		if it.loop != nil {
			*n++
			x.loopOrds[fmt.Sprintf("%s@%d", id, it.loop.hdr.Index)] = *n
			for _, ins := range it.loop.hdr.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if t, ok := p.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 && token.IsIdentifier(p.Comment) && p.Comment != "rangeindex" {
					x.loopPhis[*n] = append(x.loopPhis[*n], p.Comment)
				}
			}
			continue
		}
		f := x.bodyFor(it.call.Common().StaticCallee())
		if f == nil {
			continue
		}
		x.numberLoops(f, fmt.Sprintf("%s/%d.%d", id, it.blk, it.ins), n, depth+1)
	}
}

func (x *Exec) bodyOf(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if len(f.Blocks) > 0 {
		return f
	}
	if o := f.Origin(); o != nil && len(o.Blocks) > 0 {
		for _, t := range f.TypeArgs() {
			if !isTypeParam(t) {
				return nil // the body of the generic function names other heaps
			}
		}
		return o
	}
	return nil
}

func (x *Exec) willInline(f *ssa.Function) bool {
	if x.p.contractFor(x.sf, f) != nil {
		return false
	}
	b := x.bodyFor(f)
	if b == nil {
		return false
	}
	return x.p.inModule(b)
}

func (x *Exec) newFrame(fn *ssa.Function, id string, parent *Frame) *Frame {
	fr := &Frame{id: id, fn: fn, parent: parent, loops: map[*ssa.BasicBlock]*loopInfo{}}
	for _, l := range findLoops(fn) {
		l.ord = x.loopOrds[fmt.Sprintf("%s@%d", id, l.hdr.Index)]
		fr.loops[l.hdr] = l
	}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	return fr
}

func (x *Exec) goTo(st *State, fr *Frame, to, from *ssa.BasicBlock) {
	x.steps++
	if x.steps > 400000 {
		panic(unsupported("path explosion"))
	}
	// leaving loops of this frame
	for st.loops != nil && st.loops.fr == fr && !st.loops.li.blocks[to] {
		if st.loops.dry {
			return
		}
		st.leaveLoop()
	}
	if li := fr.loops[to]; li != nil {
		if st.loops != nil && st.loops.fr == fr && st.loops.li == li {
			x.backEdge(st, fr, li, from)
			return
		}
		x.enterLoop(st, fr, li, from)
		return
	}
	x.phis(st, fr, to, from)
	x.runFrom(st, fr, to, x.firstNonPhi(to))
}

func (x *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(to, from *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	panic("pred")
}

func (x *Exec) phis(st *State, fr *Frame, to, from *ssa.BasicBlock) {
	var vals []Val
	var ps []*ssa.Phi
	pi := -1
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			pi = predIndex(to, from)
		}
		ps = append(ps, p)
		vals = append(vals, x.get(st, fr, p.Edges[pi]))
	}
	for i, p := range ps {
		st.env[envKey{fr, p}] = vals[i]
		if p.Comment != "" {
			x.bindName(st, fr, p.Comment, vals[i], false, p.Type(), p)
		}
	}
}

func (x *Exec) bindName(st *State, fr *Frame, name string, v Val, addr bool, t types.Type, sv ssa.Value) {
	m := st.names[fr]
	if m == nil {
		m = map[string]nameBind{}
		st.names[fr] = m
	}
	m[name] = nameBind{v: sv, val: v, addr: addr, typ: t}
}

type autoInd struct {
	phi  *ssa.Phi
	step string
}

// inductionStep: phi = phi + c on every back edge.
func inductionStep(p *ssa.Phi, li *loopInfo) (string, bool) {
	step := ""
	for i, e := range p.Edges {
		if !li.blocks[p.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return "", false
		}
		if b.X != ssa.Value(p) {
			return "", false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return "", false
		}
		if k := intKind(p.Type()); k != "int" {
			return "", false
		}
		s := c.Value.ExactString()
		if b.Op == token.SUB {
			s = "-" + s
			if strings.HasPrefix(s, "--") {
				s = s[2:]
			}
		}
		if strings.HasPrefix(s, "-") {
			s = "(- " + s[1:] + ")"
		}
		if step != "" && step != s {
			return "", false
		}
		step = s
	}
	return step, step != ""
}

func (x *Exec) enterLoop(st *State, fr *Frame, li *loopInfo, from *ssa.BasicBlock) {
	var spec *LoopSpec
	if x.ct != nil {
		spec = x.ct.Loops[li.ord]
	}
	if spec == nil {
		spec = &LoopSpec{N: li.ord}
	}
	x.phis(st, fr, li.hdr, from)
	pre := st.clone()
	ctx0 := &LoopCtx{parent: st.loops, fr: fr, li: li, spec: spec, pre: pre, head: pre, k: "0"}
	st.loops = ctx0
	pos := li.hdr.Instrs[0].Pos()
	for _, p := range posCandidates(li.hdr) {
		pos = p
		break
	}
	for _, c := range spec.Clauses {
		if c.Kind == "ghost" {
			x.loopGhost(st, fr, ctx0, c)
		}
		if c.Kind == "start" {
			x.hintAssert(st, fr, ctx0, c, fmt.Sprintf("assertion before loop %d", li.ord))
		}
	}
	x.loopCheck(st, fr, ctx0, "0", "established", pos)
	x.fixIters(st, fr, li)
	// the locations a loop changes are named by terms of the path that reaches
	// it, so they are computed afresh for every path
	mods := newMods()
	for _, c := range carriedVars(li) {
		if x.carriedOK(st, fr, c) {
			mods.carried = append(mods.carried, c)
		}
	}
	for round := 0; round < 30; round++ {
		n := mods.n
		x.dry++
		s2 := st.clone()
		x.runLoop(s2, fr, li, spec, pre, mods, true)
		x.dry--
		if mods.n == n {
			break
		}
		if round == 29 {
			panic(unsupported("the locations changed by a loop could not be determined"))
		}
	}
	x.runLoop(st, fr, li, spec, pre, mods, false)
}

func loopStackKey(c *LoopCtx) string {
	// number of enclosing dry loops and identity of them
	s := ""
	for ; c != nil; c = c.parent {
		if c.dry {
			s += "d"
			// modsets grow between rounds: include the size
			s += fmt.Sprint(c.mods.n)
		} else {
			s += "r"
		}
	}
	return s
}

func posCandidates(b *ssa.BasicBlock) []token.Pos {
	var r []token.Pos
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			r = append(r, i.Pos())
		}
	}
	return r
}

func (x *Exec) fixIters(st *State, fr *Frame, li *loopInfo) {}

func (x *Exec) runLoop(st *State, fr *Frame, li *loopInfo, spec *LoopSpec, pre *State, mods *Mods, dry bool) {
	ctx := &LoopCtx{parent: st.loops.parent, fr: fr, li: li, spec: spec, pre: pre, dry: dry, mods: mods}
	ctx.headFresh = x.nfresh
	x.nfresh++
	for fs, i := x.loopFrames(st, ctx), 0; i == 0; i++ {
		for _, k := range sortedKeys(fs) {
			x.assert(st, fs[k], "frame", fmt.Sprintf("loop %d: only listed locations changed before it: %s", li.ord, k), token.NoPos)
		}
	}
	// havoc
	if mods.Alloc {
		na := x.fresh("alloc", "Int")
		x.assume(st, le(st.alloc, na))
		st.alloc = na
	}
	var keys []string
	for k := range mods.Keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		hk := x.hkeys[k]
		roots := mods.Keys[k]
		var rs []string
		for r := range roots {
			rs = append(rs, r)
		}
		sort.Strings(rs)
		if hk.Kind == "G" || hk.Kind == "$" && !strings.HasPrefix(hk.Sort, "(Array") || roots[""] {
			n := x.fresh(k, hk.Sort)
			st.heap[k] = n
			for _, f := range x.wfHeap(hk, n, st.alloc) {
				x.assume(st, f)
			}
			if hk.Kind == "G" {
				x.wlogAdd(st, k, "global")
			} else {
				x.wlogAdd(st, k, "")
			}
			continue
		}
		_, es := arraySorts(hk.Sort)
		h := x.hget(st, k)
		for _, r := range rs {
			f := x.fresh(k+".hv", es)
			h = store(h, r, f)
			x.wlogAdd(st, k, r)
		}
		x.hset(st, k, h)
		for _, f := range x.wfHeap(hk, st.heap[k], st.alloc) {
			x.assume(st, f)
		}
	}
	var ls []string
	for l := range mods.Locals {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		if _, live := st.locals[l]; !live {
			continue
		}
		if t, ok := st.localT[l]; ok {
			st.locals[l] = x.freshVal(st, "loc", t)
		} else if sc, ok := st.locals[l].(Sc); ok {
			st.locals[l] = Sc{x.fresh("loc", sc.S), sc.S}
		} else {
			panic(unsupported("havoc of local %s", l))
		}
		x.wlogAdd(st, "L:"+l, "local")
	}
	ctx.k = x.fresh("k", "Int")
	x.assume(st, le("0", ctx.k))
	for _, ins := range li.hdr.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		init := st.env[envKey{fr, p}]
		v := x.freshVal(st, nameOr(p.Comment, p.Name()), p.Type())
		st.env[envKey{fr, p}] = v
		if p.Comment != "" {
			x.bindName(st, fr, p.Comment, v, false, p.Type(), p)
		}
		if stp, ok := inductionStep(p, li); ok {
			x.assume(st, eq(v.(Sc).T, add(init.(Sc).T, mul(stp, ctx.k))))
		}
	}
	st.loops = ctx
	ctx.wlog0 = st.wlog
	ctx.head = nil
	for _, c := range mods.carried {
		if t := x.carriedValue(st, fr, c); t != "" {
			x.assume(st, eq(st.env[envKey{fr, c.phi}].(Sc).T, t))
		}
	}
	// assume invariants
	x.loopAssume(st, fr, ctx)
	ctx.head = st.clone()
	for _, c := range spec.Clauses {
		if c.Kind == "decreases" {
			if v, err := x.evalTop(st, fr, ctx, c.E, nil); err == nil {
				ctx.dec = append(ctx.dec, v)
			} else {
				x.bindErr(st, c, err, li.hdr)
			}
		}
	}
	for _, c := range spec.Clauses {
		if c.Kind == "head" {
			x.hintAssert(st, fr, ctx, c, "head hint")
		}
	}
	x.runFrom(st, fr, li.hdr, x.firstNonPhi(li.hdr))
}

func nameOr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func (x *Exec) bindErr(st *State, c Clause, err error, b *ssa.BasicBlock) {
	if x.dry > 0 {
		return
	}
	key := c.Kind + c.Src + err.Error()
	if x.errs[key] {
		return
	}
	x.errs[key] = true
	var p token.Pos
	if b != nil {
		for _, q := range posCandidates(b) {
			p = q
			break
		}
	}
	o := &Obligation{Func: x.fnName, Kind: "binding", Name: fmt.Sprintf("%s clause does not bind to the code: %v [%s]", c.Kind, err, c.Src), Pos: x.posOf(p), Goal: "false", x: x, Status: "failed", Output: err.Error()}
	x.obls = append(x.obls, o)
}

func clauseName(c Clause, i int) string {
	if c.Name != "" {
		return c.Name
	}
	s := strings.Join(strings.Fields(c.Src), " ")
	if len(s) > 70 {
		s = s[:70] + "..."
	}
	return s
}

func (x *Exec) loopCheck(st *State, fr *Frame, ctx *LoopCtx, k, what string, pos token.Pos) {
	for i, c := range ctx.spec.Clauses {
		if c.Kind != "invariant" {
			continue
		}
		sv := ctx.k
		ctx.k = k
		g, err := x.evalTop(st, fr, ctx, c.E, nil)
		ctx.k = sv
		if err != nil {
			x.bindErr(st, c, err, ctx.li.hdr)
			continue
		}
		x.assert(st, g, "invariant "+what, fmt.Sprintf("loop %d invariant %s: %s", ctx.li.ord, what, clauseName(c, i)), pos)
	}
	for _, g := range x.autoBounds(st, fr, ctx) {
		x.assert(st, g, "invariant "+what, fmt.Sprintf("loop %d automatic bound %s", ctx.li.ord, what), pos)
	}
}

func (x *Exec) loopAssume(st *State, fr *Frame, ctx *LoopCtx) {
	for _, g := range x.autoBounds(st, fr, ctx) {
		x.assume(st, g)
	}
	fs := x.loopFrames(st, ctx)
	for _, k := range sortedKeys(fs) {
		x.assume(st, fs[k])
	}
	for _, c := range ctx.spec.Clauses {
		if c.Kind != "invariant" {
			continue
		}
		g, err := x.evalTop(st, fr, ctx, c.E, nil)
		if err != nil {
			x.bindErr(st, c, err, ctx.li.hdr)
			continue
		}
		x.assume(st, g)
	}
}

// autoBounds: for headers of the form "if i < N" (<=, >, >=) with i moving towards N
// by one and N loop-independent, i stays between its initial value and N.
func (x *Exec) autoBounds(st *State, fr *Frame, ctx *LoopCtx) []string {
	h := ctx.li.hdr
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if !ctx.li.blocks[h.Succs[0]] || ctx.li.blocks[h.Succs[1]] {
		return nil
	}
	b, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || b.Block() != h {
		return nil
	}
	switch b.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return nil
	}
	up := b.Op == token.LSS || b.Op == token.LEQ
	var phi *ssa.Phi
	off := "0"
	switch l := b.X.(type) {
	case *ssa.Phi:
		phi = l
	case *ssa.BinOp: // rangeindex: t = phi + 1
		if l.Op == token.ADD && l.Block() == h {
			if p, ok := l.X.(*ssa.Phi); ok {
				if c, ok := l.Y.(*ssa.Const); ok && c.Value.ExactString() == "1" {
					phi, off = p, "1"
				}
			}
		}
	}
	if phi == nil || phi.Block() != h {
		return nil
	}
	if s, ok := inductionStep2(phi, ctx.li, off); !ok || up && s != "1" || !up && s != "(- 1)" {
		return nil
	}
	n := x.boundTerm(st, fr, ctx, b.Y)
	if n == "" || n != x.boundTerm(ctx.pre, fr, ctx, b.Y) {
		return nil
	}
	iv, ok := ctx.pre.env[envKey{fr, phi}]
	if !ok {
		return nil
	}
	cv, ok := st.env[envKey{fr, phi}]
	if !ok {
		return nil
	}
	init, cur := iv.(Sc).T, cv.(Sc).T
	switch b.Op {
	case token.LEQ:
		return []string{le(init, cur), or(le(add(cur, off), add(n, "1")), eq(cur, init))}
	case token.GTR:
		return []string{le(cur, init), or(le(n, cur), eq(cur, init))}
	case token.GEQ:
		return []string{le(cur, init), or(le(n, add(cur, "1")), eq(cur, init))}
	}
	return []string{le(init, cur), or(le(add(cur, off), n), eq(cur, init))}
}

// boundTerm: the value of a loop bound, whose computation may be part of the loop header.
func (x *Exec) boundTerm(st *State, fr *Frame, ctx *LoopCtx, v ssa.Value) (t string) {
	var order []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if _, ok := v.(*ssa.Const); ok || seen[v] {
			return true
		}
		if v.Parent() != fr.fn {
			_, g := v.(*ssa.Global)
			return g
		}
		ins, ok := v.(ssa.Instruction)
		if !ok || !ctx.li.blocks[ins.Block()] {
			_, there := st.env[envKey{fr, v}]
			return there
		}
		if ins.Block() != ctx.li.hdr || len(order) > 12 {
			return false
		}
		switch in := v.(type) {
		case *ssa.UnOp:
			if in.Op == token.ARROW || !walk(in.X) {
				return false
			}
		case *ssa.FieldAddr:
			if !walk(in.X) {
				return false
			}
		case *ssa.Convert:
			if !walk(in.X) {
				return false
			}
		case *ssa.BinOp:
			if in.Op != token.ADD && in.Op != token.SUB || !walk(in.X) || !walk(in.Y) {
				return false
			}
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" || !walk(in.Call.Args[0]) {
				return false
			}
		default:
			return false
		}
		seen[v] = true
		order = append(order, ins)
		return true
	}
	if !walk(v) {
		return ""
	}
	if len(order) == 0 {
		sc, ok := x.get(st, fr, v).(Sc)
		if !ok {
			return ""
		}
		return sc.T
	}
	x.dry++
	defer func() {
		x.dry--
		if r := recover(); r != nil {
			t = ""
		}
	}()
	s := st.clone()
	for _, ins := range order {
		if c, ok := ins.(*ssa.Call); ok {
			sl, ok := x.get(s, fr, c.Call.Args[0]).(Sl)
			if !ok {
				return ""
			}
			x.set(s, fr, c, Sc{sl.Len, "Int"})
			continue
		}
		x.simple(s, fr, ins)
	}
	if sc, ok := x.get(s, fr, v).(Sc); ok {
		return sc.T
	}
	return ""
}

func inductionStep2(p *ssa.Phi, li *loopInfo, off string) (string, bool) {
	if s, ok := inductionStep(p, li); ok {
		return s, true
	}
	return "", false
}

func (x *Exec) backEdge(st *State, fr *Frame, li *loopInfo, from *ssa.BasicBlock) {
	ctx := st.loops
	x.phis(st, fr, li.hdr, from)
	for _, c := range ctx.spec.Clauses {
		if c.Kind == "backghost" {
			x.loopGhost(st, fr, ctx, c)
		}
	}
	for i := 0; i < len(ctx.mods.carried); i++ {
		c := ctx.mods.carried[i]
		if x.carriedOK(st, fr, c) {
			continue
		}
		if !ctx.dry {
			x.assert(st, eq(st.env[envKey{fr, c.phi}].(Sc).T, x.carriedValue(st, fr, c)), "invariant preserved", fmt.Sprintf("loop %d: %s keeps the value of its expression", li.ord, c.phi.Comment), token.NoPos)
			continue
		}
		ctx.mods.carried = append(append([]*carried{}, ctx.mods.carried[:i]...), ctx.mods.carried[i+1:]...)
		ctx.mods.n++
		i--
	}
	if ctx.dry {
		m := ctx.mods
		for w := st.wlog; w != nil && w != ctx.wlog0; w = w.Prev {
			if strings.HasPrefix(w.Key, "L:") {
				l := w.Key[2:]
				if _, live := ctx.head.locals[l]; live && !m.Locals[l] {
					m.Locals[l] = true
					m.n++
				}
				continue
			}
			if w.Root == "global" {
				m.addKey(w.Key, "global")
				continue
			}
			if w.Root == "" {
				m.addKey(w.Key, "")
				continue
			}
			if n := x.isAlloc[w.Root]; n > ctx.headFresh {
				continue
			}
			if maxFresh(w.Root) <= ctx.headFresh {
				m.addKey(w.Key, w.Root)
			} else {
				m.addKey(w.Key, "")
			}
		}
		if st.alloc != ctx.head.alloc && !m.Alloc {
			m.Alloc = true
			m.n++
		}
		return
	}
	var pos token.Pos
	for _, p := range posCandidates(li.hdr) {
		pos = p
		break
	}
	for _, c := range ctx.spec.Clauses {
		if c.Kind == "back" {
			x.hintAssert(st, fr, ctx, c, "assertion at end of loop body")
		}
	}
	x.loopCheck(st, fr, ctx, add(ctx.k, "1"), "preserved", pos)
	fs := x.loopFrames(st, ctx)
	for _, k := range sortedKeys(fs) {
		x.assert(st, fs[k], "frame", fmt.Sprintf("loop %d changes only listed locations: %s", li.ord, k), token.NoPos)
	}
	if len(ctx.dec) > 0 {
		// lexicographic, all bounded below by 0
		var news []string
		for _, c := range ctx.spec.Clauses {
			if c.Kind == "decreases" {
				v, err := x.evalTop(st, fr, ctx, c.E, nil)
				if err != nil {
					x.bindErr(st, c, err, li.hdr)
					return
				}
				news = append(news, v)
			}
		}
		g := "false"
		for i := len(news) - 1; i >= 0; i-- {
			g = or(and(lt(news[i], ctx.dec[i]), le("0", ctx.dec[i])), and(eq(news[i], ctx.dec[i]), g))
		}
		x.assert(st, g, "termination", fmt.Sprintf("loop %d measure decreases", li.ord), pos)
	}
}

func (x *Exec) hintAssert(st *State, fr *Frame, ctx *LoopCtx, c Clause, what string) {
	if x.lemmaHint(st, fr, ctx, c, nil) {
		return
	}
	g, err := x.evalTop(st, fr, ctx, c.E, nil)
	if err != nil {
		x.bindErr(st, c, err, nil)
		return
	}
	ord := 0
	if ctx != nil {
		ord = ctx.li.ord
	}
	x.assert(st, g, "assert", fmt.Sprintf("%s (loop %d): %s", what, ord, clauseName(c, 0)), token.NoPos)
}

// loopGhost performs a ghost update of a loop.
func (x *Exec) loopGhost(st *State, fr *Frame, ctx *LoopCtx, c Clause) {
	v, err := x.evalTop(st, fr, ctx, c.E, nil)
	if err != nil {
		x.bindErr(st, c, err, nil)
		return
	}
	x.hset(st, x.ghostKey(c.Name), v)
	x.wlogAdd(st, x.ghostKey(c.Name), "")
}
