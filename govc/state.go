package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type FactNode struct {
	Prev *FactNode
	F    string
	N    int
}

type WNode struct {
	Prev *WNode
	Key  string
	Root string // "" = anywhere (top)
	N    int
}

type envKey struct {
	fr *Frame
	v  ssa.Value
}

type State struct {
	heap   map[string]string
	locals map[string]Val
	localT map[string]types.Type
	env    map[envKey]Val
	names  map[*Frame]map[string]nameBind
	facts  *FactNode
	wlog   *WNode
	alloc  string
	loops  *LoopCtx
	done   *LoopCtx // loops left so far, most recent first
	trace  []string
	gen    string
	spawned bool // inside a goroutine whose preconditions are being checked
}

type nameBind struct {
	v    ssa.Value
	val  Val
	addr bool
	typ  types.Type
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]string, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.locals = make(map[string]Val, len(s.locals))
	for k, v := range s.locals {
		n.locals[k] = v
	}
	n.env = make(map[envKey]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.names = make(map[*Frame]map[string]nameBind, len(s.names))
	for k, v := range s.names {
		m := make(map[string]nameBind, len(v))
		for a, b := range v {
			m[a] = b
		}
		n.names[k] = m
	}
	n.trace = append([]string{}, s.trace...)
	return &n
}

func (x *Exec) assume(st *State, f string) {
	if f == "true" {
		return
	}
	if op, args, ok := splitApp(f); ok && op == "and" {
		for _, a := range args {
			x.assume(st, a)
		}
		return
	}
	n := 0
	if st.facts != nil {
		n = st.facts.N + 1
	}
	st.facts = &FactNode{st.facts, f, n}
}

func factList(f *FactNode) []string {
	var r []string
	for ; f != nil; f = f.Prev {
		r = append(r, f.F)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (st *State) knows(f string) bool {
	for n := st.facts; n != nil; n = n.Prev {
		if n.F == f {
			return true
		}
	}
	return false
}

// ---------- fresh symbols ----------

func (x *Exec) fresh(hint, sort string) string {
	x.nfresh++
	n := fmt.Sprintf("%s!%d", sanitize(hint), x.nfresh)
	x.decls[n] = sort
	return n
}

var freshRe = regexp.MustCompile(`!(\d+)`)

// maxFresh is the largest fresh-symbol number occurring in a term.
func maxFresh(t string) int {
	m := -1
	for _, g := range freshRe.FindAllStringSubmatch(t, -1) {
		n, _ := strconv.Atoi(g[1])
		if n > m {
			m = n
		}
	}
	return m
}

func (x *Exec) freshVal(st *State, hint string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var r Tup
		for i := 0; i < tp.Len(); i++ {
			r = append(r, x.freshVal(st, fmt.Sprintf("%s_%d", hint, i), tp.At(i).Type()))
		}
		return r
	}
	var ts []string
	ls := leaves(t)
	for _, l := range ls {
		ts = append(ts, x.fresh(hint+dot(l.Path), l.Sort))
	}
	v := unflatten(t, ts)
	x.wfVal(st, t, ts, ls)
	return v
}

func dot(p string) string {
	if p == "" {
		return ""
	}
	return "." + p
}

// wfVal assumes the facts every Go value of this type satisfies.
func (x *Exec) wfVal(st *State, t types.Type, ts []string, ls []Leaf) {
	for i, l := range ls {
		x.assume(st, wfLeaf(l, ts[i], st.alloc))
		if l.Kind == "scap" {
			x.assume(st, le(ts[i-1], ts[i]))
			x.assume(st, implies(eq(ts[i-3], "0"), eq(ts[i], "0")))
		}
	}
}

func wfLeaf(l Leaf, t, alloc string) string {
	switch l.Kind {
	case "u8":
		return and(le("0", t), lt(t, "256"))
	case "u16":
		return and(le("0", t), lt(t, "65536"))
	case "u32":
		return and(le("0", t), lt(t, two32))
	case "u64":
		return and(le("0", t), lt(t, two64))
	case "ref", "sarr", "box":
		return and(le("0", t), lt(t, alloc))
	case "soff", "slen":
		return le("0", t)
	case "scap":
		return and(le("0", t), lt(t, two63))
	case "func":
		return le("0", t)
	}
	return "true"
}

// ---------- heap ----------

type hkey struct {
	Key  string
	Sort string // full sort
	Leaf Leaf
	Kind string // F,E,MD,MV,ML,G,$
}

func (x *Exec) regKey(k hkey) string {
	if _, ok := x.hkeys[k.Key]; !ok {
		x.hkeys[k.Key] = k
		x.hkeyOrd = append(x.hkeyOrd, k.Key)
	}
	return k.Key
}

func (x *Exec) fKey(t types.Type, l Leaf) string {
	return x.regKey(hkey{"F:" + tkey(t) + dot(l.Path), "(Array Int " + l.Sort + ")", l, "F"})
}
func (x *Exec) eKey(t types.Type, l Leaf) string {
	return x.regKey(hkey{"E:" + tname(t) + dot(l.Path), "(Array Int (Array Int " + l.Sort + "))", l, "E"})
}
func (x *Exec) mKeySort(m *types.Map) string {
	ls := leaves(m.Key())
	if len(ls) == 1 {
		return ls[0].Sort
	}
	return x.structSort(m.Key(), ls)
}

// structSort declares a datatype for multi-leaf map keys.
func (x *Exec) structSort(t types.Type, ls []Leaf) string {
	n := "K_" + sanitize(tname(t))
	if _, ok := x.dtypes[n]; !ok {
		var fs []string
		for i, l := range ls {
			fs = append(fs, fmt.Sprintf("(%s_%d %s)", n, i, l.Sort))
		}
		x.dtypes[n] = fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", n, n, strings.Join(fs, " "))
		x.dtypeOrd = append(x.dtypeOrd, n)
	}
	return n
}

func (x *Exec) mapKeyTerm(m *types.Map, v Val) string {
	ls := leaves(m.Key())
	fl := flatten(v)
	if len(ls) == 1 {
		return fl[0]
	}
	n := x.structSort(m.Key(), ls)
	return "(mk_" + n + " " + strings.Join(fl, " ") + ")"
}
func (x *Exec) mapKeyVal(m *types.Map, k string) Val {
	ls := leaves(m.Key())
	if len(ls) == 1 {
		return unflatten(m.Key(), []string{k})
	}
	n := x.structSort(m.Key(), ls)
	var ts []string
	for i := range ls {
		ts = append(ts, fmt.Sprintf("(%s_%d %s)", n, i, k))
	}
	return unflatten(m.Key(), ts)
}
func (x *Exec) mdKey(m *types.Map) string {
	if ls := leaves(m.Key()); len(ls) == 1 {
		switch ls[0].Kind {
		case "u8", "u16", "u32", "u64":
			x.mapKeyKind["MD:"+tkey(m)] = ls[0].Kind
		}
	}
	return x.regKey(hkey{"MD:" + tkey(m), "(Array Int (Array " + x.mKeySort(m) + " Bool))", Leaf{"", "Bool", "bool"}, "MD"})
}
func (x *Exec) mlKey(m *types.Map) string {
	return x.regKey(hkey{"ML:" + tkey(m), "(Array Int Int)", Leaf{"", "Int", "slen"}, "ML"})
}
func (x *Exec) mvKey(m *types.Map, l Leaf) string {
	return x.regKey(hkey{"MV:" + tkey(m) + dot(l.Path), "(Array Int (Array " + x.mKeySort(m) + " " + l.Sort + "))", l, "MV"})
}

// hget returns the current term of a heap key, creating the initial version on demand.
func (x *Exec) hget(st *State, key string) string {
	if t, ok := st.heap[key]; ok {
		return t
	}
	// initial version is shared by all states of this verification
	t, ok := x.initHeap[key+st.gen]
	if !ok {
		k := x.hkeys[key]
		if k.Key == "" {
			panic("unknown heap key " + key)
		}
		t = sanitize(key) + st.gen + "!0"
		x.decls[t] = k.Sort
		x.initHeap[key+st.gen] = t
		x.initFacts = append(x.initFacts, x.wfHeap(k, t, "alloc!0")...)
	}
	return t
}

// wfHeap: well-formedness of a whole heap component.
func (x *Exec) wfHeap(k hkey, t, alloc string) []string {
	var out []string
	switch k.Kind {
	case "F":
		s := sel(t, "r")
		f := wfLeaf(k.Leaf, s, alloc)
		if f == "true" {
			return nil
		}
		if k.Leaf.Kind == "ref" || k.Leaf.Kind == "sarr" || k.Leaf.Kind == "box" {
			f = implies(lt("r", alloc), f)
		}
		out = append(out, fmt.Sprintf("(forall ((r Int)) (! %s :pattern (%s)))", f, s))
		if k.Leaf.Kind == "scap" {
			out = append(out, x.sliceRel(k, t)...)
		}
	case "E":
		s := sel(sel(t, "r"), "j")
		f := wfLeaf(k.Leaf, s, alloc)
		if f == "true" {
			return nil
		}
		if k.Leaf.Kind == "ref" || k.Leaf.Kind == "sarr" || k.Leaf.Kind == "box" {
			f = implies(lt("r", alloc), f)
		}
		out = append(out, fmt.Sprintf("(forall ((r Int) (j Int)) (! %s :pattern (%s)))", f, s))
	case "MV":
		ks, _ := arraySorts(k.Sort)
		_ = ks
		_, inner := arraySorts(k.Sort)
		mk, _ := arraySorts(inner)
		s := sel(sel(t, "r"), "j")
		f := wfLeaf(k.Leaf, s, alloc)
		if f == "true" {
			return nil
		}
		if k.Leaf.Kind == "ref" || k.Leaf.Kind == "sarr" || k.Leaf.Kind == "box" {
			f = implies(lt("r", alloc), f)
		}
		out = append(out, fmt.Sprintf("(forall ((r Int) (j %s)) (! %s :pattern (%s)))", mk, f, s))
	case "ML":
		s := sel(t, "r")
		out = append(out, fmt.Sprintf("(forall ((r Int)) (! (<= 0 %s) :pattern (%s)))", s, s))
	case "MD":
		_, inner := arraySorts(k.Sort)
		out = append(out, "(= (select "+t+" 0) "+zeroTerm(inner)+")")
		// keys of unsigned integer maps are in range
		if kk := x.mapKeyKind[k.Key]; kk != "" {
			s := sel(sel(t, "r"), "j")
			f := implies(s, wfLeaf(Leaf{"", "Int", kk}, "j", alloc))
			out = append(out, fmt.Sprintf("(forall ((r Int) (j Int)) (! %s :pattern (%s)))", f, s))
		}
	case "G":
		if f := wfLeaf(k.Leaf, t, alloc); f != "true" {
			out = append(out, f)
		}
	}
	return out
}

func (x *Exec) sliceRel(k hkey, t string) []string {
	return nil
}

// hset installs a new version of a heap key; the term is named.
func (x *Exec) hset(st *State, key, term string) {
	if maxLen := 40; len(term) <= maxLen && !strings.HasPrefix(term, "(") {
		st.heap[key] = term
		return
	}
	k := x.hkeys[key]
	n := x.fresh(key, k.Sort)
	x.defs[n] = term
	x.assume(st, "(= "+n+" "+term+")")
	st.heap[key] = n
}

func (x *Exec) wlogAdd(st *State, key, root string) {
	for w := st.wlog; w != nil; w = w.Prev {
		if st.loops != nil && w == st.loops.wlog0 {
			break
		}
		if w.Key == key && w.Root == root {
			return
		}
	}
	n := 0
	if st.wlog != nil {
		n = st.wlog.N + 1
	}
	st.wlog = &WNode{st.wlog, key, root, n}
}

// rd reads arr[i], looking through named store chains when syntactically decidable.
func (x *Exec) rd(a, i string) string {
	cur := a
	for depth := 0; depth < 400; depth++ {
		t := cur
		if d, ok := x.defs[cur]; ok {
			t = d
		}
		op, args, ok := splitApp(t)
		if !ok || op != "store" || len(args) != 3 {
			if strings.HasPrefix(t, "((as const ") {
				_, ar, _ := splitApp(t)
				return ar[0]
			}
			break
		}
		if args[1] == i {
			return args[2]
		}
		if x.distinctTerms(args[1], i) {
			cur = args[0]
			continue
		}
		break
	}
	return sel(cur, i)
}

// distinctTerms: syntactic disequality (numbers, or two different allocations).
func (x *Exec) distinctTerms(a, b string) bool {
	n, ok1 := isNum(a)
	m, ok2 := isNum(b)
	if ok1 && ok2 {
		return n != m
	}
	fa, fb := x.isAlloc[a], x.isAlloc[b]
	if fa > 0 && fb > 0 && a != b {
		return true
	}
	if fa > 0 && ok2 && m == 0 || fb > 0 && ok1 && n == 0 {
		return true
	}
	// a fresh allocation differs from any symbol introduced before it (references only)
	if fa > 0 && x.isOldRef(b, fa) || fb > 0 && x.isOldRef(a, fb) {
		return true
	}
	return false
}

// isOldRef: b is a reference-valued parameter symbol created before allocation number f.
func (x *Exec) isOldRef(b string, f int) bool {
	o, ok := x.paramRef[b]
	return ok && o < f
}

// ---------- reading and writing locations ----------

func prefixOf(l *LV) (string, []step, types.Type) {
	// field path until the first array index
	p := ""
	t := l.Root
	for i, s := range l.Path {
		if s.Field < 0 {
			return p, l.Path[i:], t
		}
		st := under(t).(*types.Struct)
		p = joinPath(p, st.Field(s.Field).Name())
		t = st.Field(s.Field).Type()
	}
	return p, nil, t
}

// rootTerm reads one leaf of the root object.
func (x *Exec) rootLeaf(st *State, l *LV, lf Leaf) string {
	switch l.Kind {
	case "ref":
		return x.rd(x.hget(st, x.fKey(l.Root, lf)), l.Ref)
	case "elem":
		return x.rd(x.rd(x.hget(st, x.eKey(l.Root, lf)), l.Ref), l.Idx)
	case "global":
		return x.hget(st, x.gKey(l.Key, lf))
	}
	panic("rootLeaf " + l.Kind)
}

func (x *Exec) setRootLeaf(st *State, l *LV, lf Leaf, v string) {
	switch l.Kind {
	case "ref":
		k := x.fKey(l.Root, lf)
		x.hset(st, k, store(x.hget(st, k), l.Ref, v))
		x.wlogAdd(st, k, l.Ref)
	case "elem":
		k := x.eKey(l.Root, lf)
		h := x.hget(st, k)
		old := x.rd(h, l.Ref)
		x.hset(st, k, store(h, l.Ref, store(old, l.Idx, v)))
		x.upward(st, k, old, sel(x.hget(st, k), l.Ref), []string{l.Idx})
		x.wlogAdd(st, k, l.Ref)
	case "global":
		k := x.gKey(l.Key, lf)
		st.heap[k] = v
		x.wlogAdd(st, k, "global")
	default:
		panic("setRootLeaf " + l.Kind)
	}
}

// upward states how old elements read in the new array, so that facts found by
// matching on old reads carry over (selected by "option upward <type>").
func (x *Exec) upward(st *State, key, old, nw string, idx []string) {
	o := x.sf.Opts["upward"]
	hit := false
	for _, w := range strings.Fields(o) {
		if strings.Contains(key, w) {
			hit = true
		}
	}
	if !hit {
		return
	}
	var alt []string
	for _, i := range idx {
		alt = append(alt, eq("j", i))
	}
	alt = append(alt, eq(sel(nw, "j"), sel(old, "j")))
	x.assume(st, fmt.Sprintf("(forall ((j Int)) (! %s :pattern (%s)))", or(alt...), sel(old, "j")))
}

func (x *Exec) gKey(name string, l Leaf) string {
	return x.regKey(hkey{"G:" + name + dot(l.Path), l.Sort, l, "G"})
}

func (x *Exec) byteAt(l *LV, k int) *LV {
	b := *l
	b.Wide = false
	b.T = types.Typ[types.Uint8]
	b.Path = append([]step{}, l.Path...)
	n := len(b.Path) - 1
	if k > 0 {
		b.Path[n].Idx = fmt.Sprintf("(+ %s %d)", b.Path[n].Idx, k)
	}
	return &b
}

func (x *Exec) load(st *State, l *LV) Val {
	if l.Wide {
		var bs []string
		for k := 0; k < 8; k++ {
			bs = append(bs, x.load(st, x.byteAt(l, k)).(Sc).T)
		}
		return Sc{app("le64", bs...), "Int"}
	}
	if l.Kind == "local" {
		v, ok := st.locals[l.Key]
		if !ok {
			panic(unsupported("read of unknown local %s", l.Key))
		}
		t := l.Root
		for _, s := range l.Path {
			if s.Field >= 0 {
				v = v.(St).F[s.Field]
				t = under(t).(*types.Struct).Field(s.Field).Type()
			} else {
				e := under(t).(*types.Array).Elem()
				v = x.arIndex(v.(Ar), e, s.Idx)
				t = e
			}
		}
		return v
	}
	pre, rest, t := prefixOf(l)
	if len(rest) == 0 {
		var ts []string
		for _, lf := range leaves(t) {
			ts = append(ts, x.rootLeaf(st, l, Leaf{joinPath(pre, lf.Path), lf.Sort, lf.Kind}))
		}
		return unflatten(t, ts)
	}
	// array element(s) inside
	var ts []string
	for _, lf := range leaves(t) {
		ts = append(ts, x.rootLeaf(st, l, Leaf{joinPath(pre, lf.Path), lf.Sort, lf.Kind}))
	}
	var v Val = unflatten(t, ts)
	for _, s := range rest {
		if s.Field >= 0 {
			v = v.(St).F[s.Field]
			t = under(t).(*types.Struct).Field(s.Field).Type()
		} else {
			at := under(t).(*types.Array)
			v = x.arIndex(v.(Ar), at.Elem(), s.Idx)
			t = at.Elem()
		}
	}
	return v
}

func (x *Exec) arIndex(a Ar, elem types.Type, ix string) Val {
	var ts []string
	for _, l := range a.L {
		ts = append(ts, x.rd(l, ix))
	}
	return unflatten(elem, ts)
}

func (x *Exec) arStore(a Ar, ix string, v Val) Ar {
	fl := flatten(v)
	n := Ar{N: a.N}
	for i, l := range a.L {
		n.L = append(n.L, store(l, ix, fl[i]))
	}
	return n
}

// update rewrites the sub-value of v (type t) at path.
func (x *Exec) update(v Val, t types.Type, path []step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.Field >= 0 {
		sv := v.(St)
		n := St{F: append([]Val{}, sv.F...)}
		n.F[s.Field] = x.update(sv.F[s.Field], under(t).(*types.Struct).Field(s.Field).Type(), path[1:], nv)
		return n
	}
	at := under(t).(*types.Array)
	a := v.(Ar)
	old := x.arIndex(a, at.Elem(), s.Idx)
	return x.arStore(a, s.Idx, x.update(old, at.Elem(), path[1:], nv))
}

func (x *Exec) store(st *State, l *LV, v Val) {
	if l.Wide {
		for k := 0; k < 8; k++ {
			x.store(st, x.byteAt(l, k), Sc{app("nthbyte", v.(Sc).T, fmt.Sprint(k)), "Int"})
		}
		return
	}
	if l.Kind == "local" {
		old, ok := st.locals[l.Key]
		if !ok {
			panic(unsupported("write of unknown local %s", l.Key))
		}
		st.locals[l.Key] = x.update(old, l.Root, l.Path, v)
		x.wlogAdd(st, "L:"+l.Key, "local")
		return
	}
	pre, rest, t := prefixOf(l)
	if len(rest) == 0 {
		fl := flatten(v)
		for i, lf := range leaves(t) {
			x.setRootLeaf(st, l, Leaf{joinPath(pre, lf.Path), lf.Sort, lf.Kind}, fl[i])
		}
		return
	}
	base := *l
	base.Path = l.Path[:len(l.Path)-len(rest)]
	base.T = t
	cur := x.load(st, &base)
	x.store(st, &base, x.update(cur, t, rest, v))
}

func (x *Exec) lvOf(st *State, p Pt, elem types.Type) *LV {
	if p.LV != nil {
		return p.LV
	}
	return &LV{Kind: "ref", Root: elem, Ref: p.Ref, T: elem}
}

// newRef allocates a fresh reference.
func (x *Exec) newRef(st *State, hint string) string {
	r := x.fresh("new_"+hint, "Int")
	x.assume(st, "(= "+r+" "+st.alloc+")")
	x.isAlloc[r] = x.nfresh
	na := x.fresh("alloc", "Int")
	x.assume(st, "(= "+na+" (+ "+r+" 1))")
	st.alloc = na
	return r
}

// leaveLoop pops the innermost loop and remembers it for exit hints.
func (st *State) leaveLoop() {
	d := *st.loops
	d.parent = st.done
	st.done = &d
	st.loops = st.loops.parent
}
