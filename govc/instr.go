package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) runFrom(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		switch in := ins.(type) {
		case *ssa.DebugRef:
			x.debugRef(st, fr, in)
		case *ssa.Jump:
			x.goTo(st, fr, b.Succs[0], b)
			return
		case *ssa.If:
			c := x.get(st, fr, in.Cond).(Sc).T
			if c == "true" || st.knows(c) {
				x.goTo(st, fr, b.Succs[0], b)
				return
			}
			if c == "false" || st.knows(not(c)) {
				x.goTo(st, fr, b.Succs[1], b)
				return
			}
			s2 := st.clone()
			x.assume(st, c)
			x.goTo(st, fr, b.Succs[0], b)
			x.assume(s2, not(c))
			x.goTo(s2, fr, b.Succs[1], b)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.get(st, fr, r))
			}
			x.doReturn(st, fr, res)
			return
		case *ssa.Panic:
			x.doPanic(st, fr, in)
			return
		case *ssa.RunDefers:
			ds := st.takeDefers(fr)
			x.runDefers(st, fr, ds, func(st *State) { x.runFrom(st, fr, b, i+1) })
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call, ins: in}
			if !in.Call.IsInvoke() {
				d.fn = x.get(st, fr, in.Call.Value)
			} else {
				d.fn = x.get(st, fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.get(st, fr, a))
			}
			st.pushDefer(fr, d)
		case *ssa.Call:
			ii := i
			x.call(st, fr, in, &in.Call, fmt.Sprintf("%d.%d", b.Index, i), func(st *State, res Val) {
				if res != nil {
					st.env[envKey{fr, in}] = res
				}
				x.runFrom(st, fr, b, ii+1)
			})
			return
		case *ssa.Select:
			x.doSelect(st, fr, in, b, i)
			return
		case *ssa.Go:
			if x.sf.Opts["goroutines"] == "" {
				x.usedExt["go statement (spawned goroutine not analysed here)"] = true
				continue
			}
			// preconditions of what the goroutine calls are checked at the go statement; its effects
			// are those of the contracts it is verified against separately
			x.usedExt["go statement (preconditions of the spawned calls checked at the go statement)"] = true
			s2 := st.clone()
			s2.spawned = true
			x.call(s2, fr, in, &in.Call, fmt.Sprintf("%d.%d", b.Index, i), func(st *State, res Val) {})
		case *ssa.UnOp:
			if in.Op == token.ARROW && in.CommaOk {
				ch := x.get(st, fr, in.X).(Sc).T
				et := under(in.X.Type()).(*types.Chan).Elem()
				s2 := st.clone()
				s2.env[envKey{fr, in}] = Tup{zeroVal(et), Sc{"false", "Bool"}}
				x.runFrom(s2, fr, b, i+1)
				rv := x.chanRecv(st, fr, ch, et, in.Pos())
				st.env[envKey{fr, in}] = Tup{rv, Sc{"true", "Bool"}}
				continue
			}
			x.simple(st, fr, ins)
		default:
			x.simple(st, fr, ins)
		}
	}
}

// defers live in the state, keyed by frame
func (s *State) pushDefer(fr *Frame, d deferred) {
	k := "defers:" + fr.id
	l, _ := s.locals[k].([]deferred)
	s.locals[k] = append(append([]deferred{}, l...), d)
}
func (s *State) takeDefers(fr *Frame) []deferred {
	k := "defers:" + fr.id
	l, _ := s.locals[k].([]deferred)
	delete(s.locals, k)
	return l
}

func (x *Exec) runDefers(st *State, fr *Frame, ds []deferred, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	x.callWith(st, fr, d.ins, d.call, d.fn, d.args, "defer"+fmt.Sprint(len(rest)), func(st *State, _ Val) {
		x.runDefers(st, fr, rest, k)
	})
}

func (x *Exec) doReturn(st *State, fr *Frame, res []Val) {
	for st.loops != nil && st.loops.fr == fr {
		if st.loops.dry {
			return
		}
		st.leaveLoop()
	}
	fr.ret(st, res)
}

func (x *Exec) doPanic(st *State, fr *Frame, in *ssa.Panic) {
	if st.spawned {
		return
	}
	msg := ""
	if mi, ok := in.X.(*ssa.MakeInterface); ok {
		if c, ok := mi.X.(*ssa.Const); ok && c.Value != nil {
			msg = c.Value.ExactString()
		}
	}
	// contract "panics P": allowed exactly when P held on entry
	if x.ct != nil {
		for _, c := range x.ct.Clauses {
			if c.Kind == "panics" {
				g, err := x.evalEntry(c.E)
				if err != nil {
					x.bindErr(st, c, err, nil)
					return
				}
				x.assert(st, g, "panic", "panic only under its declared condition", in.Pos())
				return
			}
		}
	}
	x.assert(st, "false", "panic", "explicit panic unreachable "+msg, in.Pos())
}

func (x *Exec) debugRef(st *State, fr *Frame, in *ssa.DebugRef) {
	o := in.Object()
	if o == nil {
		return
	}
	if _, ok := o.(*types.Var); !ok {
		return
	}
	if v, ok := o.(*types.Var); ok && v.IsField() {
		return
	}
	if !in.IsAddr {
		// a copy of an address-taken variable: keep the binding to the variable itself
		if b, ok := st.names[fr][o.Name()]; ok && b.addr && types.Identical(b.typ, o.Type()) {
			return
		}
	}
	var val Val
	switch c := in.X.(type) {
	case *ssa.Const:
		val = x.constVal(c)
	default:
		v, ok := st.env[envKey{fr, c}]
		if !ok {
			if _, isg := c.(*ssa.Global); isg {
				return
			}
			return
		}
		val = v
	}
	x.bindName(st, fr, o.Name(), val, in.IsAddr, o.Type(), in.X)
}

func (x *Exec) set(st *State, fr *Frame, v ssa.Value, val Val) { st.env[envKey{fr, v}] = val }

func (x *Exec) nonNil(st *State, p Val, what string, pos token.Pos) {
	if pt, ok := p.(Pt); ok && pt.LV == nil {
		if x.isAlloc[pt.Ref] > 0 {
			return
		}
		x.assert(st, not(eq(pt.Ref, "0")), "nil", "nil dereference ("+what+")", pos)
	}
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsupported("deref of %s", t))
}

func (x *Exec) simple(st *State, fr *Frame, ins ssa.Instruction) {
	switch in := ins.(type) {
	case *ssa.Alloc:
		t := deref(in.Type())
		if nonEscaping(in) {
			key := fr.id + ":" + in.Name()
			st.locals[key] = zeroVal(t)
			st.localT[key] = t
			x.wlogAdd(st, "L:"+key, "local")
			x.set(st, fr, in, Pt{LV: &LV{Kind: "local", Key: key, Root: t, T: t}})
			if isIdent(in.Comment) && in.Comment != "complit" && in.Comment != "new" && in.Comment != "varargs" && in.Comment != "slicelit" {
				x.bindName(st, fr, in.Comment, Pt{LV: &LV{Kind: "local", Key: key, Root: t, T: t}}, true, t, in)
			}
			return
		}
		r := x.newRef(st, tname(t))
		x.set(st, fr, in, Pt{Ref: r})
		x.store(st, &LV{Kind: "ref", Root: t, Ref: r, T: t}, zeroVal(t))
		if isIdent(in.Comment) && in.Comment != "complit" && in.Comment != "new" && in.Comment != "varargs" && in.Comment != "slicelit" && in.Comment != "makeslice" {
			x.bindName(st, fr, in.Comment, Pt{Ref: r}, true, t, in)
		}
	case *ssa.FieldAddr:
		p := x.get(st, fr, in.X)
		x.nonNil(st, p, "field access", in.Pos())
		lv := x.lvOf(st, p.(Pt), deref(in.X.Type()))
		x.set(st, fr, in, Pt{LV: lv.field(in.Field)})
	case *ssa.Field:
		x.set(st, fr, in, x.get(st, fr, in.X).(St).F[in.Field])
	case *ssa.IndexAddr:
		ix := x.get(st, fr, in.Index).(Sc).T
		switch bt := under(in.X.Type()).(type) {
		case *types.Slice:
			s := x.get(st, fr, in.X).(Sl)
			x.assert(st, and(le("0", ix), lt(ix, s.Len)), "bounds", "index in range", in.Pos())
			if s.Back != nil {
				x.set(st, fr, in, Pt{LV: s.Back.index(add(s.Off, ix))})
				return
			}
			x.set(st, fr, in, Pt{LV: &LV{Kind: "elem", Root: bt.Elem(), Ref: s.Arr, Idx: add(s.Off, ix), T: bt.Elem()}})
		case *types.Pointer:
			at := under(bt.Elem()).(*types.Array)
			x.assert(st, and(le("0", ix), lt(ix, num(at.Len()))), "bounds", "array index in range", in.Pos())
			p := x.get(st, fr, in.X)
			x.nonNil(st, p, "array access", in.Pos())
			lv := x.lvOf(st, p.(Pt), bt.Elem())
			x.set(st, fr, in, Pt{LV: lv.index(ix)})
		default:
			panic(unsupported("IndexAddr on %s", in.X.Type()))
		}
	case *ssa.Index:
		ix := x.get(st, fr, in.Index).(Sc).T
		switch at := under(in.X.Type()).(type) {
		case *types.Array:
			x.assert(st, and(le("0", ix), lt(ix, num(at.Len()))), "bounds", "array index in range", in.Pos())
			x.set(st, fr, in, x.arIndex(x.get(st, fr, in.X).(Ar), at.Elem(), ix))
		default:
			x.set(st, fr, in, x.freshVal(st, "strbyte", in.Type()))
		}
	case *ssa.UnOp:
		x.unop(st, fr, in)
	case *ssa.BinOp:
		x.set(st, fr, in, x.binop(st, in.Op, x.get(st, fr, in.X), x.get(st, fr, in.Y), in.X.Type(), in.Y.Type(), in.Pos()))
	case *ssa.Store:
		p := x.get(st, fr, in.Addr)
		x.nonNil(st, p, "store", in.Pos())
		v := x.get(st, fr, in.Val)
		x.store(st, x.lvOf(st, p.(Pt), deref(in.Addr.Type())), v)
	case *ssa.MakeSlice:
		n := x.get(st, fr, in.Len).(Sc).T
		c := x.get(st, fr, in.Cap).(Sc).T
		x.assert(st, and(le("0", n), le(n, c)), "bounds", "make: length within capacity", in.Pos())
		et := under(in.Type()).(*types.Slice).Elem()
		r := x.newRef(st, "slice")
		for _, l := range leaves(et) {
			k := x.eKey(et, l)
			x.hset(st, k, store(x.hget(st, k), r, zeroTerm("(Array Int "+l.Sort+")")))
			x.wlogAdd(st, k, r)
		}
		x.set(st, fr, in, Sl{Arr: r, Off: "0", Len: n, Cap: c})
	case *ssa.MakeMap:
		m := under(in.Type()).(*types.Map)
		r := x.newRef(st, "map")
		k := x.mdKey(m)
		_, inner := arraySorts(x.hkeys[k].Sort)
		x.hset(st, k, store(x.hget(st, k), r, zeroTerm(inner)))
		x.wlogAdd(st, k, r)
		k = x.mlKey(m)
		x.hset(st, k, store(x.hget(st, k), r, "0"))
		x.wlogAdd(st, k, r)
		x.set(st, fr, in, Sc{r, "Int"})
	case *ssa.MakeChan:
		r := x.newRef(st, "chan")
		x.set(st, fr, in, Sc{r, "Int"})
	case *ssa.MakeClosure:
		f := Fn{F: in.Fn, T: x.fresh("closure", "Int")}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, x.get(st, fr, b))
		}
		x.set(st, fr, in, f)
	case *ssa.MakeInterface:
		v := x.get(st, fr, in.X)
		if s, ok := v.(Sl); ok && s.Back != nil {
			// boxed slice of an array variable: a snapshot (nothing may write through it)
			et := under(in.X.Type()).(*types.Slice).Elem()
			r := x.newRef(st, "snap")
			av := x.load(st, s.Back).(Ar)
			for i, l := range leaves(et) {
				k := x.eKey(et, l)
				x.hset(st, k, store(x.hget(st, k), r, av.L[i]))
				x.wlogAdd(st, k, r)
			}
			x.usedExt["slice of an array variable stored in an interface: treated as a copy"] = true
			v = Sl{Arr: r, Off: s.Off, Len: s.Len, Cap: s.Cap}
		}
		x.set(st, fr, in, Ifc{Dyn: in.X.Type(), V: v})
	case *ssa.ChangeInterface:
		x.set(st, fr, in, x.get(st, fr, in.X))
	case *ssa.ChangeType:
		x.set(st, fr, in, x.get(st, fr, in.X))
	case *ssa.Convert:
		x.set(st, fr, in, x.convert(st, x.get(st, fr, in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.MultiConvert:
		x.set(st, fr, in, x.convert(st, x.get(st, fr, in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.Slice:
		x.slice(st, fr, in)
	case *ssa.Lookup:
		x.lookup(st, fr, in)
	case *ssa.MapUpdate:
		m := under(in.Map.Type()).(*types.Map)
		mr := x.get(st, fr, in.Map).(Sc).T
		if x.isAlloc[mr] == 0 {
			x.assert(st, not(eq(mr, "0")), "nil", "assignment to nil map", in.Pos())
		}
		x.mapSet(st, m, mr, x.get(st, fr, in.Key), x.get(st, fr, in.Value))
	case *ssa.Range:
		switch m := under(in.X.Type()).(type) {
		case *types.Map:
			key := "iter:" + fr.id + ":" + in.Name()
			s := "(Array " + x.mKeySort(m) + " Bool)"
			st.locals[key] = Sc{zeroTerm(s), s}
			delete(st.localT, key)
			mr := x.get(st, fr, in.X).(Sc).T
			st.locals[key+":start"] = Sc{x.rd(x.hget(st, x.mdKey(m)), mr), s}
			x.set(st, fr, in, iterVal{key: key, m: m, ref: mr})
		default:
			panic(unsupported("range over %s", in.X.Type()))
		}
	case *ssa.Next:
		x.next(st, fr, in)
	case *ssa.Extract:
		t := x.get(st, fr, in.Tuple).(Tup)
		x.set(st, fr, in, t[in.Index])
	case *ssa.TypeAssert:
		x.typeAssert(st, fr, in)
	case *ssa.Send:
		ch := x.get(st, fr, in.Chan).(Sc).T
		x.chanSend(st, fr, ch, x.get(st, fr, in.X), in.X.Type(), in.Pos())
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer conversion"))
	default:
		panic(unsupported("instruction %T", ins))
	}
}

type iterVal struct {
	key string
	m   *types.Map
	ref string
}

func (x *Exec) next(st *State, fr *Frame, in *ssa.Next) {
	it := x.get(st, fr, in.Iter).(iterVal)
	vis := st.locals[it.key].(Sc)
	ks := x.mKeySort(it.m)
	ok := x.fresh("ok", "Bool")
	k := x.fresh("key", ks)
	dom := x.rd(x.hget(st, x.mdKey(it.m)), it.ref)
	start := st.locals[it.key+":start"].(Sc).T
	kv := x.mapKeyVal(it.m, k)
	x.assume(st, implies(ok, and(sel(dom, k), not(sel(vis.T, k)))))
	x.assume(st, implies(not(ok), fmt.Sprintf("(forall ((j %s)) (! (=> (and (select %s j) (select %s j)) (select %s j)) :pattern ((select %s j)) :pattern ((select %s j))))", ks, dom, start, vis.T, dom, vis.T)))
	nv := x.fresh("visited", vis.S)
	x.assume(st, eq(nv, ite(ok, store(vis.T, k, "true"), vis.T)))
	st.locals[it.key] = Sc{nv, vis.S}
	x.wlogAdd(st, "L:"+it.key, "local")
	// key well-formed
	ls := leaves(it.m.Key())
	for i, t := range flatten(kv) {
		x.assume(st, implies(ok, wfLeaf(ls[i], t, st.alloc)))
	}
	var vt []string
	vls := leaves(it.m.Elem())
	for _, l := range vls {
		vt = append(vt, sel(x.rd(x.hget(st, x.mvKey(it.m, l)), it.ref), k))
	}
	v := unflatten(it.m.Elem(), vt)
	st.env[envKey{fr, in}] = Tup{Sc{ok, "Bool"}, kv, v}
}

func (x *Exec) mapSet(st *State, m *types.Map, mr string, kv, v Val) {
	k := x.mapKeyTerm(m, kv)
	dk, lk := x.mdKey(m), x.mlKey(m)
	dh := x.hget(st, dk)
	dom := x.rd(dh, mr)
	lh := x.hget(st, lk)
	l := x.rd(lh, mr)
	x.hset(st, lk, store(lh, mr, ite(sel(dom, k), l, add(l, "1"))))
	x.wlogAdd(st, lk, mr)
	x.hset(st, dk, store(dh, mr, store(dom, k, "true")))
	x.wlogAdd(st, dk, mr)
	fl := flatten(v)
	for i, lf := range leaves(m.Elem()) {
		vk := x.mvKey(m, lf)
		h := x.hget(st, vk)
		x.hset(st, vk, store(h, mr, store(x.rd(h, mr), k, fl[i])))
		x.wlogAdd(st, vk, mr)
	}
}

func (x *Exec) mapDelete(st *State, m *types.Map, mr string, kv Val) {
	k := x.mapKeyTerm(m, kv)
	dk, lk := x.mdKey(m), x.mlKey(m)
	dh := x.hget(st, dk)
	dom := x.rd(dh, mr)
	lh := x.hget(st, lk)
	l := x.rd(lh, mr)
	x.hset(st, lk, store(lh, mr, ite(sel(dom, k), sub(l, "1"), l)))
	x.wlogAdd(st, lk, mr)
	x.hset(st, dk, store(dh, mr, store(dom, k, "false")))
	x.wlogAdd(st, dk, mr)
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) {
	m, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		x.set(st, fr, in, x.freshVal(st, "strbyte", in.Type()))
		return
	}
	mr := x.get(st, fr, in.X).(Sc).T
	k := x.mapKeyTerm(m, x.get(st, fr, in.Index))
	there := sel(x.rd(x.hget(st, x.mdKey(m)), mr), k)
	there = x.nameBool(st, there)
	ls := leaves(m.Elem())
	var ts []string
	for _, l := range ls {
		ts = append(ts, ite(there, x.rd(x.rd(x.hget(st, x.mvKey(m, l)), mr), k), zeroTerm(l.Sort)))
	}
	x.mapLenFact(st, m, mr, k, there)
	v := unflatten(m.Elem(), ts)
	x.wfSlices(st, m.Elem(), ts, ls)
	if in.CommaOk {
		st.env[envKey{fr, in}] = Tup{v, Sc{there, "Bool"}}
	} else {
		x.set(st, fr, in, v)
	}
}

func (x *Exec) nameBool(st *State, t string) string { return t }

// mapLenFact: a map with an element has positive length.
func (x *Exec) mapLenFact(st *State, m *types.Map, mr, k, there string) {
	l := x.rd(x.hget(st, x.mlKey(m)), mr)
	x.assume(st, implies(there, lt("0", l)))
}

func (x *Exec) wfSlices(st *State, t types.Type, ts []string, ls []Leaf) {
	for i, l := range ls {
		if l.Kind == "scap" {
			x.assume(st, le(ts[i-1], ts[i]))
			x.assume(st, le("0", ts[i-1]))
			x.assume(st, implies(eq(ts[i-3], "0"), eq(ts[i], "0")))
		}
	}
}

func (x *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) {
	v := x.get(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		x.nonNil(st, v, "load", in.Pos())
		t := deref(in.X.Type())
		if pt := v.(Pt); pt.LV != nil && pt.LV.Kind == "global" {
			x.globalFacts(st, in.X)
		}
		r := x.load(st, x.lvOf(st, v.(Pt), t))
		if isFlat(r) {
			x.wfSlices(st, t, flatten(r), leaves(t))
		}
		x.set(st, fr, in, r)
	case token.NOT:
		x.set(st, fr, in, Sc{not(v.(Sc).T), "Bool"})
	case token.SUB:
		if sortOf(in.Type()) == fltSort {
			x.set(st, fr, in, Sc{x.fltOp("neg", v.(Sc).T), fltSort})
			return
		}
		k := intKind(in.Type())
		t := sub("0", v.(Sc).T)
		x.set(st, fr, in, Sc{wrapTo(t, k), "Int"})
	case token.XOR:
		k := intKind(in.Type())
		switch k {
		case "u64":
			x.set(st, fr, in, Sc{sub("18446744073709551615", v.(Sc).T), "Int"})
		case "u32":
			x.set(st, fr, in, Sc{sub("4294967295", v.(Sc).T), "Int"})
		default:
			x.set(st, fr, in, Sc{sub("(- 1)", v.(Sc).T), "Int"})
		}
	case token.ARROW:
		ch := v.(Sc).T
		et := under(in.X.Type()).(*types.Chan).Elem()
		rv := x.chanRecv(st, fr, ch, et, in.Pos())
		if in.CommaOk {
			st.env[envKey{fr, in}] = Tup{rv, Sc{x.fresh("recvok", "Bool"), "Bool"}}
		} else {
			x.set(st, fr, in, rv)
		}
	default:
		panic(unsupported("unary %s", in.Op))
	}
}

func isFlat(v Val) bool {
	switch x := v.(type) {
	case St:
		for _, f := range x.F {
			if !isFlat(f) {
				return false
			}
		}
	case Sl:
		return x.Back == nil
	case Pt:
		return x.LV == nil
	case Ifc:
		return x.T != ""
	}
	return true
}

func (x *Exec) globalFacts(st *State, v ssa.Value) {}

// signedBits is the width of a signed integer type narrower than 64 bits (0 otherwise).
func signedBits(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8:
		return 8
	case types.Int16:
		return 16
	case types.Int32:
		return 32
	}
	return 0
}

func wrapSigned(t string, n int) string {
	if v, ok := isNum(t); ok && v >= -(1<<(n-1)) && v < 1<<(n-1) {
		return t
	}
	half, full := num(int64(1)<<(n-1)), num(int64(1)<<n)
	return "(- (mod (+ " + t + " " + half + ") " + full + ") " + half + ")"
}

func wrapTo(t, k string) string {
	switch k {
	case "u64":
		return "(mod " + t + " " + two64 + ")"
	case "u32":
		return "(mod " + t + " " + two32 + ")"
	case "u16":
		return "(mod " + t + " 65536)"
	case "u8":
		return "(mod " + t + " 256)"
	}
	return t
}

func (x *Exec) fltOp(op string, args ...string) string {
	if fltSort == "Real" {
		switch op {
		case "add":
			return app("+", args...)
		case "sub":
			return app("-", args...)
		case "mul":
			return app("*", args...)
		case "div":
			return app("/", args...)
		case "neg":
			return app("-", args...)
		case "lt":
			return app("<", args...)
		case "le":
			return app("<=", args...)
		}
	}
	ss := make([]string, len(args))
	for i := range ss {
		ss[i] = fltSort
	}
	ret := fltSort
	if op == "lt" || op == "le" || op == "eq" {
		ret = "Bool"
	}
	return x.uf("flt_"+op, args, ss, ret)
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb types.Type, pos token.Pos) Val {
	r := x.binop0(st, op, a, b, ta, tb, pos)
	switch op {
	case token.ADD, token.SUB, token.MUL, token.SHL, token.QUO:
		if n := signedBits(ta); n > 0 {
			if sc, ok := r.(Sc); ok && sc.S == "Int" {
				return Sc{wrapSigned(sc.T, n), "Int"}
			}
		}
	}
	return r
}

func (x *Exec) binop0(st *State, op token.Token, a, b Val, ta, tb types.Type, pos token.Pos) Val {
	if op == token.EQL || op == token.NEQ {
		e := x.equal(st, a, b, ta, tb)
		if op == token.NEQ {
			e = not(e)
		}
		return Sc{e, "Bool"}
	}
	sa, oka := a.(Sc)
	sb, okb := b.(Sc)
	if !oka || !okb {
		panic(unsupported("binary %s on %T", op, a))
	}
	if sa.S == fltSort && sa.S != "Int" {
		switch op {
		case token.ADD:
			return Sc{x.fltOp("add", sa.T, sb.T), fltSort}
		case token.SUB:
			return Sc{x.fltOp("sub", sa.T, sb.T), fltSort}
		case token.MUL:
			return Sc{x.fltOp("mul", sa.T, sb.T), fltSort}
		case token.QUO:
			return Sc{x.fltOp("div", sa.T, sb.T), fltSort}
		case token.LSS:
			return Sc{x.fltOp("lt", sa.T, sb.T), "Bool"}
		case token.LEQ:
			return Sc{x.fltOp("le", sa.T, sb.T), "Bool"}
		case token.GTR:
			return Sc{x.fltOp("lt", sb.T, sa.T), "Bool"}
		case token.GEQ:
			return Sc{x.fltOp("le", sb.T, sa.T), "Bool"}
		}
		panic(unsupported("float op %s", op))
	}
	if sa.S == "Str" {
		switch op {
		case token.ADD:
			return Sc{x.uf("str_cat", []string{sa.T, sb.T}, []string{"Str", "Str"}, "Str"), "Str"}
		case token.LSS:
			return Sc{app("str_lt", sa.T, sb.T), "Bool"}
		case token.GTR:
			return Sc{app("str_lt", sb.T, sa.T), "Bool"}
		case token.LEQ:
			return Sc{not(app("str_lt", sb.T, sa.T)), "Bool"}
		case token.GEQ:
			return Sc{not(app("str_lt", sa.T, sb.T)), "Bool"}
		}
	}
	k := intKind(ta)
	if isTypeParam(ta) {
		// arithmetic on a numeric type parameter: uninterpreted
		switch op {
		case token.GTR:
			return Sc{x.uf("tp_lt", []string{sb.T, sa.T}, []string{"Int", "Int"}, "Bool"), "Bool"}
		case token.LSS:
			return Sc{x.uf("tp_lt", []string{sa.T, sb.T}, []string{"Int", "Int"}, "Bool"), "Bool"}
		}
		return Sc{x.uf("tp_"+op.String(), []string{sa.T, sb.T}, []string{"Int", "Int"}, "Int"), "Int"}
	}
	u := k != "int"
	switch op {
	case token.ADD:
		return Sc{wrapIf(add(sa.T, sb.T), k), "Int"}
	case token.SUB:
		return Sc{wrapIf(sub(sa.T, sb.T), k), "Int"}
	case token.MUL:
		if k == "u64" && x.sf.Opts["mul64"] == "uninterpreted" {
			t := app("umul64", sa.T, sb.T)
			x.assume(st, and(le("0", t), lt(t, two64)))
			return Sc{t, "Int"}
		}
		return Sc{wrapIf(mul(sa.T, sb.T), k), "Int"}
	case token.QUO:
		if n, ok := isNum(sb.T); !ok || n == 0 {
			x.assert(st, not(eq(sb.T, "0")), "div", "division by zero", pos)
		}
		if u {
			return Sc{app("div", sa.T, sb.T), "Int"}
		}
		if n, ok := isNum(sb.T); ok && n > 0 {
			if x.nonNeg(st, sa.T) {
				return Sc{app("div", sa.T, sb.T), "Int"}
			}
			return Sc{ite(le("0", sa.T), app("div", sa.T, sb.T), "(- (div (- "+sa.T+") "+sb.T+"))"), "Int"}
		}
		return Sc{app("tdiv", sa.T, sb.T), "Int"}
	case token.REM:
		if n, ok := isNum(sb.T); !ok || n == 0 {
			x.assert(st, not(eq(sb.T, "0")), "div", "division by zero", pos)
		}
		if u {
			return Sc{app("mod", sa.T, sb.T), "Int"}
		}
		return Sc{app("tmod", sa.T, sb.T), "Int"}
	case token.LSS:
		return Sc{lt(sa.T, sb.T), "Bool"}
	case token.LEQ:
		return Sc{le(sa.T, sb.T), "Bool"}
	case token.GTR:
		return Sc{lt(sb.T, sa.T), "Bool"}
	case token.GEQ:
		return Sc{le(sb.T, sa.T), "Bool"}
	case token.XOR:
		t := app("bxor", sa.T, sb.T)
		if u {
			x.assume(st, wfLeaf(Leaf{"", "Int", k}, t, ""))
		}
		return Sc{t, "Int"}
	case token.AND, token.OR, token.AND_NOT:
		n := map[token.Token]string{token.AND: "band", token.OR: "bor", token.AND_NOT: "bandnot"}[op]
		if sa.S == "Bool" {
			break
		}
		if op == token.AND {
			for _, c := range [][2]string{{sa.T, sb.T}, {sb.T, sa.T}} {
				if m, ok := isNum(c[1]); ok && m >= 0 && m&(m+1) == 0 && m+1 > 0 {
					return Sc{app("mod", c[0], num(m+1)), "Int"}
				}
			}
		}
		t := x.uf(n, []string{sa.T, sb.T}, []string{"Int", "Int"}, "Int")
		if u {
			x.assume(st, wfLeaf(Leaf{"", "Int", k}, t, ""))
		}
		return Sc{t, "Int"}
	case token.SHL, token.SHR:
		if n, ok := isNum(sb.T); ok && n >= 0 && n < 63 {
			p := num(int64(1) << uint(n))
			if op == token.SHL {
				return Sc{wrapIf(mul(sa.T, p), k), "Int"}
			}
			return Sc{app("div", sa.T, p), "Int"}
		}
		t := x.uf("shift"+map[token.Token]string{token.SHL: "l", token.SHR: "r"}[op], []string{sa.T, sb.T}, []string{"Int", "Int"}, "Int")
		if u {
			x.assume(st, wfLeaf(Leaf{"", "Int", k}, t, ""))
		}
		return Sc{t, "Int"}
	}
	panic(unsupported("binary %s", op))
}

func (x *Exec) nonNeg(st *State, t string) bool { return false }

func wrapIf(t, k string) string {
	if k == "int" {
		return t
	}
	if n, ok := isNum(t); ok && n >= 0 {
		if k == "u64" || n < 256 {
			return t
		}
	}
	return wrapTo(t, k)
}

func (x *Exec) equal(st *State, a, b Val, ta, tb types.Type) string {
	switch av := a.(type) {
	case Sc:
		bv, ok := b.(Sc)
		if !ok {
			panic(unsupported("comparison %T %T", a, b))
		}
		if isTypeParam(ta) {
			return app("teq", av.T, bv.T)
		}
		if av.S == "Flt" {
			return x.fltOp("eq", av.T, bv.T)
		}
		return eq(av.T, bv.T)
	case Pt:
		bv := b.(Pt)
		if av.LV == nil && bv.LV == nil {
			return eq(av.Ref, bv.Ref)
		}
		if av.LV != nil && bv.LV == nil && bv.Ref == "0" || bv.LV != nil && av.LV == nil && av.Ref == "0" {
			return "false"
		}
		panic(unsupported("comparison of interior pointers"))
	case Ifc:
		bv, ok := b.(Ifc)
		if !ok {
			panic(unsupported("comparison of interface with concrete value"))
		}
		if av.T == "" && bv.T == "nil_iface" || bv.T == "" && av.T == "nil_iface" {
			return "false"
		}
		return eq(ifaceTerm(av), ifaceTerm(bv))
	case Sl:
		bv := b.(Sl)
		if bv.Arr == "0" {
			if av.Back != nil {
				return "false"
			}
			return eq(av.Arr, "0")
		}
		if av.Arr == "0" {
			return eq(bv.Arr, "0")
		}
		panic(unsupported("slice comparison"))
	case St:
		bv := b.(St)
		st0 := under(ta).(*types.Struct)
		r := "true"
		for i := range av.F {
			r = and(r, x.equal(st, av.F[i], bv.F[i], st0.Field(i).Type(), st0.Field(i).Type()))
		}
		return r
	case Ar:
		bv := b.(Ar)
		r := "true"
		for i := range av.L {
			r = and(r, fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %d)) (= %s %s)) :pattern (%s) :pattern (%s)))", av.N, sel(av.L[i], "j"), sel(bv.L[i], "j"), sel(av.L[i], "j"), sel(bv.L[i], "j")))
		}
		return r
	case Fn:
		bv := b.(Fn)
		if av.F != nil && bv.T == "0" || bv.F != nil && av.T == "0" {
			return "false"
		}
		return eq(av.T, bv.T)
	}
	panic(unsupported("comparison of %T", a))
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fs, ts := sortOf(from), sortOf(to)
	if isTypeParam(from) || isTypeParam(to) {
		s := v.(Sc)
		if isTypeParam(from) && isTypeParam(to) {
			return s
		}
		r := ts
		if r == "" {
			panic(unsupported("convert %s to %s", from, to))
		}
		return Sc{x.uf("tpconv_"+tkey(from)+"_"+tkey(to), []string{s.T}, []string{s.S}, r), r}
	}
	switch {
	case fs == "Int" && ts == "Int":
		if _, ok := v.(Sc); !ok {
			// unsafe.Pointer round trip: only *uint64 views of byte arrays are understood
			pt, isp := under(to).(*types.Pointer)
			if !isp {
				return v
			}
			if types.Identical(under(from), under(to)) {
				return v
			}
			p, okp := v.(Pt)
			if b, okb := under(pt.Elem()).(*types.Basic); okp && okb && b.Kind() == types.Uint64 && p.LV != nil && len(p.LV.Path) > 0 && p.LV.Path[len(p.LV.Path)-1].Field < 0 {
				if eb, ok := under(p.LV.T).(*types.Basic); ok && eb.Kind() == types.Uint8 {
					base := *p.LV
					base.Path = base.Path[:len(base.Path)-1]
					t := base.Root
					for _, s := range base.Path {
						if s.Field >= 0 {
							t = under(t).(*types.Struct).Field(s.Field).Type()
						} else {
							t = under(t).(*types.Array).Elem()
						}
					}
					n := under(t).(*types.Array).Len()
					x.assert(st, le("(+ "+p.LV.Path[len(p.LV.Path)-1].Idx+" 8)", fmt.Sprint(n)), "restriction", "unsafe view stays inside the array", pos)
					w := *p.LV
					w.Wide = true
					w.T = pt.Elem()
					return Pt{LV: &w}
				}
			}
			panic(unsupported("conversion of an unsafe pointer to %s", to))
		}
		fk, tk := intKind(from), intKind(to)
		t := v.(Sc).T
		if n, ok := isNum(t); ok && n >= 0 && n < 128 {
			return v
		}
		order := map[string]int{"u8": 1, "u16": 2, "u32": 3, "u64": 4}
		if tk == "int" {
			tb := under(to).(*types.Basic)
			if n := signedBits(tb); n > 0 {
				w := map[string]int{"u8": 8, "u16": 16, "u32": 32, "u64": 64}[fk]
				if fk == "int" {
					w = 63
					if m := signedBits(from); m > 0 {
						w = m - 1
					}
				}
				if w < n {
					return v
				}
				return Sc{wrapSigned(t, n), "Int"}
			}
			if fk == "u64" {
				return Sc{ite(lt(t, two63), t, sub2(t, two64)), "Int"}
			}
			return v
		}
		if fk != "int" && order[fk] <= order[tk] {
			return v
		}
		return Sc{wrapTo(t, tk), "Int"}
	case fs == "Int" && ts == fltSort:
		if fltSort == "Real" {
			return Sc{app("to_real", v.(Sc).T), "Real"}
		}
		return Sc{x.uf("i2f", []string{v.(Sc).T}, []string{"Int"}, "Flt"), "Flt"}
	case fs == fltSort && ts == "Int":
		k := intKind(to)
		if fltSort == "Real" && k == "int" {
			return Sc{app("rtrunc", v.(Sc).T), "Int"}
		}
		t := x.uf("f2i_"+k, []string{v.(Sc).T}, []string{fltSort}, "Int")
		if k != "int" {
			x.assume(st, wfLeaf(Leaf{"", "Int", k}, t, ""))
		} else {
			x.assume(st, and(le("(- "+two63+")", t), lt(t, two63)))
		}
		return Sc{t, "Int"}
	case fs == fltSort && ts == fltSort:
		return v
	case ts == "Str":
		return Sc{x.fresh("strconv", "Str"), "Str"}
	}
	if _, ok := under(to).(*types.Slice); ok && fs == "Str" {
		return x.freshVal(st, "bytes", to)
	}
	if _, ok := under(from).(*types.Pointer); ok {
		return v
	}
	panic(unsupported("convert %s to %s", from, to))
}

func sub2(a, b string) string { return "(- " + a + " " + b + ")" }

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) {
	var lo, hi string
	lo = "0"
	if in.Low != nil {
		lo = x.get(st, fr, in.Low).(Sc).T
	}
	if in.High != nil {
		hi = x.get(st, fr, in.High).(Sc).T
	}
	switch bt := under(in.X.Type()).(type) {
	case *types.Slice:
		s := x.get(st, fr, in.X).(Sl)
		if hi == "" {
			hi = s.Len
		}
		x.assert(st, and(le("0", lo), le(lo, hi), le(hi, s.Cap)), "bounds", "slice bounds in range", in.Pos())
		if hi != s.Len && hi != lo && hi != "0" {
			x.assert(st, le(hi, s.Len), "restriction", "reslice stays within length (verifier restriction)", in.Pos())
		}
		n := Sl{Arr: s.Arr, Off: add(s.Off, lo), Len: sub(hi, lo), Cap: sub(s.Cap, lo), Back: s.Back}
		x.set(st, fr, in, n)
	case *types.Pointer: // pointer to array
		at := under(bt.Elem()).(*types.Array)
		if hi == "" {
			hi = num(at.Len())
		}
		x.assert(st, and(le("0", lo), le(lo, hi), le(hi, num(at.Len()))), "bounds", "slice bounds in range", in.Pos())
		p := x.get(st, fr, in.X).(Pt)
		if a, ok := in.X.(*ssa.Alloc); ok && a.Comment == "varargs" || ok && a.Comment == "slicelit" {
			// materialise the literal as a heap array
			r := x.newRef(st, "lit")
			av := x.load(st, x.lvOf(st, p, bt.Elem())).(Ar)
			for i, l := range leaves(at.Elem()) {
				k := x.eKey(at.Elem(), l)
				x.hset(st, k, store(x.hget(st, k), r, av.L[i]))
				x.wlogAdd(st, k, r)
			}
			x.set(st, fr, in, Sl{Arr: r, Off: lo, Len: sub(hi, lo), Cap: sub(num(at.Len()), lo)})
			return
		}
		x.nonNil(st, p, "slicing array", in.Pos())
		x.set(st, fr, in, Sl{Arr: "(- 1)", Off: lo, Len: sub(hi, lo), Cap: sub(num(at.Len()), lo), Back: x.lvOf(st, p, bt.Elem())})
	case *types.Basic:
		x.set(st, fr, in, x.freshVal(st, "substr", in.Type()))
	default:
		panic(unsupported("slice of %s", in.X.Type()))
	}
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) {
	v := x.get(st, fr, in.X).(Ifc)
	t := in.AssertedType
	if it, ok := under(t).(*types.Interface); ok && !isTypeParam(t) {
		var c string
		if v.T == "" {
			if types.Implements(v.Dyn, it) {
				c = "true"
			} else {
				c = "false"
			}
		} else {
			c = app(x.implPred(t), app("ityp", v.T))
			x.assume(st, implies(c, not(eq(v.T, "nil_iface"))))
		}
		if in.CommaOk {
			st.env[envKey{fr, in}] = Tup{v, Sc{c, "Bool"}}
			return
		}
		x.assert(st, c, "typeassert", "type assertion to "+t.String()+" succeeds", in.Pos())
		x.set(st, fr, in, v)
		return
	}
	if v.T == "" {
		same := types.Identical(v.Dyn, t)
		if in.CommaOk {
			if same {
				st.env[envKey{fr, in}] = Tup{v.V, Sc{"true", "Bool"}}
			} else {
				st.env[envKey{fr, in}] = Tup{zeroVal(t), Sc{"false", "Bool"}}
			}
			return
		}
		if !same {
			x.assert(st, "false", "typeassert", "type assertion succeeds", in.Pos())
			return
		}
		x.set(st, fr, in, v.V)
		return
	}
	b := boxFor(t)
	c := hasType(b, v.T)
	var ts []string
	ls := leaves(t)
	for i := range b.Sorts {
		ts = append(ts, unboxed(b, i, v.T))
	}
	for i, l := range ls {
		x.assume(st, implies(c, wfLeaf(l, ts[i], st.alloc)))
		if l.Kind == "scap" {
			x.assume(st, implies(c, le(ts[i-1], ts[i])))
		}
	}
	x.implFacts(st, t, b)
	if in.CommaOk {
		var zs []string
		for i, l := range ls {
			zs = append(zs, ite(c, ts[i], zeroTerm(l.Sort)))
		}
		st.env[envKey{fr, in}] = Tup{unflatten(t, zs), Sc{c, "Bool"}}
		return
	}
	x.assert(st, c, "typeassert", "type assertion to "+t.String()+" succeeds", in.Pos())
	x.set(st, fr, in, unflatten(t, ts))
}

var implPreds = map[string]*types.Interface{}
var implOrder []string

func (x *Exec) implPred(t types.Type) string {
	n := "impl_" + sanitize(tname(t))
	if _, ok := implPreds[n]; !ok {
		implPreds[n] = under(t).(*types.Interface)
		implOrder = append(implOrder, n)
	}
	return n
}

func (x *Exec) implFacts(st *State, t types.Type, b *boxInfo) {}

// implDecls: which boxed types implement which interfaces.
func implDecls() []string {
	var r []string
	for _, n := range implOrder {
		r = append(r, "(declare-fun "+n+" (Int) Bool)")
		r = append(r, "(assert (not ("+n+" 0)))")
		for _, b := range boxOrder {
			v := "false"
			if types.Implements(b.T, implPreds[n]) {
				v = "true"
			}
			if v == "true" {
				r = append(r, fmt.Sprintf("(assert (%s %d))", n, b.ID))
			} else {
				r = append(r, fmt.Sprintf("(assert (not (%s %d)))", n, b.ID))
			}
		}
	}
	return r
}

// nonEscaping reports whether an allocation can be treated as a local variable.
func nonEscaping(a *ssa.Alloc) bool {
	if !a.Heap {
		return localUse(a, 0)
	}
	return localUse(a, 0)
}

func localUse(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch in := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if in.Val == v {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !localUse(in.(ssa.Value), depth+1) {
				return false
			}
		case *ssa.Slice:
			// slices of a local array: only as a literal or passed to calls
			a, ok := v.(*ssa.Alloc)
			if ok && (a.Comment == "varargs" || a.Comment == "slicelit") {
				continue
			}
			if !sliceUse(in, depth+1) {
				return false
			}
		case *ssa.Convert:
			return false
		case *ssa.MakeClosure:
			// captured variable: fine when the closure itself stays local
			if !closureLocal(in) {
				return false
			}
		case ssa.CallInstruction:
			c := in.Common()
			if c.IsInvoke() {
				return false
			}
			f := c.StaticCallee()
			if f == nil {
				return false
			}
			b := f
			if len(b.Blocks) == 0 && f.Origin() != nil {
				b = f.Origin()
			}
			if len(b.Blocks) == 0 {
				return false
			}
			for i, arg := range c.Args {
				if arg == v {
					if i >= len(b.Params) || !localUse(b.Params[i], depth+1) {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

func closureLocal(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		switch in := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			if in.Common().Value != ssa.Value(m) {
				return false
			}
			if _, ok := in.(*ssa.Go); ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sliceUse: a slice of a local array is only handed to calls, copied or indexed.
func sliceUse(s *ssa.Slice, depth int) bool {
	for _, r := range *s.Referrers() {
		switch r.(type) {
		case *ssa.DebugRef, *ssa.IndexAddr, ssa.CallInstruction:
		case *ssa.Slice, *ssa.ChangeType:
		case *ssa.MakeInterface:
		default:
			return false
		}
	}
	return true
}

func (x *Exec) chanSend(st *State, fr *Frame, ch string, v Val, t types.Type, pos token.Pos) {
	x.usedExt["channel send (delivery by the Go runtime)"] = true
	x.chanHook(st, "send", ch, v, t, pos)
}

func (x *Exec) chanRecv(st *State, fr *Frame, ch string, t types.Type, pos token.Pos) Val {
	x.usedExt["channel receive (arbitrary value)"] = true
	v := x.freshVal(st, "recv", t)
	x.chanHook(st, "recv", ch, v, t, pos)
	return v
}

// chanHook: contract file may give an "extern chan send_<elem>(c, v)" contract.
func (x *Exec) chanHook(st *State, what, ch string, v Val, t types.Type, pos token.Pos) {
	id := "chan." + what + "_" + strings.Trim(sanitizeType(t), "_")
	for _, c := range x.sf.Externs {
		if c.Pkg+"."+c.Name == id {
			x.applyContract(st, c, []Val{Sc{ch, "Int"}, v}, []types.Type{types.Typ[types.Int], t}, nil, id, pos)
			return
		}
	}
}

func sanitizeType(t types.Type) string {
	s := tname(t)
	s = s[strings.LastIndex(s, ".")+1:]
	s = strings.TrimLeft(s, "*")
	return s
}

func (x *Exec) doSelect(st *State, fr *Frame, in *ssa.Select, b *ssa.BasicBlock, i int) {
	n := len(in.States)
	var recvT []types.Type
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			recvT = append(recvT, under(s.Chan.Type()).(*types.Chan).Elem())
		}
	}
	run := func(st *State, idx int) {
		t := Tup{Sc{num(int64(idx)), "Int"}, Sc{x.fresh("recvok", "Bool"), "Bool"}}
		ri := 0
		for j, s := range in.States {
			if s.Dir == types.RecvOnly {
				if j == idx {
					t = append(t, x.chanRecv(st, fr, x.get(st, fr, s.Chan).(Sc).T, recvT[ri], in.Pos()))
				} else {
					t = append(t, zeroVal(recvT[ri]))
				}
				ri++
			} else if j == idx {
				x.chanSend(st, fr, x.get(st, fr, s.Chan).(Sc).T, x.get(st, fr, s.Send), s.Send.Type(), in.Pos())
			}
		}
		st.env[envKey{fr, in}] = t
		x.runFrom(st, fr, b, i+1)
	}
	for j := 0; j < n; j++ {
		run(st.clone(), j)
	}
	if !in.Blocking {
		run(st.clone(), -1)
	}
}
