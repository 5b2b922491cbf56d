package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type contFn func(*State, Val)

func (x *Exec) call(st *State, fr *Frame, ins ssa.CallInstruction, c *ssa.CallCommon, id string, cont contFn) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.get(st, fr, a))
	}
	var fv Val
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = x.get(st, fr, c.Value)
	}
	x.callWith(st, fr, ins, c, fv, args, id, cont)
}

func (x *Exec) callWith(st *State, fr *Frame, ins ssa.CallInstruction, c *ssa.CallCommon, fv Val, args []Val, id string, cont contFn) {
	pos := ins.Pos()
	if !pos.IsValid() {
		pos = c.Pos()
	}
	if c.IsInvoke() {
		x.invoke(st, fr, ins, c, fv, args, id, cont, pos)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		cont(st, x.builtin(st, fr, b, c, args, pos))
		return
	}
	f := fv.(Fn)
	sfn, _ := f.F.(*ssa.Function)
	if sfn == nil {
		// dynamic function value: contract by static signature name
		for _, e := range x.sf.Externs {
			if e.Pkg == "dyn" {
				if v, ok := c.Value.(*ssa.UnOp); ok {
					if fa, ok := v.X.(*ssa.FieldAddr); ok {
						nm := under(deref(fa.X.Type())).(*types.Struct).Field(fa.Field).Name()
						if nm == e.Name {
							cont(st, x.applyContract(st, e, args, argTypes(c), c.Signature(), "dyn."+nm, pos))
							return
						}
					}
				}
				if e.Name == c.Value.Name() {
					cont(st, x.applyContract(st, e, args, argTypes(c), c.Signature(), "dyn."+e.Name, pos))
					return
				}
			}
		}
		panic(unsupported("call through a function value (%s)", c))
	}
	x.curCall = ins
	x.callFn(st, fr, sfn, f.Bind, args, argTypes(c), id, cont, pos)
}

// aliases: in "v = helper(v, ...)" the helper's parameter is what v was, so a
// clause about v inside the helper means the parameter.
func (x *Exec) aliases(st *State, fr *Frame, ins ssa.CallInstruction, f *ssa.Function) map[string]string {
	call, ok := ins.(*ssa.Call)
	if !ok || len(call.Call.Args) != len(f.Params) || call.Referrers() == nil {
		return nil
	}
	res := map[string]bool{}
	var scan func(v ssa.Value)
	scan = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
				if o, ok := r.Object().(*types.Var); ok && !r.IsAddr {
					res[o.Name()] = true
				}
			case *ssa.Phi:
				res[r.Comment] = true
			case *ssa.Extract:
				scan(r)
			}
		}
	}
	scan(call)
	var m map[string]string
	for i, p := range f.Params {
		for n, b := range st.names[fr] {
			if b.v == call.Call.Args[i] && !b.addr && res[n] {
				if m == nil {
					m = map[string]string{}
				}
				m[n] = p.Name()
			}
		}
		if q, ok := call.Call.Args[i].(*ssa.Parameter); ok && res[q.Name()] {
			if m == nil {
				m = map[string]string{}
			}
			m[q.Name()] = p.Name()
		}
	}
	for _, p := range f.Params {
		if m[p.Name()] != p.Name() {
			delete(m, p.Name())
		}
	}
	return m
}

// atContract finds an extern contract specialised to the variable or field the receiver is
// (sync Pool.Get@pkg.poolVariable, sync Mutex.Lock@Type.field).
func (x *Exec) atContract(f *ssa.Function, args []Val) *Contract {
	if len(args) == 0 {
		return nil
	}
	p, ok := args[0].(Pt)
	if !ok || p.LV == nil {
		return nil
	}
	k := ""
	switch {
	case p.LV.Kind == "global" && len(p.LV.Path) == 0:
		k = p.LV.Key
	case len(p.LV.Path) > 0:
		t := p.LV.Root
		k = ""
		if n, ok := types.Unalias(t).(*types.Named); ok {
			k = n.Obj().Name()
		}
		for _, s := range p.LV.Path {
			st, ok := under(t).(*types.Struct)
			if !ok || s.Field < 0 {
				return nil
			}
			k += "." + st.Field(s.Field).Name()
			t = st.Field(s.Field).Type()
		}
	default:
		return nil
	}
	pk, n := x.p.keyOf(f)
	for _, c := range x.sf.Externs {
		if c.Pkg == pk && c.Name == n+"@"+k {
			return c
		}
	}
	return nil
}

func argTypes(c *ssa.CallCommon) []types.Type {
	var ts []types.Type
	if c.IsInvoke() {
		ts = append(ts, c.Value.Type())
	}
	for _, a := range c.Args {
		ts = append(ts, a.Type())
	}
	return ts
}

func (x *Exec) callFn(st *State, fr *Frame, f *ssa.Function, bind, args []Val, ats []types.Type, id string, cont contFn, pos token.Pos) {
	if ct := x.atContract(f, args); ct != nil {
		cid := ct.Pkg + "." + ct.Name
		x.usedExt[cid] = true
		cont(st, x.applyContract(st, ct, args, ats, f.Signature, cid, pos))
		return
	}
	if ct := x.p.contractFor(x.sf, f); ct != nil {
		cid := ct.Pkg + "." + ct.Name
		if ct.Extern {
			x.usedExt[cid] = true
		}
		cont(st, x.applyContract(st, ct, args, ats, f.Signature, cid, pos))
		return
	}
	if b := x.bodyFor(f); b != nil && x.p.inModule(b) {
		x.inline(st, fr, b, bind, args, fr.id+"/"+id, cont)
		return
	}
	x.external(st, fr, f, args, ats, cont, pos)
}

// bodyFor: generic instances over type parameters share the origin's body.
func (x *Exec) bodyFor(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil && len(o.Blocks) > 0 {
		all := true
		for _, t := range f.TypeArgs() {
			if !isTypeParam(t) {
				all = false
			}
		}
		if all {
			return o
		}
	}
	return x.bodyOf(f)
}

func (x *Exec) inline(st *State, fr *Frame, f *ssa.Function, bind, args []Val, id string, cont contFn) {
	for p, n := fr, 0; p != nil; p = p.parent {
		if p.fn == f {
			n++
			if n > 1 {
				panic(unsupported("recursive call of %s without a contract", f))
			}
		}
	}
	if fr.depth > 10 {
		panic(unsupported("inlining too deep at %s", f))
	}
	x.inlined[f.String()] = true
	nf := x.newFrame(f, id, fr)
	if x.curCall != nil && x.curCall.Parent() == fr.fn {
		nf.alias = x.aliases(st, fr, x.curCall, f)
	}
	x.curCall = nil
	for i, p := range f.Params {
		st.env[envKey{nf, p}] = args[i]
		x.bindName(st, nf, p.Name(), args[i], false, p.Type(), p)
	}
	for i, p := range f.FreeVars {
		if i < len(bind) {
			st.env[envKey{nf, p}] = bind[i]
		}
	}
	sig := f.Signature
	nf.ret = func(st *State, res []Val) {
		delete(st.names, nf)
		var v Val
		switch sig.Results().Len() {
		case 0:
		case 1:
			v = res[0]
		default:
			v = Tup(res)
		}
		cont(st, v)
	}
	x.runFrom(st, nf, f.Blocks[0], 0)
}

func (x *Exec) invoke(st *State, fr *Frame, ins ssa.CallInstruction, c *ssa.CallCommon, recv Val, args []Val, id string, cont contFn, pos token.Pos) {
	rt := c.Value.Type()
	all := append([]Val{recv}, args...)
	ats := argTypes(c)
	find := func(pkg, name string) *Contract {
		for _, e := range x.sf.Externs {
			if e.Pkg == pkg && e.Name == name {
				return e
			}
		}
		return nil
	}
	if isTypeParam(rt) {
		e := find("T", c.Method.Name())
		if e == nil {
			panic(unsupported("no contract for type parameter method %s", c.Method.Name()))
		}
		x.usedExt["T."+e.Name] = true
		cont(st, x.applyContract(st, e, all, ats, c.Signature(), "T."+e.Name, pos))
		return
	}
	iv := recv.(Ifc)
	if iv.T == "" {
		ms := x.p.prog.MethodSets.MethodSet(iv.Dyn)
		sl := ms.Lookup(c.Method.Pkg(), c.Method.Name())
		if sl != nil {
			if f := x.p.prog.MethodValue(sl); f != nil {
				all[0] = iv.V
				ats[0] = iv.Dyn
				x.callFn(st, fr, f, nil, all, ats, id, cont, pos)
				return
			}
		}
	}
	x.assert(st, not(eq(ifaceTerm(iv), "nil_iface")), "nil", "method call on nil interface ("+c.Method.Name()+")", pos)
	keys := [][2]string{}
	if n, ok := types.Unalias(rt).(*types.Named); ok {
		pk := ""
		if n.Obj().Pkg() != nil {
			pk = x.p.short(n.Obj().Pkg().Path())
		}
		keys = append(keys, [2]string{pk, n.Obj().Name() + "." + c.Method.Name()})
	}
	if r := c.Method.Signature().Recv(); r != nil {
		if n, ok := types.Unalias(r.Type()).(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = x.p.short(n.Obj().Pkg().Path())
			}
			keys = append(keys, [2]string{pk, n.Obj().Name() + "." + c.Method.Name()})
		}
	}
	for _, k := range keys {
		if e := find(k[0], k[1]); e != nil {
			x.usedExt[k[0]+"."+k[1]] = true
			cont(st, x.applyContract(st, e, all, ats, c.Signature(), k[0]+"."+k[1], pos))
			return
		}
	}
	panic(unsupported("no contract for interface method %v.%s", rt, c.Method.Name()))
}

var benignPkgs = map[string]bool{"fmt": true, "log": true, "math": true, "time": true, "strings": true, "strconv": true, "errors": true}

func (x *Exec) external(st *State, fr *Frame, f *ssa.Function, args []Val, ats []types.Type, cont contFn, pos token.Pos) {
	pk, name := x.p.keyOf(f)
	id := pk + "." + name
	switch {
	case pk == "log" && strings.Contains(name, "Fatal"), pk == "os" && name == "Exit":
		x.usedExt[id+" (ends the process)"] = true
		return
	case benignPkgs[pk] || x.sf.Opts["benign:"+pk] != "" || x.sf.Opts["benign:"+id] != "":
		x.usedExt[id+" (no effect on program state, arbitrary result)"] = true
		res := f.Signature.Results()
		if pk == "math" && res.Len() == 1 {
			x.usedExt["math."+name+" (deterministic, otherwise arbitrary)"] = true
			delete(x.usedExt, id+" (no effect on program state, arbitrary result)")
			var as, ss []string
			for i, a := range args {
				as = append(as, flatten(a)...)
				for _, l := range leaves(ats[i]) {
					ss = append(ss, l.Sort)
				}
			}
			t := x.uf("math_"+name, as, ss, leaves(res.At(0).Type())[0].Sort)
			cont(st, unflatten(res.At(0).Type(), []string{t}))
			return
		}
		var v Val
		switch res.Len() {
		case 0:
		case 1:
			v = x.freshVal(st, name, res.At(0).Type())
		default:
			v = x.freshVal(st, name, res)
		}
		cont(st, v)
		return
	}
	panic(unsupported("no contract for external function %s", id))
}

// ---------- builtins ----------

func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	switch b.Name() {
	case "len", "cap":
		switch s := args[0].(type) {
		case Sl:
			if b.Name() == "cap" {
				return Sc{s.Cap, "Int"}
			}
			return Sc{s.Len, "Int"}
		case Ar:
			return Sc{num(s.N), "Int"}
		case Pt:
			at := under(deref(c.Args[0].Type())).(*types.Array)
			return Sc{num(at.Len()), "Int"}
		case Sc:
			if m, ok := under(c.Args[0].Type()).(*types.Map); ok {
				l := x.rd(x.hget(st, x.mlKey(m)), s.T)
				x.assume(st, le("0", l))
				x.assume(st, implies(eq(s.T, "0"), eq(l, "0")))
				return Sc{l, "Int"}
			}
			if s.S == "Str" {
				t := x.uf("strlen", []string{s.T}, []string{"Str"}, "Int")
				x.assume(st, le("0", t))
				return Sc{t, "Int"}
			}
			t := x.fresh("chanlen", "Int")
			x.assume(st, le("0", t))
			return Sc{t, "Int"}
		}
	case "append":
		return x.appendSl(st, c, args, pos)
	case "copy":
		return x.copySl(st, c, args, pos)
	case "delete":
		m := under(c.Args[0].Type()).(*types.Map)
		mr := args[0].(Sc).T
		x.mapDelete(st, m, mr, args[1])
		return nil
	case "clear":
		if m, ok := under(c.Args[0].Type()).(*types.Map); ok {
			mr := args[0].(Sc).T
			k := x.mdKey(m)
			_, inner := arraySorts(x.hkeys[k].Sort)
			x.hset(st, k, store(x.hget(st, k), mr, zeroTerm(inner)))
			x.wlogAdd(st, k, mr)
			k = x.mlKey(m)
			x.hset(st, k, store(x.hget(st, k), mr, "0"))
			x.wlogAdd(st, k, mr)
			return nil
		}
	case "min", "max":
		r := args[0].(Sc)
		for _, a := range args[1:] {
			s := a.(Sc)
			if r.S != "Int" {
				c := x.fltOp("lt", s.T, r.T)
				if b.Name() == "max" {
					c = x.fltOp("lt", r.T, s.T)
				}
				r = Sc{ite(c, s.T, r.T), r.S}
				continue
			}
			if b.Name() == "min" {
				r = Sc{ite(lt(s.T, r.T), s.T, r.T), "Int"}
			} else {
				r = Sc{ite(lt(r.T, s.T), s.T, r.T), "Int"}
			}
		}
		return r
	case "close":
		x.usedExt["close of a channel"] = true
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0], "method value", pos)
		return args[0]
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (x *Exec) appendSl(st *State, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	s := args[0].(Sl)
	st0, ok := under(c.Args[0].Type()).(*types.Slice)
	if !ok {
		panic(unsupported("append to %s", c.Args[0].Type()))
	}
	et := st0.Elem()
	t, ok := args[1].(Sl)
	if !ok {
		panic(unsupported("append of a string"))
	}
	if s.Back != nil {
		return x.appendBack(st, s, t, et, pos)
	}
	n := t.Len
	if n == "0" {
		return s
	}
	var newLen string
	newLen = add(s.Len, n)
	fits := le(newLen, s.Cap)
	r := x.newRef(st, "app")
	arr := r
	ncap := x.fresh("cap", "Int")
	x.assume(st, and(le(newLen, ncap), lt(ncap, two63)))
	if s.Cap != "0" {
		arr = x.fresh("arr", "Int")
		// an empty append to a nil slice stays nil
		x.assume(st, "(= "+arr+" "+ite(or(fits), s.Arr, r)+")")
		x.assume(st, implies(fits, eq(ncap, s.Cap)))
	}
	k, isNumN := isNum(n)
	for _, l := range leaves(et) {
		key := x.eKey(et, l)
		h := x.hget(st, key)
		old := x.rd(h, s.Arr)
		var nw string
		if isNumN && k <= 8 {
			nw = old
			if x.sf.Opts["appendzero"] != "" && s.Cap != "0" {
				// the part of a reallocated array beyond the appended elements is zero
				cl := x.fresh(key+".grown", "(Array Int "+l.Sort+")")
				x.assume(st, fmt.Sprintf("(forall ((j Int)) (! (= %s %s) :pattern (%s)))", sel(cl, "j"), ite(lt("j", add(s.Off, s.Len)), sel(old, "j"), zeroTerm(l.Sort)), sel(cl, "j")))
				nw = ite(fits, old, cl)
			}
			src := func(j int64) string {
				if t.Back != nil {
					v := x.load(st, t.Back.index(add(t.Off, num(j))))
					return leafOf(v, et, l)
				}
				return x.rd(x.rd(h, t.Arr), add(t.Off, num(j)))
			}
			var ix []string
			for j := int64(0); j < k; j++ {
				i := add(add(s.Off, s.Len), num(j))
				ix = append(ix, i)
				nw = store(nw, i, src(j))
			}
			x.hset(st, key, store(h, arr, nw))
			x.upward(st, key, old, sel(x.hget(st, key), arr), ix)
			x.wlogAdd(st, key, arr)
			continue
		} else {
			if t.Back != nil {
				panic(unsupported("append of an array slice of unknown length"))
			}
			nw = x.fresh(key+".app", "(Array Int "+l.Sort+")")
			base := add(s.Off, s.Len)
			x.assume(st, fmt.Sprintf("(forall ((j Int)) (! (= %s (ite (and (<= %s j) (< j %s)) %s %s)) :pattern (%s)))",
				sel(nw, "j"), base, add(base, n), sel(x.rd(h, t.Arr), add(t.Off, sub("j", base))), sel(old, "j"), sel(nw, "j")))
		}
		x.hset(st, key, store(h, arr, nw))
		x.wlogAdd(st, key, arr)
	}
	if !isNumN {
		// nothing appended: the slice is unchanged (contents already equal)
		return Sl{Arr: ite(eq(n, "0"), s.Arr, arr), Off: s.Off, Len: newLen, Cap: ite(eq(n, "0"), s.Cap, ncap)}
	}
	return Sl{Arr: arr, Off: s.Off, Len: newLen, Cap: ncap}
}

func leafOf(v Val, t types.Type, l Leaf) string {
	fl := flatten(v)
	for i, q := range leaves(t) {
		if q.Path == l.Path {
			return fl[i]
		}
	}
	panic("leafOf")
}

// appendBack: append to a slice of an array variable that stays within it.
func (x *Exec) appendBack(st *State, s, t Sl, et types.Type, pos token.Pos) Val {
	panic(unsupported("append to a slice of an array variable"))
}

func (x *Exec) copySl(st *State, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	d := args[0].(Sl)
	s, ok := args[1].(Sl)
	if !ok {
		panic(unsupported("copy from a string"))
	}
	et := under(c.Args[0].Type()).(*types.Slice).Elem()
	n := ite(le(d.Len, s.Len), d.Len, s.Len)
	for _, l := range leaves(et) {
		var srcA string
		if s.Back != nil {
			av := x.load(st, s.Back).(Ar)
			srcA = leafOf2(av, et, l)
		} else {
			srcA = x.rd(x.hget(st, x.eKey(et, l)), s.Arr)
		}
		nw := x.fresh("copy", "(Array Int "+l.Sort+")")
		var old string
		if d.Back != nil {
			old = leafOf2(x.load(st, d.Back).(Ar), et, l)
		} else {
			old = x.rd(x.hget(st, x.eKey(et, l)), d.Arr)
		}
		x.assume(st, fmt.Sprintf("(forall ((j Int)) (! (= %s (ite (and (<= %s j) (< j %s)) %s %s)) :pattern (%s)))",
			sel(nw, "j"), d.Off, add(d.Off, n), sel(srcA, add(s.Off, sub("j", d.Off))), sel(old, "j"), sel(nw, "j")))
		if d.Back != nil {
			av := x.load(st, d.Back).(Ar)
			na := Ar{N: av.N, L: append([]string{}, av.L...)}
			for i, q := range leaves(et) {
				if q.Path == l.Path {
					na.L[i] = nw
				}
			}
			x.store(st, d.Back, na)
		} else {
			key := x.eKey(et, l)
			x.hset(st, key, store(x.hget(st, key), d.Arr, nw))
			x.wlogAdd(st, key, d.Arr)
		}
	}
	return Sc{n, "Int"}
}

func leafOf2(a Ar, et types.Type, l Leaf) string {
	for i, q := range leaves(et) {
		if q.Path == l.Path {
			return a.L[i]
		}
	}
	panic("leafOf2")
}

// ---------- contracts at call sites ----------

func (x *Exec) applyContract(st *State, c *Contract, args []Val, ats []types.Type, sig *types.Signature, id string, pos token.Pos) Val {
	if len(c.Params) != len(args) {
		panic(unsupported("contract of %s has %d parameters, the code passes %d", id, len(c.Params), len(args)))
	}
	before := x.beforeHints(st, c, args, ats)
	params := map[string]tv{}
	for i, n := range c.Params {
		params[n] = tv{v: args[i], t: ats[i]}
	}
	pkg := x.curPkg()
	if !c.Extern {
		if sp, ok := x.p.pkgs[c.Pkg]; ok {
			pkg = sp.Pkg
		}
	}
	e := &ev{x: x, st: st, old: st, vars: map[string]tv{}, params: params, pkg: pkg}
	must := func(what string, cl Clause, f func() string) string {
		s, err := x.guard(f)
		if err != nil {
			panic(unsupported("%s of %s does not evaluate: %v [%s]", what, id, err, cl.Src))
		}
		return s
	}
	if !c.Extern && !c.Nilable && len(args) > 0 && sig != nil && sig.Recv() != nil {
		x.nonNil(st, args[0], "method receiver of "+id, pos)
	}
	for i, cl := range c.Clauses {
		if cl.Kind == "requires" {
			g := must("requires", cl, func() string { return e.term(cl.E) })
			x.assert(st, g, "precondition", fmt.Sprintf("precondition of %s: %s", id, clauseName(cl, i)), pos)
		}
		if cl.Kind == "panics" {
			g := must("panics", cl, func() string { return e.term(cl.E) })
			x.assert(st, not(g), "panic", fmt.Sprintf("call of %s does not panic: %s", id, clauseName(cl, i)), pos)
		}
	}
	pre := st.clone()
	e.old = pre
	ee := e.in(pre)
	var locs []modLoc
	if !c.HasMod && !c.Extern {
		panic(unsupported("contract of %s used at a call has no modifies clause", id))
	}
	for _, m := range c.Modifies {
		_, err := x.guard(func() string {
			locs = append(locs, ee.locs(m)...)
			return ""
		})
		if err != nil {
			panic(unsupported("modifies of %s: %v", id, err))
		}
	}
	na := x.fresh("alloc", "Int")
	x.assume(st, le(st.alloc, na))
	st.alloc = na
	for _, l := range locs {
		x.havocLoc(st, l)
	}
	var res Val
	if sig != nil {
		switch sig.Results().Len() {
		case 0:
		case 1:
			res = x.freshVal(st, "r_"+lastPart(id), sig.Results().At(0).Type())
		default:
			res = x.freshVal(st, "r_"+lastPart(id), sig.Results())
		}
	}
	ep := e.in(st)
	ep.params = map[string]tv{}
	for k, v := range params {
		ep.params[k] = v
	}
	if sig != nil {
		for i := 0; i < sig.Results().Len(); i++ {
			var v Val = res
			if tp, ok := res.(Tup); ok {
				v = tp[i]
			}
			t := tv{v: v, t: sig.Results().At(i).Type()}
			if i < len(c.Results) {
				ep.params[c.Results[i]] = t
			}
			if i == 0 {
				ep.params["result"] = t
			}
			ep.params[fmt.Sprintf("result%d", i)] = t
		}
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "ensures" || cl.Kind == "defines" {
			g := must("ensures", cl, func() string { return ep.term(cl.E) })
			x.assume(st, g)
		}
	}
	results := map[string]tv{}
	for k, v := range ep.params {
		if strings.HasPrefix(k, "result") {
			results[k] = v
		}
	}
	x.afterHints(st, c, before, results)
	return res
}

// beforeHints: the state before a call, when the contract under verification has hints for it.
func (x *Exec) beforeHints(st *State, c *Contract, args []Val, ats []types.Type) *State {
	if x.ct == nil {
		return nil
	}
	for _, cl := range x.ct.Clauses {
		if cl.Kind != "callghost" || cl.Name != lastPart(c.Name) {
			continue
		}
		vars := map[string]tv{}
		for i := range args {
			vars[fmt.Sprintf("arg%d", i)] = tv{v: args[i], t: ats[i]}
		}
		v, err := x.evalTop(st, x.top, st.loops, cl.E, vars)
		if err != nil {
			x.bindErr(st, cl, err, nil)
			continue
		}
		x.hset(st, x.ghostKey(cl.Src), v)
		x.wlogAdd(st, x.ghostKey(cl.Src), "")
	}
	if x.dry > 0 {
		return nil
	}
	for _, cl := range x.ct.Clauses {
		if cl.Kind != "before" || cl.Name != lastPart(c.Name) {
			continue
		}
		vars := map[string]tv{}
		for i := range args {
			vars[fmt.Sprintf("arg%d", i)] = tv{v: args[i], t: ats[i]}
		}
		if x.lemmaHint(st, x.top, st.loops, cl, vars) {
			continue
		}
		if g, err := x.evalTop(st, x.top, st.loops, cl.E, vars); err != nil {
			dropped(cl, err)
		} else {
			x.assert(st, g, "assert", "assertion before call of "+cl.Name, token.NoPos)
		}
	}
	for _, cl := range x.ct.Clauses {
		if (cl.Kind == "after" || cl.Kind == "grant") && cl.Name == lastPart(c.Name) {
			return st.clone()
		}
	}
	return nil
}

// afterHints: "after f: hint" clauses, evaluated after each call of f; pre(e) is e before the call.
func (x *Exec) afterHints(st *State, c *Contract, before *State, results map[string]tv) {
	if before == nil {
		return
	}
	ctx := &LoopCtx{parent: st.loops, pre: before}
	if st.loops != nil {
		ctx.head, ctx.k = st.loops.head, st.loops.k
	}
	for _, cl := range x.ct.Clauses {
		if cl.Kind == "grant" && cl.Name == lastPart(c.Name) {
			// an assumption of the contract file, listed as such in the evidence
			if g, err := x.evalTop(st, x.top, ctx, cl.E, results); err == nil {
				x.assume(st, g)
			} else {
				x.bindErr(st, cl, err, nil)
			}
			continue
		}
		if cl.Kind != "after" || cl.Name != lastPart(c.Name) {
			continue
		}
		if x.lemmaHint(st, x.top, ctx, cl, results) {
			continue
		}
		if g, err := x.evalTop(st, x.top, ctx, cl.E, results); err == nil {
			x.assert(st, g, "assert", "assertion after call of "+cl.Name, token.NoPos)
		} else {
			dropped(cl, err)
		}
	}
}

// dropped reports a hint that does not bind (development aid: GOVC_DROPPED=1).
func dropped(cl Clause, err error) {
	if os.Getenv("GOVC_DROPPED") != "" {
		fmt.Fprintf(os.Stderr, "dropped: %s %s: %v\n", cl.Kind, cl.Name, err)
	}
}

func lastPart(s string) string { return s[strings.LastIndex(s, ".")+1:] }
