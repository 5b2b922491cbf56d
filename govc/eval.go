package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tv is a value in a specification; t is nil for purely logical values.
type tv struct {
	v   Val
	t   types.Type
	s   string // SMT sort of logical values; "nil" for the nil literal
	typ types.Type // for type literals
}

type ev struct {
	x    *Exec
	st   *State
	fr   *Frame
	ctx  *LoopCtx
	vars map[string]tv
	old  *State
	// names bound by a contract header (parameters and results)
	params map[string]tv
	pkg    *types.Package
	depth  int
	top    *State // the state facts are added to
}

type evalErr struct{ msg string }

func everr(f string, a ...any) evalErr { return evalErr{fmt.Sprintf(f, a...)} }

func (e *ev) with(n string, v tv) *ev {
	c := *e
	c.vars = make(map[string]tv, len(e.vars)+1)
	for k, x := range e.vars {
		c.vars[k] = x
	}
	c.vars[n] = v
	return &c
}

func (e *ev) in(st *State) *ev {
	c := *e
	if c.top == nil {
		c.top = c.st
	}
	c.st = st
	return &c
}

func logical(t, s string) tv { return tv{v: Sc{t, s}, s: s} }

func (x *Exec) guard(f func() string) (r string, err error) {
	defer func() {
		if p := recover(); p != nil {
			switch q := p.(type) {
			case evalErr:
				err = fmt.Errorf("%s", q.msg)
			case unsupportedErr:
				err = fmt.Errorf("%s", q.msg)
			default:
				panic(p)
			}
		}
	}()
	return f(), nil
}

// evalTop evaluates a clause in the context of the function being verified.
func (x *Exec) evalTop(st *State, fr *Frame, ctx *LoopCtx, e Expr, extra map[string]tv) (string, error) {
	return x.guard(func() string {
		v := &ev{x: x, st: st, fr: fr, ctx: ctx, vars: extra, old: x.oldSt, pkg: x.curPkg()}
		return v.term(e)
	})
}

func (x *Exec) evalEntry(e Expr) (string, error) {
	return x.guard(func() string {
		v := &ev{x: x, st: x.oldSt, fr: x.top, old: x.oldSt, pkg: x.curPkg()}
		return v.term(e)
	})
}

func (x *Exec) curPkg() *types.Package {
	f := x.topFn
	if f == nil {
		return nil
	}
	f = origin(f)
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (e *ev) term(x Expr) string {
	v := e.eval(x)
	return e.scalar(v)
}

func (e *ev) scalar(v tv) string {
	switch q := v.v.(type) {
	case Sc:
		return q.T
	case Pt:
		if q.LV == nil {
			return q.Ref
		}
		panic(everr("interior pointer used as a value"))
	case Ifc:
		return ifaceTerm(q)
	case Fn:
		return q.T
	case Sl:
		panic(everr("slice used as a scalar"))
	}
	panic(everr("value %T used as a scalar", v.v))
}

func (e *ev) sortOf(v tv) string {
	if v.t == nil {
		return v.s
	}
	return sortOf(v.t)
}

func (e *ev) lookupName(n string) (tv, bool) {
	if v, ok := e.vars[n]; ok {
		return v, true
	}
	x := e.x
	if strings.HasPrefix(n, "$") {
		if n == "$k" || n == "$k1" || n == "$k2" || n == "$k3" {
			c := e.ctx
			if n == "$k" {
				if c == nil {
					panic(everr("$k outside a loop"))
				}
				return logical(c.k, "Int"), true
			}
			for ; c != nil; c = c.parent {
				if fmt.Sprintf("$k%d", c.li.ord) == n {
					return logical(c.k, "Int"), true
				}
			}
			panic(everr("%s: no such enclosing loop", n))
		}
		if n == "$visited" {
			c := e.ctx
			if c == nil {
				panic(everr("$visited outside a loop"))
			}
			for _, b := range c.li.hdr.Instrs {
				if nx, ok := b.(*ssa.Next); ok {
					it := e.x.get(e.st, c.fr, nx.Iter).(iterVal)
					s := e.st.locals[it.key].(Sc)
					return logical(s.T, s.S), true
				}
			}
			panic(everr("$visited: not a map iteration"))
		}
		if so, ok := x.sf.Ghosts[n]; ok {
			return logical(x.hget(e.st, x.ghostKey(n)), so), true
		}
		panic(everr("unknown ghost %s", n))
	}
	if v, ok := e.params[n]; ok {
		return v, true
	}
	// a variable handed to an inlined helper and assigned from its result
	for fr := e.fr; fr != nil; fr = fr.parent {
		if a, ok := fr.alias[n]; ok {
			if b, ok := e.st.names[fr][a]; ok {
				return e.fromBind(b, fr), true
			}
		}
	}
	// header names of the verified contract map to its actual parameters
	if e.fr != nil && x.ct != nil {
		for i, pn := range x.ct.Params {
			if pn == n && x.top != nil {
				p := x.bodyOf(x.topFn).Params[i]
				if b, ok := e.st.names[x.top][p.Name()]; ok {
					return e.fromBind(b, x.top), true
				}
				return tv{v: x.get(e.st, x.top, p), t: p.Type()}, true
			}
		}
	}
	for fr := e.fr; fr != nil; fr = fr.parent {
		if b, ok := e.st.names[fr][n]; ok {
			return e.fromBind(b, fr), true
		}
		for _, p := range fr.fn.Params {
			if p.Name() == n {
				if v, ok := e.st.env[envKey{fr, p}]; ok {
					return tv{v: v, t: p.Type()}, true
				}
			}
		}
		for _, p := range fr.fn.FreeVars {
			if p.Name() == n {
				if v, ok := e.st.env[envKey{fr, p}]; ok {
					pt := v.(Pt)
					el := deref(p.Type())
					return tv{v: x.load(e.st, x.lvOf(e.st, pt, el)), t: el}, true
				}
			}
		}
	}
	// a declared loop variable: the loop-carried variable of that type
	if x.ct != nil {
		for _, l := range x.ct.Locals {
			f := strings.Fields(l)
			if len(f) < 2 || f[0] != n {
				continue
			}
			want := 0
			if len(f) > 2 {
				fmt.Sscan(f[2], &want)
			}
			for c := e.ctx; c != nil; c = c.parent {
				k := 0
				if c.li == nil {
					continue
				}
				for _, in := range c.li.hdr.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if !typeNamed(p.Type(), f[1]) {
						continue
					}
					if k == want {
						if v, ok := e.st.env[envKey{c.fr, p}]; ok {
							return tv{v: v, t: p.Type()}, true
						}
					}
					k++
				}
			}
			// otherwise the only variable of that type in scope
			for fr := e.fr; fr != nil; fr = fr.parent {
				var hit []nameBind
				for _, b := range e.st.names[fr] {
					if typeNamed(b.typ, f[1]) {
						hit = append(hit, b)
					}
				}
				if len(hit) == 1 {
					return e.fromBind(hit[0], fr), true
				}
			}
		}
	}
	switch n {
	case "true", "false":
		return logical(n, "Bool"), true
	case "nil":
		return tv{s: "nil"}, true
	}
	if lf, ok := x.sf.Logic[n]; ok && len(lf.Args) == 0 {
		return logical(n, lf.Ret), true
	}
	if d, ok := x.sf.Defines[n]; ok && len(d.Params) == 0 {
		return e.eval(d.Body), true
	}
	if e.pkg != nil {
		switch o := e.pkg.Scope().Lookup(n).(type) {
		case *types.Const:
			return e.constTV(o), true
		case *types.Var:
			lv := &LV{Kind: "global", Key: e.pkg.Path()[strings.LastIndex(e.pkg.Path(), "/")+1:] + "." + n, Root: o.Type(), T: o.Type()}
			return tv{v: x.load(e.st, lv), t: o.Type()}, true
		}
	}
	return tv{}, false
}

// bindOf finds the source variable a specification name denotes.
func (e *ev) bindOf(n string) (nameBind, *Frame, bool) {
	for fr := e.fr; fr != nil; fr = fr.parent {
		if b, ok := e.st.names[fr][n]; ok {
			return b, fr, true
		}
	}
	if e.x.ct != nil {
		for _, l := range e.x.ct.Locals {
			f := strings.Fields(l)
			if len(f) < 2 || f[0] != n {
				continue
			}
			for fr := e.fr; fr != nil; fr = fr.parent {
				var hit []nameBind
				for _, b := range e.st.names[fr] {
					if typeNamed(b.typ, f[1]) {
						hit = append(hit, b)
					}
				}
				if len(hit) == 1 {
					return hit[0], fr, true
				}
			}
		}
	}
	return nameBind{}, nil, false
}

func (e *ev) constTV(o *types.Const) tv {
	c := ssa.NewConst(o.Val(), o.Type())
	if o.Val().Kind() == constant.Int {
		s := o.Val().ExactString()
		if strings.HasPrefix(s, "-") {
			s = "(- " + s[1:] + ")"
		}
		return logical(s, "Int")
	}
	return tv{v: e.x.constVal(c), t: o.Type()}
}

func (e *ev) fromBind(b nameBind, fr *Frame) tv {
	x := e.x
	if b.addr {
		// address-taken variable: current content
		var v Val = b.val
		if b.v != nil {
			if cv, ok := e.st.env[envKey{fr, b.v}]; ok {
				v = cv
			}
		}
		pt, ok := v.(Pt)
		if !ok {
			panic(everr("address binding of unexpected kind"))
		}
		return tv{v: x.load(e.st, x.lvOf(e.st, pt, b.typ)), t: b.typ}
	}
	return tv{v: b.val, t: b.typ}
}

func (x *Exec) ghostKey(n string) string {
	return x.regKey(hkey{n, x.sf.Ghosts[n], Leaf{"", x.sf.Ghosts[n], ""}, "$"})
}

func (e *ev) eval(ex Expr) tv {
	x := e.x
	switch n := ex.(type) {
	case ENum:
		return logical(n.V, "Int")
	case EIdent:
		v, ok := e.lookupName(n.Name)
		if !ok {
			// a type name used as an argument
			panic(everr("unknown name %q", n.Name))
		}
		return v
	case EType:
		return tv{typ: e.typeOf(n.Name), s: "type"}
	case ESel:
		// qualified constants/variables of other packages are not supported
		return e.sel(e.eval(n.X), n.F)
	case EIdx:
		return e.index(e.eval(n.X), e.eval(n.I))
	case EUn:
		switch n.Op {
		case "!":
			return logical(not(e.term(n.X)), "Bool")
		case "-":
			t := e.eval(n.X)
			if e.sortOf(t) == "Real" {
				return logical("(- "+e.scalar(t)+")", "Real")
			}
			return logical(sub("0", e.scalar(t)), "Int")
		case "*":
			v := e.eval(n.X)
			pt, ok := v.v.(Pt)
			if !ok || v.t == nil {
				panic(everr("dereference of a non-pointer"))
			}
			el := deref(v.t)
			return tv{v: x.load(e.st, x.lvOf(e.st, pt, el)), t: el}
		}
		if id, ok := n.X.(EIdent); ok && n.Op == "&" {
			if b, fr, ok := e.bindOf(id.Name); ok && b.addr {
				v := b.val
				if b.v != nil {
					if cv, ok := e.st.env[envKey{fr, b.v}]; ok {
						v = cv
					}
				}
				return tv{v: v, t: types.NewPointer(b.typ)}
			}
			panic(everr("address of %s", id.Name))
		}
		panic(everr("unary %s", n.Op))
	case EBin:
		return e.bin(n)
	case EQuant:
		return e.quant(n)
	case ELet:
		return e.with(n.Name, e.eval(n.E)).eval(n.Body)
	case ECall:
		return e.call(n)
	}
	panic(everr("expression %T", ex))
}

func (e *ev) sel(b tv, f string) tv {
	x := e.x
	if b.t == nil {
		panic(everr("field %s of a logical value", f))
	}
	obj, path, _ := types.LookupFieldOrMethod(b.t, true, e.pkgOfType(b.t), f)
	v, ok := obj.(*types.Var)
	if !ok || v == nil {
		panic(everr("no field %s in %s", f, b.t))
	}
	cur := b
	for _, i := range path {
		t := types.Unalias(cur.t)
		if pt, ok := under(t).(*types.Pointer); ok {
			st, ok := under(pt.Elem()).(*types.Struct)
			if !ok {
				panic(everr("field of %s", t))
			}
			p, ok := cur.v.(Pt)
			if !ok {
				panic(everr("pointer value expected"))
			}
			lv := x.lvOf(e.st, p, pt.Elem()).field(i)
			cur = tv{v: x.load(e.st, lv), t: st.Field(i).Type()}
			continue
		}
		st, ok := under(t).(*types.Struct)
		if !ok {
			panic(everr("field of %s", t))
		}
		cur = tv{v: cur.v.(St).F[i], t: st.Field(i).Type()}
	}
	return cur
}

func (e *ev) pkgOfType(t types.Type) *types.Package {
	t = types.Unalias(t)
	for {
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
			continue
		}
		break
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return e.pkg
}

func (e *ev) index(b, i tv) tv {
	x := e.x
	if b.t == nil {
		if !strings.HasPrefix(b.s, "(Array") {
			panic(everr("index of a non-array"))
		}
		_, es := arraySorts(b.s)
		return logical(x.rd(e.scalar(b), e.scalar(i)), es)
	}
	switch t := under(b.t).(type) {
	case *types.Slice:
		s := b.v.(Sl)
		ix := add(s.Off, e.scalar(i))
		if s.Back != nil {
			return tv{v: x.load(e.st, s.Back.index(ix)), t: t.Elem()}
		}
		lv := &LV{Kind: "elem", Root: t.Elem(), Ref: s.Arr, Idx: ix, T: t.Elem()}
		return tv{v: x.load(e.st, lv), t: t.Elem()}
	case *types.Array:
		return tv{v: x.arIndex(b.v.(Ar), t.Elem(), e.scalar(i)), t: t.Elem()}
	case *types.Map:
		mr := e.scalar(b)
		k := e.mapKey(t, i)
		var ts []string
		for _, l := range leaves(t.Elem()) {
			ts = append(ts, x.rd(x.rd(x.hget(e.st, x.mvKey(t, l)), mr), k))
		}
		return tv{v: unflatten(t.Elem(), ts), t: t.Elem()}
	case *types.Pointer:
		if at, ok := under(t.Elem()).(*types.Array); ok {
			lv := x.lvOf(e.st, b.v.(Pt), t.Elem()).index(e.scalar(i))
			return tv{v: x.load(e.st, lv), t: at.Elem()}
		}
	}
	panic(everr("index of %s", b.t))
}

func (e *ev) mapKey(m *types.Map, i tv) string {
	if i.t == nil {
		return e.scalar(i)
	}
	if _, ok := under(m.Key()).(*types.Interface); ok {
		if _, isI := under(i.t).(*types.Interface); !isI {
			return ifaceTerm(Ifc{Dyn: i.t, V: i.v})
		}
	}
	return e.x.mapKeyTerm(m, i.v)
}

func (e *ev) eqTV(a, b tv) string {
	if a.s == "nil" && a.t == nil {
		a, b = b, a
	}
	if b.s == "nil" && b.t == nil {
		switch v := a.v.(type) {
		case Pt:
			if v.LV != nil {
				return "false"
			}
			return eq(v.Ref, "0")
		case Sl:
			return eq(v.Arr, "0")
		case Ifc:
			if v.T == "" {
				return "false"
			}
			return eq(v.T, "nil_iface")
		case Fn:
			return eq(v.T, "0")
		case Sc:
			return eq(v.T, "0")
		}
		panic(everr("comparison with nil"))
	}
	fa, fb := e.flat(a, b.t), e.flat(b, a.t)
	if len(fa) != len(fb) {
		panic(everr("comparison of different shapes"))
	}
	r := "true"
	for i := range fa {
		r = and(r, eq(fa[i], fb[i]))
	}
	return r
}

// flat flattens a value, boxing it when the other side is an interface.
func (e *ev) flat(a tv, other types.Type) []string {
	if other != nil && a.t != nil {
		if _, ok := under(other).(*types.Interface); ok && !isTypeParam(other) {
			if _, isI := under(a.t).(*types.Interface); !isI {
				return []string{ifaceTerm(Ifc{Dyn: a.t, V: a.v})}
			}
		}
	}
	return flatten(a.v)
}

func (e *ev) bin(n EBin) tv {
	switch n.Op {
	case "&&":
		a := e.term(n.X)
		if a == "false" {
			return logical("false", "Bool")
		}
		return logical(and(a, e.term(n.Y)), "Bool")
	case "||":
		return logical(or(e.term(n.X), e.term(n.Y)), "Bool")
	case "==>":
		a := e.term(n.X)
		if a == "false" {
			return logical("true", "Bool")
		}
		return logical(implies(a, e.term(n.Y)), "Bool")
	case "<==>":
		return logical(eq(e.term(n.X), e.term(n.Y)), "Bool")
	case "==":
		return logical(e.eqTV(e.eval(n.X), e.eval(n.Y)), "Bool")
	case "!=":
		return logical(not(e.eqTV(e.eval(n.X), e.eval(n.Y))), "Bool")
	case "in":
		k, m := e.eval(n.X), e.eval(n.Y)
		if m.t == nil {
			return logical(e.x.rd(e.scalar(m), e.scalar(k)), "Bool")
		}
		mt, ok := under(m.t).(*types.Map)
		if !ok {
			panic(everr("in: map expected"))
		}
		return logical(e.x.rd(e.x.rd(e.x.hget(e.st, e.x.mdKey(mt)), e.scalar(m)), e.mapKey(mt, k)), "Bool")
	}
	av, bv := e.eval(n.X), e.eval(n.Y)
	a, b := e.scalar(av), e.scalar(bv)
	so := e.sortOf(av)
	if so == "Real" || e.sortOf(bv) == "Real" {
		if e.sortOf(av) == "Int" {
			a = "(to_real " + a + ")"
		}
		if e.sortOf(bv) == "Int" {
			b = "(to_real " + b + ")"
		}
		switch n.Op {
		case "<":
			return logical("(< "+a+" "+b+")", "Bool")
		case "<=":
			return logical("(<= "+a+" "+b+")", "Bool")
		case ">":
			return logical("(< "+b+" "+a+")", "Bool")
		case ">=":
			return logical("(<= "+b+" "+a+")", "Bool")
		}
		return logical("("+n.Op+" "+a+" "+b+")", "Real")
	}
	if so == "Flt" {
		switch n.Op {
		case "<":
			return logical(e.x.fltOp("lt", a, b), "Bool")
		case "<=":
			return logical(e.x.fltOp("le", a, b), "Bool")
		case ">":
			return logical(e.x.fltOp("lt", b, a), "Bool")
		case ">=":
			return logical(e.x.fltOp("le", b, a), "Bool")
		}
		op := map[string]string{"+": "add", "-": "sub", "*": "mul", "/": "div"}[n.Op]
		return logical(e.x.fltOp(op, a, b), "Flt")
	}
	if so == "Str" {
		switch n.Op {
		case "<":
			return logical(app("str_lt", a, b), "Bool")
		case ">":
			return logical(app("str_lt", b, a), "Bool")
		}
	}
	switch n.Op {
	case "<":
		return logical(lt(a, b), "Bool")
	case "<=":
		return logical(le(a, b), "Bool")
	case ">":
		return logical(lt(b, a), "Bool")
	case ">=":
		return logical(le(b, a), "Bool")
	case "+":
		return logical(add(a, b), "Int")
	case "-":
		return logical(sub(a, b), "Int")
	case "*":
		return logical(mul(a, b), "Int")
	case "/":
		return logical(app("div", a, b), "Int")
	case "%":
		return logical(app("mod", a, b), "Int")
	}
	panic(everr("operator %s", n.Op))
}

func (e *ev) quant(q EQuant) tv {
	cur := e
	var decl []string
	guard := "true"
	for _, v := range q.Vars {
		e.x.nfresh++
		if v.In != nil {
			s := cur.eval(v.In)
			j := fmt.Sprintf("q_%s_%d", v.Name, e.x.nfresh)
			decl = append(decl, "("+j+" Int)")
			if s.t == nil {
				panic(everr("quantification over a logical value"))
			}
			switch sv := s.v.(type) {
			case Sl:
				guard = and(guard, le(sv.Off, j), lt(j, add(sv.Off, sv.Len)))
				cur = cur.with(v.Name, logical(sub(j, sv.Off), "Int"))
			case Ar:
				guard = and(guard, le("0", j), lt(j, num(sv.N)))
				cur = cur.with(v.Name, logical(j, "Int"))
			default:
				panic(everr("quantification over %s", s.t))
			}
			continue
		}
		j := fmt.Sprintf("q_%s_%d", v.Name, e.x.nfresh)
		so, t := cur.quantSort(v.Typ)
		decl = append(decl, "("+j+" "+so+")")
		if t != nil {
			cur = cur.with(v.Name, tv{v: unflatten(t, []string{j}), t: t})
			if k := intKind(t); k != "" && k != "int" {
				guard = and(guard, wfLeaf(Leaf{"", "Int", k}, j, ""))
			}
		} else {
			cur = cur.with(v.Name, logical(j, so))
		}
	}
	body := cur.term(q.Body)
	pats := ""
	for _, tr := range q.Trig {
		var ts []string
		for _, t := range tr {
			ts = append(ts, cur.term(t))
		}
		pats += " :pattern (" + strings.Join(ts, " ") + ")"
	}
	var b string
	kw := "exists"
	if q.Forall {
		kw = "forall"
		b = implies(guard, body)
	} else {
		b = and(guard, body)
	}
	if b == "true" || b == "false" {
		return logical(b, "Bool")
	}
	if pats != "" {
		b = "(! " + b + pats + ")"
	}
	return logical("("+kw+" ("+strings.Join(decl, " ")+") "+b+")", "Bool")
}

func (e *ev) quantSort(ts string) (string, types.Type) {
	switch ts {
	case "ints":
		return "(Array Int Int)", nil
	case "bools":
		return "(Array Int Bool)", nil
	case "int", "ref", "box", "Int":
		return "Int", nil
	case "bool", "Bool":
		return "Bool", nil
	case "Flt", "Real", "Str", "Iface":
		return ts, nil
	}
	if strings.HasPrefix(ts, "(") {
		return ts, nil
	}
	t := e.typeOf(ts)
	s := sortOf(t)
	if s == "" {
		panic(everr("cannot quantify over %s", ts))
	}
	return s, t
}

// typeOf resolves a Go type written in a specification.
func (e *ev) typeOf(s string) types.Type {
	ex, err := parser.ParseExpr(s)
	if err != nil {
		panic(everr("type %q: %v", s, err))
	}
	return e.typeExpr(ex)
}

func (e *ev) typeExpr(ex ast.Expr) types.Type {
	switch n := ex.(type) {
	case *ast.StarExpr:
		return types.NewPointer(e.typeExpr(n.X))
	case *ast.ArrayType:
		if n.Len == nil {
			return types.NewSlice(e.typeExpr(n.Elt))
		}
		l, ok := n.Len.(*ast.BasicLit)
		if !ok {
			panic(everr("array length"))
		}
		var k int64
		fmt.Sscan(l.Value, &k)
		return types.NewArray(e.typeExpr(n.Elt), k)
	case *ast.MapType:
		return types.NewMap(e.typeExpr(n.Key), e.typeExpr(n.Value))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.StructType:
		return types.NewStruct(nil, nil)
	case *ast.Ident:
		if n.Name == "T" {
			if tp := e.typeParam(); tp != nil {
				return tp
			}
		}
		if b := types.Universe.Lookup(n.Name); b != nil {
			if tn, ok := b.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if e.pkg != nil {
			if tn, ok := e.pkg.Scope().Lookup(n.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
		panic(everr("unknown type %s", n.Name))
	case *ast.SelectorExpr:
		id := n.X.(*ast.Ident).Name
		for _, p := range e.pkg.Imports() {
			if p.Name() == id {
				if tn, ok := p.Scope().Lookup(n.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		for short, sp := range e.x.p.pkgs {
			if short == id || strings.HasSuffix(short, "/"+id) {
				if tn, ok := sp.Pkg.Scope().Lookup(n.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		panic(everr("unknown type %s.%s", id, n.Sel.Name))
	case *ast.IndexExpr:
		g := e.typeExpr(n.X)
		nm, ok := g.(*types.Named)
		if !ok {
			panic(everr("instantiation of %s", g))
		}
		t, err := types.Instantiate(nil, nm.Origin(), []types.Type{e.typeExpr(n.Index)}, false)
		if err != nil {
			panic(everr("%v", err))
		}
		return t
	}
	panic(everr("type expression %T", ex))
}

func (e *ev) typeParam() types.Type {
	f := e.x.topFn
	if f == nil {
		return nil
	}
	sig := origin(f).Signature
	if r := sig.RecvTypeParams(); r != nil && r.Len() > 0 {
		return r.At(0)
	}
	if r := sig.TypeParams(); r != nil && r.Len() > 0 {
		return r.At(0)
	}
	return nil
}

func (e *ev) sliceOf(v tv) (Sl, types.Type) {
	s, ok := v.v.(Sl)
	if !ok || v.t == nil {
		panic(everr("slice expected"))
	}
	e.sliceFacts(s)
	return s, under(v.t).(*types.Slice).Elem()
}

var boundRe = regexp.MustCompile(`(^|[ (])[ql]_`)

// sliceFacts: every slice value is well-formed.
func (e *ev) sliceFacts(s Sl) {
	st := e.top
	if st == nil {
		st = e.st
	}
	for _, t := range []string{s.Arr, s.Len, s.Cap} {
		if boundRe.MatchString(t) {
			return
		}
	}
	for _, f := range []string{le("0", s.Len), le(s.Len, s.Cap), implies(eq(s.Arr, "0"), eq(s.Cap, "0"))} {
		if f != "true" && !st.knows(f) {
			e.x.assume(st, f)
		}
	}
}

func (e *ev) leafAt(t types.Type, path string) Leaf {
	for _, l := range leaves(t) {
		if l.Path == path {
			return l
		}
	}
	var ps []string
	for _, l := range leaves(t) {
		ps = append(ps, l.Path)
	}
	panic(everr("no leaf %q in %s (has %v)", path, t, ps))
}

func (e *ev) argStr(a Expr) string {
	switch q := a.(type) {
	case EType:
		return q.Name
	case EIdent:
		return q.Name
	}
	panic(everr("string argument expected"))
}

func (e *ev) call(n ECall) tv {
	x := e.x
	// user macros and logic functions first
	if d, ok := x.sf.Defines[n.F]; ok {
		if len(d.Params) != len(n.Args) {
			panic(everr("%s: wrong number of arguments", n.F))
		}
		if e.depth > 40 {
			panic(everr("%s: recursive define", n.F))
		}
		c := *e
		c.depth++
		c.vars = map[string]tv{}
		for i, p := range d.Params {
			c.vars[p] = e.eval(n.Args[i])
		}
		// macro bodies see only their parameters, logic symbols and ghosts
		c.params, c.fr = nil, e.fr
		return c.eval(d.Body)
	}
	if lf, ok := x.sf.Logic[n.F]; ok {
		var as []string
		for i := range n.Args {
			v := e.eval(n.Args[i])
			if i < len(lf.Args) && lf.Args[i] == "Iface" && v.t != nil {
				if _, isI := under(v.t).(*types.Interface); !isI {
					as = append(as, ifaceTerm(Ifc{Dyn: v.t, V: v.v}))
					continue
				}
			}
			as = append(as, flatten(v.v)...)
		}
		if len(as) != len(lf.Args) {
			panic(everr("%s: wrong number of arguments", n.F))
		}
		return logical(app(n.F, as...), lf.Ret)
	}
	arg := func(i int) tv {
		if i >= len(n.Args) {
			panic(everr("%s: missing argument", n.F))
		}
		return e.eval(n.Args[i])
	}
	switch n.F {
	case "old":
		if e.old == nil {
			panic(everr("old outside a postcondition"))
		}
		c := e.in(e.old)
		c.ctx = nil
		if c.fr != nil {
			c.fr = x.top
		}
		return c.eval(n.Args[0])
	case "pre":
		if e.ctx == nil {
			panic(everr("pre outside a loop"))
		}
		return e.in(e.ctx.pre).eval(n.Args[0])
	case "head":
		if e.ctx == nil || e.ctx.head == nil {
			panic(everr("head outside a loop body"))
		}
		return e.in(e.ctx.head).eval(n.Args[0])
	case "outer":
		if e.ctx == nil {
			panic(everr("outer outside a loop"))
		}
		c := *e
		c.ctx = e.ctx.parent
		return c.eval(n.Args[0])
	case "outerpre":
		if e.ctx == nil || e.ctx.parent == nil {
			panic(everr("outerpre outside a nested loop"))
		}
		c := *e
		if c.top == nil {
			c.top = c.st
		}
		c.ctx = e.ctx.parent
		c.st = c.ctx.pre
		return c.eval(n.Args[0])
	case "outerhead":
		if e.ctx == nil || e.ctx.parent == nil || e.ctx.parent.head == nil {
			panic(everr("outerhead outside a nested loop"))
		}
		c := *e
		if c.top == nil {
			c.top = c.st
		}
		c.ctx = e.ctx.parent
		c.st = c.ctx.head
		return c.eval(n.Args[0])
	case "present": // a pointer that is not nil, or any other value
		v := arg(0)
		if p, ok := v.v.(Pt); ok && p.LV == nil {
			return logical(not(eq(p.Ref, "0")), "Bool")
		}
		return logical("true", "Bool")
	case "len", "cap", "arr", "off":
		v := arg(0)
		switch s := v.v.(type) {
		case Sl:
			return logical(map[string]string{"len": s.Len, "cap": s.Cap, "arr": s.Arr, "off": s.Off}[n.F], "Int")
		case Ar:
			if n.F == "off" {
				return logical("0", "Int")
			}
			return logical(num(s.N), "Int")
		}
		if v.t != nil {
			if m, ok := under(v.t).(*types.Map); ok {
				return logical(x.rd(x.hget(e.st, x.mlKey(m)), e.scalar(v)), "Int")
			}
			if sortOf(v.t) == "Str" {
				return logical(x.uf("strlen", []string{e.scalar(v)}, []string{"Str"}, "Int"), "Int")
			}
		}
		panic(everr("%s of %v", n.F, v.t))
	case "cleared": // every field zero, every slice and map empty
		v := arg(0)
		if pt, ok := v.v.(Pt); ok && v.t != nil {
			el := deref(v.t)
			v = tv{v: x.load(e.st, x.lvOf(e.st, pt, el)), t: el}
		}
		return logical(e.cleared(v.v, v.t), "Bool")
	case "fresh": // allocated since entry
		r := e.refOf(arg(0))
		if e.old == nil {
			panic(everr("fresh outside a postcondition"))
		}
		return logical(and(le(e.old.alloc, r), lt(r, e.st.alloc)), "Bool")
	case "alias": // the same object: never, for types that hold no reference
		a, b := arg(0), arg(1)
		if a.t == nil {
			panic(everr("alias of a logical value"))
		}
		refs := isTypeParam(a.t)
		if !refs {
			for _, l := range leaves(a.t) {
				switch l.Kind {
				case "int", "u8", "u16", "u32", "u64", "bool", "flt", "str":
				default:
					refs = true
				}
			}
		}
		if !refs {
			return logical("false", "Bool")
		}
		return logical(and(not(eq(e.scalar(a), "0")), eq(e.scalar(a), e.scalar(b))), "Bool")
	case "allocated":
		r := e.refOf(arg(0))
		return logical(and(lt("0", r), lt(r, e.st.alloc)), "Bool")
	case "alloc":
		return logical(e.st.alloc, "Int")
	case "ref":
		return logical(e.refOf(arg(0)), "Int")
	case "elems":
		if v := arg(0); v.t != nil {
			if av, ok := v.v.(Ar); ok {
				et := under(v.t).(*types.Array).Elem()
				p := ""
				if len(n.Args) > 1 {
					p = e.argStr(n.Args[1])
				}
				l := e.leafAt(et, p)
				return logical(leafOf2(av, et, l), "(Array Int "+l.Sort+")")
			}
		}
		s, et := e.sliceOf(arg(0))
		p := ""
		if len(n.Args) > 1 {
			p = e.argStr(n.Args[1])
		}
		l := e.leafAt(et, p)
		if s.Back != nil {
			return logical(leafOf2(x.load(e.st, s.Back).(Ar), et, l), "(Array Int "+l.Sort+")")
		}
		return logical(x.rd(x.hget(e.st, x.eKey(et, l)), s.Arr), "(Array Int "+l.Sort+")")
	case "elemheap":
		t := e.typeOf(e.argStr(n.Args[0]))
		p := ""
		if len(n.Args) > 1 {
			p = e.argStr(n.Args[1])
		}
		k := x.eKey(t, e.leafAt(t, p))
		return logical(x.hget(e.st, k), x.hkeys[k].Sort)
	case "heapof":
		t := e.typeOf(e.argStr(n.Args[0]))
		p := ""
		if len(n.Args) > 1 {
			p = e.argStr(n.Args[1])
		}
		k := x.fKey(t, e.leafAt(t, p))
		return logical(x.hget(e.st, k), x.hkeys[k].Sort)
	case "mapheap": // mapheap("map type","dom"|"len"|path)
		m := under(e.typeOf(e.argStr(n.Args[0]))).(*types.Map)
		var k string
		switch p := e.argStr(n.Args[1]); p {
		case "dom":
			k = x.mdKey(m)
		case "len":
			k = x.mlKey(m)
		default:
			if p == "val" {
				p = ""
			}
			k = x.mvKey(m, e.leafAt(m.Elem(), p))
		}
		return logical(x.hget(e.st, k), x.hkeys[k].Sort)
	case "dom":
		v := arg(0)
		m, ok := under(v.t).(*types.Map)
		if !ok {
			panic(everr("dom of a non-map"))
		}
		k := x.mdKey(m)
		_, in := arraySorts(x.hkeys[k].Sort)
		return logical(x.rd(x.hget(e.st, k), e.scalar(v)), in)
	case "vals":
		v := arg(0)
		m, ok := under(v.t).(*types.Map)
		if !ok {
			panic(everr("vals of a non-map"))
		}
		p := ""
		if len(n.Args) > 1 {
			p = e.argStr(n.Args[1])
		}
		k := x.mvKey(m, e.leafAt(m.Elem(), p))
		_, in := arraySorts(x.hkeys[k].Sort)
		return logical(x.rd(x.hget(e.st, k), e.scalar(v)), in)
	case "ite":
		a, b := arg(1), arg(2)
		c := e.term(n.Args[0])
		if a.t != nil && b.t != nil {
			fa, fb := flatten(a.v), flatten(b.v)
			var r []string
			for i := range fa {
				r = append(r, ite(c, fa[i], fb[i]))
			}
			return tv{v: unflatten(a.t, r), t: a.t}
		}
		so := e.sortOf(a)
		return logical(ite(c, e.scalar(a), e.scalar(b)), so)
	case "min":
		a, b := e.scalar(arg(0)), e.scalar(arg(1))
		return logical(ite(le(a, b), a, b), "Int")
	case "max":
		a, b := e.scalar(arg(0)), e.scalar(arg(1))
		return logical(ite(le(a, b), b, a), "Int")
	case "upd":
		a, i, v := arg(0), arg(1), arg(2)
		return logical(store(e.scalar(a), e.scalar(i), e.scalar(v)), e.sortOf(a))
	case "field": // leaf array of an array value
		v := arg(0)
		a, ok := v.v.(Ar)
		if !ok {
			panic(everr("field of a non-array"))
		}
		return logical(a.L[0], "(Array Int "+leaves(under(v.t).(*types.Array).Elem())[0].Sort+")")
	case "is":
		v := arg(0)
		t := e.typeOf(e.argStr(n.Args[1]))
		i, ok := v.v.(Ifc)
		if !ok {
			if sc, isSc := v.v.(Sc); isSc && sc.S == "Iface" {
				i = Ifc{T: sc.T}
			} else {
				panic(everr("is: interface expected"))
			}
		}
		if it, ok := under(t).(*types.Interface); ok {
			if i.T == "" {
				if types.Implements(i.Dyn, it) {
					return logical("true", "Bool")
				}
				return logical("false", "Bool")
			}
			return logical(app(x.implPred(t), app("ityp", i.T)), "Bool")
		}
		if i.T == "" {
			if types.Identical(i.Dyn, t) {
				return logical("true", "Bool")
			}
			return logical("false", "Bool")
		}
		return logical(hasType(boxFor(t), i.T), "Bool")
	case "as":
		v := arg(0)
		t := e.typeOf(e.argStr(n.Args[1]))
		i, ok := v.v.(Ifc)
		if !ok {
			if sc, isSc := v.v.(Sc); isSc && sc.S == "Iface" {
				i = Ifc{T: sc.T}
			} else {
				panic(everr("as: interface expected"))
			}
		}
		if i.T == "" {
			return tv{v: i.V, t: i.Dyn}
		}
		b := boxFor(t)
		var ts []string
		for k := range b.Sorts {
			ts = append(ts, unboxed(b, k, i.T))
		}
		return tv{v: unflatten(t, ts), t: t}
	case "iface":
		v := arg(0)
		if v.t == nil && v.s == "nil" {
			return logical("nil_iface", "Iface")
		}
		if i, ok := v.v.(Ifc); ok {
			return logical(ifaceTerm(i), "Iface")
		}
		return logical(ifaceTerm(Ifc{Dyn: v.t, V: v.v}), "Iface")
	case "at": // at(ref, "Type"): the pointer value with this address
		t := e.typeOf(e.argStr(n.Args[1]))
		return tv{v: unflatten(t, []string{e.term(n.Args[0])}), t: t}
	case "typed": // typed(term, "Type"): single-leaf value
		t := e.typeOf(e.argStr(n.Args[1]))
		return tv{v: unflatten(t, []string{e.term(n.Args[0])}), t: t}
	case "sliceat": // sliceat("E", arr, off, len): slice value with elements of type E
		t := types.NewSlice(e.typeOf(e.argStr(n.Args[0])))
		l := e.term(n.Args[3])
		return tv{v: Sl{Arr: e.term(n.Args[1]), Off: e.term(n.Args[2]), Len: l, Cap: l}, t: t}
	case "xor":
		return logical("(xor "+e.term(n.Args[0])+" "+e.term(n.Args[1])+")", "Bool")
	case "b2i":
		return logical(ite(e.term(n.Args[0]), "1", "0"), "Int")
	case "real":
		return logical("(to_real "+e.term(n.Args[0])+")", "Real")
	case "umod":
		return logical(wrapTo(e.term(n.Args[0]), "u64"), "Int")
	case "u32":
		return logical(wrapTo(e.term(n.Args[0]), "u32"), "Int")
	case "global":
		nm := e.argStr(n.Args[0])
		for _, sp := range x.p.pkgs {
			pn := sp.Pkg.Path()
			pn = pn[strings.LastIndex(pn, "/")+1:]
			if strings.HasPrefix(nm, pn+".") {
				if v, ok := sp.Pkg.Scope().Lookup(nm[len(pn)+1:]).(*types.Var); ok {
					lv := &LV{Kind: "global", Key: nm, Root: v.Type(), T: v.Type()}
					return tv{v: x.load(e.st, lv), t: v.Type()}
				}
			}
		}
		panic(everr("unknown global %s", nm))
	}
	panic(everr("unknown function %s", n.F))
}

func (e *ev) cleared(v Val, t types.Type) string {
	switch u := under(t).(type) {
	case *types.Struct:
		r := "true"
		for i := 0; i < u.NumFields(); i++ {
			r = and(r, e.cleared(v.(St).F[i], u.Field(i).Type()))
		}
		return r
	case *types.Slice:
		return eq(v.(Sl).Len, "0")
	case *types.Map:
		m := e.scalar(tv{v: v, t: t})
		return or(eq(m, "0"), eq(e.x.rd(e.x.hget(e.st, e.x.mlKey(u)), m), "0"))
	case *types.Array:
		panic(everr("cleared of an array"))
	}
	zs := flatten(zeroVal(t))
	r := "true"
	for i, f := range flatten(v) {
		r = and(r, eq(f, zs[i]))
	}
	return r
}

func (e *ev) refOf(v tv) string {
	switch q := v.v.(type) {
	case Sl:
		return q.Arr
	}
	return e.scalar(v)
}

// ---------- locations (modifies clauses) ----------

type modLoc struct {
	kind string // lv, elems, map, top, ghost
	lv   *LV
	t    types.Type
	root string
	keys []string
	name string
}

func (e *ev) locs(m Expr) []modLoc {
	x := e.x
	switch n := m.(type) {
	case ECall:
		switch n.F {
		case "elemsof":
			v := e.eval(n.Args[0])
			s, et := e.sliceOf(v)
			if s.Back != nil {
				return []modLoc{{kind: "lv", lv: s.Back}}
			}
			return []modLoc{{kind: "elems", t: et, root: s.Arr}}
		case "mapof":
			v := e.eval(n.Args[0])
			mt, ok := under(v.t).(*types.Map)
			if !ok {
				panic(everr("mapof of a non-map"))
			}
			return []modLoc{{kind: "map", t: mt, root: e.scalar(v)}}
		case "all": // all("T","path")
			t := e.typeOf(e.argStr(n.Args[0]))
			var ks []string
			for _, l := range leaves(t) {
				if len(n.Args) == 1 || l.Path == e.argStr(n.Args[1]) || strings.HasPrefix(l.Path, e.argStr(n.Args[1])+".") {
					ks = append(ks, x.fKey(t, l))
				}
			}
			if len(ks) == 0 {
				panic(everr("all: no such field"))
			}
			return []modLoc{{kind: "top", keys: ks}}
		case "allelems":
			t := e.typeOf(e.argStr(n.Args[0]))
			var ks []string
			for _, l := range leaves(t) {
				ks = append(ks, x.eKey(t, l))
			}
			return []modLoc{{kind: "top", keys: ks}}
		case "allmaps":
			t := under(e.typeOf(e.argStr(n.Args[0]))).(*types.Map)
			ks := []string{x.mdKey(t), x.mlKey(t)}
			for _, l := range leaves(t.Elem()) {
				ks = append(ks, x.mvKey(t, l))
			}
			return []modLoc{{kind: "top", keys: ks}}
		case "global":
			nm := e.argStr(n.Args[0])
			v := e.eval(m)
			return []modLoc{{kind: "lv", lv: &LV{Kind: "global", Key: nm, Root: v.t, T: v.t}}}
		}
	case EIdent:
		if strings.HasPrefix(n.Name, "$") {
			return []modLoc{{kind: "ghost", name: n.Name}}
		}
		if e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(n.Name).(*types.Var); ok {
				return []modLoc{{kind: "lv", lv: &LV{Kind: "global", Key: e.pkg.Path()[strings.LastIndex(e.pkg.Path(), "/")+1:] + "." + n.Name, Root: o.Type(), T: o.Type()}}}
			}
		}
	case EIdx:
		if id, ok := n.X.(EIdent); ok && strings.HasPrefix(id.Name, "$") {
			return []modLoc{{kind: "ghost", name: id.Name, root: e.refOf(e.eval(n.I))}}
		}
	case EUn:
		if n.Op == "*" {
			v := e.eval(n.X)
			return []modLoc{{kind: "lv", lv: x.lvOf(e.st, v.v.(Pt), deref(v.t))}}
		}
	case ESel:
		b := e.eval(n.X)
		if b.t == nil {
			panic(everr("modifies: field of a logical value"))
		}
		var lv *LV
		if pt, ok := under(b.t).(*types.Pointer); ok {
			lv = x.lvOf(e.st, b.v.(Pt), pt.Elem())
		} else {
			inner := e.locs(n.X)
			if len(inner) != 1 || inner[0].lv == nil {
				panic(everr("modifies: not a location"))
			}
			lv = inner[0].lv
		}
		obj, path, _ := types.LookupFieldOrMethod(lv.T, true, e.pkgOfType(lv.T), n.F)
		if _, ok := obj.(*types.Var); !ok {
			panic(everr("modifies: no field %s", n.F))
		}
		for _, i := range path {
			if pt, ok := under(lv.T).(*types.Pointer); ok {
				p := x.load(e.st, lv).(Pt)
				lv = x.lvOf(e.st, p, pt.Elem())
			}
			lv = lv.field(i)
		}
		return []modLoc{{kind: "lv", lv: lv}}
	}
	panic(everr("modifies: not a location: %v", m))
}

// keysOf lists the heap keys and roots a location covers.
func (x *Exec) keysOf(l modLoc) (keys []string, root string) {
	switch l.kind {
	case "lv":
		if l.lv.Kind == "local" {
			return nil, "local"
		}
		pre, _, t := prefixOf(l.lv)
		for _, lf := range leaves(t) {
			lf.Path = joinPath(pre, lf.Path)
			switch l.lv.Kind {
			case "ref":
				keys = append(keys, x.fKey(l.lv.Root, lf))
			case "elem":
				keys = append(keys, x.eKey(l.lv.Root, lf))
			case "global":
				keys = append(keys, x.gKey(l.lv.Key, lf))
			}
		}
		if l.lv.Kind == "global" {
			return keys, "global"
		}
		return keys, l.lv.Ref
	case "elems":
		for _, lf := range leaves(l.t) {
			keys = append(keys, x.eKey(l.t, lf))
		}
		return keys, l.root
	case "map":
		m := l.t.(*types.Map)
		keys = append(keys, x.mdKey(m), x.mlKey(m))
		for _, lf := range leaves(m.Elem()) {
			keys = append(keys, x.mvKey(m, lf))
		}
		return keys, l.root
	case "top":
		return l.keys, ""
	case "ghost":
		return []string{x.ghostKey(l.name)}, l.root
	}
	panic("keysOf " + l.kind)
}

// havocLoc replaces the content of a location by arbitrary well-formed content.
func (x *Exec) havocLoc(st *State, l modLoc) {
	if l.kind == "lv" && (l.lv.Kind == "local" || l.lv.Kind == "global" || l.lv.Kind == "elem" || len(l.lv.Path) > 0 && hasIdx(l.lv.Path)) {
		x.store(st, l.lv, x.freshVal(st, "hv", l.lv.T))
		return
	}
	keys, root := x.keysOf(l)
	for _, k := range keys {
		hk := x.hkeys[k]
		if root == "" {
			n := x.fresh(k, hk.Sort)
			st.heap[k] = n
			for _, f := range x.wfHeap(hk, n, st.alloc) {
				x.assume(st, f)
			}
			x.wlogAdd(st, k, "")
			continue
		}
		_, es := arraySorts(hk.Sort)
		f := x.fresh(k+".hv", es)
		for _, w := range x.wfPiece(hk, f, st.alloc) {
			x.assume(st, w)
		}
		x.hset(st, k, store(x.hget(st, k), root, f))
		x.wlogAdd(st, k, root)
	}
}

func hasIdx(p []step) bool {
	for _, s := range p {
		if s.Field < 0 {
			return true
		}
	}
	return false
}

// wfPiece: well-formedness of the content of a single root.
func (x *Exec) wfPiece(k hkey, f, alloc string) []string {
	switch k.Kind {
	case "F":
		if k.Leaf.Kind == "arr" {
			return nil
		}
		if w := wfLeaf(k.Leaf, f, alloc); w != "true" {
			return []string{w}
		}
	case "E":
		s := sel(f, "j")
		if w := wfLeaf(k.Leaf, s, alloc); w != "true" {
			return []string{fmt.Sprintf("(forall ((j Int)) (! %s :pattern (%s)))", w, s)}
		}
	case "MV":
		_, inner := arraySorts(k.Sort)
		mk, _ := arraySorts(inner)
		s := sel(f, "j")
		if w := wfLeaf(k.Leaf, s, alloc); w != "true" {
			return []string{fmt.Sprintf("(forall ((j %s)) (! %s :pattern (%s)))", mk, w, s)}
		}
	case "ML":
		return []string{le("0", f)}
	case "MD":
		if kk := x.mapKeyKind[k.Key]; kk != "" {
			s := sel(f, "j")
			return []string{fmt.Sprintf("(forall ((j Int)) (! %s :pattern (%s)))", implies(s, wfLeaf(Leaf{"", "Int", kk}, "j", alloc)), s)}
		}
	}
	return nil
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var typeArgs = regexp.MustCompile(`\[T[0-9]*\]`)

// typeNamed: the type is the named one; type parameters and, when the name has none, package names are left out.
func typeNamed(t types.Type, name string) bool {
	if shortType(t) == name {
		return true
	}
	return typeArgs.ReplaceAllString(types.TypeString(t, func(*types.Package) string { return "" }), "") == name
}
