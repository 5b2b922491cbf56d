package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// A loop variable that every edge into the loop header sets to the same
// expression ("for i := int(m.idx); ...; i = int(m.idx)") keeps the value of
// that expression at the header. carriedEqs finds such variables; the equality
// is kept only where it holds, term for term, on every edge.

type carried struct {
	phi    *ssa.Phi
	ins    []ssa.Instruction      // the expression, in order of evaluation (as on the last edge)
	leaves map[ssa.Value]*ssa.Phi // values of the last edge that other header variables stand for
	root   ssa.Value
	back   bool // matched on the back edges only
}

func carriedVars(li *loopInfo) []*carried {
	var ps []*ssa.Phi
	for _, ins := range li.hdr.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	var r []*carried
	for _, p := range ps {
		if len(p.Edges) < 2 {
			continue
		}
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&(types.IsInteger|types.IsBoolean) == 0 {
				continue
			}
		case *types.Pointer:
		default:
			continue
		}
		c := &carried{phi: p, leaves: map[ssa.Value]*ssa.Phi{}}
		seen := map[ssa.Value]bool{}
		if c.match(li, ps, append([]ssa.Value{}, p.Edges...), seen, 0) && len(c.ins) > 0 {
			c.root = p.Edges[len(p.Edges)-1]
			r = append(r, c)
			continue
		}
		// a constant at the start, the expression's value there ("child := 1" for 2*curr+1)
		var back []ssa.Value
		fold := true
		for i, e := range p.Edges {
			if li.blocks[li.hdr.Preds[i]] {
				back = append(back, e)
			} else if _, ok := e.(*ssa.Const); !ok {
				fold = false
			}
		}
		if !fold || len(back) == 0 || len(back) == len(p.Edges) {
			continue
		}
		c = &carried{phi: p, leaves: map[ssa.Value]*ssa.Phi{}, back: true}
		if c.match(li, ps, back, map[ssa.Value]bool{}, 0) && len(c.ins) > 0 && len(c.leaves) > 0 {
			c.root = back[len(back)-1]
			r = append(r, c)
		}
	}
	return r
}

func (c *carried) match(li *loopInfo, ps []*ssa.Phi, vs []ssa.Value, seen map[ssa.Value]bool, depth int) bool {
	last := vs[len(vs)-1]
	if depth > 8 {
		return false
	}
	same := true
	for _, v := range vs {
		if v == last {
			continue
		}
		a, ok := v.(*ssa.Const)
		b, ok2 := last.(*ssa.Const)
		if !(ok && ok2 && types.Identical(a.Type(), b.Type()) && a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()) {
			same = false
		}
	}
	if same {
		ins, ok := last.(ssa.Instruction)
		if !ok || !li.blocks[ins.Block()] {
			return true
		}
		if !c.back {
			return false
		}
	}
	if seen[last] {
		return true
	}
	for _, q := range ps {
		if q == c.phi {
			continue
		}
		all, k := true, 0
		for i, e := range q.Edges {
			if c.back && !li.blocks[li.hdr.Preds[i]] {
				continue
			}
			if e != vs[k] {
				all = false
			}
			k++
		}
		if all {
			c.leaves[last] = q
			seen[last] = true
			return true
		}
	}
	sub := func(f func(v ssa.Value) ssa.Value) bool {
		ws := make([]ssa.Value, len(vs))
		for i, v := range vs {
			if ws[i] = f(v); ws[i] == nil {
				return false
			}
		}
		return c.match(li, ps, ws, seen, depth+1)
	}
	ok := false
	switch l := last.(type) {
	case *ssa.Convert:
		ok = sub(func(v ssa.Value) ssa.Value {
			if w, is := v.(*ssa.Convert); is && types.Identical(w.Type(), l.Type()) {
				return w.X
			}
			return nil
		})
	case *ssa.UnOp:
		if l.Op == token.ARROW {
			return false
		}
		ok = sub(func(v ssa.Value) ssa.Value {
			if w, is := v.(*ssa.UnOp); is && w.Op == l.Op && types.Identical(w.Type(), l.Type()) {
				return w.X
			}
			return nil
		})
	case *ssa.FieldAddr:
		ok = sub(func(v ssa.Value) ssa.Value {
			if w, is := v.(*ssa.FieldAddr); is && w.Field == l.Field && types.Identical(w.Type(), l.Type()) {
				return w.X
			}
			return nil
		})
	case *ssa.Field:
		ok = sub(func(v ssa.Value) ssa.Value {
			if w, is := v.(*ssa.Field); is && w.Field == l.Field && types.Identical(w.Type(), l.Type()) {
				return w.X
			}
			return nil
		})
	case *ssa.BinOp:
		ok = sub(func(v ssa.Value) ssa.Value {
			if w, is := v.(*ssa.BinOp); is && w.Op == l.Op && types.Identical(w.Type(), l.Type()) {
				return w.X
			}
			return nil
		}) && sub(func(v ssa.Value) ssa.Value { return v.(*ssa.BinOp).Y })
	case *ssa.IndexAddr:
		ok = sub(func(v ssa.Value) ssa.Value {
			if w, is := v.(*ssa.IndexAddr); is && types.Identical(w.X.Type(), l.X.Type()) {
				return w.X
			}
			return nil
		}) && sub(func(v ssa.Value) ssa.Value { return v.(*ssa.IndexAddr).Index })
	case *ssa.Call:
		b, isb := l.Call.Value.(*ssa.Builtin)
		if !isb || b.Name() != "len" {
			return false
		}
		ok = sub(func(v ssa.Value) ssa.Value {
			if w, is := v.(*ssa.Call); is {
				if b, is := w.Call.Value.(*ssa.Builtin); is && b.Name() == "len" {
					return w.Call.Args[0]
				}
			}
			return nil
		})
	}
	if !ok {
		return false
	}
	seen[last] = true
	c.ins = append(c.ins, last.(ssa.Instruction))
	return true
}

// value of the variable's expression in this state ("" when it cannot be told)
func (x *Exec) carriedValue(st *State, fr *Frame, c *carried) (t string) {
	if st.env[envKey{fr, c.phi}] == nil {
		return ""
	}
	x.dry++
	defer func() {
		x.dry--
		if r := recover(); r != nil {
			t = ""
		}
	}()
	s := st.clone()
	for l, q := range c.leaves {
		s.env[envKey{fr, l}] = s.env[envKey{fr, q}]
	}
	for _, ins := range c.ins {
		if call, ok := ins.(*ssa.Call); ok {
			v := x.get(s, fr, call.Call.Args[0])
			sl, ok := v.(Sl)
			if !ok {
				return ""
			}
			x.set(s, fr, call, Sc{sl.Len, "Int"})
			continue
		}
		x.simple(s, fr, ins)
	}
	v, ok := x.get(s, fr, c.root).(Sc)
	if !ok {
		return ""
	}
	return v.T
}

func (x *Exec) carriedOK(st *State, fr *Frame, c *carried) bool {
	v, ok := st.env[envKey{fr, c.phi}].(Sc)
	if !ok {
		return false
	}
	t := x.carriedValue(st, fr, c)
	if v.T == t {
		return true
	}
	if a, ok := constTerm(v.T); ok && t != "" {
		b, ok := constTerm(t)
		return ok && a.Cmp(b) == 0
	}
	return false
}

// constTerm: the value of a term of integer literals, + and -, *
func constTerm(t string) (*big.Int, bool) {
	p := &sx{s: t}
	var rec func() (*big.Int, bool)
	rec = func() (*big.Int, bool) {
		for p.i < len(p.s) && p.s[p.i] == ' ' {
			p.i++
		}
		if p.i >= len(p.s) {
			return nil, false
		}
		if p.s[p.i] != '(' {
			j := p.i
			for j < len(p.s) && p.s[j] != ' ' && p.s[j] != ')' {
				j++
			}
			v, ok := new(big.Int).SetString(p.s[p.i:j], 10)
			p.i = j
			return v, ok
		}
		p.i++
		j := p.i
		for j < len(p.s) && p.s[j] != ' ' {
			j++
		}
		op := p.s[p.i:j]
		p.i = j
		var r *big.Int
		n := 0
		for {
			for p.i < len(p.s) && p.s[p.i] == ' ' {
				p.i++
			}
			if p.i >= len(p.s) {
				return nil, false
			}
			if p.s[p.i] == ')' {
				p.i++
				break
			}
			v, ok := rec()
			if !ok {
				return nil, false
			}
			n++
			switch {
			case r == nil:
				r = new(big.Int).Set(v)
			case op == "+":
				r.Add(r, v)
			case op == "-":
				r.Sub(r, v)
			case op == "*":
				r.Mul(r, v)
			default:
				return nil, false
			}
		}
		if r == nil || op != "+" && op != "-" && op != "*" {
			return nil, false
		}
		if op == "-" && n == 1 {
			r.Neg(r)
		}
		return r, true
	}
	v, ok := rec()
	return v, ok && p.i == len(p.s)
}
