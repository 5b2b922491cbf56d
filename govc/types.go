package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---------- sorts and layout ----------

type Leaf struct {
	Path string
	Sort string
	Kind string // "int","u8","u16","u32","u64","ref","slen","soff","scap","sarr","bool","flt","str","iface","box","arr"
}

var layoutCache = map[string][]Leaf{}

func under(t types.Type) types.Type { return t.Underlying() }

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("$p")
		case r == '[':
			b.WriteString("$l")
		case r == ']':
			b.WriteString("$r")
		case r == '/':
			b.WriteString(".")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

// tkey is the canonical name of a type: struct types that have the same
// underlying structure share a key, type parameters are numbered.
var structNames = map[string]string{}
var structNameUsed = map[string]int{}

func tkey(t types.Type) string {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.TypeParam:
		return fmt.Sprintf("T%d", x.Index())
	case *types.Named:
		if st, ok := x.Underlying().(*types.Struct); ok {
			return structKey(st, namedShort(x))
		}
		return tkey(x.Underlying())
	case *types.Struct:
		return structKey(x, "anon")
	case *types.Pointer:
		return "*" + tname(x.Elem())
	case *types.Slice:
		return "[]" + tname(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), tname(x.Elem()))
	case *types.Map:
		return "map[" + tname(x.Key()) + "]" + tname(x.Elem())
	case *types.Basic:
		return x.Name()
	case *types.Interface:
		return "iface"
	case *types.Chan:
		return "chan " + tname(x.Elem())
	case *types.Signature:
		return "func"
	case *types.Tuple:
		return "tuple"
	}
	return t.String()
}

func namedShort(n *types.Named) string {
	s := n.Obj().Name()
	if n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		s = p[strings.LastIndex(p, "/")+1:] + "." + s
	}
	if ta := n.TypeArgs(); ta != nil && ta.Len() > 0 {
		var a []string
		for i := 0; i < ta.Len(); i++ {
			a = append(a, tname(ta.At(i)))
		}
		s += "[" + strings.Join(a, ",") + "]"
	} else if tp := n.TypeParams(); tp != nil && tp.Len() > 0 {
		var a []string
		for i := 0; i < tp.Len(); i++ {
			a = append(a, fmt.Sprintf("T%d", i))
		}
		s += "[" + strings.Join(a, ",") + "]"
	}
	return s
}

// tname names a type without expanding named structs.
func tname(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return namedShort(n)
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			return namedShort(n)
		}
	}
	return tkey(t)
}

func structKey(st *types.Struct, name string) string {
	var b strings.Builder
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		b.WriteString(f.Name() + ":" + tname(f.Type()) + ";")
	}
	if st.NumFields() == 0 {
		return "struct0"
	}
	k := b.String()
	if n, ok := structNames[k]; ok {
		return n
	}
	n := name
	if c := structNameUsed[name]; c > 0 {
		n = fmt.Sprintf("%s#%d", name, c)
	}
	structNameUsed[name]++
	structNames[k] = n
	return n
}

func sortOf(t types.Type) string {
	t = types.Unalias(t)
	if isTypeParam(t) {
		return "Int"
	}
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return "Bool"
		case x.Info()&types.IsInteger != 0:
			return "Int"
		case x.Info()&types.IsFloat != 0:
			return fltSort
		case x.Info()&types.IsString != 0:
			return "Str"
		case x.Kind() == types.UnsafePointer || x.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Interface:
		return "Iface"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	}
	return ""
}

var fltSort = "Flt"

func intKind(t types.Type) string {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.Uint8:
		return "u8"
	case types.Uint16:
		return "u16"
	case types.Uint32:
		return "u32"
	case types.Uint64, types.Uint, types.Uintptr:
		return "u64"
	}
	if b.Info()&types.IsInteger != 0 {
		return "int"
	}
	return ""
}

func leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	if isTypeParam(t) {
		return []Leaf{{"", "Int", "box"}}
	}
	switch x := under(t).(type) {
	case *types.Basic:
		s := sortOf(t)
		if s == "" {
			panic(unsupported("%s", "basic type " + t.String()))
		}
		k := intKind(t)
		if k == "" {
			switch s {
			case "Bool":
				k = "bool"
			case "Str":
				k = "str"
			default:
				k = "flt"
			}
		}
		return []Leaf{{"", s, k}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", "Int", "ref"}}
	case *types.Signature:
		return []Leaf{{"", "Int", "func"}}
	case *types.Interface:
		return []Leaf{{"", "Iface", "iface"}}
	case *types.Slice:
		return []Leaf{{"$arr", "Int", "sarr"}, {"$off", "Int", "soff"}, {"$len", "Int", "slen"}, {"$cap", "Int", "scap"}}
	case *types.Struct:
		var r []Leaf
		for i := 0; i < x.NumFields(); i++ {
			for _, l := range leaves(x.Field(i).Type()) {
				r = append(r, Leaf{joinPath(x.Field(i).Name(), l.Path), l.Sort, l.Kind})
			}
		}
		return r
	case *types.Array:
		var r []Leaf
		for _, l := range leaves(x.Elem()) {
			r = append(r, Leaf{joinPath("$el", l.Path), "(Array Int " + l.Sort + ")", "arr"})
		}
		return r
	case *types.Tuple:
		panic(unsupported("tuple layout"))
	}
	panic(unsupported("%s", "layout of " + t.String()))
}

func joinPath(a, b string) string {
	if b == "" {
		return a
	}
	if a == "" {
		return b
	}
	return a + "." + b
}

func zeroTerm(sort string) string {
	switch sort {
	case "Int":
		return "0"
	case "Bool":
		return "false"
	case "Flt":
		return "flt_zero"
	case "Real":
		return "0.0"
	case "Str":
		return "str_empty"
	case "Iface":
		return "nil_iface"
	}
	if strings.HasPrefix(sort, "(Array ") {
		_, e := arraySorts(sort)
		return "((as const " + sort + ") " + zeroTerm(e) + ")"
	}
	return "zero_" + sanitize(sort)
}

// arraySorts splits "(Array K V)".
func arraySorts(s string) (string, string) {
	in := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

// ---------- symbolic values ----------

type Val interface{}
type Sc struct{ T, S string }
type St struct{ F []Val }
type Sl struct {
	Arr, Off, Len, Cap string
	Back               *LV // backing array is an array variable or array field
}
type Ar struct {
	N int64
	L []string // one SMT array per leaf of the element type
}
type Pt struct {
	Ref string
	LV  *LV
}
type Ifc struct {
	T   string
	Dyn types.Type
	V   Val
}
type Fn struct {
	T    string
	F    any // *ssa.Function
	Bind []Val
}
type Tup []Val

// LV is a symbolic location.
type LV struct {
	Kind string     // "ref","elem","local","global"
	Root types.Type // type of the root object (pointee, element type, variable type)
	Ref  string     // ref: object; elem: backing array id
	Idx  string     // elem: absolute index
	Key  string     // local/global key
	Path []step
	T    types.Type // type of this location
	Wide bool       // eight consecutive bytes of a byte array seen as one uint64
}
type step struct {
	Field int    // field index (struct)
	Idx   string // array index when Field<0
}

func (l *LV) field(i int) *LV {
	st := under(l.T).(*types.Struct)
	n := *l
	n.Path = append(append([]step{}, l.Path...), step{Field: i})
	n.T = st.Field(i).Type()
	return &n
}

func (l *LV) index(ix string) *LV {
	at := under(l.T).(*types.Array)
	n := *l
	n.Path = append(append([]step{}, l.Path...), step{Field: -1, Idx: ix})
	n.T = at.Elem()
	return &n
}

func flatten(v Val) []string {
	switch x := v.(type) {
	case Sc:
		return []string{x.T}
	case St:
		var r []string
		for _, f := range x.F {
			r = append(r, flatten(f)...)
		}
		return r
	case Sl:
		if x.Back != nil {
			panic(unsupported("slice of an array variable escapes into memory"))
		}
		return []string{x.Arr, x.Off, x.Len, x.Cap}
	case Ar:
		return x.L
	case Pt:
		if x.LV != nil {
			panic(unsupported("interior pointer escapes into memory"))
		}
		return []string{x.Ref}
	case Ifc:
		return []string{ifaceTerm(x)}
	case Fn:
		return []string{x.T}
	case nil:
		panic("flatten nil")
	}
	panic(fmt.Sprintf("flatten %T", v))
}

func unflatten(t types.Type, ts []string) Val {
	v, rest := unflat(t, ts)
	if len(rest) != 0 {
		panic("unflatten leftover")
	}
	return v
}

func unflat(t types.Type, ts []string) (Val, []string) {
	t = types.Unalias(t)
	if isTypeParam(t) {
		return Sc{ts[0], "Int"}, ts[1:]
	}
	switch x := under(t).(type) {
	case *types.Basic:
		return Sc{ts[0], sortOf(t)}, ts[1:]
	case *types.Pointer:
		return Pt{Ref: ts[0]}, ts[1:]
	case *types.Map, *types.Chan:
		return Sc{ts[0], "Int"}, ts[1:]
	case *types.Signature:
		return Fn{T: ts[0]}, ts[1:]
	case *types.Interface:
		return Ifc{T: ts[0]}, ts[1:]
	case *types.Slice:
		return Sl{Arr: ts[0], Off: ts[1], Len: ts[2], Cap: ts[3]}, ts[4:]
	case *types.Struct:
		var s St
		for i := 0; i < x.NumFields(); i++ {
			var f Val
			f, ts = unflat(x.Field(i).Type(), ts)
			s.F = append(s.F, f)
		}
		return s, ts
	case *types.Array:
		n := len(leaves(x.Elem()))
		return Ar{N: x.Len(), L: append([]string{}, ts[:n]...)}, ts[n:]
	}
	panic(unsupported("%s", "value of type " + t.String()))
}

func zeroVal(t types.Type) Val {
	var ts []string
	for _, l := range leaves(t) {
		ts = append(ts, zeroTerm(l.Sort))
	}
	return unflatten(t, ts)
}

// ---------- interface boxing ----------

type boxInfo struct {
	ID    int
	Name  string
	T     types.Type
	Sorts []string
}

var boxes = map[string]*boxInfo{}
var boxOrder []*boxInfo

func boxFor(t types.Type) *boxInfo {
	t = types.Unalias(t)
	k := t.String()
	if tp, ok := t.(*types.TypeParam); ok {
		k = fmt.Sprintf("T%d", tp.Index())
	}
	if b, ok := boxes[k]; ok {
		return b
	}
	b := &boxInfo{ID: len(boxOrder) + 1, T: t}
	b.Name = fmt.Sprintf("box%d_%s", b.ID, sanitize(tname(t)))
	for _, l := range leaves(t) {
		b.Sorts = append(b.Sorts, l.Sort)
	}
	boxes[k] = b
	boxOrder = append(boxOrder, b)
	return b
}

func ifaceTerm(x Ifc) string {
	if x.T != "" {
		return x.T
	}
	b := boxFor(x.Dyn)
	fl := flattenBox(x.V)
	if len(fl) == 0 {
		return b.Name
	}
	return "(" + b.Name + " " + strings.Join(fl, " ") + ")"
}

func flattenBox(v Val) []string { return flatten(v) }

func boxDecls() []string {
	var r []string
	for _, b := range boxOrder {
		r = append(r, fmt.Sprintf("(declare-fun %s (%s) Iface)", b.Name, strings.Join(b.Sorts, " ")))
		if len(b.Sorts) == 0 {
			r = append(r, fmt.Sprintf("(assert (= (ityp %s) %d))", b.Name, b.ID))
			r = append(r, fmt.Sprintf("(assert (forall ((x Iface)) (! (=> (= (ityp x) %d) (= x %s)) :pattern ((ityp x)))))", b.ID, b.Name))
			continue
		}
		var vs, ns, un []string
		for i, s := range b.Sorts {
			vs = append(vs, fmt.Sprintf("(a%d %s)", i, s))
			ns = append(ns, fmt.Sprintf("a%d", i))
			r = append(r, fmt.Sprintf("(declare-fun un_%s_%d (Iface) %s)", b.Name, i, s))
		}
		app := "(" + b.Name + " " + strings.Join(ns, " ") + ")"
		conj := []string{fmt.Sprintf("(= (ityp %s) %d)", app, b.ID)}
		for i := range b.Sorts {
			conj = append(conj, fmt.Sprintf("(= (un_%s_%d %s) a%d)", b.Name, i, app, i))
			un = append(un, fmt.Sprintf("(un_%s_%d x)", b.Name, i))
		}
		r = append(r, fmt.Sprintf("(assert (forall (%s) (! (and %s) :pattern (%s))))", strings.Join(vs, " "), strings.Join(conj, " "), app))
		r = append(r, fmt.Sprintf("(assert (forall ((x Iface)) (! (=> (= (ityp x) %d) (= x (%s %s))) :pattern ((un_%s_0 x)))))", b.ID, b.Name, strings.Join(un, " "), b.Name))
	}
	return r
}

// unboxed is the k-th component of the value in interface term i; hasType says that i holds a b.
// Both look through a boxing on the spot.
func unboxed(b *boxInfo, k int, i string) string {
	if f, as, ok := splitApp(i); ok && f == b.Name && k < len(as) {
		return as[k]
	}
	return app(fmt.Sprintf("un_%s_%d", b.Name, k), i)
}

func hasType(b *boxInfo, i string) string {
	if f, _, ok := splitApp(i); ok && f == b.Name {
		return "true"
	}
	return eq(app("ityp", i), num(int64(b.ID)))
}
