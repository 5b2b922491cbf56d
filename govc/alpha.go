package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Contracts name fields, locals, private functions and types. When one of these has been
// renamed in the current source, the source is alpha-renamed back before it is verified:
// every identifier that denotes the renamed object is replaced, in an in-memory overlay, by
// the name recorded in contracts/names.json, provided that name is used by nothing else in the
// scope concerned. Nothing but names changes.

type nameT struct{ Name, Type string }

type pkgNames struct {
	Types  map[string][]nameT // struct fields; nil for other types
	Order  []string
	Funcs  []nameT            // "Recv.Name" or "Name"
	Vars   []nameT            // package variables and constants
	Locals map[string][]nameT // by function
}

func tstr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func recvName(f *types.Func) string {
	r := f.Type().(*types.Signature).Recv()
	if r == nil {
		return ""
	}
	t := types.Unalias(r.Type())
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// objsOf lists what the package declares, with the objects.
func objsOf(r *packages.Package) (*pkgNames, map[string]types.Object) {
	pn := &pkgNames{Types: map[string][]nameT{}, Locals: map[string][]nameT{}}
	objs := map[string]types.Object{}
	for _, f := range r.Syntax {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						o := r.TypesInfo.Defs[s.Name]
						if o == nil || s.Name.Name == "_" {
							continue
						}
						n := s.Name.Name
						pn.Order = append(pn.Order, n)
						pn.Types[n] = nil
						objs["type "+n] = o
						if st, ok := o.Type().Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								fd := st.Field(i)
								if fd.Embedded() {
									continue
								}
								pn.Types[n] = append(pn.Types[n], nameT{fd.Name(), tstr(fd.Type())})
								objs["field "+n+"."+fd.Name()] = fd
							}
						}
					case *ast.ValueSpec:
						for _, id := range s.Names {
							if o := r.TypesInfo.Defs[id]; o != nil && id.Name != "_" {
								pn.Vars = append(pn.Vars, nameT{id.Name, tstr(o.Type())})
								objs["var "+id.Name] = o
							}
						}
					}
				}
			case *ast.FuncDecl:
				o, _ := r.TypesInfo.Defs[d.Name].(*types.Func)
				if o == nil || d.Name.Name == "init" || d.Name.Name == "_" {
					continue
				}
				k := d.Name.Name
				if rn := recvName(o); rn != "" {
					k = rn + "." + k
				}
				pn.Funcs = append(pn.Funcs, nameT{k, tstr(o.Type())})
				objs["func "+k] = o
				seen := map[string]int{}
				ast.Inspect(d, func(n ast.Node) bool {
					id, ok := n.(*ast.Ident)
					if !ok || id.Name == "_" {
						return true
					}
					v, ok := r.TypesInfo.Defs[id].(*types.Var)
					if !ok || v.IsField() {
						return true
					}
					seen[id.Name]++
					ln := id.Name
					if seen[id.Name] > 1 {
						ln = fmt.Sprintf("%s#%d", id.Name, seen[id.Name])
					}
					pn.Locals[k] = append(pn.Locals[k], nameT{ln, tstr(v.Type())})
					objs["local "+k+" "+ln] = v
					return true
				})
			}
		}
	}
	return pn, objs
}

// pair matches names that disappeared with names that appeared, by type and order.
func pair(base, cur []nameT) map[string]string {
	has := func(l []nameT, n string) bool {
		for _, x := range l {
			if x.Name == n {
				return true
			}
		}
		return false
	}
	miss, fresh := map[string][]string{}, map[string][]string{}
	for _, b := range base {
		if !has(cur, b.Name) {
			miss[b.Type] = append(miss[b.Type], b.Name)
		}
	}
	for _, c := range cur {
		if !has(base, c.Name) {
			fresh[c.Type] = append(fresh[c.Type], c.Name)
		}
	}
	m := map[string]string{} // current name -> recorded name
	for t, l := range miss {
		if len(l) == len(fresh[t]) {
			for i := range l {
				m[fresh[t][i]] = l[i]
			}
		}
	}
	return m
}

type ren struct {
	obj types.Object
	to  string
}

// renames computes one round of renamings for a package.
func renames(r *packages.Package, base *pkgNames, round int) []ren {
	cur, objs := objsOf(r)
	var out []ren
	pkgUses := map[string]bool{}
	for _, m := range []map[*ast.Ident]types.Object{r.TypesInfo.Defs, r.TypesInfo.Uses} {
		for id := range m {
			pkgUses[id.Name] = true
		}
	}
	last := func(s string) string { return s[strings.LastIndex(s, ".")+1:] }
	add := func(k, to string, o types.Object) {
		if o != nil && !pkgUses[to] && token.IsIdentifier(to) && token.IsExported(to) == token.IsExported(o.Name()) && !token.IsExported(to) {
			out = append(out, ren{o, to})
		}
	}
	switch round {
	case 0: // types: same list of field names, in the order of declaration
		sig := func(n *pkgNames, t string) string {
			var s []string
			for _, f := range n.Types[t] {
				s = append(s, f.Name)
			}
			return strings.Join(s, ",")
		}
		var b, c []nameT
		for _, t := range base.Order {
			b = append(b, nameT{t, sig(base, t)})
		}
		for _, t := range cur.Order {
			c = append(c, nameT{t, sig(cur, t)})
		}
		m := pair(b, c)
		if len(m) == 0 {
			// fields renamed as well: the only type that disappeared and the only new one
			for i := range b {
				b[i].Type = ""
			}
			for i := range c {
				c[i].Type = ""
			}
			if m = pair(b, c); len(m) != 1 {
				m = nil
			}
		}
		for from, to := range m {
			add("type", to, objs["type "+from])
		}
	case 1: // fields
		for t, fs := range base.Types {
			for from, to := range pair(fs, cur.Types[t]) {
				o := objs["field "+t+"."+from]
				// the name may occur elsewhere, but not in this type
				if o != nil && !token.IsExported(to) && !token.IsExported(from) {
					out = append(out, ren{o, to})
				}
			}
		}
	case 2: // functions and methods, package variables
		byRecv := func(l []nameT) map[string][]nameT {
			m := map[string][]nameT{}
			for _, x := range l {
				rv := ""
				if i := strings.Index(x.Name, "."); i >= 0 {
					rv = x.Name[:i]
				}
				m[rv] = append(m[rv], x)
			}
			return m
		}
		bm, cm := byRecv(base.Funcs), byRecv(cur.Funcs)
		for rv, l := range bm {
			for from, to := range pair(l, cm[rv]) {
				add("func", last(to), objs["func "+from])
			}
		}
		for from, to := range pair(base.Vars, cur.Vars) {
			add("var", to, objs["var "+from])
		}
	case 3: // locals
		for fn, l := range base.Locals {
			for from, to := range pair(l, cur.Locals[fn]) {
				o := objs["local "+fn+" "+from]
				if o == nil || strings.Contains(to, "#") {
					continue
				}
				// the recorded name must not occur in the function at all
				var decl *ast.FuncDecl
				for _, f := range r.Syntax {
					for _, d := range f.Decls {
						if d, ok := d.(*ast.FuncDecl); ok && d.Pos() <= o.Pos() && o.Pos() < d.End() {
							decl = d
						}
					}
				}
				free := decl != nil
				if free {
					ast.Inspect(decl, func(n ast.Node) bool {
						id, ok := n.(*ast.Ident)
						if !ok || id.Name != to {
							return true
						}
						if o := r.TypesInfo.Uses[id]; o != nil {
							if v, ok := o.(*types.Var); ok && v.IsField() {
								return true
							}
							if f, ok := o.(*types.Func); ok && f.Type().(*types.Signature).Recv() != nil {
								return true
							}
						}
						free = false
						return true
					})
				}
				if free && types.Universe.Lookup(to) == nil {
					out = append(out, ren{o, to})
				}
			}
		}
	}
	return out
}

func originObj(o types.Object) types.Object {
	switch v := o.(type) {
	case *types.Var:
		return v.Origin()
	case *types.Func:
		return v.Origin()
	}
	return o
}

// canonical alpha-renames the packages back to the recorded names.
func canonical(repo, file string, load func(map[string][]byte) ([]*packages.Package, error), short func(string) string) ([]*packages.Package, []string, error) {
	roots, err := load(nil)
	if err != nil {
		return nil, nil, err
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return roots, nil, nil
	}
	var base map[string]*pkgNames
	if err := json.Unmarshal(b, &base); err != nil {
		return nil, nil, err
	}
	overlay := map[string][]byte{}
	var done []string
	for round := 0; round < 4; round++ {
		var rs []ren
		for _, r := range roots {
			if bn := base[short(r.PkgPath)]; bn != nil && len(r.Errors) == 0 {
				rs = append(rs, renames(r, bn, round)...)
			}
		}
		if len(rs) == 0 {
			continue
		}
		to := map[types.Object]string{}
		for _, x := range rs {
			to[x.obj] = x.to
		}
		next := map[string][]byte{}
		for k, v := range overlay {
			next[k] = v
		}
		for _, r := range roots {
			for i, f := range r.Syntax {
				type edit struct {
					off, n int
					s      string
				}
				var es []edit
				ast.Inspect(f, func(n ast.Node) bool {
					id, ok := n.(*ast.Ident)
					if !ok {
						return true
					}
					o := r.TypesInfo.Defs[id]
					if o == nil {
						o = r.TypesInfo.Uses[id]
					}
					if o == nil {
						return true
					}
					if s, ok := to[originObj(o)]; ok && id.Name == o.Name() {
						es = append(es, edit{r.Fset.Position(id.Pos()).Offset, len(id.Name), s})
					}
					return true
				})
				// the variable of a type switch has one object per clause and is left alone
				if len(es) == 0 {
					continue
				}
				name := r.CompiledGoFiles[i]
				src, ok := overlay[name]
				if !ok {
					if src, err = os.ReadFile(name); err != nil {
						return nil, nil, err
					}
				}
				sort.Slice(es, func(a, b int) bool { return es[a].off > es[b].off })
				s := string(src)
				for _, e := range es {
					s = s[:e.off] + e.s + s[e.off+e.n:]
				}
				next[name] = []byte(s)
			}
		}
		nr, err := load(next)
		ok := err == nil
		if ok {
			for _, r := range nr {
				ok = ok && len(r.Errors) == 0
			}
		}
		if !ok {
			continue // the renaming does not type-check: keep the names as they are
		}
		for _, x := range rs {
			done = append(done, x.obj.Name()+" read as "+x.to)
		}
		roots, overlay = nr, next
	}
	return roots, done, nil
}

// writeNames records the names of the packages.
func writeNames(repo, file string, pkgs []string) error {
	all := map[string]*pkgNames{}
	for _, k := range pkgs {
		cfg := loadCfg(repo, nil)
		rs, err := packages.Load(cfg, "./"+k)
		if err != nil {
			return err
		}
		for _, r := range rs {
			pn, _ := objsOf(r)
			all[k] = pn
		}
	}
	b, _ := json.MarshalIndent(all, "", " ")
	return os.WriteFile(filepath.Clean(file), append(b, '\n'), 0644)
}
