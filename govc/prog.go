package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	fset  *token.FileSet
	repo  string
	mod   string
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by short path (relative to the module)
	funcs map[string]*ssa.Function
	fkey  map[*ssa.Function]string
	renamed []string
}

func loadCfg(repo string, ov map[string][]byte) *packages.Config {
	return &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     repo,
		Env:     append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GO111MODULE=on"),
		Overlay: ov,
	}
}

func loadProg(repo string, pats []string, names string) (*Prog, error) {
	var ps []string
	for _, p := range pats {
		ps = append(ps, "./"+p)
	}
	load := func(ov map[string][]byte) ([]*packages.Package, error) {
		return packages.Load(loadCfg(repo, ov), ps...)
	}
	short := func(path string) string { return path[strings.LastIndex(path, "/")+1:] }
	roots, renamed, err := canonical(repo, names, load, short)
	if err != nil {
		return nil, err
	}
	for _, r := range roots {
		for _, e := range r.Errors {
			return nil, fmt.Errorf("%s: %v", r.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(roots, ssa.GlobalDebug|ssa.BareInits|ssa.InstantiateGenerics)
	prog.Build()
	abs, _ := filepath.Abs(repo)
	p := &Prog{fset: prog.Fset, repo: abs, prog: prog, pkgs: map[string]*ssa.Package{}, renamed: renamed, funcs: map[string]*ssa.Function{}, fkey: map[*ssa.Function]string{}}
	for i, r := range roots {
		if r.Module != nil {
			p.mod = r.Module.Path
		}
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", r.PkgPath)
		}
	}
	for i, r := range roots {
		short := p.short(r.PkgPath)
		p.pkgs[short] = spkgs[i]
		if f := spkgs[i].Func("init"); f != nil {
			p.addInitFuncs(short, f)
		}
		sc := r.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.Func:
				if f := prog.FuncValue(o); f != nil {
					p.addFunc(short+"."+n, f)
				}
			case *types.TypeName:
				nm, ok := o.Type().(*types.Named)
				if !ok || o.IsAlias() {
					continue
				}
				for j := 0; j < nm.NumMethods(); j++ {
					m := nm.Method(j)
					if f := prog.FuncValue(m); f != nil {
						p.addFunc(short+"."+n+"."+m.Name(), f)
					}
				}
			}
		}
	}
	return p, nil
}

// addInitFuncs names function literals stored in package variables: "pkg.var.Field" and "pkg.var".
func (p *Prog) addInitFuncs(pk string, init *ssa.Function) {
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			f, ok := st.Val.(*ssa.Function)
			if !ok || f.Parent() != init {
				continue
			}
			k := ""
			a := st.Addr
			for a != nil {
				if fa, ok := a.(*ssa.FieldAddr); ok {
					k = "." + under(deref(fa.X.Type())).(*types.Struct).Field(fa.Field).Name() + k
					a = fa.X
					continue
				}
				break
			}
			if al, ok := a.(*ssa.Alloc); ok {
				// composite literal built in a temporary and copied to the variable
				for _, r := range *al.Referrers() {
					ld, ok := r.(*ssa.UnOp)
					if !ok {
						continue
					}
					for _, q := range *ld.Referrers() {
						if s2, ok := q.(*ssa.Store); ok && s2.Val == ld {
							a = s2.Addr
						}
					}
				}
			}
			if g, ok := a.(*ssa.Global); ok {
				p.addFunc(pk+"."+g.Name()+k, f)
			}
		}
	}
}

func (p *Prog) addFunc(k string, f *ssa.Function) {
	p.funcs[k] = f
	p.fkey[f] = k
	for i, a := range f.AnonFuncs {
		p.addFunc(fmt.Sprintf("%s$%d", k, i+1), a)
	}
}

func (p *Prog) short(path string) string {
	if path == p.mod {
		return ""
	}
	return strings.TrimPrefix(path, p.mod+"/")
}

func origin(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

// keyOf names a function: package (module relative or full path) and Type.method.
func (p *Prog) keyOf(f *ssa.Function) (string, string) {
	o := origin(f)
	if k, ok := p.fkey[o]; ok {
		pk := ""
		if o.Pkg != nil {
			pk = p.short(o.Pkg.Pkg.Path())
		} else if o.Parent() != nil {
			q := o
			for q.Parent() != nil {
				q = q.Parent()
			}
			if q.Pkg != nil {
				pk = p.short(q.Pkg.Pkg.Path())
			}
		}
		return pk, strings.TrimPrefix(k, pk+".")
	}
	pk := ""
	if ob := o.Object(); ob != nil && ob.Pkg() != nil {
		pk = p.short(ob.Pkg().Path())
	} else if o.Pkg != nil {
		pk = p.short(o.Pkg.Pkg.Path())
	}
	name := o.Name()
	if r := o.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if q, ok := t.(*types.Pointer); ok {
			t = types.Unalias(q.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			name = n.Obj().Name() + "." + name
		}
	}
	return pk, name
}

func (p *Prog) contractFor(sf *SpecFile, f *ssa.Function) *Contract {
	pk, n := p.keyOf(f)
	for _, c := range sf.Contracts {
		if c.Name == n && c.Pkg == pk && !c.Inline && !c.dropped {
			return c
		}
	}
	for _, c := range sf.Externs {
		if c.Name == n && c.Pkg == pk {
			return c
		}
	}
	return nil
}

func (p *Prog) inModule(f *ssa.Function) bool {
	o := origin(f)
	for o.Parent() != nil {
		o = o.Parent()
	}
	var path string
	if o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	} else if ob := o.Object(); ob != nil && ob.Pkg() != nil {
		path = ob.Pkg().Path()
	} else {
		return len(o.Blocks) > 0
	}
	_, ok := p.pkgs[p.short(path)]
	return ok && (path == p.mod || strings.HasPrefix(path, p.mod+"/"))
}
