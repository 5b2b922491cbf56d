package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"
)

// ---------- expressions ----------

type Expr interface{}
type EIdent struct{ Name string }
type ENum struct{ V string }
type ESel struct {
	X Expr
	F string
}
type EIdx struct{ X, I Expr }
type ECall struct {
	F    string
	Args []Expr
}
type EUn struct {
	Op string
	X  Expr
}
type EBin struct {
	Op   string
	X, Y Expr
}
type EQuant struct {
	Forall bool
	Vars   []QVar
	Trig   [][]Expr
	Body   Expr
}
type QVar struct {
	Name, Typ string
	In        Expr // "forall i in s"
}
type ELet struct {
	Name string
	E    Expr
	Body Expr
}
type EType struct{ Name string }

type tok struct{ k, s string } // k: id,num,op,str,eof

func lexSpec(src string) ([]tok, error) {
	var r []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			r = append(r, tok{"id", src[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i + 1
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			r = append(r, tok{"num", src[i:j]})
			i = j
		case c == '"':
			j := strings.IndexByte(src[i+1:], '"')
			if j < 0 {
				return nil, fmt.Errorf("unterminated string")
			}
			r = append(r, tok{"str", src[i+1 : i+1+j]})
			i = i + j + 2
		default:
			ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||"}
			found := ""
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					found = o
					break
				}
			}
			if found == "" {
				found = string(c)
			}
			r = append(r, tok{"op", found})
			i += len(found)
		}
	}
	return append(r, tok{"eof", ""}), nil
}

type sparser struct {
	t   []tok
	p   int
	src string
}

func (p *sparser) peek() tok { return p.t[p.p] }
func (p *sparser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *sparser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("spec parse: expected %q got %q in: %s", s, p.peek().s, p.src))
	}
}

func parseExpr(src string) (e Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	t, err := lexSpec(src)
	if err != nil {
		return nil, err
	}
	p := &sparser{t: t, src: src}
	e = p.expr()
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec parse: trailing %q in: %s", p.peek().s, src))
	}
	return e, nil
}

func parseExprList(src string) (es []Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	t, err := lexSpec(src)
	if err != nil {
		return nil, err
	}
	p := &sparser{t: t, src: src}
	for {
		es = append(es, p.expr())
		if !p.accept(",") {
			break
		}
	}
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec parse: trailing %q in: %s", p.peek().s, src))
	}
	return es, nil
}

func (p *sparser) typ() string {
	if p.peek().k == "str" {
		return p.next().s
	}
	s := ""
	for p.accept("*") {
		s += "*"
	}
	for p.accept("[") {
		p.expect("]")
		s += "[]"
		for p.accept("*") {
			s += "*"
		}
	}
	t := p.next()
	if t.k != "id" {
		panic("spec parse: type expected in: " + p.src)
	}
	s += t.s
	for p.is(".") {
		p.next()
		s += "." + p.next().s
	}
	if p.is("[") {
		p.next()
		s += "[" + p.typ()
		for p.accept(",") {
			s += "," + p.typ()
		}
		p.expect("]")
		s += "]"
	}
	return s
}

func (p *sparser) expr() Expr {
	if p.is("forall") || p.is("exists") {
		fa := p.next().s == "forall"
		q := EQuant{Forall: fa}
		for {
			name := p.next().s
			if p.accept("in") {
				q.Vars = append(q.Vars, QVar{Name: name, In: p.unary()})
			} else {
				q.Vars = append(q.Vars, QVar{Name: name, Typ: p.typ()})
			}
			if !p.accept(",") {
				break
			}
		}
		for p.is("{") {
			p.next()
			var tr []Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			q.Trig = append(q.Trig, tr)
		}
		p.expect("::")
		q.Body = p.expr()
		return q
	}
	if p.is("let") {
		p.next()
		n := p.next().s
		p.expect(":=")
		e := p.iff()
		p.expect("::")
		return ELet{n, e, p.expr()}
	}
	return p.iff()
}

func (p *sparser) iff() Expr {
	x := p.imp()
	for p.accept("<==>") {
		x = EBin{"<==>", x, p.imp()}
	}
	return x
}

func (p *sparser) imp() Expr {
	x := p.or()
	if p.accept("==>") {
		if p.is("forall") || p.is("exists") || p.is("let") {
			return EBin{"==>", x, p.expr()}
		}
		return EBin{"==>", x, p.imp()}
	}
	return x
}

func (p *sparser) or() Expr {
	x := p.and()
	for p.accept("||") {
		x = EBin{"||", x, p.and()}
	}
	return x
}

func (p *sparser) and() Expr {
	x := p.cmp()
	for p.accept("&&") {
		if p.is("forall") || p.is("exists") || p.is("let") {
			return EBin{"&&", x, p.expr()}
		}
		x = EBin{"&&", x, p.cmp()}
	}
	return x
}

func (p *sparser) cmp() Expr {
	x := p.addx()
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.next()
			y := p.addx()
			e := EBin{t.s, x, y}
			// chained comparison
			for {
				t2 := p.peek()
				if t2.k == "op" && (t2.s == "<" || t2.s == "<=") {
					p.next()
					z := p.addx()
					e = EBin{"&&", e, EBin{t2.s, y, z}}
					y = z
					continue
				}
				break
			}
			x = e
			continue
		}
		if t.k == "id" && t.s == "in" {
			p.next()
			x = EBin{"in", x, p.addx()}
			continue
		}
		return x
	}
}

func (p *sparser) addx() Expr {
	x := p.mulx()
	for p.is("+") || p.is("-") {
		op := p.next().s
		x = EBin{op, x, p.mulx()}
	}
	return x
}

func (p *sparser) mulx() Expr {
	x := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		op := p.next().s
		x = EBin{op, x, p.unary()}
	}
	return x
}

func (p *sparser) unary() Expr {
	if p.accept("!") {
		return EUn{"!", p.unary()}
	}
	if p.accept("-") {
		return EUn{"-", p.unary()}
	}
	if p.accept("*") {
		return EUn{"*", p.unary()}
	}
	if p.accept("&") {
		return EUn{"&", p.unary()}
	}
	return p.postfix()
}

func (p *sparser) postfix() Expr {
	var x Expr
	t := p.next()
	switch {
	case t.k == "num":
		x = ENum{t.s}
	case t.k == "str":
		x = EType{t.s}
	case t.k == "op" && t.s == "(":
		x = p.expr()
		p.expect(")")
	case t.k == "id":
		if p.is("(") {
			p.next()
			c := ECall{F: t.s}
			if !p.accept(")") {
				for {
					c.Args = append(c.Args, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
			}
			x = c
		} else {
			x = EIdent{t.s}
		}
	default:
		panic(fmt.Sprintf("spec parse: unexpected %q in: %s", t.s, p.src))
	}
	for {
		if p.accept(".") {
			x = ESel{x, p.next().s}
			continue
		}
		if p.is("[") {
			p.next()
			if p.accept("*") {
				p.expect("]")
				x = ECall{"elemsof", []Expr{x}}
				continue
			}
			i := p.expr()
			p.expect("]")
			x = EIdx{x, i}
			continue
		}
		return x
	}
}

// ---------- contract files ----------

type Clause struct {
	Kind string // requires, ensures, invariant, assert, decreases, ...
	Src  string
	E    Expr
	Name string
}

type LoopSpec struct {
	N       int
	Clauses []Clause
}

type Contract struct {
	Pkg      string // package path suffix
	Name     string // Type.method or func
	Params   []string
	Results  []string
	Clauses  []Clause
	Modifies []Expr
	HasMod   bool
	Pure     bool
	Loops    map[int]*LoopSpec
	Alts     []map[int]*LoopSpec // "loop N or": other invariants, for other shapes of the same loop
	Extern   bool
	Trusted  bool
	NoVerify bool
	Inline   bool
	NoTerm   bool
	Splits   []Expr
	Funcal   []Clause
	File     string
	Note     string
	Optional bool
	Nilable  bool
	dropped  bool
	Locals   []string
	Hide     []string // axiom groups and lemmas not used for this function
	GhostUpd []GhostUpd
}

type Lemma struct {
	Name     string
	Params   []QVar
	Requires []Clause
	Ensures  []Clause
	Hints    []Clause
	Trig     [][]Expr
	Induct   string
	From     string
	General  []string
	Pkg      string
	NoAxiom  bool
	Axiom    bool // assumed, not proved
	Note     string
}

type LogicFun struct {
	Name string
	Args []string
	Ret  string
}

type Define struct {
	Name   string
	Params []string
	Body   Expr
}

type SpecFile struct {
	Contracts []*Contract
	Externs   []*Contract
	Lemmas    []*Lemma
	SMT       []string // raw SMT in order
	SMTGroup  map[int]string
	Logic     map[string]*LogicFun
	Defines   map[string]*Define
	Ghosts    map[string]string
	GhostOrd  []string
	Opts      map[string]string
	Invokes   []string
	Assume    []string // textual assumptions (trusted base)
	Pkgs      []string
	Covers    []string
}

func newSpecFile() *SpecFile {
	return &SpecFile{Logic: map[string]*LogicFun{}, Defines: map[string]*Define{}, Ghosts: map[string]string{}, Opts: map[string]string{}}
}

var clauseKW = map[string]bool{"requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true, "decreases": true, "back": true,
	"exit": true, "entry": true, "start": true, "induction": true, "from": true, "trigger": true, "hint": true, "generalize": true, "noaxiom": true, "noverify": true, "trusted": true, "inline": true, "functional": true, "note": true, "end": true, "split": true, "head": true, "step": true, "optional": true, "panics": true, "ghost": true, "backghost": true, "callghost": true, "noterm": true, "after": true, "before": true, "grant": true, "nilable": true, "defines": true, "local": true, "hide": true, "mayfatal": true}

func readSpec(sf *SpecFile, path, pkg string, seen map[string]bool) error {
	abs, _ := filepath.Abs(path)
	if seen[abs+" "+pkg] {
		return nil
	}
	seen[abs+" "+pkg] = true
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	lines := strings.Split(string(b), "\n")
	// strip comments
	for i, l := range lines {
		if k := strings.Index(l, "//"); k >= 0 {
			lines[i] = l[:k]
		}
	}
	// a line "[name] ..." is read only under "option name" (set before the include), "[!name] ..." only without it
	tagged := func(l string) string {
		t := strings.TrimLeft(l, " \t")
		k := strings.Index(t, "] ")
		if !strings.HasPrefix(t, "[") || k < 0 {
			return l
		}
		n := t[1:k]
		if (sf.Opts[strings.TrimPrefix(n, "!")] != "") == strings.HasPrefix(n, "!") {
			return ""
		}
		return l[:len(l)-len(t)] + t[k+2:]
	}
	fail := func(i int, f string, a ...any) error {
		return fmt.Errorf("%s:%d: %s", path, i+1, fmt.Sprintf(f, a...))
	}
	i := 0
	top := map[string]bool{"include": true, "package": true, "func": true, "extern": true, "lemma": true, "axiom": true, "logic": true, "smt": true, "define": true, "ghostvar": true, "option": true, "assume": true, "load": true}
	firstWord := func(l string) string {
		l = strings.TrimSpace(l)
		j := strings.IndexAny(l, " \t(:")
		if j < 0 {
			return l
		}
		return l[:j]
	}
	// gather a logical item: first line plus continuation lines until next top-level/clause keyword at lower indentation
	for i < len(lines) {
		lines[i] = tagged(lines[i])
		l := lines[i]
		if strings.TrimSpace(l) == "" {
			i++
			continue
		}
		if l[0] == ' ' || l[0] == '\t' {
			return fail(i, "unexpected indented line: %s", l)
		}
		w := firstWord(l)
		if !top[w] {
			return fail(i, "unknown top-level keyword %q", w)
		}
		start := i
		body := []string{l}
		i++
		for i < len(lines) {
			lines[i] = tagged(lines[i])
			if strings.TrimSpace(lines[i]) != "" && lines[i][0] != ' ' && lines[i][0] != '\t' {
				break
			}
			body = append(body, lines[i])
			i++
		}
		rest := strings.TrimSpace(strings.TrimPrefix(l, w))
		whole := strings.TrimSpace(rest + "\n" + strings.Join(body[1:], "\n"))
		switch w {
		case "include":
			// include FILE [for PACKAGE]: the included file's functions are in PACKAGE
			fs := strings.Fields(rest)
			ip := ""
			if len(fs) == 3 && fs[1] == "for" {
				ip = fs[2]
			}
			if err := readSpec(sf, filepath.Join(filepath.Dir(path), fs[0]), ip, seen); err != nil {
				return err
			}
		case "package":
			pkg = rest
		case "load":
			sf.Pkgs = append(sf.Pkgs, strings.Fields(rest)...)
		case "option":
			kv := strings.SplitN(rest, " ", 2)
			if len(kv) == 1 {
				kv = append(kv, "true")
			}
			if kv[0] == "upward" && sf.Opts[kv[0]] != "" {
				kv[1] = sf.Opts[kv[0]] + " " + kv[1]
			}
			sf.Opts[kv[0]] = strings.TrimSpace(kv[1])
		case "assume":
			sf.Assume = append(sf.Assume, strings.Join(strings.Fields(whole), " "))
		case "ghostvar":
			kv := strings.SplitN(rest, ":", 2)
			n := strings.TrimSpace(kv[0])
			sf.Ghosts[n] = strings.Trim(strings.TrimSpace(kv[1]), "\"")
			sf.GhostOrd = append(sf.GhostOrd, n)
		case "smt":
			group := ""
			if isIdent(rest) {
				group = rest
				whole = strings.TrimSpace(strings.Join(body[1:], "\n"))
			}
			for _, s := range splitSexps(whole) {
				if sf.SMTGroup == nil {
					sf.SMTGroup = map[int]string{}
				}
				sf.SMTGroup[len(sf.SMT)] = group
				sf.SMT = append(sf.SMT, s)
				registerSig(sf, s)
			}
		case "logic":
			// logic name(sort, ...) sort
			lp, rp := strings.Index(whole, "("), strings.LastIndex(whole, ")")
			_ = rp
			d := 0
			e := -1
			for j := lp; j < len(whole); j++ {
				if whole[j] == '(' {
					d++
				}
				if whole[j] == ')' {
					d--
					if d == 0 {
						e = j
						break
					}
				}
			}
			if lp < 0 || e < 0 {
				return fail(start, "bad logic declaration")
			}
			name := strings.TrimSpace(whole[:lp])
			var args []string
			for _, a := range splitTop(whole[lp+1 : e]) {
				args = append(args, smtSort(a))
			}
			ret := smtSort(strings.TrimSpace(whole[e+1:]))
			sf.Logic[name] = &LogicFun{name, args, ret}
			sf.SMT = append(sf.SMT, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(args, " "), ret))
		case "define":
			eqi := strings.Index(whole, "=")
			lp := strings.Index(whole, "(")
			if lp < 0 || lp > eqi {
				return fail(start, "bad define")
			}
			rp := strings.Index(whole, ")")
			eqi = rp + strings.Index(whole[rp:], "=")
			d := &Define{Name: strings.TrimSpace(whole[:lp])}
			for _, a := range strings.Split(whole[lp+1:rp], ",") {
				a = strings.TrimSpace(a)
				if a != "" {
					d.Params = append(d.Params, a)
				}
			}
			e, err := parseExpr(whole[eqi+1:])
			if err != nil {
				return fail(start, "%v", err)
			}
			d.Body = e
			sf.Defines[d.Name] = d
		case "lemma", "axiom":
			lm := &Lemma{Pkg: pkg, Axiom: w == "axiom"}
			lp := strings.Index(rest, "(")
			rp := strings.LastIndex(rest, ")")
			if lp < 0 || rp < 0 {
				return fail(start, "bad lemma header")
			}
			lm.Name = strings.TrimSpace(rest[:lp])
			for _, a := range splitTop(rest[lp+1 : rp]) {
				kv := strings.SplitN(strings.TrimSpace(a), " ", 2)
				if len(kv) != 2 {
					return fail(start, "bad lemma param %q", a)
				}
				lm.Params = append(lm.Params, QVar{Name: kv[0], Typ: strings.Trim(strings.TrimSpace(kv[1]), "\"")})
			}
			cl, err := parseClauses(body[1:])
			if err != nil {
				return fail(start, "%v", err)
			}
			for _, c := range cl {
				switch c.Kind {
				case "requires":
					lm.Requires = append(lm.Requires, c)
				case "ensures":
					lm.Ensures = append(lm.Ensures, c)
				case "hint":
					lm.Hints = append(lm.Hints, c)
				case "trigger":
					es, err := parseExprList(c.Src)
					if err != nil {
						return fail(start, "%v", err)
					}
					lm.Trig = append(lm.Trig, es)
				case "induction":
					lm.Induct = strings.TrimSpace(c.Src)
				case "from":
					lm.From = strings.TrimSpace(c.Src)
				case "generalize":
					lm.General = strings.Fields(strings.ReplaceAll(c.Src, ",", " "))
				case "noaxiom":
					lm.NoAxiom = true
				case "note":
					lm.Note = c.Src
				default:
					return fail(start, "clause %s not allowed in lemma", c.Kind)
				}
			}
			sf.Lemmas = append(sf.Lemmas, lm)
		case "func", "extern":
			c := &Contract{Pkg: pkg, Loops: map[int]*LoopSpec{}, Extern: w == "extern", File: path}
			hdr := rest
			if w == "extern" {
				f := strings.SplitN(rest, " ", 2)
				c.Pkg = f[0]
				hdr = strings.TrimSpace(f[1])
			}
			lp := strings.Index(hdr, "(")
			if lp < 0 {
				return fail(start, "bad func header")
			}
			c.Name = strings.TrimSpace(hdr[:lp])
			rp := strings.Index(hdr, ")")
			for _, a := range strings.Split(hdr[lp+1:rp], ",") {
				if a = strings.TrimSpace(a); a != "" {
					c.Params = append(c.Params, a)
				}
			}
			r := strings.TrimSpace(hdr[rp+1:])
			r = strings.Trim(r, "()")
			for _, a := range strings.Split(r, ",") {
				if a = strings.TrimSpace(a); a != "" {
					c.Results = append(c.Results, a)
				}
			}
			cl, err := parseClauses(body[1:])
			if err != nil {
				return fail(start, "%v", err)
			}
			var cur *LoopSpec
			for _, x := range cl {
				switch x.Kind {
				case "loop":
					var n int
					fmt.Sscanf(x.Src, "%d", &n)
					cur = &LoopSpec{N: n}
					if f := strings.Fields(x.Src); len(f) > 1 {
						if f[1] != "or" || len(f) > 2 {
							return fail(start, "loop %s", x.Src)
						}
						k := 0
						for k < len(c.Alts) && c.Alts[k][n] != nil {
							k++
						}
						if k == len(c.Alts) {
							c.Alts = append(c.Alts, map[int]*LoopSpec{})
						}
						c.Alts[k][n] = cur
						break
					}
					c.Loops[n] = cur
				case "end":
					cur = nil
				case "invariant", "decreases", "back", "head", "start":
					if cur == nil {
						return fail(start, "%s outside a loop block", x.Kind)
					}
					cur.Clauses = append(cur.Clauses, x)
				case "step":
					cur.Clauses = append(cur.Clauses, x)
				case "modifies":
					if cur != nil {
						cur.Clauses = append(cur.Clauses, x)
						break
					}
					c.HasMod = true
					if s := strings.TrimSpace(x.Src); s != "" && s != "nothing" {
						es, err := parseExprList(s)
						if err != nil {
							return fail(start, "%v", err)
						}
						c.Modifies = append(c.Modifies, es...)
					}
				case "trusted":
					c.Trusted = true
					c.Note = x.Src
				case "noverify":
					c.NoVerify = true
				case "optional":
					c.Optional = true
				case "noterm":
					c.NoTerm = true
				case "inline":
					c.Inline = true
				case "nilable":
					c.Nilable = true
				case "hide":
					c.Hide = append(c.Hide, strings.Fields(strings.ReplaceAll(x.Src, ",", " "))...)
				case "local":
					c.Locals = append(c.Locals, x.Src)
				case "ghost", "backghost":
					if cur != nil {
						// ghost update on entering the loop, or at the end of its body
						kv := strings.SplitN(x.Src, ":=", 2)
						if len(kv) != 2 {
							return fail(start, "bad ghost update")
						}
						e, err := parseExpr(kv[1])
						if err != nil {
							return fail(start, "%v", err)
						}
						x.Name, x.E = strings.TrimSpace(kv[0]), e
						cur.Clauses = append(cur.Clauses, x)
						break
					}
					kv := strings.SplitN(x.Src, ":=", 2)
					if len(kv) != 2 || x.Kind != "ghost" {
						return fail(start, "bad ghost update")
					}
					e, err := parseExpr(kv[1])
					if err != nil {
						return fail(start, "%v", err)
					}
					c.GhostUpd = append(c.GhostUpd, GhostUpd{strings.TrimSpace(kv[0]), e})
				case "note":
					c.Note = x.Src
				case "functional":
					c.Funcal = append(c.Funcal, x)
				default:
					c.Clauses = append(c.Clauses, x)
				}
			}
			if w == "extern" {
				sf.Externs = append(sf.Externs, c)
			} else {
				sf.Contracts = append(sf.Contracts, c)
			}
		}
	}
	return nil
}

func parseClauses(lines []string) ([]Clause, error) {
	var r []Clause
	var cur *Clause
	flush := func() error {
		if cur == nil {
			return nil
		}
		switch cur.Kind {
		case "callghost":
			// "callghost f: $g := e" sets a ghost variable just before each call of f
			kv := strings.SplitN(cur.Src, ":=", 2)
			if len(kv) != 2 || strings.Count(kv[0], ":") != 1 {
				return fmt.Errorf("bad ghost update %q", cur.Src)
			}
			e, err := parseExpr(kv[1])
			if err != nil {
				return err
			}
			nm := strings.SplitN(kv[0], ":", 2)
			cur.Name, cur.Src, cur.E = strings.TrimSpace(nm[0]), strings.TrimSpace(nm[1]), e
		case "requires", "ensures", "invariant", "decreases", "back", "exit", "entry", "start", "after", "before", "grant", "hint", "split", "head", "step", "panics", "defines":
			src := cur.Src
			// optional "name:" prefix
			if k := strings.Index(src, ":"); k > 0 && k+1 < len(src) && src[k+1] != ':' && src[k+1] != '=' && isIdent(strings.TrimSpace(src[:k])) {
				cur.Name = strings.TrimSpace(src[:k])
				src = src[k+1:]
			}
			e, err := parseExpr(src)
			if err != nil {
				return err
			}
			cur.E = e
		}
		r = append(r, *cur)
		cur = nil
		return nil
	}
	for _, l := range lines {
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if j := strings.IndexAny(t, " \t"); j >= 0 {
			w = t[:j]
		}
		if clauseKW[w] {
			if err := flush(); err != nil {
				return nil, err
			}
			cur = &Clause{Kind: w, Src: strings.TrimSpace(t[len(w):])}
			continue
		}
		if cur == nil {
			return nil, fmt.Errorf("clause expected: %s", t)
		}
		cur.Src += " " + t
	}
	if err := flush(); err != nil {
		return nil, err
	}
	return r, nil
}

func isIdent(s string) bool {
	if s == "" {
		return false
	}
	for i, c := range s {
		if !(unicode.IsLetter(c) || c == '_' || (i > 0 && unicode.IsDigit(c))) {
			return false
		}
	}
	return true
}

func splitTop(s string) []string {
	var r []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		r = append(r, t)
	}
	return r
}

func smtSort(s string) string {
	s = strings.Trim(strings.TrimSpace(s), "\"")
	switch s {
	case "int", "ref", "box", "u32", "u64":
		return "Int"
	case "bool":
		return "Bool"
	case "ints":
		return "(Array Int Int)"
	}
	return s
}

func splitSexps(s string) []string {
	var r []string
	d, st := 0, -1
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ';':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case '(':
			if d == 0 {
				st = i
			}
			d++
		case ')':
			d--
			if d == 0 {
				r = append(r, strings.Join(strings.Fields(s[st:i+1]), " "))
			}
		}
	}
	return r
}

func registerSig(sf *SpecFile, s string) {
	op, args, ok := splitApp(s)
	if !ok {
		return
	}
	switch op {
	case "declare-fun":
		var as []string
		if args[1] != "()" {
			o, a, _ := splitApp(args[1])
			as = append([]string{o}, a...)
		}
		sf.Logic[args[0]] = &LogicFun{args[0], as, args[2]}
	case "declare-const":
		sf.Logic[args[0]] = &LogicFun{args[0], nil, args[1]}
	case "define-fun", "define-fun-rec":
		var as []string
		if args[1] != "()" {
			o, a, _ := splitApp(args[1])
			for _, x := range append([]string{o}, a...) {
				_, ss, _ := splitApp(x)
				as = append(as, ss[0])
			}
		}
		sf.Logic[args[0]] = &LogicFun{args[0], as, args[2]}
	}
}

// GhostUpd is a ghost assignment "$name := expr" executed when the function returns.
type GhostUpd struct {
	Name string
	E    Expr
}
