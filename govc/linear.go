package main

import (
	"sort"
	"strings"
)

// abstractNonlinear replaces multiplications, divisions and remainders that are not linear by
// uninterpreted functions (the same function for the same operation, so equal operands still give
// equal results). Whatever is proved without knowing what these operations compute holds when it
// is known: the rewriting only forgets facts. Returns "" when there is nothing to forget.
func abstractNonlinear(q string) string {
	p := &sx{s: q}
	var b strings.Builder
	for {
		p.space(&b)
		if p.i >= len(p.s) {
			break
		}
		b.WriteString(p.expr())
	}
	if !p.changed {
		return ""
	}
	return "(declare-fun umul! (Int Int) Int)\n(declare-fun udiv! (Int Int) Int)\n(declare-fun umod! (Int Int) Int)\n" + b.String()
}

type sx struct {
	s       string
	i       int
	changed bool
}

func (p *sx) space(b *strings.Builder) {
	for p.i < len(p.s) {
		c := p.s[p.i]
		if c == ';' {
			for p.i < len(p.s) && p.s[p.i] != '\n' {
				p.i++
			}
			continue
		}
		if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
			return
		}
		if b != nil && c == '\n' {
			b.WriteByte('\n')
		}
		p.i++
	}
}

func (p *sx) expr() string {
	if p.s[p.i] == '|' || p.s[p.i] == '"' {
		e := strings.IndexByte(p.s[p.i+1:], p.s[p.i])
		if e < 0 {
			e = len(p.s) - p.i - 2
		}
		a := p.s[p.i : p.i+e+2]
		p.i += e + 2
		return a
	}
	if p.s[p.i] != '(' {
		st := p.i
		p.i++
		for p.i < len(p.s) && !strings.ContainsRune(" \n\t\r()", rune(p.s[p.i])) {
			p.i++
		}
		return p.s[st:p.i]
	}
	p.i++
	var parts []string
	for {
		p.space(nil)
		if p.i >= len(p.s) {
			break
		}
		if p.s[p.i] == ')' {
			p.i++
			break
		}
		parts = append(parts, p.expr())
	}
	if len(parts) >= 3 {
		switch parts[0] {
		case "*":
			var lit, non []string
			for _, a := range parts[1:] {
				if literal(a) {
					lit = append(lit, a)
				} else {
					non = append(non, a)
				}
			}
			if len(non) >= 2 {
				p.changed = true
				sort.Strings(non)
				t := non[0]
				for _, a := range non[1:] {
					t = "(umul! " + t + " " + a + ")"
				}
				if len(lit) > 0 {
					return "(* " + strings.Join(lit, " ") + " " + t + ")"
				}
				return t
			}
		case "div", "mod":
			if len(parts) == 3 && (!literal(parts[2]) || len(parts[2]) > 15) {
				p.changed = true
				return "(u" + parts[0] + "! " + parts[1] + " " + parts[2] + ")"
			}
		}
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func literal(a string) bool {
	a = strings.TrimSuffix(strings.TrimPrefix(a, "(- "), ")")
	if a == "" {
		return false
	}
	for i := 0; i < len(a); i++ {
		if a[i] < '0' || a[i] > '9' {
			return false
		}
	}
	return true
}
