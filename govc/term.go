package main

import (
	"strconv"
	"strings"
)

func isNum(s string) (int64, bool) {
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return n, true
	}
	if strings.HasPrefix(s, "(- ") && strings.Count(s, " ") == 1 {
		if n, err := strconv.ParseInt(s[3:len(s)-1], 10, 64); err == nil {
			return -n, true
		}
	}
	return 0, false
}

func num(n int64) string {
	if n < 0 {
		s := strconv.FormatInt(n, 10)
		return "(- " + s[1:] + ")"
	}
	return strconv.FormatInt(n, 10)
}

func and(xs ...string) string {
	var r []string
	for _, x := range xs {
		if x == "true" {
			continue
		}
		if x == "false" {
			return "false"
		}
		r = append(r, x)
	}
	switch len(r) {
	case 0:
		return "true"
	case 1:
		return r[0]
	}
	return "(and " + strings.Join(r, " ") + ")"
}

func or(xs ...string) string {
	var r []string
	for _, x := range xs {
		if x == "false" {
			continue
		}
		if x == "true" {
			return "true"
		}
		r = append(r, x)
	}
	switch len(r) {
	case 0:
		return "false"
	case 1:
		return r[0]
	}
	return "(or " + strings.Join(r, " ") + ")"
}

func not(x string) string {
	switch {
	case x == "true":
		return "false"
	case x == "false":
		return "true"
	case strings.HasPrefix(x, "(not "):
		return x[5 : len(x)-1]
	}
	return "(not " + x + ")"
}

func implies(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	if b == "false" {
		return not(a)
	}
	return "(=> " + a + " " + b + ")"
}

func eq(a, b string) string {
	if a == b {
		return "true"
	}
	if x, ok := isNum(a); ok {
		if y, ok := isNum(b); ok {
			if x == y {
				return "true"
			}
			return "false"
		}
	}
	switch {
	case a == "true":
		return b
	case b == "true":
		return a
	case a == "false":
		return not(b)
	case b == "false":
		return not(a)
	}
	return "(= " + a + " " + b + ")"
}

func ite(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

// splitApp splits "(op a b ...)" into op and args; ok=false if not an application.
func splitApp(s string) (string, []string, bool) {
	if len(s) < 2 || s[0] != '(' {
		return "", nil, false
	}
	in := s[1 : len(s)-1]
	var parts []string
	d, st := 0, 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				if i > st {
					parts = append(parts, in[st:i])
				}
				st = i + 1
			}
		}
	}
	if st < len(in) {
		parts = append(parts, in[st:])
	}
	if len(parts) == 0 {
		return "", nil, false
	}
	return parts[0], parts[1:], true
}

func add(a, b string) string {
	x, ax := isNum(a)
	y, by := isNum(b)
	if ax && by {
		return num(x + y)
	}
	if ax && x == 0 {
		return b
	}
	if by && y == 0 {
		return a
	}
	if ax {
		return add(b, a)
	}
	if by {
		if op, args, ok := splitApp(a); ok && len(args) == 2 {
			if z, ok := isNum(args[1]); ok && op == "+" {
				return add(args[0], num(z+y))
			}
			if z, ok := isNum(args[1]); ok && op == "-" {
				return add(args[0], num(y-z))
			}
		}
		if y < 0 {
			return "(- " + a + " " + num(-y) + ")"
		}
		return "(+ " + a + " " + b + ")"
	}
	// a + (b - a) = b
	if op, args, ok := splitApp(b); ok && op == "-" && len(args) == 2 && args[1] == a {
		return args[0]
	}
	if op, args, ok := splitApp(a); ok && op == "-" && len(args) == 2 && args[1] == b {
		return args[0]
	}
	return "(+ " + a + " " + b + ")"
}

func sub(a, b string) string {
	if a == b {
		return "0"
	}
	if y, ok := isNum(b); ok {
		return add(a, num(-y))
	}
	if op, args, ok := splitApp(a); ok && op == "+" && len(args) == 2 {
		if args[0] == b {
			return args[1]
		}
		if args[1] == b {
			return args[0]
		}
	}
	return "(- " + a + " " + b + ")"
}

func mul(a, b string) string {
	x, ax := isNum(a)
	y, by := isNum(b)
	if ax && by {
		return num(x * y)
	}
	if (ax && x == 0) || (by && y == 0) {
		return "0"
	}
	if ax && x == 1 {
		return b
	}
	if by && y == 1 {
		return a
	}
	return "(* " + a + " " + b + ")"
}

func lt(a, b string) string {
	if x, ok := isNum(a); ok {
		if y, ok := isNum(b); ok {
			return strconv.FormatBool(x < y)
		}
	}
	if a == b {
		return "false"
	}
	return "(< " + a + " " + b + ")"
}

func le(a, b string) string {
	if x, ok := isNum(a); ok {
		if y, ok := isNum(b); ok {
			return strconv.FormatBool(x <= y)
		}
	}
	if a == b {
		return "true"
	}
	return "(<= " + a + " " + b + ")"
}

func sel(a, i string) string {
	if op, args, ok := splitApp(a); ok && op == "store" && len(args) == 3 {
		if args[1] == i {
			return args[2]
		}
		x, ax := isNum(args[1])
		y, ay := isNum(i)
		if ax && ay && x != y {
			return sel(args[0], i)
		}
	}
	if strings.HasPrefix(a, "((as const ") {
		_, args, _ := splitApp(a)
		return args[0]
	}
	return "(select " + a + " " + i + ")"
}

func store(a, i, v string) string {
	if op, args, ok := splitApp(a); ok && op == "store" && len(args) == 3 && args[1] == i {
		return "(store " + args[0] + " " + i + " " + v + ")"
	}
	return "(store " + a + " " + i + " " + v + ")"
}

func app(f string, args ...string) string {
	if len(args) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(args, " ") + ")"
}

const two64 = "18446744073709551616"
const two63 = "9223372036854775808"
const two32 = "4294967296"
