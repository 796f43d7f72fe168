package main

import (
	"fmt"
	"strings"
)

// Expr is a specification expression.
type Expr struct {
	Op   string // int, str, id, sel, call, index, slice, un, bin, quant, list, typeassert, ite
	Name string // identifier / operator / selector / literal
	Args []*Expr
	Vars []BVar    // quantifier variables
	Trig [][]*Expr // quantifier triggers
	Pos  string
}

// BVar is a bound variable of a quantifier, lemma, or candidate.
type BVar struct{ Name, Type string }

type lexer struct {
	src  string
	toks []string
	p    int
	pos  string
}

type specErr struct{ msg string }

func (e specErr) Error() string { return e.msg }

func serr(pos, f string, a ...interface{}) specErr {
	return specErr{pos + ": " + fmt.Sprintf(f, a...)}
}

var ops3 = []string{"<==>", "==>", "...", "::"}
var ops2 = []string{"==", "!=", "<=", ">=", "&&", "||", "++"}

func lex(src, pos string) []string {
	var out []string
	i := 0
	isID := func(r rune) bool {
		return r == '_' || r == '$' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r > 127
	}
	rs := []rune(src)
outer:
	for i < len(rs) {
		c := rs[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			i++
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				panic(serr(pos, "unterminated string"))
			}
			out = append(out, string(rs[i:j+1]))
			i = j + 1
			continue
		}
		if c == '`' {
			j := i + 1
			for j < len(rs) && rs[j] != '`' {
				j++
			}
			out = append(out, string(rs[i:j+1]))
			i = j + 1
			continue
		}
		if c == '\'' {
			j := i + 1
			if rs[j] == '\\' {
				j++
			}
			j++
			if rs[j] != '\'' {
				panic(serr(pos, "bad char literal"))
			}
			out = append(out, string(rs[i:j+1]))
			i = j + 1
			continue
		}
		if isID(c) {
			j := i
			for j < len(rs) && isID(rs[j]) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
			continue
		}
		rest := string(rs[i:])
		for _, set := range [][]string{ops3, ops2} {
			for _, o := range set {
				if strings.HasPrefix(rest, o) {
					out = append(out, o)
					i += len([]rune(o))
					continue outer
				}
			}
		}
		out = append(out, string(c))
		i++
	}
	return out
}

func parseExpr(src, pos string) *Expr {
	l := &lexer{src: src, toks: lex(src, pos), pos: pos}
	e := l.expr(0)
	if l.p != len(l.toks) {
		panic(serr(pos, "unexpected %q in %q", l.toks[l.p], src))
	}
	return e
}

func parseExprList(src, pos string) []*Expr {
	l := &lexer{src: src, toks: lex(src, pos), pos: pos}
	var out []*Expr
	if len(l.toks) == 0 {
		return nil
	}
	for {
		out = append(out, l.expr(0))
		if l.p == len(l.toks) {
			return out
		}
		l.want(",")
	}
}

func (l *lexer) peek() string {
	if l.p < len(l.toks) {
		return l.toks[l.p]
	}
	return ""
}
func (l *lexer) next() string {
	t := l.peek()
	l.p++
	return t
}
func (l *lexer) want(t string) {
	if l.next() != t {
		panic(serr(l.pos, "expected %q in %q near token %d (%v)", t, l.src, l.p, l.toks[max(0, l.p-4):min(len(l.toks), l.p+3)]))
	}
}

var prec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5,
	"++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8,
}

func (l *lexer) expr(min int) *Expr {
	lhs := l.unary()
	for {
		op := l.peek()
		p, ok := prec[op]
		if !ok || p < min {
			return lhs
		}
		l.next()
		var rhs *Expr
		if op == "==>" {
			rhs = l.expr(p) // right assoc
		} else {
			rhs = l.expr(p + 1)
		}
		lhs = &Expr{Op: "bin", Name: op, Args: []*Expr{lhs, rhs}, Pos: l.pos}
	}
}

func (l *lexer) unary() *Expr {
	switch l.peek() {
	case "!", "-":
		op := l.next()
		return &Expr{Op: "un", Name: op, Args: []*Expr{l.unary()}, Pos: l.pos}
	case "*":
		l.next()
		return &Expr{Op: "un", Name: "*", Args: []*Expr{l.unary()}, Pos: l.pos}
	case "forall", "exists":
		q := l.next()
		e := &Expr{Op: "quant", Name: q, Pos: l.pos}
		for {
			v := l.next()
			ty := l.typeName()
			e.Vars = append(e.Vars, BVar{v, ty})
			if l.peek() == "," {
				l.next()
				continue
			}
			break
		}
		for l.peek() == "{" {
			l.next()
			var tr []*Expr
			for {
				tr = append(tr, l.expr(0))
				if l.peek() == "," {
					l.next()
					continue
				}
				break
			}
			l.want("}")
			e.Trig = append(e.Trig, tr)
		}
		l.want("::")
		e.Args = []*Expr{l.expr(0)}
		return e
	case "if":
		l.next()
		c := l.expr(0)
		l.want("then")
		a := l.expr(0)
		l.want("else")
		b := l.expr(0)
		return &Expr{Op: "ite", Args: []*Expr{c, a, b}, Pos: l.pos}
	}
	return l.postfix()
}

// typeName reads a type: tokens until , { :: or ) at depth 0
func (l *lexer) typeName() string {
	var sb strings.Builder
	d := 0
	for {
		t := l.peek()
		if t == "" {
			break
		}
		if d == 0 && (t == "," || t == "{" || t == "::" || t == ")") {
			break
		}
		if t == "[" || t == "(" {
			d++
		}
		if t == "]" || t == ")" {
			d--
		}
		sb.WriteString(l.next())
	}
	return sb.String()
}

func (l *lexer) postfix() *Expr {
	e := l.primary()
	for {
		switch l.peek() {
		case ".":
			l.next()
			if l.peek() == "(" {
				l.next()
				ty := l.typeName()
				l.want(")")
				e = &Expr{Op: "typeassert", Name: ty, Args: []*Expr{e}, Pos: l.pos}
				continue
			}
			e = &Expr{Op: "sel", Name: l.next(), Args: []*Expr{e}, Pos: l.pos}
		case "(":
			l.next()
			c := &Expr{Op: "call", Args: []*Expr{e}, Pos: l.pos}
			for l.peek() != ")" {
				c.Args = append(c.Args, l.expr(0))
				if l.peek() == "," {
					l.next()
				}
			}
			l.want(")")
			e = c
		case "[":
			l.next()
			if l.peek() == ":" {
				l.next()
				hi := l.expr(0)
				l.want("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, nil, hi}, Pos: l.pos}
				continue
			}
			i := l.expr(0)
			if l.peek() == ":" {
				l.next()
				var hi *Expr
				if l.peek() != "]" {
					hi = l.expr(0)
				}
				l.want("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, i, hi}, Pos: l.pos}
				continue
			}
			l.want("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}, Pos: l.pos}
		default:
			return e
		}
	}
}

func (l *lexer) primary() *Expr {
	t := l.next()
	switch {
	case t == "":
		panic(serr(l.pos, "unexpected end of expression %q", l.src))
	case t == "(":
		e := l.expr(0)
		l.want(")")
		return e
	case t == "[":
		e := &Expr{Op: "list", Pos: l.pos}
		for l.peek() != "]" {
			e.Args = append(e.Args, l.expr(0))
			if l.peek() == "," {
				l.next()
			}
		}
		l.want("]")
		return e
	case t[0] == '"' || t[0] == '`' || t[0] == '\'':
		return &Expr{Op: "str", Name: t, Pos: l.pos}
	case t[0] >= '0' && t[0] <= '9':
		return &Expr{Op: "int", Name: t, Pos: l.pos}
	}
	r := []rune(t)[0]
	if r == '_' || r == '$' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r > 127 {
		return &Expr{Op: "id", Name: t, Pos: l.pos}
	}
	panic(serr(l.pos, "unexpected token %q in %q", t, l.src))
}

func (e *Expr) String() string {
	if e == nil {
		return ""
	}
	switch e.Op {
	case "int", "str", "id":
		return e.Name
	case "sel":
		return e.Args[0].String() + "." + e.Name
	case "typeassert":
		return e.Args[0].String() + ".(" + e.Name + ")"
	case "un":
		return e.Name + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "slice":
		return e.Args[0].String() + "[" + e.Args[1].String() + ":" + e.Args[2].String() + "]"
	case "call", "list":
		var p []string
		as := e.Args
		h := ""
		if e.Op == "call" {
			h = as[0].String()
			as = as[1:]
		}
		for _, a := range as {
			p = append(p, a.String())
		}
		if e.Op == "list" {
			return "[" + strings.Join(p, ", ") + "]"
		}
		return h + "(" + strings.Join(p, ", ") + ")"
	case "ite":
		return "if " + e.Args[0].String() + " then " + e.Args[1].String() + " else " + e.Args[2].String()
	case "quant":
		var p []string
		for _, v := range e.Vars {
			p = append(p, v.Name+" "+v.Type)
		}
		return e.Name + " " + strings.Join(p, ", ") + " :: " + e.Args[0].String()
	}
	return "?"
}
