package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Term is an SMT-LIB term with its sort.
type Term struct {
	S    string
	Sort string
	C    *big.Int // integer constant, if known
	B    int      // boolean constant: 1 true, -1 false, 0 unknown
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SB    = "B"  // finite integer sequences (byte strings, queues, traces)
	SSl   = "Sl" // slice header
)

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

func tInt(n int64) Term { return tBig(big.NewInt(n)) }

func tBig(n *big.Int) Term {
	s := n.String()
	if n.Sign() < 0 {
		s = "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return Term{S: s, Sort: SInt, C: new(big.Int).Set(n)}
}

var tTrue = Term{S: "true", Sort: SBool, B: 1}
var tFalse = Term{S: "false", Sort: SBool, B: -1}

func tBool(b bool) Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mk(sort, op string, args ...Term) Term {
	if op == "unboxi" && len(args) == 1 {
		if u := unboxed(args[0].S); u != args[0].S {
			return Term{S: u, Sort: sort}
		}
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(op)
	for _, a := range args {
		sb.WriteString(" ")
		sb.WriteString(a.S)
	}
	sb.WriteString(")")
	return Term{S: sb.String(), Sort: sort}
}

func tNot(a Term) Term {
	if a.B != 0 {
		return tBool(a.B < 0)
	}
	if strings.HasPrefix(a.S, "(not ") {
		in := a.S[5 : len(a.S)-1]
		return Term{S: in, Sort: SBool}
	}
	return mk(SBool, "not", a)
}

func tAnd(as ...Term) Term {
	var out []Term
	for _, a := range as {
		if a.B == 1 {
			continue
		}
		if a.B == -1 {
			return tFalse
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk(SBool, "and", out...)
}

func tOr(as ...Term) Term {
	var out []Term
	for _, a := range as {
		if a.B == -1 {
			continue
		}
		if a.B == 1 {
			return tTrue
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk(SBool, "or", out...)
}

func tImp(a, b Term) Term {
	if a.B == 1 {
		return b
	}
	if a.B == -1 || b.B == 1 {
		return tTrue
	}
	return mk(SBool, "=>", a, b)
}

func tEq(a, b Term) Term {
	if a.Sort != b.Sort {
		panic(unsup("equality between sorts %s (%s) and %s (%s)", a.Sort, a.S, b.Sort, b.S))
	}
	if a.S == b.S {
		return tTrue
	}
	if a.C != nil && b.C != nil {
		return tBool(a.C.Cmp(b.C) == 0)
	}
	if a.Sort == SBool {
		if a.B == 1 {
			return b
		}
		if b.B == 1 {
			return a
		}
		if a.B == -1 {
			return tNot(b)
		}
		if b.B == -1 {
			return tNot(a)
		}
	}
	if a.Sort == SB {
		return mk(SBool, "beq", a, b)
	}
	return mk(SBool, "=", a, b)
}

func tIte(c, a, b Term) Term {
	if c.B == 1 {
		return a
	}
	if c.B == -1 {
		return b
	}
	if a.S == b.S {
		return a
	}
	return mk(a.Sort, "ite", c, a, b)
}

func tAdd(a, b Term) Term {
	if a.C != nil && b.C != nil {
		return tBig(new(big.Int).Add(a.C, b.C))
	}
	if a.C != nil && a.C.Sign() == 0 {
		return b
	}
	if b.C != nil && b.C.Sign() == 0 {
		return a
	}
	// a + (k - a) is k: quantified element indices are bound in absolute form (see quant)
	if strings.HasPrefix(b.S, "(- q") && strings.HasSuffix(b.S, " "+a.S+")") {
		if k := b.S[3 : len(b.S)-len(a.S)-2]; !strings.ContainsAny(k, " ()") {
			return Term{S: k, Sort: SInt}
		}
	}
	return mk(SInt, "+", a, b)
}

func tSub(a, b Term) Term {
	if a.C != nil && b.C != nil {
		return tBig(new(big.Int).Sub(a.C, b.C))
	}
	if b.C != nil && b.C.Sign() == 0 {
		return a
	}
	if a.S == b.S {
		return tInt(0)
	}
	return mk(SInt, "-", a, b)
}

func tMul(a, b Term) Term {
	if a.C != nil && b.C != nil {
		return tBig(new(big.Int).Mul(a.C, b.C))
	}
	if a.C == nil && b.C == nil {
		return mk(SInt, "*", a, b)
	}
	return mk(SInt, "*", a, b)
}

func tCmp(op string, a, b Term) Term {
	if a.C != nil && b.C != nil {
		c := a.C.Cmp(b.C)
		switch op {
		case "<":
			return tBool(c < 0)
		case "<=":
			return tBool(c <= 0)
		case ">":
			return tBool(c > 0)
		case ">=":
			return tBool(c >= 0)
		}
	}
	if a.S == b.S {
		return tBool(op == "<=" || op == ">=")
	}
	return mk(SBool, op, a, b)
}

func tLe(a, b Term) Term { return tCmp("<=", a, b) }
func tLt(a, b Term) Term { return tCmp("<", a, b) }

// elemSort returns the value sort of an array sort "(Array K V)".
func arrParts(s string) (k, v string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic(unsup("not an array sort: %s", s))
	}
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func tSel(a, i Term) Term {
	_, v := arrParts(a.Sort)
	return mk(v, "select", a, i)
}

func tSto(a, i, v Term) Term {
	k, vs := arrParts(a.Sort)
	if i.Sort != k || v.Sort != vs {
		panic(unsup("store sort mismatch: %s[%s] = %s (%s)", a.Sort, i.Sort, v.Sort, v.S))
	}
	return mk(a.Sort, "store", a, i, v)
}

// sequences
func bLen(b Term) Term { return mk(SInt, "blen", b) }
func bCat(a, b Term) Term {
	if a.S == "bempty" {
		return b
	}
	if b.S == "bempty" {
		return a
	}
	return mk(SB, "bcat", a, b)
}
func bIdx(a, i Term) Term      { return mk(SInt, "bidx", a, i) }
func bSub(a, lo, hi Term) Term { return mk(SB, "bsub", a, lo, hi) }
func bUnit(a Term) Term        { return mk(SB, "bunit", a) }

var bEmpty = Term{S: "bempty", Sort: SB}

// slice headers
func slMk(base, off, ln, cp Term) Term { return mk(SSl, "mksl", base, off, ln, cp) }

func slPart(s Term, i int) Term {
	names := []string{"slbase", "sloff", "sllen", "slcap"}
	if strings.HasPrefix(s.S, "(mksl ") {
		ps := splitSexp(s.S[6 : len(s.S)-1])
		t := Term{S: ps[i], Sort: SInt}
		if n, ok := parseIntTerm(ps[i]); ok {
			t.C = n
		}
		return t
	}
	return mk(SInt, names[i], s)
}

func slBase(s Term) Term { return slPart(s, 0) }
func slOff(s Term) Term  { return slPart(s, 1) }
func slLen(s Term) Term  { return slPart(s, 2) }
func slCap(s Term) Term  { return slPart(s, 3) }

var slNil = slMk(tInt(0), tInt(0), tInt(0), tInt(0))

func parseIntTerm(s string) (*big.Int, bool) {
	neg := false
	if strings.HasPrefix(s, "(- ") && strings.HasSuffix(s, ")") {
		s = s[3 : len(s)-1]
		neg = true
	}
	if s == "" {
		return nil, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	if neg {
		n.Neg(n)
	}
	return n, true
}

// splitSexp splits a string of space separated s-expressions.
func splitSexp(s string) []string {
	var out []string
	d := 0
	st := -1
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '|':
			if st < 0 {
				st = i
			}
			for i++; i < len(s) && s[i] != '|'; i++ {
			}
		case c == '(':
			if st < 0 {
				st = i
			}
			d++
		case c == ')':
			d--
			if d == 0 {
				out = append(out, s[st:i+1])
				st = -1
			}
		case c == ' ' || c == '\n' || c == '\t':
			if d == 0 && st >= 0 {
				out = append(out, s[st:i])
				st = -1
			}
		default:
			if st < 0 {
				st = i
			}
		}
	}
	if st >= 0 {
		out = append(out, s[st:])
	}
	return out
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$':
			sb.WriteRune(r)
		case r == 'ß':
			sb.WriteString("ss")
		case r == '*':
			sb.WriteString("p.")
		case r == '[':
			sb.WriteString("_L")
		case r == ']':
			sb.WriteString("J_")
		default:
			sb.WriteString("_")
		}
	}
	return sb.String()
}
