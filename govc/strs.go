package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// variadicArgs returns the values a call passes in its variadic slice, when the slice is built at the call.
func (x *Exec) variadicArgs(st *State, d int, in ssa.Instruction) ([]*Val, bool) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	as := ci.Common().Args
	if len(as) == 0 {
		return nil, false
	}
	last := as[len(as)-1]
	if c, ok := last.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := last.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return nil, false
	}
	n := int(al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	out := make([]*Val, n)
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, u := range *ia.Referrers() {
			if s, ok := u.(*ssa.Store); ok {
				out[c.Int64()] = x.val(st, d, s.Val)
			}
		}
	}
	for _, v := range out {
		if v == nil {
			return nil, false
		}
	}
	return out, true
}

// format is the text a fmt function produces for a constant format of %s, %v and %d verbs.
func (x *Exec) format(st *State, d int, in ssa.Instruction, fa ssa.Value) (Term, bool) {
	c, ok := fa.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return Term{}, false
	}
	f := constant.StringVal(c.Value)
	args, ok := x.variadicArgs(st, d, in)
	if !ok {
		return Term{}, false
	}
	out := bEmpty
	for {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			break
		}
		out = bCat(out, x.strConst(f[:i]))
		if i+1 >= len(f) {
			return Term{}, false
		}
		verb := f[i+1]
		f = f[i+2:]
		if verb == '%' {
			out = bCat(out, x.strConst("%"))
			continue
		}
		if len(args) == 0 {
			return Term{}, false
		}
		a := args[0]
		args = args[1:]
		b, ok := x.boxes[a.T.S]
		if !ok || len(x.methodsOf(b.Typ)) > 0 {
			return Term{}, false
		}
		switch u := b.Typ.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
				out = bCat(out, b.T)
			case u.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
				x.s.declare("fmtint", "(declare-fun fmtint (Int) B)")
				out = bCat(out, x.fmtInt(b.T))
			default:
				return Term{}, false
			}
		case *types.Slice:
			e, ok := u.Elem().Underlying().(*types.Basic)
			if !ok || e.Kind() != types.Uint8 || verb != 's' {
				return Term{}, false
			}
			out = bCat(out, x.sliceSeq(st.heaps, b.T, u.Elem()))
		default:
			return Term{}, false
		}
	}
	if len(args) > 0 {
		return Term{}, false
	}
	return bCat(out, x.strConst(f)), true
}

// fmtInt is the decimal text of an integer.
func (x *Exec) fmtInt(t Term) Term {
	if _, ok := x.P.smtFns["itoa"]; !ok {
		return mk(SB, "fmtint", t)
	}
	x.assume(tImp(tLe(tInt(0), t), tEq(mk(SB, "fmtint", t), mk(SB, "itoa", t))))
	return mk(SB, "fmtint", t)
}

func (x *Exec) methodsOf(t types.Type) []string {
	ms := types.NewMethodSet(t)
	var out []string
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" || n == "Format" || n == "GoString" {
			out = append(out, n)
		}
	}
	return out
}

// stringIntrinsic models library functions that build strings.
func (x *Exec) stringIntrinsic(st *State, d int, in ssa.Instruction, name string, args []*Val, rt types.Type, k func(*State, *Val)) bool {
	if x.lockOnly {
		return false
	}
	switch name {
	case "fmt.Sprintf", "fmt.Fprintf":
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		as := ci.Common().Args
		s, ok := x.format(st, d, in, as[len(as)-2])
		if !ok {
			return false
		}
		s = x.name("fmt", s)
		if name == "fmt.Sprintf" {
			k(st, &Val{T: s, Typ: rt})
			return true
		}
		sp := x.P.specs.Funcs["io.WriteString"]
		if sp == nil {
			return false
		}
		x.applySpec(st, d, in, sp, "io.WriteString", []*Val{args[0], {T: s, Typ: types.Typ[types.String]}}, rt, nil, k)
		return true
	case "strings.Map":
		// atcall "strings.Map" (c) P: the mapping yields characters that satisfy P, or drops them
		if x.spec == nil || args[0].Fn == nil {
			return false
		}
		var cl []*AtCall
		for _, a := range x.spec.Atcalls {
			if a.Callee == name && a.C.active(x.spec, x.prop) {
				cl = append(cl, a)
			}
		}
		if len(cl) == 0 {
			return false
		}
		r := x.freshConst("rune", SInt)
		x.assume(tAnd(tLe(tInt(0), r), tLe(r, tInt(0x10ffff))))
		sc := st.clone()
		x.callFn(sc, d, in, args[0].Fn.Fn, []*Val{{T: r, Typ: types.Typ[types.Rune]}}, args[0].Fn.Bind, func(s2 *State, v *Val) {
			for _, a := range cl {
				p := x.evalClause(s2, a.C.E, x.entry, map[string]*Val{a.Params[0]: v})
				x.goal(s2, "atcall", a.C.Label, x.P.line(in.Pos()), tImp(tLe(tInt(0), v.T), tAnd(tLe(v.T, tInt(127)), p)))
			}
		})
		res := x.freshConst("mapped", SB)
		x.typeFacts(res, rt, st.clock)
		for _, a := range cl {
			c := Term{S: "mc", Sort: SInt}
			p := x.evalClause(st, a.C.E, x.entry, map[string]*Val{a.Params[0]: {T: c, Typ: types.Typ[types.Rune]}})
			x.assume(Term{S: "(forall ((mi Int)) (! (let ((mc (bidx " + res.S + " mi))) (=> (and (<= 0 mi) (< mi (blen " + res.S + "))) " + p.S + ")) :pattern ((bidx " + res.S + " mi))))", Sort: SBool})
		}
		k(st, &Val{T: res, Typ: rt})
		return true
	}
	return false
}

var _ = token.NoPos
