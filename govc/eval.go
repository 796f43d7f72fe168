package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Env is the environment of a specification expression.
type Env struct {
	x     *Exec
	st    *State
	heaps map[string]string
	old   map[string]string
	vars  map[string]*Val
	quant int
	iters map[string]string
	phase string
}

func (e *Env) with(heaps map[string]string) *Env {
	n := *e
	n.heaps = heaps
	return &n
}

func (e *Env) bind(names []string, vals []*Val) *Env {
	n := *e
	n.vars = make(map[string]*Val, len(e.vars)+len(names))
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for i, nm := range names {
		n.vars[nm] = vals[i]
	}
	return &n
}

// evalClause evaluates a boolean clause of the function under verification.
func (x *Exec) evalClause(st *State, ex *Expr, old map[string]string, extra map[string]*Val) Term {
	env := &Env{x: x, st: st, heaps: st.heaps, old: old, vars: map[string]*Val{}}
	for k, v := range x.params {
		env.vars[k] = v
	}
	for k, v := range x.lets {
		env.vars[k] = v
	}
	for k, v := range extra {
		env.vars[k] = v
	}
	return env.boolean(ex)
}

func (e *Env) boolean(ex *Expr) Term {
	v := e.eval(ex)
	t := e.term(v)
	if t.Sort != SBool {
		panic(serr(ex.Pos, "%s is not boolean (sort %s)", ex, t.Sort))
	}
	return t
}

func (e *Env) term(v *Val) Term {
	return e.x.toTerm(e.st, v)
}

func (e *Env) t(ex *Expr) Term { return e.term(e.eval(ex)) }

func tv(t Term, typ types.Type) *Val { return &Val{T: t, Typ: typ} }

func (e *Env) nm(p string, t Term) Term {
	if e.quant > 0 {
		return t
	}
	return e.x.name(p, t)
}

func (e *Env) eval(ex *Expr) *Val {
	x := e.x
	switch ex.Op {
	case "int":
		n, ok := new(big.Int).SetString(strings.ReplaceAll(ex.Name, "_", ""), 0)
		if !ok {
			panic(serr(ex.Pos, "bad integer %s", ex.Name))
		}
		return tv(tBig(n), types.Typ[types.Int])
	case "str":
		if ex.Name[0] == '\'' {
			r, _, _, err := strconv.UnquoteChar(ex.Name[1:len(ex.Name)-1], '\'')
			if err != nil {
				panic(serr(ex.Pos, "bad char %s", ex.Name))
			}
			return tv(tInt(int64(r)), types.Typ[types.Int])
		}
		s, err := strconv.Unquote(ex.Name)
		if err != nil {
			panic(serr(ex.Pos, "bad string %s", ex.Name))
		}
		return tv(x.strConst(s), types.Typ[types.String])
	case "id":
		return e.ident(ex)
	case "list":
		t := bEmpty
		for i := len(ex.Args) - 1; i >= 0; i-- {
			t = bCat(bUnit(e.t(ex.Args[i])), t)
		}
		return tv(t, nil)
	case "ite":
		c := e.boolean(ex.Args[0])
		a, b := e.eval(ex.Args[1]), e.eval(ex.Args[2])
		return tv(tIte(c, e.term(a), e.term(b)), a.Typ)
	case "un":
		switch ex.Name {
		case "!":
			return tv(tNot(e.boolean(ex.Args[0])), types.Typ[types.Bool])
		case "-":
			return tv(tSub(tInt(0), e.t(ex.Args[0])), types.Typ[types.Int])
		case "*":
			p := e.eval(ex.Args[0])
			pt, ok := p.Typ.Underlying().(*types.Pointer)
			if !ok {
				panic(serr(ex.Pos, "dereference of non-pointer %s", ex.Args[0]))
			}
			return e.loadPtr(p, pt.Elem())
		}
	case "bin":
		return e.binary(ex)
	case "quant":
		n := *e
		n.quant++
		n.vars = map[string]*Val{}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		var decl []string
		for _, v := range ex.Vars {
			x.ctr++
			sym := fmt.Sprintf("q%d_%s", x.ctr, sanitize(v.Name))
			sort := specSort(v.Type)
			var typ types.Type
			if sort == "" || v.Type == "byte" || v.Type == "uint64" || v.Type == "string" {
				typ = x.P.typeByName(v.Type)
				if typ == nil && sort == "" {
					panic(serr(ex.Pos, "unknown type %s", v.Type))
				}
				if sort == "" {
					sort = x.P.sortOf(typ)
				}
			}
			n.vars[v.Name] = tv(Term{S: sym, Sort: sort}, typ)
			decl = append(decl, "("+sym+" "+sort+")")
		}
		// an index that only serves to name an element is bound in absolute form, so that the
		// pattern (elem base k) contains no arithmetic
		if len(ex.Trig) == 1 && len(ex.Trig[0]) == 1 && len(ex.Vars) == 1 {
			tr := ex.Trig[0][0]
			if tr.Op == "call" && len(tr.Args) == 3 && tr.Args[0].Name == "elemref" && tr.Args[2].Op == "id" && tr.Args[2].Name == ex.Vars[0].Name {
				if s := e.eval(tr.Args[1]); s.K == KTerm && s.T.Sort == SSl {
					q := n.vars[ex.Vars[0].Name]
					n.vars[ex.Vars[0].Name] = tv(tSub(q.T, slOff(s.T)), q.Typ)
				}
			}
		}
		body := n.boolean(ex.Args[0])
		if body.B == 1 && ex.Name == "forall" {
			return tv(tTrue, nil)
		}
		s := body.S
		if len(ex.Trig) > 0 {
			if ex.Name == "forall" {
				// tick(t) is true: it makes the trigger terms of a skolemised goal visible
				var ts []string
				for _, tr := range ex.Trig {
					for _, t := range tr {
						if tt := n.t(t); tt.Sort == SInt {
							ts = append(ts, "(tick "+tt.S+")")
						}
					}
				}
				if len(ts) == 1 {
					s = "(=> " + ts[0] + " " + s + ")"
				} else if len(ts) > 1 {
					s = "(=> (and " + strings.Join(ts, " ") + ") " + s + ")"
				}
			}
			s = "(! " + s
			for _, tr := range ex.Trig {
				var ps []string
				for _, t := range tr {
					ps = append(ps, n.t(t).S)
				}
				s += " :pattern (" + strings.Join(ps, " ") + ")"
			}
			s += ")"
		}
		return tv(Term{S: "(" + ex.Name + " (" + strings.Join(decl, " ") + ") " + s + ")", Sort: SBool}, types.Typ[types.Bool])
	case "sel":
		return e.selector(ex)
	case "typeassert":
		h := e.t(ex.Args[0])
		t := x.P.typeByName(ex.Name)
		if t == nil {
			panic(serr(ex.Pos, "unknown type %s", ex.Name))
		}
		if b, ok := x.boxes[h.S]; ok && types.Identical(b.Typ, t) {
			return b
		}
		switch x.P.sortOf(t) {
		case SInt:
			return tv(mk(SInt, "unboxi", h), t)
		case SB:
			return tv(mk(SB, "unboxb", h), t)
		case SSl:
			return tv(mk(SSl, "unboxs", h), t)
		case SBool:
			return tv(tNot(tEq(mk(SInt, "unboxi", h), tInt(0))), t)
		}
		panic(serr(ex.Pos, "cannot unbox %s", ex.Name))
	case "index":
		return e.index(ex)
	case "slice":
		b := e.seq(ex.Args[0])
		lo := tInt(0)
		if ex.Args[1] != nil {
			lo = e.t(ex.Args[1])
		}
		var hi Term
		if ex.Args[2] != nil {
			hi = e.t(ex.Args[2])
		} else {
			hi = bLen(b)
		}
		return tv(bSub(b, lo, hi), nil)
	case "call":
		return e.callExpr(ex)
	}
	panic(serr(ex.Pos, "cannot evaluate %s", ex))
}

// seq evaluates an expression to a sequence.
func (e *Env) seq(ex *Expr) Term {
	v := e.eval(ex)
	return e.seqOf(v, ex)
}

func (e *Env) seqOf(v *Val, ex *Expr) Term {
	t := e.term(v)
	if t.Sort == SB {
		return t
	}
	if t.Sort == SSl && v.Typ != nil {
		if s, ok := v.Typ.Underlying().(*types.Slice); ok {
			if !e.x.P.seqElem(s.Elem()) {
				panic(serr(ex.Pos, "%s: elements of %s are not in sequence memory", ex, v.Typ))
			}
			return e.x.sliceSeq(e.heaps, t, s.Elem())
		}
	}
	panic(serr(ex.Pos, "%s is not a sequence", ex))
}

func (e *Env) loadPtr(p *Val, t types.Type) *Val {
	x := e.x
	if p.K == KLV {
		return e.loadLV(p.LV)
	}
	if lv, ok := x.lvs[p.T.S]; ok && !isStructT(t) && x.sameCell(lv, t) {
		return e.loadLV(lv)
	}
	if isStructT(t) && !x.P.opaqueStruct(t) {
		return tv(p.T, types.NewPointer(t)) // pointers and structs are interchangeable in specs
	}
	h := x.regHeap(x.P.cellHeap(t), x.P.sortOf(t))
	r := x.load(e.heaps, h, p.T)
	if e.quant == 0 {
		x.typeFacts(r, t, e.st.clock)
	}
	return tv(r, t)
}

// sameCell tells whether a pointer to a t can be the address of lv.
func (x *Exec) sameCell(lv *LV, t types.Type) bool {
	return lv.typ == nil || x.P.sortOf(lv.typ) == x.P.sortOf(t) && types.Identical(lv.typ.Underlying(), t.Underlying())
}

func (e *Env) loadLV(lv *LV) *Val {
	x := e.x
	m := x.load(e.heaps, lv.heap, lv.idx)
	if lv.seq {
		return tv(bIdx(m, lv.pos), lv.typ)
	}
	if e.quant == 0 {
		x.typeFacts(m, lv.typ, e.st.clock)
	}
	return tv(m, lv.typ)
}

func (e *Env) ident(ex *Expr) *Val {
	x := e.x
	if v, ok := e.vars[ex.Name]; ok {
		return v
	}
	switch ex.Name {
	case "true":
		return tv(tTrue, types.Typ[types.Bool])
	case "false":
		return tv(tFalse, types.Typ[types.Bool])
	case "nil":
		return &Val{T: tInt(0), Typ: types.Typ[types.UntypedNil]}
	case "maxint":
		return tv(tBig(new(big.Int).SetUint64(1<<63-1)), nil)
	case "maxlen":
		return tv(Term{S: maxLen, Sort: SInt}, nil)
	}
	if g, ok := x.P.specs.Ghosts[ex.Name]; ok {
		if g.Idx {
			return e.ghostArr(g)
		}
		h := x.regHeap("G."+g.Name, g.Sort)
		return tv(x.load(e.heaps, h, tInt(0)), nil)
	}
	if sig, ok := x.P.smtFns[ex.Name]; ok && len(sig.args) == 0 {
		return tv(Term{S: ex.Name, Sort: sig.res}, nil)
	}
	panic(serr(ex.Pos, "unknown name %s", ex.Name))
}

func (e *Env) ghostArr(g *Ghost) *Val {
	h := e.x.regHeap("G."+g.Name, g.Sort)
	return tv(Term{S: e.x.cur(e.heaps, h), Sort: arr(SInt, g.Sort)}, nil)
}

func (e *Env) binary(ex *Expr) *Val {
	b := types.Typ[types.Bool]
	switch ex.Name {
	case "==>":
		return tv(tImp(e.boolean(ex.Args[0]), e.boolean(ex.Args[1])), b)
	case "<==>":
		return tv(tEq(e.boolean(ex.Args[0]), e.boolean(ex.Args[1])), b)
	case "&&":
		return tv(tAnd(e.boolean(ex.Args[0]), e.boolean(ex.Args[1])), b)
	case "||":
		return tv(tOr(e.boolean(ex.Args[0]), e.boolean(ex.Args[1])), b)
	case "++":
		return tv(bCat(e.seq(ex.Args[0]), e.seq(ex.Args[1])), nil)
	case "in":
		m := e.eval(ex.Args[1])
		k := e.t(ex.Args[0])
		if m.Typ != nil {
			if _, ok := m.Typ.Underlying().(*types.Map); ok {
				dh, _, ks, _ := e.x.P.mapHeaps(m.Typ)
				e.x.regHeap(dh, arr(ks, SBool))
				return tv(tAnd(tNot(tEq(m.T, tInt(0))), tSel(e.x.load(e.heaps, dh, m.T), k)), b)
			}
		}
		return tv(tSel(e.term(m), k), b)
	}
	l, r := e.eval(ex.Args[0]), e.eval(ex.Args[1])
	lt, rt := e.term(l), e.term(r)
	switch ex.Name {
	case "==", "!=":
		var q Term
		switch {
		case lt.Sort == SSl && isNil(r):
			q = tEq(slBase(lt), tInt(0))
		case rt.Sort == SSl && isNil(l):
			q = tEq(slBase(rt), tInt(0))
		case lt.Sort == SB && rt.Sort == SSl:
			q = tEq(lt, e.seqOf(r, ex))
		case lt.Sort == SSl && rt.Sort == SB:
			q = tEq(e.seqOf(l, ex), rt)
		default:
			if lt.Sort != rt.Sort {
				panic(serr(ex.Pos, "comparison of sorts %s and %s in %s", lt.Sort, rt.Sort, ex))
			}
			if strings.HasPrefix(lt.Sort, "(Array") {
				q = mk(SBool, "=", lt, rt)
			} else {
				q = tEq(lt, rt)
			}
		}
		if ex.Name == "!=" {
			q = tNot(q)
		}
		return tv(q, b)
	}
	if lt.Sort != SInt || rt.Sort != SInt {
		panic(serr(ex.Pos, "operator %s on sorts %s, %s in %s", ex.Name, lt.Sort, rt.Sort, ex))
	}
	i := types.Typ[types.Int]
	switch ex.Name {
	case "<", "<=", ">", ">=":
		return tv(tCmp(ex.Name, lt, rt), b)
	case "+":
		return tv(tAdd(lt, rt), i)
	case "-":
		return tv(tSub(lt, rt), i)
	case "*":
		return tv(tMul(lt, rt), i)
	case "/":
		if lt.C != nil && rt.C != nil {
			return tv(tBig(new(big.Int).Div(lt.C, rt.C)), i)
		}
		return tv(mk(SInt, "div", lt, rt), i)
	case "%":
		return tv(mk(SInt, "mod", lt, rt), i)
	}
	panic(serr(ex.Pos, "operator %s", ex.Name))
}

func isNil(v *Val) bool {
	b, ok := v.Typ.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (e *Env) index(ex *Expr) *Val {
	x := e.x
	if ex.Args[0].Op == "id" {
		if g, ok := x.P.specs.Ghosts[ex.Args[0].Name]; ok && g.Idx {
			if _, shadow := e.vars[g.Name]; !shadow {
				h := x.regHeap("G."+g.Name, g.Sort)
				return tv(x.load(e.heaps, h, e.t(ex.Args[1])), nil)
			}
		}
	}
	b := e.eval(ex.Args[0])
	i := e.eval(ex.Args[1])
	bt := e.term(b)
	it := e.term(i)
	switch {
	case bt.Sort == SB:
		return tv(bIdx(bt, it), nil)
	case strings.HasPrefix(bt.Sort, "(Array"):
		return tv(tSel(bt, it), nil)
	case bt.Sort == SSl:
		et := b.Typ.Underlying().(*types.Slice).Elem()
		a := x.elemAddr(slBase(bt), tAdd(slOff(bt), it), et)
		if a.K == KLV {
			r := e.loadLV(a.LV)
			return r
		}
		return tv(a.T, types.NewPointer(et))
	}
	if b.Typ != nil {
		if mt, ok := b.Typ.Underlying().(*types.Map); ok {
			_, vh, ks, vs := x.P.mapHeaps(b.Typ)
			x.regHeap(vh, arr(ks, vs))
			return tv(tSel(x.load(e.heaps, vh, bt), it), mt.Elem())
		}
	}
	panic(serr(ex.Pos, "cannot index %s", ex.Args[0]))
}

func (e *Env) selector(ex *Expr) *Val {
	x := e.x
	if ex.Args[0].Op == "id" {
		if _, ok := e.vars[ex.Args[0].Name]; !ok {
			if pkg := x.P.pkgByName(ex.Args[0].Name, ex.Name); pkg != nil {
				if o := pkg.Scope().Lookup(ex.Name); o != nil {
					switch c := o.(type) {
					case *types.Const:
						switch c.Val().Kind() {
						case constant.Int:
							n, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
							return tv(tBig(n), c.Type())
						case constant.String:
							return tv(x.strConst(constant.StringVal(c.Val())), c.Type())
						}
					case *types.Var:
						if isStructT(c.Type()) {
							n := "g." + sanitize(trimPkg(pkg.Path()+"."+ex.Name))
							x.s.declare(n, "(declare-const "+n+" Int)", "(assert (and (> "+n+" 0) (<= (birth "+n+") 0) (= (fatag "+n+") 0)))")
							return tv(Term{S: n, Sort: SInt}, types.NewPointer(c.Type()))
						}
						return x.globalVal(e.st, trimPkg(pkg.Path()+"."+ex.Name), c.Type(), false)
					}
				}
				panic(serr(ex.Pos, "no %s in package %s", ex.Name, ex.Args[0].Name))
			}
		}
	}
	b := e.eval(ex.Args[0])
	if b.Typ == nil {
		panic(serr(ex.Pos, "%s has no Go type", ex.Args[0]))
	}
	if b.K == KStruct {
		st := b.Typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == ex.Name {
				return b.Fs[i]
			}
		}
	}
	return e.fieldOf(b, ex)
}

func (e *Env) fieldOf(b *Val, ex *Expr) *Val {
	x := e.x
	obj, path, _ := types.LookupFieldOrMethod(b.Typ, true, x.P.anyPkgOf(b.Typ), ex.Name)
	if obj == nil {
		// fields of structs in other packages
		t := b.Typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == ex.Name {
					path = []int{i}
					obj = s.Field(i)
				}
			}
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		panic(serr(ex.Pos, "no field %s in %s", ex.Name, b.Typ))
	}
	cur := b
	if cur.K == KStruct {
		// value struct: walk
		for _, i := range path {
			if cur.K == KStruct {
				cur = cur.Fs[i]
			} else {
				cur = e.step(cur, i)
			}
		}
		return cur
	}
	for _, i := range path {
		cur = e.step(cur, i)
	}
	return cur
}

// step selects field i of the struct (or pointer to struct) value cur.
func (e *Env) step(cur *Val, i int) *Val {
	x := e.x
	t := cur.Typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	a := x.fieldAddr(t, e.term(cur), i)
	if a.K == KLV {
		return e.loadLV(a.LV)
	}
	return tv(a.T, a.Typ)
}

func (e *Env) callExpr(ex *Expr) *Val {
	x := e.x
	b := types.Typ[types.Bool]
	it := types.Typ[types.Int]
	f := ex.Args[0]
	args := ex.Args[1:]
	if f.Op != "id" {
		panic(serr(ex.Pos, "cannot call %s", f))
	}
	switch f.Name {
	case "old", "entry":
		n := e.with(e.old)
		return n.eval(args[0])
	case "atlock":
		cls := ""
		a := args[0]
		if len(args) == 2 {
			cls, _ = strconv.Unquote(args[0].Name)
			a = args[1]
		}
		snap, ok := e.st.lockAt[cls]
		if !ok {
			// no such lock was taken on this path: an arbitrary state
			return e.havocked(cls).eval(a)
		}
		return e.with(snap).eval(a)
	case "atunlock":
		cls, _ := strconv.Unquote(args[0].Name)
		snap, ok := e.st.unlocks[cls]
		if !ok {
			return e.havocked("u" + cls).eval(args[1])
		}
		return e.with(snap).eval(args[1])
	case "held": // the lock class is held now
		cls, _ := strconv.Unquote(args[0].Name)
		for _, h := range e.st.held {
			if h.class == cls {
				return tv(tTrue, b)
			}
		}
		return tv(tFalse, b)
	case "locked": // the lock class was acquired on this path
		cls, _ := strconv.Unquote(args[0].Name)
		_, ok := e.st.lockAt[cls]
		return tv(tBool(ok), b)
	case "len":
		v := e.eval(args[0])
		t := e.term(v)
		if t.Sort == SSl {
			return tv(slLen(t), it)
		}
		if t.Sort == SB {
			return tv(bLen(t), it)
		}
		panic(serr(ex.Pos, "len of %s", args[0]))
	case "cap":
		return tv(slCap(e.t(args[0])), it)
	case "bytes", "seq":
		return tv(e.seq(args[0]), nil)
	case "backing": // the whole array a slice lies in
		v := e.eval(args[0])
		s, ok := v.Typ.Underlying().(*types.Slice)
		if !ok || !x.P.seqElem(s.Elem()) {
			panic(serr(ex.Pos, "%s is not a slice in sequence memory", args[0]))
		}
		return tv(x.load(e.heaps, x.regHeap(x.P.memHeap(s.Elem()), SB), slBase(e.term(v))), nil)
	case "sl":
		return tv(e.t(args[0]), nil)
	case "base":
		return tv(slBase(e.t(args[0])), nil)
	case "off":
		return tv(slOff(e.t(args[0])), nil)
	case "fresh":
		v := e.eval(args[0])
		t := e.term(v)
		if t.Sort == SSl {
			t = slBase(t)
		}
		c := x.oldClock
		if e.phase == "call" {
			c = e.st.ghostClock
		}
		return tv(tLt(c, mk(SInt, "birth", t)), b)
	case "dyn":
		return tv(mk(SInt, "dyn", e.t(args[0])), nil)
	case "typeof": // typeof(x, "T"): dynamic type test
		tn, _ := strconv.Unquote(args[1].Name)
		t := x.P.typeByName(tn)
		if t == nil {
			panic(serr(ex.Pos, "unknown type %s", tn))
		}
		h := e.t(args[0])
		if bx, ok := x.boxes[h.S]; ok {
			return tv(tBool(types.Identical(bx.Typ, t)), b)
		}
		return tv(tEq(mk(SInt, "dyn", h), x.tag(t)), b)
	case "implements": // implements(x, "I"): dynamic type test for an interface
		tn, _ := strconv.Unquote(args[1].Name)
		t := x.P.typeByName(tn)
		if t == nil || !types.IsInterface(t) {
			panic(serr(ex.Pos, "unknown interface %s", tn))
		}
		h := e.t(args[0])
		if bx, ok := x.boxes[h.S]; ok {
			return tv(tBool(types.Implements(bx.Typ, t.Underlying().(*types.Interface))), b)
		}
		n := "impl." + sanitize(typeName(t))
		x.declareImpl(n, t.Underlying().(*types.Interface))
		return tv(mk(SBool, n, mk(SInt, "dyn", h)), b)
	case "tag":
		tn, _ := strconv.Unquote(args[0].Name)
		t := x.P.typeByName(tn)
		if t == nil {
			panic(serr(ex.Pos, "unknown type %s", tn))
		}
		return tv(x.tag(t), nil)
	case "box": // box(x, "T")
		v := e.eval(args[0])
		tn := ""
		t := v.Typ
		if len(args) > 1 {
			tn, _ = strconv.Unquote(args[1].Name)
			t = x.P.typeByName(tn)
		}
		if t == nil {
			panic(serr(ex.Pos, "box: no type"))
		}
		tm := e.term(v)
		switch tm.Sort {
		case SInt:
			return tv(mk(SInt, "boxi", x.tag(t), tm), nil)
		case SB:
			return tv(mk(SInt, "boxb", x.tag(t), tm), nil)
		case SSl:
			return tv(mk(SInt, "boxs", x.tag(t), tm), nil)
		}
	case "as": // as(x, "T"): view a term at a Go type
		tn, _ := strconv.Unquote(args[1].Name)
		t := x.P.typeByName(tn)
		if t == nil {
			panic(serr(ex.Pos, "unknown type %s", tn))
		}
		return tv(e.t(args[0]), t)
	case "heap":
		n, _ := strconv.Unquote(args[0].Name)
		if n == "M.byte" {
			x.regHeap(n, SB)
		} else if strings.HasPrefix(n, "F.") {
			i := strings.LastIndex(n, ".")
			if t := x.P.typeByName(n[2:i]); t != nil && isStructT(t) {
				st := t.Underlying().(*types.Struct)
				for j := 0; j < st.NumFields(); j++ {
					if st.Field(j).Name() == n[i+1:] {
						x.regHeap(n, x.P.sortOf(st.Field(j).Type()))
					}
				}
			}
		}
		x.heapSort(n)
		return tv(Term{S: x.cur(e.heaps, n), Sort: arr(SInt, x.heapSort(n))}, nil)
	case "mapdom", "mapval":
		m := e.eval(args[0])
		dh, vh, ks, vs := x.P.mapHeaps(m.Typ)
		x.regHeap(dh, arr(ks, SBool))
		x.regHeap(vh, arr(ks, vs))
		if f.Name == "mapdom" {
			return tv(x.load(e.heaps, dh, m.T), nil)
		}
		return tv(x.load(e.heaps, vh, m.T), nil)
	case "emptydom":
		m := e.eval(args[0])
		_, _, ks, _ := x.P.mapHeaps(m.Typ)
		return tv(Term{S: "((as const " + arr(ks, SBool) + ") false)", Sort: arr(ks, SBool)}, nil)
	case "with": // with(array, k, v)
		return tv(tSto(e.t(args[0]), e.t(args[1]), e.t(args[2])), nil)
	case "elemref":
		s := e.t(args[0])
		v := e.eval(args[0])
		et := v.Typ.Underlying().(*types.Slice).Elem()
		return tv(elemRef(slBase(s), tAdd(slOff(s), e.t(args[1]))), types.NewPointer(et))
	case "addr": // addr(x.f): reference of an embedded struct field or scalar field
		a := args[0]
		if a.Op != "sel" {
			panic(serr(ex.Pos, "addr of %s", a))
		}
		bv := e.eval(a.Args[0])
		_, path, _ := types.LookupFieldOrMethod(bv.Typ, true, x.P.anyPkgOf(bv.Typ), a.Name)
		cur := bv
		for j, i := range path {
			t := cur.Typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			fa := x.fieldAddr(t, e.term(cur), i)
			if j == len(path)-1 {
				return tv(e.term(fa), fa.Typ)
			}
			if fa.K == KLV {
				cur = e.loadLV(fa.LV)
			} else {
				cur = fa
			}
		}
	case "fnval":
		n, _ := strconv.Unquote(args[0].Name)
		return tv(x.fnHandle(n), nil)
	case "isclosure": // isclosure(f, "name"): f is a closure of this function literal
		n, _ := strconv.Unquote(args[1].Name)
		c, ok := x.closures[unboxed(e.t(args[0]).S)]
		return tv(tBool(ok && trimPkg(c.Fn.String()) == n), b)
	case "captured": // captured(f, "v"): the variable v of the function f was created in
		n, _ := strconv.Unquote(args[1].Name)
		c, ok := x.closures[unboxed(e.t(args[0]).S)]
		if ok {
			if v := x.captured(e.st, e.heaps, c, n); v != nil {
				return v
			}
		}
		panic(serr(ex.Pos, "no variable %s captured by %s", n, args[0]))
	case "visited":
		for k := range e.heaps {
			if strings.HasPrefix(k, "G.visited.") {
				return tv(x.load(e.heaps, k, tInt(0)), nil)
			}
		}
		panic(serr(ex.Pos, "no map iteration in progress"))
	case "int":
		return tv(e.t(args[0]), it)
	case "implies":
		return tv(tImp(e.boolean(args[0]), e.boolean(args[1])), b)
	}
	if m, ok := x.P.specs.Macros[f.Name]; ok {
		if len(m.Params) != len(args) {
			panic(serr(ex.Pos, "macro %s takes %d arguments", f.Name, len(m.Params)))
		}
		var vals []*Val
		for _, a := range args {
			vals = append(vals, e.eval(a))
		}
		return e.bind(m.Params, vals).eval(m.E)
	}
	if sig, ok := x.P.smtFns[f.Name]; ok {
		if len(sig.args) != len(args) {
			panic(serr(ex.Pos, "%s takes %d arguments", f.Name, len(sig.args)))
		}
		var ts []Term
		for i, a := range args {
			v := e.eval(a)
			t := e.term(v)
			if sig.args[i] == SB && t.Sort == SSl {
				t = e.seqOf(v, a)
			}
			if t.Sort != sig.args[i] {
				panic(serr(ex.Pos, "argument %d of %s has sort %s, want %s", i+1, f.Name, t.Sort, sig.args[i]))
			}
			ts = append(ts, t)
		}
		return tv(mk(sig.res, f.Name, ts...), nil)
	}
	panic(serr(ex.Pos, "unknown function %s", f.Name))
}

// havocked is an environment whose heaps are unrelated to the current ones.
func (e *Env) havocked(cls string) *Env {
	m := map[string]string{}
	var hs []string
	for h := range e.x.hsorts {
		hs = append(hs, h)
	}
	sort.Strings(hs) // what the solver is told does not depend on chance
	for _, h := range hs {
		s := e.x.hsorts[h]
		n := "hz." + sanitize(cls) + "." + h
		e.x.s.declare(n, "(declare-const "+n+" (Array Int "+s+"))")
		m[h] = n
	}
	return e.with(m)
}

// location evaluates a modifies expression to heap locations.
func (e *Env) locations(ex *Expr) []allowedLoc {
	x := e.x
	switch ex.Op {
	case "id":
		if g, ok := x.P.specs.Ghosts[ex.Name]; ok {
			h := x.regHeap("G."+g.Name, g.Sort)
			if g.Idx {
				return []allowedLoc{{heap: h, any: true}}
			}
			return []allowedLoc{{heap: h, idx: tInt(0)}}
		}
	case "index":
		if ex.Args[0].Op == "id" {
			if g, ok := x.P.specs.Ghosts[ex.Args[0].Name]; ok && g.Idx {
				h := x.regHeap("G."+g.Name, g.Sort)
				return []allowedLoc{{heap: h, idx: e.t(ex.Args[1])}}
			}
		}
	case "un":
		if ex.Name == "*" {
			p := e.eval(ex.Args[0])
			t := p.Typ.Underlying().(*types.Pointer).Elem()
			return e.cellLocs(e.term(p), t)
		}
	case "sel":
		b := e.eval(ex.Args[0])
		_, path, _ := types.LookupFieldOrMethod(b.Typ, true, x.P.anyPkgOf(b.Typ), ex.Name)
		if len(path) == 0 {
			t := b.Typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == ex.Name {
						path = []int{i}
					}
				}
			}
		}
		cur := b
		for j, i := range path {
			t := cur.Typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			a := x.fieldAddr(t, e.term(cur), i)
			if j == len(path)-1 {
				if a.K == KLV {
					return []allowedLoc{{heap: a.LV.heap, idx: a.LV.idx}}
				}
				return e.cellLocs(a.T, a.Typ.Underlying().(*types.Pointer).Elem())
			}
			if a.K == KLV {
				cur = e.loadLV(a.LV)
			} else {
				cur = a
			}
		}
	case "call":
		switch ex.Args[0].Name {
		case "mem":
			v := e.eval(ex.Args[1])
			s, ok := v.Typ.Underlying().(*types.Slice)
			if !ok {
				panic(serr(ex.Pos, "mem of non-slice"))
			}
			if x.P.seqElem(s.Elem()) {
				h := x.regHeap(x.P.memHeap(s.Elem()), SB)
				return []allowedLoc{{heap: h, idx: slBase(e.term(v)), win: e.term(v)}}
			}
			return e.elemLocs(slBase(e.term(v)), s.Elem())
		case "map":
			m := e.eval(ex.Args[1])
			dh, vh, ks, vs := x.P.mapHeaps(m.Typ)
			x.regHeap(dh, arr(ks, SBool))
			x.regHeap(vh, arr(ks, vs))
			return []allowedLoc{{heap: dh, idx: m.T}, {heap: vh, idx: m.T}}
		case "heap":
			n, _ := strconv.Unquote(ex.Args[1].Name)
			x.heapSort(n)
			return []allowedLoc{{heap: n, any: true}}
		case "any":
			locs := e.locations(ex.Args[1])
			if a := ex.Args[1]; a.Op == "call" && a.Args[0].Op == "id" && a.Args[0].Name == "map" { // every map of the type
				for i := range locs {
					locs[i] = allowedLoc{heap: locs[i].heap, any: true}
				}
			}
			return locs
		}
	}
	panic(serr(ex.Pos, "cannot modify %s", ex))
}

func (e *Env) cellLocs(ref Term, t types.Type) []allowedLoc {
	x := e.x
	if isStructT(t) && !x.P.opaqueStruct(t) {
		var out []allowedLoc
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			a := x.fieldAddr(t, ref, i)
			if a.K == KLV {
				out = append(out, allowedLoc{heap: a.LV.heap, idx: a.LV.idx})
			} else if !isArray(s.Field(i).Type()) {
				out = append(out, e.cellLocs(a.T, s.Field(i).Type())...)
			}
		}
		return out
	}
	if lv, ok := x.lvs[ref.S]; ok && x.sameCell(lv, t) {
		return []allowedLoc{{heap: lv.heap, idx: lv.idx}}
	}
	return []allowedLoc{{heap: x.regHeap(x.P.cellHeap(t), x.P.sortOf(t)), idx: ref}}
}

func (e *Env) elemLocs(base Term, et types.Type) []allowedLoc {
	x := e.x
	var out []allowedLoc
	if isStructT(et) && !x.P.opaqueStruct(et) {
		s := et.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			a := x.fieldAddr(et, tInt(1), i)
			if a.K == KLV {
				out = append(out, allowedLoc{heap: a.LV.heap, idx: base, cond: Term{S: "elembase", Sort: SBool}})
			}
		}
		return out
	}
	return []allowedLoc{{heap: x.regHeap(x.P.cellHeap(et), x.P.sortOf(et)), idx: base, cond: Term{S: "elembase", Sort: SBool}}}
}

// unboxed strips the conversion of a function value to an interface.
func unboxed(s string) string {
	if strings.HasPrefix(s, "(boxi ") && strings.HasSuffix(s, ")") {
		if i := strings.IndexByte(s[6:], ' '); i >= 0 {
			return s[6+i+1 : len(s)-1]
		}
	}
	return s
}
