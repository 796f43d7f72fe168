package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is a named obligation of one function.
type Obl struct {
	Func, Kind, Label string
	Pos               string
	Count             int
	Trivial           int
	Failed            int
	Engines           map[string]int
	Detail            string
	Hints             []string
	Ms                int64
}

// Exec verifies one function.
type Exec struct {
	P          *Prog
	s          *Solver
	fn         *ssa.Function
	spec       *Spec
	prop       string
	lemProp    string
	ctr        int
	hsorts     map[string]string
	hvers      map[string]*hver
	named      map[string]string
	defs       map[string]string
	strLits    map[string]string
	oldSyms    map[string]bool
	boxes      map[string]*Val // interface handle -> concrete value
	lvs        map[string]*LV
	closures   map[string]*Closure
	structVals map[string]*Val
	obls       map[string]*Obl
	order      []string
	probe      int
	params     map[string]*Val
	ptypes     map[string]types.Type
	allowed    []allowedLoc
	modAny     bool
	entry      map[string]string
	lets       map[string]*Val
	exits      int
	paths      int
	depth      int
	unspec     map[string]bool
	inlined    map[string]bool
	usedSpecs  map[string]bool
	steps      int
	effort     int
	lockOnly   bool
	goTargets  []string
	quick      bool
	hintVars   []hintVar
	calledExt  map[string]bool
	provenNN   map[string]bool
	panicked   bool
	infeasExit bool
	oldClock   Term
	inlineSet  map[string]bool
	curName    string
}

type hintVar struct {
	name string
	t    Term
}

type allowedLoc struct {
	heap string
	idx  Term
	any  bool
	cond Term
	win  Term
}

// stopPath aborts symbolic execution of the current path.
type cont func(st *State, res []*Val)

func (x *Exec) top(st *State) *Frame { return st.frames[len(st.frames)-1] }

// ---------- obligations ----------

func (x *Exec) goal(st *State, kind, label, pos string, f Term) bool {
	if x.probe > 0 {
		return true
	}
	key := kind + "|" + label
	o := x.obls[key]
	if o == nil {
		o = &Obl{Func: x.spec.Name, Kind: kind, Label: label, Pos: pos, Engines: map[string]int{}}
		x.obls[key] = o
		x.order = append(x.order, key)
	}
	o.Count++
	if f.B == 1 {
		o.Trivial++
		o.Engines["syntactic"]++
		return true
	}
	if o.Failed > 0 {
		// one failing path is enough; do not spend more solver time on it
		o.Failed++
		return false
	}
	ok, eng := x.prove(f, true)
	if ok {
		o.Engines[eng]++
		return true
	}
	o.Failed++
	if o.Detail == "" {
		o.Detail = fmt.Sprintf("path: %s\nformula: %s\nsolver: %s", strings.Join(st.trail, " ; "), clip(f.S, 2000), eng)
		o.Hints = x.hints()
	}
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// prove checks validity of f under the current assertions.
func (x *Exec) prove(f Term, full bool) (bool, string) {
	if f.B == 1 {
		return true, "syntactic"
	}
	x.s.push()
	x.s.assert(tNot(f))
	to := 4000
	if !full {
		to = 1500
	}
	r := x.s.check(to)
	if r == "unsat" {
		x.s.pop()
		return true, "z3-5.3.2-incr"
	}
	if !full {
		if d := x.P.dumpDir; d != "" && x.P.verbose > 2 {
			dumpScript(d, "cand_"+x.spec.Name, x.s.script(""))
		}
		x.s.pop()
		return false, r
	}
	script := x.s.script("")
	if d := x.P.dumpDir; d != "" {
		dumpScript(d, x.spec.Name, script)
	}
	sec := x.P.fallbackSec
	if x.effort == 0 {
		sec = 2
	}
	eng, ok := x.s.fallback(script, sec)
	if ok {
		x.s.pop()
		return true, eng
	}
	x.s.pop()
	return false, "not proved (incremental: " + r + "; portfolio z3-4.8.12, z3-5.3.2, cvc5-1.1.2: no proof within " + itoa(sec) + " s)"
}

// proveQuick is a short second opinion from fresh solvers.
func (x *Exec) proveQuick(f Term) bool {
	if f.B == -1 {
		return false
	}
	x.s.push()
	x.s.assert(tNot(f))
	script := x.s.script("")
	x.s.pop()
	_, ok := x.s.portfolio(script, 2, engines[1:3])
	return ok
}

// hints extracts values of the inputs from the solver's candidate model.
func (x *Exec) hints() []string {
	return nil
}

// feasible reports whether the current assertions may be satisfiable.
func (x *Exec) feasible() bool {
	return x.s.check(400) != "unsat"
}

// branch explores one alternative under an extra assumption.
func (x *Exec) branch(st *State, cond Term, tag string, k func(st *State)) {
	if cond.B == -1 {
		return
	}
	if cond.B == 1 {
		if tag != "" {
			st.trail = append(st.trail, tag)
		}
		k(st)
		return
	}
	n := st.clone()
	x.s.push()
	x.assume(cond)
	if x.feasible() {
		if tag != "" {
			n.trail = append(n.trail, tag)
		}
		k(n)
	}
	x.s.pop()
}

// ---------- values ----------

func (x *Exec) constVal(c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if tp, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case tp.Info()&types.IsBoolean != 0:
			return &Val{T: tBool(constant.BoolVal(c.Value)), Typ: t}
		case tp.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if bi, ok := new(big.Int).SetString(v.ExactString(), 10); ok {
				return &Val{T: tBig(bi), Typ: t}
			}
		case tp.Info()&types.IsString != 0:
			return &Val{T: x.strConst(constant.StringVal(c.Value)), Typ: t}
		}
	}
	n := "const." + sanitize(c.Value.ExactString())
	x.s.declare(n, "(declare-const "+n+" Int)")
	return &Val{T: Term{S: n, Sort: SInt}, Typ: t}
}

func (x *Exec) fnHandle(name string) Term {
	n := "fn." + sanitize(name)
	x.s.declare(n, "(declare-const "+n+" Int)", "(assert (and (> "+n+" 0) (<= (birth "+n+") 0)))")
	return Term{S: n, Sort: SInt}
}

func (x *Exec) val(st *State, d int, v ssa.Value) *Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return x.globalAddr(c)
	case *ssa.Function:
		return &Val{K: KFunc, Fn: &Closure{Fn: c, H: x.fnHandle(c.String())}, Typ: c.Type()}
	}
	r, ok := st.frames[d].env[v]
	if !ok {
		panic(unsup("value %s not available in %s", v.Name(), st.frames[d].fn))
	}
	return r
}

func (x *Exec) globalAddr(g *ssa.Global) *Val {
	name := trimPkg(g.Pkg.Pkg.Path() + "." + g.Name())
	et := g.Type().(*types.Pointer).Elem()
	if isStructT(et) {
		n := "g." + sanitize(name)
		x.s.declare(n, "(declare-const "+n+" Int)", "(assert (and (> "+n+" 0) (<= (birth "+n+") 0) (= (fatag "+n+") 0)))")
		x.oldSyms[n] = true
		return &Val{T: Term{S: n, Sort: SInt}, Typ: g.Type()}
	}
	if isArray(et) {
		panic(unsup("global array %s", name))
	}
	h := x.regHeap("Gv."+sanitize(name), x.P.sortOf(et))
	return &Val{K: KLV, LV: &LV{heap: h, idx: tInt(0), typ: et}, Typ: g.Type()}
}

// globalVal returns the value of a global.
func (x *Exec) globalVal(st *State, name string, t types.Type, mutable bool) *Val {
	if mutable {
		h := x.regHeap("Gv."+sanitize(name), x.P.sortOf(t))
		r := x.load(st.heaps, h, tInt(0))
		x.typeFacts(r, t, st.clock)
		return &Val{T: r, Typ: t}
	}
	if name == "socketio.socketType" {
		return &Val{T: x.rtypeConst(nil, "socketio.Socket"), Typ: t}
	}
	n := "gv." + sanitize(name)
	s := x.P.sortOf(t)
	cmds := []string{"(declare-const " + n + " " + s + ")"}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		x.P.mu.Lock()
		id, ok := x.P.gids[n]
		if !ok {
			id = stableID(x.P.gids, n)
			x.P.gids[n] = id
		}
		x.P.mu.Unlock()
		cmds = append(cmds, fmt.Sprintf("(assert (and (not (= %s 0)) (= (gid %s) %d) (not (= (dyn %s) 0)) (<= (birth %s) 0)))", n, n, id, n, n))
	} else if s == SInt {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map:
			cmds = append(cmds, fmt.Sprintf("(assert (and (> %s 0) (<= (birth %s) 0) (not (= (dyn %s) 0))))", n, n, n))
		}
	}
	x.s.declare(n, cmds...)
	x.oldSyms[n] = true
	return &Val{T: Term{S: n, Sort: s}, Typ: t}
}

// ---------- boxing ----------

// stableID picks a number for a name that does not depend on the order the functions are verified in.
func stableID(m map[string]int, n string) int {
	h := fnv.New32a()
	h.Write([]byte(n))
	id := int(h.Sum32()%(1<<12)) + 1
	used := map[int]bool{}
	for _, v := range m {
		used[v] = true
	}
	for used[id] {
		id++
	}
	return id
}

func (x *Exec) tag(t types.Type) Term {
	n := typeName(t)
	x.P.mu.Lock()
	defer x.P.mu.Unlock()
	id, ok := x.P.tags[n]
	if !ok {
		id = stableID(x.P.tags, n)
		x.P.tags[n] = id
		x.P.tagTypes[id] = t
	}
	return tInt(int64(id))
}

func (x *Exec) box(st *State, v *Val, t types.Type) *Val {
	tag := x.tag(t)
	var r Term
	switch v.K {
	case KTerm, KLV, KFunc, KStruct:
		tm := x.toTerm(st, v)
		switch tm.Sort {
		case SInt:
			r = mk(SInt, "boxi", tag, tm)
		case SBool:
			r = mk(SInt, "boxi", tag, tIte(tm, tInt(1), tInt(0)))
		case SB:
			r = mk(SInt, "boxb", tag, tm)
		case SSl:
			r = mk(SInt, "boxs", tag, tm)
		default:
			panic(unsup("box of sort %s", tm.Sort))
		}
	default:
		panic(unsup("box of kind %d", v.K))
	}
	r = x.name("box", r)
	w := *v
	w.Typ = t
	x.boxes[r.S] = &w
	return &Val{T: r, Typ: nil}
}

func (x *Exec) unbox(st *State, h Term, t types.Type) *Val {
	if v, ok := x.boxes[h.S]; ok && types.Identical(v.Typ, t) {
		return v
	}
	switch x.P.sortOf(t) {
	case SInt:
		r := x.name("ub", mk(SInt, "unboxi", h))
		x.typeFacts(r, t, st.clock)
		// re-boxing gives back the same handle
		x.assume(Term{S: fmt.Sprintf("(=> (= (dyn %s) %s) (= (boxi %s %s) %s))", h.S, x.tag(t).S, x.tag(t).S, r.S, h.S), Sort: SBool})
		return &Val{T: r, Typ: t}
	case SBool:
		return &Val{T: tNot(tEq(mk(SInt, "unboxi", h), tInt(0))), Typ: t}
	case SB:
		r := x.name("ub", mk(SB, "unboxb", h))
		x.typeFacts(r, t, st.clock)
		x.assume(Term{S: fmt.Sprintf("(=> (= (dyn %s) %s) (= (boxb %s %s) %s))", h.S, x.tag(t).S, x.tag(t).S, r.S, h.S), Sort: SBool})
		return &Val{T: r, Typ: t}
	case SSl:
		r := x.name("ub", mk(SSl, "unboxs", h))
		x.typeFacts(r, t, st.clock)
		x.assume(Term{S: fmt.Sprintf("(=> (= (dyn %s) %s) (= (boxs %s %s) %s))", h.S, x.tag(t).S, x.tag(t).S, r.S, h.S), Sort: SBool})
		return &Val{T: r, Typ: t}
	}
	if isStructT(t) {
		return x.havocVal(st, "unboxed", t)
	}
	panic(unsup("unbox of %s", t))
}

// ---------- execution ----------

func (x *Exec) runBlock(st *State, d int, b *ssa.BasicBlock, i int, k cont) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 400000 {
			panic(unsup("symbolic execution budget exceeded"))
		}
		in := b.Instrs[i]
		fr := st.frames[d]
		switch v := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.jump(st, d, b, b.Succs[0], k)
			return
		case *ssa.If:
			c := x.val(st, d, v.Cond).T
			line := x.P.line(v.Cond.Pos())
			x.branch(st, c, line+"+", func(s2 *State) { x.jump(s2, d, b, b.Succs[0], k) })
			x.branch(st, tNot(c), line+"-", func(s2 *State) { x.jump(s2, d, b, b.Succs[1], k) })
			return
		case *ssa.Return:
			var res []*Val
			for _, r := range v.Results {
				res = append(res, x.val(st, d, r))
			}
			for _, l := range fr.loops {
				if l.probe {
					return
				}
			}
			k(st, res)
			return
		case *ssa.Panic:
			x.doPanic(st, d, v.Pos(), "explicit panic")
			return
		case *ssa.Phi:
			continue // handled at the jump
		case *ssa.Call:
			next := i + 1
			x.call(st, d, v, v.Common(), v, func(s2 *State, res *Val) {
				s2.frames[d].env[v] = res
				x.runBlock(s2, d, b, next, k)
			})
			return
		case *ssa.Defer:
			fnv, args := x.callParts(st, d, v.Common())
			fr.defers = append(fr.defers, &deferred{call: v.Common(), fn: fnv, args: args, pos: v})
			continue
		case *ssa.Go:
			x.goStmt(st, d, v)
			continue
		case *ssa.RunDefers:
			next := i + 1
			x.runDefers(st, d, func(s2 *State) { x.runBlock(s2, d, b, next, k) })
			return
		case *ssa.Select:
			next := i + 1
			x.selectStmt(st, d, v, func(s2 *State, res *Val) {
				s2.frames[d].env[v] = res
				x.runBlock(s2, d, b, next, k)
			})
			return
		case *ssa.TypeAssert:
			next := i + 1
			x.typeAssert(st, d, v, func(s2 *State, res *Val) {
				s2.frames[d].env[v] = res
				x.runBlock(s2, d, b, next, k)
			})
			return
		case *ssa.UnOp:
			if v.Op == token.ARROW {
				next := i + 1
				x.recv(st, d, v, func(s2 *State, res *Val) {
					s2.frames[d].env[v] = res
					x.runBlock(s2, d, b, next, k)
				})
				return
			}
		case *ssa.Next:
			next := i + 1
			x.mapNext(st, d, v, func(s2 *State, res *Val) {
				s2.frames[d].env[v] = res
				x.runBlock(s2, d, b, next, k)
			})
			return
		}
		if !x.simple(st, d, in) {
			return
		}
	}
}

// doPanic ends a path at a panic.
func (x *Exec) doPanic(st *State, d int, pos token.Pos, what string) {
	for _, f := range st.frames {
		for _, l := range f.loops {
			if l.probe {
				return
			}
		}
	}
	if x.nopanic() {
		allowed := tFalse
		for _, c := range x.spec.Panics {
			allowed = tOr(allowed, x.evalClause(st, c.E, x.entry, nil))
		}
		x.goal(st, "nopanic", what, x.P.line(pos), allowed)
	}
}

func (x *Exec) nopanic() bool { return x.spec.Flags["nopanic"] && !x.lockOnly }

// safe emits a run-time safety obligation and then assumes it.
func (x *Exec) safe(st *State, what string, pos token.Pos, f Term) {
	if f.B == 1 {
		return
	}
	if x.nopanic() && x.probe == 0 {
		g := f
		for _, c := range x.spec.Panics {
			g = tOr(g, x.evalClause(st, c.E, x.entry, nil))
		}
		x.goal(st, "nopanic", what, x.P.line(pos), g)
	}
	x.assume(f)
}

func (x *Exec) nonNil(st *State, t Term, pos token.Pos, what string) {
	if t.C != nil && t.C.Sign() > 0 {
		return
	}
	if x.root(t.S) != "" || strings.HasPrefix(t.S, "(fa.") || strings.HasPrefix(t.S, "(elem ") || strings.HasPrefix(t.S, "g.") {
		return
	}
	key := "nn:" + t.S
	if _, ok := x.s.decls[key]; ok {
		return
	}
	x.safe(st, "nil dereference: "+what, pos, tNot(tEq(t, tInt(0))))
	x.s.declare(key)
}

func (x *Exec) jump(st *State, d int, from, to *ssa.BasicBlock, k cont) {
	fr := st.frames[d]
	li := x.P.loopsOf(fr.fn)
	// leaving loops
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.body[to] {
			break
		}
		if l.probe {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	// phi values
	var phis []*ssa.Phi
	var vals []*Val
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.val(st, d, p.Edges[pi]))
	}
	if info := li[to]; info != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == to {
			fr.loops[len(fr.loops)-1].onBack(st, vals)
			return
		}
		x.enterLoop(st, d, to, info, phis, vals, k)
		return
	}
	for j, p := range phis {
		fr.env[p] = vals[j]
	}
	x.runBlock(st, d, to, len(phis), k)
}

// simple executes a non-branching instruction; it reports whether the path goes on.
func (x *Exec) simple(st *State, d int, in ssa.Instruction) bool {
	fr := st.frames[d]
	switch v := in.(type) {
	case *ssa.Alloc:
		r := x.alloc(st)
		et := v.Type().(*types.Pointer).Elem()
		x.zeroInit(st, r, et)
		if isStructT(et) || isArray(et) {
			fr.env[v] = &Val{T: r, Typ: v.Type()}
		} else {
			h := x.regHeap(x.P.cellHeap(et), x.P.sortOf(et))
			fr.env[v] = &Val{K: KLV, LV: &LV{heap: h, idx: r, typ: et}, Typ: v.Type()}
		}
	case *ssa.BinOp:
		fr.env[v] = x.binop(st, v, x.val(st, d, v.X), x.val(st, d, v.Y))
	case *ssa.UnOp:
		fr.env[v] = x.unop(st, d, v)
	case *ssa.ChangeType:
		w := *x.val(st, d, v.X)
		w.Typ = v.Type()
		fr.env[v] = &w
	case *ssa.ChangeInterface:
		w := *x.val(st, d, v.X)
		w.Typ = v.Type()
		fr.env[v] = &w
	case *ssa.Convert:
		fr.env[v] = x.convert(st, d, v)
	case *ssa.Extract:
		t := x.val(st, d, v.Tuple)
		if t.K != KTuple {
			panic(unsup("extract from non-tuple"))
		}
		fr.env[v] = t.Fs[v.Index]
	case *ssa.Field:
		s := x.val(st, d, v.X)
		if s.K != KStruct {
			panic(unsup("field of opaque struct %s", v.X.Type()))
		}
		fr.env[v] = s.Fs[v.Field]
	case *ssa.FieldAddr:
		p := x.val(st, d, v.X)
		stt := v.X.Type().Underlying().(*types.Pointer).Elem()
		ref := x.toTerm(st, p)
		x.nonNil(st, ref, v.Pos(), "field "+stt.Underlying().(*types.Struct).Field(v.Field).Name())
		fr.env[v] = x.fieldAddr(stt, ref, v.Field)
	case *ssa.Index:
		s := x.val(st, d, v.X)
		i := x.val(st, d, v.Index).T
		if s.T.Sort != SB {
			panic(unsup("index of %s", v.X.Type()))
		}
		x.safe(st, "index out of range", v.Pos(), tAnd(tLe(tInt(0), i), tLt(i, bLen(s.T))))
		r := x.name("ix", bIdx(s.T, i))
		x.typeFacts(r, v.Type(), st.clock)
		fr.env[v] = &Val{T: r, Typ: v.Type()}
	case *ssa.IndexAddr:
		fr.env[v] = x.indexAddr(st, d, v)
	case *ssa.Lookup:
		fr.env[v] = x.lookup(st, d, v)
	case *ssa.MakeChan:
		r := x.alloc(st)
		x.chanInit(st, r, x.val(st, d, v.Size).T)
		fr.env[v] = &Val{T: r, Typ: v.Type()}
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		c := &Closure{Fn: fn}
		for _, b := range v.Bindings {
			c.Bind = append(c.Bind, x.val(st, d, b))
		}
		c.H = x.alloc(st)
		x.closures[c.H.S] = c
		fr.env[v] = &Val{K: KFunc, Fn: c, Typ: v.Type()}
	case *ssa.MakeInterface:
		b := x.box(st, x.val(st, d, v.X), v.X.Type())
		b.Typ = v.Type()
		fr.env[v] = b
	case *ssa.MakeMap:
		r := x.alloc(st)
		dom, vh, ks, vs := x.P.mapHeaps(v.Type())
		x.regHeap(dom, arr(ks, SBool))
		x.regHeap(vh, arr(ks, vs))
		x.initCell(st, dom, r, Term{S: "((as const " + arr(ks, SBool) + ") false)", Sort: arr(ks, SBool)})
		fr.env[v] = &Val{T: r, Typ: v.Type()}
	case *ssa.MakeSlice:
		ln := x.val(st, d, v.Len).T
		cp := x.val(st, d, v.Cap).T
		x.atCall(st, "make", []*Val{{T: ln, Typ: types.Typ[types.Int]}, {T: cp, Typ: types.Typ[types.Int]}})
		x.safe(st, "make: length out of range", v.Pos(), tAnd(tLe(tInt(0), ln), tLe(ln, cp)))
		x.assume(tLe(cp, Term{S: maxLen, Sort: SInt}))
		r := x.alloc(st)
		et := v.Type().Underlying().(*types.Slice).Elem()
		x.zeroElems(st, r, et, cp)
		fr.env[v] = &Val{T: slMk(r, tInt(0), ln, cp), Typ: v.Type()}
	case *ssa.MapUpdate:
		x.mapUpdate(st, d, v)
	case *ssa.Range:
		m := x.val(st, d, v.X)
		fr.env[v] = x.rangeInit(st, d, m, v)
	case *ssa.Send:
		ch := x.val(st, d, v.Chan).T
		x.chanSend(st, ch, x.toTerm(st, x.val(st, d, v.X)), v.Chan.Type(), v.Pos())
	case *ssa.Slice:
		fr.env[v] = x.sliceOp(st, d, v)
	case *ssa.Store:
		x.storeInstr(st, d, v)
	default:
		panic(unsup("instruction %T: %s", in, in))
	}
	return true
}

func (x *Exec) storeInstr(st *State, d int, v *ssa.Store) {
	a := x.val(st, d, v.Addr)
	w := x.val(st, d, v.Val)
	if g, ok := v.Addr.(*ssa.Global); ok {
		_ = g
	}
	if a.K == KLV {
		if a.LV.guard != nil {
			x.checkGuard(st, a.LV.guard, true, v.Pos())
		}
		if x.lockOnly && x.root(a.LV.idx.S) == "" && strings.HasPrefix(a.LV.heap, "F.") {
			x.heldAt(st, "store "+a.LV.heap[2:], v)
		}
		x.storeLV(st, a.LV, w)
		return
	}
	x.nonNil(st, a.T, v.Pos(), "store")
	et := v.Addr.Type().Underlying().(*types.Pointer).Elem()
	if !isStructT(et) && !isArray(et) {
		if lv, ok := x.lvs[a.T.S]; ok {
			x.storeLV(st, lv, w)
			return
		}
	}
	x.storeAt(st, a.T, et, w)
}

func (x *Exec) unop(st *State, d int, v *ssa.UnOp) *Val {
	a := x.val(st, d, v.X)
	switch v.Op {
	case token.MUL:
		et := v.X.Type().Underlying().(*types.Pointer).Elem()
		if g, ok := v.X.(*ssa.Global); ok && !isStructT(et) {
			name := trimPkg(g.Pkg.Pkg.Path() + "." + g.Name())
			return x.globalVal(st, name, et, x.P.mutableGlobal(g))
		}
		if a.K == KLV {
			if a.LV.guard != nil {
				x.checkGuard(st, a.LV.guard, false, v.Pos())
			}
			r := x.loadLV(st, a.LV)
			r.Typ = v.Type()
			return r
		}
		x.nonNil(st, a.T, v.Pos(), "load")
		if !isStructT(et) {
			if lv, ok := x.lvs[a.T.S]; ok {
				return x.loadLV(st, lv)
			}
		}
		return x.loadAt(st.heaps, st.clock, a.T, et)
	case token.NOT:
		return &Val{T: tNot(a.T), Typ: v.Type()}
	case token.SUB:
		return &Val{T: x.wrap(tSub(tInt(0), a.T), v.Type()), Typ: v.Type()}
	case token.XOR:
		b := v.Type().Underlying().(*types.Basic)
		if b.Info()&types.IsUnsigned == 0 {
			return &Val{T: tSub(tSub(tInt(0), a.T), tInt(1)), Typ: v.Type()}
		}
		_, hi, _ := intRange(b)
		h, _ := new(big.Int).SetString(hi, 10)
		return &Val{T: tSub(tBig(h), a.T), Typ: v.Type()}
	}
	panic(unsup("unary %s", v.Op))
}

// wrap reduces a mathematical integer to the range of a machine type.
func (x *Exec) wrap(t Term, typ types.Type) Term {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return t
	}
	h, _ := new(big.Int).SetString(hi, 10)
	h1 := new(big.Int).Add(h, big.NewInt(1))
	if t.C != nil {
		r := new(big.Int).Set(t.C)
		if lo == "0" {
			r.Mod(r, h1)
		} else {
			m := new(big.Int).Mul(h1, big.NewInt(2))
			r.Add(r, h1)
			r.Mod(r, m)
			r.Sub(r, h1)
		}
		return tBig(r)
	}
	t = x.name("a", t)
	if lo == "0" {
		return x.name("w", mk(SInt, "wrapu", t, tBig(h1)))
	}
	return x.name("w", mk(SInt, "wraps", t, tBig(h1)))
}

func pow2(n *big.Int) *big.Int { // returns k if n == 2^k - 1, else nil
	m := new(big.Int).Add(n, big.NewInt(1))
	if m.Sign() <= 0 {
		return nil
	}
	k := m.BitLen() - 1
	if new(big.Int).Lsh(big.NewInt(1), uint(k)).Cmp(m) == 0 {
		return m
	}
	return nil
}

func (x *Exec) binop(st *State, v *ssa.BinOp, a, b *Val) *Val {
	ta, tb := x.toTerm(st, a), x.toTerm(st, b)
	t := v.X.Type()
	isStr := ta.Sort == SB
	res := func(t Term) *Val { return &Val{T: t, Typ: v.Type()} }
	switch v.Op {
	case token.EQL, token.NEQ:
		var e Term
		if ta.Sort == SSl || tb.Sort == SSl { // comparison with nil
			if ta.S == slNil.S {
				e = tEq(slBase(tb), tInt(0))
			} else {
				e = tEq(slBase(ta), tInt(0))
			}
		} else {
			e = tEq(ta, tb)
		}
		if v.Op == token.NEQ {
			e = tNot(e)
		}
		return res(e)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if ta.Sort != SInt {
			return res(x.freshConst("cmp", SBool))
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger == 0 {
			return res(x.freshConst("fcmp", SBool))
		}
		return res(tCmp(map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[v.Op], ta, tb))
	}
	if isStr {
		if v.Op == token.ADD {
			return res(x.name("cat", bCat(ta, tb)))
		}
		panic(unsup("string operator %s", v.Op))
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger == 0 && bt.Info()&types.IsBoolean == 0 {
		return res(x.freshConst("float", SInt))
	}
	if ta.Sort == SBool {
		panic(unsup("boolean operator %s", v.Op))
	}
	switch v.Op {
	case token.ADD:
		return res(x.wrap(tAdd(ta, tb), v.Type()))
	case token.SUB:
		return res(x.wrap(tSub(ta, tb), v.Type()))
	case token.MUL:
		if ta.C == nil && tb.C == nil {
			return res(x.wrap(tMul(ta, tb), v.Type()))
		}
		return res(x.wrap(tMul(ta, tb), v.Type()))
	case token.QUO:
		x.safe(st, "division by zero", v.Pos(), tNot(tEq(tb, tInt(0))))
		return res(x.wrap(x.name("q", mk(SInt, "tdiv", ta, tb)), v.Type()))
	case token.REM:
		x.safe(st, "division by zero", v.Pos(), tNot(tEq(tb, tInt(0))))
		return res(x.name("r", mk(SInt, "tmod", ta, tb)))
	case token.SHR:
		if tb.C != nil && tb.C.IsInt64() && tb.C.Int64() < 64 {
			if tb.C.Sign() == 0 {
				return res(ta)
			}
			p := new(big.Int).Lsh(big.NewInt(1), uint(tb.C.Int64()))
			return res(x.name("shr", mk(SInt, "div", ta, tBig(p))))
		}
	case token.SHL:
		if tb.C != nil && tb.C.IsInt64() && tb.C.Int64() < 64 {
			p := new(big.Int).Lsh(big.NewInt(1), uint(tb.C.Int64()))
			return res(x.wrap(tMul(ta, tBig(p)), v.Type()))
		}
	case token.AND:
		if tb.C != nil {
			if m := pow2(tb.C); m != nil {
				return res(mk(SInt, "mod", ta, tBig(m)))
			}
		}
		if ta.C != nil {
			if m := pow2(ta.C); m != nil {
				return res(mk(SInt, "mod", tb, tBig(m)))
			}
		}
	}
	n := "bitop." + strings.Map(func(r rune) rune {
		return map[rune]rune{'&': 'a', '|': 'o', '^': 'x', '<': 'l', '>': 'r'}[r]
	}, v.Op.String())
	x.s.declare(n, "(declare-fun "+n+" (Int Int) Int)")
	r := x.name("bit", mk(SInt, n, ta, tb))
	x.typeFacts(r, v.Type(), st.clock)
	return res(r)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

var byteT = types.Typ[types.Uint8]

// newBytes allocates a byte slice with the given content.
func (x *Exec) newBytes(st *State, content Term) Term {
	r := x.alloc(st)
	content = x.name("c", content)
	h := x.regHeap(x.P.memHeap(byteT), SB)
	x.assume(Term{S: "(= (bsize " + r.S + ") (blen " + content.S + "))", Sort: SBool})
	x.initCell(st, h, r, content)
	ln := x.name("ln", bLen(content))
	return slMk(r, tInt(0), ln, ln)
}

func (x *Exec) convert(st *State, d int, v *ssa.Convert) *Val {
	a := x.val(st, d, v.X)
	from, to := v.X.Type(), v.Type()
	switch {
	case isByteSlice(to) && isString(from):
		return &Val{T: x.newBytes(st, a.T), Typ: to}
	case isString(to) && isByteSlice(from):
		return &Val{T: x.name("s", x.sliceSeq(st.heaps, a.T, byteT)), Typ: to}
	case isInteger(from) && isInteger(to):
		lo1, hi1, _ := intRange(from.Underlying().(*types.Basic))
		lo2, hi2, _ := intRange(to.Underlying().(*types.Basic))
		if within(lo1, hi1, lo2, hi2) {
			return &Val{T: a.T, Typ: to}
		}
		return &Val{T: x.wrap(a.T, to), Typ: to}
	}
	if x.P.sortOf(from) == x.P.sortOf(to) && (isPtrLike(from) || isPtrLike(to)) {
		w := *a
		w.Typ = to
		return &w
	}
	fn := "conv." + sanitize(typeName(from)) + "." + sanitize(typeName(to))
	s := x.P.sortOf(to)
	x.s.declare(fn, "(declare-fun "+fn+" ("+a.T.Sort+") "+s+")")
	r := x.name("cv", mk(s, fn, a.T))
	x.typeFacts(r, to, st.clock)
	return &Val{T: r, Typ: to}
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Chan, *types.Map:
		return true
	}
	return false
}

func within(lo1, hi1, lo2, hi2 string) bool {
	p := func(s string) *big.Int {
		n, _ := parseIntTerm(s)
		return n
	}
	return p(lo2).Cmp(p(lo1)) <= 0 && p(hi1).Cmp(p(hi2)) <= 0
}

func (x *Exec) indexAddr(st *State, d int, v *ssa.IndexAddr) *Val {
	a := x.val(st, d, v.X)
	i := x.val(st, d, v.Index).T
	switch u := v.X.Type().Underlying().(type) {
	case *types.Slice:
		x.safe(st, "index out of range", v.Pos(), tAnd(tLe(tInt(0), i), tLt(i, slLen(a.T))))
		return x.elemAddr(slBase(a.T), tAdd(slOff(a.T), i), u.Elem())
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		x.safe(st, "index out of range", v.Pos(), tAnd(tLe(tInt(0), i), tLt(i, tInt(ar.Len()))))
		return x.elemAddr(a.T, i, ar.Elem())
	}
	panic(unsup("indexaddr of %s", v.X.Type()))
}

func (x *Exec) elemAddr(base, pos Term, et types.Type) *Val {
	pt := types.NewPointer(et)
	if x.P.seqElem(et) {
		h := x.regHeap(x.P.memHeap(et), SB)
		return &Val{K: KLV, LV: &LV{heap: h, seq: true, idx: base, pos: pos, typ: et}, Typ: pt}
	}
	r := elemRef(base, pos)
	if isStructT(et) {
		return &Val{T: r, Typ: pt}
	}
	h := x.regHeap(x.P.cellHeap(et), x.P.sortOf(et))
	return &Val{K: KLV, LV: &LV{heap: h, idx: r, typ: et}, Typ: pt}
}

func (x *Exec) sliceOp(st *State, d int, v *ssa.Slice) *Val {
	a := x.val(st, d, v.X)
	get := func(w ssa.Value, dflt Term) Term {
		if w == nil {
			return dflt
		}
		return x.val(st, d, w).T
	}
	if isString(v.X.Type()) {
		lo := get(v.Low, tInt(0))
		hi := get(v.High, bLen(a.T))
		x.safe(st, "slice bounds out of range", v.Pos(), tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, bLen(a.T))))
		return &Val{T: x.name("sub", bSub(a.T, lo, hi)), Typ: v.Type()}
	}
	var base, off, ln, cp Term
	switch u := v.X.Type().Underlying().(type) {
	case *types.Slice:
		base, off, ln, cp = slBase(a.T), slOff(a.T), slLen(a.T), slCap(a.T)
	case *types.Pointer:
		n := tInt(u.Elem().Underlying().(*types.Array).Len())
		base, off, ln, cp = a.T, tInt(0), n, n
	}
	lo := get(v.Low, tInt(0))
	hi := get(v.High, ln)
	mx := get(v.Max, cp)
	x.safe(st, "slice bounds out of range", v.Pos(), tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, mx), tLe(mx, cp)))
	nm := func(t Term) Term { return x.name("sl", t) }
	return &Val{T: slMk(base, nm(tAdd(off, lo)), nm(tSub(hi, lo)), nm(tSub(mx, lo))), Typ: v.Type()}
}

func (x *Exec) typeAssert(st *State, d int, v *ssa.TypeAssert, k func(*State, *Val)) {
	a := x.val(st, d, v.X)
	h := x.toTerm(st, a)
	t := v.AssertedType
	var cond Term
	var mkv func(s2 *State) *Val
	if types.IsInterface(t) {
		if b, ok := x.boxes[h.S]; ok {
			cond = tBool(types.Implements(b.Typ, t.Underlying().(*types.Interface)))
		} else {
			n := "impl." + sanitize(typeName(t))
			x.declareImpl(n, t.Underlying().(*types.Interface))
			cond = mk(SBool, n, mk(SInt, "dyn", h))
			if types.Implements(v.X.Type(), t.Underlying().(*types.Interface)) {
				cond = tNot(tEq(h, tInt(0)))
			}
		}
		mkv = func(s2 *State) *Val { w := *a; w.Typ = t; return &w }
	} else {
		if b, ok := x.boxes[h.S]; ok {
			cond = tBool(types.Identical(b.Typ, t))
		} else {
			cond = tEq(mk(SInt, "dyn", h), x.tag(t))
		}
		mkv = func(s2 *State) *Val { return x.unbox(s2, h, t) }
	}
	if !v.CommaOk {
		x.safe(st, "type assertion to "+typeName(t), v.Pos(), cond)
		k(st, mkv(st))
		return
	}
	tn := typeName(t)
	x.branch(st, cond, "is "+tn, func(s2 *State) {
		k(s2, &Val{K: KTuple, Fs: []*Val{mkv(s2), {T: tTrue, Typ: types.Typ[types.Bool]}}})
	})
	x.branch(st, tNot(cond), "isn't "+tn, func(s2 *State) {
		k(s2, &Val{K: KTuple, Fs: []*Val{x.zero(t), {T: tFalse, Typ: types.Typ[types.Bool]}}})
	})
}

// declareImpl declares the predicate of the type tags that implement an interface: exact for the types of this module.
func (x *Exec) declareImpl(n string, it *types.Interface) {
	cmds := []string{"(declare-fun " + n + " (Int) Bool)", "(assert (not (" + n + " 0)))"}
	for _, t := range x.P.moduleTypes() {
		f := mk(SBool, n, x.tag(t))
		if !types.Implements(t, it) {
			f = tNot(f)
		}
		cmds = append(cmds, "(assert "+f.S+")")
	}
	x.s.declare(n, cmds...)
}

// ---------- maps ----------

func (x *Exec) mapParts(st *State, m *Val, t types.Type) (dom, val Term) {
	dh, vh, ks, vs := x.P.mapHeaps(t)
	x.regHeap(dh, arr(ks, SBool))
	x.regHeap(vh, arr(ks, vs))
	return x.load(st.heaps, dh, m.T), x.load(st.heaps, vh, m.T)
}

// checkProv checks an access to a map read from a guarded field; it reports whether the map
// has been taken out of the field, so that it is no longer shared.
func (x *Exec) checkProv(st *State, m *Val, write bool, pos token.Pos) bool {
	if m.Prov == nil || !x.lockOnly || x.probe > 0 {
		return false
	}
	g := m.Prov
	class := sanitize(g.g.Struct) + "." + sanitize(g.g.Lock)
	held := false
	for _, h := range st.held {
		held = held || h.class == class
	}
	if !held && !g.g.Fixed {
		h := "F." + sanitize(g.g.Struct) + "." + sanitize(g.g.Field)
		if _, ok := x.hsorts[h]; ok {
			cur := x.load(st.heaps, h, g.obj)
			if ok, _ := x.prove(tNot(tEq(cur, m.T)), false); ok {
				return true
			}
		}
	}
	x.checkGuard(st, g, write, pos)
	return false
}

func (x *Exec) lookup(st *State, d int, v *ssa.Lookup) *Val {
	m := x.val(st, d, v.X)
	key := x.val(st, d, v.Index)
	if m.T.Sort == SB {
		x.safe(st, "index out of range", v.Pos(), tAnd(tLe(tInt(0), key.T), tLt(key.T, bLen(m.T))))
		r := x.name("ix", bIdx(m.T, key.T))
		x.typeFacts(r, v.Type(), st.clock)
		return &Val{T: r, Typ: v.Type()}
	}
	x.checkProv(st, m, false, v.Pos())
	mt := v.X.Type().Underlying().(*types.Map)
	dom, vals := x.mapParts(st, m, v.X.Type())
	k := x.toTerm(st, key)
	in := x.name("in", tAnd(tNot(tEq(m.T, tInt(0))), tSel(dom, k)))
	var raw *Val
	if x.P.sortOf(mt.Elem()) == "" {
		raw = x.zero(mt.Elem())
	} else {
		rt := x.name("mv", tSel(vals, k))
		x.typeFacts(rt, mt.Elem(), st.clock)
		z := x.zero(mt.Elem())
		raw = &Val{T: x.name("mv", tIte(in, rt, z.T)), Typ: mt.Elem()}
	}
	if v.CommaOk {
		return &Val{K: KTuple, Fs: []*Val{raw, {T: in, Typ: types.Typ[types.Bool]}}}
	}
	return raw
}

func (x *Exec) mapUpdate(st *State, d int, v *ssa.MapUpdate) {
	m := x.val(st, d, v.Map)
	x.checkProv(st, m, true, v.Pos())
	x.safe(st, "assignment to entry in nil map", v.Pos(), tNot(tEq(m.T, tInt(0))))
	dom, vals := x.mapParts(st, m, v.Map.Type())
	k := x.toTerm(st, x.val(st, d, v.Key))
	dh, vh, _, _ := x.P.mapHeaps(v.Map.Type())
	x.store(st, dh, m.T, tSto(dom, k, tTrue))
	if x.P.sortOf(v.Map.Type().Underlying().(*types.Map).Elem()) != "" {
		x.store(st, vh, m.T, tSto(vals, k, x.toTerm(st, x.val(st, d, v.Value))))
	}
}

func (x *Exec) mapDelete(st *State, m, key *Val, t types.Type, pos token.Pos) {
	x.checkProv(st, m, true, pos)
	dom, _ := x.mapParts(st, m, t)
	dh, _, _, _ := x.P.mapHeaps(t)
	x.store(st, dh, m.T, tSto(dom, x.toTerm(st, key), tFalse))
}

func (x *Exec) rangeInit(st *State, d int, m *Val, v *ssa.Range) *Val {
	if isString(v.X.Type()) {
		panic(unsup("range over string"))
	}
	if x.checkProv(st, m, false, v.Pos()) {
		c := *m
		c.Prov = nil
		m = &c
	}
	mt := v.X.Type().Underlying().(*types.Map)
	dom, _ := x.mapParts(st, m, v.X.Type())
	ks := x.P.sortOf(mt.Key())
	x.ctr++
	h := x.regHeap("G.visited."+sanitize(ks)+"."+sanitize(v.Parent().String())+"."+itoa(int(v.Pos()-v.Parent().Pos())), arr(ks, SBool))
	x.rawStore(st, h, tInt(0), Term{S: "((as const " + arr(ks, SBool) + ") false)", Sort: arr(ks, SBool)})
	return &Val{K: KIter, It: &Iter{m: m, visited: h, start: x.name("dom", dom), kt: mt.Key(), vt: mt.Elem()}, Typ: v.X.Type()}
}

func (x *Exec) mapNext(st *State, d int, v *ssa.Next, k func(*State, *Val)) {
	it := x.val(st, d, v.Iter)
	if it.K != KIter {
		panic(unsup("next on non-iterator"))
	}
	x.checkProv(st, it.It.m, false, v.Pos())
	dom, vals := x.mapParts(st, it.It.m, it.Typ)
	vis := x.load(st.heaps, it.It.visited, tInt(0))
	ks := x.P.sortOf(it.It.kt)
	key := x.freshConst("key", ks)
	x.typeFacts(key, it.It.kt, st.clock)
	x.branch(st, tAnd(tNot(tEq(it.It.m.T, tInt(0))), tSel(dom, key), tNot(tSel(vis, key))), "next", func(s2 *State) {
		x.rawStore(s2, it.It.visited, tInt(0), tSto(vis, key, tTrue))
		raw := x.name("mv", tSel(vals, key))
		x.typeFacts(raw, it.It.vt, s2.clock)
		k(s2, &Val{K: KTuple, Fs: []*Val{{T: tTrue, Typ: types.Typ[types.Bool]}, {T: key, Typ: it.It.kt}, {T: raw, Typ: it.It.vt}}})
	})
	done := Term{S: fmt.Sprintf("(forall ((k %s)) (! (=> (and (select %s k) (select %s k)) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, dom.S, it.It.start.S, vis.S, dom.S, vis.S), Sort: SBool}
	x.branch(st, done, "range done", func(s2 *State) {
		z := x.zero(it.It.kt)
		var zv *Val
		if x.P.sortOf(it.It.vt) != "" {
			zv = x.zero(it.It.vt)
		} else {
			zv = &Val{}
		}
		k(s2, &Val{K: KTuple, Fs: []*Val{{T: tFalse, Typ: types.Typ[types.Bool]}, z, zv}})
	})
}

// ---------- misc ----------

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// moduleTypes lists the named non-interface types of the module and the pointers to them.
func (p *Prog) moduleTypes() (r []types.Type) {
	for _, pk := range p.pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if nm, ok := tn.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			r = append(r, tn.Type(), types.NewPointer(tn.Type()))
		}
	}
	return
}
