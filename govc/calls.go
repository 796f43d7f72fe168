package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callParts evaluates the callee and arguments of a call.
func (x *Exec) callParts(st *State, d int, c *ssa.CallCommon) (*Val, []*Val) {
	var fnv *Val
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnv = x.val(st, d, c.Value)
	}
	var args []*Val
	for _, a := range c.Args {
		args = append(args, x.val(st, d, a))
	}
	return fnv, args
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

func packResults(vs []*Val) *Val {
	switch len(vs) {
	case 0:
		return &Val{K: KNone}
	case 1:
		return vs[0]
	}
	return &Val{K: KTuple, Fs: vs}
}

func (x *Exec) call(st *State, d int, in ssa.Instruction, c *ssa.CallCommon, v ssa.Value, k func(*State, *Val)) {
	fnv, args := x.callParts(st, d, c)
	x.callVals(st, d, in, c, fnv, args, k)
}

func (x *Exec) callVals(st *State, d int, in ssa.Instruction, c *ssa.CallCommon, fnv *Val, args []*Val, k func(*State, *Val)) {
	pos := in.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(st, d, in, c, b, args, k)
		return
	}
	if c.IsInvoke() {
		h := x.toTerm(st, fnv)
		x.nonNil(st, h, pos, "call of method "+c.Method.Name()+" on nil interface")
		if b, ok := x.boxes[h.S]; ok {
			if m := x.P.ssa.LookupMethod(b.Typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				x.callFn(st, d, in, m, append([]*Val{b}, args...), nil, k)
				return
			}
		}
		names := []string{"(" + typeName(c.Value.Type()) + ")." + c.Method.Name(), trimPkg(c.Method.FullName())}
		x.namedCall(st, d, in, names, append([]*Val{fnv}, args...), nil, resultType(c), c.Signature(), k)
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []*Val
		if fnv != nil && fnv.K == KFunc {
			bind = fnv.Fn.Bind
		}
		x.callFn(st, d, in, fn, args, bind, k)
		return
	}
	if fnv.K == KFunc || fnv.Fn != nil {
		x.callFn(st, d, in, fnv.Fn.Fn, args, fnv.Fn.Bind, k)
		return
	}
	if cl, ok := x.closures[fnv.T.S]; ok {
		x.callFn(st, d, in, cl.Fn, args, cl.Bind, k)
		return
	}
	// unknown function value
	x.nonNil(st, fnv.T, pos, "call of nil function")
	name := "dyn:" + sigName(c.Signature())
	x.namedCall(st, d, in, []string{name}, append([]*Val{fnv}, args...), nil, resultType(c), c.Signature(), k)
}

func sigName(s *types.Signature) string {
	var ps []string
	for i := 0; i < s.Params().Len(); i++ {
		t := typeName(s.Params().At(i).Type())
		if s.Variadic() && i == s.Params().Len()-1 {
			t = "..." + strings.TrimPrefix(t, "[]")
		}
		ps = append(ps, t)
	}
	var rs []string
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, typeName(s.Results().At(i).Type()))
	}
	out := "func(" + strings.Join(ps, ",") + ")"
	if len(rs) > 0 {
		out += "(" + strings.Join(rs, ",") + ")"
	}
	return out
}

// namedCall applies the contract of an external or dynamic callee.
func (x *Exec) namedCall(st *State, d int, in ssa.Instruction, names []string, args []*Val, ptypes []types.Type, rt types.Type, sig *types.Signature, k func(*State, *Val)) {
	for _, n := range names {
		if x.intrinsic(st, d, in, n, args, rt, k) {
			return
		}
	}
	handler := strings.HasPrefix(names[0], "dyn:")
	if x.P.isHandlerName(names) {
		handler = true
	}
	if handler {
		x.lockGoal(st, "user code ("+names[0]+") is called with no lock held", in.Pos(), len(st.held) == 0, heldNames(st))
	}
	for _, n := range names {
		x.atCall(st, n, args)
	}
	if x.lockOnly {
		x.heldAt(st, names[0], in)
		if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && x.P.repoIface(names[0]) {
			for _, f := range x.P.implementations(ci.Common()) {
				x.calleeEffects(st, f, trimPkg(f.String()), in)
			}
		}
		if handler || x.P.repoIface(names[0]) {
			x.havocWrites(st, nil)
		}
		x.pollute(st, args)
		k(st, x.havocResult(st, names[0], rt))
		return
	}
	for _, n := range names {
		if sp, ok := x.P.specs.Funcs[n]; ok {
			x.applySpec(st, d, in, sp, n, args, rt, sig, k)
			return
		}
	}
	x.unspec[names[len(names)-1]] = true
	x.pollute(st, args)
	k(st, x.havocResult(st, names[0], rt))
}

func heldNames(st *State) string {
	var s []string
	for _, h := range st.held {
		s = append(s, h.class)
	}
	return strings.Join(s, ", ")
}

func (x *Exec) havocResult(st *State, name string, rt types.Type) *Val {
	if rt == nil {
		return &Val{K: KNone}
	}
	x.bumpClock(st)
	return x.havocVal(st, "r."+clip(sanitize(name), 30), rt)
}

func (x *Exec) bumpClock(st *State) {
	c := x.freshConst("clk", SInt)
	x.assume(tLe(st.clock, c))
	st.clock = c
}

// pollute havocs what an unknown callee can reach directly through its arguments.
func (x *Exec) pollute(st *State, args []*Val) {
	for _, a := range args {
		switch a.K {
		case KLV:
			f := x.freshConst("pol", x.heapSortOf(a.LV))
			if a.LV.seq {
				m := x.load(st.heaps, a.LV.heap, a.LV.idx)
				x.store(st, a.LV.heap, a.LV.idx, mk(SB, "bupd", m, a.LV.pos, f))
			} else {
				x.typeFacts(f, a.LV.typ, st.clock)
				x.store(st, a.LV.heap, a.LV.idx, f)
			}
		case KTerm:
			if b, ok := x.boxes[a.T.S]; ok {
				x.pollute(st, []*Val{b})
				continue
			}
			if a.Typ == nil {
				continue
			}
			switch u := a.Typ.Underlying().(type) {
			case *types.Slice:
				if x.P.seqElem(u.Elem()) && a.T.S != slNil.S {
					h := x.regHeap(x.P.memHeap(u.Elem()), SB)
					f := x.freshConst("pol", SB)
					x.store(st, h, slBase(a.T), f)
					// variadic boxes
				}
			case *types.Pointer:
				if isStructT(u.Elem()) && !x.P.opaqueStruct(u.Elem()) {
					x.polluteStruct(st, a.T, u.Elem())
				}
			}
		}
	}
}

func (x *Exec) polluteStruct(st *State, ref Term, t types.Type) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		a := x.fieldAddr(t, ref, i)
		if a.K != KLV {
			if isStructT(s.Field(i).Type()) && !x.P.opaqueStruct(s.Field(i).Type()) {
				x.polluteStruct(st, a.T, s.Field(i).Type())
			}
			continue
		}
		f := x.freshConst("pol", x.heapSort(a.LV.heap))
		x.typeFacts(f, s.Field(i).Type(), st.clock)
		x.store(st, a.LV.heap, a.LV.idx, f)
	}
}

func (x *Exec) heapSortOf(lv *LV) string {
	if lv.seq {
		return SInt
	}
	return x.heapSort(lv.heap)
}

const maxInline = 14

func (x *Exec) callFn(st *State, d int, in ssa.Instruction, fn *ssa.Function, args, bind []*Val, k func(*State, *Val)) {
	name := trimPkg(fn.String())
	var rt types.Type
	if r := fn.Signature.Results(); r.Len() == 1 {
		rt = r.At(0).Type()
	} else if r.Len() > 1 {
		rt = r
	}
	if x.intrinsic(st, d, in, name, args, rt, k) {
		return
	}
	inRepo := len(fn.Blocks) > 0
	if !inRepo {
		x.namedCall(st, d, in, []string{name}, args, nil, rt, fn.Signature, k)
		return
	}
	x.atCall(st, name, args)
	if fn.Signature.Recv() != nil && fn.Synthetic == "" {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			x.nonNil(st, x.toTerm(st, args[0]), in.Pos(), "nil receiver of "+fn.Name())
		}
	}
	if x.lockOnly {
		x.lockCall(st, d, in, fn, args, bind, rt, k)
		return
	}
	if sp, ok := x.P.specs.Funcs[name]; ok && len(fn.FreeVars) == 0 && !sp.Flags["inline"] {
		x.usedSpecs[name] = true
		if sp.Flags["handler"] {
			x.lockGoal(st, "user code ("+name+") is called with no lock held", in.Pos(), len(st.held) == 0, heldNames(st))
		}
		x.applySpec(st, d, in, sp, name, args, rt, fn.Signature, k)
		return
	}
	x.inlineCall(st, d, in, fn, args, bind, rt, k)
}

func (x *Exec) inlineCall(st *State, d int, in ssa.Instruction, fn *ssa.Function, args, bind []*Val, rt types.Type, k func(*State, *Val)) {
	rec := 0
	for _, f := range st.frames {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 0 || len(st.frames) > maxInline {
		panic(unsup("recursive call of %s needs a contract", fn))
	}
	if fn.Synthetic == "" {
		x.inlined[trimPkg(fn.String())] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]*Val{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			fr.env[f] = bind[i]
		} else {
			panic(unsup("free variable %s of %s unknown", f.Name(), fn))
		}
	}
	st.frames = append(st.frames, fr)
	nd := len(st.frames) - 1
	x.runBlock(st, nd, fn.Blocks[0], 0, func(s2 *State, res []*Val) {
		s2.frames = s2.frames[:nd]
		k(s2, packResults(res))
	})
}

func (x *Exec) runDefers(st *State, d int, k func(*State)) {
	fr := st.frames[d]
	if len(fr.defers) == 0 {
		k(st)
		return
	}
	df := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	x.callVals(st, d, df.pos, df.call, df.fn, df.args, func(s2 *State, _ *Val) {
		x.runDefers(s2, d, k)
	})
}

func (x *Exec) goStmt(st *State, d int, g *ssa.Go) {
	fnv, args := x.callParts(st, d, g.Common())
	name := "?"
	var all []*Val
	if fn := g.Common().StaticCallee(); fn != nil {
		name = trimPkg(fn.String())
		all = args
	} else if fnv != nil && fnv.K == KFunc {
		name = trimPkg(fnv.Fn.Fn.String())
	}
	x.goTargets = append(x.goTargets, name)
	x.atCall(st, "go", append([]*Val{}, all...))
	if fnv != nil && fnv.K == KFunc && len(fnv.Fn.Fn.FreeVars) > 0 {
		args = []*Val{{T: fnv.Fn.H, Typ: types.Typ[types.Int]}}
	}
	x.atCall(st, "go "+name, args)
}

// atCall checks the assertions attached to calls of a function.
func (x *Exec) atCall(st *State, name string, args []*Val) {
	if x.probe > 0 || x.lockOnly || x.spec == nil {
		return
	}
	for _, a := range x.spec.Atcalls {
		if a.Callee != name || !a.C.active(x.spec, x.prop) {
			continue
		}
		extra := map[string]*Val{}
		for i, p := range a.Params {
			if i < len(args) && p != "_" {
				extra[p] = args[i]
			}
		}
		f := x.evalClause(st, a.C.E, x.entry, extra)
		x.goal(st, "atcall", a.C.Label, a.C.Pos, f)
		x.assume(f)
	}
}

// atWait is the obligation that a blocking channel operation is released by one of the channels a clause
// atcall "wait" (c) describes.
func (x *Exec) atWait(st *State, cs []chCase) {
	if x.probe > 0 || x.lockOnly || x.spec == nil {
		return
	}
	for _, a := range x.spec.Atcalls {
		if a.Callee != "wait" || !a.C.active(x.spec, x.prop) {
			continue
		}
		fs := []Term{tFalse}
		for _, c := range cs {
			if !c.send {
				fs = append(fs, x.evalClause(st, a.C.E, x.entry, map[string]*Val{a.Params[0]: {T: c.ch, Typ: c.typ}}))
			}
		}
		f := tOr(fs...)
		x.goal(st, "atcall", a.C.Label, a.C.Pos, f)
	}
}

// applySpec replaces a call by the callee's contract.
func (x *Exec) applySpec(st *State, d int, in ssa.Instruction, sp *Spec, name string, args []*Val, rt types.Type, sig *types.Signature, k func(*State, *Val)) {
	if sp.Extern {
		x.calledExt[name] = true
	}
	env := &Env{x: x, st: st, heaps: st.heaps, old: st.heaps, vars: map[string]*Val{}, phase: "call"}
	if len(sp.Params) > len(args) {
		panic(serr(sp.Pos, "contract of %s names %d parameters, the call has %d", name, len(sp.Params), len(args)))
	}
	for i, p := range sp.Params {
		a := args[i]
		if a.Typ == nil && sig != nil {
			w := *a
			w.Typ = paramType(sig, i, len(args))
			a = &w
		}
		env.vars[p] = a
	}
	for _, l := range sp.Lets {
		env.vars[l.Name] = env.eval(l.E)
	}
	st.ghostClock = st.clock
	for _, c := range sp.Requires {
		if c.Free || len(c.Props) > 0 && !c.active(sp, x.prop) {
			continue
		}
		f := env.boolean(c.E)
		x.goal(st, "requires", "call of "+name+": "+c.Label, x.P.line(in.Pos()), f)
		x.assume(f)
	}
	pre := st.snapshot()
	pclock := st.clock
	if sp.Flags["readsconn"] {
		// no state of its own
	}
	var locs []allowedLoc
	for _, m := range sp.Modifies {
		if !m.C.active(sp, x.prop) {
			continue
		}
		locs = append(locs, env.locations(m.E)...)
	}
	if sp.NoFrame && !sp.Extern && !x.lockOnly {
		panic(serr(sp.Pos, "%s is called, so its contract needs a frame", name))
	}
	if sp.ModAny {
		panic(serr(sp.Pos, "modifies * cannot be used at a call"))
	}
	if !sp.Flags["noalloc"] {
		x.bumpClock(st)
	}
	done := map[string]bool{}
	for _, l := range locs {
		key := l.heap + "|" + l.idx.S + "|" + l.cond.S
		if done[key] {
			continue
		}
		done[key] = true
		x.havocLoc(st, l, sp.Extern)
	}
	if sp.Flags["pollutes"] { // writes through its arguments
		x.pollute(st, args)
	}
	// results
	var results []*Val
	if rt != nil {
		if tp, ok := rt.(*types.Tuple); ok {
			for i := 0; i < tp.Len(); i++ {
				results = append(results, x.havocVal(st, "r."+lastName(name), tp.At(i).Type()))
			}
		} else {
			results = append(results, x.havocVal(st, "r."+lastName(name), rt))
		}
	}
	post := &Env{x: x, st: st, heaps: st.heaps, old: pre, vars: map[string]*Val{}, phase: "call"}
	for n, v := range env.vars {
		post.vars[n] = v
	}
	rn := x.resultNames(sp, sig, len(results))
	for i, r := range results {
		post.vars[rn[i]] = r
	}
	if len(results) == 1 {
		post.vars["result"] = results[0]
	}
	st.ghostClock = pclock
	for _, c := range sp.Ensures {
		if len(c.Props) > 0 && !c.active(sp, x.prop) || x.P.specs.aboutLocks(c.E) {
			continue // what happened under the callee's locks is not the caller's history
		}
		x.assume(post.boolean(c.E))
	}
	if sp.Flags["noreturn"] {
		return
	}
	k(st, packResults(results))
}

func lastName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func paramType(sig *types.Signature, i, n int) types.Type {
	off := n - sig.Params().Len()
	if i < off {
		if sig.Recv() != nil {
			return sig.Recv().Type()
		}
		return nil
	}
	return sig.Params().At(i - off).Type()
}

func (x *Exec) resultNames(sp *Spec, sig *types.Signature, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = "result" + itoa(i)
		if i < len(sp.Results) {
			out[i] = sp.Results[i]
		}
	}
	return out
}

func (x *Exec) havocLoc(st *State, l allowedLoc, ext bool) {
	vs := x.heapSort(l.heap)
	if l.any {
		x.checkFrameAny(st, l.heap)
		x.havocHeap(st, l.heap)
		return
	}
	if l.cond.S == "elembase" {
		if l.idx.S == "0" { // a nil slice has no elements
			return
		}
		x.checkFrameElems(st, l.heap, l.idx)
		old, nw := x.havocHeap(st, l.heap)
		x.s.send(fmt.Sprintf("(assert (forall ((r Int)) (! (=> (not (= (elembase r) %s)) (= (select %s r) (select %s r))) :pattern ((select %s r)))))", l.idx.S, nw, old, nw))
		return
	}
	if l.win.S != "" && ext {
		// only the window of the slice changes
		old := x.load(st.heaps, l.heap, l.idx)
		off, ln := slOff(l.win), slLen(l.win)
		f := x.freshConst("mod."+l.heap, SB)
		x.assume(tEq2(bLen(f), ln))
		x.store(st, l.heap, l.idx, mk(SB, "bsplice", old, off, f))
		return
	}
	f := x.freshConst("mod."+l.heap, vs)
	x.store(st, l.heap, l.idx, f)
	if t, ok := x.P.heapType[l.heap]; ok {
		x.typeFacts(f, t, st.clock)
	}
}

func tEq2(a, b Term) Term { return mk(SBool, "=", a, b) }

// ---------- frames ----------

func (x *Exec) frameOff() bool {
	return x.probe > 0 || x.modAny || x.lockOnly || x.spec == nil || x.spec.NoFrame
}

func frameExempt(h string) bool {
	return strings.HasPrefix(h, "G.visited") || h == "G.recvd" || h == "G.sent" || h == "G.emptied" || h == "G.now"
}

func (x *Exec) checkFrame(st *State, h string, idx Term) {
	if x.frameOff() || frameExempt(h) {
		return
	}
	if r := x.root(idx.S); r != "" {
		return
	}
	alts := []Term{tLt(tInt(0), mk(SInt, "birth", idx))}
	if !strings.HasPrefix(h, "G.") {
		alts = append(alts, tEq(idx, tInt(0))) // there is nothing behind nil to write
	}
	for _, a := range x.allowed {
		if a.heap != h {
			continue
		}
		if a.any || a.cond.S == "" && a.idx.S == idx.S {
			return
		}
		if a.cond.S == "elembase" {
			alts = append(alts, tEq(mk(SInt, "elembase", idx), a.idx))
		} else {
			alts = append(alts, tEq(idx, a.idx))
		}
	}
	x.goal(st, "frame", "writes only what the contract allows: "+h, x.spec.Pos, tOr(alts...))
}

func (x *Exec) checkFrameAny(st *State, h string) {
	if x.frameOff() || frameExempt(h) {
		return
	}
	for _, a := range x.allowed {
		if a.heap == h && a.any {
			return
		}
	}
	x.goal(st, "frame", "writes only what the contract allows: "+h, x.spec.Pos, tFalse)
}

func (x *Exec) checkFrameElems(st *State, h string, base Term) {
	if x.frameOff() || x.root(base.S) != "" {
		return
	}
	alts := []Term{tLt(tInt(0), mk(SInt, "birth", base)), tEq(base, tInt(0))}
	for _, a := range x.allowed {
		if a.heap == h {
			if a.any {
				return
			}
			if a.cond.S == "elembase" {
				alts = append(alts, tEq(base, a.idx))
			}
		}
	}
	x.goal(st, "frame", "writes only what the contract allows: "+h, x.spec.Pos, tOr(alts...))
}

// ghostZero sets the ghost state of a zero value of an opaque struct.
func (x *Exec) ghostZero(st *State, ref Term, t types.Type) {
	n := typeName(t)
	for _, g := range x.P.specs.sortedGhosts() {
		if g.ZeroOf != n && g.ZeroOf != "*"+n {
			continue
		}
		ref := ref
		if g.ZeroOf != n { // indexed by the interface value of the pointer
			ref = mk(SInt, "boxi", x.tag(types.NewPointer(t)), ref)
		}
		h := x.regHeap("G."+g.Name, g.Sort)
		var z Term
		switch g.Sort {
		case SInt:
			z = tInt(0)
		case SBool:
			z = tFalse
		case SB:
			z = bEmpty
		default:
			continue
		}
		x.initCell(st, h, ref, z)
	}
}

func (x *Exec) rtypeConst(st *State, name string) Term {
	n := "rtype." + sanitize(name)
	x.s.declare(n, "(declare-const "+n+" Int)", "(assert (> "+n+" 0))")
	return Term{S: n, Sort: SInt}
}

// ---------- builtins ----------

func (x *Exec) builtin(st *State, d int, in ssa.Instruction, c *ssa.CallCommon, b *ssa.Builtin, args []*Val, k func(*State, *Val)) {
	it := types.Typ[types.Int]
	switch b.Name() {
	case "len", "cap":
		a := args[0]
		switch {
		case a.T.Sort == SSl && b.Name() == "len":
			k(st, &Val{T: slLen(a.T), Typ: it})
		case a.T.Sort == SSl:
			k(st, &Val{T: slCap(a.T), Typ: it})
		case a.T.Sort == SB:
			k(st, &Val{T: bLen(a.T), Typ: it})
		default:
			r := x.freshConst("len", SInt)
			x.assume(tLe(tInt(0), r))
			x.assume(tLe(r, Term{S: maxLen, Sort: SInt}))
			k(st, &Val{T: r, Typ: it})
		}
	case "append":
		k(st, x.appendVal(st, c, args))
	case "copy":
		k(st, x.copyVal(st, c, args))
	case "delete":
		x.mapDelete(st, args[0], args[1], c.Args[0].Type(), in.Pos())
		k(st, &Val{K: KNone})
	case "close":
		if u, ok := c.Args[0].(*ssa.UnOp); ok {
			x.heldAt(st, "close "+x.P.staticLockClass(u.X), in)
		}
		x.chanClose(st, args[0].T, c.Args[0].Type(), in.Pos())
		k(st, &Val{K: KNone})
	case "min", "max":
		t := args[0].T
		for _, a := range args[1:] {
			if b.Name() == "min" {
				t = tIte(tLe(t, a.T), t, a.T)
			} else {
				t = tIte(tLe(a.T, t), t, a.T)
			}
		}
		k(st, &Val{T: x.name("mm", t), Typ: c.Args[0].Type()})
	case "ssa:wrapnilchk":
		x.nonNil(st, x.toTerm(st, args[0]), in.Pos(), "method wrapper")
		k(st, args[0])
	case "print", "println":
		k(st, &Val{K: KNone})
	case "recover":
		k(st, &Val{T: tInt(0), Typ: types.NewInterfaceType(nil, nil)})
	case "clear":
		panic(unsup("clear"))
	default:
		panic(unsup("builtin %s", b.Name()))
	}
}

func (x *Exec) appendVal(st *State, c *ssa.CallCommon, args []*Val) *Val {
	s := args[0].T
	t := c.Args[0].Type()
	et := t.Underlying().(*types.Slice).Elem()
	var add Term // appended sequence
	var n Term
	src := args[1]
	isSeq := x.P.seqElem(et)
	if src.T.Sort == SB { // append([]byte, string...)
		add = src.T
		n = bLen(add)
	} else {
		n = slLen(src.T)
		if isSeq {
			add = x.name("app", x.sliceSeq(st.heaps, src.T, et))
		}
	}
	if n.C != nil && n.C.Sign() == 0 {
		return &Val{T: s, Typ: t}
	}
	newLen := x.name("nl", tAdd(slLen(s), n))
	x.assume(tLe(newLen, Term{S: maxLen, Sort: SInt})) // the allocation succeeded
	fits := tLe(newLen, slCap(s))
	fresh := x.alloc(st)
	ncap := x.freshConst("cap", SInt)
	x.assume(tAnd(tLe(newLen, ncap), tLe(ncap, Term{S: maxLen, Sort: SInt})))
	x.assume(tEq2(Term{S: "(bsize " + fresh.S + ")", Sort: SInt}, ncap))
	if s.S == slNil.S || (slCap(s).C != nil && slCap(s).C.Sign() == 0 && (n.C != nil && n.C.Sign() > 0)) {
		fits = tFalse
	}
	if fits.B != -1 {
		fits = x.name("fits", fits)
	}
	if isSeq {
		h := x.regHeap(x.P.memHeap(et), SB)
		oldSeq := x.name("os", x.sliceSeq(st.heaps, s, et))
		pad := x.freshConst("pad", SB)
		// fresh block: old elements, new elements, unspecified spare room
		content := x.name("ct", bCat(bCat(oldSeq, add), pad))
		x.assume(tImp(tNot(fits), tEq2(bLen(content), ncap)))
		x.assume(tEq2(bLen(pad), tSub(ncap, newLen)))
		// in place: spliced into the existing block
		if fits.B == -1 {
			x.initCell(st, h, fresh, content)
			r := slMk(fresh, tInt(0), newLen, ncap)
			return &Val{T: r, Typ: t}
		}
		x.initCell(st, h, fresh, content)
		if x.root(slBase(s).S) != "" || !x.frameNeeded(h, slBase(s)) {
			// the block is ours
		}
		m := x.load(st.heaps, h, slBase(s))
		sp := mk(SB, "bsplice", m, tAdd(slOff(s), slLen(s)), add)
		nv := x.name("spl", tIte(fits, sp, m))
		x.condStore(st, h, slBase(s), nv, fits)
		r := slMk(x.name("ab", tIte(fits, slBase(s), fresh)), x.name("ao", tIte(fits, slOff(s), tInt(0))), newLen, x.name("ac", tIte(fits, slCap(s), ncap)))
		rs := x.sliceSeq(st.heaps, r, et)
		x.assume(tEq2(rs, bCat(oldSeq, add))) // consequence of the two cases, stated for the solver
		x.typeFacts(r, t, st.clock)
		return &Val{T: r, Typ: t}
	}
	// element references
	base := x.name("ab", tIte(fits, slBase(s), fresh))
	off := x.name("ao", tIte(fits, slOff(s), tInt(0)))
	r := slMk(base, off, newLen, x.name("ac", tIte(fits, slCap(s), ncap)))
	if fits.B == -1 {
		r = slMk(fresh, tInt(0), newLen, ncap)
	}
	copyHeap := func(h string) {
		old := x.cur(st.heaps, h)
		x.checkFrameCond(st, h, slBase(s), fits)
		n0, n1 := old, ""
		_, n1 = x.havocHeap(st, h)
		x.trackElems(st, h, slBase(s), fresh)
		// untouched cells
		x.s.send(fmt.Sprintf("(assert (forall ((q Int)) (! (=> (not (and (= (elembase q) %s) (<= (+ %s %s) (elemidx q)) (< (elemidx q) (+ %s %s)))) (=> (not (= (elembase q) %s)) (= (select %s q) (select %s q)))) :pattern ((select %s q)))))",
			slBase(r).S, slOff(r).S, slLen(s).S, slOff(r).S, newLen.S, fresh.S, n1, n0, n1))
		// kept prefix
		x.s.send(fmt.Sprintf("(assert (forall ((k Int)) (! (=> (and (<= %s k) (< k (+ %s %s))) (= (select %s (elem %s k)) (select %s (elem %s (+ (- k %s) %s))))) :pattern ((elem %s k)))))",
			slOff(r).S, slOff(r).S, slLen(s).S, n1, slBase(r).S, n0, slBase(s).S, slOff(r).S, slOff(s).S, slBase(r).S))
		// added elements
		if n.C != nil && n.C.IsInt64() && n.C.Int64() <= 4 {
			for i := int64(0); i < n.C.Int64(); i++ {
				x.s.send(fmt.Sprintf("(assert (= (select %s (elem %s (+ %s %s %d))) (select %s (elem %s (+ %s %d)))))", n1, slBase(r).S, slOff(r).S, slLen(s).S, i, n0, slBase(src.T).S, slOff(src.T).S, i))
			}
		} else {
			x.s.send(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= %s i) (< i %s)) (= (select %s (elem %s (+ %s i))) (select %s (elem %s (+ %s (- i %s)))))) :pattern ((select %s (elem %s (+ %s i)))))))",
				slLen(s).S, newLen.S, n1, slBase(r).S, slOff(r).S, n0, slBase(src.T).S, slOff(src.T).S, slLen(s).S, n1, slBase(r).S, slOff(r).S))
		}
	}
	if isStructT(et) {
		for _, l := range (&Env{x: x, st: st, heaps: st.heaps}).elemLocs(fresh, et) {
			copyHeap(l.heap)
		}
	} else {
		copyHeap(x.regHeap(x.P.cellHeap(et), x.P.sortOf(et)))
	}
	x.typeFacts(r, t, st.clock)
	return &Val{T: r, Typ: t}
}

// trackElems marks in the write log that elements of two blocks may have changed.
func (x *Exec) trackElems(st *State, h string, a, b Term) {}

func (x *Exec) frameNeeded(h string, base Term) bool { return x.root(base.S) == "" }

// condStore is a store that only happens when cond holds.
func (x *Exec) condStore(st *State, h string, idx, val, cond Term) {
	x.checkFrameCond(st, h, idx, cond)
	x.rawStore(st, h, idx, val)
}

func (x *Exec) checkFrameCond(st *State, h string, idx, cond Term) {
	if x.frameOff() || x.root(idx.S) != "" {
		return
	}
	alts := []Term{tNot(cond), tLt(tInt(0), mk(SInt, "birth", idx))}
	for _, a := range x.allowed {
		if a.heap != h {
			continue
		}
		if a.any || a.idx.S == idx.S {
			return
		}
		alts = append(alts, tEq(idx, a.idx))
	}
	x.goal(st, "frame", "writes only what the contract allows: "+h, x.spec.Pos, tOr(alts...))
}

func (x *Exec) copyVal(st *State, c *ssa.CallCommon, args []*Val) *Val {
	dst := args[0].T
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var src, sn Term
	if args[1].T.Sort == SB {
		src, sn = args[1].T, bLen(args[1].T)
	} else {
		sn = slLen(args[1].T)
		if x.P.seqElem(et) {
			src = x.name("cs", x.sliceSeq(st.heaps, args[1].T, et))
		}
	}
	n := x.name("cn", tIte(tLe(slLen(dst), sn), slLen(dst), sn))
	if x.P.seqElem(et) {
		h := x.regHeap(x.P.memHeap(et), SB)
		m := x.load(st.heaps, h, slBase(dst))
		x.store(st, h, slBase(dst), mk(SB, "bsplice", m, slOff(dst), bSub(src, tInt(0), n)))
		return &Val{T: n, Typ: types.Typ[types.Int]}
	}
	if isStructT(et) {
		panic(unsup("copy of struct elements"))
	}
	h := x.regHeap(x.P.cellHeap(et), x.P.sortOf(et))
	x.checkFrameElems(st, h, slBase(dst))
	n0, n1 := x.havocHeap(st, h)
	s := args[1].T
	x.s.send(fmt.Sprintf("(assert (forall ((q Int)) (! (=> (not (and (= (elembase q) %s) (<= %s (elemidx q)) (< (elemidx q) (+ %s %s)))) (= (select %s q) (select %s q))) :pattern ((select %s q)))))",
		slBase(dst).S, slOff(dst).S, slOff(dst).S, n.S, n1, n0, n1))
	x.s.send(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (select %s (elem %s (+ %s i))) (select %s (elem %s (+ %s i))))) :pattern ((select %s (elem %s (+ %s i)))))))",
		n.S, n1, slBase(dst).S, slOff(dst).S, n0, slBase(s).S, slOff(s).S, n1, slBase(dst).S, slOff(dst).S))
	return &Val{T: n, Typ: types.Typ[types.Int]}
}

var _ = token.NoPos
