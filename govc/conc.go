package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- locks ----------

func lockClass(t string) string {
	if strings.HasPrefix(t, "(fa.") {
		i := strings.Index(t, " ")
		return t[4:i]
	}
	return "lock"
}

// lockGoal is an obligation of the lock discipline.
func (x *Exec) lockGoal(st *State, label string, pos token.Pos, ok bool, detail ...string) {
	if x.probe > 0 {
		return
	}
	if !x.lockOnly && !x.wantLocks() {
		return
	}
	f := tBool(ok)
	if !ok && !x.feasible() {
		f = tTrue
	}
	x.goal(st, "lock", label+" ("+x.P.line(pos)+")", x.P.line(pos), f)
	if !ok && len(detail) > 0 {
		for _, o := range x.obls {
			if o.Kind == "lock" && o.Label == label+" ("+x.P.line(pos)+")" && o.Failed > 0 {
				o.Detail += "\nheld: " + strings.Join(detail, ", ")
			}
		}
	}
}

func (x *Exec) wantLocks() bool { return x.prop == "" || x.prop == x.P.lockProp() }

func (p *Prog) lockProp() string { return "C12" }

func (x *Exec) sameTerm(a, b string) bool {
	if a == b {
		return true
	}
	ok, _ := x.prove(tEq(Term{S: a, Sort: SInt}, Term{S: b, Sort: SInt}), false)
	return ok
}

// acquire models taking a lock.
func (x *Exec) acquire(st *State, lock Term, class string, mode byte, pos token.Pos) {
	for _, h := range st.held {
		if h.class == class && x.sameTerm(h.term, lock.S) {
			x.lockGoal(st, "lock "+class+" is not taken twice", pos, false, heldNames(st))
		} else {
			x.addEdge(h.class, class, x.P.line(pos))
		}
	}
	x.envStep(st, lock, class, pos)
	st.held = append(append([]Held(nil), st.held...), Held{term: lock.S, class: class, mode: mode})
	snap := st.snapshot()
	st.lockAt[class] = snap
	st.lockAt[""] = snap
}

func (x *Exec) addEdge(a, b, pos string) {
	if x.probe > 0 {
		return
	}
	x.P.muEdges.Lock()
	if x.P.edges[a] == nil {
		x.P.edges[a] = map[string]string{}
	}
	if _, ok := x.P.edges[a][b]; !ok {
		x.P.edges[a][b] = x.curName + " " + pos
	}
	x.P.muEdges.Unlock()
}

// envStep replaces the state guarded by a lock with what other goroutines may have left.
func (x *Exec) envStep(st *State, lock Term, class string, pos token.Pos) {
	if !strings.HasPrefix(lock.S, "(fa.") {
		return
	}
	i := strings.Index(lock.S, " ")
	obj := Term{S: lock.S[i+1 : len(lock.S)-1], Sort: SInt}
	if x.root(obj.S) != "" && !x.escaped(obj) {
		// an object this function just created is not shared yet
	}
	before := st.snapshot()
	for _, g := range x.P.specs.Guards {
		if sanitize(g.Struct)+"."+sanitize(g.Lock) != class {
			continue
		}
		h := "F." + sanitize(g.Struct) + "." + sanitize(g.Field)
		if _, ok := x.hsorts[h]; !ok {
			continue
		}
		t := x.P.heapType[h]
		if !g.Fixed {
			f := x.freshConst("env."+g.Field, x.heapSort(h))
			x.typeFacts(f, t, st.clock)
			x.rawStore(st, h, obj, f)
		}
		if t != nil {
			switch t.Underlying().(type) {
			case *types.Map:
				m := x.load(st.heaps, h, obj)
				dh, vh, ks, vs := x.P.mapHeaps(t)
				x.regHeap(dh, arr(ks, SBool))
				x.regHeap(vh, arr(ks, vs))
				x.rawStore(st, dh, m, x.freshConst("env.dom", arr(ks, SBool)))
				x.rawStore(st, vh, m, x.freshConst("env.val", arr(ks, vs)))
			}
		}
	}
	x.assumeMonitors(st, class, obj)
	if x.lockOnly || x.spec == nil {
		return
	}
	for _, m := range x.spec.Relies {
		if sanitize(m.Struct)+"."+sanitize(m.Lock) == class {
			x.assume(x.evalClause(st, m.C.E, before, map[string]*Val{m.Param: tv(obj, types.NewPointer(x.P.typeByName(m.Struct)))}))
			x.calledExt["rely: "+m.C.Label] = true
		}
	}
}

func (x *Exec) escaped(obj Term) bool { return true }

func (x *Exec) monitorEnv(st *State, m *Monitor, obj Term) *Env {
	env := &Env{x: x, st: st, heaps: st.heaps, old: x.entry, vars: map[string]*Val{}}
	t := x.P.typeByName(m.Struct)
	env.vars[m.Param] = tv(obj, types.NewPointer(t))
	return env
}

func (x *Exec) assumeMonitors(st *State, class string, obj Term) {
	if x.lockOnly {
		return
	}
	for _, m := range x.P.specs.Monitors {
		if sanitize(m.Struct)+"."+sanitize(m.Lock) == class {
			x.assume(x.monitorEnv(st, m, obj).boolean(m.C.E))
		}
	}
}

func (x *Exec) release(st *State, lock Term, class string, mode byte, pos token.Pos) {
	for i := len(st.held) - 1; i >= 0; i-- {
		h := st.held[i]
		if h.class == class && h.mode == mode && x.sameTerm(h.term, lock.S) {
			if mode == 'W' {
				x.monitorGoals(st, lock, class, pos)
			}
			st.held = append(append([]Held(nil), st.held[:i]...), st.held[i+1:]...)
			st.unlocks[class] = st.snapshot()
			return
		}
	}
	x.lockGoal(st, "lock "+class+" is held when released", pos, false, heldNames(st))
}

// monitorGoals are the obligations on the state a lock protects when it is released.
func (x *Exec) monitorGoals(st *State, lock Term, class string, pos token.Pos) {
	if x.lockOnly || !strings.HasPrefix(lock.S, "(fa.") {
		return
	}
	j := strings.Index(lock.S, " ")
	obj := Term{S: lock.S[j+1 : len(lock.S)-1], Sort: SInt}
	for _, m := range x.P.specs.Monitors {
		if sanitize(m.Struct)+"."+sanitize(m.Lock) == class {
			x.goal(st, "monitor", m.C.Label+" (released at "+x.P.line(pos)+")", m.C.Pos, x.monitorEnv(st, m, obj).boolean(m.C.E))
		}
	}
}

// checkGuard is the obligation that a guarded field is accessed under its lock.
func (x *Exec) checkGuard(st *State, g *GuardInst, write bool, pos token.Pos) {
	if x.probe > 0 || !x.lockOnly {
		return
	}
	if g.g.Write && !write {
		return
	}
	if x.root(g.obj.S) != "" {
		return // a fresh object is not shared
	}
	class := sanitize(g.g.Struct) + "." + sanitize(g.g.Lock)
	ok := false
	for _, h := range st.held {
		if h.class == class && (h.mode == 'W' || !write) && x.sameTerm(h.term, g.lock.S) {
			ok = true
		}
	}
	what := "read"
	if write {
		what = "written"
	}
	x.lockGoal(st, g.g.Struct+"."+g.g.Field+" is "+what+" only under "+g.g.Lock, pos, ok, heldNames(st))
}

// ---------- intrinsics ----------

func (x *Exec) intrinsic(st *State, d int, in ssa.Instruction, name string, args []*Val, rt types.Type, k func(*State, *Val)) bool {
	pos := in.Pos()
	none := &Val{K: KNone}
	if x.stringIntrinsic(st, d, in, name, args, rt, k) {
		return true
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		l := x.toTerm(st, args[0])
		x.acquire(st, l, lockClass(l.S), 'W', pos)
		k(st, none)
	case "(*sync.RWMutex).RLock":
		l := x.toTerm(st, args[0])
		x.acquire(st, l, lockClass(l.S), 'R', pos)
		k(st, none)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		l := x.toTerm(st, args[0])
		x.release(st, l, lockClass(l.S), 'W', pos)
		k(st, none)
	case "(*sync.RWMutex).RUnlock":
		l := x.toTerm(st, args[0])
		x.release(st, l, lockClass(l.S), 'R', pos)
		k(st, none)
	case "(engine.Barrier).Pause":
		l := x.toTerm(st, args[0])
		x.atCall(st, name, args)
		x.acquire(st, l, "engine.Barrier", 'W', pos)
		k(st, none)
	case "(engine.Barrier).Resume":
		l := x.toTerm(st, args[0])
		x.atCall(st, name, args)
		x.release(st, l, "engine.Barrier", 'W', pos)
		k(st, none)
	case "(engine.Barrier).Wait":
		l := x.toTerm(st, args[0])
		x.atCall(st, name, args)
		x.acquire(st, l, "engine.Barrier", 'R', pos)
		x.release(st, l, "engine.Barrier", 'R', pos)
		k(st, none)
	case "(*sync.Once).Do":
		l := x.toTerm(st, args[0])
		h := x.regHeap("G.oncedone", SBool)
		// another goroutine may have run it meanwhile
		cur := x.load(st.heaps, h, l)
		e := x.freshConst("once", SBool)
		x.assume(tImp(cur, e))
		if x.root(l.S) == "" {
			x.rawStore(st, h, l, e)
			cur = e
		}
		class := "once:" + lockClass(l.S)
		for _, hd := range st.held {
			if hd.class == class && x.sameTerm(hd.term, l.S) {
				x.lockGoal(st, "sync.Once "+class+" is not re-entered", pos, false, heldNames(st))
			} else {
				x.addEdge(hd.class, class, x.P.line(pos))
			}
		}
		x.branch(st, cur, "once: already done", func(s2 *State) {
			if !x.lockOnly && strings.HasPrefix(l.S, "(fa.") {
				x.chanEnv(s2)
				i := strings.Index(l.S, " ")
				x.assumeMonitors(s2, lockClass(l.S), Term{S: l.S[i+1 : len(l.S)-1], Sort: SInt})
			}
			k(s2, none)
		})
		x.branch(st, tNot(cur), "once: runs", func(s2 *State) {
			s2.held = append(append([]Held(nil), s2.held...), Held{term: l.S, class: class, mode: 'O'})
			if !x.lockOnly && strings.HasPrefix(l.S, "(fa.") {
				i := strings.Index(l.S, " ")
				obj := Term{S: l.S[i+1 : len(l.S)-1], Sort: SInt}
				for _, m := range x.P.specs.Befores {
					if sanitize(m.Struct)+"."+sanitize(m.Lock) == lockClass(l.S) {
						x.assume(x.monitorEnv(s2, m, obj).boolean(m.C.E))
						x.calledExt["before "+m.Struct+"."+m.Lock+": "+m.C.Label] = true
					}
				}
			}
			f := args[1]
			after := func(s3 *State, _ *Val) {
				for i := len(s3.held) - 1; i >= 0; i-- {
					if s3.held[i].class == class && s3.held[i].mode == 'O' {
						s3.held = append(append([]Held(nil), s3.held[:i]...), s3.held[i+1:]...)
						break
					}
				}
				x.store(s3, h, l, tTrue)
				x.monitorGoals(s3, l, lockClass(l.S), pos)
				k(s3, none)
			}
			if f.Fn == nil {
				panic(unsup("sync.Once.Do of an unknown function"))
			}
			x.callFn(s2, d, in, f.Fn.Fn, nil, f.Fn.Bind, after)
		})
	case "(*sync/atomic.Value).Load", "(*atomic.Value).Load":
		if x.lockOnly {
			return false
		}
		l := x.toTerm(st, args[0])
		h := x.regHeap("G.aval", SInt)
		x.atCall(st, name, args)
		t := x.load(st.heaps, h, l)
		x.typeFacts(t, rt, st.clock)
		k(st, &Val{T: t, Typ: rt})
	case "(*sync/atomic.Value).Store", "(*atomic.Value).Store":
		if x.lockOnly {
			return false
		}
		l := x.toTerm(st, args[0])
		h := x.regHeap("G.aval", SInt)
		x.atCall(st, name, args)
		x.store(st, h, l, x.toTerm(st, args[1]))
		k(st, none)
	case "sync/atomic.AddUint64", "atomic.AddUint64":
		p := args[0]
		if p.K != KLV || x.P.specs.Funcs["atomic.AddUint64"] != nil {
			return false
		}
		cur := x.freshConst("atom", SInt) // whatever other goroutines left there
		x.typeFacts(cur, p.LV.typ, st.clock)
		if x.root(p.LV.idx.S) == "" {
			x.rawStore(st, p.LV.heap, p.LV.idx, cur)
		} else {
			cur = x.load(st.heaps, p.LV.heap, p.LV.idx)
		}
		st.lockAt["atomic"] = st.snapshot()
		nv := x.wrap(tAdd(cur, args[1].T), p.LV.typ)
		x.store(st, p.LV.heap, p.LV.idx, nv)
		k(st, &Val{T: nv, Typ: rt})
	default:
		return false
	}
	return true
}

// ---------- channels ----------

func isSignal(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := c.Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func (x *Exec) chanInit(st *State, r, size Term) {
	x.initCell(st, x.regHeap("G.closed", SBool), r, tFalse)
	x.initCell(st, x.regHeap("G.sent", SB), r, bEmpty)
	x.initCell(st, x.regHeap("G.recvd", SB), r, bEmpty)
	x.initCell(st, x.regHeap("G.emptied", SBool), r, tFalse)
	x.initCell(st, x.regHeap("G.chancap", SInt), r, size)
}

// chanEnv lets other goroutines act: channels may get closed, never reopened.
func (x *Exec) chanEnv(st *State) {
	h := x.regHeap("G.closed", SBool)
	x.havocHeap(st, h)
}

// dataClosed tells whether channels of this type may ever be closed by the program.
func (x *Exec) mayClose(t types.Type) bool {
	c := t.Underlying().(*types.Chan)
	return x.P.closedElem(c.Elem())
}

func (p *Prog) closedElem(e types.Type) bool {
	if !p.repoElem(e) {
		return true
	}
	for _, fn := range p.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var c *ssa.CallCommon
				switch v := in.(type) {
				case *ssa.Call:
					c = v.Common()
				case *ssa.Defer:
					c = v.Common()
				case *ssa.Go:
					c = v.Common()
				}
				if c == nil {
					continue
				}
				if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					if ct, ok := c.Args[0].Type().Underlying().(*types.Chan); ok && types.Identical(ct.Elem(), e) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (p *Prog) repoElem(e types.Type) bool {
	if q, ok := e.Underlying().(*types.Pointer); ok {
		e = q.Elem()
	}
	n, ok := e.(*types.Named)
	return ok && p.isRepoPkg(n.Obj().Pkg())
}

func (x *Exec) chanClose(st *State, ch Term, t types.Type, pos token.Pos) {
	h := x.regHeap("G.closed", SBool)
	x.atCall(st, "close", []*Val{{T: ch, Typ: t}})
	if x.lockOnly {
		return
	}
	x.safe(st, "close of nil channel", pos, tNot(tEq(ch, tInt(0))))
	x.safe(st, "close of closed channel", pos, tNot(x.load(st.heaps, h, ch)))
	x.store(st, h, ch, tTrue)
}

type chCase struct {
	ch   Term
	typ  types.Type
	send bool
	val  Term
}

// commit performs one communication and continues with the received value.
func (x *Exec) commit(st *State, c chCase, pos token.Pos, k func(s2 *State, v *Val, ok Term)) {
	et := c.typ.Underlying().(*types.Chan).Elem()
	closed := func(s *State) Term { return x.load(s.heaps, x.regHeap("G.closed", SBool), c.ch) }
	nonnil := tNot(tEq(c.ch, tInt(0)))
	if c.send {
		x.branch(st, nonnil, "send", func(s2 *State) {
			if !x.lockOnly {
				if x.mayClose(c.typ) {
					x.safe(s2, "send on closed channel", pos, tNot(closed(s2)))
				}
				h := x.regHeap("G.sent", SB)
				x.store(s2, h, c.ch, bCat(x.load(s2.heaps, h, c.ch), bUnit(c.val)))
			}
			k(s2, nil, tTrue)
		})
		return
	}
	if isSignal(c.typ) {
		x.branch(st, tAnd(nonnil, closed(st)), "closed", func(s2 *State) {
			k(s2, x.zero(et), tFalse)
		})
		return
	}
	x.branch(st, nonnil, "recv", func(s2 *State) {
		x.bumpClock(s2)
		v := x.havocVal(s2, "recv", et)
		if _, ok := et.Underlying().(*types.Pointer); ok && x.P.repoElem(et) {
			x.assume(tNot(tEq(v.T, tInt(0)))) // only non-nil values are ever sent (checked at every send)
		}
		if !x.lockOnly {
			for _, m := range x.chaninvs(et) { // checked at every send
				x.assume(x.evalClause(s2, m.C.E, s2.heaps, map[string]*Val{m.Param: tv(v.T, et)}))
			}
		}
		if !x.lockOnly && x.P.sortOf(et) == SInt {
			h := x.regHeap("G.recvd", SB)
			x.store(s2, h, c.ch, bCat(x.load(s2.heaps, h, c.ch), bUnit(v.T)))
			x.store(s2, x.regHeap("G.emptied", SBool), c.ch, tFalse)
		}
		k(s2, v, tTrue)
	})
	if x.mayClose(c.typ) {
		x.branch(st, tAnd(nonnil, closed(st)), "recv from closed", func(s2 *State) {
			k(s2, x.zero(et), tFalse)
		})
	}
}

func (x *Exec) selectStmt(st *State, d int, v *ssa.Select, k func(*State, *Val)) {
	var cs []chCase
	for _, s := range v.States {
		c := chCase{ch: x.val(st, d, s.Chan).T, typ: s.Chan.Type(), send: s.Dir == types.SendOnly}
		if c.send {
			c.val = x.toTerm(st, x.val(st, d, s.Send))
			x.sendCheck(st, c, v.Pos())
		}
		cs = append(cs, c)
	}
	if len(st.held) > 0 && v.Blocking {
		x.addEdge(st.held[len(st.held)-1].class, "channel", x.P.line(v.Pos()))
	}
	if v.Blocking {
		x.atWait(st, cs)
	}
	x.chanEnv(st)
	st.lockAt["select"] = st.snapshot()
	tuple := func(idx int, ok Term, recv *Val) *Val {
		t := &Val{K: KTuple, Fs: []*Val{{T: tInt(int64(idx)), Typ: types.Typ[types.Int]}, {T: ok, Typ: types.Typ[types.Bool]}}}
		n := 0
		for i, s := range v.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			n++
			if i == idx && recv != nil {
				t.Fs = append(t.Fs, recv)
			} else {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				t.Fs = append(t.Fs, x.zero(et))
			}
		}
		return t
	}
	for i, c := range cs {
		i, c := i, c
		s1 := st.clone()
		x.commit(s1, c, v.Pos(), func(s2 *State, r *Val, ok Term) {
			s2.trail = append(s2.trail, fmt.Sprintf("case %d", i))
			k(s2, tuple(i, ok, r))
		})
	}
	if !v.Blocking {
		// no case was ready
		conds := []Term{}
		for _, c := range cs {
			if !c.send && isSignal(c.typ) {
				conds = append(conds, tOr(tEq(c.ch, tInt(0)), tNot(x.load(st.heaps, x.regHeap("G.closed", SBool), c.ch))))
			}
		}
		x.branch(st, tAnd(conds...), "default", func(s2 *State) {
			for _, c := range cs {
				if !c.send && !isSignal(c.typ) && !x.lockOnly {
					x.store(s2, x.regHeap("G.emptied", SBool), c.ch, tTrue)
				}
			}
			k(s2, tuple(-1, tFalse, nil))
		})
	}
}

// sendCheck establishes the channel invariant used at receives.
func (x *Exec) sendCheck(st *State, c chCase, pos token.Pos) {
	et := c.typ.Underlying().(*types.Chan).Elem()
	x.atCall(st, "send", []*Val{{T: c.ch, Typ: c.typ}, {T: c.val, Typ: et}})
	if !x.lockOnly {
		for _, m := range x.chaninvs(et) {
			x.goal(st, "channel", "sent: "+m.C.Label, x.P.line(pos), x.evalClause(st, m.C.E, st.heaps, map[string]*Val{m.Param: tv(c.val, et)}))
		}
	}
	if _, ok := et.Underlying().(*types.Pointer); ok && x.P.repoElem(et) && !x.lockOnly {
		f := tNot(tEq(c.val, tInt(0)))
		if x.root(c.val.S) != "" || strings.HasPrefix(c.val.S, "(elem ") {
			return
		}
		x.goal(st, "channel", "only non-nil values are sent", x.P.line(pos), f)
	}
}

// chaninvs are the invariants of the values of type et sent over channels.
func (x *Exec) chaninvs(et types.Type) (ms []*Monitor) {
	for _, m := range x.P.specs.Chaninvs {
		if "*"+strings.TrimPrefix(m.Struct, "*") == types.TypeString(et, func(p *types.Package) string { return p.Name() }) {
			ms = append(ms, m)
		}
	}
	return
}

func (x *Exec) recv(st *State, d int, v *ssa.UnOp, k func(*State, *Val)) {
	c := chCase{ch: x.val(st, d, v.X).T, typ: v.X.Type()}
	x.atWait(st, []chCase{c})
	x.chanEnv(st)
	x.commit(st, c, v.Pos(), func(s2 *State, r *Val, ok Term) {
		if v.CommaOk {
			k(s2, &Val{K: KTuple, Fs: []*Val{r, {T: ok, Typ: types.Typ[types.Bool]}}})
			return
		}
		k(s2, r)
	})
}

func (x *Exec) chanSend(st *State, ch Term, val Term, typ types.Type, pos token.Pos) {
	c := chCase{ch: ch, typ: typ, send: true, val: val}
	x.atWait(st, nil)
	x.sendCheck(st, c, pos)
	if x.lockOnly {
		return
	}
	if x.mayClose(typ) {
		x.safe(st, "send on closed channel", pos, tNot(x.load(st.heaps, x.regHeap("G.closed", SBool), ch)))
	}
	h := x.regHeap("G.sent", SB)
	x.store(st, h, ch, bCat(x.load(st.heaps, h, ch), bUnit(val)))
}

// ---------- whole-program lock analysis ----------

type lockInfo struct {
	handler map[*ssa.Function]string          // may call user code
	acq     map[*ssa.Function]map[string]bool // lock classes possibly acquired
	writes  map[*ssa.Function]map[string]bool // field heaps possibly written on pre-existing objects
	any     map[string]bool                   // union of writes
	order   []*ssa.Function
	relev   map[*ssa.Function]bool // touches locks, guarded fields or user code
	static  map[*ssa.Function]int  // number of static in-package call sites
	escapes map[*ssa.Function]bool // used as a value, goroutine or exported entry
}

func lockOps(name string) bool {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(*sync.Once).Do",
		"(engine.Barrier).Pause", "(engine.Barrier).Resume", "(engine.Barrier).Wait":
		return true
	}
	return false
}

// staticLockClass derives the lock class of a lock operand from the code.
func (p *Prog) staticLockClass(v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		t := fa.X.Type().Underlying().(*types.Pointer).Elem()
		return p.structKey(t) + "." + sanitize(t.Underlying().(*types.Struct).Field(fa.Field).Name())
	}
	return "lock"
}

func (p *Prog) isHandlerName(names []string) bool {
	for _, n := range names {
		if s, ok := p.specs.Funcs[n]; ok && s.Flags["handler"] {
			return true
		}
	}
	return false
}

func (p *Prog) repoIface(n string) bool {
	return strings.HasPrefix(n, "(engine.") || strings.HasPrefix(n, "(socketio.")
}

func (p *Prog) analyseLocks() {
	li := &lockInfo{handler: map[*ssa.Function]string{}, acq: map[*ssa.Function]map[string]bool{}, writes: map[*ssa.Function]map[string]bool{},
		any: map[string]bool{}, relev: map[*ssa.Function]bool{}, static: map[*ssa.Function]int{}, escapes: map[*ssa.Function]bool{}}
	p.locks = li
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || len(fn.Blocks) == 0 {
			return
		}
		seen[fn] = true
		fns = append(fns, fn)
	}
	// the types that ever become interface values
	p.boxed = map[string]bool{}
	for _, fn := range p.all {
		add(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					p.boxed[mi.X.Type().String()] = true
				}
			}
		}
	}
	addSet := func(m map[*ssa.Function]map[string]bool, f *ssa.Function, s string) {
		if m[f] == nil {
			m[f] = map[string]bool{}
		}
		m[f][s] = true
	}
	for i := 0; i < len(fns); i++ {
		fn := fns[i]
		calls[fn] = map[*ssa.Function]bool{}
		if fn.Object() != nil && fn.Object().Exported() || fn.Name() == "init" {
			li.escapes[fn] = true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				// functions used as values
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
						isCallee := false
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == *op {
							isCallee = true
							if _, g := in.(*ssa.Go); g {
								li.escapes[f] = true
							}
						}
						if !isCallee {
							if _, mc := in.(*ssa.MakeClosure); !mc {
								li.escapes[f] = true
							}
						}
					}
				}
				switch v := in.(type) {
				case *ssa.MakeClosure:
					cf := v.Fn.(*ssa.Function)
					add(cf)
					// a closure run by sync.Once.Do or deferred is part of this function
					local := true
					for _, r := range *v.Referrers() {
						switch c := r.(type) {
						case ssa.CallInstruction:
							if _, g := c.(*ssa.Go); g {
								local = false
							} else if c.Common().Value == ssa.Value(v) {
							} else if f := c.Common().StaticCallee(); f != nil && trimPkg(f.String()) == "(*sync.Once).Do" {
							} else {
								local = false
							}
						default:
							local = false
						}
					}
					if local {
						calls[fn][cf] = true
						li.static[cf]++
					} else {
						li.escapes[cf] = true
					}
				case *ssa.Store:
					if fa, ok := v.Addr.(*ssa.FieldAddr); ok {
						if _, isAlloc := fa.X.(*ssa.Alloc); !isAlloc {
							t := fa.X.Type().Underlying().(*types.Pointer).Elem()
							addSet(li.writes, fn, "F."+p.structKey(t)+"."+sanitize(t.Underlying().(*types.Struct).Field(fa.Field).Name()))
						}
					}
				case *ssa.FieldAddr:
					t := v.X.Type().Underlying().(*types.Pointer).Elem()
					if g := p.guardFor(p.structKey(t), t.Underlying().(*types.Struct).Field(v.Field).Name()); g != nil {
						li.relev[fn] = true
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				_, isGo := in.(*ssa.Go)
				cc := c.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				if cc.IsInvoke() {
					names := []string{"(" + typeName(cc.Value.Type()) + ")." + cc.Method.Name(), trimPkg(cc.Method.FullName())}
					for _, n := range names {
						if lockOps(n) {
							li.relev[fn] = true
							if n != "(engine.Barrier).Resume" {
								addSet(li.acq, fn, "engine.Barrier")
							}
						}
					}
					if p.isHandlerName(names) && !isGo {
						li.handler[fn] = names[0]
						li.relev[fn] = true
					}
					// class hierarchy: repo implementations
					if p.repoIface(names[0]) && !lockOps(names[0]) && !isGo {
						for _, f := range p.implementations(cc) {
							add(f)
							calls[fn][f] = true
						}
					}
					continue
				}
				if f := cc.StaticCallee(); f != nil {
					n := trimPkg(f.String())
					if lockOps(n) {
						li.relev[fn] = true
						if !strings.HasSuffix(n, "nlock") && len(cc.Args) > 0 {
							cl := p.staticLockClass(cc.Args[0])
							if strings.Contains(n, "Once") {
								cl = "once:" + cl
							}
							addSet(li.acq, fn, cl)
						}
						continue
					}
					if p.isHandlerName([]string{n}) && !isGo {
						li.handler[fn] = n
						li.relev[fn] = true
					}
					if len(f.Blocks) > 0 {
						add(f)
						if !isGo {
							calls[fn][f] = true
							li.static[f]++
						}
					}
					continue
				}
				if !isGo {
					if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
						_ = mc
						continue
					}
					li.handler[fn] = "dyn:" + sigName(cc.Signature())
					li.relev[fn] = true
				}
			}
		}
	}
	li.order = fns
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			for c := range calls[fn] {
				if h, ok := li.handler[c]; ok {
					if _, has := li.handler[fn]; !has {
						li.handler[fn] = trimPkg(c.String()) + " -> " + h
						changed = true
					}
				}
				for s := range li.acq[c] {
					if !li.acq[fn][s] {
						addSet(li.acq, fn, s)
						changed = true
					}
				}
				for s := range li.writes[c] {
					if !li.writes[fn][s] {
						addSet(li.writes, fn, s)
						changed = true
					}
				}
				if li.relev[c] && !li.relev[fn] {
					li.relev[fn] = true
					changed = true
				}
			}
		}
	}
	for _, w := range li.writes {
		for s := range w {
			li.any[s] = true
		}
	}
}

// implementations finds the repository methods an interface call may reach.
func (p *Prog) implementations(cc *ssa.CallCommon) []*ssa.Function {
	iface, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, q := range p.pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if p.boxed[t.String()] && types.Implements(t, iface) {
					if f := p.ssa.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); f != nil {
						out = append(out, f)
					}
					break
				}
			}
		}
	}
	return out
}

// havocWrites forgets fields that the callee may write (nil: any function of the repository).
func (x *Exec) havocWrites(st *State, fn *ssa.Function) {
	set := x.P.locks.any
	if fn != nil {
		set = x.P.locks.writes[fn]
	}
	for _, h := range sortedKeys(set) {
		if _, ok := x.hsorts[h]; ok {
			x.havocHeap(st, h)
		}
	}
}

// lockCall is a call in lock-discipline mode.
func (x *Exec) lockCall(st *State, d int, in ssa.Instruction, fn *ssa.Function, args, bind []*Val, rt types.Type, k func(*State, *Val)) {
	name := trimPkg(fn.String())
	x.heldAt(st, name, in)
	if sp, ok := x.P.specs.Funcs[name]; ok && sp.Flags["handler"] {
		x.lockGoal(st, "user code ("+name+") is called with no lock held", in.Pos(), len(st.held) == 0, heldNames(st))
	}
	_, once := in.(*ssa.Call)
	_ = once
	isClosure := len(fn.FreeVars) > 0 || strings.Contains(fn.Name(), "$")
	if fn.Synthetic != "" || isClosure || x.inlineSet[name] {
		rec := false
		for _, f := range st.frames {
			if f.fn == fn {
				rec = true
			}
		}
		if !rec {
			x.inlineCall(st, d, in, fn, args, bind, rt, k)
			return
		}
	}
	x.calleeEffects(st, fn, name, in)
	x.havocWrites(st, fn)
	k(st, x.havocResult(st, name, rt))
}

// lockCycles finds cycles in the lock order.
func (p *Prog) lockCycles() []string {
	var out []string
	color := map[string]int{}
	var stack []string
	var nodes []string
	for n := range p.edges {
		nodes = append(nodes, n)
	}
	sort.Strings(nodes)
	var dfs func(n string)
	dfs = func(n string) {
		color[n] = 1
		stack = append(stack, n)
		var ns []string
		for m := range p.edges[n] {
			ns = append(ns, m)
		}
		sort.Strings(ns)
		for _, m := range ns {
			if color[m] == 1 {
				i := 0
				for stack[i] != m {
					i++
				}
				out = append(out, strings.Join(append(append([]string(nil), stack[i:]...), m), " -> ")+" (at "+p.edges[n][m]+")")
			} else if color[m] == 0 {
				dfs(m)
			}
		}
		stack = stack[:len(stack)-1]
		color[n] = 2
	}
	for _, n := range nodes {
		if color[n] == 0 {
			dfs(n)
		}
	}
	return out
}
