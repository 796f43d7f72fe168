package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	probe  bool
	onBack func(st *State, vals []*Val)
}

// loopsOf finds the natural loops of a function.
func (p *Prog) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.loops[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := out[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = li
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.body[n] {
						continue
					}
					li.body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	p.loops[fn] = out
	return out
}

type modInfo struct {
	all  bool
	idxs []Term
	seen map[string]bool
}

// stable expands a term until it only mentions symbols that existed at counter
// value limit; it reports whether that is possible.
func (x *Exec) stable(t string, limit int, depth int) (string, bool) {
	if depth > 30 {
		return "", false
	}
	ok := true
	out := symRe.ReplaceAllStringFunc(t, func(s string) string {
		i := strings.LastIndex(s, "!")
		if i < 0 {
			return s
		}
		n, err := strconv.Atoi(s[i+1:])
		if err != nil || n <= limit {
			return s
		}
		if d, has := x.defs[s]; has {
			e, k := x.stable(d, limit, depth+1)
			if !k {
				ok = false
			}
			return e
		}
		if hv, has := x.hvers[s]; has && hv.init {
			e, k := x.stable(hv.parent, limit, depth+1)
			if !k {
				ok = false
			}
			return e
		}
		ok = false
		return s
	})
	return out, ok
}

func (x *Exec) addMod(mods map[string]*modInfo, w *wrec, limit int) bool {
	m := mods[w.heap]
	if m == nil {
		m = &modInfo{seen: map[string]bool{}}
		mods[w.heap] = m
	}
	if m.all {
		return false
	}
	if w.all {
		m.all = true
		return true
	}
	if r := x.root(w.idx.S); r != "" {
		if n, err := strconv.Atoi(r[strings.LastIndex(r, "!")+1:]); err == nil && n > limit {
			return false // object allocated by this iteration
		}
	}
	s, ok := x.stable(w.idx.S, limit, 0)
	if !ok {
		m.all = true
		return true
	}
	if m.seen[s] {
		return false
	}
	m.seen[s] = true
	t := Term{S: s, Sort: SInt}
	if n, ok := parseIntTerm(s); ok {
		t.C = n
	}
	m.idxs = append(m.idxs, t)
	return true
}

// cand is one instantiated loop-invariant candidate.
type cand struct {
	label string
	eval  func(st *State, vals []*Val) (Term, bool)
	user  bool
}

func (x *Exec) safeEval(f func() Term) (t Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, specErr:
				ok = false
				return
			}
			panic(r)
		}
	}()
	return f(), true
}

// shortLoop reports whether a loop counts from one constant to another in at
// most eight steps, with no branch in its body: it is run step by step, exactly.
func shortLoop(header *ssa.BasicBlock, info *loopInfo, phis []*ssa.Phi, vals []*Val) bool {
	iff, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != header || !info.body[header.Succs[0]] || info.body[header.Succs[1]] {
		return false
	}
	bound, ok := constInt(cmp.Y)
	if !ok {
		return false
	}
	for b := range info.body {
		if b == header {
			continue
		}
		for _, s := range b.Succs {
			if !info.body[s] || (s != header && s.Dominates(b)) {
				return false // leaves the loop elsewhere, or has a loop in it
			}
		}
		if _, br := b.Instrs[len(b.Instrs)-1].(*ssa.If); br {
			return false
		}
	}
	// the value compared: the counter, or the counter and a constant
	step := func(v ssa.Value, phi *ssa.Phi) (int64, bool) {
		if v == phi {
			return 0, true
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || b.X != phi {
			return 0, false
		}
		c, ok := constInt(b.Y)
		switch {
		case !ok:
			return 0, false
		case b.Op == token.ADD:
			return c, true
		case b.Op == token.SUB:
			return -c, true
		}
		return 0, false
	}
	for i, phi := range phis {
		off, ok := step(cmp.X, phi)
		if !ok || vals[i].K != KTerm || vals[i].T.C == nil || !vals[i].T.C.IsInt64() {
			continue
		}
		var inc int64
		for j, p := range header.Preds {
			if !info.body[p] {
				continue
			}
			c, ok := step(phi.Edges[j], phi)
			if !ok || c == 0 || inc != 0 && inc != c {
				return false
			}
			inc = c
		}
		v := vals[i].T.C.Int64()
		if inc == 0 || v < -1<<20 || v > 1<<20 || inc < -1<<20 || inc > 1<<20 || off < -1<<20 || off > 1<<20 {
			return false
		}
		for n := 0; n <= 8; n++ {
			c := v + off
			var in bool
			switch cmp.Op {
			case token.LSS:
				in = c < bound
			case token.LEQ:
				in = c <= bound
			case token.GTR:
				in = c > bound
			case token.GEQ:
				in = c >= bound
			case token.NEQ:
				in = c != bound
			default:
				return false
			}
			if !in {
				return true
			}
			v += inc
		}
	}
	return false
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func (x *Exec) enterLoop(st *State, d int, header *ssa.BasicBlock, info *loopInfo, phis []*ssa.Phi, vals []*Val, k cont) {
	if shortLoop(header, info, phis, vals) {
		ctx := &loopCtx{header: header, body: info.body}
		turns := 0
		ctx.onBack = func(s3 *State, vs []*Val) {
			if turns++; turns > 8 {
				panic(unsup("short loop runs on"))
			}
			for i, p := range phis {
				s3.frames[d].env[p] = vs[i]
			}
			x.runBlock(s3, d, header, len(phis), k)
		}
		for i, p := range phis {
			st.frames[d].env[p] = vals[i]
		}
		st.frames[d].loops = append(st.frames[d].loops, ctx)
		x.runBlock(st, d, header, len(phis), k)
		return
	}
	limit := x.ctr
	entry := st.clone()
	mods := map[string]*modInfo{}
	lockMods := map[string]bool{}
	mkState := func(base *State) (*State, []*Val) {
		s2 := base.clone()
		c := x.freshConst("clk", SInt)
		x.assume(tLe(base.clock, c))
		s2.clock = c
		var hs []string
		for h := range mods {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		for _, h := range hs {
			m := mods[h]
			if m.all {
				x.havocHeap(s2, h)
				continue
			}
			for _, ix := range m.idxs {
				x.redeclare(ix.S)
				f := x.freshConst("lv."+h, x.heapSort(h))
				x.rawStore(s2, h, ix, f)
				if h == "M.iface" && f.Sort == SB { // only values that exist are in the array
					x.s.send(fmt.Sprintf("(assert (forall ((k Int)) (! (<= (birth (bidx %s k)) %s) :pattern ((bidx %s k)))))", f.S, s2.clock.S, f.S))
					x.s.send(fmt.Sprintf("(assert (forall ((k Int)) (! (<= (birth (unboxi (bidx %s k))) %s) :pattern ((unboxi (bidx %s k))))))", f.S, s2.clock.S, f.S))
				}
				if strings.HasPrefix(h, "Mv.") && strings.HasSuffix(f.Sort, " "+SSl+")") { // only slices that exist are in the map
					e := "(select " + f.S + " k)"
					ks := strings.TrimSuffix(strings.TrimPrefix(f.Sort, "(Array "), " "+SSl+")")
					x.s.send(fmt.Sprintf("(assert (forall ((k %s)) (! (and (<= 0 (slbase %s)) (<= 0 (sloff %s)) (<= 0 (sllen %s)) (<= (sllen %s) (slcap %s)) (<= (birth (slbase %s)) %s)) :pattern (%s))))", ks, e, e, e, e, e, e, s2.clock.S, e))
				}
			}
		}
		for c := range lockMods {
			delete(s2.lockAt, c)
			delete(s2.unlocks, c)
		}
		var pv []*Val
		for i, p := range phis {
			if vals[i].K == KFunc || vals[i].K == KIter || vals[i].K == KLV {
				pv = append(pv, vals[i])
				continue
			}
			v := x.havocVal(s2, "phi."+p.Comment, p.Type())
			pv = append(pv, v)
			s2.frames[d].env[p] = v
		}
		for i, p := range phis {
			s2.frames[d].env[p] = pv[i]
		}
		return s2, pv
	}
	checkSame := func(vs []*Val) {
		for i, v := range vals {
			if v.K == KFunc || v.K == KIter || v.K == KLV {
				if vs[i] != v && !(v.K == KFunc && vs[i].K == KFunc && vs[i].Fn == v.Fn) {
					panic(unsup("loop-carried function or address value"))
				}
			}
		}
	}
	// 1. what does the body modify?
	for iter := 0; iter < 6; iter++ {
		changed := false
		x.s.push()
		x.probe++
		s2, _ := mkState(st)
		mark := s2.wlog
		held := append([]Held(nil), s2.held...)
		ctx := &loopCtx{header: header, body: info.body, probe: true}
		ctx.onBack = func(s3 *State, vs []*Val) {
			checkSame(vs)
			for w := s3.wlog; w != mark && w != nil; w = w.prev {
				if x.addMod(mods, w, limit) {
					changed = true
				}
			}
			for c := range s3.lockAt {
				if _, had := s2.lockAt[c]; !had || !sameSnap(s2.lockAt[c], s3.lockAt[c]) {
					if !lockMods[c] {
						lockMods[c] = true
						changed = true
					}
				}
			}
			_ = held
		}
		s2.frames[d].loops = append(s2.frames[d].loops, ctx)
		x.runBlock(s2, d, header, len(phis), nil)
		x.probe--
		x.s.pop()
		if !changed {
			break
		}
		if iter == 5 {
			panic(unsup("loop modification set does not stabilise"))
		}
	}
	// 2. candidates that hold on entry
	cands := x.candidates(entry, d, header, info, phis, vals, mods)
	ev := func(c *cand, s *State, vs []*Val) (Term, bool) {
		var t Term
		ok := true
		r, ok2 := x.safeEval(func() Term {
			var o bool
			t, o = c.eval(s, vs)
			ok = o
			return t
		})
		_ = r
		return t, ok && ok2
	}
	phase := "on entry"
	filter := func(cs []*cand, s *State, vs []*Val) []*cand {
		var ts []Term
		var keep []*cand
		for _, c := range cs {
			t, ok := ev(c, s, vs)
			if ok {
				keep = append(keep, c)
				ts = append(ts, t)
			}
		}
		// all at once first
		if ok, _ := x.prove(tAnd(ts...), false); ok {
			return keep
		}
		var out []*cand
		for i, c := range keep {
			if ok, _ := x.prove(ts[i], false); ok {
				out = append(out, c)
			} else if c.user && x.effort > 0 && x.proveQuick(ts[i]) {
				out = append(out, c)
			} else if x.P.verbose > 1 {
				fmt.Printf("  loop %s:%d dropped %s %s\n", header.Parent().Name(), header.Index, phase, c.label)
			}
		}
		return out
	}
	cands = filter(cands, entry, vals)
	phase = "in an iteration"
	// 3. Houdini
	for iter := 0; iter < 12 && len(cands) > 0; iter++ {
		n0 := len(cands)
		x.s.push()
		x.probe++
		s2, pv := mkState(st)
		for _, c := range cands {
			if t, ok := ev(c, s2, pv); ok {
				x.assume(t)
			}
		}
		ctx := &loopCtx{header: header, body: info.body, probe: true}
		ctx.onBack = func(s3 *State, vs []*Val) { cands = filter(cands, s3, vs) }
		s2.frames[d].loops = append(s2.frames[d].loops, ctx)
		x.runBlock(s2, d, header, len(phis), nil)
		x.probe--
		x.s.pop()
		if len(cands) == n0 {
			break
		}
		if iter == 11 {
			cands = nil // no fixpoint: no invariant
		}
	}
	if x.P.verbose > 0 && x.probe == 0 {
		var ls []string
		for _, c := range cands {
			ls = append(ls, c.label)
		}
		var ms []string
		for h, m := range mods {
			if m.all {
				ms = append(ms, h+"[*]")
			} else if len(m.idxs) > 0 {
				ms = append(ms, fmt.Sprintf("%s%v", h, len(m.idxs)))
			}
		}
		sort.Strings(ms)
		fmt.Printf("  loop %s:%d modifies %v invariant: %s\n", header.Parent().Name(), header.Index, ms, strings.Join(ls, "; "))
	}
	// 4. the real pass
	s2, pv := mkState(st)
	for _, c := range cands {
		if t, ok := ev(c, s2, pv); ok {
			x.assume(t)
		}
	}
	held := append([]Held(nil), s2.held...)
	ctx := &loopCtx{header: header, body: info.body}
	ctx.onBack = func(s3 *State, vs []*Val) {
		checkSame(vs)
		if !sameHeld(held, s3.held) {
			x.lockGoal(s3, "lock set changes across a loop iteration", header.Instrs[0].Pos(), false)
		}
		x.paths++
	}
	if x.probe > 0 {
		// nested inside an outer probe: the iteration itself still matters only through its exits
		ctx.onBack = func(s3 *State, vs []*Val) {}
	}
	s2.frames[d].loops = append(s2.frames[d].loops, ctx)
	x.runBlock(s2, d, header, len(phis), k)
}

func sameHeld(a, b []Held) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameSnap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// evalOutside computes a value that does not depend on the loop's iteration.
func (x *Exec) evalOutside(st *State, d int, info *loopInfo, v ssa.Value, depth int) (r *Val, ok bool) {
	if depth > 6 {
		return nil, false
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c), true
	case *ssa.Global, *ssa.Function:
		return nil, false
	}
	if in, isIn := v.(ssa.Instruction); !isIn || !info.body[in.Block()] {
		r, ok := st.frames[d].env[v]
		return r, ok
	}
	switch c := v.(type) {
	case *ssa.Call:
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a, ok := x.evalOutside(st, d, info, c.Call.Args[0], depth+1)
			if !ok || a.K != KTerm {
				return nil, false
			}
			switch a.T.Sort {
			case SSl:
				return &Val{T: slLen(a.T), Typ: c.Type()}, true
			case SB:
				return &Val{T: bLen(a.T), Typ: c.Type()}, true
			}
		}
	case *ssa.UnOp:
		if c.Op == token.MUL {
			if fa, ok := c.X.(*ssa.FieldAddr); ok {
				p, ok := x.evalOutside(st, d, info, fa.X, depth+1)
				if !ok {
					return nil, false
				}
				a := x.fieldAddr(fa.X.Type().Underlying().(*types.Pointer).Elem(), x.toTerm(st, p), fa.Field)
				if a.K == KLV {
					return x.loadLV(st, a.LV), true
				}
			} else {
				p, ok := x.evalOutside(st, d, info, c.X, depth+1)
				if ok && p.K == KLV {
					return x.loadLV(st, p.LV), true
				}
			}
		}
	case *ssa.BinOp:
		a, ok1 := x.evalOutside(st, d, info, c.X, depth+1)
		b, ok2 := x.evalOutside(st, d, info, c.Y, depth+1)
		if ok1 && ok2 && a.T.Sort == SInt && b.T.Sort == SInt {
			switch c.Op {
			case token.ADD:
				return &Val{T: tAdd(a.T, b.T), Typ: c.Type()}, true
			case token.SUB:
				return &Val{T: tSub(a.T, b.T), Typ: c.Type()}, true
			}
		}
	case *ssa.Convert:
		a, ok := x.evalOutside(st, d, info, c.X, depth+1)
		if ok && isInteger(c.X.Type()) && isInteger(c.Type()) {
			return a, true
		}
	}
	return nil, false
}

type pvar struct {
	name  string
	typ   types.Type
	sort  string
	get   func(st *State, vals []*Val) Term
	entry Term
	src   ssa.Value
}

func (x *Exec) candidates(entry *State, d int, header *ssa.BasicBlock, info *loopInfo, phis []*ssa.Phi, vals []*Val, mods map[string]*modInfo) []*cand {
	var out []*cand
	add := func(label string, f func(st *State, vs []*Val) Term) {
		out = append(out, &cand{label: label, eval: func(st *State, vs []*Val) (Term, bool) { return f(st, vs), true }})
	}
	var pvs []*pvar
	for i, p := range phis {
		if vals[i].K != KTerm {
			continue
		}
		i := i
		pvs = append(pvs, &pvar{name: "%" + p.Name() + ":" + p.Comment, typ: p.Type(), sort: vals[i].T.Sort, src: p,
			get: func(_ *State, vs []*Val) Term { return vs[i].T }, entry: vals[i].T})
	}
	var hs []string
	for h := range mods {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		m := mods[h]
		if m.all {
			continue
		}
		for _, ix := range m.idxs {
			h, ix := h, ix
			x.redeclare(ix.S)
			s := x.heapSort(h)
			if strings.HasPrefix(s, "(Array") {
				continue
			}
			var typ types.Type
			if s == SSl {
				typ = x.P.heapType[h]
			}
			pvs = append(pvs, &pvar{name: h + "[" + ix.S + "]", sort: s, typ: typ,
				get: func(st *State, _ []*Val) Term { return x.load(st.heaps, h, ix) }, entry: x.load(entry.heaps, h, ix)})
		}
	}
	clk0 := entry.clock
	var ints, sls []*pvar
	for _, v := range pvs {
		v := v
		switch v.sort {
		case SInt:
			isI := v.typ == nil || isInteger(v.typ)
			if v.typ == nil && !strings.HasPrefix(v.name, "F.") && !strings.HasPrefix(v.name, "C.") {
				isI = false
			}
			if isI {
				ints = append(ints, v)
				add(v.name+">=entry", func(st *State, vs []*Val) Term { return tLe(v.entry, v.get(st, vs)) })
				add(v.name+"<=entry", func(st *State, vs []*Val) Term { return tLe(v.get(st, vs), v.entry) })
				add(v.name+">=0", func(st *State, vs []*Val) Term { return tLe(tInt(0), v.get(st, vs)) })
				add(v.name+">=-1", func(st *State, vs []*Val) Term { return tLe(tInt(-1), v.get(st, vs)) })
			} else {
				add(v.name+"==entry", func(st *State, vs []*Val) Term { return tEq(v.get(st, vs), v.entry) })
				add(v.name+"!=0", func(st *State, vs []*Val) Term { return tNot(tEq(v.get(st, vs), tInt(0))) })
			}
		case SBool, SB:
			add(v.name+"==entry", func(st *State, vs []*Val) Term { return tEq(v.get(st, vs), v.entry) })
		case SSl:
			sls = append(sls, v)
			add(v.name+" fresh", func(st *State, vs []*Val) Term {
				b := slBase(v.get(st, vs))
				return tLt(tInt(0), mk(SInt, "birth", b))
			})
			add(v.name+" fresh or empty", func(st *State, vs []*Val) Term {
				b := slBase(v.get(st, vs))
				return tOr(tLt(tInt(0), mk(SInt, "birth", b)), tAnd(tEq(b, tInt(0)), tEq(slLen(v.get(st, vs)), tInt(0))))
			})
			add(v.name+" newer than loop or entry", func(st *State, vs []*Val) Term {
				b := slBase(v.get(st, vs))
				return tOr(tLt(clk0, mk(SInt, "birth", b)), tEq(b, slBase(v.entry)))
			})
			add(v.name+".base==entry", func(st *State, vs []*Val) Term { return tEq(slBase(v.get(st, vs)), slBase(v.entry)) })
			add(v.name+".off==entry", func(st *State, vs []*Val) Term { return tEq(slOff(v.get(st, vs)), slOff(v.entry)) })
			add(v.name+".len>=entry", func(st *State, vs []*Val) Term { return tLe(slLen(v.entry), slLen(v.get(st, vs))) })
			add(v.name+".len==entry", func(st *State, vs []*Val) Term { return tEq(slLen(v.get(st, vs)), slLen(v.entry)) })
			add(v.name+".off==0", func(st *State, vs []*Val) Term { return tEq(slOff(v.get(st, vs)), tInt(0)) })
		}
	}
	// bounds from comparisons inside the loop
	seen := map[string]bool{}
	var bounds []Term
	var blocks []*ssa.BasicBlock
	for b := range info.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			if !isInteger(bo.X.Type()) {
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				r, ok := x.evalOutside(entry, d, info, o, 0)
				if !ok || r.K != KTerm || r.T.Sort != SInt || seen[r.T.S] {
					continue
				}
				seen[r.T.S] = true
				bounds = append(bounds, r.T)
			}
		}
	}
	// lengths of slices indexed in the loop
	for _, b := range blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if r, ok := x.evalOutside(entry, d, info, ia.X, 0); ok && r.K == KTerm && r.T.Sort == SSl {
				l := slLen(r.T)
				if !seen[l.S] {
					seen[l.S] = true
					bounds = append(bounds, l)
				}
			}
		}
	}
	if len(bounds) > 8 {
		bounds = bounds[:8]
	}
	for _, v := range ints {
		v := v
		for _, b := range bounds {
			b := b
			if b.C != nil && b.C.Sign() == 0 {
				continue
			}
			add(v.name+"<="+clip(b.S, 40), func(st *State, vs []*Val) Term { return tLe(v.get(st, vs), b) })
			add(v.name+"<"+clip(b.S, 40), func(st *State, vs []*Val) Term { return tLt(v.get(st, vs), b) })
			add(v.name+">="+clip(b.S, 40), func(st *State, vs []*Val) Term { return tLe(b, v.get(st, vs)) })
		}
	}
	// lock-step pairs
	for i, v := range ints {
		for _, w := range ints[i+1:] {
			v, w := v, w
			add(v.name+"~"+w.name, func(st *State, vs []*Val) Term {
				return tEq(tSub(v.get(st, vs), v.entry), tSub(w.get(st, vs), w.entry))
			})
			add(v.name+"~-"+w.name, func(st *State, vs []*Val) Term {
				return tEq(tAdd(tSub(v.get(st, vs), v.entry), tSub(w.get(st, vs), w.entry)), tInt(0))
			})
		}
	}
	for _, s := range sls {
		for _, i := range ints {
			s, i := s, i
			add("len "+s.name+"~"+i.name, func(st *State, vs []*Val) Term {
				return tEq(tSub(slLen(s.get(st, vs)), slLen(s.entry)), tSub(i.get(st, vs), i.entry))
			})
			add("len "+s.name+"~-"+i.name, func(st *State, vs []*Val) Term {
				return tEq(tAdd(tSub(slLen(s.get(st, vs)), slLen(s.entry)), tSub(i.get(st, vs), i.entry)), tInt(0))
			})
		}
	}
	// frames for wholly havocked heaps
	for _, h := range hs {
		if !mods[h].all {
			continue
		}
		h := h
		e0 := x.cur(entry.heaps, h)
		frame := func(cond func(r string) string) func(st *State, vs []*Val) Term {
			return func(st *State, vs []*Val) Term {
				c := x.cur(st.heaps, h)
				if c == e0 {
					return tTrue
				}
				return Term{S: fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", cond("r"), c, e0, c), Sort: SBool}
			}
		}
		add("frame old "+h, frame(func(r string) string { return "(<= (birth r) 0)" }))
		add("frame pre "+h, frame(func(r string) string { return "(<= (birth r) " + clk0.S + ")" }))
		for _, s := range sls {
			b := slBase(s.entry)
			if b.C != nil {
				continue
			}
			if strings.HasPrefix(h, "M.") {
				add("frame except "+s.name+" "+h, frame(func(r string) string {
					return "(and (<= (birth r) " + clk0.S + ") (not (= r " + b.S + ")))"
				}))
			} else {
				add("frame except elems "+s.name+" "+h, frame(func(r string) string {
					return "(and (<= (birth r) " + clk0.S + ") (not (= (elembase r) " + b.S + ")))"
				}))
			}
		}
	}
	// templates from the contract
	specs := []*Spec{x.spec}
	if sp := entry.frames[d].spec; sp != nil && sp != x.spec {
		specs = append(specs, sp)
	}
	for _, sp := range specs {
		for _, c := range sp.Cands {
			out = append(out, x.instCand(sp, c, entry, d, info, phis, pvs)...)
		}
	}
	return out
}

// instCand instantiates a template over the variables of the loop.
func (x *Exec) instCand(sp *Spec, c *Cand, entry *State, d int, info *loopInfo, phis []*ssa.Phi, pvs []*pvar) []*cand {
	var out []*cand
	// values usable for a template variable
	type choice struct {
		name string
		typ  types.Type
		get  func(st *State, vs []*Val) *Val
		vary bool // changes from one iteration to the next
	}
	var pool []choice
	for _, p := range pvs {
		p := p
		pool = append(pool, choice{p.name, p.typ, func(st *State, vs []*Val) *Val { return &Val{T: p.get(st, vs), Typ: p.typ} }, true})
	}
	seen := map[ssa.Value]bool{}
	var blocks []*ssa.BasicBlock
	for b := range info.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || seen[v] {
					continue
				}
				if _, isC := v.(*ssa.Const); isC {
					continue
				}
				if iv, ok := v.(ssa.Instruction); ok && info.body[iv.Block()] {
					continue
				}
				r, ok := entry.frames[d].env[v]
				if !ok || (r.K != KTerm && r.K != KLV && r.K != KIter) {
					continue
				}
				seen[v] = true
				if r.K == KLV && !r.LV.seq {
					lv := r.LV
					pool = append(pool, choice{v.Name(), lv.typ, func(st *State, vs []*Val) *Val {
						return &Val{T: x.load(st.heaps, lv.heap, lv.idx), Typ: lv.typ}
					}, false})
					continue
				}
				pool = append(pool, choice{v.Name(), v.Type(), func(st *State, vs []*Val) *Val { return r }, false})
			}
		}
	}
	var rec func(i int, chosen []choice)
	rec = func(i int, chosen []choice) {
		if len(out) > 60 {
			return
		}
		if i == len(c.Vars) {
			ch := append([]choice(nil), chosen...)
			lab := c.E.String()
			for j, cc := range ch {
				lab += " {" + c.Vars[j].Name + "=" + cc.name + "}"
			}
			out = append(out, &cand{label: clip(lab, 200), user: true, eval: func(st *State, vs []*Val) (Term, bool) {
				extra := map[string]*Val{}
				for j, cc := range ch {
					extra[c.Vars[j].Name] = cc.get(st, vs)
				}
				return x.evalClause(st, c.E, x.entry, extra), true
			}})
			return
		}
		for _, p := range pool {
			if p.typ == nil || !(typeMatches(p.typ, c.Vars[i].Type) || c.Vars[i].Type == "ivar" && p.vary && isInteger(p.typ)) {
				continue
			}
			dup := false
			for _, q := range chosen {
				if q.name == p.name {
					dup = true
				}
			}
			if !dup {
				rec(i+1, append(chosen, p))
			}
		}
	}
	rec(0, nil)
	return out
}

func typeMatches(t types.Type, want string) bool {
	n := strings.ReplaceAll(typeName(t), " ", "")
	if n == want {
		return true
	}
	if want == "[]byte" && isByteSlice(t) {
		return true
	}
	if want == "byte" && n == "uint8" {
		return true
	}
	if want == "anyint" && isInteger(t) {
		return true
	}
	return n == strings.ReplaceAll(want, "byte", "uint8")
}
