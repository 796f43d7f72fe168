package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kinds of symbolic values.
const (
	KTerm = iota
	KTuple
	KStruct
	KLV
	KFunc
	KIter
	KNone
)

// Val is a symbolic value.
type Val struct {
	K    int
	T    Term
	Typ  types.Type
	Fs   []*Val
	LV   *LV
	Fn   *Closure
	It   *Iter
	Prov *GuardInst
}

// Closure is a function value whose code is known.
type Closure struct {
	Fn   *ssa.Function
	Bind []*Val
	H    Term
}

// Iter is a map iterator.
type Iter struct {
	m       *Val
	visited string // ghost heap name holding the visited set
	start   Term
	kt, vt  types.Type
	id      int
}

// LV is the address of a scalar.
type LV struct {
	heap  string // cell heap: heap[idx]
	seq   bool   // element of sequence memory: heap[idx] is a sequence, position pos
	idx   Term
	pos   Term
	typ   types.Type
	guard *GuardInst
	ref   Term // Int representation
}

// GuardInst is a guard instance for a concrete object.
type GuardInst struct {
	g    *Guard
	lock Term
	obj  Term
}

// Held is a lock held by the current path.
type Held struct {
	term  string
	class string
	mode  byte // 'R' or 'W'
}

// hver records how a heap version was produced.
type hver struct {
	parent string
	idx    Term
	val    Term
	havoc  bool
	init   bool
	clk    Term // clock when the version was made: nothing in it is younger
}

// wrec is one write-log record.
type wrec struct {
	heap string
	idx  Term
	all  bool
	prev *wrec
	n    int
}

// Frame is an activation record.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Val
	defers []*deferred
	loops  []*loopCtx
	spec   *Spec
	iters  int
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Val
	args []*Val
	pos  ssa.Instruction
}

// State is one symbolic execution state.
type State struct {
	heaps      map[string]string
	held       []Held
	frames     []*Frame
	clock      Term
	wlog       *wrec
	nlog       int
	lockAt     map[string]map[string]string // heaps snapshot at last acquisition per lock class, plus "" for the last one
	unlocks    map[string]map[string]string
	trail      []string
	ntok       int
	ghostClock Term
	calln      int
}

func (st *State) clone() *State {
	n := &State{clock: st.clock, wlog: st.wlog, nlog: st.nlog}
	n.heaps = make(map[string]string, len(st.heaps))
	for k, v := range st.heaps {
		n.heaps[k] = v
	}
	n.held = append([]Held(nil), st.held...)
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := &Frame{fn: f.fn, spec: f.spec, env: make(map[ssa.Value]*Val, len(f.env)), iters: f.iters}
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferred(nil), f.defers...)
		g.loops = append([]*loopCtx(nil), f.loops...)
		n.frames[i] = g
	}
	n.lockAt = map[string]map[string]string{}
	for k, v := range st.lockAt {
		n.lockAt[k] = v
	}
	n.unlocks = map[string]map[string]string{}
	for k, v := range st.unlocks {
		n.unlocks[k] = v
	}
	n.trail = append([]string(nil), st.trail...)
	n.ntok = st.ntok
	n.ghostClock = st.ghostClock
	n.calln = st.calln
	return n
}

func (st *State) snapshot() map[string]string {
	m := make(map[string]string, len(st.heaps))
	for k, v := range st.heaps {
		m[k] = v
	}
	return m
}

// ---------- types ----------

func trimPkg(s string) string {
	// keep only the last path element of every import path
	var sb strings.Builder
	i := 0
	for i < len(s) {
		j := i
		for j < len(s) && (s[j] == '/' || s[j] == '.' || s[j] == '-' || s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] > 127) {
			j++
		}
		if j > i {
			w := s[i:j]
			if k := strings.LastIndex(w, "/"); k >= 0 {
				w = w[k+1:]
			}
			sb.WriteString(w)
			i = j
			continue
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String()
}

func typeName(t types.Type) string {
	return trimPkg(types.TypeString(t, nil))
}

// isRepoPkg reports whether the package is part of the verified repository.
func (x *Prog) isRepoPkg(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), x.module)
}

// opaque reports whether values of struct type t are handled as uninterpreted handles.
func (x *Prog) opaqueStruct(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	return !x.isRepoPkg(n.Obj().Pkg())
}

func (x *Prog) sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SB
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return SInt
	case *types.Slice:
		return SSl
	case *types.Struct:
		if x.opaqueStruct(t) {
			return SInt
		}
		return ""
	case *types.Array:
		return SInt
	case *types.Tuple:
		return ""
	}
	return SInt
}

// seqElem reports whether slices of element type t live in sequence memory.
func (x *Prog) seqElem(t types.Type) bool {
	return x.sortOf(t) == SInt && !isArray(t)
}

func isArray(t types.Type) bool { _, ok := t.Underlying().(*types.Array); return ok }

func isStructT(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func (x *Prog) structKey(t types.Type) string {
	st := t.Underlying().(*types.Struct)
	x.smu.Lock()
	defer x.smu.Unlock()
	if n, ok := x.structNames[st]; ok {
		return n
	}
	n := sanitize(typeName(t))
	x.structNames[st] = n
	return n
}

func (x *Prog) memHeap(elem types.Type) string {
	n := sanitize(typeName(elem))
	switch u := elem.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			n = "byte"
		}
	case *types.Interface:
		n = "iface"
	}
	return "M." + n
}

func (x *Prog) cellHeap(t types.Type) string {
	if x.sortOf(t) == SB {
		return "C.string"
	}
	if x.sortOf(t) == SSl {
		return "C." + sanitize(typeName(t.Underlying()))
	}
	switch t.Underlying().(type) {
	case *types.Interface:
		return "C.iface"
	}
	return "C." + sanitize(typeName(t))
}

func (x *Prog) mapHeaps(t types.Type) (dom, val string, ks, vs string) {
	m := t.Underlying().(*types.Map)
	ks = x.sortOf(m.Key())
	vs = x.sortOf(m.Elem())
	n := sanitize(typeName(m.Key())) + "." + sanitize(typeName(m.Elem()))
	if vs == "" { // struct{} values
		vs = SInt
	}
	return "Md." + n, "Mv." + n, ks, vs
}

// ---------- heaps ----------

func (x *Exec) heapSort(h string) string {
	if s, ok := x.hsorts[h]; ok {
		return s
	}
	if strings.HasPrefix(h, "M.") {
		return SB
	}
	if strings.HasPrefix(h, "C.") { // cells of a basic type
		switch n := h[2:]; {
		case n == "bool":
			return SBool
		case n == "string":
			return SB
		case strings.HasPrefix(n, "_LJ_"): // []T
			return SSl
		case !strings.ContainsAny(n, "[{_") || strings.HasPrefix(n, "map_"):
			return SInt
		}
	}
	panic(unsup("unknown heap %s", h))
}

func (x *Exec) regHeap(h, valSort string) string {
	if _, ok := x.hsorts[h]; !ok {
		x.hsorts[h] = valSort
	}
	return h
}

// cur returns the current version symbol of a heap.
func (x *Exec) cur(heaps map[string]string, h string) string {
	if v, ok := heaps[h]; ok {
		return v
	}
	v := "h0." + h
	vs := x.heapSort(h)
	x.s.declare(v, "(declare-const "+v+" (Array Int "+vs+"))")
	if strings.HasPrefix(h, "M.") {
		x.s.declare("ax:"+v, "(assert (forall ((r Int)) (! (= (blen (select "+v+" r)) (bsize r)) :pattern ((select "+v+" r)))))")
	}
	if strings.HasPrefix(h, "Mv.") && strings.HasSuffix(vs, " "+SSl+")") {
		// the slices in a map that existed at entry existed at entry
		ks := strings.TrimSuffix(strings.TrimPrefix(vs, "(Array "), " "+SSl+")")
		e := "(select (select " + v + " m) k)"
		x.s.declare("ax:"+v, fmt.Sprintf("(assert (forall ((m Int) (k %s)) (! (=> (<= (birth m) 0) (and (<= 0 (slbase %s)) (<= 0 (sloff %s)) (<= 0 (sllen %s)) (<= (sllen %s) (slcap %s)) (<= (birth (slbase %s)) 0))) :pattern (%s))))", ks, e, e, e, e, e, e, e))
	}
	return v
}

func (x *Exec) fresh(prefix string) string {
	x.ctr++
	return fmt.Sprintf("%s!%d", prefix, x.ctr)
}

func (x *Exec) freshConst(prefix, sort string) Term {
	n := x.fresh(sanitize(prefix))
	x.s.send("(declare-const " + n + " " + sort + ")")
	return Term{S: n, Sort: sort}
}

// name gives a long term a short name.
func (x *Exec) name(prefix string, t Term) Term {
	if len(t.S) < 48 || t.C != nil || t.B != 0 {
		return t
	}
	if strings.HasPrefix(t.S, "(mksl ") { // keep slice headers structural
		ps := splitSexp(t.S[6 : len(t.S)-1])
		var q []Term
		for _, p := range ps {
			pt := Term{S: p, Sort: SInt}
			if n, ok := parseIntTerm(p); ok {
				pt.C = n
			}
			q = append(q, x.name(prefix, pt))
		}
		return slMk(q[0], q[1], q[2], q[3])
	}
	if n, ok := x.named[t.S]; ok {
		if _, live := x.s.decls[n]; live {
			return Term{S: n, Sort: t.Sort}
		}
	}
	n := x.fresh("t." + sanitize(prefix))
	x.s.declare(n, "(declare-const "+n+" "+t.Sort+")", "(assert (= "+n+" "+t.S+"))")
	x.named[t.S] = n
	x.defs[n] = t.S
	return Term{S: n, Sort: t.Sort}
}

func (x *Exec) assume(t Term) {
	if t.B == 1 {
		return
	}
	x.s.assert(t)
}

// load reads heap[idx], resolving syntactically through recent stores.
func (x *Exec) load(heaps map[string]string, h string, idx Term) Term {
	v := x.cur(heaps, h)
	vs := x.heapSort(h)
	for {
		hv, ok := x.hvers[v]
		if !ok || hv.havoc {
			break
		}
		if hv.idx.S == idx.S {
			return hv.val
		}
		if x.distinct(hv.idx, idx) {
			v = hv.parent
			continue
		}
		break
	}
	for {
		hv, ok := x.hvers[v]
		if !ok || !hv.init {
			break
		}
		v = hv.parent
	}
	return Term{S: "(select " + v + " " + idx.S + ")", Sort: vs}
}

// root returns the allocation symbol a reference term is built on, if it is syntactically fresh.
func (x *Exec) root(t string) string {
	for {
		if strings.HasPrefix(t, "ref!") {
			return t
		}
		if strings.HasPrefix(t, "(fa.") {
			i := strings.Index(t, " ")
			t = t[i+1 : len(t)-1]
			continue
		}
		if strings.HasPrefix(t, "(elem ") {
			ps := splitSexp(t[6 : len(t)-1])
			t = ps[0]
			continue
		}
		return ""
	}
}

// distinct is a cheap syntactic check that two references differ.
func (x *Exec) distinct(a, b Term) bool {
	if a.S == b.S {
		return false
	}
	if a.C != nil && b.C != nil {
		return a.C.Cmp(b.C) != 0
	}
	ra, rb := x.root(a.S), x.root(b.S)
	if ra != "" && rb != "" && ra != rb {
		return true
	}
	if ra != "" && x.oldRef(b) || rb != "" && x.oldRef(a) {
		return true
	}
	if (a.C != nil && a.C.Sign() == 0 && rb != "") || (b.C != nil && b.C.Sign() == 0 && ra != "") {
		return true
	}
	if strings.HasPrefix(a.S, "(fa.") && strings.HasPrefix(b.S, "(fa.") {
		i, j := strings.Index(a.S, " "), strings.Index(b.S, " ")
		if a.S[:i] != b.S[:j] {
			return true
		}
		return x.distinct(Term{S: a.S[i+1 : len(a.S)-1], Sort: SInt}, Term{S: b.S[j+1 : len(b.S)-1], Sort: SInt})
	}
	return false
}

// oldRef reports whether the term is known to denote an object that existed at function entry.
func (x *Exec) oldRef(t Term) bool {
	s := t.S
	for strings.HasPrefix(s, "(fa.") {
		i := strings.Index(s, " ")
		s = s[i+1 : len(s)-1]
	}
	return x.oldSyms[s]
}

// store writes heap[idx] = val, recording the write.
func (x *Exec) store(st *State, h string, idx, val Term) {
	x.checkFrame(st, h, idx)
	x.rawStore(st, h, idx, val)
}

func (x *Exec) rawStore(st *State, h string, idx, val Term) {
	v := x.cur(st.heaps, h)
	vs := x.heapSort(h)
	if val.Sort != vs {
		panic(unsup("store of %s into heap %s of %s", val.Sort, h, vs))
	}
	val = x.name("v", val)
	n := x.fresh("h." + h)
	x.s.send("(declare-const " + n + " (Array Int " + vs + "))")
	x.s.send("(assert (= " + n + " (store " + v + " " + idx.S + " " + val.S + ")))")
	if strings.HasPrefix(h, "M.") {
		x.assume(mk(SBool, "=", bLen(val), Term{S: "(bsize " + idx.S + ")", Sort: SInt}))
	}
	x.hvers[n] = &hver{parent: v, idx: idx, val: val, clk: st.clock}
	st.heaps[h] = n
	st.logWrite(h, idx, false)
}

func (st *State) logWrite(h string, idx Term, all bool) {
	st.nlog++
	st.wlog = &wrec{heap: h, idx: idx, all: all, prev: st.wlog, n: st.nlog}
}

// havocHeap replaces the whole heap by an unconstrained version.
func (x *Exec) havocHeap(st *State, h string) (old, nw string) {
	old = x.cur(st.heaps, h)
	vs := x.heapSort(h)
	n := x.fresh("hv." + h)
	x.s.send("(declare-const " + n + " (Array Int " + vs + "))")
	if strings.HasPrefix(h, "M.") {
		x.s.send("(assert (forall ((r Int)) (! (= (blen (select " + n + " r)) (bsize r)) :pattern ((select " + n + " r)))))")
	}
	if h == "G.closed" { // channels may get closed, never reopened
		x.s.send(fmt.Sprintf("(assert (forall ((r Int)) (! (=> (select %s r) (select %s r)) :pattern ((select %s r)) :pattern ((select %s r)))))", old, n, old, n))
	}
	x.hvers[n] = &hver{havoc: true, clk: st.clock}
	st.heaps[h] = n
	st.logWrite(h, Term{}, true)
	return old, n
}

// ---------- type facts ----------

const maxLen = "281474976710656" // 2^48: no object is larger than the address space

func intRange(b *types.Basic) (lo, hi string, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return "(- 9223372036854775808)", "9223372036854775807", true
	case types.Int32, types.UntypedRune:
		return "(- 2147483648)", "2147483647", true
	case types.Int16:
		return "(- 32768)", "32767", true
	case types.Int8:
		return "(- 128)", "127", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint8:
		return "0", "255", true
	}
	return "", "", false
}

// typeFacts asserts what the Go type of a value guarantees.
func (x *Exec) typeFacts(t Term, typ types.Type, clock Term) {
	if t.C != nil || t.B != 0 {
		return
	}
	key := "ty:" + t.S
	if _, ok := x.s.decls[key]; ok {
		return
	}
	src := t.S
	var owner, older string
	if d, ok := x.defs[src]; ok {
		src = d
	}
	if strings.HasPrefix(src, "(select ") {
		v := src[8:]
		if i := strings.IndexByte(v, ' '); i > 0 {
			v = v[:i]
		}
		vclk := Term{}
		if strings.HasPrefix(v, "h0.") {
			vclk = tInt(0)
		} else if hv := x.hvers[v]; hv != nil && hv.clk.S != "" {
			vclk = hv.clk
		}
		if vclk.S != "" {
			idx := Term{S: src[9+len(v) : len(src)-1], Sort: SInt}
			if idx.S == "0" || x.oldRef(idx) {
				clock = vclk
			} else {
				owner, older = idx.S, vclk.S // the object may be younger than this version of the heap
			}
		}
	}
	born := func(b string) string {
		r := "(<= (birth " + b + ") " + clock.S + ")"
		if owner != "" {
			r = "(and " + r + " (=> (<= (birth " + owner + ") " + older + ") (<= (birth " + b + ") " + older + ")))"
		}
		return r
	}
	var cmds []string
	add := func(f string, a ...interface{}) { cmds = append(cmds, "(assert "+fmt.Sprintf(f, a...)+")") }
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok {
			add("(and (<= %s %s) (<= %s %s))", lo, t.S, t.S, hi)
		} else if t.Sort == SB {
			add("(<= (blen %s) %s)", t.S, maxLen)
		}
	case *types.Slice:
		b, o, l, c := slBase(t).S, slOff(t).S, slLen(t).S, slCap(t).S
		add("(and (<= 0 %s) (<= 0 %s) (<= %s %s) (<= %s %s) (<= (+ %s %s) (bsize %s)) (<= 0 %s) (=> (= %s 0) (= %s 0)) %s)", o, l, l, c, c, maxLen, o, c, b, b, b, c, born(b))
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		add("(and (<= 0 %s) %s)", t.S, born(t.S))
	case *types.Interface:
		add("(and %s (= (= %s 0) (= (dyn %s) 0)))", born(t.S), t.S, t.S)
	}
	if len(cmds) > 0 {
		x.s.declare(key, cmds...)
	}
}

// alloc creates a fresh reference.
func (x *Exec) alloc(st *State) Term {
	n := x.fresh("ref")
	c := tAdd(st.clock, tInt(1))
	c = x.name("clk", c)
	st.clock = c
	x.s.send("(declare-const " + n + " Int)")
	x.s.send("(assert (and (> " + n + " 0) (= (birth " + n + ") " + c.S + ") (= (fatag " + n + ") 0)))")
	return Term{S: n, Sort: SInt}
}

func (x *Exec) zero(t types.Type) *Val {
	switch x.P.sortOf(t) {
	case SInt:
		if x.P.opaqueStruct(t) {
			n := "zero." + sanitize(typeName(t))
			x.s.declare(n, "(declare-const "+n+" Int)")
			return &Val{T: Term{S: n, Sort: SInt}, Typ: t}
		}
		return &Val{T: tInt(0), Typ: t}
	case SBool:
		return &Val{T: tFalse, Typ: t}
	case SB:
		return &Val{T: bEmpty, Typ: t}
	case SSl:
		return &Val{T: slNil, Typ: t}
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		v := &Val{K: KStruct, Typ: t}
		for i := 0; i < s.NumFields(); i++ {
			v.Fs = append(v.Fs, x.zero(s.Field(i).Type()))
		}
		return v
	}
	if tp, ok := t.(*types.Tuple); ok {
		v := &Val{K: KTuple, Typ: t}
		for i := 0; i < tp.Len(); i++ {
			v.Fs = append(v.Fs, x.zero(tp.At(i).Type()))
		}
		return v
	}
	panic(unsup("zero value of %s", t))
}

// havocVal returns an unconstrained value of type t.
func (x *Exec) havocVal(st *State, prefix string, t types.Type) *Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := &Val{K: KTuple, Typ: t}
		for i := 0; i < tp.Len(); i++ {
			v.Fs = append(v.Fs, x.havocVal(st, prefix, tp.At(i).Type()))
		}
		return v
	}
	s := x.P.sortOf(t)
	if s == "" {
		stt := t.Underlying().(*types.Struct)
		v := &Val{K: KStruct, Typ: t}
		for i := 0; i < stt.NumFields(); i++ {
			v.Fs = append(v.Fs, x.havocVal(st, prefix+"."+stt.Field(i).Name(), stt.Field(i).Type()))
		}
		return v
	}
	c := x.freshConst(prefix, s)
	x.typeFacts(c, t, st.clock)
	return &Val{T: c, Typ: t}
}

func (x *Exec) strConst(s string) Term {
	if s == "" {
		return bEmpty
	}
	n := "str." + hexs(s)
	if _, ok := x.s.decls[n]; !ok {
		var sb strings.Builder
		fmt.Fprintf(&sb, "(assert (and (= (blen %s) %d)", n, len(s))
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&sb, " (= (bidx %s %d) %d)", n, i, s[i])
		}
		sb.WriteString("))")
		x.s.declare(n, "(declare-const "+n+" B)", sb.String())
	}
	x.strLits[n] = s
	return Term{S: n, Sort: SB}
}

func hexs(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "_%02x", c)
		}
	}
	return sb.String()
}

// ---------- structured memory ----------

func (x *Exec) faFn(structT types.Type, i int) string {
	st := structT.Underlying().(*types.Struct)
	key := x.P.structKey(structT)
	n := "fa." + key + "." + sanitize(st.Field(i).Name())
	x.declareFA(n)
	return n
}

// declareFA declares the function that maps an object to the address of one of its fields.
func (x *Exec) declareFA(n string) {
	if _, ok := x.s.decls[n]; ok {
		return
	}
	x.P.mu.Lock()
	tag, ok := x.P.faTags[n]
	if !ok {
		tag = stableID(x.P.faTags, n)
		x.P.faTags[n] = tag
	}
	x.P.mu.Unlock()
	x.s.declare(n, "(declare-fun "+n+" (Int) Int)",
		fmt.Sprintf("(assert (forall ((r Int)) (! (and (= (faown (%s r)) r) (= (fatag (%s r)) %d) (= (birth (%s r)) (birth r)) (> (%s r) 0)) :pattern ((%s r)))))", n, n, tag, n, n, n))
}

// redeclare declares again the symbols of a term that was built in a scope that has been left.
func (x *Exec) redeclare(t string) {
	for _, s := range symRe.FindAllString(t, -1) {
		if strings.HasPrefix(s, "fa.") {
			x.declareFA(s)
		} else if strings.HasPrefix(s, "h0.") {
			x.cur(nil, s[3:])
		}
	}
}

// fieldAddr returns the address of field i of the struct at ref.
func (x *Exec) fieldAddr(structT types.Type, ref Term, i int) *Val {
	st := structT.Underlying().(*types.Struct)
	f := st.Field(i)
	if isStructT(f.Type()) || isArray(f.Type()) {
		fn := x.faFn(structT, i)
		return &Val{T: Term{S: "(" + fn + " " + ref.S + ")", Sort: SInt}, Typ: types.NewPointer(f.Type())}
	}
	h := x.regHeap("F."+x.P.structKey(structT)+"."+sanitize(f.Name()), x.P.sortOf(f.Type()))
	lv := &LV{heap: h, idx: ref, typ: f.Type()}
	if g := x.P.guardFor(x.P.structKey(structT), f.Name()); g != nil {
		lv.guard = &GuardInst{g: g, lock: x.guardLock(structT, ref, g), obj: ref}
	}
	return &Val{K: KLV, LV: lv, Typ: types.NewPointer(f.Type())}
}

func (x *Exec) guardLock(structT types.Type, ref Term, g *Guard) Term {
	st := structT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == g.Lock {
			fn := x.faFn(structT, i)
			return Term{S: "(" + fn + " " + ref.S + ")", Sort: SInt}
		}
	}
	panic(serr(g.Pos, "struct %s has no lock field %s", g.Struct, g.Lock))
}

// loadField reads a field (recursively for nested structs).
func (x *Exec) loadField(heaps map[string]string, clock Term, structT types.Type, ref Term, i int) *Val {
	a := x.fieldAddr(structT, ref, i)
	ft := structT.Underlying().(*types.Struct).Field(i).Type()
	if a.K == KLV {
		t := x.load(heaps, a.LV.heap, a.LV.idx)
		x.typeFacts(t, ft, clock)
		return &Val{T: t, Typ: ft}
	}
	return x.loadAt(heaps, clock, a.T, ft)
}

// loadAt reads a value of type t at reference ref.
func (x *Exec) loadAt(heaps map[string]string, clock Term, ref Term, t types.Type) *Val {
	if isStructT(t) && !x.P.opaqueStruct(t) {
		st := t.Underlying().(*types.Struct)
		v := &Val{K: KStruct, Typ: t}
		for i := 0; i < st.NumFields(); i++ {
			v.Fs = append(v.Fs, x.loadField(heaps, clock, t, ref, i))
		}
		return v
	}
	if isArray(t) {
		panic(unsup("load of array value %s", t))
	}
	h := x.regHeap(x.P.cellHeap(t), x.P.sortOf(t))
	r := x.load(heaps, h, ref)
	x.typeFacts(r, t, clock)
	return &Val{T: r, Typ: t}
}

// storeAt writes v of type t at reference ref.
func (x *Exec) storeAt(st *State, ref Term, t types.Type, v *Val) {
	if isStructT(t) && !x.P.opaqueStruct(t) {
		s := t.Underlying().(*types.Struct)
		if v.K != KStruct {
			panic(unsup("store of non-struct value into %s", t))
		}
		for i := 0; i < s.NumFields(); i++ {
			a := x.fieldAddr(t, ref, i)
			if a.K == KLV {
				x.store(st, a.LV.heap, a.LV.idx, x.toTerm(st, v.Fs[i]))
			} else {
				x.storeAt(st, a.T, s.Field(i).Type(), v.Fs[i])
			}
		}
		return
	}
	if isArray(t) {
		panic(unsup("store of array value %s", t))
	}
	h := x.regHeap(x.P.cellHeap(t), x.P.sortOf(t))
	x.store(st, h, ref, x.toTerm(st, v))
}

// zeroInit asserts that a fresh object of type t is zero-initialised.
func (x *Exec) zeroInit(st *State, ref Term, t types.Type) {
	if isStructT(t) && !x.P.opaqueStruct(t) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			a := x.fieldAddr(t, ref, i)
			if a.K == KLV {
				z := x.zero(s.Field(i).Type())
				x.initCell(st, a.LV.heap, a.LV.idx, z.T)
			} else {
				x.zeroInit(st, a.T, s.Field(i).Type())
			}
		}
		return
	}
	if ar, ok := t.Underlying().(*types.Array); ok {
		x.zeroElems(st, ref, ar.Elem(), tInt(ar.Len()))
		return
	}
	h := x.regHeap(x.P.cellHeap(t), x.P.sortOf(t))
	x.initCell(st, h, ref, x.zero(t).T)
	if x.P.opaqueStruct(t) {
		x.ghostZero(st, ref, t)
	}
}

// initCell records the initial content of a cell of a fresh object: the heap
// version is extended (so later loads resolve) without logging a write.
func (x *Exec) initCell(st *State, h string, idx, val Term) {
	v := x.cur(st.heaps, h)
	x.assume(Term{S: "(= (select " + v + " " + idx.S + ") " + val.S + ")", Sort: SBool})
	// alias version for syntactic resolution
	n := x.fresh("h." + h)
	x.s.send("(define-fun " + n + " () (Array Int " + x.heapSort(h) + ") " + v + ")")
	x.hvers[n] = &hver{parent: v, idx: idx, val: val, init: true}
	st.heaps[h] = n
}

// zeroElems initialises the n elements of a fresh backing array.
func (x *Exec) zeroElems(st *State, base Term, et types.Type, n Term) {
	x.assume(Term{S: "(= (bsize " + base.S + ") " + n.S + ")", Sort: SBool})
	if x.P.seqElem(et) {
		h := x.regHeap(x.P.memHeap(et), SB)
		var z Term
		if x.P.opaqueStruct(et) {
			z = x.freshConst("zs", SB)
			x.assume(mk(SBool, "=", bLen(z), n))
		} else {
			z = mk(SB, "bzeros", n)
			if n.C != nil && n.C.IsInt64() && n.C.Int64() <= 8 {
				z = bEmpty
				for i := int64(0); i < n.C.Int64(); i++ {
					z = bCat(z, bUnit(tInt(0)))
				}
				z = x.name("z", z)
			}
		}
		x.initCell(st, h, base, z)
		return
	}
	if isStructT(et) && !x.P.opaqueStruct(et) {
		x.zeroStructElems(st, base, et)
		return
	}
	h := x.regHeap(x.P.cellHeap(et), x.P.sortOf(et))
	v := x.cur(st.heaps, h)
	x.s.send(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s (elem %s i)) %s) :pattern ((select %s (elem %s i))))))", v, base.S, x.zero(et).T.S, v, base.S))
}

func (x *Exec) zeroStructElems(st *State, base Term, et types.Type) {
	s := et.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		a := x.fieldAddr(et, Term{S: "(elem " + base.S + " i)", Sort: SInt}, i)
		if a.K != KLV {
			continue
		}
		v := x.cur(st.heaps, a.LV.heap)
		x.s.send(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s (elem %s i)) %s) :pattern ((select %s (elem %s i))))))", v, base.S, x.zero(s.Field(i).Type()).T.S, v, base.S))
	}
}

func elemRef(base, i Term) Term { return mk(SInt, "elem", base, i) }

// sliceBytes is the sequence of elements of a slice over sequence memory.
func (x *Exec) sliceSeq(heaps map[string]string, s Term, et types.Type) Term {
	h := x.regHeap(x.P.memHeap(et), SB)
	m := x.load(heaps, h, slBase(s))
	if s.S == slNil.S {
		return bEmpty
	}
	off, ln := slOff(s), slLen(s)
	hi := tAdd(off, ln)
	if off.C != nil && off.C.Sign() == 0 {
		hi = ln
	}
	if off.C != nil && ln.C != nil && ln.C.Sign() == 0 {
		return bEmpty
	}
	return bSub(m, off, hi)
}

// loadLV reads through a scalar address.
func (x *Exec) loadLV(st *State, lv *LV) *Val {
	if lv.seq {
		m := x.load(st.heaps, lv.heap, lv.idx)
		t := bIdx(m, lv.pos)
		t = x.name("e", t)
		x.typeFacts(t, lv.typ, st.clock)
		return &Val{T: t, Typ: lv.typ}
	}
	t := x.load(st.heaps, lv.heap, lv.idx)
	t = x.name("l", t)
	x.typeFacts(t, lv.typ, st.clock)
	v := &Val{T: t, Typ: lv.typ, Prov: lv.guard}
	if c, ok := x.closures[t.S]; ok {
		v.Fn = c
	}
	return v
}

func (x *Exec) storeLV(st *State, lv *LV, v *Val) {
	t := x.toTerm(st, v)
	if lv.seq {
		m := x.load(st.heaps, lv.heap, lv.idx)
		nm := mk(SB, "bupd", m, lv.pos, t)
		// a store into a small array literal is kept explicit
		x.store(st, lv.heap, lv.idx, x.simplUpd(m, lv.pos, t, nm))
		return
	}
	x.store(st, lv.heap, lv.idx, t)
}

// simplUpd turns updates of explicit short sequences into explicit sequences.
func (x *Exec) simplUpd(m, pos, val, dflt Term) Term {
	s := m.S
	if d, ok := x.defs[s]; ok {
		s = d
	}
	if pos.C == nil || !pos.C.IsInt64() {
		return dflt
	}
	k := int(pos.C.Int64())
	var parts []string
	for strings.HasPrefix(s, "(bcat ") {
		ps := splitSexp(s[6 : len(s)-1])
		if len(ps) != 2 {
			return dflt
		}
		// left-nested: (bcat (bcat a b) c)
		parts = append([]string{ps[1]}, parts...)
		s = ps[0]
		if d, ok := x.defs[s]; ok {
			s = d
		}
	}
	parts = append([]string{s}, parts...)
	for _, p := range parts {
		if !strings.HasPrefix(p, "(bunit ") {
			return dflt
		}
	}
	if k >= len(parts) {
		return dflt
	}
	parts[k] = bUnit(val).S
	t := Term{S: parts[0], Sort: SB}
	for _, p := range parts[1:] {
		t = bCat(t, Term{S: p, Sort: SB})
	}
	return t
}

// toTerm converts a value to an SMT term (closures and addresses become handles).
func (x *Exec) toTerm(st *State, v *Val) Term {
	switch v.K {
	case KTerm:
		if v.Fn != nil && v.T.S == "" {
			return v.Fn.H
		}
		return v.T
	case KFunc:
		return v.Fn.H
	case KLV:
		return x.lvRef(v.LV)
	case KStruct:
		if len(v.Fs) == 0 {
			return tInt(0)
		}
		// opaque handle for a struct value
		key := ""
		for _, f := range v.Fs {
			key += " " + x.toTerm(st, f).S
		}
		fn := "sv." + sanitize(typeName(v.Typ))
		var sorts []string
		for _, f := range v.Fs {
			sorts = append(sorts, x.toTerm(st, f).Sort)
		}
		x.s.declare(fn, "(declare-fun "+fn+" ("+strings.Join(sorts, " ")+") Int)")
		t := Term{S: "(" + fn + key + ")", Sort: SInt}
		x.structVals[t.S] = v
		return t
	}
	panic(unsup("value of kind %d used as a term", v.K))
}

func (x *Exec) lvRef(lv *LV) Term {
	if lv.ref.S != "" {
		return lv.ref
	}
	if strings.HasPrefix(lv.heap, "C.") {
		return lv.idx
	}
	var t Term
	if lv.seq {
		t = elemRef(lv.idx, lv.pos)
	} else {
		n := "fa." + strings.TrimPrefix(lv.heap, "F.")
		x.declareFA(n)
		t = Term{S: "(" + n + " " + lv.idx.S + ")", Sort: SInt}
	}
	x.lvs[t.S] = lv
	return t
}
