package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FuncReport is the outcome for one function.
type FuncReport struct {
	Func     string    `json:"func"`
	Pos      string    `json:"pos"`
	Contract string    `json:"contract"`
	Obls     []*OblRep `json:"obligations"`
	Inlined  []string  `json:"inlined,omitempty"`
	Used     []string  `json:"used_contracts,omitempty"`
	External []string  `json:"assumed_external,omitempty"`
	Unspec   []string  `json:"havocked_calls,omitempty"`
	Paths    int       `json:"paths"`
	Ms       int64     `json:"ms"`
	Kind     string    `json:"kind"`
	lockFail bool
	lemProp  string // the property whose lemmas the function was checked with
	x        *Exec
}

// OblRep is one obligation in the report.
type OblRep struct {
	Name    string         `json:"name"`
	Kind    string         `json:"kind"`
	Pos     string         `json:"pos"`
	Count   int            `json:"instances"`
	Failed  int            `json:"failed"`
	Engines map[string]int `json:"by"`
	Detail  string         `json:"detail,omitempty"`
}

func (r *FuncReport) fail(kind, label, pos, detail string) {
	r.Obls = append(r.Obls, &OblRep{Name: r.Func + ": " + label, Kind: kind, Pos: pos, Count: 1, Failed: 1, Engines: map[string]int{}, Detail: detail})
}

func (r *FuncReport) failed() int {
	n := 0
	for _, o := range r.Obls {
		if o.Failed > 0 {
			n++
		}
	}
	return n
}

func (p *Prog) newExec(fn *ssa.Function, sp *Spec, prop string) *Exec {
	x := &Exec{P: p, fn: fn, spec: sp, prop: prop,
		hsorts: map[string]string{}, hvers: map[string]*hver{}, named: map[string]string{}, defs: map[string]string{},
		strLits: map[string]string{}, oldSyms: map[string]bool{}, boxes: map[string]*Val{}, lvs: map[string]*LV{},
		closures: map[string]*Closure{}, structVals: map[string]*Val{}, obls: map[string]*Obl{},
		params: map[string]*Val{}, ptypes: map[string]types.Type{}, lets: map[string]*Val{}, unspec: map[string]bool{},
		inlined: map[string]bool{}, usedSpecs: map[string]bool{}, calledExt: map[string]bool{}, provenNN: map[string]bool{},
		inlineSet: map[string]bool{}, oldClock: tInt(0)}
	for h, s := range p.initHeaps {
		x.hsorts[h] = s
	}
	for _, g := range p.specs.sortedGhosts() {
		x.hsorts["G."+g.Name] = g.Sort
	}
	x.s = newSolver(p.preludeFor(prop), p.stats, p.tmpdir)
	return x
}

func newState() *State {
	return &State{heaps: map[string]string{}, clock: tInt(0), ghostClock: tInt(0),
		lockAt: map[string]map[string]string{}, unlocks: map[string]map[string]string{}}
}

func (x *Exec) markOld(v *Val) {
	switch v.K {
	case KTerm:
		if v.T.Sort == SInt {
			x.oldSyms[v.T.S] = true
		}
		if v.T.Sort == SSl {
			x.oldSyms[slBase(v.T).S] = true
		}
	case KStruct, KTuple:
		for _, f := range v.Fs {
			x.markOld(f)
		}
	}
}

// guardPanics turns engine errors into a failed obligation.
func guardPanics(r *FuncReport, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case unsupported:
				r.fail("engine", what+": outside the verifier's reach", r.Pos, v.msg)
			case specErr:
				r.fail("engine", what+": contract does not apply to the code", r.Pos, v.msg)
			default:
				if r.x != nil && r.x.P.verbose > 0 {
					panic(e)
				}
				r.fail("engine", what+": internal error", r.Pos, fmt.Sprint(e))
			}
		}
	}()
	f()
}

// verifyFunc proves one function against its contract.
// verifyFunc verifies one function against its contract: first with little effort per
// query, then, if something stays unproved, once more with the whole solver portfolio.
func (p *Prog) verifyFunc(fn *ssa.Function, sp *Spec, prop string, lockOnly bool, inlineSet map[string]bool) *FuncReport {
	if sp != nil && sp.Flags["hard"] && !lockOnly {
		return p.verifyFunc1(fn, sp, prop, lockOnly, inlineSet, 1)
	}
	r := p.verifyFunc1(fn, sp, prop, lockOnly, inlineSet, 0)
	if r.failed() == 0 || lockOnly {
		return r
	}
	for _, o := range r.Obls {
		if o.Failed > 0 && o.Kind == "engine" {
			return r
		}
	}
	ms := r.Ms
	r = p.verifyFunc1(fn, sp, prop, lockOnly, inlineSet, 1)
	r.Ms += ms
	return r
}

func (p *Prog) verifyFunc1(fn *ssa.Function, sp *Spec, prop string, lockOnly bool, inlineSet map[string]bool, effort int) *FuncReport {
	t0 := time.Now()
	rep := &FuncReport{Func: sp.Name, Pos: p.line(fn.Pos()), Contract: sp.Pos, Kind: "function"}
	x := p.newExec(fn, sp, prop)
	rep.x = x
	x.lemProp = prop
	if prop != "" && len(sp.Props) > 0 && !sp.hasProp(prop) {
		x.lemProp = sp.Props[0] // a dependency of the property: the lemmas of its home
	}
	rep.lemProp = x.lemProp
	x.effort = effort
	x.lockOnly = lockOnly
	if inlineSet != nil {
		x.inlineSet = inlineSet
	}
	x.curName = trimPkg(fn.String())
	defer x.s.stop()
	guardPanics(rep, "verification", func() { x.run(rep) })
	for _, k := range x.order {
		o := x.obls[k]
		rep.Obls = append(rep.Obls, &OblRep{Name: sp.Name + ": " + o.Label, Kind: o.Kind, Pos: o.Pos, Count: o.Count, Failed: o.Failed, Engines: o.Engines, Detail: o.Detail})
		if o.Kind == "lock" && o.Failed > 0 {
			rep.lockFail = true
		}
	}
	rep.Inlined = sortedKeys(x.inlined)
	rep.Used = sortedKeys(x.usedSpecs)
	rep.External = sortedKeys(x.calledExt)
	rep.Unspec = sortedKeys(x.unspec)
	rep.Paths = x.exits
	rep.Ms = time.Since(t0).Milliseconds()
	return rep
}

func (x *Exec) run(rep *FuncReport) {
	p, fn, sp := x.P, x.fn, x.spec
	st := newState()
	fr := &Frame{fn: fn, env: map[ssa.Value]*Val{}, spec: sp}
	st.frames = []*Frame{fr}
	named := map[string]*Val{}
	all := []*Val{}
	for i, pa := range fn.Params {
		v := x.havocVal(st, "p."+pa.Name(), pa.Type())
		x.markOld(v)
		fr.env[pa] = v
		all = append(all, v)
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := pa.Type().Underlying().(*types.Pointer); ok {
				x.assume(tNot(tEq(v.T, tInt(0))))
				x.s.declare("nn:" + v.T.S)
			}
		}
	}
	for _, fv := range fn.FreeVars {
		v := x.havocVal(st, "fv."+fv.Name(), fv.Type())
		x.markOld(v)
		if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
			x.assume(tNot(tEq(v.T, tInt(0))))
			x.s.declare("nn:" + v.T.S)
		}
		fr.env[fv] = v
	}
	for i, n := range sp.Params {
		if j := strings.Index(n, ":"); j >= 0 {
			nm, ty := n[:j], n[j+1:]
			t := p.typeByName(ty)
			if t == nil {
				panic(serr(sp.Pos, "unknown type %s", ty))
			}
			named[nm] = x.findByType(st, fn, fr, nm, t, sp)
			continue
		}
		if i >= len(all) {
			panic(serr(sp.Pos, "contract of %s names %d parameters, the function has %d", sp.Name, len(sp.Params), len(all)))
		}
		named[n] = all[i]
	}
	x.params = named
	x.entry = st.snapshot()
	env := &Env{x: x, st: st, heaps: st.heaps, old: x.entry, vars: map[string]*Val{}}
	for k, v := range named {
		env.vars[k] = v
	}
	for _, l := range sp.Lets {
		v := env.eval(l.E)
		x.lets[l.Name] = v
		env.vars[l.Name] = v
	}
	if !x.lockOnly {
		for _, g := range p.specs.Globals {
			if len(g.Props) == 0 || g.active(sp, x.prop) {
				x.assume(env.boolean(g.E))
			}
		}
		for _, c := range sp.Requires {
			if len(c.Props) > 0 && !c.active(sp, x.prop) {
				continue
			}
			x.assume(env.boolean(c.E))
		}
		for _, c := range sp.Reveal {
			x.assume(mk(SBool, "tick", env.t(c.E)))
		}
		for _, m := range sp.Modifies {
			if m.C.active(sp, x.prop) {
				x.allowed = append(x.allowed, env.locations(m.E)...)
			}
		}
		x.modAny = sp.ModAny
		for _, lm := range p.specs.Lemmas {
			if len(lm.Trig) > 0 && lm.has(x.lemProp) && !lm.Local {
				x.s.send("(assert " + x.lemmaAxiom(lm) + ")")
			}
		}
		o := &Obl{Func: sp.Name, Kind: "vacuity", Label: "the precondition is satisfiable", Pos: sp.Pos, Engines: map[string]int{}, Count: 1}
		x.obls["vac|pre"] = o
		x.order = append(x.order, "vac|pre")
		if x.s.check(3000) == "unsat" {
			o.Failed = 1
			o.Detail = "the precondition contradicts the type facts"
			return
		}
		o.Engines["z3-5.3.2-incr (not refuted)"]++
	}
	feas := 0
	x.runBlock(st, 0, fn.Blocks[0], 0, func(s2 *State, res []*Val) {
		x.exits++
		if x.lockOnly {
			x.lockExit(s2, fn)
			feas++
			return
		}
		if !x.feasible() {
			return
		}
		feas++
		x.checkExit(s2, res)
	})
	if !x.lockOnly && !sp.Flags["noreturn"] {
		o := &Obl{Func: sp.Name, Kind: "vacuity", Label: "some execution reaches the end", Pos: sp.Pos, Engines: map[string]int{}, Count: 1}
		x.obls["vac|post"] = o
		x.order = append(x.order, "vac|post")
		if feas == 0 {
			o.Failed = 1
			o.Detail = "no feasible path reaches a return"
		} else {
			o.Engines["z3-5.3.2-incr (not refuted)"]++
		}
	}
}

func (x *Exec) lockExit(st *State, fn *ssa.Function) {
	x.lockGoal(st, "every lock taken is released on return", fn.Pos(), len(st.held) == 0, heldNames(st))
}

// findByType binds a contract parameter of a closure by its type.
func (x *Exec) findByType(st *State, fn *ssa.Function, fr *Frame, nm string, t types.Type, sp *Spec) *Val {
	var found, called []*Val
	add := func(n string, v *Val) {
		found = append(found, v)
		if n == nm {
			called = append(called, v)
		}
	}
	for _, pa := range fn.Params {
		if types.Identical(pa.Type(), t) {
			add(pa.Name(), fr.env[pa])
		}
	}
	for _, fv := range fn.FreeVars {
		if types.Identical(fv.Type(), t) {
			add(fv.Name(), fr.env[fv])
		} else if pt, ok := fv.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
			v := x.loadAt(st.heaps, st.clock, fr.env[fv].T, t)
			x.markOld(v)
			add(fv.Name(), v)
		}
	}
	if len(found) != 1 && len(called) == 1 {
		found = called
	}
	if len(found) != 1 {
		panic(serr(sp.Pos, "%d variables of type %s in %s", len(found), t, fn))
	}
	if found[0].Typ == nil {
		found[0].Typ = t
	}
	return found[0]
}

// captured returns the value of a variable a closure refers to.
func (x *Exec) captured(st *State, heaps map[string]string, c *Closure, nm string) *Val {
	for i, fv := range c.Fn.FreeVars {
		if fv.Name() != nm || i >= len(c.Bind) {
			continue
		}
		b := c.Bind[i]
		if pt, ok := fv.Type().(*types.Pointer); ok && b.K == KTerm {
			return x.loadAt(heaps, st.clock, b.T, pt.Elem())
		} else if b.K == KLV {
			m := x.load(heaps, b.LV.heap, b.LV.idx)
			return tv(m, b.LV.typ)
		}
		return b
	}
	return nil
}

func (x *Exec) checkExit(st *State, res []*Val) {
	sp := x.spec
	extra := map[string]*Val{}
	rn := x.resultNames(sp, x.fn.Signature, len(res))
	for i, r := range res {
		w := *r
		if w.Typ == nil {
			w.Typ = x.fn.Signature.Results().At(i).Type()
		}
		extra[rn[i]] = &w
		if len(res) == 1 {
			extra["result"] = &w
		}
	}
	x.s.push()
	defer x.s.pop()
	for _, c := range sp.Asserts {
		if !c.active(sp, x.prop) {
			continue
		}
		f := x.evalClause(st, c.E, x.entry, extra)
		x.goal(st, "assert", c.Label, c.Pos, f)
		x.assume(f)
	}
	for _, c := range sp.Ensures {
		if c.Free || !c.active(sp, x.prop) {
			continue
		}
		f := x.evalClause(st, c.E, x.entry, extra)
		x.goal(st, "ensures", c.Label, c.Pos, f)
	}
}

// ---------- lemmas ----------

func (l *Lemma) has(p string) bool {
	if p == "" {
		return true
	}
	for _, q := range l.Props {
		if q == p {
			return true
		}
	}
	return false
}

func (x *Exec) lemmaEnv() *Env {
	st := newState()
	return &Env{x: x, st: st, heaps: st.heaps, old: st.heaps, vars: map[string]*Val{}}
}

// lemmaFormula quantifies a lemma; extra is an additional hypothesis over the bound variables.
func (x *Exec) lemmaFormula(l *Lemma, extra func(e *Env) Term) string {
	e := x.lemmaEnv()
	e.quant = 1
	var decl []string
	for _, v := range l.Vars {
		x.ctr++
		sym := fmt.Sprintf("q%d_%s", x.ctr, sanitize(v.Name))
		s := specSort(v.Type)
		if s == "" {
			panic(serr(l.Pos, "unknown sort %s", v.Type))
		}
		e.vars[v.Name] = tv(Term{S: sym, Sort: s}, nil)
		decl = append(decl, "("+sym+" "+s+")")
	}
	for _, lt := range l.Lets {
		e.vars[lt.Name] = e.eval(lt.E)
	}
	var hyps []Term
	if extra != nil {
		hyps = append(hyps, extra(e))
	}
	for _, h := range l.Hyp {
		hyps = append(hyps, e.boolean(h))
	}
	body := tImp(tAnd(hyps...), e.boolean(l.Goal)).S
	if len(decl) == 0 {
		return body
	}
	if len(l.Trig) > 0 {
		body = "(! " + body
		for _, tr := range l.Trig {
			var ps []string
			for _, t := range tr {
				ps = append(ps, e.t(t).S)
			}
			body += " :pattern (" + strings.Join(ps, " ") + ")"
		}
		body += ")"
	}
	return "(forall (" + strings.Join(decl, " ") + ") " + body + ")"
}

func (x *Exec) lemmaAxiom(l *Lemma) string { return x.lemmaFormula(l, nil) }

// proveLemma proves lemma i from the axioms and the lemmas before it.
func (p *Prog) proveLemma(i int, prop string) *FuncReport {
	l := p.specs.Lemmas[i]
	t0 := time.Now()
	rep := &FuncReport{Func: "lemma " + l.Name, Pos: l.Pos, Contract: l.Pos, Kind: "lemma"}
	sp := &Spec{Name: "lemma " + l.Name, Flags: map[string]bool{}, Pos: l.Pos}
	x := p.newExec(nil, sp, prop)
	rep.x = x
	defer x.s.stop()
	guardPanics(rep, "lemma", func() {
		for _, m := range p.specs.Lemmas[:i] {
			if m.has(prop) && len(m.Trig) > 0 && (l.From == nil && !m.Local || contains(l.From, m.Name)) {
				x.s.send("(assert " + x.lemmaAxiom(m) + ")")
			}
		}
		e := x.lemmaEnv()
		st := e.st
		for _, v := range l.Vars {
			s := specSort(v.Type)
			if s == "" {
				panic(serr(l.Pos, "unknown sort %s", v.Type))
			}
			e.vars[v.Name] = tv(x.freshConst(v.Name, s), nil)
		}
		for _, lt := range l.Lets {
			v := e.eval(lt.E)
			e.vars[lt.Name] = tv(x.name("let."+lt.Name, v.T), v.Typ)
		}
		if l.Induct != "" || l.InductB != "" {
			var me *Expr
			if l.Induct != "" {
				me = parseExpr(l.Induct, l.Pos)
			}
			m := func(en *Env) Term {
				if me == nil {
					return bLen(en.term(en.vars[l.InductB]))
				}
				return en.t(me)
			}
			if len(l.Trig) == 0 {
				panic(serr(l.Pos, "an inductive lemma needs a trigger"))
			}
			cur := m(e)
			x.s.send("(assert " + x.lemmaFormula(l, func(en *Env) Term { return tAnd(tLe(tInt(0), m(en)), tLt(m(en), cur)) }) + ")")
		}
		for _, h := range l.Hyp {
			x.assume(e.boolean(h))
		}
		o := &Obl{Func: sp.Name, Kind: "vacuity", Label: "the hypotheses are satisfiable", Pos: l.Pos, Engines: map[string]int{}, Count: 1}
		x.obls["vac"] = o
		x.order = append(x.order, "vac")
		if x.s.check(2000) == "unsat" {
			o.Failed = 1
			o.Detail = "hypotheses contradictory"
		} else {
			o.Engines["z3-5.3.2-incr (not refuted)"]++
		}
		for _, u := range l.Use {
			t := e.t(u)
			if t.Sort == SBool {
				x.goal(st, "lemma", "step: "+clip(u.String(), 80), u.Pos, t)
				x.assume(t)
				continue
			}
			c := x.freshConst("use", t.Sort)
			x.assume(mk(SBool, "=", c, t))
		}
		x.goal(st, "lemma", l.Name, l.Pos, e.boolean(l.Goal))
	})
	for _, k := range x.order {
		o := x.obls[k]
		rep.Obls = append(rep.Obls, &OblRep{Name: sp.Name + ": " + o.Label, Kind: o.Kind, Pos: o.Pos, Count: o.Count, Failed: o.Failed, Engines: o.Engines, Detail: o.Detail})
	}
	rep.Ms = time.Since(t0).Milliseconds()
	return rep
}

// ---------- property checks ----------

// resolve finds the function a contract is about.
func (p *Prog) resolve(sp *Spec) (*ssa.Function, error) {
	if i := strings.Index(sp.Name, "{"); i >= 0 {
		root, callee := sp.Name[:i], strings.TrimSuffix(sp.Name[i+1:], "}")
		rf := p.funcs[root]
		if rf == nil {
			return nil, fmt.Errorf("function %s not found", root)
		}
		var found []*ssa.Function
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function, depth int)
		visit = func(f *ssa.Function, depth int) {
			if seen[f] || len(f.Blocks) == 0 || depth > 4 {
				return
			}
			seen[f] = true
			if f != rf && callsDirectly(f, callee) {
				found = append(found, f)
			}
			for _, a := range f.AnonFuncs {
				visit(a, depth)
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						if c := g.Call.StaticCallee(); c != nil && c.Pkg == rf.Pkg {
							visit(c, depth+1)
						}
					}
				}
			}
		}
		visit(rf, 0)
		if len(found) == 0 && callsDirectly(rf, callee) {
			found = append(found, rf)
		}
		if len(found) != 1 {
			return nil, fmt.Errorf("%d closures under %s call %s", len(found), root, callee)
		}
		return found[0], nil
	}
	if f := p.funcs[sp.Name]; f != nil && len(f.Blocks) > 0 {
		return f, nil
	}
	return nil, fmt.Errorf("function %s not found in the repository", sp.Name)
}

func callsDirectly(f *ssa.Function, callee string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				if trimPkg(cc.Method.FullName()) == callee || "."+cc.Method.Name() == callee {
					return true
				}
				continue
			}
			if s := cc.StaticCallee(); s != nil && trimPkg(s.String()) == callee {
				return true
			}
		}
	}
	return false
}

// Report is the outcome of a property check.
type Report struct {
	Prop        string        `json:"property"`
	Funcs       []*FuncReport `json:"functions"`
	Obligations int           `json:"obligations"`
	Discharged  int           `json:"discharged"`
	Instances   int           `json:"instances"`
	Queries     int           `json:"solver_queries"`
	SolverSec   float64       `json:"solver_seconds"`
	Fallback    int           `json:"portfolio_runs"`
	WallSec     float64       `json:"wall_seconds"`
	Assumed     []string      `json:"assumptions"`
	Failed      []*OblRep     `json:"failed"`
	Error       string        `json:"error,omitempty"`
}

// checkProp verifies every function and lemma a property rests on.
func (p *Prog) checkProp(prop, only string, jobs int) *Report {
	rep := &Report{Prop: prop}
	t0 := time.Now()
	if prop == p.lockProp() {
		p.checkLocks(rep, only, jobs)
		p.finish(rep, t0)
		return rep
	}
	type task struct {
		run func() *FuncReport
	}
	done := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, jobs)
	var add func(name string)
	var lemmas func(home string)
	launch := func(f func() *FuncReport) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			r := f()
			<-sem
			mu.Lock()
			rep.Funcs = append(rep.Funcs, r)
			if only == "" && r.lemProp != "" {
				lemmas(r.lemProp)
			}
			var more []string
			if only == "" {
				for _, u := range r.Used {
					if !done[u] {
						more = append(more, u)
					}
				}
			}
			for _, u := range more {
				add(u)
			}
			mu.Unlock()
		}()
	}
	add = func(name string) { // mu held
		if done[name] {
			return
		}
		done[name] = true
		sp := p.specs.Funcs[name]
		if sp == nil || sp.Extern {
			return
		}
		launch(func() *FuncReport {
			fn, err := p.resolve(sp)
			if err != nil {
				r := &FuncReport{Func: sp.Name, Contract: sp.Pos, Kind: "function"}
				r.fail("engine", "function under contract exists", sp.Pos, err.Error())
				return r
			}
			return p.verifyFunc(fn, sp, prop, false, nil)
		})
	}
	lemDone := map[string]bool{}
	lemmas = func(home string) { // mu held
		if lemDone["home "+home] {
			return
		}
		lemDone["home "+home] = true
		for i, l := range p.specs.Lemmas {
			if !l.has(home) || only != "" && only != "lemma "+l.Name || lemDone[l.Name] {
				continue
			}
			lemDone[l.Name] = true
			i := i
			launch(func() *FuncReport { return p.proveLemma(i, home) })
		}
	}
	mu.Lock()
	lemmas(prop)
	for _, n := range p.specs.Order {
		sp := p.specs.Funcs[n]
		if only != "" {
			if n == only {
				add(n)
			}
			continue
		}
		if sp.hasProp(prop) {
			add(n)
		}
	}
	mu.Unlock()
	wg.Wait()
	p.finish(rep, t0)
	return rep
}

func (p *Prog) finish(rep *Report, t0 time.Time) {
	sort.Slice(rep.Funcs, func(i, j int) bool { return rep.Funcs[i].Func < rep.Funcs[j].Func })
	as := map[string]bool{}
	for _, f := range rep.Funcs {
		for _, o := range f.Obls {
			rep.Obligations++
			rep.Instances += o.Count
			if o.Failed == 0 {
				rep.Discharged++
			} else {
				rep.Failed = append(rep.Failed, o)
			}
		}
		for _, e := range f.External {
			as["assumed contract: "+e] = true
		}
		for _, e := range f.Unspec {
			as["unconstrained external call (result and reachable memory arbitrary): "+e] = true
		}
	}
	rep.Assumed = sortedKeys(as)
	rep.Queries = p.stats.Queries
	rep.SolverSec = p.stats.Time.Seconds()
	rep.Fallback = p.stats.Fallback
	rep.WallSec = time.Since(t0).Seconds()
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
