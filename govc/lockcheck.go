package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// HeldAt is the obligation that a call (or a close of a channel field) happens with a lock held.
type HeldAt struct {
	Callee, Class, Label, Pos string
}

// checkLocks proves the lock discipline of every function of the repository.  A function that is
// only called from other functions of the repository and does not keep the discipline by itself
// (it locks for its caller, or counts on a lock its caller holds) is checked inside its callers.
func (p *Prog) checkLocks(rep *Report, only string, jobs int) {
	p.analyseLocks()
	inline := map[string]bool{}
	var fns []*ssa.Function
	for _, fn := range p.locks.order {
		if !p.locks.relev[fn] {
			continue
		}
		n := trimPkg(fn.String())
		if sp, ok := p.specs.Funcs[n]; ok && sp.Flags["unbalanced"] {
			continue // modelled as a lock operation where it is called
		}
		if only != "" && n != only {
			continue
		}
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue // a promoted method or a method value: part of its callers
		}
		fns = append(fns, fn)
	}
	reports := map[*ssa.Function]*FuncReport{}
	todo := fns
	for round := 0; round < 8 && len(todo) > 0; round++ {
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, jobs)
		for _, fn := range todo {
			fn := fn
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				n := trimPkg(fn.String())
				r := p.verifyFunc(fn, &Spec{Name: n, Flags: map[string]bool{}, NoFrame: true}, p.lockProp(), true, inline)
				mu.Lock()
				reports[fn] = r
				mu.Unlock()
			}()
		}
		wg.Wait()
		todo = nil
		add := map[string]bool{}
		for _, fn := range fns {
			n := trimPkg(fn.String())
			if r := reports[fn]; r != nil && r.lockFail && !inline[n] && !p.locks.escapes[fn] && p.locks.static[fn] > 0 {
				add[n] = true
			}
		}
		if len(add) == 0 {
			break
		}
		for n := range add {
			inline[n] = true
		}
		todo = fns
	}
	for _, fn := range fns {
		n := trimPkg(fn.String())
		if inline[n] && !p.locks.escapes[fn] && p.locks.static[fn] > 0 {
			continue
		}
		if p.localClosure(fn) {
			continue // part of the function that makes it
		}
		rep.Funcs = append(rep.Funcs, reports[fn])
	}
	if only != "" {
		return
	}
	r := &FuncReport{Func: "lock order", Kind: "lemma", Pos: "whole program"}
	cs := p.lockCycles()
	o := &OblRep{Name: "lock order: no two locks are taken in both orders", Kind: "lock", Pos: "whole program", Count: 1, Engines: map[string]int{"lock graph": 1}}
	if len(cs) > 0 {
		o.Failed, o.Detail = 1, strings.Join(cs, "\n")
	} else {
		var es []string
		for a, m := range p.edges {
			for b := range m {
				es = append(es, a+" before "+b)
			}
		}
		sort.Strings(es)
		o.Detail = strings.Join(es, "; ")
	}
	r.Obls = append(r.Obls, o)
	rep.Funcs = append(rep.Funcs, r)
	// the contracts name fields and locks of the code: they must exist
	g := &FuncReport{Func: "guard declarations", Kind: "lemma", Pos: "whole program"}
	for _, gd := range p.specs.Guards {
		og := &OblRep{Name: "guard declarations: " + gd.Struct + "." + gd.Field + " by " + gd.Lock, Kind: "lock", Pos: gd.Pos, Count: 1, Engines: map[string]int{"type checker": 1}}
		if !p.fieldExists(gd.Struct, gd.Field) || !p.fieldExists(gd.Struct, gd.Lock) {
			og.Failed, og.Detail, og.Kind = 1, "no such field", "engine"
		}
		g.Obls = append(g.Obls, og)
	}
	rep.Funcs = append(rep.Funcs, g)
}

func (p *Prog) fieldExists(str, field string) bool {
	t := p.typeByName(str)
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return true
		}
	}
	return false
}

func (p *Prog) localClosure(fn *ssa.Function) bool {
	return fn.Parent() != nil && !p.locks.escapes[fn]
}

// calleeEffects checks a call of a repository function against the locks held.
func (x *Exec) calleeEffects(st *State, fn *ssa.Function, name string, in ssa.Instruction) {
	li := x.P.locks
	if !li.relev[fn] {
		return
	}
	if h, ok := li.handler[fn]; ok {
		x.lockGoal(st, "user code (reached through "+name+": "+h+") is called with no lock held", in.Pos(), len(st.held) == 0, heldNames(st))
	}
	var cs []string
	for c := range li.acq[fn] {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		for _, h := range st.held {
			if h.class == c {
				// same class on another object is treated like the same object
				x.lockGoal(st, "lock "+c+" is not taken again by "+name+" while held", in.Pos(), false, heldNames(st))
			} else {
				x.addEdge(h.class, c, x.P.line(in.Pos()))
			}
		}
	}
}

// heldAt checks the declared calls that need a lock.
func (x *Exec) heldAt(st *State, name string, in ssa.Instruction) {
	if !x.lockOnly || x.probe > 0 {
		return
	}
	for _, h := range x.P.specs.HeldAts {
		if h.Callee != name {
			continue
		}
		ok := false
		for _, l := range st.held {
			if l.class == h.Class && l.mode != 'R' {
				ok = true
			}
		}
		x.lockGoal(st, fmt.Sprintf("%s: %s happens only under %s", h.Label, name, h.Class), in.Pos(), ok, heldNames(st))
	}
}
