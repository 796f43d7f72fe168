package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/specs", "contract directory")
	prop := flag.String("prop", "", "property to check")
	fn := flag.String("func", "", "check only this function or lemma")
	out := flag.String("out", "", "report file")
	verbose := flag.Int("v", 0, "verbosity")
	dump := flag.String("dump", "", "directory for failing SMT scripts")
	fb := flag.Int("fallback", 10, "seconds for the solver portfolio")
	jobs := flag.Int("j", runtime.NumCPU(), "parallel functions")
	list := flag.Bool("list", false, "list repository functions")
	ssaOf := flag.String("ssa", "", "print the SSA form of a function")
	flag.Parse()
	fatal := func(err interface{}) {
		r := &Report{Prop: *prop, Error: fmt.Sprint(err)}
		if *out != "" {
			b, _ := json.MarshalIndent(r, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(specErr); ok {
				fatal(s.msg)
			}
			panic(e)
		}
	}()
	p, err := loadProg(*repo, *specs)
	if err != nil {
		fatal(err)
	}
	p.verbose = *verbose
	p.dumpDir = *dump
	p.fallbackSec = *fb
	p.tmpdir, _ = os.MkdirTemp("", "govc")
	defer os.RemoveAll(p.tmpdir)
	if *list {
		for _, f := range p.all {
			fmt.Println(trimPkg(f.String()))
		}
		return
	}
	if *ssaOf != "" {
		f := p.funcs[*ssaOf]
		if f == nil {
			fatal("no such function")
		}
		f.WriteTo(os.Stdout)
		return
	}
	rep := p.checkProp(*prop, *fn, *jobs)
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	for _, f := range rep.Funcs {
		st := "ok"
		if f.failed() > 0 {
			st = "FAILED"
		}
		fmt.Printf("%-7s %-60s %3d obligations %4d paths %6d ms\n", st, f.Func, len(f.Obls), f.Paths, f.Ms)
		if *verbose > 0 && len(f.Inlined)+len(f.Unspec) > 0 {
			fmt.Printf("        inlined: %s\n        havocked: %s\n        assumed: %s\n", strings.Join(f.Inlined, ", "), strings.Join(f.Unspec, ", "), strings.Join(f.External, ", "))
		}
		for _, o := range f.Obls {
			if o.Failed > 0 {
				fmt.Printf("   FAILED [%s] %s at %s\n      %s\n", o.Kind, o.Name, o.Pos, strings.ReplaceAll(o.Detail, "\n", "\n      "))
			}
		}
	}
	fmt.Printf("%s: %d/%d obligations discharged, %d solver queries, %.1f s solver, %.1f s wall\n", *prop, rep.Discharged, rep.Obligations, rep.Queries, rep.SolverSec, rep.WallSec)
	if len(rep.Failed) > 0 {
		os.Exit(1)
	}
}
