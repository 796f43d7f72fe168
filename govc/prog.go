package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type smtSig struct {
	args []string
	res  string
}

// Prog is the loaded program together with its contracts.
type Prog struct {
	module      string
	repo        string
	fset        *token.FileSet
	pkgs        []*packages.Package
	ssa         *ssa.Program
	ssapkgs     []*ssa.Package
	funcs       map[string]*ssa.Function
	all         []*ssa.Function
	smu         sync.Mutex
	structNames map[*types.Struct]string
	mu          sync.Mutex
	faTags      map[string]int
	gids        map[string]int
	tags        map[string]int
	tagTypes    map[int]types.Type
	loops       map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	specs       *Specs
	smtFns      map[string]smtSig
	heapType    map[string]types.Type
	initHeaps   map[string]string
	verbose     int
	dumpDir     string
	fallbackSec int
	tmpdir      string
	prelude     string
	modules     []smtModule
	stats       *Stats
	mutable     map[*ssa.Global]bool
	byPath      map[string]*types.Package
	locks       *lockInfo
	muEdges     sync.Mutex
	boxed       map[string]bool
	edges       map[string]map[string]string
}

func loadProg(repo, specDir string) (*Prog, error) {
	p := &Prog{repo: repo, structNames: map[*types.Struct]string{}, faTags: map[string]int{}, gids: map[string]int{},
		tags: map[string]int{}, tagTypes: map[int]types.Type{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		smtFns: map[string]smtSig{}, heapType: map[string]types.Type{}, initHeaps: map[string]string{}, funcs: map[string]*ssa.Function{},
		stats: &Stats{ByEngine: map[string]int{}}, fallbackSec: 10, byPath: map[string]*types.Package{}, mutable: map[*ssa.Global]bool{},
		edges: map[string]map[string]string{}}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(mod)
	if m == nil {
		return nil, fmt.Errorf("no module line in go.mod")
	}
	p.module = string(m[1])
	p.fset = token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Fset: p.fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./engine", ".")
	if err != nil {
		return nil, err
	}
	for _, q := range pkgs {
		for _, e := range q.Errors {
			return nil, fmt.Errorf("loading %s: %v", q.PkgPath, e)
		}
	}
	p.pkgs = pkgs
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	p.ssapkgs = spkgs
	var walk func(t *types.Package)
	walk = func(t *types.Package) {
		if _, ok := p.byPath[t.Path()]; ok {
			return
		}
		p.byPath[t.Path()] = t
		for _, i := range t.Imports() {
			walk(i)
		}
	}
	for _, q := range pkgs {
		walk(q.Types)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil && fn.Synthetic == "" {
			continue
		}
		var tp *types.Package
		if fn.Pkg != nil {
			tp = fn.Pkg.Pkg
		} else if fn.Object() != nil {
			tp = fn.Object().Pkg()
		}
		if !p.isRepoPkg(tp) {
			continue
		}
		n := trimPkg(fn.String())
		if _, dup := p.funcs[n]; !dup || fn.Synthetic == "" {
			p.funcs[n] = fn
		}
		if fn.Synthetic == "" || fn.Name() == "init" {
			p.all = append(p.all, fn)
		}
	}
	sort.Slice(p.all, func(i, j int) bool { return p.all[i].String() < p.all[j].String() })
	// struct names and field heaps
	for _, q := range pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			if tn.IsAlias() {
				continue
			}
			key := sanitize(trimPkg(q.PkgPath + "." + n))
			if old, ok := p.structNames[st]; ok {
				if old < key {
					key = old
				}
			}
			// types defined from one another share the struct and hence the key
			p.structNames[st] = key
		}
	}
	for st, key := range p.structNames {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if isStructT(f.Type()) || isArray(f.Type()) {
				continue
			}
			h := "F." + key + "." + sanitize(f.Name())
			p.initHeaps[h] = p.sortOf(f.Type())
			p.heapType[h] = f.Type()
		}
	}
	// mutable globals: those stored to outside package initialisers
	for _, fn := range p.all {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						p.mutable[g] = true
					}
				}
			}
		}
	}
	p.specs = loadSpecs(specDir)
	var pre strings.Builder
	files, _ := filepath.Glob(filepath.Join(specDir, "*.smt2"))
	sort.Strings(files)
	for _, f := range files {
		if filepath.Base(f) != "prelude.smt2" {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		pre.Write(b)
		pre.WriteString("\n")
	}
	p.modules = nil
	for _, f := range files {
		if filepath.Base(f) == "prelude.smt2" {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		m := smtModule{text: string(b) + "\n"}
		if ln := strings.SplitN(m.text, "\n", 2)[0]; strings.HasPrefix(ln, "; for ") {
			m.props = strings.Fields(ln[6:])
		}
		p.modules = append(p.modules, m)
		p.parseSigs(m.text)
	}
	p.prelude = pre.String()
	p.parseSigs(p.prelude)
	for n := range p.specs.Macros {
		if regexp.MustCompile(`\((?:declare|define)-(?:fun|fun-rec|const) ` + n + `[ )]`).MatchString(p.prelude + modulesText(p.modules)) {
			return nil, fmt.Errorf("the macro %s hides a function of the same name", n)
		}
	}
	return p, nil
}

func modulesText(ms []smtModule) string {
	var b strings.Builder
	for _, m := range ms {
		b.WriteString(m.text)
	}
	return b.String()
}

// smtModule is a file of definitions, for some of the properties or for all.
type smtModule struct {
	text  string
	props []string
}

// preludeFor returns the definitions a property's obligations are stated with.
func (p *Prog) preludeFor(prop string) string {
	out := p.prelude
	for _, m := range p.modules {
		use := len(m.props) == 0 || prop == ""
		for _, q := range m.props {
			use = use || q == prop
		}
		if use {
			out += m.text
		}
	}
	return out
}

func (p *Prog) parseSigs(src string) {
	var sb strings.Builder
	for _, ln := range strings.Split(src, "\n") {
		if i := strings.Index(ln, ";"); i >= 0 {
			ln = ln[:i]
		}
		sb.WriteString(ln + "\n")
	}
	for _, c := range splitSexp(strings.ReplaceAll(sb.String(), "\n", " ")) {
		if !strings.HasPrefix(c, "(") {
			continue
		}
		ps := splitSexp(c[1 : len(c)-1])
		switch ps[0] {
		case "declare-fun", "define-fun", "define-fun-rec":
			var args []string
			for _, a := range splitSexp(ps[2][1 : len(ps[2])-1]) {
				if ps[0] != "declare-fun" {
					aa := splitSexp(a[1 : len(a)-1])
					a = aa[1]
				}
				args = append(args, a)
			}
			p.smtFns[ps[1]] = smtSig{args, ps[3]}
		case "declare-const":
			p.smtFns[ps[1]] = smtSig{nil, ps[2]}
		}
	}
}

func (p *Prog) line(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// pkgByName finds a package by name; among several, one that declares the member.
func (p *Prog) pkgByName(n, member string) *types.Package {
	var best *types.Package
	for _, q := range p.pkgs {
		if q.Types.Name() == n {
			return q.Types
		}
	}
	for _, t := range p.byPath {
		if t.Name() == n && member != "" && t.Scope().Lookup(member) == nil {
			continue
		}
		if t.Name() == n && (best == nil || len(t.Path()) < len(best.Path()) || len(t.Path()) == len(best.Path()) && t.Path() < best.Path()) {
			best = t
		}
	}
	return best
}

func (p *Prog) anyPkgOf(t types.Type) *types.Package {
	if t == nil {
		return nil
	}
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (p *Prog) typeByName(n string) types.Type {
	n = strings.TrimSpace(n)
	switch {
	case strings.HasPrefix(n, "*"):
		if t := p.typeByName(n[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(n, "[]"):
		if t := p.typeByName(n[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(n, "map["):
		d := 0
		for i := 3; i < len(n); i++ {
			if n[i] == '[' {
				d++
			}
			if n[i] == ']' {
				d--
				if d == 0 {
					k, v := p.typeByName(n[4:i]), p.typeByName(n[i+1:])
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
		return nil
	case n == "chan struct{}":
		return types.NewChan(types.SendRecv, types.NewStruct(nil, nil))
	case strings.HasPrefix(n, "chan "):
		if t := p.typeByName(n[5:]); t != nil {
			return types.NewChan(types.SendRecv, t)
		}
		return nil
	case n == "interface{}" || n == "any":
		return types.NewInterfaceType(nil, nil)
	}
	if o := types.Universe.Lookup(n); o != nil {
		return o.Type()
	}
	if i := strings.LastIndex(n, "."); i >= 0 {
		if q := p.pkgByName(n[:i], n[i+1:]); q != nil {
			if o := q.Scope().Lookup(n[i+1:]); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	return nil
}

func (p *Prog) mutableGlobal(g *ssa.Global) bool { return p.mutable[g] }

func (p *Prog) guardFor(structKey, field string) *Guard {
	for _, g := range p.specs.Guards {
		if sanitize(g.Struct) == structKey && g.Field == field {
			return g
		}
	}
	return nil
}

func dumpScript(dir, name, script string) {
	os.MkdirAll(dir, 0o755)
	for i := 0; ; i++ {
		f := filepath.Join(dir, fmt.Sprintf("%s_%d.smt2", sanitize(name), i))
		if _, err := os.Stat(f); err == nil {
			continue
		}
		os.WriteFile(f, []byte(z3opts+script+"\n(check-sat)\n"), 0o644)
		return
	}
}
