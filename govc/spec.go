package main

import (
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Clause is one named contract clause.
type Clause struct {
	Kind  string // requires, ensures
	Label string
	Props []string // properties this clause belongs to (empty: all of the spec)
	E     *Expr
	Pos   string
	Free  bool // assumed at call sites, not proved (documented assumption)
}

// Cand is a loop-invariant template.
type Cand struct {
	Vars []BVar
	E    *Expr
	Pos  string
}

// Spec is the contract of one function.
type Spec struct {
	Name     string
	Extern   bool
	Params   []string
	Results  []string
	Props    []string
	Requires []*Clause
	Ensures  []*Clause
	Panics   []*Clause // conditions under which the function may panic
	Modifies []*Mod
	ModAny   bool
	Cands    []*Cand
	Flags    map[string]bool
	Lets     []*Let
	Pos      string
	NoFrame  bool
	Atcalls  []*AtCall
	Relies   []*Monitor // assumed of the other goroutines between two critical sections
	Asserts  []*Clause  // asserted then assumed at exit before the ensures (proof hints)
	Replay   string
	Reveal   []*Clause // terms at which definitions controlled by tick are unfolded
}

// AtCall is an assertion evaluated whenever the body calls the named function.
type AtCall struct {
	Callee string
	Params []string
	C      *Clause
}

// Let names an expression evaluated in the pre-state.
type Let struct {
	Name string
	E    *Expr
}

// Ghost is a ghost variable declaration.
type Ghost struct {
	Name   string
	Idx    bool
	Idx2   string
	Sort   string
	ZeroOf string
}

// Macro is a spec-level definition expanded at parse time.
type Macro struct {
	Name   string
	Params []string
	E      *Expr
}

// Guard says which lock protects a field.
type Guard struct {
	Struct, Field, Lock string
	Write               bool // only writes need the lock
	Fixed               bool // the field itself never changes; only what it refers to
	Pos                 string
}

// Lemma is a proposition proved from the prelude axioms and earlier lemmas.
type Lemma struct {
	Name    string
	Props   []string
	Vars    []BVar
	Trig    [][]*Expr
	Hyp     []*Expr
	Goal    *Expr
	Induct  string // induction variable (Int, >= 0)
	Local   bool   // not used when functions are verified
	From    []string
	Lets    []*Let
	InductB string // induction on the length of a sequence variable: lemma for its prefix
	Pos     string
	Use     []*Expr
	Module  string
	Global  bool
}

// SpecFile is the parsed set of all contracts.
type Specs struct {
	Funcs    map[string]*Spec
	Order    []string
	Ghosts   map[string]*Ghost
	Macros   map[string]*Macro
	Guards   []*Guard
	Lemmas   []*Lemma
	Globals  []*Clause // assumed facts on immutable globals
	Inv      []*Clause
	Orders   [][2]string
	Monitors []*Monitor
	HeldAts  []*HeldAt
	Befores  []*Monitor // hold until a sync.Once has run
	Chaninvs []*Monitor // hold of every value sent on a channel of the type
}

// Mod is a location a function may write.
type Mod struct {
	E *Expr
	C *Clause // for which properties
}

// Monitor is an invariant of the state guarded by a lock.
type Monitor struct {
	Struct, Lock, Param string
	C                   *Clause
}

var headRe = regexp.MustCompile(`^(spec|extern)\s+"([^"]+)"\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)
var clauseRe = regexp.MustCompile(`^([a-z]+)(?:\[([^\]]*)\])?(?:\s+|$)(.*)$`)

var keywords = map[string]bool{
	"spec": true, "extern": true, "prop": true, "requires": true, "ensures": true, "modifies": true,
	"cand": true, "ghost": true, "guard": true, "nopanic": true, "lemma": true, "define": true,
	"let": true, "pure": true, "assumes": true, "globalfact": true, "flag": true, "panics": true,
	"hyp": true, "goal": true, "induct": true, "trigger": true, "use": true, "noframe": true, "atcall": true,
	"assert": true, "replay": true, "inductb": true, "monitor": true, "heldat": true, "lockorder": true, "rely": true, "before": true, "chaninv": true, "reveal": true, "local": true, "from": true,
}

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

func parseVars(s, pos string) []BVar {
	var out []BVar
	d := 0
	st := 0
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	for i := 0; i <= len(s); i++ {
		if i == len(s) || (s[i] == ',' && d == 0) {
			f := strings.SplitN(strings.TrimSpace(s[st:i]), " ", 2)
			if len(f) != 2 {
				panic(serr(pos, "bad variable declaration %q", s[st:i]))
			}
			out = append(out, BVar{f[0], strings.ReplaceAll(f[1], " ", "")})
			st = i + 1
			continue
		}
		if s[i] == '(' || s[i] == '[' {
			d++
		}
		if s[i] == ')' || s[i] == ']' {
			d--
		}
	}
	return out
}

func loadSpecs(dir string) *Specs {
	sp := &Specs{Funcs: map[string]*Spec{}, Ghosts: map[string]*Ghost{}, Macros: map[string]*Macro{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		sp.parseFile(f)
	}
	return sp
}

func (sp *Specs) parseFile(fn string) {
	raw, err := os.ReadFile(fn)
	if err != nil {
		panic(err)
	}
	lines := strings.Split(string(raw), "\n")
	type item struct {
		text string
		pos  string
	}
	var items []item
	for i, ln := range lines {
		t := strings.TrimSpace(ln)
		if t == "" || strings.HasPrefix(t, "#") || strings.HasPrefix(t, "//") {
			continue
		}
		pos := filepath.Base(fn) + ":" + itoa(i+1)
		m := clauseRe.FindStringSubmatch(t)
		if m != nil && keywords[m[1]] {
			items = append(items, item{t, pos})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		} else {
			panic(serr(pos, "unexpected line %q", t))
		}
	}
	var cur *Spec
	var lem *Lemma
	var pendingAtcall string
	_ = pendingAtcall
	for _, it := range items {
		pos := it.pos
		m := clauseRe.FindStringSubmatch(it.text)
		kw, lab, body := m[1], m[2], strings.TrimSpace(m[3])
		mkClause := func(kind, label, txt string) *Clause {
			c := &Clause{Kind: kind, Label: label, Pos: pos, E: parseExpr(txt, pos)}
			// label of the form "C01,C02:name"
			if i := strings.Index(label, ":"); i >= 0 {
				c.Props = splitNames(label[:i])
				c.Label = label[i+1:]
			}
			if c.Label == "" {
				c.Label = txt
				if len(c.Label) > 60 {
					c.Label = c.Label[:60]
				}
			}
			return c
		}
		switch kw {
		case "spec", "extern":
			lem = nil
			h := headRe.FindStringSubmatch(it.text)
			if h == nil {
				panic(serr(pos, "bad spec header %q", it.text))
			}
			cur = &Spec{Name: h[2], Extern: h[1] == "extern", Params: splitNames(h[3]), Results: splitNames(h[4]), Flags: map[string]bool{}, Pos: pos}
			if _, dup := sp.Funcs[cur.Name]; dup {
				panic(serr(pos, "duplicate spec for %s", cur.Name))
			}
			sp.Funcs[cur.Name] = cur
			sp.Order = append(sp.Order, cur.Name)
		case "prop":
			if lem != nil {
				lem.Props = append(lem.Props, strings.Fields(body)...)
			} else {
				cur.Props = append(cur.Props, strings.Fields(body)...)
			}
		case "reveal":
			cur.Reveal = append(cur.Reveal, mkClause("reveal", lab, body))
		case "requires":
			cur.Requires = append(cur.Requires, mkClause("requires", lab, body))
		case "ensures":
			cur.Ensures = append(cur.Ensures, mkClause("ensures", lab, body))
		case "assumes":
			c := mkClause("ensures", lab, body)
			c.Free = true
			cur.Ensures = append(cur.Ensures, c)
		case "assert":
			cur.Asserts = append(cur.Asserts, mkClause("assert", lab, body))
		case "panics":
			cur.Panics = append(cur.Panics, mkClause("panics", lab, body))
		case "modifies":
			if body == "*" {
				cur.ModAny = true
			} else {
				c := &Clause{}
				if lab != "" {
					c = mkClause("modifies", lab, "true")
				}
				for _, e := range parseExprList(body, pos) {
					cur.Modifies = append(cur.Modifies, &Mod{e, c})
				}
			}
		case "noframe":
			cur.NoFrame = true
		case "replay":
			cur.Replay = body
		case "let":
			i := strings.Index(body, "=")
			if lem != nil {
				lem.Lets = append(lem.Lets, &Let{strings.TrimSpace(body[:i]), parseExpr(body[i+1:], pos)})
				break
			}
			cur.Lets = append(cur.Lets, &Let{strings.TrimSpace(body[:i]), parseExpr(body[i+1:], pos)})
		case "nopanic", "pure":
			cur.Flags[kw] = true
		case "flag":
			for _, f := range strings.Fields(body) {
				cur.Flags[f] = true
			}
		case "atcall":
			// atcall[label] "callee" (a, b) expr
			r := regexp.MustCompile(`^"([^"]+)"\s*\(([^)]*)\)\s*(.*)$`).FindStringSubmatch(body)
			if r == nil {
				panic(serr(pos, "bad atcall"))
			}
			cur.Atcalls = append(cur.Atcalls, &AtCall{r[1], splitNames(r[2]), mkClause("atcall", lab, r[3])})
		case "cand":
			i := strings.Index(body, "::")
			c := &Cand{Pos: pos}
			if strings.HasPrefix(body, "(") && i >= 0 {
				h := strings.TrimSpace(body[:i])
				c.Vars = parseVars(h[1:len(h)-1], pos)
				body = body[i+2:]
			}
			c.E = parseExpr(body, pos)
			cur.Cands = append(cur.Cands, c)
		case "ghost":
			// ghost name : sort | ghost name : [ref]sort
			f := strings.SplitN(body, ":", 2)
			g := &Ghost{Name: strings.TrimSpace(f[0])}
			ty := strings.TrimSpace(f[1])
			if i := strings.Index(ty, " of "); i >= 0 {
				g.ZeroOf = strings.TrimSpace(ty[i+4:])
				ty = strings.TrimSpace(ty[:i])
			}
			if strings.HasPrefix(ty, "[ref]") {
				g.Idx = true
				ty = ty[5:]
			}
			g.Sort = specSort(ty)
			if g.Sort == "" {
				panic(serr(pos, "bad ghost sort %q", ty))
			}
			sp.Ghosts[g.Name] = g
		case "define":
			r := regexp.MustCompile(`^([A-Za-z_0-9]+)\(([^)]*)\)\s*=\s*(.*)$`).FindStringSubmatch(body)
			if r == nil {
				panic(serr(pos, "bad define %q", body))
			}
			if sp.Macros[r[1]] != nil {
				panic(serr(pos, "%s is defined twice", r[1]))
			}
			sp.Macros[r[1]] = &Macro{r[1], splitNames(r[2]), parseExpr(r[3], pos)}
		case "guard":
			// guard Struct.field by Lock [writes]
			f := strings.Fields(body)
			i := strings.LastIndex(f[0], ".")
			g := &Guard{Struct: f[0][:i], Field: f[0][i+1:], Lock: f[2], Pos: pos}
			for _, w := range f[3:] {
				g.Write = g.Write || w == "writes"
				g.Fixed = g.Fixed || w == "fixed"
			}
			sp.Guards = append(sp.Guards, g)
		case "heldat":
			// heldat[label] "callee" "Struct.Lock"
			r := regexp.MustCompile(`^"([^"]+)"\s+"([^"]+)"\s*$`).FindStringSubmatch(body)
			if r == nil {
				panic(serr(pos, "bad heldat"))
			}
			sp.HeldAts = append(sp.HeldAts, &HeldAt{r[1], r[2], lab, pos})
		case "globalfact":
			sp.Globals = append(sp.Globals, mkClause("globalfact", lab, body))
		case "monitor":
			// monitor[label] "Struct.Lock" (s) expr
			r := regexp.MustCompile(`^"([^"]+)"\s*\(([^)]*)\)\s*(.*)$`).FindStringSubmatch(body)
			if r == nil {
				panic(serr(pos, "bad monitor"))
			}
			i := strings.LastIndex(r[1], ".")
			sp.Monitors = append(sp.Monitors, &Monitor{r[1][:i], r[1][i+1:], strings.TrimSpace(r[2]), mkClause("monitor", lab, r[3])})
		case "before":
			// before[label] "Struct.once" (s) expr: holds until the function run by the sync.Once has run
			r := regexp.MustCompile(`^"([^"]+)"\s*\(([^)]*)\)\s*(.*)$`).FindStringSubmatch(body)
			if r == nil {
				panic(serr(pos, "bad before"))
			}
			i := strings.LastIndex(r[1], ".")
			sp.Befores = append(sp.Befores, &Monitor{r[1][:i], r[1][i+1:], strings.TrimSpace(r[2]), mkClause("before", lab, r[3])})
		case "chaninv":
			// chaninv[label] "*T" (v) expr: of every *T sent over a channel
			r := regexp.MustCompile(`^"([^"]+)"\s*\(([^)]*)\)\s*(.*)$`).FindStringSubmatch(body)
			if r == nil {
				panic(serr(pos, "bad chaninv"))
			}
			sp.Chaninvs = append(sp.Chaninvs, &Monitor{r[1], "", strings.TrimSpace(r[2]), mkClause("chaninv", lab, r[3])})
		case "rely":
			// rely[label] "Struct.Lock" (s) expr; old(e) is the value before the lock was taken
			r := regexp.MustCompile(`^"([^"]+)"\s*\(([^)]*)\)\s*(.*)$`).FindStringSubmatch(body)
			if r == nil {
				panic(serr(pos, "bad rely"))
			}
			i := strings.LastIndex(r[1], ".")
			cur.Relies = append(cur.Relies, &Monitor{r[1][:i], r[1][i+1:], strings.TrimSpace(r[2]), mkClause("rely", lab, r[3])})
		case "lockorder":
			f := strings.Fields(body)
			sp.Orders = append(sp.Orders, [2]string{f[0], f[1]})
		case "lemma":
			cur = nil
			r := regexp.MustCompile(`^([A-Za-z_0-9]+)\((.*)\)\s*$`).FindStringSubmatch(body)
			if r == nil {
				panic(serr(pos, "bad lemma %q", body))
			}
			lem = &Lemma{Name: r[1], Vars: parseVars(r[2], pos), Pos: pos}
			sp.Lemmas = append(sp.Lemmas, lem)
		case "hyp":
			lem.Hyp = append(lem.Hyp, parseExpr(body, pos))
		case "goal":
			lem.Goal = parseExpr(body, pos)
		case "induct":
			lem.Induct = body
		case "inductb":
			lem.InductB = body
		case "local":
			lem.Local = true
		case "from":
			lem.From = append(strings.Fields(body), "-")
		case "trigger":
			lem.Trig = append(lem.Trig, parseExprList(body, pos))
		case "use":
			lem.Use = append(lem.Use, parseExpr(body, pos))
		default:
			panic(serr(pos, "unknown keyword %q", kw))
		}
	}
}

func (sp *Specs) sortedGhosts() []*Ghost {
	var out []*Ghost
	for _, g := range sp.Ghosts {
		out = append(out, g)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func specSort(t string) string {
	switch t {
	case "int", "ref", "byte", "uint64", "uint", "int64", "error", "iface":
		return SInt
	case "bool":
		return SBool
	case "bytes", "string", "seq":
		return SB
	case "slice":
		return SSl
	case "intmap":
		return arr(SInt, SInt)
	case "bytesmap":
		return arr(SInt, SB)
	case "slmap":
		return arr(SInt, SSl)
	case "strset":
		return arr(SB, SBool)
	case "intset":
		return arr(SInt, SBool)
	case "strstr":
		return arr(SB, SB)
	case "strmap":
		return arr(SB, SInt)
	}
	return ""
}

// aboutLocks reports whether an expression speaks of the locks taken on the path.
func (sp *Specs) aboutLocks(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.Op == "call" && len(e.Args) > 0 && e.Args[0].Op == "id" {
		switch n := e.Args[0].Name; n {
		case "atlock", "atunlock", "locked", "held":
			return true
		default:
			if m, ok := sp.Macros[n]; ok && sp.aboutLocks(m.E) {
				return true
			}
		}
	}
	for _, a := range e.Args {
		if sp.aboutLocks(a) {
			return true
		}
	}
	return false
}

func itoa(i int) string {
	return fmtInt(i)
}

func (s *Spec) hasProp(p string) bool {
	for _, q := range s.Props {
		if q == p {
			return true
		}
	}
	return false
}

// active reports whether the clause takes part in checking property p of spec s.
func (c *Clause) active(s *Spec, p string) bool {
	if p == "" {
		return true
	}
	if len(c.Props) == 0 {
		return true
	}
	for _, q := range c.Props {
		if q == p {
			return true
		}
	}
	return false
}
