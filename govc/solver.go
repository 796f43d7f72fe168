package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

func fmtInt(i int) string { return strconv.Itoa(i) }

// Solver is one incremental SMT process together with the stack of commands given to it.
type Solver struct {
	bin    string
	args   []string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	levels [][]string
	decls  map[string]int // declared symbol -> level
	nq     int
	dur    time.Duration
	base   string
	curTO  int
	tmpdir string
	stats  *Stats
	dump   string
}

// Stats counts solver work.
type Stats struct {
	sync.Mutex
	Queries  int
	Time     time.Duration
	ByEngine map[string]int
	Fallback int
}

func newSolver(base string, stats *Stats, tmpdir string) *Solver {
	s := &Solver{bin: "z3-new", args: []string{"-in", "-smt2"}, base: base, stats: stats, tmpdir: tmpdir}
	s.levels = [][]string{{}}
	s.decls = map[string]int{}
	s.start()
	return s
}

const z3opts = "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.arith.solver 2)\n"

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	if d := os.Getenv("GOVC_LOG"); d != "" { // debugging aid: what this solver is told
		fileMu.Lock()
		fileSeq++
		f, err := os.Create(filepath.Join(d, fmt.Sprintf("log%d.smt2", fileSeq)))
		fileMu.Unlock()
		if err == nil {
			s.in = teeCloser{io.MultiWriter(in, f), in}
		}
	}
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.curTO = 0
	io.WriteString(s.in, z3opts+s.base+"\n")
	for i, lv := range s.levels {
		if i > 0 {
			io.WriteString(s.in, "(push 1)\n")
		}
		for _, c := range lv {
			io.WriteString(s.in, c+"\n")
		}
	}
}

type teeCloser struct {
	io.Writer
	io.Closer
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.stop()
	s.start()
}

func (s *Solver) send(c string) {
	top := len(s.levels) - 1
	s.levels[top] = append(s.levels[top], c)
	io.WriteString(s.in, c+"\n")
}

func (s *Solver) push() {
	s.levels = append(s.levels, nil)
	io.WriteString(s.in, "(push 1)\n")
}

func (s *Solver) pop() {
	top := len(s.levels) - 1
	for k, l := range s.decls {
		if l == top {
			delete(s.decls, k)
		}
	}
	s.levels = s.levels[:top]
	io.WriteString(s.in, "(pop 1)\n")
}

func (s *Solver) depth() int { return len(s.levels) }

// declare sends cmds once per active scope for the symbol.
func (s *Solver) declare(name string, cmds ...string) bool {
	if _, ok := s.decls[name]; ok {
		return false
	}
	s.decls[name] = len(s.levels) - 1
	for _, c := range cmds {
		s.send(c)
	}
	return true
}

func (s *Solver) assert(t Term) {
	if t.B == 1 {
		return
	}
	s.send("(assert " + t.S + ")")
}

// check runs check-sat with a timeout in milliseconds.
func (s *Solver) check(ms int) string {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.dur += d
		s.nq++
		s.stats.Lock()
		s.stats.Queries++
		s.stats.Time += d
		s.stats.Unlock()
	}()
	if s.curTO != ms {
		io.WriteString(s.in, "(set-option :timeout "+itoa(ms)+")\n")
		s.curTO = ms
	}
	io.WriteString(s.in, "(check-sat)\n")
	r, ok := s.readLine(time.Duration(ms)*time.Millisecond*2 + 3*time.Second)
	if !ok {
		s.restart()
		return "unknown"
	}
	if strings.HasPrefix(r, "(error") {
		panic(unsup("solver error: %s", r))
	}
	return r
}

func (s *Solver) readLine(to time.Duration) (string, bool) {
	type res struct {
		s  string
		ok bool
	}
	ch := make(chan res, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- res{strings.TrimSpace(l), err == nil}
	}()
	select {
	case r := <-ch:
		return r.s, r.ok
	case <-time.After(to):
		return "", false
	}
}

// getValues evaluates terms in the current (candidate) model.
func (s *Solver) getValues(ts []string) map[string]string {
	out := map[string]string{}
	for _, t := range ts {
		io.WriteString(s.in, "(get-value ("+t+"))\n")
		var sb strings.Builder
		d := 0
		for {
			l, ok := s.readLine(3 * time.Second)
			if !ok {
				s.restart()
				return out
			}
			sb.WriteString(l + " ")
			d += strings.Count(l, "(") - strings.Count(l, ")")
			if d <= 0 {
				break
			}
		}
		r := strings.TrimSpace(sb.String())
		if strings.HasPrefix(r, "(error") || !strings.HasPrefix(r, "((") {
			continue
		}
		ps := splitSexp(r[2 : len(r)-2])
		if len(ps) >= 2 {
			out[t] = ps[len(ps)-1]
		}
	}
	return out
}

// script returns the complete current problem as SMT-LIB text.
func (s *Solver) script(extra string) string {
	var sb strings.Builder
	sb.WriteString(s.base + "\n")
	for _, lv := range s.levels {
		for _, c := range lv {
			sb.WriteString(c + "\n")
		}
	}
	sb.WriteString(extra)
	return sb.String()
}

type engineCfg struct {
	name string
	argv func(file string, sec int) []string
	pre  string
}

var engines = []engineCfg{
	{"z3-4.8.12", func(f string, sec int) []string { return []string{"z3", "-smt2", fmt.Sprintf("-T:%d", sec), f} }, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
	{"z3-5.3.2", func(f string, sec int) []string { return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", sec), f} }, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
	{"z3-5.3.2-mbqi", func(f string, sec int) []string { return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", sec), f} }, ""},
	{"cvc5-1.1.2", func(f string, sec int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", sec*1000), f}
	}, "(set-logic ALL)\n"},
}

var fileSeq int
var fileMu sync.Mutex
var fallbackSem = make(chan struct{}, 3)

// fallback runs the whole portfolio on a standalone script and returns the
// engine that answered unsat, if any.
func (s *Solver) fallback(script string, sec int) (string, bool) {
	return s.portfolio(script, sec, engines)
}

func (s *Solver) portfolio(script string, sec int, engines []engineCfg) (string, bool) {
	fallbackSem <- struct{}{}
	defer func() { <-fallbackSem }()
	fileMu.Lock()
	fileSeq++
	id := fileSeq
	fileMu.Unlock()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct {
		eng string
		ok  bool
	}
	ch := make(chan r, len(engines))
	t0 := time.Now()
	for i, e := range engines {
		f := filepath.Join(s.tmpdir, fmt.Sprintf("q%d_%d.smt2", id, i))
		os.WriteFile(f, []byte(e.pre+script+"\n(check-sat)\n"), 0o644)
		go func(e engineCfg, f string) {
			argv := e.argv(f, sec)
			c := exec.CommandContext(ctx, argv[0], argv[1:]...)
			var b bytes.Buffer
			c.Stdout = &b
			c.Run()
			os.Remove(f)
			ch <- r{e.name, strings.HasPrefix(strings.TrimSpace(b.String()), "unsat")}
		}(e, f)
	}
	res, ok := "", false
	for range engines {
		x := <-ch
		if x.ok && !ok {
			res, ok = x.eng, true
			cancel()
		}
	}
	s.stats.Lock()
	s.stats.Fallback++
	s.stats.Time += time.Since(t0)
	s.stats.Unlock()
	return res, ok
}

var symRe = regexp.MustCompile(`[^\s()]+`)
