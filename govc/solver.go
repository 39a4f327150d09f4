package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one incremental SMT process.
type Solver struct {
	c        *Ctx
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	ndecl    int
	named    map[int]bool
	stack    [][]*T // asserted terms by level, to rebuild scripts
	timeout  int    // ms per query
	bin      string
	Time     time.Duration
	Queries  int
	Retries  int
	log      *os.File
	unknowns int
	slow     int
	retry    bool         // try again in a fresh process
	quick    int          // time limit of the next query in ms, 0 for the usual one
	seen     map[int]bool // subterms whose attached facts are asserted
	trail    [][]int
	lt       *Solver // the light back end
	lite     bool
	ldecl    map[string]bool
	pre      []string // declarations to send
	axioms   []string
	liteHits int
	fullWins int // questions only the full theories settled
	fullLoss int
	soft     bool // a no is no failure
}

func newSolver(c *Ctx, bin string, timeoutMs int) *Solver {
	s := &Solver{c: c, timeout: timeoutMs, bin: bin}
	s.start()
	s.stack = [][]*T{nil}
	if os.Getenv("GOVC_NOLITE") == "" {
		s.lt = &Solver{c: c, timeout: timeoutMs, bin: bin, lite: true}
		s.lt.start()
		s.lt.stack = [][]*T{nil}
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", fmt.Sprintf("-t:%d", s.timeout), "-memory:3000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.ndecl = 0
	s.named = map[int]bool{}
	s.seen = map[int]bool{}
	s.trail = [][]int{nil}
	if s.lite {
		s.ldecl, s.pre, s.axioms = map[string]bool{}, nil, []string{strLaws}
		s.send("(set-option :global-declarations true)\n(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n" + litePrelude + "(declare-fun cat_Str (Str Str) Str)\n(declare-fun len_Str (Str) Int)\n(declare-fun L_str.prefixof_Str_Str (Str Str) Bool)\n(declare-fun L_str.suffixof_Str_Str (Str Str) Bool)\n")
		s.ldecl["L_str.prefixof_Str_Str"], s.ldecl["L_str.suffixof_Str_Str"] = true, true
		return
	}
	s.send("(set-option :global-declarations true)\n" + prelude)
}

func (s *Solver) close() {
	if s.lt != nil && s.lt.cmd != nil {
		defer s.lt.close()
	}
	s.stop()
}

func (s *Solver) stop() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// restart rebuilds the process with the current stack.
func (s *Solver) restart() {
	s.stop()
	s.start()
	lt := s.lt
	s.lt = nil // has its own
	defer func() { s.lt = lt }()
	st := s.stack
	s.stack = [][]*T{nil}
	for i, l := range st {
		if i > 0 {
			s.push()
		}
		for _, t := range l {
			s.assert(t)
		}
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	io.WriteString(s.in, x)
}

func (s *Solver) syncDecls() {
	if s.ndecl < len(s.c.decls) {
		var sb strings.Builder
		for ; s.ndecl < len(s.c.decls); s.ndecl++ {
			d := s.c.decls[s.ndecl]
			if s.lite {
				d = s.liteDecl(d)
				s.flushPre(&sb)
			}
			sb.WriteString(d)
			sb.WriteByte('\n')
		}
		s.send(sb.String())
	}
}

// name gives large shared subterms a definition so that terms stay DAGs.
func (s *Solver) name(t *T, sb *strings.Builder) {
	if len(t.args) == 0 || s.named[t.id] {
		return
	}
	if t.size < 12 {
		return
	}
	for _, a := range t.args {
		s.name(a, sb)
	}
	if s.lite {
		var b strings.Builder
		s.liteTop(t, &b)
		fmt.Fprintf(&b, ")\n")
		srt := s.liteSort(t.sort)
		s.flushPre(sb)
		fmt.Fprintf(sb, "(define-fun t!%d () %s ", t.id, srt)
		sb.WriteString(b.String())
		s.named[t.id] = true
		return
	}
	fmt.Fprintf(sb, "(define-fun t!%d () %s ", t.id, t.sort)
	t.renderTop(sb, s.named)
	sb.WriteString(")\n")
	s.named[t.id] = true
}

func (s *Solver) render(t *T) string {
	s.syncDecls()
	var defs strings.Builder
	s.name(t, &defs)
	if defs.Len() > 0 {
		s.send(defs.String())
	}
	var sb strings.Builder
	if s.lite {
		s.liteTerm(t, &sb)
		var p strings.Builder
		s.flushPre(&p)
		s.send(p.String())
		return sb.String()
	}
	t.render(&sb, s.named)
	return sb.String()
}

func (s *Solver) push() {
	if s.lt != nil {
		s.lt.push()
	}
	s.stack = append(s.stack, nil)
	s.trail = append(s.trail, nil)
	s.send("(push 1)\n")
}

func (s *Solver) pop() {
	if s.lt != nil {
		s.lt.pop()
	}
	s.stack = s.stack[:len(s.stack)-1]
	for _, id := range s.trail[len(s.trail)-1] {
		delete(s.seen, id)
	}
	s.trail = s.trail[:len(s.trail)-1]
	s.send("(pop 1)\n")
}

func (s *Solver) assert(t *T) {
	if t.isTrue() {
		return
	}
	if s.lt != nil {
		s.lt.assert(t)
	}
	s.stack[len(s.stack)-1] = append(s.stack[len(s.stack)-1], t)
	s.assert1(t)
}

// assert1 asserts t together with the facts attached to its subterms.
func (s *Solver) assert1(t *T) {
	x := s.render(t)
	s.send("(assert " + x + ")\n")
	var todo []*T
	s.collect(t, &todo)
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		x := s.render(f)
		s.send("(assert " + x + ")\n")
		s.collect(f, &todo)
	}
}

func (s *Solver) collect(t *T, todo *[]*T) {
	if s.seen[t.id] {
		return
	}
	s.seen[t.id] = true
	l := len(s.trail) - 1
	s.trail[l] = append(s.trail[l], t.id)
	*todo = append(*todo, s.c.facts[t.id]...)
	for _, a := range t.args {
		s.collect(a, todo)
	}
}

// since has the assumptions made above a level of the stack.
func (s *Solver) since(level int) []*T {
	var r []*T
	for _, l := range s.stack[level:] {
		r = append(r, l...)
	}
	return r
}

// asserted reports whether t is one of the assumptions.
func (s *Solver) asserted(t *T) bool {
	if t.op == "and" {
		for _, a := range t.args {
			if !s.asserted(a) {
				return false
			}
		}
		return true
	}
	for _, l := range s.stack {
		for _, a := range l {
			if a == t {
				return true
			}
			if a.op == "and" {
				for _, b := range a.args {
					if b == t {
						return true
					}
				}
			}
		}
	}
	return false
}

// otherLit reports whether t says that something is a literal that is assumed to be another one.
func (s *Solver) otherLit(t *T) bool {
	v, l := eqLit(t)
	if v == nil {
		return false
	}
	for _, lv := range s.stack {
		for _, a := range lv {
			if w, m := eqLit(a); w == v && m != l {
				return true
			}
		}
	}
	return false
}

// eqLit takes an equation with a string literal apart.
func eqLit(t *T) (*T, *T) {
	if t.op != "=" || len(t.args) != 2 {
		return nil, nil
	}
	a, b := t.args[0], t.args[1]
	if a.isStr() {
		a, b = b, a
	}
	if !b.isStr() || a.isStr() {
		return nil, nil
	}
	return a, b
}

// check returns sat, unsat or unknown for the current stack plus extra.
func (s *Solver) check(extra ...*T) (res string) {
	t0 := time.Now()
	defer func() {
		s.Time += time.Since(t0)
		if os.Getenv("GOVC_SLOW") != "" && (time.Since(t0) > 1*time.Millisecond) {
			g := ""
			for _, e := range extra {
				g += " " + trunc(e.String(), 300)
			}
			fmt.Fprintf(os.Stderr, "SLOW %.3fs lite=%v q=%d %s %s\n", time.Since(t0).Seconds(), s.lite, s.quick, res, g)
			if time.Since(t0) > 5*time.Second || s.slow == 40 && os.Getenv("GOVC_SLOW") == "2" {
				os.WriteFile("/tmp/slow.smt2", []byte(s.script(extra...)), 0o644)
			}
			s.slow++
		}
	}()
	s.Queries++
	for _, e := range extra {
		if e.isFalse() {
			return "unsat"
		}
	}
	if s.lt != nil {
		s.lt.quick = 1000
		if s.quick > 0 {
			s.lt.quick = min(1000, s.quick)
		} else if s.retry && !s.soft {
			s.lt.quick = 3000
		}
		s.lt.quick *= scale
		if s.lt.check(extra...) == "unsat" {
			s.liteHits++
			return "unsat"
		}
		if s.quick > 0 && scale == 1 && s.fullLoss-20*s.fullWins > 25 {
			return "unknown" // always allowed for these
		}
		lt := s.lt
		s.lt = nil
		defer func() {
			s.lt = lt
			if res == "unsat" {
				s.fullWins++
			} else {
				s.fullLoss++
			}
		}()
	}
	s.push()
	for _, e := range extra {
		s.assert(e)
	}
	if s.lite {
		for _, a := range s.axioms {
			s.send(a)
		}
	}
	// the resource limit does not depend on how busy the machine is, the time limit is a backstop
	lim := s.timeout
	if s.quick > 0 {
		lim = s.quick
	} else if s.retry {
		lim = min(lim, 1500*scale) // other solvers are asked next
	}
	if !s.lite && !s.retry && scale == 1 {
		// where the light back end has settled everything so far, the full theories get less time
		if n := s.fullLoss - 20*s.fullWins; n > 200 {
			lim = min(lim, 10)
		} else if n > 60 {
			lim = min(lim, 30)
		} else if n > 20 {
			lim = min(lim, 300)
		}
	}
	rl := lim * rlimitPerMs
	lim *= 4
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :rlimit %d)\n(check-sat)\n(set-option :rlimit 0)\n", lim, rl))
	p := s.cmd.Process
	tm := time.AfterFunc(time.Duration(lim+100)*time.Millisecond, func() { p.Kill() }) // string problems can ignore the limit
	r := s.readResult()
	tm.Stop()
	if r == "dead" {
		s.stack = s.stack[:len(s.stack)-1]
		s.restart()
		r = "unknown"
	} else {
		s.pop()
	}
	if r == "unknown" && s.quick == 0 && s.retry && !(s.soft && scale == 1 && s.fullLoss-20*s.fullWins > 20) {
		// a fresh process often decides what the incremental one does not
		sc := s.script(extra...)
		for _, b := range []string{"cvc5", s.bin} {
			s.Retries++
			if r, _ = runOnce(b, sc, 4000*scale); r != "unknown" {
				break
			}
		}
	}
	return r
}

func (s *Solver) readResult() string {
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "dead"
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat", "unsat", "unknown", "timeout":
			if line == "timeout" {
				line = "unknown"
			}
			if line == "unknown" {
				s.unknowns++
			}
			return line
		case "":
		default:
			if strings.HasPrefix(line, "(error") {
				fmt.Fprintln(os.Stderr, "solver:", line)
				if strings.Contains(line, "out of memory") || strings.Contains(line, "canceled") {
					return "dead"
				}
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(line)
				}
			}
		}
	}
}

// script renders the current stack plus extra as a standalone problem.
func (s *Solver) script(extra ...*T) string {
	var ts []*T
	for _, l := range s.stack {
		ts = append(ts, l...)
	}
	ts = append(ts, extra...)
	return standalone(s.c, ts)
}

func standalone(c *Ctx, ts []*T) string {
	named := map[int]bool{}
	var defs strings.Builder
	var name func(t *T)
	seen := map[int]bool{}
	name = func(t *T) {
		if len(t.args) == 0 || seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			name(a)
		}
		if t.size >= 12 {
			fmt.Fprintf(&defs, "(define-fun t!%d () %s ", t.id, t.sort)
			t.renderTop(&defs, named)
			defs.WriteString(")\n")
			named[t.id] = true
		}
	}
	var as strings.Builder
	done := map[int]bool{}
	for i := 0; i < len(ts); i++ {
		ts[i].visit(done, func(u *T) { ts = append(ts, c.facts[u.id]...) })
	}
	for _, t := range ts {
		name(t)
		as.WriteString("(assert ")
		t.render(&as, named)
		as.WriteString(")\n")
	}
	return prelude + strings.Join(c.decls, "\n") + "\n" + defs.String() + as.String() + "(check-sat)\n"
}

// runOnce runs a standalone script on a given solver binary.
func runOnce(bin string, script string, timeoutMs int) (string, string) {
	f, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return "unknown", err.Error()
	}
	defer os.Remove(f.Name())
	var cmd *exec.Cmd
	if strings.Contains(bin, "cvc5") {
		f.WriteString("(set-logic ALL)\n" + script)
		cmd = exec.Command(bin, "--strings-exp", fmt.Sprintf("--tlimit=%d", timeoutMs), f.Name())
	} else {
		f.WriteString(script)
		cmd = exec.Command(bin, fmt.Sprintf("-t:%d", timeoutMs), "-memory:3000", fmt.Sprintf("-T:%d", timeoutMs/1000+5), f.Name())
	}
	f.Close()
	out, _ := cmd.CombinedOutput()
	o := string(out)
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "sat", "unsat", "unknown":
			return strings.TrimSpace(l), o
		}
	}
	return "unknown", o
}

const prelude = `(declare-datatypes ((Loc 0)) (((mkloc (oid Int) (pth Int)))))
(declare-datatypes ((Iface 0)) (((mki (itag Int) (iloc Loc)))))
(declare-datatypes ((F64 0)) (((mkfin (fval Real)) (mknan) (mkpinf) (mkninf))))
`

func z3bin() string {
	if b := os.Getenv("GOVC_Z3"); b != "" {
		return b
	}
	return "z3"
}

const rlimitPerMs = 1500

// scale multiplies the time limits of the solver.
var scale = func() int {
	n, _ := strconv.Atoi(os.Getenv("GOVC_SCALE"))
	return max(n, 1)
}()
