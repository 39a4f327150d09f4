package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Eng verifies one function at a time.
type Eng struct {
	p         *Program
	c         *Ctx
	s         *Solver
	cs        *Contracts
	sorts     map[types.Type]string
	structOf  map[string]types.Type
	tags      map[string]int
	tagType   map[int]types.Type
	keyType   map[string]types.Type
	iterOf    map[int]*MapIter
	keySorts  map[string]string
	keyZero   map[string]*T
	mapType   map[string]types.Type
	keyOwner  map[string]types.Type
	initHeap  map[string]*HeapV
	bases     []*T
	baseIdx   map[int]int
	allocTS   map[int]int
	ts        int
	nback     int
	nrule     int
	fnIDs     map[string]int
	closures  map[int]*Closure
	small     map[int]bool
	loopInfo  map[*ssa.Function]*FnLoops
	loopCache map[string]*loopMem

	root       *ssa.Function
	ct         *Contract
	entry      *State
	env        map[string]TV // contract variables of the function being verified
	obs        map[string]*Obligation
	obOrder    []string
	failed     bool
	slowIf     map[ifSide]int
	mergers    map[string]*merger
	guards     []guard
	paths      int
	instrs     int
	deadline   time.Time
	maxPaths   int
	assumps    map[string]bool
	inlined    map[string]bool
	called     map[string]bool // contracts used
	curInstr   ssa.Instruction
	onEnd      func(st *State, results []Val) // per-path hook at return of the root function
	onBack     func(st *State, lc *LoopCtx)
	onHead     func(st *State, lc *LoopCtx)
	prop       string
	aliasFails map[int]int
	frameOff   bool
	trackKeys  map[string]bool
	nthSeen    func(st *State, s, i *T)
	cur        *State
	stop       bool
	modsAll    []modEntry
	unrollMax  int
	vacuous    map[string]bool
	maxSymMemo map[int]int
	typCache   map[string]types.Type
	noTouch    bool
	reads      map[string]bool
	foldKeys   map[string][]string
	touchDepth int
	objRules   bool // the contract speaks about all objects of a type
	seqType    map[int]types.Type
	realVal    map[int]float64
	backElem   map[int]types.Type
}

// Obligation is one named proof obligation, discharged on every path that reaches it.
type Obligation struct {
	Name   string
	Kind   string
	Pos    string
	Text   string
	VCs    int
	Solver map[string]int
	Failed bool
	Why    string
	Script string
	Model  string
	Path   []string
	Time   time.Duration
}

func newEng(p *Program, cs *Contracts) *Eng {
	c := newCtx()
	x := &Eng{aliasFails: map[int]int{}, p: p, c: c, cs: cs, sorts: map[types.Type]string{}, structOf: map[string]types.Type{}, tags: map[string]int{}, tagType: map[int]types.Type{},
		keyType: map[string]types.Type{}, mapType: map[string]types.Type{}, keyOwner: map[string]types.Type{}, keySorts: map[string]string{}, keyZero: map[string]*T{}, initHeap: map[string]*HeapV{}, baseIdx: map[int]int{},
		allocTS: map[int]int{}, fnIDs: map[string]int{}, closures: map[int]*Closure{}, small: map[int]bool{}, loopInfo: map[*ssa.Function]*FnLoops{}, loopCache: map[string]*loopMem{},
		obs: map[string]*Obligation{}, assumps: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, unrollMax: 80, vacuous: map[string]bool{}, maxSymMemo: map[int]int{}, typCache: map[string]types.Type{}, foldKeys: map[string][]string{}, seqType: map[int]types.Type{}, realVal: map[int]float64{}, backElem: map[int]types.Type{}}
	b0 := c.newSym("B", "Int")
	c.factOn(b0, c.cmp(">=", b0, c.int(1)))
	x.bases = []*T{b0}
	x.baseIdx[b0.id] = 0
	x.s = newSolver(c, z3bin(), 800*scale)
	x.c.onNth = func(s, i, r *T) {}
	return x
}

func (x *Eng) assumption(s string) { x.assumps[s] = true }

func (x *Eng) assume(st *State, t *T) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		st.ghost["dead"] = t
	}
	x.s.assert(t)
}

func (x *Eng) quiet(st *State) bool {
	for _, l := range st.loops {
		if l.collect {
			return true
		}
	}
	return false
}

func (x *Eng) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := in.Pos()
	if !p.IsValid() {
		// look around for a position
		for _, o := range in.Block().Instrs {
			if o.Pos().IsValid() {
				p = o.Pos()
				break
			}
		}
	}
	if !p.IsValid() {
		return fnKey(in.Parent())
	}
	q := x.p.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige checks that goal holds in the current state, then assumes it.
func (x *Eng) oblige(st *State, kind, name string, goal *T, pos string) bool {
	if x.quiet(st) {
		x.assume(st, goal)
		return true
	}
	full := kind + ":" + name
	o := x.obs[full]
	if o == nil {
		o = &Obligation{Name: full, Kind: kind, Pos: pos, Solver: map[string]int{}}
		x.obs[full] = o
		x.obOrder = append(x.obOrder, full)
	}
	o.VCs++
	if goal.isTrue() {
		o.Solver["simplifier"]++
		return true
	}
	t0 := time.Now()
	r, by := x.prove(goal)
	o.Time += time.Since(t0)
	if r == "unsat" {
		o.Solver[by]++
		x.assume(st, goal)
		return true
	}
	if !o.Failed {
		o.Failed = true
		x.failed = true
		o.Why = r
		o.Text = trunc(goal.String(), 2000)
		o.Script = x.s.script(x.c.not(goal))
		o.Path = append([]string(nil), st.path...)
		if r == "sat" {
			o.Model = x.modelFor(goal)
		}
		if os.Getenv("GOVC_TRACE") != "" {
			fmt.Fprintf(os.Stderr, "FAILED %s %s (%s) %s\n  goal %s\n  path %v\n", fnKey(x.root), full, pos, r, trunc(goal.String(), 1500), st.path)
			if os.Getenv("GOVC_TRACE") == "2" {
				os.WriteFile("/tmp/fail.smt2", []byte(o.Script), 0o644)
				fmt.Fprintln(os.Stderr, o.Model)
			}
		}
	}
	if goal.isFalse() {
		st.ghost["dead"] = goal
		return false
	}
	x.assume(st, goal)
	return false
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// prove tries to show goal under the current path condition.
func (x *Eng) prove(goal *T) (string, string) {
	x.s.retry = true
	r := x.s.check(x.c.not(goal))
	x.s.retry = false
	if r == "unsat" || r == "sat" {
		return r, "z3"
	}
	// other back ends on the standalone problem
	sc := x.s.script(x.c.not(goal))
	for _, b := range []string{"z3-new", "cvc5"} {
		q, _ := runOnce(b, sc, 10000)
		x.s.Retries++
		if q == "unsat" || q == "sat" {
			return q, b
		}
	}
	return "unknown", ""
}

func (x *Eng) modelFor(goal *T) string {
	sc := x.s.script(x.c.not(goal)) + "(get-model)\n"
	_, out := runOnce("z3", "(set-option :model.compact true)\n"+sc, 5000)
	return trunc(out, 6000)
}

// valid: quick check without side effects (unknown counts as no).
func (x *Eng) valid(goal *T) bool {
	if goal.isTrue() {
		return true
	}
	if goal.isFalse() {
		return !x.feasible()
	}
	if x.s.asserted(goal) {
		return true
	}
	return x.s.check(x.c.not(goal)) == "unsat"
}

// validR tries harder.
func (x *Eng) validR(goal *T) bool {
	if goal.isTrue() {
		return true
	}
	if goal.isFalse() {
		return !x.feasible()
	}
	if x.s.asserted(goal) {
		return true
	}
	x.s.retry, x.s.soft = true, true
	defer func() { x.s.retry, x.s.soft = false, false }()
	return x.s.check(x.c.not(goal)) == "unsat"
}

// feasible prunes branches; not knowing counts as feasible.
func (x *Eng) feasible() bool {
	x.s.quick = 50 * scale
	defer func() { x.s.quick = 0 }()
	return x.s.check() != "unsat"
}

func dead(st *State) bool { return st.ghost["dead"] != nil }

type abortErr struct{ msg string }

// verify runs the function under its contract.
func (x *Eng) newFrame(fn *ssa.Function, key string) *Frame {
	return &Frame{fn: fn, regs: map[ssa.Value]Val{}, block: fn.Blocks[0], key: key}
}

// run executes a state until all of its paths have ended.
func (x *Eng) run(st *State) {
	for {
		if dead(st) || x.stop {
			return
		}
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			panic("fell off block")
		}
		in := f.block.Instrs[f.pc]
		x.curInstr = in
		x.cur = st
		x.instrs++
		if x.instrs&0xfff == 0 && time.Now().After(x.deadline) {
			panic(abortErr{"time limit"})
		}
		switch in := in.(type) {
		case *ssa.If:
			x.doIf(st, f, in)
			return
		case *ssa.Jump:
			if !x.goTo(st, f, f.block.Succs[0]) {
				return
			}
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(st, f, r))
			}
			if !x.doReturn(st, rs) {
				return
			}
		case *ssa.Panic:
			x.oblige(st, "panic", x.obName(st, in), x.c.fals(), x.pos(in))
			return
		case *ssa.RunDefers:
			if len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				// stay at this instruction until the list is empty
				if !x.doCallArgs(st, f, nil, d.call, d.fnv, d.args, d.inst) {
					return
				}
				continue
			}
			f.pc++
		default:
			if !x.step(st, f, in) {
				return
			}
		}
	}
}

// obName names an obligation by source position independent facts: enclosing function and the
// text of the instruction's kind.
func (x *Eng) obName(st *State, in ssa.Instruction) string {
	return fnKey(in.Parent()) + "@" + x.pos(in)
}

func (x *Eng) doIf(st *State, f *Frame, in *ssa.If) {
	c := x.c
	cond := x.val(st, f, in.Cond).(*T)
	if cond.isTrue() || cond.isFalse() {
		i := 0
		if cond.isFalse() {
			i = 1
		}
		if x.goTo(st, f, f.block.Succs[i]) {
			x.run(st)
		}
		return
	}
	nc := c.not(cond)
	rt := x.prune(in, 0, cond, nc)
	rf := "sat"
	if rt != "unsat" {
		rf = x.prune(in, 1, nc, cond)
	}
	branch := func(st *State, t *T, i int) {
		x.s.push()
		x.cur = st
		x.assume(st, t)
		st.path = append(st.path, fmt.Sprintf("%s=%v", x.pos(in), i == 0))
		f := st.top()
		if x.goTo(st, f, f.block.Succs[i]) {
			x.run(st)
		}
		x.s.pop()
	}
	if rt == "unsat" {
		branch(st, nc, 1)
		return
	}
	if rf == "unsat" {
		branch(st, cond, 0)
		return
	}
	x.paths++
	if x.paths > x.maxPaths {
		panic(abortErr{"path limit"})
	}
	st2 := st.clone()
	branch(st2, cond, 0)
	branch(st, nc, 1)
}

type ifSide struct {
	in   ssa.Instruction
	side int
}

// prune reports "unsat" for a side of a branch that cannot be taken. Where asking is slow and never
// excludes anything it is no longer asked: the side is then explored.
func (x *Eng) prune(in ssa.Instruction, side int, cond, neg *T) string {
	if x.s.asserted(neg) || x.s.otherLit(cond) {
		return "unsat"
	}
	k := ifSide{in, side}
	if x.slowIf[k] >= 3 {
		return "unknown"
	}
	t0 := time.Now()
	x.s.quick = 50 * scale
	r := x.s.check(cond)
	x.s.quick = 0
	if x.slowIf == nil {
		x.slowIf = map[ifSide]int{}
	}
	if r == "unsat" {
		x.slowIf[k] = -1 << 30
	} else if r == "unknown" || time.Since(t0) > 30*time.Millisecond {
		x.slowIf[k]++
	}
	return r
}

// goTo moves to a block; false if the path ended (loop back edge or handled there).
func (x *Eng) goTo(st *State, f *Frame, b *ssa.BasicBlock) bool {
	from := f.block
	L := x.loops(f.fn)
	// leaving loops
	for len(st.loops) > 0 {
		lc := st.loops[len(st.loops)-1]
		if lc.frameKey != f.key || lc.depth != len(st.frames) {
			break
		}
		if lc.loop.blocks[b] {
			break
		}
		if lc.collect {
			lc.exits++
			return false
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	if l := L.byHeader[b]; l != nil {
		if len(st.loops) > 0 {
			lc := st.loops[len(st.loops)-1]
			if lc.loop == l && lc.frameKey == f.key && lc.depth == len(st.frames) {
				// back edge of a cut loop
				x.backEdge(st, f, lc, from)
				return false
			}
		}
		if x.tryUnroll(st, f, l, from, b) {
			// executed concretely
			k := mergeKey(f, b)
			if m := x.mergers[k]; m != nil && l.blocks[from] && m.depth == len(st.frames) {
				x.enterBlock(st, f, from, b)
				m.arrived = append(m.arrived, arrival{st, x.s.since(m.level)})
				return false
			}
			if !l.blocks[from] {
				x.enterBlock(st, f, from, b)
				x.runUnrolled(st, f, b, k)
				return false
			}
		} else {
			x.enterLoop(st, f, l, from)
			return false
		}
	}
	x.enterBlock(st, f, from, b)
	return true
}

type arrival struct {
	st    *State
	conds []*T
}

type merger struct {
	depth   int
	level   int
	arrived []arrival
}

func mergeKey(f *Frame, b *ssa.BasicBlock) string { return fmt.Sprintf("%s:%d", f.key, b.Index) }

// runUnrolled executes a loop whose exit test is decided. The paths through one iteration that differ in
// nothing but their conditions go on as one path.
func (x *Eng) runUnrolled(st *State, f *Frame, b *ssa.BasicBlock, k string) {
	old := x.mergers[k]
	defer func() { x.mergers[k] = old }()
	for {
		base := st.clone()
		m := &merger{depth: len(st.frames), level: len(x.s.stack)}
		if x.mergers == nil {
			x.mergers = map[string]*merger{}
		}
		x.mergers[k] = m
		x.s.push()
		x.run(st)
		x.s.pop()
		if len(m.arrived) == 0 {
			return
		}
		same := true
		for _, a := range m.arrived {
			if !x.sameState(base, a.st) || !samePhis(a.st.top(), m.arrived[0].st.top(), b) {
				same = false
			}
		}
		if len(m.arrived) > 1 && same {
			var ds []*T
			for _, a := range m.arrived {
				ds = append(ds, x.c.and(a.conds...))
			}
			a := m.arrived[0].st
			st = base
			g := st.top()
			h := a.top()
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				g.regs[p] = h.regs[p]
			}
			g.prev, g.block, g.pc = h.prev, h.block, h.pc
			for k, v := range a.ghost {
				st.ghost[k] = v
			}
			st.path = a.path
			x.cur = st
			x.assume(st, x.c.or(ds...))
			continue
		}
		for _, a := range m.arrived[1:] {
			x.s.push()
			x.cur = a.st
			for _, t := range a.conds {
				x.assume(a.st, t)
			}
			x.runUnrolled(a.st, a.st.top(), b, k)
			x.s.pop()
		}
		st = m.arrived[0].st
		x.cur = st
		for _, t := range m.arrived[0].conds {
			x.assume(st, t)
		}
	}
}

func samePhis(f, g *Frame, b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			return true
		}
		if f.regs[p] != g.regs[p] {
			return false
		}
	}
	return true
}

// sameState reports whether nothing but registers differs.
func (x *Eng) sameState(a, b *State) bool {
	if len(a.frames) != len(b.frames) || len(a.events) != len(b.events) || len(a.loops) != len(b.loops) || a.nalloc != b.nalloc || a.epoch != b.epoch {
		return false
	}
	for k, v := range b.heap {
		if w, ok := a.heap[k]; ok && w != v || !ok && v != x.initHeap[k] {
			return false
		}
	}
	if len(a.backs) != len(b.backs) || len(a.iters) != len(b.iters) {
		return false
	}
	for k, v := range b.backs {
		if a.backs[k] != v {
			return false
		}
	}
	for k, v := range b.iters {
		if a.iters[k] != v {
			return false
		}
	}
	for k, v := range b.ghost {
		if a.ghost[k] != v && !strings.HasPrefix(k, "unroll:") {
			return false
		}
	}
	return true
}

// enterBlock evaluates the phis of b coming from block from.
func (x *Eng) enterBlock(st *State, f *Frame, from, b *ssa.BasicBlock) {
	vals := x.phiVals(st, f, from, b)
	for p, v := range vals {
		f.regs[p] = v
	}
	f.prev = from
	f.block = b
	f.pc = 0
	for f.pc < len(b.Instrs) {
		if _, ok := b.Instrs[f.pc].(*ssa.Phi); !ok {
			break
		}
		f.pc++
	}
}

func (x *Eng) phiVals(st *State, f *Frame, from, b *ssa.BasicBlock) map[*ssa.Phi]Val {
	r := map[*ssa.Phi]Val{}
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r[p] = x.val(st, f, p.Edges[idx])
	}
	return r
}

func (x *Eng) doReturn(st *State, rs []Val) bool {
	f := st.top()
	// returning leaves every loop of this frame
	for len(st.loops) > 0 {
		lc := st.loops[len(st.loops)-1]
		if lc.depth != len(st.frames) {
			break
		}
		if lc.collect {
			lc.exits++
			return false
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	if len(st.frames) == 1 {
		x.finish(st, rs)
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(x, st, rs)
		return true
	}
	caller := st.top()
	if f.ret != nil {
		if len(rs) == 1 {
			caller.regs[f.ret] = rs[0]
		} else if len(rs) > 1 {
			caller.regs[f.ret] = Tuple(rs)
		}
	}
	if f.isCall {
		caller.pc++
	}
	return true
}

// ---- values

func (x *Eng) val(st *State, f *Frame, v ssa.Value) Val {
	if r, ok := f.regs[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		return &Addr{kind: "global", name: v.Pkg.Pkg.Name() + "." + v.Name(), typ: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return v
	}
	panic(unsupported(fmt.Sprintf("value %s (%T) in %s", v.Name(), v, f.fn.Name())))
}

func (x *Eng) constVal(v *ssa.Const) Val {
	t := v.Type()
	if v.Value == nil {
		return x.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.c.boolT(constant.BoolVal(v.Value))
		case u.Info()&types.IsInteger != 0:
			b, ok := new(big.Int).SetString(constant.ToInt(v.Value).ExactString(), 10)
			if !ok {
				panic(unsupported("constant " + v.String()))
			}
			return x.c.num(b)
		case u.Info()&types.IsString != 0:
			return x.c.strLit(constant.StringVal(v.Value))
		case u.Info()&types.IsFloat != 0:
			fl, _ := constant.Float64Val(v.Value)
			return x.f64(fl)
		}
	}
	panic(unsupported("constant " + v.String()))
}

// f64 is the exact value of a float64 constant.
func (x *Eng) f64(fl float64) *T {
	r := new(big.Rat)
	if r.SetFloat64(fl) == nil {
		panic(unsupported("infinite constant"))
	}
	k := x.real(r)
	x.realVal[k.id] = fl
	return x.c.mk("F64", "mkfin", k)
}

func (x *Eng) real(r *big.Rat) *T {
	n := new(big.Int).Abs(r.Num())
	s := fmt.Sprintf("(/ %s.0 %s.0)", n, r.Denom())
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return x.c.mk("Real", s)
}

// ---- instructions

func (x *Eng) step(st *State, f *Frame, in ssa.Instruction) bool {
	c := x.c
	set := func(v ssa.Value, r Val) { f.regs[v] = r }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		if at, ok := under(et).(*types.Array); ok && !isByte(at.Elem()) {
			set(in, x.newBack(st, at.Elem(), x.zero(et)))
			break
		}
		if nm, ok := opaqueStruct(et); ok {
			l := x.newObj(st)
			x.initOpaque(st, nm, l)
			set(in, l)
			break
		}
		set(in, x.newObj(st))
	case *ssa.FieldAddr:
		b := x.val(st, f, in.X)
		pt := under(in.X.Type()).(*types.Pointer).Elem()
		stt, _ := isStruct(pt)
		ft := stt.Field(in.Field).Type()
		if a, ok := b.(*Addr); ok {
			switch a.kind {
			case "elem":
				n := *a
				n.path = append(append([]int(nil), a.path...), in.Field)
				n.typ = ft
				set(in, &n)
			default:
				panic(unsupported("field of " + a.kind))
			}
			break
		}
		l := b.(*T)
		if !x.nilCheck(st, l, in) {
			return false
		}
		if _, ok := isStruct(ft); ok {
			set(in, x.sub(l, in.Field))
			break
		}
		set(in, &Addr{kind: "field", loc: l, key: x.fieldKey(pt, in.Field), typ: ft})
	case *ssa.IndexAddr:
		b := x.val(st, f, in.X)
		i := x.val(st, f, in.Index).(*T)
		var a *Addr
		switch b := b.(type) {
		case *Back:
			if !x.boundsCheck(st, i, c.length(st.backs[b.id]), in) {
				return false
			}
			a = &Addr{kind: "elem", back: b, idx: i, typ: b.elem, etyp: b.elem}
		case *T:
			if b.sort == "Loc" {
				panic(unsupported("index of array pointer"))
			}
			et := in.Type().(*types.Pointer).Elem()
			if !x.boundsCheck(st, i, c.length(b), in) {
				return false
			}
			a = &Addr{kind: "elem", seq: b, idx: i, typ: et, etyp: et}
			if fr, ok := f.regs[loadOrigin{in.X}.key()]; ok {
				a.from = fr.(*Addr)
			}
		case *Addr: // pointer to an array variable
			panic(unsupported("index of array address"))
		}
		set(in, a)
	case *ssa.Index:
		b := x.peek(st, x.val(st, f, in.X))
		i := x.val(st, f, in.Index).(*T)
		if !x.boundsCheck(st, i, c.length(b), in) {
			return false
		}
		set(in, x.elem(st, b, i, in.Type()))
	case *ssa.Field:
		b := x.val(st, f, in.X).(*T)
		set(in, x.field(in.X.Type(), b, in.Field))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			v, ok := x.deref(st, x.val(st, f, in.X), in.Type(), in)
			if !ok {
				return false
			}
			set(in, v)
			if a, ok := x.val(st, f, in.X).(*Addr); ok && a.kind == "field" {
				if _, ok := under(in.Type()).(*types.Slice); ok {
					f.regs[loadOrigin{in}.key()] = a
				}
			}
		case token.NOT:
			set(in, c.not(x.val(st, f, in.X).(*T)))
		case token.SUB:
			v := x.val(st, f, in.X).(*T)
			if v.sort == "F64" {
				set(in, x.floatNeg(v))
			} else {
				set(in, x.wrap(st, c.arith("-", c.int(0), v), in.Type()))
			}
		case token.XOR:
			v := x.val(st, f, in.X).(*T)
			set(in, x.wrap(st, c.add(c.arith("-", c.int(0), v), -1), in.Type()))
		default:
			panic(unsupported("unary " + in.Op.String()))
		}
	case *ssa.BinOp:
		r, ok := x.binop(st, in, x.val(st, f, in.X), x.val(st, f, in.Y))
		if !ok {
			return false
		}
		set(in, r)
	case *ssa.Store:
		if !x.assign(st, x.val(st, f, in.Addr), x.val(st, f, in.Val), in) {
			return false
		}
	case *ssa.MakeInterface:
		v := x.val(st, f, in.X)
		if cl, ok := v.(*Closure); ok {
			v = x.closureTerm(st, cl)
		}
		if a, ok := v.(*Addr); ok {
			f.regs[in] = &AddrIface{a, in.X.Type()}
			break
		}
		set(in, x.box(in.X.Type(), x.freeze(st, v)))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		ops := in.Operands(nil)
		set(in.(ssa.Value), x.val(st, f, *ops[0]))
	case *ssa.Convert:
		set(in, x.convert(st, x.val(st, f, in.X), in.X.Type(), in.Type(), in))
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, in)
	case *ssa.MakeSlice:
		n := x.val(st, f, in.Len).(*T)
		et := under(in.Type()).(*types.Slice).Elem()
		x.oblige(st, "bounds", "makeslice "+x.obName(st, in), c.cmp(">=", n, c.int(0)), x.pos(in))
		if dead(st) {
			return false
		}
		if isByte(et) {
			panic(unsupported("make([]byte)"))
		}
		var s *T
		if v, ok := n.isNum(); ok && v.Int64() < 64 {
			s = c.seqEmpty(x.sort(in.Type()))
			for k := int64(0); k < v.Int64(); k++ {
				s = c.concat(s, c.seqUnit(x.zero(et)))
			}
		} else {
			s = c.newSym("mk", x.sort(in.Type()))
			c.stamps[s.id] = Stamp{0, 0}
			z := x.zero(et)
			c.factOn(s, c.eq(c.length(s), n))
			x.addRule(st, []*T{s}, "zero", func(st *State, i *T) {
				x.assume(st, c.implies(c.and(c.cmp("<=", c.int(0), i), c.cmp("<", i, n)), c.eq(c.nth(s, i), z)))
			})
		}
		set(in, x.newBack(st, et, s))
	case *ssa.Slice:
		return x.doSlice(st, f, in)
	case *ssa.MakeMap:
		set(in, x.makeMap(st, under(in.Type()).(*types.Map)))
	case *ssa.MapUpdate:
		m := x.val(st, f, in.Map).(*T)
		if !x.nilCheck(st, m, in) {
			return false
		}
		x.raceCheck(st, m, in)
		x.mapUpdate(st, under(in.Map.Type()).(*types.Map), m, x.freeze(st, x.val(st, f, in.Key)), x.freeze(st, x.val(st, f, in.Value)), in)
	case *ssa.Lookup:
		if mt, ok := under(in.X.Type()).(*types.Map); ok {
			m := x.val(st, f, in.X).(*T)
			k := x.freeze(st, x.val(st, f, in.Index))
			x.raceCheck(st, m, in)
			p, v := x.mapLookup(st, mt, m, k)
			if in.CommaOk {
				set(in, Tuple{c.ite(p, v, x.zero(mt.Elem())), p})
			} else {
				set(in, c.ite(p, v, x.zero(mt.Elem())))
			}
			break
		}
		s := x.val(st, f, in.X).(*T)
		i := x.val(st, f, in.Index).(*T)
		if !x.boundsCheck(st, i, c.length(s), in) {
			return false
		}
		set(in, x.charAt(s, i))
	case *ssa.Range:
		mt, ok := under(in.X.Type()).(*types.Map)
		if !ok {
			panic(unsupported("range over string"))
		}
		x.raceCheck(st, x.val(st, f, in.X).(*T), in)
		set(in, x.rangeMap(st, mt, x.val(st, f, in.X).(*T)))
	case *ssa.Next:
		return x.next(st, f, in)
	case *ssa.Extract:
		t := x.val(st, f, in.Tuple).(Tuple)
		set(in, t[in.Index])
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.bind = append(cl.bind, x.val(st, f, b))
		}
		set(in, cl)
	case *ssa.Call:
		return x.doCall(st, f, in)
	case *ssa.Defer:
		d := deferred{call: &in.Call, inst: in}
		if !in.Call.IsInvoke() {
			d.fnv = x.val(st, f, in.Call.Value)
		} else {
			d.fnv = x.val(st, f, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(st, f, a))
		}
		f.defers = append(f.defers, d)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	f.pc++
	return !dead(st)
}

type AddrIface struct {
	a *Addr
	t types.Type // pointer type
}

// loadOrigin is a pseudo register remembering where a slice value was loaded from.
type loadOrigin struct{ v ssa.Value }

type originKey struct {
	ssa.Value
}

func (o loadOrigin) key() ssa.Value { return originKey{o.v} }

func (x *Eng) newBack(st *State, et types.Type, s *T) *Back {
	x.nback++
	st.backs[x.nback] = s
	x.backElem[x.nback] = et
	return &Back{x.nback, et}
}

func (x *Eng) nilCheck(st *State, l *T, in ssa.Instruction) bool {
	g := x.nonNil(l)
	x.oblige(st, "nil", x.obName(st, in), g, x.pos(in))
	return !dead(st)
}

func (x *Eng) nonNil(l *T) *T {
	o := x.oid(l)
	if b, k := splitAdd(o); k >= 0 {
		if _, ok := x.baseIdx[b.id]; ok {
			return x.c.tru()
		}
	}
	return x.c.not(x.c.eq(o, x.c.int(-1)))
}

func (x *Eng) boundsCheck(st *State, i, n *T, in ssa.Instruction) bool {
	c := x.c
	x.oblige(st, "bounds", x.obName(st, in), c.and(c.cmp("<=", c.int(0), i), c.cmp("<", i, n)), x.pos(in))
	return !dead(st)
}

// elem reads element i of sequence s as a value of type t.
func (x *Eng) elem(st *State, s, i *T, t types.Type) *T {
	if s.sort == "String" {
		return x.charAt(s, i)
	}
	r := x.c.nth(s, i)
	if _, ok := x.seqType[s.id]; !ok {
		x.seqType[s.id] = types.NewSlice(t)
	}
	x.typed(r, t, x.stampOf(s))
	if x.ct != nil && x.ct.NoNilTree && r.op == "seq.nth" && s.op == "select" {
		x.assumps["lists of the document tree hold no nil elements (noniltree: "+x.ct.Key+")"] = true
		switch r.sort {
		case "Iface":
			x.c.factOn(r, x.nonNil(x.iloc(r)))
		case "Loc":
			x.c.factOn(r, x.nonNil(r))
		}
	}
	x.touch(st, s, i)
	return r
}

// touch instantiates the rules about s at index i.
func (x *Eng) touch(st *State, s, i *T) {
	if s.op == "seq.++" {
		off := x.c.int(0)
		for _, a := range s.args {
			if a.op != "seq.unit" {
				x.touch(st, a, x.c.arith("-", i, off))
			}
			off = x.c.arith("+", off, x.c.length(a))
		}
		return
	}
	if strings.HasPrefix(s.op, "updseq") {
		x.touch(st, s.args[0], i)
		return
	}
	if s.op == "seq.extract" {
		x.touch(st, s.args[0], x.c.arith("+", s.args[1], i))
	}
	if s.op == "ite" {
		x.touch(st, s.args[1], i)
		x.touch(st, s.args[2], i)
		return
	}
	if x.noTouch || i.size > 300 {
		return
	}
	cur := x.cur
	for _, l := range cur.loops {
		l.access(x, cur, s, i)
	}
	for _, o := range cur.touched[s.id] {
		if o == i {
			return
		}
	}
	cur.touched[s.id] = append(cur.touched[s.id][:len(cur.touched[s.id]):len(cur.touched[s.id])], i)
	for _, r := range cur.rules {
		if r.seqs[s.id] {
			x.instantiate(r, i)
		}
	}
	for _, a := range cur.aliases[s.id] {
		x.touch(st, a, i)
	}
}

func (x *Eng) instantiate(r *rule, i *T) {
	k := fmt.Sprintf("r%d@%d", r.id, i.id)
	if x.cur.done[k] || x.touchDepth > 6 {
		return
	}
	x.cur.done[k] = true
	x.touchDepth++
	r.inst(x.cur, i)
	x.touchDepth--
}

func (x *Eng) addRule(st *State, seqs []*T, desc string, f func(st *State, i *T)) {
	if x.noTouch {
		return
	}
	x.nrule++
	r := &rule{id: x.nrule, seqs: map[int]bool{}, inst: f, desc: desc}
	for _, s := range seqs {
		r.seqs[s.id] = true
	}
	cur := x.cur
	cur.rules = append(cur.rules, r)
	for _, s := range seqs {
		for _, i := range cur.touched[s.id] {
			x.instantiate(r, i)
		}
	}
}

func (x *Eng) charAt(s, i *T) *T {
	if s.isStr() {
		if v, ok := i.isNum(); ok && v.Int64() < int64(len(s.strVal())) {
			return x.c.int(int64(s.strVal()[v.Int64()]))
		}
	}
	r := x.c.mk("Int", "str.to_code", x.c.mk("String", "str.at", s, i))
	x.c.factOn(r, x.c.cmp("<=", r, x.c.int(255)))
	return r
}

func (x *Eng) deref(st *State, p Val, t types.Type, in ssa.Instruction) (Val, bool) {
	switch p := p.(type) {
	case *T:
		if !x.nilCheck(st, p, in) {
			return nil, false
		}
		return x.loadObj(st, t, p), true
	case *Back: // array variable
		return st.backs[p.id], true
	case *Addr:
		return x.loadAddr(st, p), true
	}
	panic(unsupported(fmt.Sprintf("deref %T", p)))
}

func (x *Eng) loadAddr(st *State, a *Addr) Val {
	switch a.kind {
	case "field":
		return x.load(st, a.key, a.loc)
	case "elem":
		s := a.seq
		if a.back != nil {
			s = st.backs[a.back.id]
		}
		v := x.elem(st, s, a.idx, a.etyp)
		t := a.etyp
		for _, i := range a.path {
			v2 := x.field(t, v, i)
			stt, _ := isStruct(t)
			t = stt.Field(i).Type()
			v = x.typed(v2, t, x.stampOf(s))
		}
		return v
	case "global":
		return x.global(st, a)
	}
	panic(unsupported("load " + a.kind))
}

// global reads a package level variable: they are taken to be constant.
func (x *Eng) global(st *State, a *Addr) Val {
	c := x.c
	x.assumption("package level variables keep their initial value: " + a.name)
	switch x.sort(a.typ) {
	case "Iface":
		k := "glob:" + a.name
		id, ok := x.fnIDs[k]
		if !ok {
			id = len(x.fnIDs) + 1
			x.fnIDs[k] = id
		}
		return c.mk("Iface", "mki", x.errTag(a.name), c.mk("Loc", "mkloc", c.int(int64(-100-id)), c.int(0)))
	}
	s := x.sort(a.typ)
	nm := "g_" + sanitize(a.name)
	c.declare(nm, nil, s)
	t := c.atom(s, nm)
	x.typed(t, a.typ, Stamp{0, 0})
	return t
}

func (x *Eng) errTag(name string) *T {
	// all package level errors made by errors.New
	return x.namedTag("*errors.errorString")
}

func (x *Eng) namedTag(k string) *T {
	id, ok := x.tags[k]
	if !ok {
		id = len(x.tags) + 1
		x.tags[k] = id
	}
	return x.c.int(int64(id))
}

func (x *Eng) assign(st *State, p Val, v Val, in ssa.Instruction) bool {
	switch p := p.(type) {
	case *T:
		if !x.nilCheck(st, p, in) {
			return false
		}
		t := under(in.(*ssa.Store).Addr.Type()).(*types.Pointer).Elem()
		x.storeObj(st, t, p, x.freeze(st, v), in)
	case *Back:
		st.backs[p.id] = x.freeze(st, v)
	case *Addr:
		switch p.kind {
		case "field":
			x.store(st, p.key, p.loc, x.freeze(st, v), in)
		case "elem":
			x.storeElem(st, p, x.freeze(st, v), in)
		case "global":
			x.oblige(st, "frame", "write to package variable "+p.name, x.c.fals(), x.pos(in))
			return false
		default:
			panic(unsupported("store " + p.kind))
		}
	default:
		panic(unsupported(fmt.Sprintf("store to %T", p)))
	}
	return true
}

// upd is sequence s with element i replaced.
func (x *Eng) upd(s, i, v *T) *T {
	c := x.c
	if es, ok := c.concreteSeq(s); ok {
		if k, ok := i.isNum(); ok && k.Int64() < int64(len(es)) && k.Sign() >= 0 {
			r := c.seqEmpty(s.sort)
			for j, e := range es {
				if int64(j) == k.Int64() {
					e = v
				}
				r = c.concat(r, c.seqUnit(e))
			}
			return r
		}
	}
	nm := "updseq_" + sanitize(s.sort)
	r := c.fn(nm, s.sort, s, i, v)
	c.factOn(r, c.eq(c.mk("Int", "seq.len", r), c.length(s)))
	c.factOn(r, c.implies(c.and(c.cmp("<=", c.int(0), i), c.cmp("<", i, c.length(s))), c.eq(c.mk(v.sort, "seq.nth", r, i), v)))
	return r
}

func (x *Eng) storeElem(st *State, a *Addr, v *T, in ssa.Instruction) {
	// replace a path inside the element
	var rec func(t types.Type, cur *T, path []int) *T
	rec = func(t types.Type, cur *T, path []int) *T {
		if len(path) == 0 {
			return v
		}
		stt, _ := isStruct(t)
		var fs []*T
		for i := 0; i < stt.NumFields(); i++ {
			fv := x.field(t, cur, i)
			if i == path[0] {
				fv = rec(stt.Field(i).Type(), fv, path[1:])
			}
			fs = append(fs, fv)
		}
		return x.mkStruct(t, fs)
	}
	if a.back != nil {
		s := st.backs[a.back.id]
		nv := v
		if len(a.path) > 0 {
			nv = rec(a.etyp, x.elem(st, s, a.idx, a.etyp), a.path)
		}
		if st.frozen[a.back.id] {
			x.oblige(st, "own", "write to a shared slice "+x.obName(st, in), x.c.fals(), x.pos(in))
			return
		}
		for _, l := range st.loops {
			l.recordBack(x, st, a.back.id)
		}
		st.backs[a.back.id] = x.upd(s, a.idx, nv)
		return
	}
	if a.from != nil && a.from.kind == "field" {
		cur := x.load(st, a.from.key, a.from.loc)
		if cur == a.seq {
			nv := v
			if len(a.path) > 0 {
				nv = rec(a.etyp, x.elem(st, a.seq, a.idx, a.etyp), a.path)
			}
			x.assumption("slices stored in different fields do not share their elements")
			x.store(st, a.from.key, a.from.loc, x.upd(a.seq, a.idx, nv), in)
			return
		}
	}
	x.oblige(st, "own", "write to a shared slice "+x.obName(st, in), x.c.fals(), x.pos(in))
}

func (x *Eng) doSlice(st *State, f *Frame, in *ssa.Slice) bool {
	c := x.c
	b := x.val(st, f, in.X)
	if bk, ok := b.(*Back); ok && in.Low == nil && in.High == nil && in.Max == nil {
		f.regs[in] = bk
		f.pc++
		return true
	}
	if bk, ok := b.(*Back); ok && in.Low == nil {
		// make with a constant capacity: the array is only reachable through this slice
		if al, ok := in.X.(*ssa.Alloc); ok && al.Comment == "makeslice" && al.Referrers() != nil && len(*al.Referrers()) == 1 {
			if h, ok := x.val(st, f, in.High).(*T); ok {
				if n, ok := h.isNum(); ok {
					es, _ := c.concreteSeq(st.backs[bk.id])
					if n.Sign() >= 0 && int(n.Int64()) <= len(es) {
						q := c.seqEmpty(st.backs[bk.id].sort)
						for _, e := range es[:n.Int64()] {
							q = c.concat(q, c.seqUnit(e))
						}
						f.regs[in] = x.newBack(st, bk.elem, q)
						f.pc++
						return true
					}
				}
			}
		}
	}
	if t, ok := b.(*T); ok && t.sort == "Loc" { // pointer to [N]byte
		et := in.X.Type().Underlying().(*types.Pointer).Elem()
		b = x.loadObj(st, et, t)
	}
	s := x.peek(st, b)
	lo := c.int(0)
	hi := c.length(s)
	if in.Low != nil {
		lo = x.val(st, f, in.Low).(*T)
	}
	if in.High != nil {
		hi = x.val(st, f, in.High).(*T)
	}
	g := c.and(c.cmp("<=", c.int(0), lo), c.cmp("<=", lo, hi), c.cmp("<=", hi, c.length(s)))
	if in.High != nil {
		if v, ok := hi.isNum(); !ok || v.Sign() != 0 {
			x.assumption("slicing is only used up to the length of a slice, not into its capacity")
		}
	}
	x.oblige(st, "bounds", "slice "+x.obName(st, in), g, x.pos(in))
	if dead(st) {
		return false
	}
	if sf, ok := c.suf[s.id]; ok && in.High == nil {
		r := c.suffix(sf.base, c.arith("+", sf.off, lo), s, lo)
		c.stamps[r.id] = x.stampOf(s)
		f.regs[in] = r
		f.pc++
		return true
	}
	r := c.extract(s, lo, c.arith("-", hi, lo))
	if isSeq(r.sort) && r.op == "seq.extract" {
		c.stamps[r.id] = x.stampOf(s)
		// elements of the part
		x.addRule(st, []*T{r}, "part", func(st *State, i *T) {
			e := c.nth(s, c.arith("+", i, lo))
			x.touch(st, s, c.arith("+", i, lo))
			x.assume(st, c.implies(c.and(c.cmp("<=", c.int(0), i), c.cmp("<", i, c.arith("-", hi, lo))), c.eq(c.nth(r, i), e)))
		})
		c.factOn(r, c.implies(g, c.eq(c.length(r), c.arith("-", hi, lo))))
	}
	f.regs[in] = r
	f.pc++
	return true
}

func (x *Eng) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) bool {
	c := x.c
	vv := x.val(st, f, in.X)
	v, ok := vv.(*T)
	if !ok {
		panic(unsupported("type assertion on address"))
	}
	var okT, res *T
	if types.IsInterface(in.AssertedType) {
		// value keeps its identity; ok is unknown unless nil
		okT = c.fn("implements_"+sanitize(typeName(in.AssertedType)), "Bool", x.itag(v))
		okT = c.and(c.not(c.eq(x.itag(v), c.int(0))), okT)
		res = v
	} else {
		okT = c.eq(x.itag(v), x.tag(in.AssertedType))
		res = x.unbox(in.AssertedType, v)
		x.typed(res, in.AssertedType, x.stampOf(v))
	}
	if in.CommaOk {
		// decide now, so that values stay simple
		z := x.zeroVal(in.AssertedType)
		split := func(st *State, t *T, b bool) {
			x.s.push()
			x.cur = st
			x.assume(st, t)
			f := st.top()
			if b {
				f.regs[in] = Tuple{res, c.tru()}
			} else {
				f.regs[in] = Tuple{z, c.fals()}
			}
			f.pc++
			x.run(st)
			x.s.pop()
		}
		if okT.isTrue() || okT.isFalse() {
			split(st, c.tru(), okT.isTrue())
			return false
		}
		rt := x.prune(in, 0, okT, c.not(okT))
		rf := "sat"
		if rt != "unsat" {
			rf = x.prune(in, 1, c.not(okT), okT)
		}
		if rt == "unsat" {
			split(st, c.not(okT), false)
			return false
		}
		if rf == "unsat" {
			split(st, okT, true)
			return false
		}
		x.paths++
		if x.paths > x.maxPaths {
			panic(abortErr{"path limit"})
		}
		st2 := st.clone()
		st2.path = append(st2.path, x.pos(in)+" is "+typeName(in.AssertedType))
		split(st2, okT, true)
		split(st, c.not(okT), false)
		return false
	}
	x.oblige(st, "typeassert", x.obName(st, in), okT, x.pos(in))
	if dead(st) {
		return false
	}
	f.regs[in] = res
	f.pc++
	return true
}

func (x *Eng) zeroVal(t types.Type) Val { return x.zero(t) }

// ---- maps

func (x *Eng) mapKeys(mt *types.Map) (string, string) {
	n := typeName(mt)
	kp, kv := "map:"+n+":p", "map:"+n+":v"
	if _, ok := x.keySorts[kp]; !ok {
		x.mapType[kp] = mt
		ks, vs := x.sort(mt.Key()), x.sort(mt.Elem())
		x.keySorts[kp] = "(Array " + ks + " Bool)"
		x.keySorts[kv] = "(Array " + ks + " " + vs + ")"
		x.keyZero[kp] = x.c.mk(x.keySorts[kp], "((as const "+x.keySorts[kp]+") false)")
		z := x.zero(mt.Elem())
		x.keyZero[kv] = x.c.mk(x.keySorts[kv], "(as const "+x.keySorts[kv]+")", z)
	}
	return kp, kv
}

func (x *Eng) makeMap(st *State, mt *types.Map) *T {
	x.mapKeys(mt)
	return x.newObj(st)
}

// asel selects from an array term, walking its stores.
func (x *Eng) asel(st *State, a, k *T, s string) *T {
	c := x.c
	for {
		switch {
		case a.op == "store":
			e := c.eq(a.args[1], k)
			if e.isTrue() {
				return a.args[2]
			}
			if e.isFalse() {
				a = a.args[0]
				continue
			}
			// keep an ite so that rules reach the base array
			return c.ite(e, a.args[2], x.asel(st, a.args[0], k, s))
		case strings.HasPrefix(a.op, "((as const"):
			return c.fals()
		case strings.HasPrefix(a.op, "(as const"):
			return a.args[0]
		case a.op == "ite":
			return c.ite(a.args[0], x.asel(st, a.args[1], k, s), x.asel(st, a.args[2], k, s))
		}
		r := c.mk(s, "select", a, k)
		x.touch(st, a, k)
		return r
	}
}

func (x *Eng) mapLookup(st *State, mt *types.Map, m, k *T) (*T, *T) {
	kp, kv := x.mapKeys(mt)
	c := x.c
	vs := x.sort(mt.Elem())
	if m == x.nilLoc() {
		return c.fals(), x.zero(mt.Elem())
	}
	p := x.asel(st, x.load(st, kp, m), k, "Bool")
	v := x.asel(st, x.load(st, kv, m), k, vs)
	x.typed(v, mt.Elem(), x.heapOf(st, kv).st)
	return c.and(x.nonNil(m), p), v
}

func (x *Eng) mapUpdate(st *State, mt *types.Map, m, k, v *T, in ssa.Instruction) {
	kp, kv := x.mapKeys(mt)
	c := x.c
	p := x.load(st, kp, m)
	w := x.load(st, kv, m)
	x.store(st, kp, m, c.mk(p.sort, "store", p, k, c.tru()), in)
	x.store(st, kv, m, c.mk(w.sort, "store", w, k, v), in)
}

func (x *Eng) rangeMap(st *State, mt *types.Map, m *T) *MapIter {
	kp, kv := x.mapKeys(mt)
	x.nback++
	as := x.keySorts[kp]
	st.iters[x.nback] = x.c.mk(as, "((as const "+as+") false)")
	it := &MapIter{id: x.nback, m: m, typ: mt, keyP: kp, keyV: kv}
	if x.iterOf == nil {
		x.iterOf = map[int]*MapIter{}
	}
	x.iterOf[it.id] = it
	return it
}

func (x *Eng) next(st *State, f *Frame, in *ssa.Next) bool {
	c := x.c
	it := x.val(st, f, in.Iter).(*MapIter)
	k := c.newSym("key", x.sort(it.typ.Key()))
	x.typed(k, it.typ.Key(), st.stamp())
	p := x.load(st, it.keyP, it.m)
	vis := st.iters[it.id]
	// more
	st2 := st.clone()
	x.s.push()
	x.cur = st2
	x.assume(st2, c.and(x.asel(st2, p, k, "Bool"), c.not(x.asel(st2, vis, k, "Bool"))))
	if x.feasible() {
		v := x.asel(st2, x.load(st2, it.keyV, it.m), k, x.sort(it.typ.Elem()))
		x.typed(v, it.typ.Elem(), x.heapOf(st2, it.keyV).st)
		st2.iters[it.id] = c.mk(vis.sort, "store", vis, k, c.tru())
		for _, l := range st2.loops {
			l.recordIter(it.id)
		}
		st2.path = append(st2.path, x.pos(in)+" next")
		f2 := st2.top()
		f2.regs[in] = Tuple{c.tru(), k, v}
		f2.pc++
		x.run(st2)
	}
	x.s.pop()
	// done: every key present was visited
	x.s.push()
	x.cur = st
	done := func(st *State, k *T) {
		x.assume(st, c.implies(x.asel(st, p, k, "Bool"), x.asel(st, vis, k, "Bool")))
	}
	var trig []*T
	trig = append(trig, baseArrays(p)...)
	trig = append(trig, baseArrays(vis)...)
	x.addRule(st, trig, "visited", done)
	for _, kk := range st.knownKeys(x, k.sort) {
		done(st, kk)
	}
	st.path = append(st.path, x.pos(in)+" done")
	f.regs[in] = Tuple{c.fals(), k, x.zero(it.typ.Elem())}
	f.pc++
	x.run(st)
	x.s.pop()
	return false
}

func (st *State) knownKeys(x *Eng, s string) []*T {
	var r []*T
	for _, k := range sortedKeys(st.ghost) {
		if strings.HasPrefix(k, "skkey:") && st.ghost[k].sort == s {
			r = append(r, st.ghost[k])
		}
	}
	return r
}

// baseArrays lists the symbols below the stores of an array term.
func baseArrays(a *T) []*T {
	for a.op == "store" {
		a = a.args[0]
	}
	if a.op == "ite" {
		return append(baseArrays(a.args[1]), baseArrays(a.args[2])...)
	}
	return []*T{a}
}

// ---- arithmetic

func intRange(b *types.Basic) (*big.Int, *big.Int) {
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	m1 := func(v *big.Int) *big.Int { return new(big.Int).Sub(v, big.NewInt(1)) }
	neg := func(v *big.Int) *big.Int { return new(big.Int).Neg(v) }
	switch b.Kind() {
	case types.Int, types.Int64:
		return neg(p(63)), m1(p(63))
	case types.Int32:
		return neg(p(31)), m1(p(31))
	case types.Int16:
		return neg(p(15)), m1(p(15))
	case types.Int8:
		return neg(p(7)), m1(p(7))
	case types.Uint, types.Uint64, types.Uintptr:
		return big.NewInt(0), m1(p(64))
	case types.Uint32:
		return big.NewInt(0), m1(p(32))
	case types.Uint16:
		return big.NewInt(0), m1(p(16))
	case types.Uint8:
		return big.NewInt(0), m1(p(8))
	}
	return nil, nil
}

// wrap reduces an exact result to the range of its machine type.
func (x *Eng) wrap(st *State, v *T, t types.Type) *T {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return v
	}
	lo, hi := intRange(b)
	if lo == nil {
		return v
	}
	c := x.c
	if n, ok := v.isNum(); ok {
		if n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
			return v
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(n, lo)
		r.Mod(r, m)
		return c.num(r.Add(r, lo))
	}
	in := c.and(c.cmp("<=", c.num(lo), v), c.cmp("<=", v, c.num(hi)))
	if x.valid(in) {
		return v
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	w := c.arith("+", c.mk("Int", "mod", c.arith("-", v, c.num(lo)), c.num(m)), c.num(lo))
	return c.ite(in, v, w)
}

func (x *Eng) binop(st *State, in *ssa.BinOp, a, b Val) (Val, bool) {
	c := x.c
	switch in.Op {
	case token.EQL, token.NEQ:
		e := x.goEq(st, a, b, in.X.Type(), in)
		if in.Op == token.NEQ {
			e = c.not(e)
		}
		return e, true
	}
	p, ok1 := a.(*T)
	q, ok2 := b.(*T)
	if !ok1 || !ok2 {
		panic(unsupported("arithmetic on addresses"))
	}
	switch p.sort {
	case "String":
		switch in.Op {
		case token.ADD:
			return c.concat(p, q), true
		case token.LSS:
			return c.mk("Bool", "str.<", p, q), true
		case token.GTR:
			return c.mk("Bool", "str.<", q, p), true
		case token.LEQ:
			return c.mk("Bool", "str.<=", p, q), true
		case token.GEQ:
			return c.mk("Bool", "str.<=", q, p), true
		}
	case "F64":
		return x.floatOp(st, in.Op, p, q), true
	case "Bool":
		switch in.Op {
		case token.AND:
			return c.and(p, q), true
		case token.OR:
			return c.or(p, q), true
		}
	case "Int":
		switch in.Op {
		case token.ADD:
			return x.wrap(st, c.arith("+", p, q), in.Type()), true
		case token.SUB:
			return x.wrap(st, c.arith("-", p, q), in.Type()), true
		case token.MUL:
			return x.wrap(st, c.arith("*", p, q), in.Type()), true
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			_, cp := p.isNum()
			_, cq := q.isNum()
			for _, lc := range st.loops {
				if cp && cq {
					break
				}
				lc.bound(x, p)
				lc.bound(x, q)
			}
		}
		switch in.Op {
		case token.LSS:
			return c.cmp("<", p, q), true
		case token.LEQ:
			return c.cmp("<=", p, q), true
		case token.GTR:
			return c.cmp(">", p, q), true
		case token.GEQ:
			return c.cmp(">=", p, q), true
		case token.QUO, token.REM:
			x.oblige(st, "div", x.obName(st, in), c.not(c.eq(q, c.int(0))), x.pos(in))
			if dead(st) {
				return nil, false
			}
			return x.wrap(st, x.divmod(in.Op == token.QUO, p, q), in.Type()), true
		}
		if q0, ok := q.isNum(); ok {
			switch in.Op {
			case token.SHL:
				if q0.IsInt64() && q0.Int64() < 64 {
					return x.wrap(st, c.arith("*", p, c.num(new(big.Int).Lsh(big.NewInt(1), uint(q0.Int64())))), in.Type()), true
				}
			case token.SHR:
				if q0.IsInt64() && q0.Int64() < 64 {
					return c.mk("Int", "div", p, c.num(new(big.Int).Lsh(big.NewInt(1), uint(q0.Int64())))), true
				}
			}
		}
		// bit operations are left open
		r := c.fn("bit_"+tokName(in.Op), "Int", p, q)
		x.typed(r, in.Type(), st.stamp())
		return r, true
	}
	panic(unsupported("operator " + in.Op.String() + " on " + p.sort))
}

func tokName(t token.Token) string { return fmt.Sprintf("op%d", int(t)) }

// divmod is Go's truncated division.
func (x *Eng) divmod(quo bool, p, q *T) *T {
	c := x.c
	a, ok1 := p.isNum()
	b, ok2 := q.isNum()
	if ok1 && ok2 && b.Sign() != 0 {
		if quo {
			return c.num(new(big.Int).Quo(a, b))
		}
		return c.num(new(big.Int).Rem(a, b))
	}
	z := c.int(0)
	d := c.mk("Int", "div", p, q)
	neg := c.arith("-", z, c.mk("Int", "div", c.arith("-", z, p), q))
	// SMT div rounds towards minus infinity for positive divisors
	t := c.ite(c.cmp(">=", p, z), d, neg)
	if quo {
		return t
	}
	return c.arith("-", p, c.arith("*", q, t))
}

func (x *Eng) goEq(st *State, a, b Val, t types.Type, in ssa.Instruction) *T {
	c := x.c
	if ca, ok := a.(*Closure); ok {
		_ = ca
		return c.fals() // only comparable with nil
	}
	if cb, ok := b.(*Closure); ok {
		_ = cb
		return c.fals()
	}
	if a1, ok := a.(*Addr); ok {
		if b1, ok := b.(*T); ok && b1 == x.nilLoc() {
			return c.fals()
		}
		if b1, ok := b.(*Addr); ok && a1.kind == "field" && b1.kind == "field" && a1.key == b1.key {
			return c.eq(a1.loc, b1.loc)
		}
		panic(unsupported("comparison of addresses"))
	}
	if _, ok := b.(*Addr); ok {
		return x.goEq(st, b, a, t, in)
	}
	if _, ok := under(t).(*types.Slice); ok { // comparison with nil
		s := x.peek(st, a)
		if _, ok := b.(*Back); ok {
			s = x.peek(st, b)
		} else if bt := b.(*T); !strings.HasPrefix(bt.op, "(as seq.empty") {
			s = bt
		}
		if _, ok := a.(*Back); ok {
			return c.fals()
		}
		x.assumption("an empty slice may or may not be nil")
		nb := c.newSym("isnil", "Bool")
		x.assume(st, c.implies(nb, c.eq(c.length(s), c.int(0))))
		return nb
	}
	p, q := x.peek(st, a), x.peek(st, b)
	if p.sort == "F64" {
		return x.floatOp(st, token.EQL, p, q)
	}
	if p.sort != q.sort {
		// interface compared with a concrete value
		if p.sort == "Iface" {
			bt := in.(*ssa.BinOp).Y.Type()
			return c.eq(p, x.box(bt, q))
		}
		at := in.(*ssa.BinOp).X.Type()
		return c.eq(x.box(at, p), q)
	}
	return c.eq(p, q)
}

// ---- floating point (reals with infinities and NaN; rounding is not modelled)

func (x *Eng) fin(v *T) *T {
	if v.op == "mkfin" {
		return x.c.tru()
	}
	return x.c.mk("Bool", "(_ is mkfin)", v)
}
func (x *Eng) fval(v *T) *T { return x.c.sel("Real", "fval", "mkfin", 0, v) }

func (x *Eng) floatNeg(v *T) *T {
	return x.c.ite(x.fin(v), x.c.mk("F64", "mkfin", x.c.mk("Real", "-", x.fval(v))), x.c.fn("fneg", "F64", v))
}

func (x *Eng) floatOp(st *State, op token.Token, p, q *T) *T {
	c := x.c
	both := c.and(x.fin(p), x.fin(q))
	a, b := x.fval(p), x.fval(q)
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		x.divFacts(a, b)
		x.divFacts(b, a)
	}
	is := func(k string, v *T) *T {
		if v.op == "mkfin" {
			return c.fals()
		}
		return c.mk("Bool", "(_ is "+k+")", v)
	}
	nan := c.or(is("mknan", p), is("mknan", q))
	lt := func(p, q, a, b *T, strict bool) *T {
		o := "<"
		if !strict {
			o = "<="
		}
		inf := c.or(c.and(is("mkninf", p), c.not(is("mkninf", q))), c.and(is("mkpinf", q), c.not(is("mkpinf", p))))
		r := c.ite(both, c.cmp(o, a, b), inf)
		if !strict {
			r = c.or(c.and(c.not(both), c.eq(p, q)), r)
		}
		return c.and(c.not(nan), r)
	}
	switch op {
	case token.LSS:
		return lt(p, q, a, b, true)
	case token.GTR:
		return lt(q, p, b, a, true)
	case token.LEQ:
		return lt(p, q, a, b, false)
	case token.GEQ:
		return lt(q, p, b, a, false)
	case token.EQL:
		return c.and(c.not(nan), c.eq(p, q))
	case token.ADD:
		return c.fn("fadd", "F64", p, q)
	case token.SUB:
		return c.fn("fsub", "F64", p, q)
	case token.MUL:
		return c.fn("fmul", "F64", p, q)
	case token.QUO:
		// finite operands of moderate size: the rounded quotient
		lim := x.real(new(big.Rat).SetInt64(1 << 53))
		zero := c.mk("Real", "0.0")
		ok := c.and(both, c.cmp("<", zero, b), c.cmp("<=", zero, a), c.cmp("<=", a, lim), c.cmp("<=", b, lim))
		return c.ite(ok, c.mk("F64", "mkfin", c.fn("fdivr", "Real", a, b)), c.fn("fdiv", "F64", p, q))
	}
	panic(unsupported("float operator"))
}

// divFacts relates a rounded quotient of numbers up to 2^53 to a constant: rounding to nearest is
// monotone with a relative error of at most 2^-53, and the constant is itself the rounding of its
// shortest decimal form.
func (x *Eng) divFacts(r, k *T) {
	c := x.c
	if r.op == "ite" {
		x.divFacts(r.args[1], k)
		x.divFacts(r.args[2], k)
		return
	}
	if r.op == "fval" && r.args[0].op == "ite" {
		for _, a := range r.args[0].args[1:] {
			if a.op == "mkfin" {
				x.divFacts(a.args[0], k)
			}
		}
		return
	}
	if r.op != "fdivr" || len(k.args) > 0 {
		return
	}
	f, ok := x.realVal[k.id]
	if !ok || f <= 0 {
		return
	}
	d, _ := new(big.Rat).SetString(strconv.FormatFloat(f, 'e', -1, 64))
	eps := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 51))
	one := big.NewRat(1, 1)
	p, q := r.args[0], r.args[1]
	mul := func(v *big.Rat) *T { return c.mk("Real", "*", x.real(v), q) }
	pos := c.cmp("<", c.mk("Real", "0.0"), q)
	up := new(big.Rat).Mul(d, new(big.Rat).Add(one, eps))
	dn := new(big.Rat).Mul(d, new(big.Rat).Sub(one, eps))
	c.factOn(r, c.implies(c.and(pos, c.cmp("<=", p, mul(d))), c.cmp("<=", r, k)))
	c.factOn(r, c.implies(c.and(pos, c.cmp(">=", p, mul(d))), c.cmp(">=", r, k)))
	c.factOn(r, c.implies(c.and(pos, c.cmp(">=", p, mul(up))), c.cmp(">", r, k)))
	c.factOn(r, c.implies(c.and(pos, c.cmp("<=", p, mul(dn))), c.cmp("<", r, k)))
}

func (x *Eng) convert(st *State, vv Val, from, to types.Type, in ssa.Instruction) Val {
	c := x.c
	fs, ts := x.sort(from), x.sort(to)
	if fs == "Loc" || ts == "Loc" {
		if fs == ts {
			return vv
		}
		panic(unsupported("pointer conversion"))
	}
	v := x.peek(st, vv)
	switch {
	case fs == "Int" && ts == "Int":
		return x.wrap(st, v, to)
	case fs == "Int" && ts == "F64":
		lim := c.int(1 << 53)
		if !x.valid(c.and(c.cmp("<=", v, lim), c.cmp(">=", v, c.int(-(1<<53))))) {
			return c.fn("i2f", "F64", v)
		}
		if n, ok := v.isNum(); ok {
			return c.mk("F64", "mkfin", x.real(new(big.Rat).SetInt(n)))
		}
		return c.mk("F64", "mkfin", c.mk("Real", "to_real", v))
	case fs == "F64" && ts == "Int":
		a := x.fval(v)
		tr := c.ite(c.cmp(">=", a, c.mk("Real", "0.0")), c.mk("Int", "to_int", a), c.mk("Int", "-", c.mk("Int", "to_int", c.mk("Real", "-", a))))
		lo, hi := intRange(under(to).(*types.Basic))
		ok := c.and(x.fin(v), c.cmp("<=", c.num(lo), tr), c.cmp("<=", tr, c.num(hi)))
		undef := c.fn("f2i_undefined", "Int", v)
		x.typed(undef, to, st.stamp())
		return c.ite(ok, tr, undef)
	case fs == "F64" && ts == "F64":
		return v
	case fs == "String" && ts == "String":
		return v
	case fs == "Int" && ts == "String":
		return c.ite(c.and(c.cmp(">=", v, c.int(0)), c.cmp("<", v, c.int(128))), c.mk("String", "str.from_code", v), c.fn("runestr", "String", v))
	case fs == ts:
		return v
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

func (x *Eng) sortedObs() []*Obligation {
	var r []*Obligation
	ks := append([]string(nil), x.obOrder...)
	sort.Strings(ks)
	for _, k := range ks {
		r = append(r, x.obs[k])
	}
	return r
}
