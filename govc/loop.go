package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
	index  int
}

type FnLoops struct {
	byHeader map[*ssa.BasicBlock]*Loop
}

func (x *Eng) loops(fn *ssa.Function) *FnLoops {
	if l, ok := x.loopInfo[fn]; ok {
		return l
	}
	L := &FnLoops{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := L.byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					L.byHeader[s] = l
				}
				l.latch = append(l.latch, b)
				var walk func(b *ssa.BasicBlock)
				walk = func(b *ssa.BasicBlock) {
					if l.blocks[b] {
						return
					}
					l.blocks[b] = true
					for _, p := range b.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range L.byHeader {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		L.byHeader[h].index = i
	}
	x.loopInfo[fn] = L
	return L
}

type modInfo struct {
	exc  []*T
	fn   bool // objects allocated since function entry may have changed
	all  bool
	each *EachClause
}

type seqUse struct {
	seq *T
}

// LoopCtx is an active loop cut at its header.
type LoopCtx struct {
	loop       *Loop
	frameKey   string
	depth      int
	collect    bool
	round      int
	backKeys   map[string]bool // heap fields changed in an iteration that is followed by another
	changed    bool
	exits      int
	backs      int
	mods       map[string]*modInfo
	backMods   map[int]bool
	iterMods   map[int]bool
	seqs       []*T // loop-stable sequences indexed in the body
	bounds     []*T // loop-stable numbers compared with something
	symMark    int
	entryS     Stamp
	entryB     *T
	entry      *State // state before the loop
	phis       []*ssa.Phi
	init       map[*ssa.Phi]*T
	stable     map[*ssa.Phi]bool
	nosuf      map[*ssa.Phi]bool
	cands      []*cand
	header     *State // state at the header of the current round
	headPhi    map[*ssa.Phi]*T
	measures   []*measure
	evMark     int
	name       string
	seqSeen    map[int]bool
	bndSeen    map[int]bool
	generation int
	hasIter    bool
	iterArgs   []*T
}

type cand struct {
	key    string
	goal   func(st *State, f *Frame) *T
	assume func(st *State, f *Frame)
	dead   bool
	vcs    int
	opt    bool // tried briefly
	basic  bool // arithmetic between a loop variable and a bound
	must   bool // from the contract: report when it fails
}

type measure struct {
	key  string
	ok   func(st *State, f *Frame, lc *LoopCtx) *T // at the back edge: the measure decreased and stays bounded
	dead bool
}

type loopMem struct {
	mods    map[string]*modInfo
	dropped map[string]bool
	unst    map[*ssa.Phi]bool
	nosuf   map[*ssa.Phi]bool
}

func (x *Eng) maxSym(t *T) int {
	if v, ok := x.maxSymMemo[t.id]; ok {
		return v
	}
	m := 0
	if len(t.args) == 0 {
		m = x.c.symOrd[t.id]
	}
	for _, a := range t.args {
		if v := x.maxSym(a); v > m {
			m = v
		}
	}
	x.maxSymMemo[t.id] = m
	return m
}

func (lc *LoopCtx) isStable(x *Eng, t *T) bool { return x.maxSym(t) <= lc.symMark }

func (lc *LoopCtx) mod(key string) *modInfo {
	m := lc.mods[key]
	if m == nil {
		m = &modInfo{}
		lc.mods[key] = m
		lc.changed = true
	}
	return m
}

// record notes a write to key at loc.
func (lc *LoopCtx) record(x *Eng, st *State, key string, loc *T) {
	m := lc.mod(key)
	if m.all {
		return
	}
	if x.isNewer(loc, lc.entryS) {
		return
	}
	for _, e := range m.exc {
		if e == loc {
			return
		}
	}
	if lc.isStable(x, loc) {
		m.exc = append(m.exc, loc)
		lc.changed = true
		return
	}
	if x.valid(x.c.cmp(">=", x.oid(loc), lc.entryB)) {
		return
	}
	for _, e := range m.exc {
		if x.valid(x.c.eq(e, loc)) {
			return
		}
	}
	if x.valid(x.c.cmp(">=", x.oid(loc), x.bases[0])) {
		if !m.fn {
			m.fn = true
			lc.changed = true
		}
		return
	}
	if !m.all {
		m.all = true
		lc.changed = true
		if os.Getenv("GOVC_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop %s: %s modified anywhere (%s)\n", lc.name, key, trunc(loc.String(), 200))
		}
	}
}

func (lc *LoopCtx) recordAll(key string) {
	m := lc.mod(key)
	if !m.all {
		m.all = true
		lc.changed = true
	}
}

func (lc *LoopCtx) recordFresh(key string) { lc.mod(key) }

func (lc *LoopCtx) recordBack(x *Eng, st *State, id int) {
	if _, ok := lc.entry.backs[id]; ok && !lc.backMods[id] {
		lc.backMods[id] = true
		lc.changed = true
	}
}

func (lc *LoopCtx) recordIter(id int) {
	if _, ok := lc.entry.iters[id]; ok {
		if !lc.iterMods[id] {
			lc.iterMods[id] = true
			lc.changed = true
		}
		lc.hasIter = true
	}
}

func (lc *LoopCtx) access(x *Eng, st *State, s, i *T) {
	if !lc.collect || lc.seqSeen[s.id] || !isSeq(s.sort) {
		return
	}
	if lc.isStable(x, s) && !lc.isStable(x, i) {
		lc.seqSeen[s.id] = true
		lc.seqs = append(lc.seqs, s)
		lc.changed = true
	}
}

func (lc *LoopCtx) bound(x *Eng, t *T) {
	if !lc.collect || lc.bndSeen[t.id] || !lc.isStable(x, t) {
		return
	}
	lc.bndSeen[t.id] = true
	lc.bounds = append(lc.bounds, t)
	lc.changed = true
}

// tryUnroll executes a loop concretely while its exit test is decided.
func (x *Eng) tryUnroll(st *State, f *Frame, l *Loop, from, b *ssa.BasicBlock) bool {
	k := fmt.Sprintf("unroll:%s:%d", f.key, b.Index)
	n := 0
	if g, ok := st.ghost[k]; ok {
		v, _ := g.isNum()
		n = int(v.Int64())
	}
	if !l.blocks[from] {
		n = 0
	}
	if n > x.unrollMax {
		return false
	}
	vals := x.phiVals(st, f, from, b)
	regs := map[ssa.Value]Val{}
	for p, v := range vals {
		regs[p] = v
	}
	get := func(v ssa.Value) Val {
		if r, ok := regs[v]; ok {
			return r
		}
		if r, ok := f.regs[v]; ok {
			return r
		}
		if c, ok := v.(*ssa.Const); ok {
			return x.constVal(c)
		}
		return nil
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			p, ok1 := get(in.X).(*T)
			q, ok2 := get(in.Y).(*T)
			if !ok1 || !ok2 || p.sort != "Int" || q.sort != "Int" {
				return false
			}
			if _, ok := p.isNum(); !ok {
				return false
			}
			if _, ok := q.isNum(); !ok {
				return false
			}
			r, ok := x.binop(st, in, p, q)
			if !ok {
				return false
			}
			regs[in] = r
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				v := get(in.Call.Args[0])
				if v == nil {
					return false
				}
				switch v.(type) {
				case *T, *Back:
				default:
					return false
				}
				t := x.peek(st, v)
				if t.sort == "Loc" {
					return false
				}
				regs[in] = x.c.length(t)
				continue
			}
			if n, ok := x.pureCall(st, in, get); ok {
				regs[in] = n
				continue
			}
			return false
		case *ssa.If:
			c, ok := get(in.Cond).(*T)
			if !ok || !(c.isTrue() || c.isFalse()) {
				return false
			}
			st.ghost[k] = x.c.int(int64(n + 1))
			return true
		default:
			return false
		}
	}
	return false
}

func (x *Eng) enterLoop(st *State, f *Frame, l *Loop, from *ssa.BasicBlock) {
	c := x.c
	b := l.header
	vals := x.phiVals(st, f, from, b)
	lc := &LoopCtx{loop: l, frameKey: f.key, depth: len(st.frames), mods: map[string]*modInfo{}, backMods: map[int]bool{}, iterMods: map[int]bool{},
		init: map[*ssa.Phi]*T{}, stable: map[*ssa.Phi]bool{}, nosuf: map[*ssa.Phi]bool{}, seqSeen: map[int]bool{}, bndSeen: map[int]bool{}}
	lc.name = fmt.Sprintf("%s.loop%d", fnKey(f.fn), l.index+1)
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		lc.phis = append(lc.phis, p)
		lc.stable[p] = true
		switch v := vals[p].(type) {
		case *T:
			lc.init[p] = v
		case *Back:
			lc.init[p] = x.freeze(st, v)
		case *Closure:
			lc.init[p] = x.closureTerm(st, v)
		default:
			panic(unsupported(fmt.Sprintf("loop variable of kind %T", v)))
		}
	}
	memKey := fmt.Sprintf("%s#%d", f.key, b.Index)
	mem := x.loopCache[memKey]
	if mem == nil {
		mem = &loopMem{mods: map[string]*modInfo{}, dropped: map[string]bool{}, unst: map[*ssa.Phi]bool{}, nosuf: map[*ssa.Phi]bool{}}
		x.loopCache[memKey] = mem
	}
	for k := range mem.mods {
		lc.mods[k] = &modInfo{fn: mem.mods[k].fn, all: mem.mods[k].all}
	}
	for p := range mem.unst {
		lc.stable[p] = false
	}
	for p := range mem.nosuf {
		lc.nosuf[p] = true
	}
	lc.symMark = c.fresh
	lc.entryS = st.stamp()
	lc.entryB = x.boundT(lc.entryS)
	lc.entry = st.clone()
	dropped := mem.dropped
	x.cur = st
	for round := 0; ; round++ {
		if round > 40 {
			panic(abortErr{"loop analysis does not converge: " + lc.name})
		}
		lc.changed, lc.round = false, round
		lc.backs, lc.exits = 0, 0
		lc.collect = true
		x.s.push()
		st2 := x.loopHead(st, lc, dropped)
		if !dead(st2) && x.feasible() {
			x.run(st2)
		}
		x.s.pop()
		x.cur = st
		for _, cd := range lc.cands {
			if cd.dead && !dropped[cd.key] {
				dropped[cd.key] = true
				lc.changed = true
				if os.Getenv("GOVC_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "loop %s: dropped %s\n", lc.name, cd.key)
				}
			}
		}
		if !lc.changed {
			break
		}
	}
	for k, m := range lc.mods {
		mem.mods[k] = &modInfo{fn: m.fn, all: m.all}
	}
	for p, s := range lc.stable {
		if !s {
			mem.unst[p] = true
		}
		if lc.nosuf[p] {
			mem.nosuf[p] = true
		}
	}
	if !x.quiet(st) {
		for _, cd := range lc.cands {
			x.noteDischarged(lc, cd)
		}
		if lc.backs > 0 && !x.noTerm(lc) {
			alive := ""
			for _, m := range lc.measures {
				if !m.dead {
					alive = m.key
				}
			}
			x.oblige(st, "term", lc.name+" terminates", c.boolT(alive != ""), x.pos(b.Instrs[0]))
			delete(st.ghost, "dead")
		}
	}
	lc.collect = false
	x.s.push()
	st2 := x.loopHead(st, lc, dropped)
	if !dead(st2) {
		if x.onHead != nil {
			x.onHead(st2, lc)
		}
		x.run(st2)
	}
	x.s.pop()
}

func (x *Eng) noteDischarged(lc *LoopCtx, cd *cand) {
	full := "inv:" + lc.name + " " + cd.key
	o := x.obs[full]
	if o == nil {
		o = &Obligation{Name: full, Kind: "inv", Solver: map[string]int{}}
		x.obs[full] = o
		x.obOrder = append(x.obOrder, full)
	}
	o.VCs += cd.vcs
	o.Solver["z3"] += cd.vcs
}

// loopHead makes the state at the loop header: everything the loop modifies is arbitrary,
// except what the candidate invariants say.
func (x *Eng) loopHead(st *State, lc *LoopCtx, dropped map[string]bool) *State {
	c := x.c
	st2 := st.clone()
	x.cur = st2
	x.newEpoch(st2)
	f := st2.top()
	lc.headPhi = map[*ssa.Phi]*T{}
	for _, p := range lc.phis {
		if lc.stable[p] {
			f.regs[p] = lc.init[p]
			lc.headPhi[p] = lc.init[p]
			continue
		}
		if isSeq(lc.init[p].sort) && !lc.nosuf[p] && shortened(p) { // as long as it is only ever shortened from the front
			o := c.newSym("off_"+p.Comment, "Int")
			x.assume(st2, c.and(c.cmp("<=", c.int(0), o), c.cmp("<=", o, c.length(lc.init[p]))))
			v := c.suffix(lc.init[p], o, nil, nil)
			c.stamps[v.id] = x.stampOf(lc.init[p])
			f.regs[p] = v
			lc.headPhi[p] = v
			continue
		}
		v := c.newSym("v_"+p.Comment, lc.init[p].sort)
		x.typed(v, p.Type(), st2.stamp())
		f.regs[p] = v
		lc.headPhi[p] = v
	}
	for _, k := range sortedKeys(lc.mods) {
		x.havocKey(st2, k, lc.mods[k], lc)
	}
	for id := range lc.backMods {
		s := st2.backs[id]
		n := c.newSym("back", s.sort)
		c.factOn(n, c.eq(c.length(n), c.length(s)))
		c.stamps[n.id] = st2.stamp()
		st2.backs[id] = n
	}
	for id := range lc.iterMods {
		st2.iters[id] = c.newSym("visited", st2.iters[id].sort)
	}
	f.prev = nil
	f.block = lc.loop.header
	f.pc = len(lc.phis)
	st2.loops = append(st2.loops, lc)
	lc.evMark = len(st2.events)
	// invariants
	lc.measures = x.measures(lc, st2)
	all := x.candidates(lc, st2)
	lc.cands = lc.cands[:0]
	for _, cd := range all {
		if dropped[cd.key] {
			continue
		}
		// must hold on entry
		lc.cands = append(lc.cands, cd)
	}
	// check on entry in the entry state with the initial values
	ef := lc.entry.top()
	save := map[*ssa.Phi]Val{}
	for _, p := range lc.phis {
		save[p] = ef.regs[p]
		ef.regs[p] = lc.init[p]
	}
	live := lc.cands[:0]
	for _, cd := range lc.cands {
		g := cd.goal(lc.entry, ef)
		if cd.must && !x.validR(g) || !cd.must && !x.validC(cd, g) {
			dropped[cd.key] = true
			if os.Getenv("GOVC_LOOP") != "" {
				fmt.Fprintf(os.Stderr, "loop %s: not initially %s   %s\n", lc.name, cd.key, trunc(g.String(), 300))
			}
			continue
		}
		cd.vcs = 1
		live = append(live, cd)
	}
	lc.cands = live
	for _, p := range lc.phis {
		if save[p] == nil {
			delete(ef.regs, p)
		} else {
			ef.regs[p] = save[p]
		}
	}
	for _, cd := range lc.cands {
		cd.assume(st2, f)
	}
	lc.header = st2.clone()
	return st2
}

func (x *Eng) havocKey(st *State, k string, m *modInfo, lc *LoopCtx) {
	p := x.heapOf(st, k)
	t := x.c.newSym("H_"+k, p.term.sort)
	x.ts++
	h := &HeapV{term: t, prev: p, kind: "havoc", ts: x.ts, st: st.stamp(), key: k, all: m.all, exc: append([]*T(nil), m.exc...)}
	if m.fn {
		h.base, h.baseS = x.bases[0], Stamp{0, 0}
	} else {
		h.base, h.baseS = lc.entryB, lc.entryS
	}
	st.heap[k] = h
}

func (x *Eng) backEdge(st *State, f *Frame, lc *LoopCtx, from *ssa.BasicBlock) {
	lc.backs++
	for k, v := range st.heap {
		if lc.header != nil && lc.header.heap[k] != v {
			if lc.backKeys == nil {
				lc.backKeys = map[string]bool{}
			}
			lc.backKeys[k] = true
		}
	}
	vals := x.phiVals(st, f, from, lc.loop.header)
	nv := map[*ssa.Phi]*T{}
	for _, p := range lc.phis {
		switch v := vals[p].(type) {
		case *T:
			nv[p] = v
		case *Back:
			nv[p] = x.freeze(st, v)
		case *Closure:
			nv[p] = x.closureTerm(st, v)
		default:
			panic(unsupported(fmt.Sprintf("loop variable of kind %T", v)))
		}
	}
	for _, p := range lc.phis {
		f.regs[p] = nv[p]
	}
	if lc.collect {
		for _, p := range lc.phis {
			if lc.stable[p] && nv[p] != lc.init[p] && !x.valid(x.c.eq(nv[p], lc.init[p])) {
				lc.stable[p] = false
				lc.changed = true
			}
			if !lc.stable[p] && isSeq(lc.init[p].sort) && !lc.nosuf[p] && lc.headPhi[p] != lc.init[p] {
				sf, ok := x.c.suf[nv[p].id]
				if nv[p] != lc.init[p] && (!ok || sf.base != lc.init[p] || !x.valid(x.c.and(x.c.cmp("<=", x.c.int(0), sf.off), x.c.cmp("<=", sf.off, x.c.length(sf.base))))) {
					lc.nosuf[p] = true
					lc.changed = true
				}
			}
		}
		for _, cd := range lc.cands {
			if cd.dead {
				continue
			}
			g := cd.goal(st, f)
			cd.vcs++
			{
				ok := false
				if cd.must {
					ok = x.validR(g)
				} else {
					ok = x.validC(cd, g)
				}
				if !ok {
					cd.dead = true
					if os.Getenv("GOVC_LOOP") == "2" {
						fmt.Fprintf(os.Stderr, "loop %s: %s fails: %s\n path %v\n", lc.name, cd.key, trunc(g.String(), 6000), st.path)
						if d := os.Getenv("GOVC_DUMP"); d != "" && strings.Contains(lc.name+" "+cd.key, d) {
							os.WriteFile("/tmp/cand.smt2", []byte(x.s.script(x.c.not(g))), 0o644)
						}
					}
				}
			}
		}
		for _, m := range lc.measures {
			if !m.dead && !x.valid(m.ok(st, f, lc)) {
				m.dead = true
			}
		}
		return
	}
	if x.ct != nil && x.ct.UsesErrors && !x.quiet(st) {
		for _, e := range st.events[min(lc.evMark, len(st.events)):] {
			if e.err != nil && e.kind != "token" && e.kind != "num" {
				x.oblige(st, "err", "no failed "+e.kind+" is passed over in "+lc.name, x.c.eq(x.itag(e.err), x.c.int(0)), x.pos(lc.loop.header.Instrs[0]))
			}
		}
		delete(st.ghost, "dead")
	}
	if x.onBack != nil {
		x.onBack(st, lc)
	}
}

func (x *Eng) measures(lc *LoopCtx, head *State) []*measure {
	c := x.c
	var ms []*measure
	ms = append(ms, &measure{key: "tokens", ok: func(st *State, f *Frame, lc *LoopCtx) *T {
		var oks []*T
		for _, e := range st.events[min(lc.evMark, len(st.events)):] {
			if e.kind == "token" { // a token was taken from the finite rest of the input
				oks = append(oks, c.eq(x.itag(e.err), c.int(0)))
			}
		}
		return c.or(oks...)
	}})
	for _, p := range lc.phis {
		p := p
		h := lc.headPhi[p]
		if lc.stable[p] {
			continue
		}
		if h.sort == "Int" {
			for _, n := range lc.bounds {
				if n.sort != "Int" {
					continue
				}
				n := n
				ms = append(ms, &measure{key: "up " + p.Comment + " " + trunc(n.String(), 40), ok: func(st *State, f *Frame, lc *LoopCtx) *T {
					v := f.regs[p].(*T)
					return c.and(c.cmp(">", v, h), c.cmp("<=", v, n))
				}}, &measure{key: "down " + p.Comment + " " + trunc(n.String(), 40), ok: func(st *State, f *Frame, lc *LoopCtx) *T {
					v := f.regs[p].(*T)
					return c.and(c.cmp("<", v, h), c.cmp(">=", c.add(v, 1), n))
				}})
			}
		}
		if isSeq(h.sort) || h.sort == "String" {
			ms = append(ms, &measure{key: "shorter " + p.Comment, ok: func(st *State, f *Frame, lc *LoopCtx) *T {
				return c.cmp("<", c.length(f.regs[p].(*T)), c.length(h))
			}})
		}
	}
	for id := range lc.iterMods {
		_ = id
		ms = append(ms, &measure{key: "map keys", ok: func(st *State, f *Frame, lc *LoopCtx) *T { return c.tru() }})
	}
	return ms
}

// simple candidate made from one expression
func exprCand(x *Eng, key string, g func(st *State, f *Frame) *T) *cand {
	return &cand{key: key, goal: g, assume: func(st *State, f *Frame) { x.assume(st, g(st, f)) }}
}

func (x *Eng) candidates(lc *LoopCtx, head *State) []*cand {
	c := x.c
	var cs []*cand
	for pi, p := range lc.phis {
		p := p
		if lc.stable[p] {
			continue
		}
		init := lc.init[p]
		nm := fmt.Sprintf("%d:%s", pi, p.Comment)
		switch init.sort {
		case "Int":
			cs = append(cs, exprCand(x, nm+" >= initial", func(st *State, f *Frame) *T { return c.cmp(">=", f.regs[p].(*T), init) }))
			cs[len(cs)-1].basic = true
			if p.Comment != "rangeindex" {
				cs = append(cs, exprCand(x, nm+" <= initial", func(st *State, f *Frame) *T { return c.cmp("<=", f.regs[p].(*T), init) }))
				cs[len(cs)-1].basic = true
			}
			for _, n := range lc.bounds {
				if n.sort != "Int" {
					continue
				}
				if isNumT(n) && p.Comment == "rangeindex" {
					continue
				}
				n := n
				bi := boundName(n)
				cs = append(cs, exprCand(x, fmt.Sprintf("%s < %s", nm, bi), func(st *State, f *Frame) *T { return c.cmp("<", f.regs[p].(*T), n) }))
				cs[len(cs)-1].basic = !isNumT(n)
				cs = append(cs, exprCand(x, fmt.Sprintf("%s <= %s", nm, bi), func(st *State, f *Frame) *T { return c.cmp("<=", f.regs[p].(*T), n) }))
				cs[len(cs)-1].basic = !isNumT(n)
				cs = append(cs, exprCand(x, fmt.Sprintf("%s >= %s", nm, bi), func(st *State, f *Frame) *T { return c.cmp(">=", f.regs[p].(*T), n) }))
				cs[len(cs)-1].basic = !isNumT(n)
			}
			for qi, q := range lc.phis {
				q := q
				if qi < pi && !lc.stable[q] && lc.init[q].sort == "Int" {
					cs = append(cs, exprCand(x, fmt.Sprintf("%s - %d constant", nm, qi), func(st *State, f *Frame) *T {
						return c.eq(c.arith("-", f.regs[p].(*T), f.regs[q].(*T)), c.arith("-", init, lc.init[q]))
					}))
				}
			}
		case "Loc":
			cs = append(cs, exprCand(x, nm+" fresh, nil or initial", func(st *State, f *Frame) *T {
				v := f.regs[p].(*T)
				return c.or(c.cmp(">=", x.oid(v), lc.entryB), c.eq(x.oid(v), c.int(-1)), c.eq(v, init))
			}))
			cs = append(cs, exprCand(x, nm+" fresh or initial", func(st *State, f *Frame) *T {
				v := f.regs[p].(*T)
				return c.or(c.cmp(">=", x.oid(v), lc.entryB), c.eq(v, init))
			}))
			cs = append(cs, exprCand(x, nm+" not nil", func(st *State, f *Frame) *T { return x.nonNil(f.regs[p].(*T)) }))
		default:
			if isSeq(init.sort) {
				if _, ok := under(p.Type()).(*types.Slice); ok {
					cs = append(cs, exprCand(x, nm+" no shorter", func(st *State, f *Frame) *T {
						return c.cmp(">=", c.length(f.regs[p].(*T)), c.length(init))
					}))
					for ki, k := range x.indices(lc) {
						k := k
						cs = append(cs, exprCand(x, fmt.Sprintf("%s grows with k%d", nm, ki), func(st *State, f *Frame) *T {
							return c.eq(c.length(f.regs[p].(*T)), c.arith("+", c.length(init), k(f)))
						}))
						cs = append(cs, exprCand(x, fmt.Sprintf("%s grows at most with k%d", nm, ki), func(st *State, f *Frame) *T {
							return c.cmp("<=", c.length(f.regs[p].(*T)), c.arith("+", c.length(init), k(f)))
						}))
					}
				}
			}
		}
	}
	cs = append(cs, x.contractCands(lc, head)...)
	return cs
}

// indices are the numbers of completed iterations, as functions of the loop variables.
func (x *Eng) indices(lc *LoopCtx) []func(f *Frame) *T {
	var r []func(f *Frame) *T
	for _, p := range lc.phis {
		p := p
		if lc.stable[p] || lc.init[p].sort != "Int" {
			continue
		}
		if v, ok := lc.init[p].isNum(); ok {
			off := -v.Int64()
			r = append(r, func(f *Frame) *T { return x.c.add(f.regs[p].(*T), off) })
		}
	}
	return r
}

func (x *Eng) noTerm(lc *LoopCtx) bool {
	if x.ct != nil && x.ct.NoTerm != "" {
		x.assumption("termination of " + lc.name + " not checked: " + x.ct.NoTerm)
		return true
	}
	return false
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

var reSym = regexp.MustCompile(`!\d+`)

// boundName names a bound independently of the numbering of symbols, so that what was found out about
// it in one analysis of the loop carries over to the next.
func boundName(t *T) string { return trunc(reSym.ReplaceAllString(t.String(), ""), 400) }

func isNumT(t *T) bool {
	_, ok := t.isNum()
	return ok
}

// shortened: some turn of the loop cuts the sequence from the front.
func shortened(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if sl, ok := e.(*ssa.Slice); ok && sl.Low != nil && sl.High == nil {
			return true
		}
	}
	return false
}
