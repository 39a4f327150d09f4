package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *T, *Back, *Addr, Tuple, *Closure, *MapIter, *Refl, *BoundMethod.
type Val interface{}

type Tuple []Val

// Back is a slice whose backing store is known and only reachable through this value.
type Back struct {
	id   int
	elem types.Type
}

// Addr is the address of something that is not a whole object.
type Addr struct {
	kind string // "field", "elem", "global"
	loc  *T     // field: object
	key  string // field: heap key
	typ  types.Type
	// elem
	seq  *T
	back *Back
	idx  *T
	path []int
	etyp types.Type // element type of the slice
	from *Addr      // where the slice was loaded from, if known
	name string
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

type MapIter struct {
	id   int
	m    *T
	typ  *types.Map
	keyP string
	keyV string
}

// HeapV is one version of a heap array.
type HeapV struct {
	term *T // Array Loc S
	prev *HeapV
	kind string // init, store, havoc
	loc  *T
	val  *T
	ts   int
	st   Stamp // allocations before this version
	key  string
	// havoc
	base  *T // objects with oid < base are unchanged ...
	baseS Stamp
	exc   []*T // ... unless they are one of these
	all   bool // anything may have changed
	rule  func(x *Eng, st *State, loc, val *T)
	mark  int
}

type Event struct {
	kind string // token, decode, skip
	tok  *T     // Iface token
	tt   *T     // start element value (decode: the start argument)
	loc  *T     // decode target
	typ  types.Type
	ok   *T // succeeded
	err  *T
	dec  *T
	args []*T
	res  []*T
	name string
	snap *T // decode: the target right after it
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	ret    ssa.Value // register of the caller receiving the result
	isCall bool
	defers []deferred
	key    string // call path, identifies loops across executions
	onRet  func(x *Eng, st *State, results []Val)
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fnv  Val
	inst ssa.Instruction
}

type rule struct {
	id      int
	seqs    map[int]bool // trigger sequences (nil: triggers on map arrays)
	inst    func(st *State, idx *T)
	desc    string
	keySort string
}

type State struct {
	frames           []*Frame
	heap             map[string]*HeapV
	backs            map[int]*T
	frozen           map[int]bool
	iters            map[int]*T // visited sets
	epoch            int
	nalloc           int
	events           []Event
	loops            []*LoopCtx
	rules            []*rule
	done             map[string]bool // instantiated rules
	depth            int
	ghost            map[string]*T
	path             []string
	touched          map[int][]*T
	aliases          map[int][]*T // sequences said to be equal
	atLock, atUnlock *State
	sections         int
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs)+4)
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.heap = copyMap(s.heap)
	n.backs = copyMap(s.backs)
	n.frozen = copyMap(s.frozen)
	n.iters = copyMap(s.iters)
	n.done = copyMap(s.done)
	n.touched = copyMap(s.touched)
	n.aliases = copyMap(s.aliases)
	n.ghost = copyMap(s.ghost)
	n.events = append([]Event(nil), s.events...)
	n.loops = append([]*LoopCtx(nil), s.loops...)
	n.rules = append([]*rule(nil), s.rules...)
	n.path = append([]string(nil), s.path...)
	return &n
}

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// ---- objects and ages

func (x *Eng) baseSym(e int) *T { return x.bases[e] }

// newEpoch starts a new allocation epoch not before the current one.
func (x *Eng) newEpoch(st *State) {
	t := x.c.newSym("B", "Int")
	x.c.factOn(t, x.c.cmp(">=", t, x.c.add(x.bases[st.epoch], int64(st.nalloc))))
	x.bases = append(x.bases, t)
	x.baseIdx[t.id] = len(x.bases) - 1
	st.epoch = len(x.bases) - 1
	st.nalloc = 0
}

func (st *State) stamp() Stamp { return Stamp{st.epoch, st.nalloc} }

func (x *Eng) boundT(s Stamp) *T { return x.c.add(x.bases[s.epoch], int64(s.n)) }

func (x *Eng) newObj(st *State) *T {
	l := x.c.mk("Loc", "mkloc", x.c.add(x.bases[st.epoch], int64(st.nalloc)), x.c.int(0))
	st.nalloc++
	x.ts++
	x.allocTS[x.oid(l).id] = x.ts
	return l
}

// stampOf bounds the age of the objects mentioned in a term.
func (x *Eng) stampOf(t *T) Stamp {
	if s, ok := x.c.stamps[t.id]; ok {
		return s
	}
	r := Stamp{0, 0}
	switch {
	case t.op == "mkloc":
		b, k := splitAdd(t.args[0])
		if e, ok := x.baseIdx[b.id]; ok {
			r = Stamp{e, int(k) + 1}
		} else if v, ok := t.args[0].isNum(); ok && v.Sign() < 0 {
			r = Stamp{0, 0}
		} else if t.args[0].op == "oid" {
			r = x.stampOf(t.args[0].args[0])
		} else if strings.HasPrefix(t.args[0].op, "box_") {
			r = x.stampOf(t.args[0].args[0])
		} else {
			r = stampInf
		}
	case t.sort == "Int" || t.sort == "Bool" || t.sort == "String" || t.sort == "F64" || t.sort == "Real":
		r = Stamp{0, 0}
	case len(t.args) == 0:
		if strings.HasPrefix(t.op, "(as seq.empty") || strings.HasPrefix(t.op, "mk") {
			r = Stamp{0, 0}
		} else {
			r = stampInf
		}
	case t.op == "select":
		r = stampInf
	default:
		for _, a := range t.args {
			if t.op == "ite" && a.sort == "Bool" {
				continue
			}
			r = maxStamp(r, x.stampOf(a))
		}
	}
	x.c.stamps[t.id] = r
	return r
}

// stampAs records that every object in t was allocated before s, as a fact.
func (x *Eng) stampAs(t *T, s Stamp) {
	if s == stampInf {
		return
	}
	if len(t.args) > 0 && t.op != "select" && t.op != "seq.nth" && !strings.Contains(t.op, ".") && !x.c.declared[t.op] {
		return // constructor terms carry their own age
	}
	if o, ok := x.c.stamps[t.id]; !ok || s.le(o) {
		x.c.stamps[t.id] = s
	} else {
		return
	}
	if l := x.locOf(t); l != nil {
		x.ageFact(t, l, s)
	}
}

func (x *Eng) locOf(t *T) *T {
	switch t.sort {
	case "Loc":
		return t
	case "Iface":
		return x.iloc(t)
	}
	return nil
}

func (x *Eng) ageFact(on, l *T, s Stamp) {
	c := x.c
	o := x.oid(l)
	c.factOn(on, c.cmp("<", o, x.boundT(s)))
	c.factOn(on, c.cmp(">=", x.pth(l), c.int(0)))
	c.factOn(on, c.implies(c.eq(o, c.int(-1)), c.eq(x.pth(l), c.int(0))))
	if on.sort == "Loc" {
		c.factOn(on, c.cmp(">=", o, c.int(-1)))
	} else {
		c.factOn(on, c.cmp(">=", x.itag(on), c.int(0)))
		c.factOn(on, c.implies(c.eq(x.itag(on), c.int(0)), c.eq(l, x.nilLoc())))
	}
}

// typed adds the facts every Go value of the type satisfies.
func (x *Eng) typed(t *T, ty types.Type, s Stamp) *T {
	if t.op == "ite" && t.sort != "Bool" {
		x.typed(t.args[1], ty, s)
		x.typed(t.args[2], ty, s)
	}
	c := x.c
	if len(t.args) > 0 && strings.HasPrefix(t.op, "mk") {
		return t
	}
	switch t.sort {
	case "Int":
		if b, ok := under(ty).(*types.Basic); ok && len(c.facts[t.id]) == 0 {
			lo, hi := intRange(b)
			if lo != nil {
				c.factOn(t, c.and(c.cmp("<=", c.num(lo), t), c.cmp("<=", t, c.num(hi))))
			}
		}
	case "Loc", "Iface":
		x.stampAs(t, s)
	default:
		if isSeq(t.sort) || t.sort == "String" {
			if isSeq(t.sort) {
				x.stampAs(t, s)
			}
			if len(t.args) == 0 || t.op == "select" || t.op == "seq.nth" || strings.Contains(t.op, ".") {
				l := c.length(t)
				c.factOn(l, c.cmp("<=", l, c.int(1<<60)))
				if _, ok := l.isNum(); !ok {
					c.factOn(l, c.cmp(">=", l, c.int(0)))
				}
				c.factOn(t, c.cmp(">=", l, c.int(0)))
			}
			return t
		}
		if st, ok := isStruct(ty); ok {
			x.stampAs(t, s)
			for i := 0; i < st.NumFields(); i++ {
				x.typed(x.field(ty, t, i), st.Field(i).Type(), s)
			}
		}
	}
	return t
}

// ---- heap

func (x *Eng) fieldKey(t types.Type, i int) string {
	st, _ := isStruct(t)
	k := typeName(t) + "." + st.Field(i).Name()
	if _, ok := x.keyType[k]; !ok {
		x.keyType[k] = st.Field(i).Type()
		x.keyOwner[k] = types.NewPointer(t)
	}
	return k
}

func (x *Eng) cellKey(t types.Type) string {
	k := "cell:" + typeName(t)
	x.keyType[k] = t
	return k
}

func (x *Eng) keySort(key string) string {
	if s, ok := x.keySorts[key]; ok {
		return s
	}
	return x.sort(x.keyType[key])
}

func (x *Eng) heapOf(st *State, key string) *HeapV {
	if x.reads != nil {
		x.reads[key] = true
	}
	if v, ok := st.heap[key]; ok {
		return v
	}
	v, ok := x.initHeap[key]
	if !ok {
		nm := "H0_" + sanitize(key)
		s := "(Array Loc " + x.keySort(key) + ")"
		x.c.declare(nm, nil, s)
		v = &HeapV{term: x.c.atom(s, nm), kind: "init", key: key}
		x.initHeap[key] = v
	}
	return v
}

// alias decides whether two locations are equal: 1 yes, 0 no, -1 unknown.
func (x *Eng) alias(a, b *T) int {
	if a == b {
		return 1
	}
	e := x.c.eq(a, b)
	if e.isFalse() {
		return 0
	}
	if e.isTrue() {
		return 1
	}
	if x.isNewer(a, x.stampOf(b)) || x.isNewer(b, x.stampOf(a)) {
		return 0
	}
	// pairs that stay undecided are asked about less and less often: -1 is always sound
	n := x.aliasFails[e.id]
	if n > 2 && n&(n-1) != 0 {
		x.aliasFails[e.id]++
		return -1
	}
	q := x.s.quick
	if q == 0 || q > 200 {
		x.s.quick = 200 * scale
	}
	defer func() { x.s.quick = q }()
	if x.s.check(e) == "unsat" {
		return 0
	}
	if x.s.check(x.c.not(e)) == "unsat" {
		return 1
	}
	x.aliasFails[e.id]++
	return -1
}

// isNewer: l is an object allocated at or after s.
func (x *Eng) isNewer(l *T, s Stamp) bool {
	if l.op != "mkloc" {
		return false
	}
	b, k := splitAdd(l.args[0])
	e, ok := x.baseIdx[b.id]
	return ok && s.le(Stamp{e, int(k)})
}

func (x *Eng) load(st *State, key string, loc *T) *T {
	r := x.loadV(st, x.heapOf(st, key), key, loc)
	if x.ct != nil && x.ct.Small[key] {
		if _, num := r.isNum(); !num {
			x.assumps["the counter "+key+" stays below 2^62 (small: "+x.ct.Key+")"] = true
			c := x.c
			if f := c.cmp("<", r, c.int(1<<62)); !x.small[r.id] {
				x.small[r.id] = true
				c.factOn(r, f)
			}
		}
	}
	return r
}

func (x *Eng) loadV(st *State, v *HeapV, key string, loc *T) *T {
	c := x.c
	if loc.op == "ite" {
		return c.ite(loc.args[0], x.loadV(st, v, key, loc.args[1]), x.loadV(st, v, key, loc.args[2]))
	}
	at, isNew := x.allocTS[x.oid(loc).id]
	for {
		if isNew && v.ts < at {
			return x.zeroKey(key)
		}
		switch v.kind {
		case "store":
			switch x.alias(v.loc, loc) {
			case 1:
				return v.val
			case 0:
				v = v.prev
				continue
			}
			r := c.mk(elemOfArr(v.term.sort), "select", v.term, loc)
			x.storeFacts(v, loc)
			x.typedKey(r, key, x.ageAt(loc, v.st))
			return r
		case "havoc":
			if !v.all {
				if x.olderThan(loc, v.baseS, v.base) && x.notIn(loc, v.exc) {
					if v.rule == nil {
						v = v.prev
						continue
					}
				}
			}
			r := c.mk(elemOfArr(v.term.sort), "select", v.term, loc)
			x.touchHeap(v.term, loc)
			x.typedKey(r, key, x.ageAt(loc, v.st))
			k := fmt.Sprintf("h%d@%d", v.term.id, loc.id)
			if !x.cur.done[k] {
				x.cur.done[k] = true
				if !v.all {
					conds := []*T{c.cmp("<", x.oid(loc), v.base)}
					for _, e := range v.exc {
						conds = append(conds, c.not(c.eq(loc, e)))
					}
					old := x.loadV(st, v.prev, key, loc)
					if v.rule == nil {
						x.assume(st, c.implies(c.and(conds...), c.eq(r, old)))
					}
				}
				if v.rule != nil {
					v.rule(x, st, loc, r)
				}
			}
			return r
		default:
			r := c.mk(elemOfArr(v.term.sort), "select", v.term, loc)
			x.touchHeap(v.term, loc)
			x.typedKey(r, key, x.ageAt(loc, Stamp{0, 0}))
			return r
		}
	}
}

// touchHeap instantiates the quantifiers over objects at an object whose field is read.
func (x *Eng) touchHeap(h, loc *T) {
	if x.noTouch || loc.size > 60 {
		return
	}
	cur := x.cur
	used := false
	for _, r := range cur.rules {
		used = used || r.seqs[h.id]
	}
	if !used && !x.objRules {
		return
	}
	for _, o := range cur.touched[h.id] {
		if o == loc {
			return
		}
	}
	cur.touched[h.id] = append(cur.touched[h.id][:len(cur.touched[h.id]):len(cur.touched[h.id])], loc)
	for _, r := range cur.rules {
		if r.seqs[h.id] {
			x.instantiate(r, loc)
		}
	}
}

// ageAt: what an object holds was allocated before the heap version, or, if the object itself is
// newer than the version, before now.
func (x *Eng) ageAt(loc *T, s Stamp) Stamp {
	if x.stampOf(loc).le(s) {
		return s
	}
	return maxStamp(s, x.cur.stamp())
}

// storeFacts relates a store version to its predecessor at loc (arrays do it natively).
func (x *Eng) storeFacts(v *HeapV, loc *T) {}

func elemOfArr(s string) string { // "(Array Loc S)"
	return s[len("(Array Loc ") : len(s)-1]
}

func (x *Eng) zeroKey(key string) *T {
	if z, ok := x.keyZero[key]; ok {
		return z
	}
	return x.zero(x.keyType[key])
}

func (x *Eng) typedKey(r *T, key string, s Stamp) {
	if t, ok := x.keyType[key]; ok {
		x.typed(r, t, s)
	}
}

// olderThan: loc is certainly allocated before base.
func (x *Eng) olderThan(loc *T, s Stamp, base *T) bool {
	return x.stampOf(loc).le(s)
}

func (x *Eng) notIn(loc *T, exc []*T) bool {
	for _, e := range exc {
		if x.alias(loc, e) != 0 {
			return false
		}
	}
	return true
}

func (x *Eng) rawStore(st *State, key string, loc, val *T) {
	p := x.heapOf(st, key)
	x.ts++
	st.heap[key] = &HeapV{term: x.c.mk(p.term.sort, "store", p.term, loc, val), prev: p, kind: "store", loc: loc, val: val, ts: x.ts, st: st.stamp(), key: key}
}

// store writes a heap cell, with the frame obligation.
func (x *Eng) store(st *State, key string, loc, val *T, pos ssa.Instruction) {
	for _, l := range st.loops {
		l.record(x, st, key, loc)
	}
	x.checkFrame(st, key, loc, val, pos)
	x.rawStore(st, key, loc, val)
}

// loadObj reads a whole value of type t at location loc.
func (x *Eng) loadObj(st *State, t types.Type, loc *T) *T {
	if nm, ok := opaqueStruct(t); ok {
		panic(unsupported("copy of a " + nm))
	}
	if s, ok := isStruct(t); ok {
		var fs []*T
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, x.loadField(st, t, loc, i))
		}
		return x.mkStruct(t, fs)
	}
	return x.load(st, x.cellKey(t), loc)
}

func (x *Eng) loadField(st *State, t types.Type, loc *T, i int) *T {
	s, _ := isStruct(t)
	ft := s.Field(i).Type()
	if _, ok := isStruct(ft); ok {
		return x.loadObj(st, ft, x.sub(loc, i))
	}
	return x.load(st, x.fieldKey(t, i), loc)
}

func (x *Eng) storeObj(st *State, t types.Type, loc, v *T, pos ssa.Instruction) {
	if s, ok := isStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			fv := x.field(t, v, i)
			if _, ok := isStruct(ft); ok {
				x.storeObj(st, ft, x.sub(loc, i), fv, pos)
			} else {
				x.store(st, x.fieldKey(t, i), loc, fv, pos)
			}
		}
		return
	}
	x.store(st, x.cellKey(t), loc, v, pos)
}

// ---- values

func (x *Eng) freeze(st *State, v Val) *T {
	switch v := v.(type) {
	case *T:
		return v
	case *Back:
		st.frozen[v.id] = true
		return st.backs[v.id]
	case *Addr:
		panic(unsupported("address of a field used as a value"))
	case *Closure:
		return x.closureTerm(st, v)
	case *MapIter:
		panic(unsupported("map iterator as value"))
	}
	panic(unsupported(fmt.Sprintf("value %T", v)))
}

// peek is freeze without marking the backing store as shared.
func (x *Eng) peek(st *State, v Val) *T {
	if b, ok := v.(*Back); ok {
		return st.backs[b.id]
	}
	return x.freeze(st, v)
}

func (x *Eng) closureTerm(st *State, cl *Closure) *T {
	k := fmt.Sprintf("fn_%s", sanitize(fnKey(cl.fn)))
	id, ok := x.fnIDs[k]
	if !ok {
		id = len(x.fnIDs) + 1
		x.fnIDs[k] = id
	}
	t := x.c.mk("Loc", "mkloc", x.c.int(int64(-100-id)), x.c.int(0))
	x.closures[t.id] = cl
	return t
}
