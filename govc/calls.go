package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func opaqueStruct(t types.Type) (string, bool) {
	n := typeName(t)
	switch n {
	case "strings.Builder", "sync.Mutex", "bytes.Buffer":
		return n, true
	}
	return "", false
}

func (x *Eng) opaqueKey(nm string) string {
	k := "opaque:" + nm
	if _, ok := x.keySorts[k]; !ok {
		switch nm {
		case "sync.Mutex":
			x.keySorts[k] = "Bool"
			x.keyZero[k] = x.c.fals()
		case "finished":
			x.keySorts[k] = "Bool"
			x.keyZero[k] = x.c.fals()
		case "archive":
			x.keySorts[k] = "Loc"
			x.keyZero[k] = x.nilLoc()
		case "sink":
			x.keySorts[k] = "Iface"
			x.keyZero[k] = x.zeroSort("Iface")
		default:
			x.keySorts[k] = "String"
			x.keyZero[k] = x.c.strLit("")
		}
	}
	return k
}

func (x *Eng) initOpaque(st *State, nm string, l *T) {
	k := x.opaqueKey(nm)
	x.rawStore(st, k, l, x.keyZero[k])
}

func (x *Eng) doCall(st *State, f *Frame, in *ssa.Call) bool {
	fnv := Val(nil)
	if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
		fnv = x.val(st, f, in.Call.Value)
	}
	var args []Val
	for _, a := range in.Call.Args {
		args = append(args, x.val(st, f, a))
	}
	return x.doCallArgs(st, f, in, &in.Call, fnv, args, in)
}

// doCallArgs performs a call; reg receives the result (nil for deferred calls).
func (x *Eng) doCallArgs(st *State, f *Frame, reg ssa.Value, call *ssa.CallCommon, fnv Val, args []Val, inst ssa.Instruction) bool {
	fin := func(rs ...Val) bool { return x.ret(st, reg, rs...) }
	if bi, ok := call.Value.(*ssa.Builtin); ok {
		return x.builtin(st, f, reg, call, bi, args, inst)
	}
	if call.IsInvoke() {
		return x.invoke(st, f, reg, call, fnv, args, inst, fin)
	}
	switch fv := fnv.(type) {
	case *Closure:
		return x.callFn(st, f, reg, fv, args, call, inst, fin)
	case *T:
		if cl, ok := x.closures[fv.id]; ok {
			return x.callFn(st, f, reg, cl, args, call, inst, fin)
		}
		if !x.nilCheck(st, fv, inst) {
			return false
		}
		x.assumption("functions passed as arguments have no side effects and depend on their arguments only")
		rs := x.applyParam(st, fv, call, args)
		return fin(rs...)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fnv)))
}

// ret delivers the results of a call that was not inlined.
func (x *Eng) ret(st *State, reg ssa.Value, rs ...Val) bool {
	f := st.top()
	if reg != nil {
		if len(rs) == 1 {
			f.regs[reg] = rs[0]
		} else if len(rs) > 1 {
			f.regs[reg] = Tuple(rs)
		}
		f.pc++
	}
	return !dead(st)
}

type alt struct {
	cond *T
	free bool // taken without asking whether it is possible
	desc string
	rs   []Val
	do   func(st *State) bool // instead of returning rs
}

// fork continues the path once for every alternative.
func (x *Eng) fork(st *State, reg ssa.Value, alts ...alt) bool {
	for i, a := range alts {
		if a.cond.isFalse() || x.s.otherLit(a.cond) || x.s.asserted(x.c.not(a.cond)) {
			continue
		}
		s2 := st
		if i < len(alts)-1 {
			s2 = st.clone()
		}
		x.s.push()
		x.cur = s2
		x.assume(s2, a.cond)
		if !dead(s2) && (a.free || x.feasible()) {
			x.paths++
			if x.paths > x.maxPaths {
				panic(abortErr{"path limit"})
			}
			if a.desc != "" {
				s2.path = append(s2.path, a.desc)
			}
			ok := false
			if a.do != nil {
				ok = a.do(s2)
			} else {
				ok = x.ret(s2, reg, a.rs...)
			}
			if ok {
				x.run(s2)
			}
		}
		x.s.pop()
	}
	return false
}

// applyParam is the result of calling an unknown function value: a function of its arguments.
func (x *Eng) applyParam(st *State, fv *T, call *ssa.CallCommon, args []Val) []Val {
	var ts []*T
	ts = append(ts, fv)
	nm := "app"
	for _, a := range args {
		t := x.freeze(st, a)
		ts = append(ts, t)
		nm += "_" + sanitize(t.sort)
	}
	sig := call.Signature()
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := x.c.fn(fmt.Sprintf("%s_r%d_%s", nm, i, sanitize(x.sort(rt))), x.sort(rt), ts...)
		x.typed(r, rt, st.stamp())
		rs = append(rs, r)
	}
	x.newEpoch(st)
	return rs
}

func (x *Eng) callFn(st *State, f *Frame, reg ssa.Value, cl *Closure, args []Val, call *ssa.CallCommon, inst ssa.Instruction, fin func(...Val) bool) bool {
	fn := cl.fn
	inPkg := fn.Pkg == x.p.pkg || fn.Parent() != nil && fn.Parent().Pkg == x.p.pkg
	if fn.Pkg == nil && fn.Synthetic != "" && len(fn.Blocks) > 0 { // bound methods, wrappers
		inPkg = true
	}
	if !inPkg {
		return x.external(st, f, reg, fn, args, call, inst, fin)
	}
	key := fnKey(fn)
	if m, ok := x.modelled(st, key, args, inst); ok {
		return fin(m...)
	}
	if ct := x.cs.Funcs[key]; ct != nil && !ct.Inline && len(cl.bind) == 0 && x.useContract(st, ct, fn, args, inst) {
		rs, ok := x.callContract(st, ct, fn, args, inst)
		if !ok {
			return false
		}
		return fin(rs...)
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + key))
	}
	for _, g := range st.frames {
		if g.fn == fn {
			panic(unsupported("recursive call of " + key + " without a contract"))
		}
	}
	if len(st.frames) > 30 {
		panic(unsupported("call depth"))
	}
	x.inlined[key] = true
	nf := x.newFrame(fn, f.key+"/"+fmt.Sprintf("%s@%d.%d", key, f.block.Index, f.pc))
	for i, p := range fn.Params {
		if a, ok := args[i].(*Addr); ok && a.kind == "elem" && a.back != nil {
			st.frozen[a.back.id] = true
		}
		nf.regs[p] = args[i]
	}
	for i, fvv := range fn.FreeVars {
		nf.regs[fvv] = cl.bind[i]
	}
	if reg != nil {
		nf.ret = reg
		nf.isCall = true
	}
	st.frames = append(st.frames, nf)
	return true
}

// useContract: callees are checked by their contract; a contract with a measure is for recursive calls.
func (x *Eng) useContract(st *State, ct *Contract, fn *ssa.Function, args []Val, inst ssa.Instruction) bool {
	if ct.Decreases == nil {
		return true
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		g := st.frames[i]
		if g.fn != fn {
			continue
		}
		m := func(vs func(i int) Val) *T {
			env := map[string]TV{}
			for i, p := range fn.Params {
				if i < len(ct.Params) {
					env[ct.Params[i]] = TV{vs(i), p.Type()}
				}
			}
			return (&Scope{x: x, st: st, old: st, env: env}).term(ct.Decreases.Expr)
		}
		was, is := m(func(i int) Val { return g.regs[fn.Params[i]] }), m(func(i int) Val { return args[i] })
		x.oblige(st, "term", "recursion of "+ct.Key+" ends", x.c.and(x.c.cmp(">=", is, x.c.int(0)), x.c.cmp("<", is, was)), x.pos(inst))
		delete(st.ghost, "dead")
		return true
	}
	return false
}

func (x *Eng) builtin(st *State, f *Frame, reg ssa.Value, call *ssa.CallCommon, bi *ssa.Builtin, args []Val, inst ssa.Instruction) bool {
	c := x.c
	set := func(v Val) bool {
		if reg != nil {
			f.regs[reg] = v
			f.pc++
		}
		return !dead(st)
	}
	switch bi.Name() {
	case "len", "cap":
		if bi.Name() == "cap" {
			panic(unsupported("cap"))
		}
		if _, ok := under(call.Args[0].Type()).(*types.Map); ok {
			r := c.newSym("maplen", "Int")
			c.factOn(r, c.cmp(">=", r, c.int(0)))
			return set(r)
		}
		t := x.peek(st, args[0])
		if t.sort == "Loc" {
			panic(unsupported("len of array pointer"))
		}
		l := c.length(t)
		x.typed(t, call.Args[0].Type(), x.stampOf(t))
		for _, lc := range st.loops {
			lc.bound(x, l)
		}
		return set(l)
	case "append":
		x.appendOwn(st, f, call, args, inst)
		a := x.freeze(st, args[0])
		b := x.freeze(st, args[1])
		if b.sort != a.sort {
			panic(unsupported("append sorts"))
		}
		if isSeq(a.sort) {
			x.typed(a, call.Args[0].Type(), x.stampOf(a))
		}
		return set(c.concat(a, b))
	case "delete":
		m := args[0].(*T)
		x.raceCheck(st, m, inst)
		mt := under(call.Args[0].Type()).(*types.Map)
		kp, _ := x.mapKeys(mt)
		k := x.freeze(st, args[1])
		p := x.load(st, kp, m)
		x.store(st, kp, m, c.mk(p.sort, "store", p, k, c.fals()), inst)
		return set(Tuple{})
	case "ssa:wrapnilchk":
		if !x.nilCheck(st, args[0].(*T), inst) {
			return false
		}
		return set(args[0])
	case "min", "max":
		r := args[0].(*T)
		for _, a := range args[1:] {
			b := a.(*T)
			op := "<="
			if bi.Name() == "max" {
				op = ">="
			}
			r = c.ite(c.cmp(op, r, b), r, b)
		}
		return set(r)
	}
	panic(unsupported("builtin " + bi.Name()))
}

// appendOwn: append must extend a slice nobody else extends, or else two owners share the
// spare capacity. Accepted: nil and literal slices, slices made here, and slices loaded from a
// field (they are stored back there or the old value is no longer used).
func (x *Eng) appendOwn(st *State, f *Frame, call *ssa.CallCommon, args []Val, inst ssa.Instruction) {
	a, ok := args[0].(*T)
	if !ok {
		return
	}
	if a.op == "seq.extract" || a.op == "str.substr" {
		x.oblige(st, "own", "append to a part of a slice in "+fnKey(inst.Parent()), x.c.fals(), x.pos(inst))
	}
}

// pureCall evaluates calls without effect that may occur in the header of an unrolled loop.
func (x *Eng) pureCall(st *State, in *ssa.Call, get func(ssa.Value) Val) (Val, bool) {
	if cal := in.Call.StaticCallee(); cal != nil && cal.String() == "(reflect.Value).NumField" {
		if r, ok := get(in.Call.Args[0]).(*Refl); ok && r.kind == "struct" {
			s, _ := isStruct(r.typ)
			return x.c.int(int64(s.NumFields())), true
		}
	}
	return nil, false
}

// freshOf is an arbitrary value of a type that may refer to anything allocated by now.
func (x *Eng) freshOf(st *State, hint string, t types.Type) *T {
	r := x.c.newSym(hint, x.sort(t))
	x.typed(r, t, st.stamp())
	return r
}

func (x *Eng) invoke(st *State, f *Frame, reg ssa.Value, call *ssa.CallCommon, fnv Val, args []Val, inst ssa.Instruction, fin func(...Val) bool) bool {
	c := x.c
	if r, ok := fnv.(*Refl); ok && call.Method.Name() == "String" && r.kind == "type" {
		return fin(x.reflTypeString(st, r))
	}
	iv, ok := fnv.(*T)
	if !ok {
		panic(unsupported(fmt.Sprintf("method call on %T", fnv)))
	}
	g := c.not(c.eq(x.itag(iv), c.int(0)))
	x.oblige(st, "nil", x.obName(st, inst), g, x.pos(inst))
	if dead(st) {
		return false
	}
	it := typeName(call.Value.Type())
	nm := it + "." + call.Method.Name()
	switch nm {
	case "error.Error":
		return fin(c.fn("errtext", "String", iv))
	case "fs.FS.Open":
		return x.modelOpen(st, f, iv, args, inst, fin)
	case "io.ReadCloser.Close", "fs.File.Close", "io.Closer.Close":
		if fr, ok := st.ghost["open:"+fmt.Sprint(x.iloc(iv).id)]; ok {
			_ = fr
			delete(st.ghost, "open:"+fmt.Sprint(x.iloc(iv).id))
		}
		x.note(st, Event{kind: "close", tok: iv})
		return fin(x.freshErr(st, "closeErr"))
	}
	// a method of this package, by the dynamic type
	x.assumption("call of interface method " + nm + " has no effect on the document")
	sig := call.Signature()
	x.newEpoch(st)
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.freshOf(st, "r_"+call.Method.Name(), sig.Results().At(i).Type()))
	}
	x.note(st, Event{kind: "call:" + nm, args: x.peekAll(st, append([]Val{iv}, args...)), res: x.peekAll(st, rs)})
	return fin(rs...)
}

func (x *Eng) peekAll(st *State, vs []Val) []*T {
	var r []*T
	for _, v := range vs {
		switch v.(type) {
		case *T, *Back:
			r = append(r, x.peek(st, v))
		default:
			r = append(r, nil)
		}
	}
	return r
}

func (x *Eng) note(st *State, e Event) { st.events = append(st.events, e) }

func (x *Eng) freshErr(st *State, hint string) *T {
	e := x.c.newSym(hint, "Iface")
	x.newEpoch(st)
	x.stampAs(e, st.stamp())
	return e
}

// ---- contracts at call sites

func (x *Eng) callContract(st *State, ct *Contract, fn *ssa.Function, args []Val, inst ssa.Instruction) ([]Val, bool) {
	c := x.c
	x.called[ct.Key] = true
	env := map[string]TV{}
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(ct.Params) {
			nm = ct.Params[i]
		}
		v := args[i]
		if b, ok := v.(*Back); ok {
			v = x.freeze(st, b)
		}
		env[nm] = TV{v, p.Type()}
	}
	pre := st.clone()
	sc := &Scope{x: x, st: pre, old: pre, env: env}
	if !ct.Assumed {
		for i, r := range ct.Requires {
			x.oblige(st, "pre", fmt.Sprintf("%s requires %s [%d]", ct.Key, trunc(r.Text, 60), i), sc.goal(r.Expr), x.pos(inst))
			if dead(st) {
				return nil, false
			}
		}
	}
	// frame
	baseS := st.stamp()
	base := x.boundT(baseS)
	x.newEpoch(st)
	mods := x.evalMods(sc, ct)
	x.havocMods(st, mods, base, baseS, inst)
	// results
	sig := fn.Signature
	var rs []Val
	post := &Scope{x: x, st: st, old: pre, env: copyMap(env), base: base}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := x.freshOf(st, "res_"+fn.Name(), rt)
		rs = append(rs, r)
		if i < len(ct.Results) {
			post.env[ct.Results[i]] = TV{r, rt}
		}
		post.env[fmt.Sprintf("result%d", i)] = TV{r, rt}
	}
	for _, e := range ct.Ensures {
		post.assume(e.Expr)
	}
	_ = c
	if n := len(rs); n > 0 && types.TypeString(sig.Results().At(n-1).Type(), nil) == "error" {
		x.note(st, Event{kind: "call", err: rs[n-1].(*T), name: ct.Key, args: x.peekAll(pre, args)})
	}
	return rs, !dead(st)
}

type modEntry struct {
	key  string
	loc  *T // nil: anywhere
	all  bool
	rule func(x *Eng, st *State, loc, val *T)
}

// keysOf lists the heap keys of a struct type with the locations of embedded structs.
func (x *Eng) keysOf(t types.Type, loc *T, f func(key string, loc *T)) {
	s, ok := isStruct(t)
	if !ok {
		f(x.cellKey(t), loc)
		return
	}
	if nm, ok := opaqueStruct(t); ok {
		f(x.opaqueKey(nm), loc)
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if _, ok := isStruct(ft); ok {
			l := loc
			if l != nil {
				l = x.sub(loc, i)
			}
			x.keysOf(ft, l, f)
			continue
		}
		f(x.fieldKey(t, i), loc)
	}
}

func (x *Eng) havocMods(st *State, mods []modEntry, base *T, baseS Stamp, inst ssa.Instruction) {
	byKey := map[string]*HeapV{}
	var order []string
	for _, m := range mods {
		if m.all {
			for k := range x.keyType {
				_ = k
			}
			panic(unsupported("modifies all at a call"))
		}
		if m.loc != nil && m.rule == nil {
			x.checkFrame(st, m.key, m.loc, nil, inst)
		} else if m.loc == nil {
			x.checkFrameAny(st, m.key, inst)
		}
		for _, l := range st.loops {
			if m.loc == nil {
				l.recordAll(m.key)
			} else {
				l.record(x, st, m.key, m.loc)
			}
		}
		h := byKey[m.key]
		if h == nil {
			p := x.heapOf(st, m.key)
			x.ts++
			h = &HeapV{term: x.c.newSym("H_"+m.key, p.term.sort), prev: p, kind: "havoc", ts: x.ts, st: st.stamp(), key: m.key, base: base, baseS: baseS}
			byKey[m.key] = h
			order = append(order, m.key)
		}
		if m.loc == nil {
			h.all = true
		} else {
			h.exc = append(h.exc, m.loc)
		}
	}
	for _, k := range order {
		st.heap[k] = byKey[k]
	}
}

// checkFrame: the function under verification writes only what its contract names.
func (x *Eng) checkFrame(st *State, key string, loc, val *T, in ssa.Instruction) {
	if x.frameOff || x.ct == nil || x.quiet(st) {
		return
	}
	c := x.c
	b := x.bases[0]
	if x.isNewer(loc, Stamp{0, 0}) {
		return
	}
	alts := []*T{c.cmp(">=", x.oid(loc), b)}
	for _, m := range x.modsAll {
		if m.all {
			return
		}
		if m.key == key {
			if m.loc == nil || m.loc == loc {
				x.oblige(st, "frame", "writes to "+key+" are allowed", c.tru(), x.pos(in))
				return
			}
			alts = append(alts, c.eq(loc, m.loc))
		}
	}
	x.oblige(st, "frame", "writes to "+key+" are allowed", c.or(alts...), x.pos(in))
	delete(st.ghost, "dead")
}

func (x *Eng) checkFrameAny(st *State, key string, in ssa.Instruction) {
	if x.frameOff || x.ct == nil || x.quiet(st) {
		return
	}
	for _, m := range x.modsAll {
		if m.all || m.key == key && m.loc == nil {
			return
		}
	}
	x.oblige(st, "frame", "writes to "+key+" are allowed", x.c.fals(), x.pos(in))
	delete(st.ghost, "dead")
}

// ---- function under verification

func (x *Eng) finish(st *State, rs []Val) {
	if x.ct != nil && x.ct.Applied != nil && st.ghost["applied"] == nil {
		cl, ok := rs[0].(*Closure)
		if !ok || len(cl.fn.Params) != len(x.ct.Applied) {
			panic(unsupported("result that is not a known function"))
		}
		st.ghost["applied"] = x.c.tru()
		f := x.newFrame(cl.fn, fnKey(cl.fn))
		for i, p := range cl.fn.Params {
			v, ok := x.env[x.ct.Applied[i]]
			if !ok {
				t := x.c.newSym(p.Name(), x.sort(p.Type()))
				x.typed(t, p.Type(), Stamp{0, 0})
				v = TV{t, p.Type()}
				x.env[x.ct.Applied[i]] = v
			}
			f.regs[p] = v.v
		}
		for i, fv := range cl.fn.FreeVars {
			f.regs[fv] = cl.bind[i]
		}
		st.frames = []*Frame{f}
		x.run(st)
		return
	}
	if x.onEnd != nil {
		x.onEnd(st, rs)
	}
}

// verifyFn checks one function against its contract.
func (x *Eng) verifyFn(ct *Contract, fn *ssa.Function) {
	c := x.c
	x.root, x.ct = fn, ct
	if ct != nil {
		for _, cl := range append(append([]*Clause{}, ct.Ensures...), ct.Invs...) {
			x.objRules = x.objRules || strings.Contains(cl.Text, "forallval")
		}
	}
	st := &State{heap: map[string]*HeapV{}, backs: map[int]*T{}, frozen: map[int]bool{}, iters: map[int]*T{}, done: map[string]bool{}, ghost: map[string]*T{}, touched: map[int][]*T{}, aliases: map[int][]*T{}}
	f := x.newFrame(fn, fnKey(fn))
	x.cur = st
	env := map[string]TV{}
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(ct.Params) {
			nm = ct.Params[i]
		}
		v := c.newSym(p.Name(), x.sort(p.Type()))
		x.typed(v, p.Type(), Stamp{0, 0})
		f.regs[p] = v
		env[nm] = TV{v, p.Type()}
	}
	st.frames = []*Frame{f}
	x.env = env
	x.entry = st.clone()
	sc := &Scope{x: x, st: st, old: x.entry, env: env}
	for _, a := range ct.Axioms {
		sc.assume(a.Expr)
	}
	for _, r := range ct.Requires {
		sc.assume(r.Expr)
	}
	x.modsAll = x.evalMods(sc, ct)
	for i := 0; i+1 < len(ct.Guarded); i += 2 {
		mv := sc.eval(ct.Guarded[i].Expr)
		_, mu, _ := sc.lval(ct.Guarded[i+1].Expr)
		x.guards = append(x.guards, guard{mv.v.(*T), mu, under(mv.t).(*types.Map), ct.Guarded[i].Text})
	}
	// vacuity: the precondition must be satisfiable
	if r := x.s.check(); r == "unsat" {
		x.vacuous["precondition"] = true
	}
	reached := 0
	x.newSchema(ct)
	prev := x.onEnd
	x.onEnd = func(st *State, rs []Val) {
		reached++
		if prev != nil {
			prev(st, rs)
		}
		x.checkEnsures(st, rs, ct, fn)
	}
	x.entry = st.clone()
	x.run(st)
	if reached == 0 && !ct.NoReturn {
		x.vacuous["no path reaches a return"] = true
	}
}

func (x *Eng) checkEnsures(st *State, rs []Val, ct *Contract, fn *ssa.Function) {
	env := copyMap(x.env)
	for i, r := range rs {
		rt := fn.Signature.Results().At(i).Type()
		if ct.Applied != nil {
			rt = under(rt).(*types.Signature).Results().At(i).Type()
		}
		v := r
		if b, ok := v.(*Back); ok {
			v = x.freeze(st, b)
		}
		if i < len(ct.Results) {
			env[ct.Results[i]] = TV{v, rt}
		}
		env[fmt.Sprintf("result%d", i)] = TV{v, rt}
	}
	sc := &Scope{x: x, st: st, old: x.entry, env: env, base: x.bases[0]}
	for _, g := range x.guards {
		x.oblige(st, "lock", "given back at the end, "+g.text, c0(x, st.ghost[fmt.Sprintf("lock:%d", g.mu.id)] == nil), x.pos(fn.Blocks[0].Instrs[0]))
		x.oblige(st, "lock", "one critical section, "+g.text, c0(x, st.sections == 1), x.pos(fn.Blocks[0].Instrs[0]))
		delete(st.ghost, "dead")
	}
	for _, l := range ct.Lemmas {
		sc.useLemma(st, l)
	}
	for i, e := range ct.Ensures {
		x.s.push()
		n := st.clone()
		x.cur = n
		sc2 := *sc
		sc2.st = n
		nm := fmt.Sprintf("%d: %s", i+1, e.Text)
		if e.Label != "" {
			nm = e.Label + ": " + e.Text
		}
		g := sc2.goal(e.Expr)
		x.oblige(n, "post", trunc(nm, 200), g, x.pos(fn.Blocks[0].Instrs[0]))
		x.s.pop()
		x.cur = st
	}
}

func shortFn(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func c0(x *Eng, b bool) *T { return x.c.boolT(b) }
