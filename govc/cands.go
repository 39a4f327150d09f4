package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// contractCands instantiates the invariant clauses of the contract of the function the loop
// belongs to. The names k, acc and seq stand for what the loop has of that kind: every sensible
// instance is tried and those that are inductive are kept, so that the clauses do not depend on
// how the loop spells its variables.
func (x *Eng) contractCands(lc *LoopCtx, head *State) []*cand {
	f := head.top()
	ct := x.cs.Funcs[fnKey(f.fn)]
	var invs []*Clause
	if ct != nil {
		invs = ct.Invs
	}
	if x.ct != nil && x.ct != ct {
		invs = append(append([]*Clause(nil), invs...), x.ct.Invs...)
	}
	if len(invs) == 0 {
		return nil
	}
	type accT struct {
		key  string
		name string
		cur  func(st *State, f *Frame) TV
		init TV
	}
	var accs []accT
	for pi, p := range lc.phis {
		p := p
		if lc.stable[p] {
			continue
		}
		if !isSeq(lc.init[p].sort) && lc.init[p].sort != "String" && lc.init[p].sort != "Int" {
			continue
		}
		accs = append(accs, accT{"", fmt.Sprintf("phi%d", pi), func(st *State, f *Frame) TV { return TV{f.regs[p], p.Type()} }, TV{lc.init[p], p.Type()}})
	}
	var objs, allObjs []accT // an object once, and once for each of its fields
	objSeen := map[string]bool{}
	for _, k := range sortedKeys(lc.mods) {
		k := k
		m := lc.mods[k]
		if ow, ok := x.keyOwner[k]; ok {
			for _, l := range m.exc {
				l := l
				n := fmt.Sprintf("obj%d:%s", l.id, ow)
				o := accT{k, n, func(st *State, f *Frame) TV { return TV{l, ow} }, TV{l, ow}}
				allObjs = append(allObjs, o)
				if !objSeen[n] {
					objSeen[n] = true
					objs = append(objs, o)
				}
			}
		}
		if m.all {
			continue
		}
		if mt, ok := x.mapType[k]; ok {
			for li, l := range m.exc {
				l := l
				accs = append(accs, accT{k, fmt.Sprintf("%s@%d", k, li), func(st *State, f *Frame) TV { return TV{l, mt} }, TV{l, mt}})
			}
			continue
		}
		kt, ok := x.keyType[k]
		if !ok && x.keySort(k) != "String" {
			continue
		}
		if !ok {
			kt = types.Typ[types.String]
		}
		for li, l := range m.exc {
			l := l
			accs = append(accs, accT{k, fmt.Sprintf("%s@%d", k, li), func(st *State, f *Frame) TV { return TV{x.load(st, k, l), kt} }, TV{x.load(lc.entry, k, l), kt}})
		}
	}
	var bids []int
	for id := range lc.backMods {
		bids = append(bids, id)
	}
	sort.Ints(bids)
	for _, id := range bids {
		id := id
		accs = append(accs, accT{"", fmt.Sprintf("back%d", id), func(st *State, f *Frame) TV { return TV{st.backs[id], types.NewSlice(x.backElem[id])} }, TV{lc.entry.backs[id], types.NewSlice(x.backElem[id])}})
	}
	var cs []*cand
	for ii, iv := range invs {
		kt, unkey := x.keyClause(iv.AccType)
		if unkey != "" && lc.round == 0 {
			lc.changed = true // wait until it is known what the loop changes
			continue
		}
		if os.Getenv("GOVC_LOOP") == "3" {
			fmt.Fprintln(os.Stderr, "clause", lc.name, lc.round, iv.AccType, unkey, len(lc.mods), sortedKeys(lc.mods), len(lc.seqs))
		}
		if unkey != "" && storesFields(lc) && (lc.mods[unkey] == nil || lc.backKeys[unkey]) {
			continue
		}
		uses := map[string]bool{}
		ast.Inspect(iv.Expr, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				uses[id.Name] = true
			}
			return true
		})
		as := []accT{{}}
		if uses["acc"] || uses["acc0"] {
			as = accs
		} else if uses["obj"] {
			as = objs
			if kt != nil {
				as = allObjs
			}
		}
		ks := []func(f *Frame) *T{nil}
		if uses["k"] {
			ks = x.indices(lc)
		}
		ss := []*T{nil}
		if uses["seq"] {
			ss = lc.seqs
		}
		as2 := []accT{{}}
		if uses["acc2"] {
			as2 = accs
		}
		if uses["ptr"] { // a pointer the loop changes
			as2 = nil
			for pi, p := range lc.phis {
				p := p
				if !lc.stable[p] && lc.init[p].sort == "Loc" {
					as2 = append(as2, accT{"", fmt.Sprintf("ptr%d", pi), func(st *State, f *Frame) TV { return TV{f.regs[p], p.Type()} }, TV{lc.init[p], p.Type()}})
				}
			}
		}
		type pairT struct{ a, b accT }
		var pairs []pairT
		for _, a := range as {
			for _, b := range as2 {
				if b.cur == nil || a.name != b.name {
					pairs = append(pairs, pairT{a, b})
				}
			}
		}
		for _, ab := range pairs {
			a, b2 := ab.a, ab.b
			for ki, k := range ks {
				for si, s := range ss {
					a, k, s := a, k, s
					iv := iv
					if kt != nil && a.key != iv.AccType && (a.key != "" || a.init.t == nil || !types.Identical(under(a.init.t), under(kt))) {
						continue
					}
					if kt == nil && unkey == "" && iv.AccType != "" && (a.init.t == nil || !types.Identical(under(a.init.t), under(x.typ(iv.AccType)))) {
						continue
					}
					scope := func(st *State, f *Frame) *Scope {
						env := map[string]TV{}
						if f.fn == x.root {
							for n, v := range x.env {
								env[n] = v
							}
						} else {
							for n, v := range x.env {
								env[n] = v
							}
							for i, p := range f.fn.Params {
								n := p.Name()
								if ct != nil && i < len(ct.Params) {
									n = ct.Params[i]
								}
								if v, ok := f.regs[ssa.Value(p)]; ok {
									env[n] = TV{v, p.Type()}
								}
							}
						}
						if a.cur != nil {
							env["acc"] = a.cur(st, f)
							env["acc0"] = a.init
							env["obj"] = a.init
						}
						if b2.cur != nil { // a second value the loop changes
							env["acc2"] = b2.cur(st, f)
							env["ptr"] = env["acc2"]
						}
						for id := range lc.iterMods { // the map the loop ranges over
							if mi := x.iterOf[id]; mi != nil && len(lc.iterMods) == 1 {
								env["ranged"] = TV{mi.m, mi.typ}
							}
						}
						if k != nil {
							env["k"] = TV{k(f), nil}
							if uses["iterbase"] { // history: iteration k begins now
								if n, ok := k(f).isNum(); ok && n.Sign() == 0 {
								} else if hk := k(lc.headFrame()); k(f) != hk && !x.valid(x.c.eq(k(f), x.c.add(hk, 1))) {
									panic(specErr{"k does not count the iterations"})
								}
								x.assume(x.cur, x.c.eq(x.iterbase(lc, k(f)), x.boundT(st.stamp())))
							}
						}
						if s != nil {
							env["seq"] = TV{s, x.seqType[s.id]}
						}
						return &Scope{x: x, st: st, old: x.entry, env: env, base: x.bases[0], loopEntry: lc.entry, lc: lc}
					}
					if !x.tryEval(lc, func() { scope(lc.entry, head.top()).dry(iv.Expr) }) {
						continue
					}
					sn := fmt.Sprintf("s%d", si)
					if s != nil && s.size < 200 { // the sequence differs between entries of an inner loop
						sn += " " + reSym.ReplaceAllString(s.String(), "")
					}
					sn += b2.name
					key := fmt.Sprintf("spec%d[%s k%d %s] %s", ii, a.name, ki, sn, trunc(iv.Text, 80))
					cs = append(cs, &cand{key: key, must: !iv.Opt || kt != nil && a.key == iv.AccType, opt: iv.Opt && (kt == nil || a.key != iv.AccType),
						goal: func(st *State, f *Frame) (g *T) {
							if uses["iterbase"] {
								defer func() {
									if r := recover(); r != nil {
										if _, ok := r.(specErr); !ok {
											panic(r)
										}
										g = x.c.fals()
									}
								}()
							}
							return scope(st, f).goal(iv.Expr)
						},
						assume: func(st *State, f *Frame) { scope(st, f).assume(iv.Expr) }})
				}
			}
		}
	}
	return cs
}

// tryEval reports whether a clause makes sense here.
func (x *Eng) tryEval(lc *LoopCtx, f func()) (ok bool) {
	save := x.noTouch
	x.noTouch = true
	defer func() {
		x.noTouch = save
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr, unsupported:
				ok = false
				return
			case string, *runtime.TypeAssertionError:
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func (s *Scope) dry(e ast.Expr) { s.goal(e) }

// iterbase is the history variable of a loop: the allocation counter at the start of iteration i. It grows
// with i; beyond the iterations that happen it may be anything that does so.
func (x *Eng) iterbase(lc *LoopCtx, i *T) *T {
	c := x.c
	nm := fmt.Sprintf("iterbase%d_%d", lc.generation, lc.symMark)
	r := c.fn(nm, "Int", i)
	for _, o := range lc.iterArgs {
		if o == i {
			return r
		}
	}
	for _, o := range lc.iterArgs {
		q := c.fn(nm, "Int", o)
		f := c.and(c.implies(c.cmp("<=", o, i), c.cmp("<=", q, r)), c.implies(c.cmp("<=", i, o), c.cmp("<=", r, q)))
		c.factOn(r, f)
	}
	lc.iterArgs = append(lc.iterArgs, i)
	return r
}

// headFrame has the loop variables as they are at the loop header.
func (lc *LoopCtx) headFrame() *Frame {
	f := &Frame{regs: map[ssa.Value]Val{}}
	for p, v := range lc.headPhi {
		f.regs[p] = v
	}
	return f
}

// keyClause: {T.F} limits acc to values of field F of T, {!T.F} a clause to loops that do not change it.
func (x *Eng) keyClause(s string) (types.Type, string) {
	neg := strings.HasPrefix(s, "!")
	tn, fn, ok := strings.Cut(strings.TrimPrefix(s, "!"), ".")
	if !ok {
		return nil, ""
	}
	t := x.p.named(tn)
	if t == nil {
		return nil, ""
	}
	st, ok := isStruct(t)
	if !ok {
		return nil, ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == fn {
			if neg {
				return nil, tn + "." + fn
			}
			return st.Field(i).Type(), ""
		}
	}
	return nil, ""
}

func (x *Eng) validC(cd *cand, g *T) bool {
	if cd.opt {
		q := x.s.quick
		x.s.quick = 500 * scale
		defer func() { x.s.quick = q }()
	}
	if cd.basic {
		if g.isTrue() || x.s.asserted(g) {
			return true
		}
		q := x.s.quick
		x.s.quick = 200 * scale
		r := x.s.check(x.c.not(g))
		x.s.quick = q
		return r == "unsat" || r == "unknown" && x.validR(g)
	}
	return x.valid(g)
}

// storesFields reports whether the loop changes objects of the package.
func storesFields(lc *LoopCtx) bool {
	for k := range lc.mods {
		if t, _, ok := strings.Cut(k, "."); ok && !strings.HasPrefix(k, "cell:") && t != "xml" {
			return true
		}
	}
	return false
}
