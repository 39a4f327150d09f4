package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// foldCall evaluates F(s, args...) or F(s, k, args...) written prefix: fold applications take the
// sequence, optionally upto(k), and the parameters of the fold.
func (s *Scope) foldCall(d *Def, e *ast.CallExpr) TV {
	x := s.x
	sv := s.eval(e.Args[0])
	seq := x.peekVal(s.st, sv.v)
	rest := e.Args[1:]
	var k *T
	if len(rest) > 0 {
		if ce, ok := rest[0].(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "upto" {
				k = s.term(ce.Args[0])
				rest = rest[1:]
			}
		}
	}
	var params []TV
	for i, a := range rest {
		tv := s.eval(a)
		if i+1 < len(d.Types) && d.Types[i+1] != "" {
			t := x.typ(d.Types[i+1])
			if tv.t == nil {
				p, _ := s.pair(tv, TV{x.zero(t), t}, e)
				tv = TV{p, t}
			}
			tv.t = t
		}
		params = append(params, tv)
	}
	rt := x.typ(d.Res)
	var et types.Type
	if sv.t != nil {
		if sl, ok := under(sv.t).(*types.Slice); ok {
			et = sl.Elem()
		}
	}
	if len(d.Types) > 0 && d.Types[0] != "" {
		if dt := under(x.typ(d.Types[0])).(*types.Slice).Elem(); et != nil && !types.Identical(et, dt) && !types.Identical(under(et), under(dt)) {
			s.bad(e, "fold over %s", et)
		}
		et = under(x.typ(d.Types[0])).(*types.Slice).Elem()
	}
	if "(Seq "+x.sort(et)+")" != seq.sort {
		s.bad(e, "fold over %s", seq.sort)
	}
	return TV{x.fold(s, d, seq, k, params, et, rt), rt}
}

func (x *Eng) fold(s *Scope, d *Def, seq, k *T, params []TV, et, rt types.Type) *T {
	c := x.c
	rs := x.sort(rt)
	if k == nil && !d.usesI {
		switch {
		case strings.HasPrefix(seq.op, "(as seq.empty"):
			return foldUnit(c, rs)
		case seq.op == "seq.unit":
			return x.foldBody(s, d, seq.args[0], c.int(0), params, et)
		case seq.op == "seq.++":
			r := foldUnit(c, rs)
			for _, a := range seq.args {
				r = foldOp(c, r, x.fold(s, d, a, nil, params, et, rt))
			}
			return r
		case seq.op == "ite":
			return c.ite(seq.args[0], x.fold(s, d, seq.args[1], nil, params, et, rt), x.fold(s, d, seq.args[2], nil, params, et, rt))
		}
	}
	if seq.op == "seq.extract" && k == nil {
		if v, ok := seq.args[1].isNum(); ok && v.Sign() == 0 {
			return x.fold(s, d, seq.args[0], seq.args[2], params, et, rt)
		}
	}
	whole := k == nil
	if k == nil {
		k = c.length(seq)
	}
	if v, ok := k.isNum(); ok && v.Sign() == 0 {
		return foldUnit(c, rs)
	}
	snap, id := x.foldSnap(s, d, seq, params, et)
	args := []*T{seq, k}
	for _, p := range params {
		args = append(args, x.peekVal(s.st, p.v))
	}
	args = append(args, id...)
	nm := fmt.Sprintf("fold_%s_%d", d.Name, len(id))
	r := c.fn(nm, rs, args...)
	if isSeq(rs) {
		if _, ok := c.stamps[r.id]; !ok {
			c.stamps[r.id] = maxStamp(x.stampOf(seq), x.cur.stamp())
		}
	}
	// defining equations
	if len(c.facts[r.id]) == 0 {
		if whole && !d.usesI && seq.op == "seq.extract" {
			// a sequence is its part before a position and the part from there on
			s0, i0, n0 := seq.args[0], seq.args[1], seq.args[2]
			if sf, ok := c.suf[seq.id]; ok && sf.from != nil {
				s0, i0, n0 = sf.from, sf.at, c.length(seq)
			}
			sc := *s
			sc.st = snap
			c.factOn(r, c.implies(c.and(c.cmp("<=", c.int(0), i0), c.cmp("<=", i0, c.length(s0)), c.eq(c.arith("+", i0, n0), c.length(s0))),
				c.eq(x.fold(&sc, d, s0, nil, params, et, rt), foldOp(c, x.fold(&sc, d, s0, i0, params, et, rt), r))))
		}
		c.factOn(r, c.implies(c.cmp("<=", k, c.int(0)), c.eq(r, foldUnit(c, rs))))
		if b, off := splitAdd(k); off >= 1 || k.op != "seq.len" {
			_ = b
			if off >= 1 {
				k0 := c.add(k, -1)
				sc := *s
				sc.st = snap
				e := c.nth(seq, k0)
				x.typed(e, et, x.stampOf(seq))
				body := x.foldBody(&sc, d, e, k0, params, et)
				prev := x.fold(&sc, d, seq, k0, params, et, rt)
				c.factOn(r, c.implies(c.and(c.cmp("<=", c.int(0), k0), c.cmp("<", k0, c.length(seq))), c.eq(r, foldOp(c, prev, body))))
				x.touch(s.st, seq, k0)
			}
		}
		if d.isFilter() { // filtering twice by the same test is filtering once
			idem := append([]*T{r, c.length(r)}, args[2:]...)
			c.factOn(r, c.eq(c.fn(nm, rs, idem...), r))
		}
	}
	return r
}

// isFilter: the body is cond(test, seq("T", e), seq("T")) or the other way round, so the result has the
// elements that pass the test, in order.
func (d *Def) isFilter() bool {
	ce, ok := d.Body.(*ast.CallExpr)
	if !ok || len(ce.Args) != 3 || d.usesI {
		return false
	}
	if id, ok := ce.Fun.(*ast.Ident); !ok || id.Name != "cond" {
		return false
	}
	kind := func(e ast.Expr) int {
		c, ok := e.(*ast.CallExpr)
		if !ok {
			return -1
		}
		if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "seq" || len(c.Args) < 1 || len(c.Args) > 2 {
			return -1
		}
		if len(c.Args) == 2 {
			if id, ok := c.Args[1].(*ast.Ident); !ok || id.Name != "e" {
				return -1
			}
		}
		return len(c.Args)
	}
	return kind(ce.Args[1])+kind(ce.Args[2]) == 3 && kind(ce.Args[1]) > 0 && kind(ce.Args[2]) > 0
}

// A fold joins sequences or strings, adds numbers, or asks whether a condition holds anywhere.
func foldUnit(c *Ctx, sort string) *T {
	switch sort {
	case "Int":
		return c.int(0)
	case "Bool":
		return c.fals()
	}
	return c.seqEmpty(sort)
}

func foldOp(c *Ctx, a, b *T) *T {
	switch a.sort {
	case "Int":
		return c.arith("+", a, b)
	case "Bool":
		return c.or(a, b)
	}
	return c.concat(a, b)
}

func (x *Eng) foldBody(s *Scope, d *Def, e, i *T, params []TV, et types.Type) *T {
	n := *s
	n.elem = &foldCtx{}
	n.env = map[string]TV{"e": {e, et}, "i": {i, types.Typ[types.Int]}}
	for j, p := range params {
		n.env[d.Params[j+1]] = p
	}
	x.typed(e, et, x.stampOf(e))
	r := n.eval(d.Body)
	rt := x.typ(d.Res)
	if r.t == nil && r.v == nil {
		return x.zero(rt)
	}
	return x.peekVal(n.st, r.v)
}

// foldSnap determines the heap versions the value of a fold depends on.
func (x *Eng) foldSnap(s *Scope, d *Def, seq *T, params []TV, et types.Type) (*State, []*T) {
	c := x.c
	keys, ok := x.foldKeys[d.Name]
	if !ok {
		// record the keys the body reads for an arbitrary element
		x.foldKeys[d.Name] = nil // recursion guard
		ph := c.newSym("el", x.sort(et))
		x.typed(ph, et, x.cur.stamp())
		saveN, saveR := x.noTouch, x.reads
		x.noTouch = true
		x.reads = map[string]bool{}
		x.s.push()
		cl := x.cur.clone()
		cur := x.cur
		x.cur = cl
		sc := *s
		x.foldBody(&sc, d, ph, c.newSym("ix", "Int"), params, et)
		x.cur = cur
		x.s.pop()
		keys = sortedKeys(x.reads)
		if saveR != nil {
			for _, k := range keys {
				saveR[k] = true
			}
		}
		x.noTouch, x.reads = saveN, saveR
		x.foldKeys[d.Name] = keys
	} else if x.reads != nil {
		for _, k := range keys {
			x.reads[k] = true
		}
	}
	if len(keys) == 0 {
		return s.st, nil
	}
	vs := x.stripNewer(s.st, keys, x.stampOf(seq))
	snap := s.st.clone()
	var id []*T
	for _, k := range keys {
		snap.heap[k] = vs[k]
		id = append(id, vs[k].term)
	}
	return snap, id
}

// stripNewer drops the latest heap writes that cannot be seen from objects older than s.
func (x *Eng) stripNewer(st *State, keys []string, s Stamp) map[string]*HeapV {
	top := map[string]*HeapV{}
	for _, k := range keys {
		top[k] = x.heapOf(st, k)
	}
	if s == stampInf {
		return top
	}
	type cut struct {
		key string
		v   *HeapV
	}
	var cuts []cut
	for {
		var best string
		for _, k := range keys {
			if top[k].kind == "init" {
				continue
			}
			if best == "" || top[k].ts > top[best].ts {
				best = k
			}
		}
		if best == "" {
			return x.recheck(top, nil)
		}
		v := top[best]
		ok := false
		switch v.kind {
		case "store":
			ok = x.isNewer(v.loc, s)
		case "havoc":
			ok = !v.all && v.rule == nil && s.le(v.baseS)
			for _, e := range v.exc {
				if !x.isNewer(e, s) {
					ok = false
				}
			}
		}
		if !ok {
			// v is a barrier: what was cut must be newer than everything it can hold
			for i := len(cuts) - 1; i >= 0; i-- {
				cv := cuts[i].v
				fine := false
				switch cv.kind {
				case "store":
					fine = x.isNewer(cv.loc, v.st)
				case "havoc":
					fine = v.st.le(cv.baseS)
					for _, e := range cv.exc {
						if !x.isNewer(e, v.st) {
							fine = false
						}
					}
				}
				if !fine { // restore everything cut up to here
					for j := 0; j <= i; j++ {
						if o := top[cuts[j].key]; o.ts < cuts[j].v.ts {
							top[cuts[j].key] = cuts[j].v
						}
					}
					break
				}
			}
			return top
		}
		cuts = append(cuts, cut{best, v})
		top[best] = v.prev
	}
}

func (x *Eng) recheck(top map[string]*HeapV, _ interface{}) map[string]*HeapV { return top }
