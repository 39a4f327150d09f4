package main

// SMT terms: hash-consed, with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type T struct {
	op   string
	args []*T
	sort string
	id   int
	size int
	lit  bool // op is an atom: literal or declared symbol
}

type Ctx struct {
	tab      map[string]*T
	all      []*T
	decls    []string // global declarations in order
	litIDs   map[string]int
	declared map[string]bool
	fresh    int
	onNth    func(s, i, r *T)
	symOrd   map[int]int  // fresh symbol number by term id
	facts    map[int][]*T // facts attached to terms: they hold wherever the term occurs
	stamps   map[int]Stamp
	suf      map[int]sufT
}

func newCtx() *Ctx {
	return &Ctx{tab: map[string]*T{}, symOrd: map[int]int{}, facts: map[int][]*T{}, stamps: map[int]Stamp{}, declared: map[string]bool{}}
}

func (c *Ctx) mk(sort, op string, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(sort)
	sb.WriteByte(1)
	sb.WriteString(op)
	size := 1
	for _, a := range args {
		fmt.Fprintf(&sb, "\x02%d", a.id)
		size += a.size
		if size > 1<<20 {
			size = 1 << 20
		}
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &T{op: op, args: args, sort: sort, id: len(c.all), size: size, lit: len(args) == 0}
	c.tab[k] = t
	c.all = append(c.all, t)
	return t
}

func (c *Ctx) atom(sort, name string) *T { return c.mk(sort, name) }

func (c *Ctx) declare(name string, argSorts []string, sort string) {
	if c.declared[name] {
		return
	}
	c.declared[name] = true
	c.decls = append(c.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(argSorts, " "), sort))
}

func (c *Ctx) newSym(hint, sort string) *T {
	c.fresh++
	n := fmt.Sprintf("%s!%d", sanitize(hint), c.fresh)
	c.declare(n, nil, sort)
	t := c.atom(sort, n)
	c.symOrd[t.id] = c.fresh
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// fn applies a declared (uninterpreted) function.
func (c *Ctx) fn(name, sort string, args ...*T) *T {
	if len(args) == 1 && args[0].sort == "String" && strings.HasPrefix(name, "ato") {
		if r := c.atoLit(name, args[0]); r != nil {
			return r
		}
	}
	var as []string
	for _, a := range args {
		as = append(as, a.sort)
	}
	c.declare(name, as, sort)
	return c.mk(sort, name, args...)
}

var big63 = new(big.Int).Lsh(big.NewInt(1), 63)

func (c *Ctx) num(v *big.Int) *T {
	if v.Sign() < 0 {
		return c.mk("Int", "(- "+new(big.Int).Neg(v).String()+")")
	}
	return c.mk("Int", v.String())
}
func (c *Ctx) int(v int64) *T { return c.num(big.NewInt(v)) }

func (t *T) isNum() (*big.Int, bool) {
	if t.sort != "Int" || len(t.args) > 0 {
		return nil, false
	}
	s := t.op
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = s[3 : len(s)-1]
	}
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

func (c *Ctx) strLit(s string) *T {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		b := s[i]
		if b == '"' {
			sb.WriteString(`""`)
		} else if b >= 0x20 && b < 0x7f && b != '\\' {
			sb.WriteByte(b)
		} else {
			fmt.Fprintf(&sb, `\u{%x}`, b)
		}
	}
	sb.WriteByte('"')
	return c.mk("String", sb.String())
}

func (t *T) isStr() bool {
	return t.sort == "String" && len(t.args) == 0 && strings.HasPrefix(t.op, `"`)
}

// strVal decodes a literal made by strLit.
func (t *T) strVal() string {
	s := t.op[1 : len(t.op)-1]
	var sb strings.Builder
	for i := 0; i < len(s); {
		switch {
		case s[i] == '"':
			sb.WriteByte('"')
			i += 2
		case s[i] == '\\':
			j := strings.IndexByte(s[i:], '}') + i
			v, _ := new(big.Int).SetString(s[i+3:j], 16)
			sb.WriteByte(byte(v.Int64()))
			i = j + 1
		default:
			sb.WriteByte(s[i])
			i++
		}
	}
	return sb.String()
}

func (c *Ctx) tru() *T  { return c.mk("Bool", "true") }
func (c *Ctx) fals() *T { return c.mk("Bool", "false") }
func (c *Ctx) boolT(b bool) *T {
	if b {
		return c.tru()
	}
	return c.fals()
}
func (t *T) isTrue() bool  { return t.op == "true" && len(t.args) == 0 }
func (t *T) isFalse() bool { return t.op == "false" && len(t.args) == 0 }

func (c *Ctx) not(a *T) *T {
	if a.isTrue() {
		return c.fals()
	}
	if a.isFalse() {
		return c.tru()
	}
	if a.op == "not" {
		return a.args[0]
	}
	return c.mk("Bool", "not", a)
}

func (c *Ctx) and(xs ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	for _, x := range xs {
		if x.isTrue() || seen[x.id] {
			continue
		}
		if x.isFalse() {
			return x
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	if len(out) == 0 {
		return c.tru()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("Bool", "and", out...)
}

func (c *Ctx) or(xs ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	for _, x := range xs {
		if x.isFalse() || seen[x.id] {
			continue
		}
		if x.isTrue() {
			return x
		}
		seen[x.id] = true
		out = append(out, x)
	}
	if len(out) == 0 {
		return c.fals()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("Bool", "or", out...)
}

func (c *Ctx) implies(a, b *T) *T {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return c.tru()
	}
	if b.isFalse() {
		return c.not(a)
	}
	return c.mk("Bool", "=>", a, b)
}

// ground constructor terms are decided syntactically
func (c *Ctx) eq(a, b *T) *T {
	if a == b {
		return c.tru()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if x, ok := a.isNum(); ok {
		if y, ok := b.isNum(); ok {
			return c.boolT(x.Cmp(y) == 0)
		}
	}
	if a.isStr() && b.isStr() {
		return c.boolT(a.op == b.op)
	}
	if a.sort == "Bool" {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.not(b)
		}
		if b.isFalse() {
			return c.not(a)
		}
	}
	if a.sort == "Int" {
		x, k1 := splitAdd(a)
		y, k2 := splitAdd(b)
		if x == y {
			return c.boolT(k1 == k2)
		}
		if k1 != 0 && k2 != 0 { // normalise
			return c.eq(x, c.add(y, k2-k1))
		}
	}
	if strings.HasPrefix(a.op, "mk") && a.op == b.op && len(a.args) == len(b.args) && len(a.args) > 0 {
		var cs []*T
		for i := range a.args {
			cs = append(cs, c.eq(a.args[i], b.args[i]))
		}
		return c.and(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("Bool", "=", a, b)
}

// splitAdd splits (+ x k) into x,k.
func splitAdd(t *T) (*T, int64) {
	if t.op == "+" && len(t.args) == 2 {
		if v, ok := t.args[1].isNum(); ok && v.IsInt64() {
			return t.args[0], v.Int64()
		}
	}
	return t, 0
}

func (c *Ctx) ite(cnd, a, b *T) *T {
	if cnd.isTrue() {
		return a
	}
	if cnd.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == "Bool" {
		if a.isTrue() && b.isFalse() {
			return cnd
		}
	}
	return c.mk(a.sort, "ite", cnd, a, b)
}

func (c *Ctx) add(a *T, k int64) *T {
	if k == 0 {
		return a
	}
	if v, ok := a.isNum(); ok {
		return c.num(new(big.Int).Add(v, big.NewInt(k)))
	}
	x, j := splitAdd(a)
	if j+k == 0 {
		return x
	}
	return c.mk("Int", "+", x, c.int(j+k))
}

func (c *Ctx) arith(op string, a, b *T) *T {
	x, ok1 := a.isNum()
	y, ok2 := b.isNum()
	if ok1 && ok2 {
		switch op {
		case "+":
			return c.num(new(big.Int).Add(x, y))
		case "-":
			return c.num(new(big.Int).Sub(x, y))
		case "*":
			return c.num(new(big.Int).Mul(x, y))
		}
	}
	if op == "+" {
		if ok2 && y.IsInt64() {
			return c.add(a, y.Int64())
		}
		if ok1 && x.IsInt64() {
			return c.add(b, x.Int64())
		}
	}
	if op == "-" && ok2 && y.IsInt64() {
		return c.add(a, -y.Int64())
	}
	if op == "-" {
		x, k1 := splitAdd(a)
		y, k2 := splitAdd(b)
		if x == y {
			return c.int(k1 - k2)
		}
		if k1 != 0 || k2 != 0 {
			return c.add(c.mk("Int", "-", x, y), k1-k2)
		}
	}
	if op == "+" {
		x, k1 := splitAdd(a)
		y, k2 := splitAdd(b)
		if k1 != 0 || k2 != 0 {
			return c.add(c.arith("+", x, y), k1+k2)
		}
		if a.op == "-" && len(a.args) == 2 && a.args[1] == b {
			return a.args[0]
		}
		if b.op == "-" && len(b.args) == 2 && b.args[1] == a {
			return b.args[0]
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk("Int", op, a, b)
}

func (c *Ctx) cmp(op string, a, b *T) *T {
	if x, ok := a.isNum(); ok {
		if y, ok := b.isNum(); ok {
			r := x.Cmp(y)
			switch op {
			case "<":
				return c.boolT(r < 0)
			case "<=":
				return c.boolT(r <= 0)
			case ">":
				return c.boolT(r > 0)
			case ">=":
				return c.boolT(r >= 0)
			}
		}
	}
	if a == b {
		return c.boolT(op == "<=" || op == ">=")
	}
	if a.sort == "Int" {
		xa, ka := splitAdd(a)
		xb, kb := splitAdd(b)
		if xa == xb {
			switch op {
			case "<":
				return c.boolT(ka < kb)
			case "<=":
				return c.boolT(ka <= kb)
			case ">":
				return c.boolT(ka > kb)
			case ">=":
				return c.boolT(ka >= kb)
			}
		}
	}
	return c.mk("Bool", op, a, b)
}

// ---- strings and sequences

func isSeq(s string) bool { return strings.HasPrefix(s, "(Seq ") }

func elemSort(s string) string { return s[5 : len(s)-1] }

func (c *Ctx) seqEmpty(sort string) *T {
	if sort == "String" {
		return c.strLit("")
	}
	return c.mk(sort, "(as seq.empty "+sort+")")
}

func (c *Ctx) seqUnit(e *T) *T { return c.mk("(Seq "+e.sort+")", "seq.unit", e) }

func (c *Ctx) concat(xs ...*T) *T {
	var out []*T
	s := xs[0].sort
	for _, x := range xs {
		if x.sort != s {
			panic("concat sorts " + s + " " + x.sort)
		}
		if strings.HasPrefix(x.op, "(as seq.empty") || x.op == `""` {
			continue
		}
		if x.op == "seq.++" || x.op == "str.++" {
			out = append(out, x.args...)
			continue
		}
		out = append(out, x)
	}
	if s == "String" { // merge adjacent literals
		var m []*T
		for _, x := range out {
			if len(m) > 0 && m[len(m)-1].isStr() && x.isStr() {
				m[len(m)-1] = c.strLit(m[len(m)-1].strVal() + x.strVal())
				continue
			}
			m = append(m, x)
		}
		out = m
	}
	if len(out) == 0 {
		return c.seqEmpty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	if s == "String" {
		return c.mk(s, "str.++", out...)
	}
	return c.mk(s, "seq.++", out...)
}

func (c *Ctx) length(a *T) *T {
	if a.isStr() {
		return c.int(int64(len(a.strVal())))
	}
	if strings.HasPrefix(a.op, "(as seq.empty") {
		return c.int(0)
	}
	switch a.op {
	case "seq.unit":
		return c.int(1)
	case "seq.++", "str.++":
		n := int64(0)
		var rest *T
		for _, x := range a.args {
			l := c.length(x)
			if v, ok := l.isNum(); ok {
				n += v.Int64()
			} else if rest == nil {
				rest = l
			} else {
				rest = c.mk("Int", "+", rest, l)
			}
		}
		if rest == nil {
			return c.int(n)
		}
		return c.add(rest, n)
	}
	if strings.HasPrefix(a.op, "updseq") {
		return c.length(a.args[0])
	}
	if s, ok := c.suf[a.id]; ok {
		return c.arith("-", c.length(s.base), s.off)
	}
	if a.sort == "String" {
		return c.mk("Int", "str.len", a)
	}
	return c.mk("Int", "seq.len", a)
}

// concreteSeq lists the elements of a sequence built from units only.
func (c *Ctx) concreteSeq(a *T) ([]*T, bool) {
	if strings.HasPrefix(a.op, "(as seq.empty") {
		return nil, true
	}
	if a.op == "seq.unit" {
		return []*T{a.args[0]}, true
	}
	if a.op == "seq.++" {
		var out []*T
		for _, x := range a.args {
			if x.op != "seq.unit" {
				return nil, false
			}
			out = append(out, x.args[0])
		}
		return out, true
	}
	return nil, false
}

func (c *Ctx) nth(a, i *T) *T {
	if es, ok := c.concreteSeq(a); ok {
		if v, ok := i.isNum(); ok && v.IsInt64() && v.Int64() >= 0 && v.Int64() < int64(len(es)) {
			return es[v.Int64()]
		}
	}
	if a.op == "seq.++" { // leading units
		if v, ok := i.isNum(); ok {
			k := v.Int64()
			for _, x := range a.args {
				if x.op != "seq.unit" {
					break
				}
				if k == 0 {
					return x.args[0]
				}
				k--
			}
		}
		// last unit: index == len(prefix)
		last := a.args[len(a.args)-1]
		if last.op == "seq.unit" {
			if c.length(c.concat(append([]*T{c.seqEmpty(a.sort)}, a.args[:len(a.args)-1]...)...)) == i {
				return last.args[0]
			}
		}
	}
	if a.op == "seq.++" {
		off := c.int(0)
		if len(a.args) <= 6 {
			r := (*T)(nil)
			type part struct {
				hi *T
				v  *T
			}
			var ps []part
			for _, x := range a.args {
				lo := off
				off = c.arith("+", off, c.length(x))
				var v *T
				if x.op == "seq.unit" {
					v = x.args[0]
				} else {
					v = c.nth(x, c.arith("-", i, lo))
				}
				ps = append(ps, part{off, v})
			}
			for k := len(ps) - 1; k >= 0; k-- {
				if r == nil {
					r = ps[k].v
				} else {
					r = c.ite(c.cmp("<", i, ps[k].hi), ps[k].v, r)
				}
			}
			return r
		}
	}
	if strings.HasPrefix(a.op, "updseq") {
		return c.ite(c.eq(i, a.args[1]), a.args[2], c.nth(a.args[0], i))
	}
	if a.op == "seq.unit" {
		return a.args[0]
	}
	if a.op == "ite" {
		return c.ite(a.args[0], c.nth(a.args[1], i), c.nth(a.args[2], i))
	}
	if s, ok := c.suf[a.id]; ok {
		return c.nth(s.base, c.arith("+", s.off, i))
	}
	r := c.mk(elemSort(a.sort), "seq.nth", a, i)
	if a.op == "seq.extract" && len(c.facts[r.id]) == 0 { // where it comes from
		c.factOn(r, c.implies(c.and(c.cmp("<=", c.int(0), i), c.cmp("<", i, c.length(a)), c.cmp("<=", c.int(0), a.args[1])),
			c.eq(r, c.nth(a.args[0], c.arith("+", a.args[1], i)))))
	}
	if c.onNth != nil {
		c.onNth(a, i, r)
	}
	return r
}

// extract a[lo:lo+n]
// litTree reports whether t chooses among literals.
func litTree(t *T) bool {
	return t.isStr() || t.op == "ite" && litTree(t.args[1]) && litTree(t.args[2])
}

// atoLit computes what strconv reads from literals.
func (c *Ctx) atoLit(name string, t *T) *T {
	if t.op == "ite" && litTree(t) {
		a, b := c.atoLit(name, t.args[1]), c.atoLit(name, t.args[2])
		if a == nil || b == nil {
			return nil
		}
		return c.ite(t.args[0], a, b)
	}
	if !t.isStr() {
		return nil
	}
	s := t.strVal()
	switch name {
	case "atou_ok", "atou_val":
		v, err := strconv.ParseUint(s, 10, 64)
		if name == "atou_ok" {
			return c.boolT(err == nil)
		}
		if err == nil {
			return c.num(new(big.Int).SetUint64(v))
		}
	case "atoi_ok", "atoi_val":
		v, err := strconv.ParseInt(s, 10, 64)
		if name == "atoi_ok" {
			return c.boolT(err == nil)
		}
		if err == nil {
			return c.int(v)
		}
	}
	return nil
}

func (c *Ctx) extract(a, lo, n *T) *T {
	if a.op == "ite" && a.sort == "String" && litTree(a) {
		if _, ok := lo.isNum(); ok && n == c.arith("-", c.length(a), lo) {
			p, q := a.args[1], a.args[2]
			return c.ite(a.args[0], c.extract(p, lo, c.arith("-", c.length(p), lo)), c.extract(q, lo, c.arith("-", c.length(q), lo)))
		}
	}
	if v, ok := lo.isNum(); ok && v.Sign() == 0 && n == c.length(a) {
		return a
	}
	if v, ok := n.isNum(); ok && v.Sign() == 0 {
		return c.seqEmpty(a.sort)
	}
	if a.isStr() {
		if x, ok := lo.isNum(); ok {
			if y, ok := n.isNum(); ok {
				s := a.strVal()
				l, k := x.Int64(), y.Int64()
				if l >= 0 && k >= 0 && l+k <= int64(len(s)) {
					return c.strLit(s[l : l+k])
				}
			}
		}
	}
	if a.op == "str.++" && a.args[0].isStr() { // suffix after a literal
		if v, ok := lo.isNum(); ok && v.Sign() > 0 && n == c.arith("-", c.length(a), lo) {
			h := a.args[0].strVal()
			if k := int(v.Int64()); k <= len(h) {
				return c.concat(append([]*T{c.strLit(h[k:])}, a.args[1:]...)...)
			}
		}
	}
	if a.op == "seq.++" || a.op == "str.++" { // a prefix made of whole parts
		if v, ok := lo.isNum(); ok && v.Sign() == 0 {
			l := c.int(0)
			for i, p := range a.args {
				l = c.arith("+", l, c.length(p))
				if l == n {
					return c.concat(append([]*T{c.seqEmpty(a.sort)}, a.args[:i+1]...)...)
				}
			}
		}
	}
	if a.sort == "String" {
		return c.mk("String", "str.substr", a, lo, n)
	}
	return c.mk(a.sort, "seq.extract", a, lo, n)
}

// sufT says that a sequence is the rest of another one from a position on.
type sufT struct {
	base, off *T
	from, at  *T // the sequence it was cut from, and where
}

// suffix is the rest of base from a position that is known to be inside it.
func (c *Ctx) suffix(base, off, from, at *T) *T {
	if v, ok := off.isNum(); ok && v.Sign() == 0 {
		return base
	}
	t := c.mk(base.sort, "seq.extract", base, off, c.arith("-", c.length(base), off))
	if c.suf == nil {
		c.suf = map[int]sufT{}
	}
	if o, ok := c.suf[t.id]; !ok || o.from == nil && from != nil {
		c.suf[t.id] = sufT{base, off, from, at}
	}
	return t
}

// sel applies a datatype selector, reducing on constructors and ites.
func (c *Ctx) sel(sort, name string, ctor string, idx int, a *T) *T {
	if a.op == ctor && len(a.args) > idx {
		return a.args[idx]
	}
	if a.op == "ite" && (a.args[1].op == ctor || a.args[2].op == ctor) {
		return c.ite(a.args[0], c.sel(sort, name, ctor, idx, a.args[1]), c.sel(sort, name, ctor, idx, a.args[2]))
	}
	return c.mk(sort, name, a)
}

func (t *T) String() string {
	var sb strings.Builder
	t.render(&sb, nil)
	return sb.String()
}

func (t *T) render(sb *strings.Builder, named map[int]bool) {
	if named != nil && named[t.id] {
		fmt.Fprintf(sb, "t!%d", t.id)
		return
	}
	t.renderTop(sb, named)
}

func (t *T) renderTop(sb *strings.Builder, named map[int]bool) {
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.render(sb, named)
	}
	sb.WriteByte(')')
}

// syms collects the ids of all subterms.
func (t *T) visit(seen map[int]bool, f func(*T)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	f(t)
	for _, a := range t.args {
		a.visit(seen, f)
	}
}

// subst replaces terms by id.
func (c *Ctx) subst(t *T, m map[int]*T, memo map[int]*T) *T {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	args := make([]*T, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = c.subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		switch t.op {
		case "=":
			r = c.eq(args[0], args[1])
		case "and":
			r = c.and(args...)
		case "or":
			r = c.or(args...)
		case "not":
			r = c.not(args[0])
		case "=>":
			r = c.implies(args[0], args[1])
		case "ite":
			r = c.ite(args[0], args[1], args[2])
		default:
			r = c.mk(t.sort, t.op, args...)
		}
	}
	memo[t.id] = r
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Stamp bounds the age of the objects a value refers to: all of them were
// allocated before allocation number n of the epoch.
type Stamp struct{ epoch, n int }

var stampInf = Stamp{1 << 30, 0}

func (a Stamp) le(b Stamp) bool { return a.epoch < b.epoch || a.epoch == b.epoch && a.n <= b.n }
func maxStamp(a, b Stamp) Stamp {
	if a.le(b) {
		return b
	}
	return a
}

func (c *Ctx) factOn(t *T, f *T) {
	if f.isTrue() {
		return
	}
	for _, g := range c.facts[t.id] {
		if g == f {
			return
		}
	}
	c.facts[t.id] = append(c.facts[t.id], f)
}
