package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The decoder of an element type mirrors what encoding/xml writes for it. What it must do follows from
// the xml tags of the type, which are what the encoder uses: decSpec is that reading of the tags.
type decSpec struct {
	typ   *types.Named
	attrs []decAtt
	kids  []decKid
	text  int // index of the character data field, -1 if there is none
}

type decAtt struct {
	field int
	name  string // local name of the attribute
	ns    bool   // a name space declaration
	num   bool
}

type decKid struct {
	field int
	name  string     // local name of the element
	elem  types.Type // struct type of the element; nil for a scalar
	form  string     // ptr, list (of pointers), vals (list of structs), any (list of interface values), val, scalar
}

func localName(s string) string {
	if i := strings.LastIndex(s, ":"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// xmlTag is the name and the options of a field.
func xmlTag(s *types.Struct, i int) (string, []string, bool) {
	v, ok := reflect.StructTag(s.Tag(i)).Lookup("xml")
	if !ok {
		return "", nil, false
	}
	ps := strings.Split(v, ",")
	return ps[0], ps[1:], true
}

func tagOpt(os []string, o string) bool {
	for _, p := range os {
		if p == o {
			return true
		}
	}
	return false
}

// xmlNameOf is the name an element type declares for itself.
func xmlNameOf(t types.Type) string {
	s, ok := isStruct(t)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "XMLName" {
			n, _, _ := xmlTag(s, i)
			return n
		}
	}
	return ""
}

func numericKind(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func stringKind(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// decSpecOf reads the tags; children names the types an interface list may hold.
func decSpecOf(n *types.Named, children map[string][]types.Type) *decSpec {
	s, ok := isStruct(n)
	if !ok {
		return nil
	}
	d := &decSpec{typ: n, text: -1}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() || f.Name() == "XMLName" || f.Embedded() {
			continue
		}
		name, opts, tagged := xmlTag(s, i)
		if name == "-" {
			continue
		}
		if tagOpt(opts, "attr") {
			if name == "" {
				name = f.Name()
			}
			d.attrs = append(d.attrs, decAtt{field: i, name: localName(name), ns: strings.HasPrefix(name, "xmlns"), num: numericKind(f.Type())})
			continue
		}
		if tagOpt(opts, "chardata") {
			d.text = i
			continue
		}
		if tagged && name == "" && len(opts) > 0 && opts[0] != "omitempty" {
			continue
		}
		k := decKid{field: i, name: localName(name)}
		t := f.Type()
		switch u := under(t).(type) {
		case *types.Pointer:
			k.form, k.elem = "ptr", u.Elem()
		case *types.Struct:
			k.form, k.elem = "val", t
		case *types.Slice:
			switch e := under(u.Elem()).(type) {
			case *types.Pointer:
				k.form, k.elem = "list", e.Elem()
			case *types.Struct:
				k.form, k.elem = "vals", u.Elem()
			case *types.Interface:
				for _, ct := range children[n.Obj().Name()+"."+f.Name()] {
					d.kids = append(d.kids, decKid{field: i, name: localName(xmlNameOf(ct)), elem: ct, form: "any"})
				}
				continue
			default:
				continue
			}
		case *types.Basic:
			k.form = "scalar"
		default:
			continue
		}
		if k.elem != nil && k.name == "" {
			k.name = localName(xmlNameOf(k.elem))
		}
		if k.name == "" {
			k.name = f.Name()
		}
		d.kids = append(d.kids, k)
	}
	return d
}

// leaf reports whether the element carries attributes only.
func leaf(t types.Type, children map[string][]types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		s, ok := isStruct(t)
		return ok && s.NumFields() == 0
	}
	d := decSpecOf(n, children)
	return d != nil && len(d.kids) == 0 && d.text < 0
}

func (p *Program) named(n string) *types.Named {
	o, _ := p.tpkg.Scope().Lookup(n).(*types.TypeName)
	if o == nil {
		return nil
	}
	t, _ := o.Type().(*types.Named)
	return t
}

// decoderContracts writes the contract of every element decoder that has none of its own.
func decoderContracts(p *Program, cs *Contracts) string {
	var sb strings.Builder
	children := cs.children(p)
	for _, k := range p.funcNames() {
		t, m, ok := strings.Cut(k, ".")
		fn := p.funcs[k]
		if !ok || m != "UnmarshalXML" || len(fn.Params) != 3 || len(fn.Blocks) == 0 {
			continue
		}
		n := p.named(t)
		if n == nil {
			continue
		}
		d := decSpecOf(n, children)
		if d == nil {
			continue
		}
		cs.Dec[k] = d
		if cs.Funcs[k] != nil {
			cs.Funcs[k].Schema = true
			continue
		}
		s, _ := isStruct(n)
		fmt.Fprintf(&sb, "//@ func (r *%s) UnmarshalXML(d, start) (err) [C01 C02 C03]\n//@ helper\n//@ schema\n//@ requires r != nil && d != nil\n//@ requires [C01] attOnce(start.Attr)\n//@ modifies *r\n", t)
		seenInv := map[string]bool{}
		inv := func(f string, a ...interface{}) {
			i := "//@ invariant? [C01] " + fmt.Sprintf(f, a...) + "\n"
			if !seenInv[i] {
				seenInv[i] = true
				sb.WriteString(i)
			}
		}
		// loops over attributes store what they read
		att := func(key string, a decAtt) {
			val := "seq[j].Value"
			if a.num {
				val = "numVal(" + val + ")"
			}
			g := ""
			if a.num {
				g = " && numeric(seq[j].Value)"
			}
			inv("{%s} forall(j, 0, k, seq[j].Name.Local == %q && seq[j].Value != \"\"%s ==> acc == %s)", key, a.name, g, val)
			inv("{!%s} forall(j, 0, k, seq[j].Name.Local != %q)", key, a.name)
		}
		for _, kd := range d.kids {
			kn, ok := types.Unalias(kd.elem).(*types.Named)
			if kd.elem == nil || !ok || !leaf(kn, children) {
				continue
			}
			ks, _ := isStruct(kn)
			for _, a := range decSpecOf(kn, children).attrs {
				if !a.ns {
					att(kn.Obj().Name()+"."+ks.Field(a.field).Name(), a)
				}
			}
		}
		for _, a := range d.attrs {
			f := s.Field(a.field).Name()
			if a.ns || cs.ByParent[t+"."+f] {
				continue
			}
			def := "attIs"
			if a.num {
				def = "attNum"
			}
			att(t+"."+f, a)
			fmt.Fprintf(&sb, "//@ ensures [C01] err == nil ==> %s(start.Attr, %q, r.%s)\n", def, a.name, f)
		}
	}
	return sb.String()
}

// children resolves the types interface lists may hold.
func (cs *Contracts) children(p *Program) map[string][]types.Type {
	r := map[string][]types.Type{}
	for k, ns := range cs.Children {
		for _, n := range ns {
			if t := p.named(n); t != nil {
				r[k] = append(r[k], t)
			}
		}
	}
	return r
}

type schemaCheck struct {
	x    *Eng
	d    *decSpec
	ch   map[string][]types.Type
	recv TV
}

func (x *Eng) newSchema(ct *Contract) {
	d := x.cs.Dec[ct.Key]
	if !ct.Schema || d == nil || (x.prop != "C01" && x.prop != "C03") {
		return
	}
	s := &schemaCheck{x: x, d: d, ch: x.cs.children(x.p), recv: x.env[ct.Params[0]]}
	x.onBack = s.back
	x.onHead = s.head
	x.onEnd = s.end
}

func (s *schemaCheck) field(st *State, i int) TV {
	t, _ := isStruct(s.d.typ)
	return TV{s.x.loadField(st, s.d.typ, s.recv.v.(*T), i), t.Field(i).Type()}
}

func (s *schemaCheck) val(st *State, i int) *T { return s.x.peekVal(st, s.field(st, i).v) }

// head remembers the list variables of the loop, for the return after it.
func (s *schemaCheck) head(st *State, lc *LoopCtx) {
	for i, p := range lc.phis {
		if v := lc.headPhi[p]; v != nil && isSeq(v.sort) {
			st.ghost[fmt.Sprintf("list:%d", i)] = v
		}
	}
}

func isNilErr(x *Eng, e *T) *T { return x.c.eq(x.itag(e), x.c.int(0)) }

// back checks one iteration of the token loop.
func (s *schemaCheck) back(st *State, lc *LoopCtx) {
	x, c := s.x, s.x.c
	evs := st.events[min(lc.evMark, len(st.events)):]
	var tok *Event
	var eat []*Event
	for i := range evs {
		e := &evs[i]
		switch e.kind {
		case "token":
			if tok != nil {
				if s.passing(st, lc, tok) {
					return
				}
				x.oblige(st, "schema", "one token in an iteration of "+lc.name, c.fals(), "")
				return
			}
			tok = e
		case "skip", "decode":
			eat = append(eat, e)
		}
	}
	if tok == nil {
		return
	}
	if s.passing(st, lc, tok) {
		return
	}
	stt := x.xmlType("StartElement")
	isStart := c.eq(x.itag(tok.tok), x.tag(stt))
	tv := TV{x.unbox(stt, tok.tok), stt}
	nameT := x.field(stt, tv.v.(*T), 0)
	ns, _ := isStruct(stt)
	local := x.field(ns.Field(0).Type(), nameT, 1)
	is := func(n string) *T { return c.and(isStart, c.eq(local, c.strLit(n))) }
	ob := func(name string, g *T) {
		x.s.push()
		n := st.clone()
		x.cur = n
		x.oblige(n, "schema", name, g, "")
		x.s.pop()
		x.cur = st
	}
	x.cur = st
	ok := isNilErr(x, tok.err)
	ob("the loop goes on only after a token was read", ok)
	// what the element type knows
	anyKid := c.fals()
	leafKid := c.fals()
	for _, k := range s.d.kids {
		anyKid = c.or(anyKid, is(k.name))
		if k.elem != nil && leaf(k.elem, s.ch) {
			leafKid = c.or(leafKid, is(k.name))
		}
	}
	if x.prop == "C03" {
		switch len(eat) {
		case 0:
			ob("a start element is consumed with its content", c.or(c.not(isStart), leafKid))
		case 1:
			ob("only a start element is consumed", isStart)
			if eat[0].kind == "decode" {
				ob("only a modelled element is decoded", anyKid)
				if eat[0].tt == nil {
					ob("the element read is the one decoded", c.fals())
				} else {
					ob("the element read is the one decoded", c.eq(eat[0].tt, tv.v.(*T)))
				}
				ob("a failed decode ends the loop", c.or(isNilErr(x, eat[0].err), x.hasPrefix(c.fn("errtext", "String", eat[0].err), c.strLit("expected"))))
			} else {
				ob("a failed skip ends the loop", isNilErr(x, eat[0].err))
			}
		default:
			ob("one element is consumed at a time", c.fals())
		}
	}
	if x.prop == "C03" {
		for i := range evs {
			if evs[i].kind == "call" && evs[i].err != nil {
				ob("a rejected value ends the loop", isNilErr(x, evs[i].err))
			}
		}
		// nothing changes for markup that is not modelled
		g := c.not(anyKid)
		if s.d.text >= 0 {
			g = c.and(g, c.not(c.eq(x.itag(tok.tok), x.tag(x.xmlType("CharData")))))
		}
		if x.satisfiable(g) {
			t, _ := isStruct(s.d.typ)
			for i := 0; i < t.NumFields(); i++ {
				a, b := s.val(st, i), s.val(lc.header, i)
				if a != b {
					ob("unknown markup leaves "+t.Field(i).Name()+" alone", c.implies(g, c.eq(a, b)))
				}
			}
			for _, p := range lc.phis {
				if v, ok := lc.curPhi(st, p).(*T); ok && isSeq(v.sort) && v != lc.headPhi[p] {
					ob("unknown markup leaves the list alone", c.implies(g, c.eq(v, lc.headPhi[p])))
				}
			}
		}
		return
	}
	// C01: every modelled element goes to its own field and nowhere else
	t, _ := isStruct(s.d.typ)
	scope := &Scope{x: x, st: st, old: lc.header, env: map[string]TV{"r": s.recv, "tt": tv}, base: x.boundT(lc.header.stamp())}
	byField := map[int][]decKid{}
	for _, k := range s.d.kids {
		byField[k.field] = append(byField[k.field], k)
	}
	for i := 0; i < t.NumFields(); i++ {
		a, b := s.val(st, i), s.val(lc.header, i)
		if a == b {
			continue
		}
		mine := c.fals()
		for _, k := range byField[i] {
			mine = c.or(mine, is(k.name))
		}
		if i == s.d.text {
			cd := x.xmlType("CharData")
			isCD := c.eq(x.itag(tok.tok), x.tag(cd))
			ob("character data is added to "+t.Field(i).Name(), c.ite(isCD, c.eq(a, c.concat(b, x.unbox(cd, tok.tok))), c.eq(a, b)))
			continue
		}
		if s.noCompare(t.Field(i)) {
			continue
		}
		ob("only its own element changes "+t.Field(i).Name(), c.or(mine, c.eq(a, b)))
	}
	if s.d.text >= 0 && s.val(st, s.d.text) == s.val(lc.header, s.d.text) {
		ob("character data is added", c.not(c.eq(x.itag(tok.tok), x.tag(x.xmlType("CharData")))))
	}
	for _, k := range s.d.kids {
		g := is(k.name)
		if !x.satisfiable(g) {
			continue
		}
		x.s.push()
		n := st.clone()
		x.cur = n
		x.assume(n, g)
		sc := *scope
		sc.st = n
		s.kid(&sc, n, lc, k, eat, "<"+k.name+"> is read into "+t.Field(k.field).Name())
		x.s.pop()
		x.cur = st
	}
}

func (s *schemaCheck) noCompare(f *types.Var) bool { return f.Name() == "XMLName" }

func (lc *LoopCtx) curPhi(st *State, p *ssa.Phi) Val { return st.top().regs[p] }

// satisfiable reports whether a condition is possible on this path.
func (x *Eng) satisfiable(g *T) bool {
	if g.isFalse() {
		return false
	}
	x.s.push()
	x.s.assert(g)
	r := x.s.check()
	x.s.pop()
	return r != "unsat"
}

// kid: what the iteration must have done for one modelled child element.
func (s *schemaCheck) kid(sc *Scope, st *State, lc *LoopCtx, k decKid, eat []*Event, name string) {
	x, c := s.x, s.x.c
	ob := func(what string, g *T) {
		x.s.push()
		n := st.clone()
		x.cur = n
		x.oblige(n, "schema", name+": "+what, g, "")
		x.s.pop()
		x.cur = st
	}
	t, _ := isStruct(s.d.typ)
	ft := t.Field(k.field).Type()
	a, b := s.val(st, k.field), s.val(lc.header, k.field)
	var dec *Event
	for _, e := range eat {
		if e.kind == "decode" {
			dec = e
		}
	}
	// a number that is missing altogether is not something the writer emits
	excuse := c.fals()
	if kn, ok := types.Unalias(k.elem).(*types.Named); k.elem != nil && ok && dec == nil {
		for _, at := range decSpecOf(kn, s.ch).attrs {
			if at.num {
				e, _ := parseSpec(fmt.Sprintf("attEmpty(tt.Attr, %q)", at.name))
				excuse = c.or(excuse, sc.goal(e))
			}
		}
	}
	base := x.boundT(lc.header.stamp())
	switch k.form {
	case "scalar":
		if dec == nil || len(dec.res) == 0 {
			ob("its content is decoded", c.fals())
			return
		}
		ob("the field holds the content", c.eq(a, dec.res[0]))
		return
	case "ptr":
		ob("a new element is stored", c.or(excuse, c.and(x.nonNil(a), c.cmp(">=", x.oid(a), base))))
		s.content(sc, st, k, a, dec, excuse, name, true)
	case "val":
		loc := x.sub(s.recv.v.(*T), k.field)
		if dec != nil && dec.loc != nil && dec.loc != loc && len(dec.res) == 1 {
			ob("the field holds the content", c.eq(a, dec.res[0]))
			return
		}
		s.content(sc, st, k, loc, dec, excuse, name, false)
	default:
		// appended to the list, which is the field itself or a variable of the loop
		var el *T
		grown := func(nv, ov *T) (*T, bool) {
			if nv.op != "seq.++" || len(nv.args) < 2 || nv.args[len(nv.args)-1].op != "seq.unit" {
				return nil, false
			}
			last := nv.args[len(nv.args)-1].args[0]
			rest := c.concat(nv.args[:len(nv.args)-1]...)
			return last, rest == ov || x.valid(c.eq(rest, ov))
		}
		if e, ok := grown(a, b); ok {
			el = e
		}
		if el == nil {
			for _, p := range lc.phis {
				hv := lc.headPhi[p]
				v, ok := st.top().regs[p].(*T)
				if hv == nil || !ok || hv.sort != x.sort(ft) {
					continue
				}
				if e, ok := grown(v, hv); ok {
					el = e
				} else if v.op == "seq.unit" && x.valid(c.eq(c.length(hv), c.int(0))) {
					el = v.args[0]
				}
			}
		}
		if el == nil && a.op == "seq.unit" && x.valid(c.eq(c.length(b), c.int(0))) {
			el = a.args[0]
		}
		if el == nil {
			ob("one element is appended", excuse)
			return
		}
		switch k.form {
		case "any":
			ob("the appended value has the type of the element", c.eq(x.itag(el), x.tag(types.NewPointer(k.elem))))
			el = x.iloc(el)
		case "vals":
			if dec == nil || dec.snap == nil {
				ob("the appended value is the decoded one", c.fals())
				return
			}
			ob("the appended value is the decoded one", c.eq(el, dec.snap))
			return
		}
		ob("a new element is stored", c.or(excuse, c.and(x.nonNil(el), c.cmp(">=", x.oid(el), base))))
		s.content(sc, st, k, el, dec, excuse, name, true)
	}
}

// content: the object at loc is the decoded element, or was filled from the attributes.
func (s *schemaCheck) content(sc *Scope, st *State, k decKid, loc *T, dec *Event, excuse *T, name string, isNew bool) {
	x, c := s.x, s.x.c
	ob := func(what string, g *T) {
		x.s.push()
		n := st.clone()
		x.cur = n
		x.oblige(n, "schema", name+": "+what, c.or(excuse, g), "")
		x.s.pop()
		x.cur = st
	}
	es, ok := isStruct(k.elem)
	if !ok {
		return
	}
	var ed *decSpec
	if en, ok := types.Unalias(k.elem).(*types.Named); ok {
		ed = decSpecOf(en, s.ch)
	} else {
		return // struct{}
	}
	attOf := map[int]decAtt{}
	for _, a := range ed.attrs {
		attOf[a.field] = a
	}
	att := func(a decAtt, v *T) *T {
		def := "attIs"
		if a.num {
			def = "attNum"
		}
		e, err := parseSpec(fmt.Sprintf("%s(tt.Attr, %q, v)", def, a.name))
		if err != nil {
			panic(err)
		}
		return sc.with("v", TV{v, es.Field(a.field).Type()}).goal(e)
	}
	fileOf := func(t types.Type) int {
		q, ok := isStruct(t)
		if !ok {
			return -1
		}
		for i := 0; i < q.NumFields(); i++ {
			if q.Field(i).Name() == "file" {
				return i
			}
		}
		return -1
	}
	if ef, rf := fileOf(k.elem), fileOf(s.d.typ); ef >= 0 && rf >= 0 {
		ob("it belongs to the same document", c.eq(x.peekVal(st, x.loadField(st, k.elem, loc, ef)), s.val(st, rf)))
	}
	if dec != nil {
		if dec.loc == nil {
			ob("it is the decoded element", c.fals())
			return
		}
		ob("it is the decoded element", c.eq(dec.loc, loc))
		for i := 0; i < es.NumFields(); i++ {
			f := es.Field(i)
			if !f.Exported() || s.noCompare(f) || dec.snap == nil {
				continue
			}
			v := x.peekVal(st, x.loadField(st, k.elem, loc, i))
			w := x.field(k.elem, dec.snap, i)
			if v == w {
				continue
			}
			g := c.eq(v, w)
			if a, ok := attOf[i]; ok && x.cs.ByParent[tyName(k.elem)+"."+f.Name()] {
				g = att(a, v)
			} else if ok {
				g = c.or(g, att(a, v))
			}
			ob("what was decoded into "+f.Name()+" stays", g)
		}
		return
	}
	if len(ed.kids) > 0 || ed.text >= 0 {
		ob("its content is decoded", c.fals())
		return
	}
	for i := 0; i < es.NumFields(); i++ {
		f := es.Field(i)
		a, isAtt := attOf[i]
		if !isAtt || a.ns || s.skips(k, a.name) {
			continue
		}
		v := x.peekVal(st, x.loadField(st, k.elem, loc, i))
		ob("attribute "+a.name, att(a, v))
		_ = f
	}
}

// end: success is reported only when the element was consumed up to its end.
func (s *schemaCheck) end(st *State, rs []Val) {
	x, c := s.x, s.x.c
	err := x.peekVal(st, rs[len(rs)-1])
	good := isNilErr(x, err)
	if !x.satisfiable(good) {
		if x.prop == "C03" {
			s.blame(st)
		}
		return
	}
	x.s.push()
	defer func() { x.s.pop(); x.cur = st }()
	n := st.clone()
	x.cur = n
	x.assume(n, good)
	var last *Event
	tokens, skips := 0, 0
	for i := range n.events {
		e := &n.events[i]
		switch e.kind {
		case "token":
			tokens++
			last = e
		case "skip", "decode":
			skips++
			last = e
		}
	}
	sc := &Scope{x: x, st: n, old: x.entry, env: x.env, base: x.bases[0]}
	if x.prop == "C03" {
		switch {
		case last == nil:
			x.oblige(n, "schema", "the element is consumed up to its end", c.fals(), "")
		case last.kind == "token":
			e, _ := parseSpec("io.EOF")
			x.oblige(n, "schema", "the element is consumed up to its end", c.eq(last.err, sc.term(e)), "")
		default:
			x.oblige(n, "schema", "the element is consumed up to its end", c.and(c.boolT(tokens == 0 && skips == 1), isNilErr(x, last.err)), "")
		}
		return
	}
	// a list collected in a variable is stored
	t, _ := isStruct(s.d.typ)
	seen := map[int]bool{}
	for _, k := range s.d.kids {
		if seen[k.field] || (k.form != "any" && k.form != "list" && k.form != "vals") {
			continue
		}
		seen[k.field] = true
		v := s.val(n, k.field)
		for _, g := range sortedKeys(n.ghost) {
			l := n.ghost[g]
			if strings.HasPrefix(g, "list:") && l.sort == x.sort(t.Field(k.field).Type()) {
				x.oblige(n, "schema", "the collected list is stored in "+t.Field(k.field).Name(), c.eq(v, l), "")
			}
		}
	}
}

// blame: an error is returned only when reading failed or a modelled value was rejected.
func (s *schemaCheck) blame(st *State) {
	x, c := s.x, s.x.c
	x.s.push()
	n := st.clone()
	x.cur = n
	defer func() { x.s.pop(); x.cur = st }()
	known := c.fals()
	att := types.Type(nil)
	for i := range n.events {
		e := &n.events[i]
		if e.err == nil {
			continue
		}
		bad := c.not(isNilErr(x, e.err))
		if (e.kind == "call" || e.kind == "num") && len(e.args) == 1 && e.args[0] != nil {
			// a rejected attribute value must be one of a modelled attribute
			v := e.args[0]
			if len(v.args) == 1 && v.args[0].op == "seq.nth" && v.args[0].args[0] == x.startAttrs() {
				if att == nil {
					att = x.xmlType("Attr")
				}
				as, _ := isStruct(att)
				l := x.field(as.Field(0).Type(), x.field(att, v.args[0], 0), 1)
				ok := c.fals()
				for _, a := range s.d.attrs {
					if a.num {
						ok = c.or(ok, c.eq(l, c.strLit(a.name)))
					}
				}
				bad = c.and(bad, ok)
			}
		}
		known = c.or(known, bad)
	}
	x.oblige(n, "schema", "an error is returned only for failed input or a modelled value that was rejected", known, "")
}

func (x *Eng) startAttrs() *T {
	tv, ok := x.env["start"]
	if !ok {
		return nil
	}
	st := tv.t
	s, ok := isStruct(st)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Attr" {
			return x.field(st, x.peekVal(x.cur, tv.v), i)
		}
	}
	return nil
}

// passing reports whether the iteration looks into a wrapper element: those are not covered here.
func (s *schemaCheck) passing(st *State, lc *LoopCtx, tok *Event) bool {
	x, c := s.x, s.x.c
	toks := []*Event{tok}
	for _, o := range st.loops {
		if o == lc {
			break
		}
		for i := min(o.evMark, len(st.events)); i < min(lc.evMark, len(st.events)); i++ {
			if st.events[i].kind == "token" {
				toks = append(toks, &st.events[i])
			}
		}
	}
	stt := x.xmlType("StartElement")
	ns, _ := isStruct(stt)
	for _, t := range toks {
		local := x.field(ns.Field(0).Type(), x.field(stt, x.unbox(stt, t.tok), 0), 1)
		for _, n := range x.cs.Passes[s.d.typ.Obj().Name()] {
			if x.valid(c.and(c.eq(x.itag(t.tok), x.tag(stt)), c.eq(local, c.strLit(n)))) {
				return true
			}
		}
	}
	return false
}

// skips: attributes of a child the decoder is known not to read (recorded as limitations in DESIGN.md).
func (s *schemaCheck) skips(k decKid, att string) bool {
	return s.d.typ.Obj().Name() == "Run" && k.name == "tab"
}

// tyName is the bare name of a named type.
func tyName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}
