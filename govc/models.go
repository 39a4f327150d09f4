package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Refl is a reflect.Value, reflect.Type or bound method.
type Refl struct {
	kind string // iface, struct, field, type, method, invalid
	iv   *T     // iface: the interface value
	typ  types.Type
	loc  *T
	key  string
	fn   *ssa.Function
	recv Val
}

func (x *Eng) reflTypeString(st *State, r *Refl) *T {
	return x.typeStr(x.itag(r.iv))
}

// typeStr is the name reflect gives to the dynamic type with this tag.
func (x *Eng) typeStr(tag *T) *T {
	c := x.c
	r := c.fn("typestr", "String", tag)
	if v, ok := tag.isNum(); ok {
		if t, ok := x.tagType[int(v.Int64())]; ok {
			return c.strLit(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
		}
	}
	return r
}

// modelled gives a meaning to functions of the package whose bodies use unsafe.
func (x *Eng) modelled(st *State, key string, args []Val, inst ssa.Instruction) ([]Val, bool) {
	switch key {
	case "BytesToString", "StringToBytes":
		x.assumption(key + " shares the bytes unchanged (unsafe conversion)")
		return []Val{x.freeze(st, args[0])}, true
	}
	return nil, false
}

func (x *Eng) noErr() *T { return x.zeroSort("Iface") }

// str models -----------------------------------------------------------

func (x *Eng) itoa(v *T) *T {
	c := x.c
	if n, ok := v.isNum(); ok {
		return c.strLit(n.String())
	}
	r := c.fn("itoa", "String", v)
	back := c.fn("atoi_val", "Int", r)
	c.factOn(r, c.eq(back, v))
	c.factOn(r, c.fn("atoi_ok", "Bool", r))
	nn := c.cmp(">=", v, c.int(0))
	c.factOn(r, c.implies(nn, c.fn("atou_ok", "Bool", r)))
	c.factOn(r, c.implies(nn, c.eq(c.fn("atou_val", "Int", r), v)))
	return r
}

func (x *Eng) external(st *State, f *Frame, reg ssa.Value, fn *ssa.Function, args []Val, call *ssa.CallCommon, inst ssa.Instruction, fin func(...Val) bool) bool {
	c := x.c
	name := fn.String()
	str := func(i int) *T { return x.peek(st, args[i]) }
	errOr := func(okT *T) *T { // error value that is nil exactly when okT
		e := x.freshErr(st, "err")
		x.assume(st, c.eq(c.eq(x.itag(e), c.int(0)), okT))
		return e
	}
	trust := func() { x.assumption("library contract: " + name) }
	switch name {
	// --- strconv
	case "strconv.Itoa":
		trust()
		return fin(x.itoa(str(0)))
	case "strconv.Atoi", "strconv.ParseInt":
		trust()
		s := str(0)
		ok := c.fn("atoi_ok", "Bool", s)
		v := c.fn("atoi_val", "Int", s)
		x.typed(v, types.Typ[types.Int64], Stamp{})
		e := errOr(ok)
		x.note(st, Event{kind: "num", err: e, args: []*T{s}})
		// on a syntax error the value is zero, on overflow the nearest bound: left open
		o := c.newSym("atoi", "Int")
		x.typed(o, types.Typ[types.Int64], Stamp{})
		return fin(c.ite(ok, v, o), e)
	case "strconv.ParseUint":
		trust()
		s := str(0)
		ok := c.fn("atou_ok", "Bool", s)
		v := c.fn("atou_val", "Int", s)
		x.typed(v, types.Typ[types.Uint64], Stamp{})
		e := errOr(ok)
		o := c.newSym("atou", "Int")
		x.typed(o, types.Typ[types.Uint64], Stamp{})
		return fin(c.ite(ok, v, o), e)
	case "strconv.ParseFloat":
		trust()
		s := str(0)
		ok := c.fn("atof_ok", "Bool", s)
		v := c.fn("atof_val", "F64", s)
		e := errOr(ok)
		o := c.newSym("atof", "F64")
		return fin(c.ite(ok, v, o), e)
	case "fmt.Sscanf":
		return x.sscanf(st, f, reg, args, inst, fin)
	// --- strings
	case "strings.HasPrefix":
		trust()
		return fin(x.hasPrefix(str(0), str(1)))
	case "strings.HasSuffix":
		trust()
		if str(0).isStr() && str(1).isStr() {
			return fin(c.boolT(strings.HasSuffix(str(0).strVal(), str(1).strVal())))
		}
		return fin(c.mk("Bool", "str.suffixof", str(1), str(0)))
	case "strings.LastIndex", "strings.Index":
		trust()
		r := c.fn(sanitize(name), "Int", str(0), str(1))
		l0, l1 := c.length(str(0)), c.length(str(1))
		c.factOn(r, c.cmp(">=", r, c.int(-1)))
		c.factOn(r, c.cmp("<=", c.arith("+", r, l1), c.ite(c.cmp(">=", r, c.int(0)), l0, c.arith("-", l1, c.int(1)))))
		c.factOn(r, c.implies(c.cmp(">=", r, c.int(0)), c.eq(c.extract(str(0), r, l1), str(1))))
		return fin(r)
	case "strings.Split":
		trust()
		r := c.fn("strings_Split", "(Seq String)", str(0), str(1))
		c.stamps[r.id] = Stamp{}
		l := c.length(r)
		c.factOn(l, c.implies(c.not(c.eq(str(1), c.strLit(""))), c.cmp(">=", l, c.int(1))))
		x.splitFacts(st, r, str(0), str(1))
		return fin(r)
	// --- strings.Builder
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		l := args[0].(*T)
		k := x.opaqueKey("strings.Builder")
		old := x.load(st, k, l)
		s := str(1)
		if s.sort == "Int" {
			if n, ok := s.isNum(); ok {
				s = c.strLit(string([]byte{byte(n.Int64())}))
			} else {
				s = c.mk("String", "str.from_code", s)
			}
		}
		x.store(st, k, l, c.concat(old, s), inst)
		if strings.HasSuffix(name, "WriteByte") {
			return fin(x.noErr())
		}
		return fin(c.length(s), x.noErr())
	case "(*strings.Builder).String":
		return fin(x.load(st, x.opaqueKey("strings.Builder"), args[0].(*T)))
	// --- locks and atomics
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		return x.lock(st, args[0], strings.HasSuffix(name, ".Lock"), inst, fin)
	case "sync/atomic.AddUintptr", "sync/atomic.AddUint64", "sync/atomic.AddInt64", "sync/atomic.AddUint32", "sync/atomic.AddInt32":
		a := args[0].(*Addr)
		old := x.loadAddr(st, a).(*T)
		nv := x.wrap(st, c.arith("+", old, str(1)), a.typ)
		x.store(st, a.key, a.loc, nv, inst)
		x.assumption("library contract: sync/atomic operations are atomic")
		return fin(nv)
	case "sync/atomic.LoadUintptr":
		return fin(x.loadAddr(st, args[0].(*Addr)))
	// --- errors
	case "errors.New", "fmt.Errorf":
		trust()
		l := x.newObj(st)
		return fin(c.mk("Iface", "mki", x.namedTag("*errors.errorString"), l))
	// --- hashes
	case "crypto/md5.Sum":
		trust()
		r := c.fn("md5", "String", str(0))
		c.factOn(r, c.eq(c.length(r), c.int(16)))
		return fin(r)
	case "encoding/hex.EncodeToString":
		trust()
		return fin(c.fn("hex", "String", str(0)))
	case "(*regexp.Regexp).MatchString":
		trust()
		return fin(c.fn("rematch", "Bool", x.freeze(st, args[0]), str(1)))
	// --- readers
	case "bytes.NewReader", "strings.NewReader":
		trust()
		l := x.newObj(st)
		x.store(st, x.opaqueKey("unread"), l, str(0), inst)
		return fin(l)
	case "os.ReadFile":
		e := x.freshErr(st, "readErr")
		x.note(st, Event{kind: "read", err: e})
		d := c.fn("filedata", "String", str(0))
		return fin(d, e)
	case "io.ReadAll":
		iv := x.freeze(st, args[0])
		e := x.freshErr(st, "readErr")
		d := c.fn("contents", "String", x.iloc(iv))
		x.note(st, Event{kind: "read", tok: iv, err: e})
		return fin(d, e)
	case "github.com/fumiama/imgsz.DecodeSize":
		return x.decodeSize(st, reg, args, fin)
	// --- zip
	case "archive/zip.NewWriter":
		trust()
		l := x.newObj(st)
		x.store(st, x.opaqueKey("archive"), x.iloc(x.freeze(st, args[0])), l, inst)
		return fin(l)
	case "archive/zip.NewReader":
		e := x.freshErr(st, "zipErr")
		r := x.freshOf(st, "zipr", fn.Signature.Results().At(0).Type())
		ok := c.eq(x.itag(e), c.int(0))
		x.assume(st, c.implies(ok, c.not(c.eq(x.oid(r), c.int(-1)))))
		x.assumption("library contract: zip.NewReader returns a reader without nil entries, or an error")
		x.note(st, Event{kind: "zipopen", err: e})
		sc := &Scope{x: x, st: st, old: st, env: map[string]TV{"z": {r, fn.Signature.Results().At(0).Type()}}}
		q, _ := parseSpec("forall(i, 0, len(z.File), z.File[i] != nil)")
		sc.assumeG(ok, q)
		return fin(r, e)
	case "(*archive/zip.File).Open":
		trust()
		e := x.freshErr(st, "openErr")
		rc := c.newSym("rc", "Iface")
		x.newEpoch(st)
		x.stampAs(rc, st.stamp())
		x.assume(st, c.implies(c.eq(x.itag(e), c.int(0)), c.and(c.not(c.eq(x.itag(rc), c.int(0))), c.not(c.eq(x.oid(x.iloc(rc)), c.int(-1))))))
		x.assume(st, c.implies(c.eq(x.itag(e), c.int(0)), c.eq(c.fn("contents", "String", x.iloc(rc)), c.fn("filecontents", "String", args[0].(*T)))))
		x.note(st, Event{kind: "open", loc: args[0].(*T), tok: rc, err: e})
		return fin(rc, e)
	case "(*archive/zip.Writer).Create":
		trust()
		zw := args[0].(*T)
		e := x.freshErr(st, "createErr")
		ok := c.eq(x.itag(e), c.int(0))
		w := x.foreignObj(st, ok)
		x.note(st, Event{kind: "create", loc: zw, tok: w, err: e, args: []*T{str(1)}})
		// the archive now has one more entry of this name; writing it needs an archive not yet finished
		im := x.typ("map[string]int").(*types.Map)
		_, n := x.mapLookup(st, im, zw, str(1))
		has, _ := x.mapLookup(st, im, zw, str(1))
		x.mapUpdate(st, im, zw, str(1), c.ite(has, c.add(n, 1), c.int(1)), inst)
		x.mapUpdate(st, x.typ("map[string]io.Writer").(*types.Map), zw, str(1), w, inst)
		x.store(st, x.opaqueKey("finished"), zw, c.fals(), inst)
		return fin(w, e)
	case "(*archive/zip.Writer).Close":
		trust()
		e := x.freshErr(st, "closeErr")
		x.note(st, Event{kind: "zipclose", loc: args[0].(*T), err: e})
		x.store(st, x.opaqueKey("finished"), args[0].(*T), c.eq(x.itag(e), c.int(0)), inst)
		return fin(e)
	case "io.Copy":
		return x.ioCopy(st, f, reg, args, call, inst)
	case "io.WriteString":
		trust()
		e := x.freshErr(st, "writeErr")
		x.note(st, Event{kind: "write", err: e, args: []*T{x.freeze(st, args[0]), str(1)}})
		x.written(st, x.freeze(st, args[0]), str(1), e, inst)
		n := c.newSym("n", "Int")
		x.typed(n, types.Typ[types.Int64], Stamp{})
		return fin(n, e)
	// --- xml
	case "encoding/xml.NewEncoder":
		l := x.newObj(st)
		w := x.freeze(st, args[0])
		x.store(st, x.opaqueKey("sink"), l, w, inst)
		x.note(st, Event{kind: "encoder", loc: l, args: []*T{w}})
		return fin(l)
	case "(*encoding/xml.Encoder).Encode":
		x.assumption("library contract: (*xml.Encoder).Encode writes the encoding of its argument to the writer the encoder was made for, or returns an error")
		e := x.freshErr(st, "encErr")
		v := x.freeze(st, args[1])
		x.note(st, Event{kind: "encode", loc: args[0].(*T), err: e, args: []*T{v}})
		x.written(st, x.load(st, x.opaqueKey("sink"), args[0].(*T)), c.fn("xmlof", "String", v), e, inst)
		return fin(e)
	case "(*encoding/xml.Encoder).Flush", "(*encoding/xml.Encoder).Close": // Encode has already flushed
		e := x.freshErr(st, "flushErr")
		x.note(st, Event{kind: "flush", loc: args[0].(*T), err: e})
		return fin(e)
	case "(*archive/zip.Writer).Flush":
		e := x.freshErr(st, "flushErr")
		x.note(st, Event{kind: "flush", loc: args[0].(*T), err: e})
		return fin(e)
	case "encoding/xml.NewDecoder":
		l := x.newObj(st)
		x.note(st, Event{kind: "decoder", loc: l, args: []*T{x.freeze(st, args[0])}})
		return fin(l)
	case "(*encoding/xml.Decoder).Token":
		return x.xmlToken(st, args, inst, fin)
	case "(*encoding/xml.Decoder).Skip":
		trust()
		e := x.freshErr(st, "skipErr")
		x.note(st, Event{kind: "skip", dec: args[0].(*T), err: e, name: fmt.Sprint(e.op)})
		return fin(e)
	case "(*encoding/xml.Decoder).DecodeElement", "(*encoding/xml.Decoder).Decode":
		return x.xmlDecode(st, name, args, inst, fin)
	// --- reflect
	case "reflect.ValueOf":
		if iv, ok := args[0].(*T); ok {
			return fin(&Refl{kind: "iface", iv: iv})
		}
	case "(reflect.Value).Type":
		r := args[0].(*Refl)
		if r.kind == "iface" {
			x.oblige(st, "panic", "Type of a nil interface in "+fnKey(inst.Parent()), c.not(c.eq(x.itag(r.iv), c.int(0))), x.pos(inst))
			if dead(st) {
				return false
			}
			return fin(&Refl{kind: "type", iv: r.iv})
		}
	case "(reflect.Value).Elem", "(reflect.Value).NumField", "(reflect.Value).Field", "(reflect.Value).IsZero", "(reflect.Value).Equal",
		"(reflect.Value).SetString", "(reflect.Value).FieldByName", "(reflect.Value).IsValid", "(reflect.Value).MethodByName", "(reflect.Value).Call":
		return x.reflectOp(st, f, reg, name, args, call, inst, fin)
	}
	// anything else: arbitrary result, no effect on the objects of this package
	x.assumption("external function " + name + " has no effect on the objects of this package; its result is arbitrary")
	x.newEpoch(st)
	var rs []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rs = append(rs, x.freshOf(st, "r_"+fn.Name(), fn.Signature.Results().At(i).Type()))
	}
	return fin(rs...)
}

func (x *Eng) hasPrefix(s, p *T) *T {
	c := x.c
	if p.isStr() {
		lit := p.strVal()
		if lit == "" {
			return c.tru()
		}
		if s.isStr() {
			return c.boolT(strings.HasPrefix(s.strVal(), lit))
		}
		if s.op == "str.++" && s.args[0].isStr() {
			h := s.args[0].strVal()
			if strings.HasPrefix(h, lit) {
				return c.tru()
			}
			if len(h) >= len(lit) {
				return c.fals()
			}
		}
	}
	return c.mk("Bool", "str.prefixof", p, s)
}

// splitFacts: joining the pieces with the separator gives the string back, and no piece contains the
// separator, nor a character that is not in the string.
func (x *Eng) splitFacts(st *State, r, s, sep *T) {
	c := x.c
	c.factOn(r, c.cmp("<=", c.length(r), c.int(1<<60+1)))
	if d, ok := x.cs.Defs["sepJoin"]; ok {
		sc := &Scope{x: x, st: st, old: st, env: map[string]TV{}}
		strT := types.Typ[types.String]
		c.factOn(r, c.eq(x.fold(sc, d, r, nil, []TV{{sep, strT}}, strT, strT), s))
	}
	if sep.isStr() && len(sep.strVal()) > 0 {
		x.addRule(st, []*T{r}, "pieces", func(st *State, i *T) {
			e := c.nth(r, i)
			in := c.and(c.cmp("<=", c.int(0), i), c.cmp("<", i, c.length(r)))
			has := func(s, l *T) *T { return c.fn("mentions", "Bool", s, l) }
			x.assume(st, c.implies(in, c.not(has(e, sep))))
			for _, l := range []string{"\n", "\t"} {
				if l != sep.strVal() {
					x.assume(st, c.implies(c.and(in, c.not(has(s, c.strLit(l)))), c.not(has(e, c.strLit(l)))))
				}
			}
		})
	}
}

func (x *Eng) lock(st *State, p Val, acquire bool, inst ssa.Instruction, fin func(...Val) bool) bool {
	c := x.c
	l, ok := p.(*T)
	if !ok {
		panic(unsupported("mutex address"))
	}
	k := fmt.Sprintf("lock:%d", l.id)
	if acquire {
		x.oblige(st, "lock", "not held at Lock in "+fnKey(inst.Parent()), c.boolT(st.ghost[k] == nil), x.pos(inst))
		st.ghost[k] = l
		x.note(st, Event{kind: "lock", loc: l})
		x.interfere(st, l)
	} else {
		x.oblige(st, "lock", "held at Unlock in "+fnKey(inst.Parent()), c.boolT(st.ghost[k] != nil), x.pos(inst))
		delete(st.ghost, k)
		x.note(st, Event{kind: "unlock", loc: l})
		for _, g := range x.guards {
			if g.mu == l {
				st.atUnlock = st.clone()
			}
		}
	}
	if dead(st) {
		return false
	}
	return fin()
}

func (x *Eng) sscanf(st *State, f *Frame, reg ssa.Value, args []Val, inst ssa.Instruction, fin func(...Val) bool) bool {
	c := x.c
	x.assumption("library contract: fmt.Sscanf(s, \"%d\", &v) stores the leading integer of s")
	s, format := x.peek(st, args[0]), x.peek(st, args[1])
	ok := c.fn("scan_ok", "Bool", s, format)
	e := x.freshErr(st, "scanErr")
	x.assume(st, c.eq(c.eq(x.itag(e), c.int(0)), ok))
	vs := x.peek(st, args[2])
	if es, cok := c.concreteSeq(vs); cok && len(es) == 1 {
		l := x.iloc(es[0])
		// the target is an integer cell
		if v, num := x.itag(es[0]).isNum(); num {
			if t, okk := x.tagType[int(v.Int64())]; okk {
				et := under(t).(*types.Pointer).Elem()
				k := x.cellKey(et)
				old := x.load(st, k, l)
				nv := c.fn("scan_val", "Int", s, format)
				x.typed(nv, et, Stamp{})
				x.store(st, k, l, c.ite(ok, nv, old), inst)
				n := c.newSym("n", "Int")
				x.typed(n, types.Typ[types.Int], Stamp{})
				return fin(n, e)
			}
		}
	}
	panic(unsupported("Sscanf"))
}

func (x *Eng) decodeSize(st *State, reg ssa.Value, args []Val, fin func(...Val) bool) bool {
	c := x.c
	x.assumption("library contract: imgsz.DecodeSize reports sizes between 0 and 2^32")
	iv := x.freeze(st, args[0])
	data := x.load(st, x.opaqueKey("unread"), x.iloc(iv))
	sig := reg.(*ssa.Call).Call.StaticCallee().Signature
	szT := sig.Results().At(0).Type()
	w := c.fn("img_w", "Int", data)
	h := c.fn("img_h", "Int", data)
	ok := c.fn("img_ok", "Bool", data)
	for _, v := range []*T{w, h} {
		c.factOn(v, c.and(c.cmp("<=", c.int(0), v), c.cmp("<=", v, c.int(1<<32))))
	}
	e := x.freshErr(st, "imgErr")
	x.assume(st, c.eq(c.eq(x.itag(e), c.int(0)), ok))
	stt, _ := isStruct(szT)
	var fs []*T
	for i := 0; i < stt.NumFields(); i++ {
		switch stt.Field(i).Name() {
		case "Width":
			fs = append(fs, w)
		case "Height":
			fs = append(fs, h)
		default:
			fs = append(fs, x.freshOf(st, "sz", stt.Field(i).Type()))
		}
	}
	return fin(x.mkStruct(szT, fs), c.fn("img_fmt", "String", data), e)
}

func (x *Eng) modelOpen(st *State, f *Frame, iv *T, args []Val, inst ssa.Instruction, fin func(...Val) bool) bool {
	c := x.c
	x.assumption("library contract: fs.FS.Open")
	e := x.freshErr(st, "openErr")
	fl := x.foreignObj(st, c.eq(x.itag(e), c.int(0)))
	nm := x.peek(st, args[0])
	x.store(st, x.opaqueKey("unread"), x.iloc(fl), c.fn("fscontents", "String", iv, nm), inst)
	x.note(st, Event{kind: "open", tok: fl, err: e, args: []*T{nm}})
	return fin(fl, e)
}

// foreignObj is a new object of a type from another package (nil unless ok).
func (x *Eng) foreignObj(st *State, ok *T) *T {
	c := x.c
	l := x.newObj(st)
	t := c.newSym("tag", "Int")
	c.factOn(t, c.cmp(">=", t, c.int(0)))
	x.assume(st, c.implies(ok, c.and(c.not(c.eq(t, c.int(0))), x.foreign(t))))
	return c.mk("Iface", "mki", t, l)
}

// foreign: the type with this tag is declared in another package.
func (x *Eng) foreign(tag *T) *T {
	if v, ok := tag.isNum(); ok {
		t, ok := x.tagType[int(v.Int64())]
		if !ok {
			return x.c.fals()
		}
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		return x.c.boolT(ok && n.Obj().Pkg() != nil && n.Obj().Pkg() != x.p.tpkg)
	}
	if tag.op == "ite" {
		return x.c.ite(tag.args[0], x.foreign(tag.args[1]), x.foreign(tag.args[2]))
	}
	r := x.c.fn("foreign", "Bool", tag)
	if len(x.c.facts[r.id]) == 0 {
		for _, nm := range x.p.tpkg.Scope().Names() { // types of this package that can be readers or writers
			tn, ok := x.p.tpkg.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				rd, _, _ := types.LookupFieldOrMethod(t, false, x.p.tpkg, "Read")
				wr, _, _ := types.LookupFieldOrMethod(t, false, x.p.tpkg, "Write")
				if rd != nil || wr != nil {
					x.c.factOn(r, x.c.implies(r, x.c.not(x.c.eq(tag, x.tag(t)))))
				}
			}
		}
	}
	return r
}

// written: s was appended to what has been written to w, or an unknown part of it when the write failed.
func (x *Eng) written(st *State, w, s, err *T, inst ssa.Instruction) {
	c := x.c
	k := x.opaqueKey("written")
	l := x.iloc(w)
	x.store(st, k, l, c.ite(c.eq(x.itag(err), c.int(0)), c.concat(x.load(st, k, l), s), c.newSym("partly", "String")), inst)
}

// ioCopy copies everything readable from the source, unless it is of a type that writes itself.
func (x *Eng) ioCopy(st *State, f *Frame, reg ssa.Value, args []Val, call *ssa.CallCommon, inst ssa.Instruction) bool {
	c := x.c
	x.assumption("library contract: io.Copy writes what is left to read, or calls the WriteTo method of a source that has one")
	w, r := x.freeze(st, args[0]), x.freeze(st, args[1])
	tag := x.itag(r)
	var alts []alt
	rest := c.tru()
	for _, nm := range x.p.tpkg.Scope().Names() {
		tn, ok := x.p.tpkg.Scope().Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			var m *types.Func
			ms := types.NewMethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if fn, ok := ms.At(i).Obj().(*types.Func); ok && fn.Name() == "WriteTo" && fn.Pkg() == x.p.tpkg {
					m = fn
				}
			}
			rd, _, _ := types.LookupFieldOrMethod(t, false, x.p.tpkg, "Read")
			if m == nil || rd == nil || types.IsInterface(t) {
				continue
			}
			sig := m.Type().(*types.Signature)
			if !types.Identical(sig.Recv().Type(), t) {
				if p, ok := t.(*types.Pointer); !ok || !types.Identical(sig.Recv().Type(), p.Elem()) {
					continue
				}
				continue // a pointer to a type with value methods
			}
			e := c.eq(tag, x.tag(t))
			rest = c.and(rest, c.not(e))
			x.foreign(tag)
			t := t
			alts = append(alts, alt{cond: e, desc: "source is " + typeName(t), do: func(st *State) bool {
				fn := x.p.prog.FuncValue(m)
				return x.callFn(st, st.top(), reg, &Closure{fn: fn}, []Val{x.unbox(t, r), w}, call, inst, func(rs ...Val) bool {
					return x.ret(st, reg, rs...)
				})
			}})
		}
	}
	alts = append(alts, alt{cond: rest, desc: "source is read", do: func(st *State) bool {
		e := x.freshErr(st, "copyErr")
		x.note(st, Event{kind: "copy", err: e, args: []*T{w, r}})
		x.written(st, w, x.load(st, x.opaqueKey("unread"), x.iloc(r)), e, inst)
		n := c.newSym("n", "Int")
		x.typed(n, types.Typ[types.Int64], Stamp{})
		return x.ret(st, reg, n, e)
	}})
	return x.fork(st, reg, alts...)
}

// xml tokens -----------------------------------------------------------

func (x *Eng) xmlType(name string) types.Type {
	for _, p := range x.p.tpkg.Imports() {
		if p.Path() == "encoding/xml" {
			return p.Scope().Lookup(name).Type()
		}
	}
	panic(unsupported("encoding/xml is not imported"))
}

func (x *Eng) xmlToken(st *State, args []Val, inst ssa.Instruction, fin func(...Val) bool) bool {
	c := x.c
	x.assumption("library contract: xml.Decoder.Token yields the next token, io.EOF at the end of the element being decoded")
	e := x.freshErr(st, "tokErr")
	t := c.newSym("tok", "Iface")
	x.stampAs(t, st.stamp())
	ok := c.eq(x.itag(e), c.int(0))
	var tags []*T
	for _, n := range []string{"StartElement", "EndElement", "CharData", "Comment", "ProcInst", "Directive"} {
		tags = append(tags, c.eq(x.itag(t), x.tag(x.xmlType(n))))
	}
	x.assume(st, c.implies(ok, c.or(tags...)))
	x.assume(st, c.implies(c.not(ok), c.eq(t, x.zeroSort("Iface"))))
	if d := x.cs.Defs["written"]; d != nil && x.prop == "C01" {
		x.assumption("elements are as the library writes them: no attribute twice, no anchor on a link")
		stt := x.xmlType("StartElement")
		sc := &Scope{x: x, st: st, old: st, env: map[string]TV{"tt": {x.unbox(stt, t), stt}}}
		e, _ := parseSpec("written(tt)")
		sc.assumeG(c.eq(x.itag(t), x.tag(stt)), e)
	}
	x.note(st, Event{kind: "token", tok: t, err: e, ok: ok, dec: x.peek(st, args[0])})
	return fin(t, e)
}

func (x *Eng) xmlDecode(st *State, name string, args []Val, inst ssa.Instruction, fin func(...Val) bool) bool {
	c := x.c
	x.assumption("library contract: xml.Decoder.DecodeElement consumes the element and changes nothing but the mapped fields of its target")
	ev := Event{kind: "decode", dec: x.peek(st, args[0])}
	if strings.HasSuffix(name, "DecodeElement") {
		if sl, ok := args[2].(*T); ok && sl != x.nilLoc() {
			ev.tt = x.loadObj(st, x.xmlType("StartElement"), sl)
		}
	}
	ev.err = x.freshErr(st, "decErr")
	switch v := args[1].(type) {
	case *AddrIface:
		a := v.a
		nv := x.freshOf(st, "dec", a.typ)
		if a.kind != "field" {
			panic(unsupported("decode into " + a.kind))
		}
		if pt, ok := under(a.typ).(*types.Pointer); ok {
			if old, ok := x.loadAddr(st, a).(*T); ok && x.valid(x.nonNil(old)) {
				// an allocated target is filled in place
				x.decodeInto(st, pt.Elem(), old, inst)
				ev.loc, ev.typ = old, pt.Elem()
				if _, ok := isStruct(pt.Elem()); ok {
					ev.snap = x.loadObj(st, pt.Elem(), old)
				}
				break
			}
		}
		x.store(st, a.key, a.loc, nv, inst)
		ev.typ = a.typ
		ev.res = []*T{nv}
	case *T:
		tg, ok := x.itag(v).isNum()
		if !ok {
			panic(unsupported("decode into unknown type"))
		}
		pt, ok2 := x.tagType[int(tg.Int64())]
		if !ok2 {
			panic(unsupported("decode into unknown type"))
		}
		et := under(pt).(*types.Pointer).Elem()
		l := x.iloc(v)
		if !x.nilCheck(st, l, inst) {
			return false
		}
		x.decodeInto(st, et, l, inst)
		ev.loc, ev.typ = l, et
		if _, ok := isStruct(et); ok {
			ev.snap = x.loadObj(st, et, l)
		} else {
			ev.res = []*T{x.load(st, x.cellKey(et), l)}
		}
	}
	x.note(st, ev)
	_ = c
	return fin(ev.err)
}

// decodeInto makes the exported fields of the target arbitrary.
func (x *Eng) decodeInto(st *State, t types.Type, l *T, inst ssa.Instruction) {
	s, ok := isStruct(t)
	if !ok {
		x.store(st, x.cellKey(t), l, x.freshOf(st, "dec", t), inst)
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		fl := s.Field(i)
		if !fl.Exported() {
			continue
		}
		if _, ok := isStruct(fl.Type()); ok {
			x.decodeInto(st, fl.Type(), x.sub(l, i), inst)
			continue
		}
		x.store(st, x.fieldKey(t, i), l, x.freshOf(st, "dec_"+fl.Name(), fl.Type()), inst)
	}
}

// reflection -----------------------------------------------------------

func (x *Eng) reflectOp(st *State, f *Frame, reg ssa.Value, name string, args []Val, call *ssa.CallCommon, inst ssa.Instruction, fin func(...Val) bool) bool {
	c := x.c
	r, ok := args[0].(*Refl)
	if !ok {
		panic(unsupported("reflect"))
	}
	x.assumption("library contract: reflect reads and calls what it names")
	must := func(t *T, what string) bool {
		x.oblige(st, "panic", "reflect "+what+" in "+fnKey(inst.Parent()), t, x.pos(inst))
		return !dead(st)
	}
	switch strings.TrimPrefix(name, "(reflect.Value).") {
	case "Elem":
		var t types.Type
		var l *T
		switch r.kind {
		case "iface":
			tg, ok := x.itag(r.iv).isNum()
			if !ok {
				panic(unsupported("reflect Elem of unknown type"))
			}
			t = under(x.tagType[int(tg.Int64())]).(*types.Pointer).Elem()
			l = x.iloc(r.iv)
		case "field":
			p, ok := under(r.typ).(*types.Pointer)
			if !ok {
				must(c.fals(), "Elem of "+r.typ.String())
				return false
			}
			t = p.Elem()
			l = x.load(st, r.key, r.loc)
		default:
			panic(unsupported("reflect Elem of " + r.kind))
		}
		if !must(x.nonNil(l), "Elem of nil") {
			return false
		}
		return fin(&Refl{kind: "struct", typ: t, loc: l})
	case "NumField":
		if r.kind != "struct" {
			if !must(c.fals(), "NumField of "+r.kind) {
				return false
			}
		}
		s, _ := isStruct(r.typ)
		return fin(c.int(int64(s.NumFields())))
	case "Field":
		i, ok := args[1].(*T).isNum()
		if !ok || r.kind != "struct" {
			panic(unsupported("reflect Field"))
		}
		s, _ := isStruct(r.typ)
		if i.Sign() < 0 || int(i.Int64()) >= s.NumFields() {
			must(c.fals(), "Field out of range")
			return false
		}
		return fin(x.reflField(r, int(i.Int64())))
	case "FieldByName":
		n := x.peek(st, args[1])
		s, _ := isStruct(r.typ)
		var alts []alt
		none := c.tru()
		for i := 0; i < s.NumFields(); i++ {
			e := c.eq(n, c.strLit(s.Field(i).Name()))
			none = c.and(none, c.not(e))
			alts = append(alts, alt{cond: e, desc: "field " + s.Field(i).Name(), rs: []Val{x.reflField(r, i)}})
		}
		alts = append(alts, alt{cond: none, desc: "no field", rs: []Val{&Refl{kind: "invalid"}}})
		return x.fork(st, reg, alts...)
	case "IsZero":
		if r.kind == "invalid" {
			must(c.fals(), "IsZero of an invalid value")
			return false
		}
		if r.kind != "field" {
			panic(unsupported("IsZero"))
		}
		v := x.reflVal(st, r)
		return fin(c.eq(v, x.zero(r.typ)))
	case "IsValid":
		return fin(c.boolT(r.kind != "invalid"))
	case "Equal":
		q := args[1].(*Refl)
		if r.kind != "field" || q.kind != "field" || !types.Identical(r.typ, q.typ) {
			panic(unsupported("reflect Equal"))
		}
		return fin(c.eq(x.reflVal(st, r), x.reflVal(st, q)))
	case "SetString":
		if r.kind != "field" || x.sort(r.typ) != "String" {
			panic(unsupported("SetString"))
		}
		x.store(st, r.key, r.loc, x.peek(st, args[1]), inst)
		return fin()
	case "MethodByName":
		if r.kind != "iface" {
			panic(unsupported("MethodByName"))
		}
		tg, ok := x.itag(r.iv).isNum()
		if !ok {
			panic(unsupported("MethodByName of unknown type"))
		}
		t := x.tagType[int(tg.Int64())]
		n := x.peek(st, args[1])
		ms := types.NewMethodSet(t)
		var alts []alt
		none := c.tru()
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj().(*types.Func)
			if !m.Exported() {
				continue
			}
			e := c.eq(n, c.strLit(m.Name()))
			if n.op == "str.++" && n.args[0].isStr() {
				h := n.args[0].strVal()
				if !strings.HasPrefix(m.Name(), h) {
					continue
				}
				if len(n.args) == 2 {
					e = c.eq(n.args[1], c.strLit(m.Name()[len(h):]))
				}
			}
			none = c.and(none, c.not(e))
			alts = append(alts, alt{cond: e, desc: "method " + m.Name(), free: true, rs: []Val{&Refl{kind: "method", fn: x.p.prog.FuncValue(m), recv: x.iloc(r.iv), iv: r.iv, typ: t}}})
		}
		alts = append(alts, alt{cond: none, desc: "no method", rs: []Val{&Refl{kind: "invalid"}}})
		return x.fork(st, reg, alts...)
	case "Call":
		if r.kind != "method" {
			if !must(c.fals(), "Call of "+r.kind) {
				return false
			}
		}
		n := c.length(x.peek(st, args[1]))
		if !must(c.eq(n, c.int(int64(len(r.fn.Params)-1))), "Call with the wrong number of arguments") {
			return false
		}
		if len(r.fn.Params) != 1 {
			panic(unsupported("reflect Call with arguments"))
		}
		cl := &Closure{fn: r.fn}
		key := fnKey(r.fn)
		if ct := x.cs.Funcs[key]; ct != nil && !ct.Inline {
			_, ok := x.callContract(st, ct, r.fn, []Val{r.recv}, inst)
			if !ok {
				return false
			}
			return fin(x.freshOf(st, "results", call.Signature().Results().At(0).Type()))
		}
		_ = cl
		nf := x.newFrame(r.fn, f.key+"/"+fmt.Sprintf("%s@%d.%d", key, f.block.Index, f.pc))
		nf.regs[r.fn.Params[0]] = r.recv
		rt := call.Signature().Results().At(0).Type()
		nf.onRet = func(x *Eng, st *State, rs []Val) {
			x.ret(st, reg, x.freshOf(st, "results", rt))
		}
		st.frames = append(st.frames, nf)
		return true
	}
	panic(unsupported(name))
}

func (x *Eng) reflField(r *Refl, i int) *Refl {
	s, _ := isStruct(r.typ)
	ft := s.Field(i).Type()
	if _, ok := isStruct(ft); ok {
		return &Refl{kind: "field", typ: ft, loc: x.sub(r.loc, i), key: "*"}
	}
	return &Refl{kind: "field", typ: ft, loc: r.loc, key: x.fieldKey(r.typ, i)}
}

func (x *Eng) reflVal(st *State, r *Refl) *T {
	if r.key == "*" {
		return x.loadObj(st, r.typ, r.loc)
	}
	return x.load(st, r.key, r.loc)
}

// guard is a map that other goroutines change whenever they hold the mutex.
type guard struct {
	m, mu *T
	typ   *types.Map
	text  string
}

// interfere: between the last look at the map and now anything may have been stored in it.
func (x *Eng) interfere(st *State, mu *T) {
	for _, g := range x.guards {
		if g.mu != mu {
			continue
		}
		kp, kv := x.mapKeys(g.typ)
		for _, k := range []string{kp, kv} {
			for _, l := range st.loops {
				l.record(x, st, k, g.m)
			}
			x.rawStore(st, k, g.m, x.c.newSym("others", x.load(st, k, g.m).sort))
		}
		st.sections++
		st.atLock = st.clone()
	}
}

// raceCheck: the map is only touched while its mutex is held.
func (x *Eng) raceCheck(st *State, m *T, in ssa.Instruction) {
	for _, g := range x.guards {
		held := x.c.boolT(st.ghost[fmt.Sprintf("lock:%d", g.mu.id)] != nil)
		x.oblige(st, "race", "lock held at access to "+g.text, x.c.or(held, x.c.not(x.c.eq(m, g.m))), x.pos(in))
		delete(st.ghost, "dead")
	}
}
