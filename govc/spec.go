package main

// Contract language: clauses are Go expressions plus
//   a ==> b, old(e), result names, is(e,"*T"), as(e,"*T"), fresh(e), cond(c,a,b),
//   forall(i, lo, hi, body), exists(i, lo, hi, body), forallkey(k, m, body), has(m, k),
//   cat(a,b,...), seq(e,...), distinct(s), defs and folds.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Clause struct {
	AccType string // invariant {T} ...: acc stands for values of type T only
	Text    string
	Label   string
	Expr    ast.Expr
	Props   []string
	Opt     bool // invariant?: kept where it holds, not needed elsewhere
}

type EachClause struct{}

type Def struct {
	Name   string
	Params []string
	Types  []string
	Res    string
	Body   ast.Expr
	Text   string
	Fold   bool // over the first parameter, body about e (element) and i (index)
	usesI  bool
}

type Contract struct {
	Key                   string
	Params                []string
	Results               []string
	Props                 []string
	Requires              []*Clause
	Ensures               []*Clause
	Axioms                []*Clause
	Modifies              []*Clause
	Invs                  []*Clause
	Lemmas                []*Clause
	Applied, AppliedTypes []string
	Guarded               []*Clause // pairs of a map and its mutex
	Inline                bool
	Assumed               bool
	NoReturn              bool
	NoTerm                string
	UsesErrors            bool // an event("errors") clause
	Max                   int
	File                  string
	Schema                bool
	Uses                  []string
	NoFrame               bool
	Small                 map[string]bool
	Whole                 bool
	NoNilTree             bool    // assume that lists of the document tree hold no nil elements
	Decreases             *Clause // recursive: inlined at other calls, used with this measure at recursive ones
	Helper                bool    // internal: when the function is gone or has another shape, its callers are verified with its replacement inlined
}

type Contracts struct {
	Prop     string              // the property being verified, empty for all
	Dec      map[string]*decSpec // decoders of element types
	ByParent map[string]bool     // attributes read by the decoder of the enclosing element
	Passes   map[string][]string // wrapper elements the decoder of a type looks into
	Children map[string][]string // types an interface list may hold
	Funcs    map[string]*Contract
	Defs     map[string]*Def
	Order    []string
}

type TV struct {
	v Val
	t types.Type
}

var reFunc = regexp.MustCompile(`^func\s+(?:\(\s*(\w+)\s+\*?(\w+)\s*\)\s*)?([\w$]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*(?:\[([^\]]*)\])?\s*$`)
var reDef = regexp.MustCompile(`^(def|fold)\s+(\w+)\s*\(([^)]*)\)\s*(\S.*?)\s*=\s(.*)$`)

func names(s string) ([]string, []string) {
	var ns, ts []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		fs := strings.SplitN(p, " ", 2)
		ns = append(ns, fs[0])
		if len(fs) > 1 {
			ts = append(ts, strings.TrimSpace(fs[1]))
		} else {
			ts = append(ts, "")
		}
	}
	return ns, ts
}

func loadContracts(dir string) (*Contracts, error) {
	cs := &Contracts{Funcs: map[string]*Contract{}, Defs: map[string]*Def{}, Dec: map[string]*decSpec{}, Children: map[string][]string{}, Passes: map[string][]string{}, ByParent: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := cs.add(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return cs, nil
}

// add reads contracts in the //@ notation.
func (cs *Contracts) add(file, text string) error {
	{
		var cur *Contract
		lines := strings.Split(text, "\n")
		for i := 0; i < len(lines); i++ {
			l := strings.TrimSpace(lines[i])
			if !strings.HasPrefix(l, "//@") {
				continue
			}
			l = strings.TrimSpace(l[3:])
			for strings.HasSuffix(l, "\\") && i+1 < len(lines) { // continuation
				i++
				n := strings.TrimSpace(lines[i])
				n = strings.TrimSpace(strings.TrimPrefix(n, "//@"))
				l = strings.TrimSuffix(l, "\\") + " " + n
			}
			where := fmt.Sprintf("%s:%d", file, i+1)
			if l == "" {
				continue
			}
			if strings.HasPrefix(l, "func ") {
				m := reFunc.FindStringSubmatch(l)
				if m == nil {
					return fmt.Errorf("%s: bad func header %q", where, l)
				}
				ps, _ := names(m[4])
				if m[1] != "" {
					ps = append([]string{m[1]}, ps...)
				}
				rs, _ := names(m[5])
				k := m[3]
				if m[2] != "" {
					k = m[2] + "." + k
				}
				cur = &Contract{Key: k, Params: ps, Results: rs, Props: strings.Fields(m[6]), File: where}
				if cs.Funcs[k] != nil {
					return fmt.Errorf("%s: second contract for %s", where, k)
				}
				cs.Funcs[k] = cur
				cs.Order = append(cs.Order, k)
				continue
			}
			if m := reDef.FindStringSubmatch(l); m != nil {
				ns, ts := names(m[3])
				e, err := parseSpec(m[5])
				if err != nil {
					return fmt.Errorf("%s: %v", where, err)
				}
				d := &Def{Name: m[2], Params: ns, Types: ts, Res: m[4], Body: e, Text: m[5], Fold: m[1] == "fold"}
				ast.Inspect(e, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok && id.Name == "i" {
						d.usesI = true
					}
					return true
				})
				cs.Defs[m[2]] = d
				continue
			}
			if strings.HasPrefix(l, "children ") {
				fs := strings.Fields(l)
				cs.Children[fs[1]] = append(cs.Children[fs[1]], fs[2:]...)
				continue
			}
			if strings.HasPrefix(l, "byparent ") {
				for _, n := range strings.Fields(l)[1:] {
					cs.ByParent[n] = true
				}
				continue
			}
			if strings.HasPrefix(l, "passes ") {
				fs := strings.Fields(l)
				cs.Passes[fs[1]] = append(cs.Passes[fs[1]], fs[2:]...)
				continue
			}
			if cur == nil {
				return fmt.Errorf("%s: clause outside a function", where)
			}
			kw, rest, _ := strings.Cut(l, " ")
			rest = strings.TrimSpace(rest)
			cl := &Clause{Text: rest}
			if kw == "ensures" && strings.Contains(rest, "event(\"errors\"") {
				cur.UsesErrors = true
			}
			if kw == "invariant?" {
				kw, cl.Opt = "invariant", true
			}
			if kw == "requires" || kw == "ensures" || kw == "invariant" || kw == "axiom" {
				if strings.HasPrefix(rest, "[") {
					lb, r, _ := strings.Cut(rest[1:], "]")
					cl.Props = strings.Fields(lb)
					rest = strings.TrimSpace(r)
					cl.Text = rest
				}
				if kw == "invariant" && strings.HasPrefix(rest, "{") {
					ty, r, _ := strings.Cut(rest[1:], "} ")
					cl.AccType = ty
					rest = strings.TrimSpace(r)
				}
				e, err := parseSpec(rest)
				if err != nil {
					return fmt.Errorf("%s: %v", where, err)
				}
				cl.Expr = e
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, cl)
			case "ensures":
				cur.Ensures = append(cur.Ensures, cl)
			case "axiom":
				cur.Axioms = append(cur.Axioms, cl)
			case "invariant":
				cur.Invs = append(cur.Invs, cl)
			case "decreases":
				e, err := parseSpec(rest)
				if err != nil {
					return fmt.Errorf("%s: %v", where, err)
				}
				cl.Expr = e
				cur.Decreases = cl
			case "modifies":
				for _, p := range splitTop(rest) {
					e, err := parseSpec(p)
					if err != nil {
						return fmt.Errorf("%s: %v", where, err)
					}
					cur.Modifies = append(cur.Modifies, &Clause{Text: p, Expr: e})
				}
			case "applied": // the function returns a function, the postconditions are about its calls
				cur.Applied, cur.AppliedTypes = names(rest)
			case "guarded": // guarded m by mu: other goroutines change m whenever they hold mu
				if strings.HasPrefix(rest, "[") {
					lb, r, _ := strings.Cut(rest[1:], "]")
					cl.Props = strings.Fields(lb)
					rest = strings.TrimSpace(r)
				}
				m, mu, ok := strings.Cut(rest, " by ")
				if !ok {
					return fmt.Errorf("%s: guarded m by mu", where)
				}
				for _, p := range []string{m, mu} {
					e, err := parseSpec(p)
					if err != nil {
						return fmt.Errorf("%s: %v", where, err)
					}
					cur.Guarded = append(cur.Guarded, &Clause{Text: rest, Expr: e, Props: cl.Props})
				}
			case "inline":
				cur.Inline = true
			case "assumed":
				cur.Assumed = true
			case "noreturn":
				cur.NoReturn = true
			case "noterm":
				cur.NoTerm = rest
			case "helper":
				cur.Helper = true
			case "whole": // inner structs are read as a whole
				cur.Whole = true
			case "small": // counters that are assumed not to reach 2^62
				if cur.Small == nil {
					cur.Small = map[string]bool{}
				}
				for _, k := range strings.Fields(rest) {
					cur.Small[k] = true
				}
			case "noniltree":
				cur.NoNilTree = true
			case "noframe":
				cur.NoFrame = true
			case "paths":
				cur.Max, _ = strconv.Atoi(rest)
			case "schema":
				cur.Schema = true
			case "uses":
				cur.Uses = append(cur.Uses, strings.Fields(rest)...)
			default:
				return fmt.Errorf("%s: unknown clause %q", where, kw)
			}
		}
	}
	return nil
}

func splitTop(s string) []string {
	var r []string
	d, last := 0, 0
	q := byte(0)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if q != 0 {
			if ch == '\\' {
				i++
			} else if ch == q {
				q = 0
			}
			continue
		}
		switch ch {
		case '"', '`', '\'':
			q = ch
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	return append(r, strings.TrimSpace(s[last:]))
}

// desugar rewrites a ==> b into imp(a, b) inside every bracket.
func desugar(s string) string {
	// first the nested groups
	var out strings.Builder
	q := byte(0)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if q != 0 {
			out.WriteByte(ch)
			if ch == '\\' && i+1 < len(s) {
				i++
				out.WriteByte(s[i])
			} else if ch == q {
				q = 0
			}
			continue
		}
		if ch == '"' || ch == '`' || ch == '\'' {
			q = ch
			out.WriteByte(ch)
			continue
		}
		if ch == '(' {
			d := 1
			j := i + 1
			qq := byte(0)
			for ; j < len(s) && d > 0; j++ {
				if qq != 0 {
					if s[j] == '\\' {
						j++
					} else if s[j] == qq {
						qq = 0
					}
					continue
				}
				switch s[j] {
				case '"', '`', '\'':
					qq = s[j]
				case '(':
					d++
				case ')':
					d--
				}
			}
			inner := s[i+1 : j-1]
			var ps []string
			for _, p := range splitTop(inner) {
				ps = append(ps, desugar(p))
			}
			out.WriteString("(" + strings.Join(ps, ", ") + ")")
			i = j - 1
			continue
		}
		out.WriteByte(ch)
	}
	t := out.String()
	// top level implication, right associative
	d := 0
	q = 0
	for i := 0; i+2 < len(t); i++ {
		ch := t[i]
		if q != 0 {
			if ch == '\\' {
				i++
			} else if ch == q {
				q = 0
			}
			continue
		}
		switch ch {
		case '"', '`', '\'':
			q = ch
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '=':
			if d == 0 && strings.HasPrefix(t[i:], "==>") {
				return "imp(" + t[:i] + ", " + desugar(t[i+3:]) + ")"
			}
		}
	}
	return t
}

func parseSpec(s string) (ast.Expr, error) {
	e, err := parser.ParseExpr(desugar(s))
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, desugar(s))
	}
	return e, nil
}

// ---- evaluation

type Scope struct {
	x         *Eng
	st        *State
	old       *State
	env       map[string]TV
	base      *T // objects allocated from here on are fresh
	elem      *foldCtx
	loopEntry *State
	lc        *LoopCtx
}

type foldCtx struct{} // set in the body of a fold

type specErr struct{ msg string }

func (s *Scope) bad(e ast.Expr, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...) + " in " + exprString(e)})
}

// foldPart: the body of a fold, and most clauses, depend on the one field, not on the whole inner struct.
func (s *Scope) foldPart(e ast.Expr) (*T, types.Type, bool) {
	if s.elem == nil && s.x.ct != nil && s.x.ct.Whole {
		return nil, nil, false
	}
	return s.embedded(e)
}

// embedded locates p.f where p points to a struct that contains the struct f.
func (s *Scope) embedded(e ast.Expr) (*T, types.Type, bool) {
	sel, ok := e.(*ast.SelectorExpr)
	if !ok {
		return nil, nil, false
	}
	if id, ok := sel.X.(*ast.Ident); ok {
		if _, bound := s.env[id.Name]; !bound {
			return nil, nil, false
		}
	}
	l, t, ok := s.embedded(sel.X)
	if !ok {
		b := s.eval(sel.X)
		if b.t == nil {
			return nil, nil, false
		}
		pt, isPtr := under(b.t).(*types.Pointer)
		v, isT := b.v.(*T)
		if !isPtr || !isT {
			return nil, nil, false
		}
		l, t = v, pt.Elem()
	}
	st, ok := isStruct(t)
	if !ok {
		return nil, nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == sel.Sel.Name {
			ft := st.Field(i).Type()
			if _, ok := isStruct(ft); ok {
				return s.x.sub(l, i), ft, true
			}
		}
	}
	return nil, nil, false
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

func (s *Scope) with(name string, tv TV) *Scope {
	n := *s
	n.env = copyMap(s.env)
	n.env[name] = tv
	return &n
}

func (s *Scope) term(e ast.Expr) *T {
	tv := s.eval(e)
	return s.x.peekVal(s.st, tv.v)
}

func (x *Eng) peekVal(st *State, v Val) *T {
	switch v := v.(type) {
	case *T:
		return v
	case *Back:
		return st.backs[v.id]
	case *Closure:
		return x.closureTerm(st, v)
	}
	panic(specErr{fmt.Sprintf("value %T in a clause", v)})
}

// typ resolves a type written as a string.
func (x *Eng) typ(n string) types.Type {
	if t, ok := x.typCache[n]; ok {
		return t
	}
	typMu.Lock()
	defer typMu.Unlock()
	for _, p := range x.p.scopePos { // a qualified name resolves where its package is imported
		if tv, err := types.Eval(x.p.fset, x.p.tpkg, p, n); err == nil && tv.IsType() {
			x.typCache[n] = tv.Type
			return tv.Type
		}
	}
	panic(specErr{"unknown type " + n})
}

var typMu sync.Mutex

func (s *Scope) boolT(e ast.Expr) *T {
	t := s.term(e)
	if t.sort != "Bool" {
		s.bad(e, "not a condition")
	}
	return t
}

func (s *Scope) pair(a, b TV, e ast.Expr) (*T, *T) {
	x := s.x
	get := func(v TV, o TV) *T {
		if v.t == nil && v.v == nil { // nil literal
			if o.t == nil {
				return x.zeroSort(x.peekVal(s.st, o.v).sort)
			}
			return x.zero(o.t)
		}
		if _, ok := v.v.(*Addr); ok && o.v == nil {
			return x.c.mk("Loc", "mkloc", x.c.int(1), x.c.int(0))
		}
		return x.peekVal(s.st, v.v)
	}
	p, q := get(a, b), get(b, a)
	if p.sort != q.sort {
		if p.sort == "Iface" && b.t != nil {
			q = x.box(b.t, q)
		} else if q.sort == "Iface" && a.t != nil {
			p = x.box(a.t, p)
		} else if p.sort == "F64" && q.sort == "Int" {
			n, _ := q.isNum()
			q = x.c.mk("F64", "mkfin", x.c.mk("Real", n.String()+".0"))
		} else {
			s.bad(e, "sorts %s and %s", p.sort, q.sort)
		}
	}
	return p, q
}

func (s *Scope) eval(e ast.Expr) TV {
	x, c := s.x, s.x.c
	switch e := e.(type) {
	case *ast.ParenExpr:
		return s.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			v, ok := new(big.Int).SetString(e.Value, 0)
			if !ok {
				s.bad(e, "number")
			}
			return TV{c.num(v), nil}
		case token.STRING:
			v, _ := strconv.Unquote(e.Value)
			return TV{c.strLit(v), types.Typ[types.String]}
		case token.CHAR:
			v, _, _, _ := strconv.UnquoteChar(e.Value[1:len(e.Value)-1], '\'')
			return TV{c.int(int64(v)), nil}
		}
	case *ast.Ident:
		if tv, ok := s.env[e.Name]; ok {
			return tv
		}
		switch e.Name {
		case "nil":
			return TV{nil, nil}
		case "true":
			return TV{c.tru(), types.Typ[types.Bool]}
		case "false":
			return TV{c.fals(), types.Typ[types.Bool]}
		}
		o := x.p.tpkg.Scope().Lookup(e.Name)
		switch o := o.(type) {
		case *types.Const:
			return TV{x.constOf(o.Val(), o.Type()), o.Type()}
		case *types.Var:
			v := x.global(s.st, &Addr{kind: "global", name: x.p.tpkg.Name() + "." + o.Name(), typ: o.Type()})
			return TV{v, o.Type()}
		}
		s.bad(e, "unknown name %s", e.Name)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, bound := s.env[id.Name]; !bound {
				for _, p := range x.p.tpkg.Imports() {
					if p.Name() == id.Name {
						switch o := p.Scope().Lookup(e.Sel.Name).(type) {
						case *types.Const:
							return TV{x.constOf(o.Val(), o.Type()), o.Type()}
						case *types.Var:
							return TV{x.global(s.st, &Addr{kind: "global", name: p.Name() + "." + o.Name(), typ: o.Type()}), o.Type()}
						}
					}
				}
			}
		}
		if l, t, ok := s.foldPart(e.X); ok { // read the one field, not the whole inner struct
			return s.selectField(TV{l, types.NewPointer(t)}, e.Sel.Name, e)
		}
		b := s.eval(e.X)
		return s.selectField(b, e.Sel.Name, e)
	case *ast.StarExpr:
		b := s.eval(e.X)
		pt, ok := under(b.t).(*types.Pointer)
		if !ok {
			s.bad(e, "not a pointer")
		}
		if a, ok := b.v.(*Addr); ok {
			return TV{x.loadAddr(s.st, a), pt.Elem()}
		}
		return TV{x.loadObj(s.st, pt.Elem(), b.v.(*T)), pt.Elem()}
	case *ast.IndexExpr:
		b := s.eval(e.X)
		if b.t == nil {
			s.bad(e, "untyped")
		}
		switch u := under(b.t).(type) {
		case *types.Slice:
			return TV{x.elem(s.st, x.peekVal(s.st, b.v), s.term(e.Index), u.Elem()), u.Elem()}
		case *types.Array:
			return TV{x.elem(s.st, x.peekVal(s.st, b.v), s.term(e.Index), u.Elem()), u.Elem()}
		case *types.Basic:
			return TV{x.charAt(x.peekVal(s.st, b.v), s.term(e.Index)), types.Typ[types.Uint8]}
		case *types.Map:
			p, v := x.mapLookup(s.st, u, b.v.(*T), s.term(e.Index))
			return TV{c.ite(p, v, x.zero(u.Elem())), u.Elem()}
		}
		s.bad(e, "cannot index %s", b.t)
	case *ast.SliceExpr:
		b := s.eval(e.X)
		t := x.peekVal(s.st, b.v)
		lo := c.int(0)
		hi := c.length(t)
		if e.Low != nil {
			lo = s.term(e.Low)
		}
		if e.High != nil {
			hi = s.term(e.High)
		}
		return TV{c.extract(t, lo, c.arith("-", hi, lo)), b.t}
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return TV{c.not(s.boolT(e.X)), types.Typ[types.Bool]}
		case token.AND: // the address of an embedded struct
			if k, l, t := s.lval(e.X); k == "" {
				return TV{l, types.NewPointer(t)}
			}
		case token.SUB:
			b := s.eval(e.X)
			return TV{c.arith("-", c.int(0), b.v.(*T)), b.t}
		}
	case *ast.BinaryExpr:
		return s.binary(e)
	case *ast.CompositeLit:
		t := x.typ(exprString(e.Type))
		st, ok := isStruct(t)
		if !ok {
			s.bad(e, "not a struct")
		}
		fs := make([]*T, st.NumFields())
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			for i := range fs {
				if st.Field(i).Name() == kv.Key.(*ast.Ident).Name {
					p, _ := s.pair(s.eval(kv.Value), TV{x.zero(st.Field(i).Type()), st.Field(i).Type()}, e)
					fs[i] = p
				}
			}
		}
		for i := range fs {
			if fs[i] == nil {
				fs[i] = x.zero(st.Field(i).Type())
			}
		}
		return TV{x.mkStruct(t, fs), t}
	case *ast.CallExpr:
		return s.call(e)
	}
	s.bad(e, "unsupported expression %T", e)
	return TV{}
}

func (x *Eng) constOf(v constant.Value, t types.Type) *T {
	switch v.Kind() {
	case constant.String:
		return x.c.strLit(constant.StringVal(v))
	case constant.Int:
		i, _ := constant.Int64Val(v)
		return x.c.int(i)
	case constant.Bool:
		return x.c.boolT(constant.BoolVal(v))
	case constant.Float:
		f, _ := constant.Float64Val(v)
		return x.f64(f)
	}
	panic(specErr{"constant"})
}

func (s *Scope) selectField(b TV, name string, e ast.Expr) TV {
	x := s.x
	if b.t == nil {
		s.bad(e, "untyped")
	}
	obj, idx, _ := types.LookupFieldOrMethod(b.t, true, x.p.tpkg, name)
	f, ok := obj.(*types.Var)
	if !ok {
		s.bad(e, "no field %s in %s", name, b.t)
	}
	cur := b
	for _, i := range idx {
		if pt, ok := under(cur.t).(*types.Pointer); ok {
			st, _ := isStruct(pt.Elem())
			if a, ok := cur.v.(*Addr); ok {
				n := *a
				if a.kind == "elem" {
					n.path = append(append([]int(nil), a.path...), i)
					cur = TV{x.loadAddr(s.st, &n), st.Field(i).Type()}
					continue
				}
				s.bad(e, "address")
			}
			cur = TV{x.loadField(s.st, pt.Elem(), cur.v.(*T), i), st.Field(i).Type()}
			continue
		}
		st, ok := isStruct(cur.t)
		if !ok {
			s.bad(e, "not a struct")
		}
		ft := st.Field(i).Type()
		v := x.field(cur.t, x.peekVal(s.st, cur.v), i)
		x.typed(v, ft, x.stampOf(x.peekVal(s.st, cur.v)))
		cur = TV{v, ft}
	}
	_ = f
	return cur
}

func (s *Scope) binary(e *ast.BinaryExpr) TV {
	x, c := s.x, s.x.c
	bt := types.Typ[types.Bool]
	switch e.Op {
	case token.LAND:
		return TV{c.and(s.boolT(e.X), s.boolT(e.Y)), bt}
	case token.LOR:
		return TV{c.or(s.boolT(e.X), s.boolT(e.Y)), bt}
	case token.EQL, token.NEQ:
		p, q := s.pair(s.eval(e.X), s.eval(e.Y), e)
		r := c.eq(p, q)
		if isSeq(p.sort) {
			r = x.seqEq(p, q)
		}
		if e.Op == token.NEQ {
			r = c.not(r)
		}
		return TV{r, bt}
	}
	a, b := s.eval(e.X), s.eval(e.Y)
	p, q := s.pair(a, b, e)
	t := a.t
	if t == nil {
		t = b.t
	}
	if p.sort == "F64" {
		pr, qr := x.fval(p), x.fval(q)
		switch e.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return TV{c.cmp(e.Op.String(), pr, qr), bt}
		}
	}
	switch e.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return TV{c.cmp(e.Op.String(), p, q), bt}
	case token.ADD:
		if p.sort == "String" || isSeq(p.sort) {
			return TV{c.concat(p, q), t}
		}
		return TV{c.arith("+", p, q), t}
	case token.SUB:
		return TV{c.arith("-", p, q), t}
	case token.MUL:
		return TV{c.arith("*", p, q), t}
	case token.QUO:
		return TV{x.divmod(true, p, q), t}
	case token.REM:
		return TV{x.divmod(false, p, q), t}
	}
	s.bad(e, "operator %s", e.Op)
	return TV{}
}

// seqEq compares sequences, cancelling a common prefix.
func (x *Eng) seqEq(p, q *T) *T {
	c := x.c
	parts := func(t *T) []*T {
		if t.op == "seq.++" || t.op == "str.++" {
			return t.args
		}
		if strings.HasPrefix(t.op, "(as seq.empty") || t.op == `""` {
			return nil
		}
		return []*T{t}
	}
	a, b := parts(p), parts(q)
	var eqs []*T
	for len(a) > 0 && len(b) > 0 {
		if a[0] == b[0] {
			a, b = a[1:], b[1:]
			continue
		}
		if a[0].op == "seq.unit" && b[0].op == "seq.unit" {
			eqs = append(eqs, c.eq(a[0].args[0], b[0].args[0]))
			a, b = a[1:], b[1:]
			continue
		}
		break
	}
	for len(a) > 0 && len(b) > 0 && a[len(a)-1] == b[len(b)-1] {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	e := c.seqEmpty(p.sort)
	l := c.concat(append([]*T{e}, a...)...)
	r := c.concat(append([]*T{e}, b...)...)
	eqs = append(eqs, c.eq(l, r))
	return c.and(eqs...)
}

func (s *Scope) inState(st *State) *Scope {
	n := *s
	n.st = st
	return &n
}

func (s *Scope) lit(e ast.Expr) string {
	b, ok := e.(*ast.BasicLit)
	if !ok {
		s.bad(e, "literal expected")
	}
	v, _ := strconv.Unquote(b.Value)
	return v
}

func (s *Scope) call(e *ast.CallExpr) TV {
	x, c := s.x, s.x.c
	bt, it, strT := types.Typ[types.Bool], types.Typ[types.Int], types.Typ[types.String]
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		s.bad(e, "call")
	}
	arg := func(i int) TV { return s.eval(e.Args[i]) }
	term := func(i int) *T { return s.term(e.Args[i]) }
	switch id.Name {
	case "imp":
		return TV{c.implies(s.boolT(e.Args[0]), s.boolT(e.Args[1])), bt}
	case "old":
		if s.old == nil {
			s.bad(e, "old here")
		}
		return s.inState(s.old).eval(e.Args[0])
	case "entry": // when the loop was entered
		if s.loopEntry == nil {
			s.bad(e, "entry outside an invariant")
		}
		return s.inState(s.loopEntry).eval(e.Args[0])
	case "atlock", "atunlock": // in the state when the lock was last taken, or given back
		o := s.st.atLock
		if id.Name == "atunlock" {
			o = s.st.atUnlock
		}
		if o == nil {
			o = s.old
		}
		return s.inState(o).eval(e.Args[0])
	case "len":
		a := arg(0)
		t := x.peekVal(s.st, a.v)
		if a.t != nil {
			x.typed(t, a.t, x.stampOf(t))
		}
		return TV{c.length(t), it}
	case "is":
		a := arg(0)
		if a.t != nil && !types.IsInterface(a.t) {
			s.bad(e, "not an interface value")
		}
		t := x.peekVal(s.st, a.v)
		return TV{c.eq(x.itag(t), x.tag(x.typ(s.lit(e.Args[1])))), bt}
	case "as":
		a := arg(0)
		if a.t != nil && !types.IsInterface(a.t) {
			s.bad(e, "not an interface value")
		}
		t := x.peekVal(s.st, a.v)
		ty := x.typ(s.lit(e.Args[1]))
		r := x.unbox(ty, t)
		x.typed(r, ty, x.stampOf(t))
		return TV{r, ty}
	case "apply": // what a function that was passed in returns
		f := arg(0)
		sig, ok := under(f.t).(*types.Signature)
		if !ok || sig.Results().Len() != 1 {
			s.bad(e, "not a function with a result")
		}
		ts := []*T{x.peekVal(s.st, f.v)}
		nm := "app"
		for i := range e.Args[1:] {
			t := term(i + 1)
			ts = append(ts, t)
			nm += "_" + sanitize(t.sort)
		}
		rt := sig.Results().At(0).Type()
		return TV{c.fn(fmt.Sprintf("%s_r0_%s", nm, sanitize(x.sort(rt))), x.sort(rt), ts...), rt}
	case "typestr":
		return TV{x.typeStr(x.itag(term(0))), strT}
	case "fresh":
		a := arg(0)
		if _, ok := a.v.(*Addr); ok {
			return TV{c.fals(), bt}
		}
		l := x.locOf(x.peekVal(s.st, a.v))
		if l == nil || s.base == nil {
			s.bad(e, "fresh")
		}
		return TV{c.cmp(">=", x.oid(l), s.base), bt}
	case "cond":
		p, q := s.pair(arg(1), arg(2), e)
		t := arg(1).t
		if t == nil {
			t = arg(2).t
		}
		return TV{c.ite(s.boolT(e.Args[0]), p, q), t}
	case "cat":
		var ts []*T
		for i := range e.Args {
			ts = append(ts, term(i))
		}
		return TV{c.concat(ts...), arg(0).t}
	case "seq":
		// seq("T", e...)
		et := x.typ(s.lit(e.Args[0]))
		r := c.seqEmpty("(Seq " + x.sort(et) + ")")
		for i := 1; i < len(e.Args); i++ {
			p, _ := s.pair(arg(i), TV{x.zero(et), et}, e)
			r = c.concat(r, c.seqUnit(p))
		}
		return TV{r, types.NewSlice(et)}
	case "box":
		a := arg(0)
		return TV{x.box(a.t, x.peekVal(s.st, a.v)), x.typ("interface{}")}
	case "has":
		m := arg(0)
		p, _ := x.mapLookup(s.st, under(m.t).(*types.Map), m.v.(*T), term(1))
		return TV{p, bt}
	case "itoa":
		return TV{x.itoa(term(0)), strT}
	case "app": // result of a function argument
		f := arg(0)
		sig := under(f.t).(*types.Signature)
		nm := "app"
		ts := []*T{f.v.(*T)}
		for i := 1; i < len(e.Args); i++ {
			ts = append(ts, term(i))
			nm += "_" + sanitize(term(i).sort)
		}
		rt := sig.Results().At(0).Type()
		return TV{c.fn(fmt.Sprintf("%s_r0_%s", nm, sanitize(x.sort(rt))), x.sort(rt), ts...), rt}
	case "uf": // uf("name", "type", args...)
		ty := x.typ(s.lit(e.Args[1]))
		var ts []*T
		for i := 2; i < len(e.Args); i++ {
			ts = append(ts, term(i))
		}
		r := c.fn(s.lit(e.Args[0]), x.sort(ty), ts...)
		x.typed(r, ty, Stamp{})
		return TV{r, ty}
	case "prefix":
		return TV{x.hasPrefix(term(0), term(1)), bt}
	case "suffix":
		return TV{c.mk("Bool", "str.suffixof", term(1), term(0)), bt}
	case "contains":
		return TV{c.mk("Bool", "str.contains", term(0), term(1)), bt}
	case "mentions": // mentions(s, t): what strings.Contains says, left to the models
		return TV{c.fn("mentions", "Bool", term(0), term(1)), bt}
	case "split":
		r := c.fn("strings_Split", "(Seq String)", term(0), term(1))
		c.stamps[r.id] = Stamp{}
		l := c.length(r)
		c.factOn(l, c.implies(c.not(c.eq(term(1), c.strLit(""))), c.cmp(">=", l, c.int(1))))
		return TV{r, types.NewSlice(strT)}
	case "md5hex":
		r := c.fn("md5", "String", term(0))
		return TV{c.fn("hex", "String", r), strT}
	case "except": // except(a, b, "F", ...): struct values equal but for the named fields
		a, b := arg(0), arg(1)
		stt, ok := isStruct(a.t)
		if !ok {
			s.bad(e, "not a struct")
		}
		skip := map[string]bool{}
		for _, f := range e.Args[2:] {
			n := s.lit(f)
			skip[n] = true
			if o, _, _ := types.LookupFieldOrMethod(a.t, true, x.p.tpkg, n); o == nil {
				s.bad(e, "no field %s", n)
			}
		}
		var es []*T
		p, q := x.peekVal(s.st, a.v), x.peekVal(s.st, b.v)
		for i := 0; i < stt.NumFields(); i++ {
			if !skip[stt.Field(i).Name()] {
				es = append(es, c.eq(x.field(a.t, p, i), x.field(a.t, q, i)))
			}
		}
		return TV{c.and(es...), bt}
	case "sameval": // sameval(a, b): equal in value, following pointers, XML names aside; sameval(a, b, n): in the field named n
		a, b := arg(0), arg(1)
		var n *T
		if len(e.Args) > 2 {
			n = term(2)
		}
		return TV{s.sameval(e, a.t, x.peekVal(s.st, a.v), x.peekVal(s.st, b.v), n, 0), bt}
	case "isfield": // isfield("T", n): n names an exported field of T
		stt, _ := isStruct(x.p.named(s.lit(e.Args[0])))
		n := term(1)
		var es []*T
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() != "XMLName" {
				es = append(es, c.eq(n, c.strLit(stt.Field(i).Name())))
			}
		}
		return TV{c.or(es...), bt}
	case "newHere": // allocated since the loop was entered
		l := x.locOf(x.peekVal(s.st, arg(0).v))
		if l == nil || s.loopEntry == nil {
			s.bad(e, "newHere")
		}
		return TV{c.cmp(">=", x.oid(l), x.boundT(s.loopEntry.stamp())), bt}
	case "iterbase": // iterbase(i): how much had been allocated when iteration i of the loop began
		if s.lc == nil {
			s.bad(e, "iterbase outside an invariant")
		}
		return TV{x.iterbase(s.lc, term(0)), it}
	case "oid":
		return TV{x.oid(x.locOf(x.peekVal(s.st, arg(0).v))), it}
	case "isfin": // a number, neither infinite nor NaN
		return TV{x.fin(term(0)), bt}
	case "trunc": // the integer part of a number
		a := x.fval(term(0))
		return TV{c.ite(c.cmp(">=", a, c.mk("Real", "0.0")), c.mk("Int", "to_int", a), c.mk("Int", "-", c.mk("Int", "to_int", c.mk("Real", "-", a)))), it}
	case "event":
		return TV{s.event(e), bt}
	case "written", "unread", "archive", "finished": // ghost state of writers, readers and archives
		k, l := s.ghostField(e)
		r := x.load(s.st, k, l)
		switch id.Name {
		case "archive":
			return TV{r, x.typ("*zip.Writer")}
		case "finished":
			return TV{r, bt}
		}
		return TV{r, strT}
	case "entries": // the entries of an archive: how often each name was created
		return TV{arg(0).v.(*T), x.typ("map[string]int")}
	case "entryOf": // and the writer it was given
		return TV{arg(0).v.(*T), x.typ("map[string]io.Writer")}
	case "foreign": // of a type from another package
		return TV{x.foreign(x.itag(term(0))), bt}
	case "visited": // visited(m, n): the loop over map m has been at key n
		m := arg(0).v.(*T)
		for id, mi := range x.iterOf {
			if it, ok := s.st.iters[id]; ok && mi.m == m {
				return TV{x.asel(s.st, it, term(1), "Bool"), bt}
			}
		}
		s.bad(e, "no loop over this map")
	case "distinct":
		a := arg(0)
		return TV{x.distinct(s.st, x.peekVal(s.st, a.v)), bt}
	case "exists":
		return TV{s.exists(e), bt}
	case "forall", "forallkey":
		// quantifier in a mixed position: over a fresh constant this would be wrong
		s.bad(e, "quantifier below an operator")
	case "int":
		return TV{term(0), it}
	case "uintptr":
		return TV{term(0), types.Typ[types.Uintptr]}
	case "real":
		t := term(0)
		if t.sort == "F64" {
			return TV{x.fval(t), nil}
		}
		if n, ok := t.isNum(); ok {
			return TV{c.mk("Real", n.String()+".0"), nil}
		}
		return TV{c.mk("Real", "to_real", t), nil}
	}
	if d, ok := x.cs.Defs[id.Name]; ok {
		if d.Fold {
			return s.foldCall(d, e)
		}
		n := *s
		n.env = map[string]TV{}
		for i, p := range d.Params {
			tv := arg(i)
			if d.Types[i] != "" {
				t := x.typ(d.Types[i])
				if tv.t == nil {
					a, _ := s.pair(tv, TV{x.zero(t), t}, e)
					tv = TV{a, t}
				}
				if x.sort(t) == "Iface" && tv.t != nil && x.sort(tv.t) != "Iface" {
					tv = TV{x.box(tv.t, x.peekVal(s.st, tv.v)), t}
				} else {
					tv.t = t
				}
			}
			n.env[p] = tv
		}
		return n.eval(d.Body)
	}
	s.bad(e, "unknown function %s", id.Name)
	return TV{}
}

func (s *Scope) ghostField(e *ast.CallExpr) (string, *T) {
	a := s.eval(e.Args[0])
	t := s.x.peekVal(s.st, a.v)
	if t.sort == "Iface" {
		t = s.x.iloc(t)
	}
	return s.x.opaqueKey(e.Fun.(*ast.Ident).Name), t
}

// distinct: no two elements of a sequence are the same object.
func (x *Eng) distinct(st *State, s *T) *T {
	c := x.c
	b := c.fn("distinct_"+sanitize(s.sort), "Bool", s)
	if !x.cur.done[fmt.Sprintf("distinct%d", s.id)] {
		x.cur.done[fmt.Sprintf("distinct%d", s.id)] = true
		inv := func(st *State, i *T) {
			e := c.nth(s, i)
			x.assume(st, c.implies(c.and(b, c.cmp("<=", c.int(0), i), c.cmp("<", i, c.length(s))),
				c.eq(c.fn("indexin_"+sanitize(s.sort), "Int", s, e), i)))
		}
		x.addRule(st, []*T{s}, "distinct", inv)
	}
	return b
}

// exists tries the indices known for the sequences of the body.
func (s *Scope) exists(e *ast.CallExpr) *T {
	x, c := s.x, s.x.c
	v := e.Args[0].(*ast.Ident).Name
	lo, hi := s.term(e.Args[1]), s.term(e.Args[2])
	ph := c.newSym("ph", "Int")
	save := x.noTouch
	x.noTouch = true
	body := s.with(v, TV{ph, types.Typ[types.Int]}).term(e.Args[3])
	x.noTouch = save
	var alts []*T
	seen := map[int]bool{}
	for _, tr := range triggers(c, body, ph) {
		for _, i := range x.cur.touched[tr.seq.id] {
			j := c.arith("-", i, tr.off)
			if seen[j.id] {
				continue
			}
			seen[j.id] = true
			b := s.with(v, TV{j, types.Typ[types.Int]}).term(e.Args[3])
			alts = append(alts, c.and(c.cmp("<=", lo, j), c.cmp("<", j, hi), b))
		}
	}
	return c.or(alts...)
}

type trig struct {
	seq *T
	off *T
	key bool
}

// triggers finds the sequences a body indexes with the placeholder.
func triggers(c *Ctx, body, ph *T) []trig {
	var r []trig
	seen := map[int]bool{}
	has := func(t *T) bool {
		f := false
		t.visit(map[int]bool{}, func(u *T) {
			if u == ph {
				f = true
			}
		})
		return f
	}
	body.visit(seen, func(t *T) {
		if t.op == "seq.nth" && !has(t.args[0]) && has(t.args[1]) {
			d := c.arith("-", t.args[1], ph)
			if !has(d) {
				r = append(r, trig{seq: t.args[0], off: d})
			}
		}
		if t.op == "select" && t.args[1] == ph && !has(t.args[0]) {
			r = append(r, trig{seq: t.args[0], off: c.int(0), key: true})
		}
	})
	return r
}

// goal is the term to prove for a clause; universal quantifiers become arbitrary constants.
func (s *Scope) goal(e ast.Expr) *T {
	x, c := s.x, s.x.c
	switch e := e.(type) {
	case *ast.ParenExpr:
		return s.goal(e.X)
	case *ast.BinaryExpr:
		if e.Op == token.LAND {
			l := s.goal(e.X)
			if l.isFalse() {
				return l
			}
			if l.isTrue() || !quantified(e.Y, x.cs) {
				return c.and(l, s.goal(e.Y))
			}
			// a conjunct may be decided under those before it
			return c.and(l, s.goalUnder(l, e.Y))
		}
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "imp":
				g := s.boolT(e.Args[0])
				if g.isFalse() {
					return c.tru()
				}
				// what holds only under the condition is decided under it
				return c.implies(g, s.goalUnder(g, e.Args[1]))
			case "forall":
				v := e.Args[0].(*ast.Ident).Name
				lo, hi := s.term(e.Args[1]), s.term(e.Args[2])
				i := c.newSym("sk_"+v, "Int")
				return c.implies(c.and(c.cmp("<=", lo, i), c.cmp("<", i, hi)), s.with(v, TV{i, types.Typ[types.Int]}).goal(e.Args[3]))
			case "forallkey":
				v := e.Args[0].(*ast.Ident).Name
				m := s.eval(e.Args[1])
				mt := under(m.t).(*types.Map)
				k := c.newSym("sk_"+v, x.sort(mt.Key()))
				return s.with(v, TV{k, mt.Key()}).goal(e.Args[2])
			case "forallval": // forallval(v, "type", body)
				v := e.Args[0].(*ast.Ident).Name
				ty := x.typ(s.lit(e.Args[1]))
				k := c.newSym("sk_"+v, x.sort(ty))
				x.typed(k, ty, Stamp{0, 0})
				return s.with(v, TV{k, ty}).goal(e.Args[2])
			case "distinct":
				return s.distinctGoal(e)
			}
			if d, ok := x.cs.Defs[id.Name]; ok && !d.Fold && quantified(d.Body, x.cs) {
				n, body := s.bindDef(d, e)
				return n.goal(body)
			}
		}
	}
	return s.boolT(e)
}

// goalUnder evaluates a goal under an assumption; what the rules say about the terms met stays known.
func (s *Scope) goalUnder(g *T, e ast.Expr) *T {
	x := s.x
	x.s.push()
	x.s.assert(g)
	n := len(x.s.stack) - 1
	from := len(x.s.stack[n])
	r := s.goal(e)
	made := append([]*T(nil), x.s.stack[n][from:]...)
	x.s.pop()
	for _, m := range made {
		x.s.assert(x.c.implies(g, m))
	}
	return r
}

func (s *Scope) distinctGoal(e *ast.CallExpr) *T {
	x, c := s.x, s.x.c
	t := s.term(e.Args[0])
	// two arbitrary different positions hold different elements; afterwards the fact is available
	b := x.distinct(s.st, t)
	i, j := c.newSym("sk_i", "Int"), c.newSym("sk_j", "Int")
	et := under(s.eval(e.Args[0]).t).(*types.Slice).Elem()
	a1, a2 := x.elem(s.st, t, i, et), x.elem(s.st, t, j, et)
	return c.or(b, c.implies(c.and(c.cmp("<=", c.int(0), i), c.cmp("<", i, j), c.cmp("<", j, c.length(t))), c.not(c.eq(a1, a2))))
}

func (s *Scope) bindDef(d *Def, e *ast.CallExpr) (*Scope, ast.Expr) {
	n := *s
	n.env = map[string]TV{}
	for i, p := range d.Params {
		tv := s.eval(e.Args[i])
		if d.Types[i] != "" {
			ty := s.x.typ(d.Types[i])
			if a, ok := ty.Underlying().(*types.Slice); ok && tv.t != nil {
				if b, ok := under(tv.t).(*types.Slice); ok && !types.Identical(under(a.Elem()), under(b.Elem())) {
					s.bad(e, "argument %d is another sequence", i)
				}
			}
			tv.t = ty
		}
		n.env[p] = tv
	}
	return &n, d.Body
}

func quantified(e ast.Expr, cs *Contracts) bool {
	q := false
	ast.Inspect(e, func(n ast.Node) bool {
		if ce, ok := n.(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok {
				if id.Name == "forall" || id.Name == "forallkey" || id.Name == "distinct" || id.Name == "forallval" {
					q = true
				}
				if d, ok := cs.Defs[id.Name]; ok && !d.Fold && d.Body != e && quantified(d.Body, cs) {
					q = true
				}
			}
		}
		return true
	})
	return q
}

// assume adds a clause to the path condition; quantifiers become instantiation rules.
func (s *Scope) assume(e ast.Expr) { s.assumeG(s.x.c.tru(), e) }

func (s *Scope) assumeG(g *T, e ast.Expr) {
	x, c := s.x, s.x.c
	switch e := e.(type) {
	case *ast.ParenExpr:
		s.assumeG(g, e.X)
		return
	case *ast.BinaryExpr:
		if e.Op == token.LAND {
			s.assumeG(g, e.X)
			s.assumeG(g, e.Y)
			return
		}
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "imp":
				s.assumeG(c.and(g, s.boolT(e.Args[0])), e.Args[1])
				return
			case "forall":
				v := e.Args[0].(*ast.Ident).Name
				lo, hi := s.term(e.Args[1]), s.term(e.Args[2])
				s.rule(v, types.Typ[types.Int], e.Args[3], func(i *T) *T {
					return c.and(g, c.cmp("<=", lo, i), c.cmp("<", i, hi))
				})
				return
			case "forallkey":
				v := e.Args[0].(*ast.Ident).Name
				m := s.eval(e.Args[1])
				s.rule(v, under(m.t).(*types.Map).Key(), e.Args[2], func(i *T) *T { return g })
				return
			case "forallval": // objects that existed at entry
				v := e.Args[0].(*ast.Ident).Name
				ty := x.typ(s.lit(e.Args[1]))
				if x.sort(ty) == "Loc" {
					s.rule(v, ty, e.Args[2], func(i *T) *T { return c.and(g, c.cmp("<", x.oid(i), x.bases[0])) })
				} else {
					s.rule(v, ty, e.Args[2], func(i *T) *T { return g })
				}
				return
			case "exists": // a witness
				v := e.Args[0].(*ast.Ident).Name
				lo, hi := s.term(e.Args[1]), s.term(e.Args[2])
				i := c.newSym("wit_"+v, "Int")
				b := s.with(v, TV{i, types.Typ[types.Int]}).term(e.Args[3])
				x.assume(x.cur, c.implies(g, c.and(c.cmp("<=", lo, i), c.cmp("<", i, hi), b)))
				return
			}
			if d, ok := x.cs.Defs[id.Name]; ok && !d.Fold && quantified(d.Body, x.cs) {
				n, body := s.bindDef(d, e)
				n.assumeG(g, body)
				return
			}
		}
	}
	b := s.boolT(e)
	if b.op == "=" && !x.noTouch && isSeq(b.args[0].sort) {
		x.sameSeq(b.args[0], b.args[1])
	}
	if b.op == "=>" && !x.noTouch {
		if q := b.args[len(b.args)-1]; q.op == "=" && isSeq(q.args[0].sort) {
			x.sameSeq(q.args[0], q.args[1])
		}
	}
	x.assume(x.cur, c.implies(g, b))
}

// sameSeq: a field of an object in two states is said to be the same sequence; what is known of the
// elements of one is wanted for the other.
func (x *Eng) sameSeq(a, b *T) {
	if b.op == "select" && a.op == "seq.++" {
		a, b = b, a
	}
	if a.op == "select" && b.op == "seq.++" && b.args[0].op == "select" {
		// the first part of a sequence: an element of the whole may be one of the part
		x.linkSeq(a, b.args[0])
		return
	}
	if a.op != "select" || b.op != "select" || a.args[1] != b.args[1] || a == b {
		return
	}
	x.linkSeq(a, b)
}

func (x *Eng) linkSeq(a, b *T) {
	cur := x.cur
	for _, o := range cur.aliases[a.id] {
		if o == b {
			return
		}
	}
	cur.aliases[a.id] = append(cur.aliases[a.id][:len(cur.aliases[a.id]):len(cur.aliases[a.id])], b)
	cur.aliases[b.id] = append(cur.aliases[b.id][:len(cur.aliases[b.id]):len(cur.aliases[b.id])], a)
	for _, i := range cur.touched[a.id] {
		x.touch(cur, b, i)
	}
	for _, i := range cur.touched[b.id] {
		x.touch(cur, a, i)
	}
}

// rule makes an instantiation rule from a quantified body.
func (s *Scope) rule(v string, t types.Type, body ast.Expr, guard func(i *T) *T) {
	x, c := s.x, s.x.c
	sn := *s
	sn.st = s.st.clone()
	if s.old != nil {
		sn.old = s.old
	}
	ph := c.newSym("ph", x.sort(t))
	save := x.noTouch
	x.noTouch = true
	var trs []trig
	for _, b := range sn.with(v, TV{ph, t}).atoms(body) {
		trs = append(trs, triggers(c, b, ph)...)
	}
	x.noTouch = save
	byOff := map[int][]*T{}
	offs := map[int]*T{}
	var order []int
	for _, tr := range trs {
		if _, ok := byOff[tr.off.id]; !ok {
			order = append(order, tr.off.id)
		}
		byOff[tr.off.id] = append(byOff[tr.off.id], tr.seq)
		offs[tr.off.id] = tr.off
	}
	for _, o := range order {
		off := offs[o]
		x.addRule(x.cur, byOff[o], v, func(st *State, i *T) {
			j := i
			if i.sort == "Int" {
				j = c.arith("-", i, off)
			}
			if j.sort != x.sort(t) {
				return
			}
			s2 := sn.with(v, TV{j, t})
			s2.assumeG(guard(j), body)
		})
	}
}

// atoms evaluates the quantifier-free parts of a body.
func (s *Scope) atoms(e ast.Expr) []*T {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return s.atoms(e.X)
	case *ast.BinaryExpr:
		if e.Op == token.LAND {
			return append(s.atoms(e.X), s.atoms(e.Y)...)
		}
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "imp":
				return append(s.atoms(e.Args[0]), s.atoms(e.Args[1])...)
			case "forallkey", "forallval":
				return nil
			case "forall":
				v := e.Args[0].(*ast.Ident).Name
				i := s.x.c.newSym("in_"+v, "Int")
				r := []*T{s.term(e.Args[1]), s.term(e.Args[2])}
				return append(r, s.with(v, TV{i, types.Typ[types.Int]}).atoms(e.Args[3])...)
			}
			if d, ok := s.x.cs.Defs[id.Name]; ok && !d.Fold && quantified(d.Body, s.x.cs) {
				n, body := s.bindDef(d, e)
				return n.atoms(body)
			}
		}
	}
	return []*T{s.term(e)}
}

// ---- modifies

func (s *Scope) lval(e ast.Expr) (key string, loc *T, t types.Type) {
	x := s.x
	switch e := e.(type) {
	case *ast.ParenExpr:
		return s.lval(e.X)
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "written", "unread", "archive", "finished":
				k, l := s.ghostField(e)
				return k, l, nil
			}
		}
	case *ast.StarExpr:
		b := s.eval(e.X)
		return "", b.v.(*T), under(b.t).(*types.Pointer).Elem()
	case *ast.SelectorExpr:
		var bl *T
		var bt types.Type
		tv := TV{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specErr); !ok {
						panic(r)
					}
				}
			}()
			tv = s.eval(e.X)
		}()
		if tv.t != nil {
			if pt, ok := under(tv.t).(*types.Pointer); ok {
				bl, bt = tv.v.(*T), pt.Elem()
			}
		}
		if bl == nil {
			_, bl, bt = s.lval(e.X)
		}
		st, ok := isStruct(bt)
		if !ok {
			s.bad(e, "not a struct")
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.Sel.Name {
				ft := st.Field(i).Type()
				if _, ok := isStruct(ft); ok {
					return "", x.sub(bl, i), ft
				}
				return x.fieldKey(bt, i), bl, ft
			}
		}
		s.bad(e, "no field")
	}
	s.bad(e, "not a location")
	return
}

func (x *Eng) evalMods(s *Scope, ct *Contract) []modEntry {
	var r []modEntry
	if ct.NoFrame {
		return []modEntry{{all: true}}
	}
	for _, m := range ct.Modifies {
		if id, ok := m.Expr.(*ast.Ident); ok {
			switch id.Name {
			case "nothing":
				continue
			case "all":
				r = append(r, modEntry{all: true})
				continue
			}
		}
		if ce, ok := m.Expr.(*ast.CallExpr); ok {
			switch ce.Fun.(*ast.Ident).Name {
			case "any":
				sel, ok := ce.Args[0].(*ast.SelectorExpr)
				if !ok { // a whole type
					x.keysOf(x.typ(exprString(ce.Args[0])), nil, func(k string, _ *T) { r = append(r, modEntry{key: k}) })
					continue
				}
				t := x.typ(exprString(sel.X))
				st, _ := isStruct(t)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == sel.Sel.Name {
						r = append(r, modEntry{key: x.fieldKey(t, i)})
					}
				}
				continue
			case "mapof":
				mv := s.eval(ce.Args[0])
				kp, kv := x.mapKeys(under(mv.t).(*types.Map))
				r = append(r, modEntry{key: kp, loc: mv.v.(*T)}, modEntry{key: kv, loc: mv.v.(*T)})
				continue
			}
		}
		key, loc, t := s.lval(m.Expr)
		if key != "" {
			r = append(r, modEntry{key: key, loc: loc})
		} else {
			x.keysOf(t, loc, func(k string, l *T) { r = append(r, modEntry{key: k, loc: l}) })
		}
	}
	return r
}

func (s *Scope) useLemma(st *State, l *Clause) {}

// ---- events in specifications

// event("kind", ...) counts on the concrete log of library calls of this path.
func (s *Scope) event(e *ast.CallExpr) *T {
	x, c := s.x, s.x.c
	switch s.lit(e.Args[0]) {
	case "errors": // event("errors", err): err is nil exactly when no logged call failed
		var fails []*T
		for _, ev := range s.st.events {
			if ev.err != nil && ev.kind != "num" {
				fails = append(fails, c.not(c.eq(x.itag(ev.err), c.int(0))))
			}
		}
		err := s.term(e.Args[1])
		return c.implies(c.or(fails...), c.not(c.eq(x.itag(err), c.int(0))))
	}
	s.bad(e, "event")
	return nil
}

// keepProp drops the clauses labelled with other properties than the one being verified.
func (cs *Contracts) keepProp() {
	if cs.Prop == "" {
		return
	}
	keep := func(cls []*Clause) []*Clause {
		var r []*Clause
		for _, cl := range cls {
			ok := len(cl.Props) == 0
			for _, p := range cl.Props {
				ok = ok || p == cs.Prop
			}
			if ok {
				r = append(r, cl)
			}
		}
		return r
	}
	for _, ct := range cs.Funcs {
		ct.Requires, ct.Ensures, ct.Axioms, ct.Invs, ct.Guarded = keep(ct.Requires), keep(ct.Ensures), keep(ct.Axioms), keep(ct.Invs), keep(ct.Guarded)
	}
}

// sameval compares what two values mean: pointers by what they point to.
func (s *Scope) sameval(e ast.Expr, t types.Type, p, q, name *T, depth int) *T {
	x, c := s.x, s.x.c
	pt, ok := under(t).(*types.Pointer)
	if !ok {
		if _, ok := under(t).(*types.Basic); ok {
			return c.eq(p, q)
		}
		s.bad(e, "sameval of %s", t)
	}
	stt, ok := isStruct(pt.Elem())
	if !ok || depth > 6 {
		s.bad(e, "sameval of %s", t)
	}
	var es []*T
	var fs []string
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == "XMLName" {
			continue
		}
		k := x.fieldKey(pt.Elem(), i)
		f := s.sameval(e, stt.Field(i).Type(), x.load(s.st, k, p), x.load(s.st, k, q), nil, depth+1)
		es = append(es, f)
		fs = append(fs, stt.Field(i).Name())
	}
	eq := c.and(es...)
	if name != nil { // a function of the name, known at the names of the fields
		fn := fmt.Sprintf("sv_%d", c.and(c.eq(p, q), eq).id)
		r := c.fn(fn, "Bool", name)
		for i, n := range fs {
			c.factOn(r, c.eq(c.fn(fn, "Bool", c.strLit(n)), es[i]))
		}
		return r
	}
	return c.or(c.eq(p, q), c.and(x.nonNil(p), x.nonNil(q), eq))
}
