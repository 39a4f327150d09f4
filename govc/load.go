package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the package under verification.
type Program struct {
	fset     *token.FileSet
	pkg      *ssa.Package
	tpkg     *types.Package
	prog     *ssa.Program
	funcs    map[string]*ssa.Function // "Name" or "T.Name"
	scopePos []token.Pos              // inside each file
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedDeps,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off"),
	}
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{fset: pkgs[0].Fset, pkg: spkgs[0], tpkg: pkgs[0].Types, prog: prog, funcs: map[string]*ssa.Function{}}
	for _, f := range pkgs[0].Syntax {
		for _, d := range f.Decls { // inside a declaration, where the file scope is visible
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				p.scopePos = append(p.scopePos, fd.Body.Lbrace)
				break
			}
		}
	}
	for _, m := range p.pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			p.funcs[m.Name()] = m
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				f := prog.FuncValue(n.Method(i))
				if f != nil {
					p.funcs[n.Obj().Name()+"."+f.Name()] = f
				}
			}
		}
	}
	return p, nil
}

func (p *Program) funcNames() []string {
	var ks []string
	for k := range p.funcs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fnKey(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	if f.Parent() != nil {
		return fnKey(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	return f.Name()
}

// ---- sorts

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func typeName(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string {
		if p.Name() == "docx" {
			return ""
		}
		return p.Name()
	})
}

type SortInfo struct {
	sort   string
	zero   *T
	fields []string // struct field sorts
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := under(t).(*types.Struct)
	return s, ok
}

// sort returns the SMT sort of a Go type, declaring struct datatypes.
func (x *Eng) sort(t types.Type) string {
	t = types.Unalias(t)
	if s, ok := x.sorts[t]; ok {
		return s
	}
	s := x.sort0(t)
	x.sorts[t] = s
	return s
}

func (x *Eng) sort0(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "String"
		case u.Info()&types.IsFloat != 0:
			return "F64"
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return "Loc"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Loc"
	case *types.Interface:
		return "Iface"
	case *types.Slice:
		if isByte(u.Elem()) {
			return "String"
		}
		return "(Seq " + x.sort(u.Elem()) + ")"
	case *types.Array:
		if isByte(u.Elem()) {
			return "String"
		}
		return "(Seq " + x.sort(u.Elem()) + ")"
	case *types.Struct:
		name := "S_" + sanitize(typeName(t))
		if len(name) > 60 {
			name = name[:60]
		}
		if o, ok := x.structOf[name]; ok && !types.Identical(o, t) {
			name = fmt.Sprintf("%s_%d", name, len(x.structOf))
		}
		x.structOf[name] = t
		var sb strings.Builder
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((mk%s", name, name)
		for i := 0; i < u.NumFields(); i++ {
			fmt.Fprintf(&sb, " (%s %s)", selName(name, i), x.sort(u.Field(i).Type()))
		}
		sb.WriteString("))))")
		if !x.c.declared[name] {
			x.c.declared[name] = true
			x.c.decls = append(x.c.decls, sb.String())
		}
		return name
	}
	panic(unsupported("sort of type " + t.String()))
}

func selName(sort string, i int) string { return fmt.Sprintf("%s.%d", sort, i) }

type unsupported string

func (u unsupported) Error() string { return string(u) }

// mkStruct builds a struct value.
func (x *Eng) mkStruct(t types.Type, fs []*T) *T {
	s := x.sort(t)
	if len(fs) == 0 {
		return x.c.mk(s, "mk"+s)
	}
	return x.c.mk(s, "mk"+s, fs...)
}

// field selects field i of a struct value.
func (x *Eng) field(t types.Type, v *T, i int) *T {
	s := x.sort(t)
	st, _ := isStruct(t)
	return x.c.sel(x.sort(st.Field(i).Type()), selName(s, i), "mk"+s, i, v)
}

func (x *Eng) zero(t types.Type) *T {
	c := x.c
	switch u := under(t).(type) {
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.zero(u.Field(i).Type()))
		}
		return x.mkStruct(t, fs)
	case *types.Array:
		if isByte(u.Elem()) {
			return c.strLit(strings.Repeat("\x00", int(u.Len())))
		}
		z := x.zero(u.Elem())
		s := c.seqEmpty(x.sort(t))
		for i := int64(0); i < u.Len(); i++ {
			s = c.concat(s, c.seqUnit(z))
		}
		return s
	}
	return x.zeroSort(x.sort(t))
}

func (x *Eng) zeroSort(s string) *T {
	c := x.c
	switch s {
	case "Bool":
		return c.fals()
	case "Int":
		return c.int(0)
	case "String":
		return c.strLit("")
	case "Loc":
		return x.nilLoc()
	case "Iface":
		return c.mk("Iface", "mki", c.int(0), x.nilLoc())
	case "F64":
		return c.mk("F64", "mkfin", c.mk("Real", "0.0"))
	}
	if isSeq(s) {
		return c.seqEmpty(s)
	}
	panic(unsupported("zero of sort " + s))
}

func (x *Eng) nilLoc() *T { return x.c.mk("Loc", "mkloc", x.c.int(-1), x.c.int(0)) }

func (x *Eng) oid(l *T) *T { return x.c.sel("Int", "oid", "mkloc", 0, l) }
func (x *Eng) pth(l *T) *T { return x.c.sel("Int", "pth", "mkloc", 1, l) }

// sub is the location of the embedded struct field k of the object at l.
func (x *Eng) sub(l *T, k int) *T {
	c := x.c
	return c.mk("Loc", "mkloc", x.oid(l), c.add(c.arith("*", x.pth(l), c.int(4096)), int64(k+1)))
}

func (x *Eng) tag(t types.Type) *T {
	t = types.Unalias(t)
	k := types.TypeString(t, nil)
	id, ok := x.tags[k]
	if !ok {
		id = len(x.tags) + 1
		x.tags[k] = id
		x.tagType[id] = t
	}
	return x.c.int(int64(id))
}

func (x *Eng) itag(v *T) *T { return x.c.sel("Int", "itag", "mki", 0, v) }
func (x *Eng) iloc(v *T) *T { return x.c.sel("Loc", "iloc", "mki", 1, v) }

// isPtrLike reports whether interface values of this dynamic type hold the location itself.
func isPtrLike(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// box makes an interface value holding v of dynamic type t.
func (x *Eng) box(t types.Type, v *T) *T {
	if isPtrLike(t) {
		return x.c.mk("Iface", "mki", x.tag(t), v)
	}
	// boxed values live in negative object numbers, one for each value
	s := v.sort
	nm := "box_" + sanitize(s)
	b := x.c.fn(nm, "Int", v)
	un := x.c.fn("un"+nm, s, b)
	x.c.factOn(b, x.c.eq(un, v))
	x.c.factOn(b, x.c.cmp("<", b, x.c.int(-1000)))
	return x.c.mk("Iface", "mki", x.tag(t), x.c.mk("Loc", "mkloc", b, x.c.int(0)))
}

func (x *Eng) unbox(t types.Type, v *T) *T {
	if isPtrLike(t) {
		return x.iloc(v)
	}
	s := x.sort(t)
	nm := "box_" + sanitize(s)
	o := x.oid(x.iloc(v))
	if o.op == nm {
		return o.args[0]
	}
	r := x.c.fn("un"+nm, s, o)
	x.c.declare(nm, []string{s}, "Int")
	return r
}
