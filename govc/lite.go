package main

// The light back end. The same assertions are sent to a second process in which strings and sequences
// are uninterpreted: a string is a literal or some other string, and the operations on strings and
// sequences are functions known only by a few laws (joining is associative, lengths add up, ...).
// Every law holds for real strings and sequences, so what is unsatisfiable here is unsatisfiable with
// the solver's own theories; nothing is concluded from any other answer. Most questions about a
// program are about numbers, pointers and joined pieces, and are settled here much faster.

import (
	"fmt"
	"strings"
)

const litePrelude = `(declare-datatypes ((Str 0)) (((lit (litid Int)) (oth (othid Int)))))
` + prelude

// liteSort renames a sort.
func (s *Solver) liteSort(x string) string {
	var sb strings.Builder
	for i := 0; i < len(x); {
		switch {
		case strings.HasPrefix(x[i:], "(Seq "):
			d, j := 0, i
			for ; j < len(x); j++ {
				if x[j] == '(' {
					d++
				} else if x[j] == ')' {
					d--
					if d == 0 {
						break
					}
				}
			}
			e := s.liteSort(x[i+5 : j])
			n := "Seq_" + sanitize(e)
			if !s.ldecl[n] {
				s.ldecl[n] = true
				s.pre = append(s.pre, fmt.Sprintf("(declare-sort %s 0)\n", n))
				s.pre = append(s.pre, fmt.Sprintf("(declare-fun cat_%s (%s %s) %s)\n(declare-fun len_%s (%s) Int)\n(declare-fun nth_%s (%s Int) %s)\n(declare-fun unit_%s (%s) %s)\n(declare-fun empty_%s () %s)\n", n, n, n, n, n, n, n, n, e, n, e, n, n, n))
				s.axioms = append(s.axioms, seqLaws(n, e))
			}
			sb.WriteString(n)
			i = j + 1
		case x[i] == '(' || x[i] == ')' || x[i] == ' ':
			sb.WriteByte(x[i])
			i++
		default:
			j := i
			for j < len(x) && x[j] != '(' && x[j] != ')' && x[j] != ' ' {
				j++
			}
			w := x[i:j]
			if w == "String" {
				w = "Str"
			}
			sb.WriteString(w)
			i = j
		}
	}
	return sb.String()
}

func seqLaws(n, e string) string {
	return strings.NewReplacer("#", n, "%", e).Replace(`(assert (forall ((a #) (b #) (c #)) (! (= (cat_# (cat_# a b) c) (cat_# a (cat_# b c))) :pattern ((cat_# (cat_# a b) c)))))
(assert (forall ((a #)) (! (= (cat_# empty_# a) a) :pattern ((cat_# empty_# a)))))
(assert (forall ((a #)) (! (= (cat_# a empty_#) a) :pattern ((cat_# a empty_#)))))
(assert (forall ((a #) (b #)) (! (= (len_# (cat_# a b)) (+ (len_# a) (len_# b))) :pattern ((len_# (cat_# a b))))))
(assert (forall ((x %)) (! (= (len_# (unit_# x)) 1) :pattern ((len_# (unit_# x))))))
(assert (forall ((x %)) (! (= (nth_# (unit_# x) 0) x) :pattern ((unit_# x)))))
(assert (= (len_# empty_#) 0))
(assert (forall ((a #)) (! (>= (len_# a) 0) :pattern ((len_# a)))))
(assert (forall ((a #) (b #) (i Int)) (! (=> (and (<= 0 i) (< i (len_# a))) (= (nth_# (cat_# a b) i) (nth_# a i))) :pattern ((nth_# (cat_# a b) i)))))
(assert (forall ((a #) (b #) (i Int)) (! (=> (and (<= (len_# a) i) (< i (+ (len_# a) (len_# b)))) (= (nth_# (cat_# a b) i) (nth_# b (- i (len_# a))))) :pattern ((nth_# (cat_# a b) i)))))
`)
}

const strLaws = `(assert (forall ((a Str) (b Str) (c Str)) (! (= (cat_Str (cat_Str a b) c) (cat_Str a (cat_Str b c))) :pattern ((cat_Str (cat_Str a b) c)))))
(assert (forall ((a Str)) (! (= (cat_Str (lit 0) a) a) :pattern ((cat_Str (lit 0) a)))))
(assert (forall ((a Str)) (! (= (cat_Str a (lit 0)) a) :pattern ((cat_Str a (lit 0))))))
(assert (forall ((a Str) (b Str)) (! (= (len_Str (cat_Str a b)) (+ (len_Str a) (len_Str b))) :pattern ((len_Str (cat_Str a b))))))
(assert (forall ((a Str)) (! (and (>= (len_Str a) 0) (= (= (len_Str a) 0) (= a (lit 0)))) :pattern ((len_Str a)))))
(assert (forall ((a Str) (b Str)) (! (L_str.prefixof_Str_Str a (cat_Str a b)) :pattern ((L_str.prefixof_Str_Str a (cat_Str a b))))))
(assert (forall ((a Str) (b Str)) (! (L_str.suffixof_Str_Str b (cat_Str a b)) :pattern ((L_str.suffixof_Str_Str b (cat_Str a b))))))
`

// liteDecl translates a declaration.
func (s *Solver) liteDecl(d string) string {
	r := s.liteSort(d)
	return r
}

func (s *Solver) flushPre(sb *strings.Builder) {
	for _, p := range s.pre {
		sb.WriteString(p)
	}
	s.pre = nil
}

// liteTop writes a term with the operations renamed.
func (s *Solver) liteTop(t *T, sb *strings.Builder) {
	if len(t.args) == 0 {
		switch {
		case t.isStr():
			fmt.Fprintf(sb, "(lit %d)", s.c.litID(t))
		case strings.HasPrefix(t.op, "(as seq.empty"):
			sb.WriteString("empty_" + s.liteSort(t.sort))
		case strings.HasPrefix(t.op, "("):
			sb.WriteString(s.liteSort(t.op))
		default:
			sb.WriteString(t.op)
		}
		return
	}
	arg := func(a *T) { s.liteTerm(a, sb) }
	switch t.op {
	case "str.++", "seq.++":
		n := "cat_" + s.liteSort(t.sort)
		for i, a := range t.args {
			if i < len(t.args)-1 {
				sb.WriteString("(" + n + " ")
			}
			arg(a)
			sb.WriteByte(' ')
		}
		sb.WriteString(strings.Repeat(")", len(t.args)-1))
		return
	case "seq.len", "str.len":
		sb.WriteString("(len_" + s.liteSort(t.args[0].sort))
	case "seq.nth":
		sb.WriteString("(nth_" + s.liteSort(t.args[0].sort))
	case "seq.unit":
		sb.WriteString("(unit_" + s.liteSort(t.sort))
	default:
		if strings.HasPrefix(t.op, "str.") || strings.HasPrefix(t.op, "seq.") {
			n := "L_" + sanitize(t.op)
			var as []string
			for _, a := range t.args {
				l := s.liteSort(a.sort)
				n += "_" + sanitize(l)
				as = append(as, l)
			}
			if !s.ldecl[n] {
				s.ldecl[n] = true
				s.pre = append(s.pre, fmt.Sprintf("(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), s.liteSort(t.sort)))
			}
			sb.WriteString("(" + n)
		} else if strings.HasPrefix(t.op, "(") {
			sb.WriteString("(" + s.liteSort(t.op))
		} else {
			sb.WriteString("(" + t.op)
		}
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		arg(a)
	}
	sb.WriteByte(')')
}

func (s *Solver) liteTerm(t *T, sb *strings.Builder) {
	if s.named[t.id] {
		fmt.Fprintf(sb, "t!%d", t.id)
		return
	}
	s.liteTop(t, sb)
}

// litID numbers the string literals; the empty string is 0.
func (c *Ctx) litID(t *T) int {
	if c.litIDs == nil {
		c.litIDs = map[string]int{`""`: 0}
	}
	n, ok := c.litIDs[t.op]
	if !ok {
		n = len(c.litIDs)
		c.litIDs[t.op] = n
	}
	return n
}
