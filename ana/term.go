package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic value. Terms with equal keys are the same
// pointer, so two evaluations of a pure operation on the same operands denote
// the same value.
type Term struct {
	id    int
	op    string // "const", "nil", "sym", or the name of an operation
	aux   string // extra static data (field key, type, ...)
	val   constant.Value
	typ   types.Type
	args  []*Term
	fr    *Frame          // sym: creating frame
	in    ssa.Instruction // sym: creating instruction (its block locates it in loops)
	fn    *ssa.Function   // "func"/"closure"
	syms  []*Term         // all syms occurring in the term, sorted by id
	cells []*Term         // all "alloc" syms
	key   string
	depth int
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isNil() bool   { return t.op == "nil" }

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	switch t.op {
	case "const":
		return t.val.String()
	case "nil":
		return "nil"
	case "sym", "alloc":
		return t.aux
	case "func":
		return t.fn.Name()
	}
	if d <= 0 {
		return "…"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d-1))
	}
	n := t.op
	if t.op == "closure" {
		n = t.fn.Name()
	}
	if t.aux != "" {
		n += "{" + t.aux + "}"
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

// Terms is the interning table.
type Terms struct {
	m map[string]*Term
	n int
}

func (tt *Terms) intern(key string, mk func() *Term) *Term {
	if t, ok := tt.m[key]; ok {
		return t
	}
	t := mk()
	tt.n++
	t.id = tt.n
	t.key = key
	if t.op == "sym" || t.op == "alloc" {
		t.syms = []*Term{t}
		if t.op == "alloc" {
			t.cells = []*Term{t}
		}
	}
	if len(t.args) > 0 {
		seen := map[*Term]bool{}
		for _, a := range t.args {
			if a.depth >= t.depth {
				t.depth = a.depth + 1
			}
			for _, s := range a.syms {
				if !seen[s] {
					seen[s] = true
					t.syms = append(t.syms, s)
					if s.op == "alloc" {
						t.cells = append(t.cells, s)
					}
				}
			}
		}
		sort.Slice(t.syms, func(i, j int) bool { return t.syms[i].id < t.syms[j].id })
	}
	tt.m[key] = t
	return t
}

func (tt *Terms) Const(v constant.Value, typ types.Type) *Term {
	k := "c:" + v.Kind().String() + ":" + v.ExactString()
	if v.Kind() == constant.Float || v.Kind() == constant.Int {
		k = "c:num:" + v.ExactString()
	}
	return tt.intern(k, func() *Term { return &Term{op: "const", val: v, typ: typ} })
}
func (tt *Terms) Bool(b bool) *Term {
	return tt.Const(constant.MakeBool(b), types.Typ[types.Bool])
}
func (tt *Terms) Int(n int64) *Term {
	return tt.Const(constant.MakeInt64(n), types.Typ[types.Int])
}
func (tt *Terms) Str(s string) *Term {
	return tt.Const(constant.MakeString(s), types.Typ[types.String])
}
func (tt *Terms) Nil() *Term { return tt.intern("nil", func() *Term { return &Term{op: "nil"} }) }

// Sym is an opaque value created by instruction in of frame fr.
func (tt *Terms) Sym(fr *Frame, in ssa.Instruction, tag string, typ types.Type) *Term {
	k := fmt.Sprintf("s:%d:%p:%s", fr.id, in, tag)
	return tt.intern(k, func() *Term {
		nm := tag
		if in != nil {
			if v, ok := in.(ssa.Value); ok {
				nm = v.Name() + "." + tag
			}
		}
		return &Term{op: "sym", aux: fmt.Sprintf("%s@%s#%d", nm, fr.fn.Name(), fr.id), fr: fr, in: in, typ: typ}
	})
}
func (tt *Terms) Alloc(fr *Frame, in ssa.Instruction, tag string, typ types.Type) *Term {
	k := fmt.Sprintf("a:%d:%p:%s", fr.id, in, tag)
	return tt.intern(k, func() *Term {
		nm := tag
		if v, ok := in.(ssa.Value); ok {
			nm = v.Name() + "." + tag
		}
		return &Term{op: "alloc", aux: fmt.Sprintf("new %s@%s#%d", nm, fr.fn.Name(), fr.id), fr: fr, in: in, typ: typ}
	})
}
func (tt *Terms) Func(fn *ssa.Function) *Term {
	return tt.intern(fmt.Sprintf("f:%p", fn), func() *Term { return &Term{op: "func", fn: fn, typ: fn.Signature} })
}
func (tt *Terms) App(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString("p:")
	b.WriteString(op)
	b.WriteByte('{')
	b.WriteString(aux)
	b.WriteByte('}')
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	return tt.intern(b.String(), func() *Term { return &Term{op: op, aux: aux, typ: typ, args: args} })
}
func (tt *Terms) Closure(fn *ssa.Function, binds []*Term) *Term {
	k := fmt.Sprintf("cl:%p", fn)
	for _, a := range binds {
		k += fmt.Sprintf(",%d", a.id)
	}
	return tt.intern(k, func() *Term { return &Term{op: "closure", fn: fn, args: binds, typ: fn.Signature} })
}

// subst replaces terms according to f (applied top-down, first match wins).
func (e *Eng) subst(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if x := f(t); x != nil {
		r = x
	} else if len(t.args) == 0 {
		r = t
	} else {
		changed := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = e.subst(a, f, memo)
			if na[i] != a {
				changed = true
			}
		}
		if !changed {
			r = t
		} else {
			r = e.rebuild(t, na)
		}
	}
	memo[t] = r
	return r
}

func (e *Eng) rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case "closure":
		return e.T.Closure(t.fn, na)
	case "eq":
		return e.mkEq(na[0], na[1])
	case "lt":
		return e.mkLt(na[0], na[1])
	case "not":
		return e.mkNot(na[0])
	case "add":
		return e.mkAdd(na[0], na[1], t.typ)
	case "sub":
		return e.mkSub(na[0], na[1], t.typ)
	case "len":
		return e.mkLen(na[0])
	case "concat":
		return e.mkConcat(na[0], na[1])
	case "slice":
		return e.mkSlice(na[0], na[1], na[2], t.typ)
	}
	return e.T.App(t.op, t.aux, t.typ, na...)
}

func symsSubset(t *Term, alive map[*Term]bool) bool {
	for _, s := range t.syms {
		if !alive[s] {
			return false
		}
	}
	return true
}
func symsAny(t *Term, alive map[*Term]bool) bool {
	for _, s := range t.syms {
		if alive[s] {
			return true
		}
	}
	return false
}
