package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule T01: reads restricted to candidates or to a range.

func init() { checks["T01"] = checkT01 }

func checkT01(p *Prog, r *Rep) {
	r.rule("candidate reads: every result other than the default is the value read (or the candidate) with an equality between the two established on the path, and the default is returned only after every candidate was compared; range reads: every result other than the default is the value read with both bounds established on the path, and the default is returned only with a bound violated")
	r.need("candidate", 8)
	r.need("candidate-default", 8)
	r.need("range", 5)
	r.need("range-default", 5)
	r.assumes("the key belongs to a file")
	roots := keyMethods(p, func(f *ssa.Function) bool {
		return (strings.HasPrefix(f.Name(), "In") || strings.HasPrefix(f.Name(), "Range")) && f.Signature.Results().Len() == 1 && t01Params(f) != nil
	})
	r.run(roots, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
		h := fullHooks()
		t := &t01{r: r, fn: fn, pp: t01Params(fn), scan: map[string]bool{}, bad: map[string]bool{}}
		h.Call = t.call
		h.BackEdge = t.backEdge
		h.Branch = t.branch
		h.RootExit = t.exit
		return h, func(e *Eng, fr *Frame, st *State) {
			t.e = e
			for i, q := range t.pp {
				t.ps[i] = e.T.Sym(fr, nil, q.Name(), q.Type())
			}
		}
	})
}

// t01Params: default and candidates, or default, lower and upper bound.
func t01Params(f *ssa.Function) []*ssa.Parameter {
	rt := f.Signature.Results().At(0).Type()
	var same []*ssa.Parameter
	var list *ssa.Parameter
	for _, q := range f.Params[1:] {
		if types.Identical(q.Type(), rt) {
			same = append(same, q)
		} else if s, ok := q.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), rt) {
			list = q
		}
	}
	switch {
	case len(same) == 1 && list != nil:
		return []*ssa.Parameter{same[0], list}
	case len(same) == 3 && list == nil:
		return same
	}
	return nil
}

type t01 struct {
	r    *Rep
	fn   *ssa.Function
	e    *Eng
	pp   []*ssa.Parameter
	ps   [3]*Term
	scan map[string]bool // index expressions compared on every turn of a loop
	bad  map[string]bool // loops (headers) with a turn that compares nothing
}

func (t *t01) call(x *Ctx, c *CallInfo) ([]CallRes, bool) {
	if kind, ti, ok := convInfo(x, c); ok {
		good, bad := convResults(x, c, kind)
		st2 := x.st.clone()
		x.st.cl["read"] = x.e.T.App("v", "", nil, good)
		st2.cl["read"] = x.e.T.App("v", "", nil, t.e.zero(t.pp[0].Type()))
		t.r.obx(x, !badText(c.Args[ti], notKeyText), "text", fnName(t.fn)+": "+c.Name, "converts something other than the key's value")
		return []CallRes{{x.st, []*Term{good, x.e.T.Nil()}}, {st2, []*Term{bad, failErr(x, "conv")}}}, true
	}
	switch c.Name {
	case "slices.ContainsFunc", "slices.IndexFunc":
		if len(c.Args) == 2 && c.Args[0] == t.ps[1] {
			el := x.e.T.Sym(x.fr, x.in, "candidate", t.pp[0].Type())
			var out []CallRes
			var v *Term
			sts := x.e.callTerm(x, c.Args[1], []*Term{el}, &ssa.CallCommon{Value: c.Common.Args[1]}, func(st *State, res []*Term) {
				if len(res) == 1 {
					st.cl["$b"] = res[0]
				}
			})
			for _, st := range sts {
				v = st.cl["$b"]
				delete(st.cl, "$b")
				if v == nil {
					continue
				}
				for _, hit := range []bool{true, false} {
					s2 := st.clone()
					if !x.e.assume(s2, v, hit) {
						continue
					}
					if !hit && t.eqFact(s2, el, nil) == -1 {
						s2.cl["left"] = x.e.T.App("v", "full", nil)
					}
					if hit && t.eqFact(s2, el, nil) == 1 {
						t.eqFact(s2, el, func(i, a, b *Term, pol bool) { s2.cl["hit"] = x.e.T.App("v", "", nil, stripConv(a), stripConv(b)) })
					}
					res := x.e.T.Bool(hit)
					if c.Name == "slices.IndexFunc" {
						res = x.e.T.Int(-1)
						if hit {
							res = x.fresh("hit", types.Typ[types.Int])
							s2.cl["hitidx"], s2.cl["hitel"] = res, el
							x.e.addFact(s2, x.e.mkGE0(x.e.linOf(res)), true)
						}
					}
					out = append(out, CallRes{s2, []*Term{res}})
				}
			}
			if len(out) > 0 {
				return out, true
			}
		}
	case "slices.Contains", "slices.Index":
		if len(c.Args) == 2 && c.Args[0] == t.ps[1] {
			el := x.e.T.Sym(x.fr, x.in, "candidate", t.pp[0].Type())
			st2 := x.st.clone()
			if t.isRead(x.st, c.Args[1]) && !isStructType(el.typ) {
				x.st.cl["hit"] = x.e.T.App("v", "", nil, stripConv(c.Args[1]), el)
				st2.cl["left"] = x.e.T.App("v", "full", nil)
			}
			a, b := x.e.T.Bool(true), x.e.T.Bool(false)
			if c.Name == "slices.Index" {
				a, b = x.fresh("hit", types.Typ[types.Int]), x.e.T.Int(-1)
				x.e.addFact(x.st, x.e.mkGE0(x.e.linOf(a)), true)
				x.st.cl["hitidx"], x.st.cl["hitel"] = a, el
			}
			return []CallRes{{x.st, []*Term{a}}, {st2, []*Term{b}}}, true
		}
	}
	return keyText(x, c)
}

// read: the value that was read on this path.
func (t *t01) read(st *State) *Term {
	if v := st.cl["read"]; v != nil {
		return stripConv(v.args[0])
	}
	return nil
}
func (t *t01) isText(v *Term) bool {
	return isStringType(t.pp[0].Type()) && (v.op == "expand" || v.op == "call" || v.op == "sym") && v != t.ps[0] && !badText(v, notKeyText)
}
func (t *t01) isRead(st *State, v *Term) bool {
	v = stripConv(v)
	if isStringType(t.pp[0].Type()) {
		return t.isText(v)
	}
	rd := t.read(st)
	return v == rd || v.isConst() && rd != nil && rd.isConst() && v.String() == rd.String()
}

// isElem: an element of the candidates; idx is its position if known.
func (t *t01) isElem(st *State, v *Term) (idx *Term, ok bool) {
	v = stripConv(v)
	if (v.op == "init" || v.op == "hv") && v.args[0].op == "&e" && v.args[0].args[0] == t.ps[1] {
		i := v.args[0].args[1]
		if i == st.cl["hitidx"] {
			return nil, true
		}
		return i, true
	}
	if v.op == "sym" && strings.Contains(v.aux, "candidate@") {
		return nil, true
	}
	return nil, false
}

// equality: the two sides an atom compares.
func equality(f *Term) (a, b *Term, ok bool) {
	switch {
	case f.op == "eq" && len(f.args) == 2:
		if f.args[0].op == "call" && isInt(f.args[1], 0) && isCompare(f.args[0]) {
			return f.args[0].args[0], f.args[0].args[1], true
		}
		if isStructType(f.args[0].typ) {
			return nil, nil, false
		}
		return f.args[0], f.args[1], true
	case f.op == "call" && f.aux == "(time.Time).Equal" && len(f.args) == 2:
		return f.args[0], f.args[1], true
	}
	return nil, nil, false
}

func isStructType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func isCompare(f *Term) bool {
	return f.op == "call" && len(f.args) == 2 && (f.aux == "(time.Time).Compare" || f.aux == "cmp.Compare" || f.aux == "strings.Compare")
}

// eqFact: whether the value read and an element (el, or any) are known to be
// equal (1) or different (-1).
func (t *t01) eqFact(st *State, el *Term, each func(idx *Term, a, b *Term, pol bool)) int {
	res := 0
	for f, pol := range st.facts {
		a, b, ok := equality(f)
		if !ok {
			continue
		}
		if !t.isRead(st, a) {
			a, b = b, a
		}
		if !t.isRead(st, a) {
			continue
		}
		i, ok := t.isElem(st, b)
		if !ok || el != nil && b != el {
			continue
		}
		if each != nil {
			each(i, a, b, pol)
		}
		if pol {
			res = 1
		} else if res == 0 {
			res = -1
		}
	}
	return res
}

func hdrKey(fr *Frame, b *ssa.BasicBlock) string { return fmt.Sprintf("%d:%d", fr.id, b.Index) }

func (t *t01) backEdge(x *Ctx, fr *Frame, head, next *State, hdr *ssa.BasicBlock) {
	if len(t.pp) != 2 {
		return
	}
	any := false
	t.eqFact(next, nil, func(i, a, b *Term, pol bool) {
		if !pol && i != nil {
			any = true
			t.scan[hdrKey(fr, hdr)+fmt.Sprint("|", i.id)] = true
		}
	})
	if !any {
		t.bad[hdrKey(fr, hdr)] = true
	}
}

// branch: leaving a loop because its index has reached the end.
func (t *t01) branch(x *Ctx, cond *Term, taken bool) bool {
	if len(t.pp) != 2 {
		return true
	}
	for cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	if a, b, ok := equality(cond); ok && taken {
		if !t.isRead(x.st, a) {
			a, b = b, a
		}
		if _, el := t.isElem(x.st, b); el && t.isRead(x.st, a) {
			x.st.cl["hit"] = t.e.T.App("v", "", nil, stripConv(a), stripConv(b))
		}
	}
	ln := t.e.mkLen(t.ps[1])
	var l *LinExpr
	switch {
	case cond.op == "ge0":
		l = t.e.linOf(cond.args[0])
		if !taken {
			l = newLin(-1).add(l, -1)
		}
	case cond.op == "eq" && taken:
		l = t.e.linOf(cond.args[0]).add(t.e.linOf(cond.args[1]), -1)
		if l.co[ln] == 1 {
			l = l.neg()
		}
	default:
		return true
	}
	// l >= 0 holds from here on
	if l.co[ln] != -1 {
		return true
	}
	if len(l.co) == 1 && l.k <= 0 {
		x.st.cl["left"] = t.e.T.App("v", "full", nil)
		return true
	}
	i := t.e.mkLin(l.add(t.e.linOf(ln), 1), types.Typ[types.Int]) // i >= len
	var phi *Term
	for a := range l.co {
		if a != ln {
			if phi != nil {
				return true
			}
			phi = a
		}
	}
	if phi == nil || phi.op != "sym" {
		return true
	}
	ph, ok := phi.in.(*ssa.Phi)
	if !ok || l.co[phi] != 1 || phi.fr != x.fr {
		return true
	}
	if !counts(ph, l.k) {
		return true
	}
	x.st.cl["left"] = t.e.T.App("v", hdrKey(x.fr, ph.Block()), nil, i)
	return true
}

// counts: ph+k runs through 0, 1, 2, ...
func counts(ph *ssa.Phi, k int64) bool {
	for i, e := range ph.Edges {
		if c, ok := e.(*ssa.Const); ok && !ph.Block().Dominates(ph.Block().Preds[i]) {
			if c.Int64()+k != 0 {
				return false
			}
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		one, ok := b.Y.(*ssa.Const)
		if !ok || b.X != ph || one.Int64() != 1 {
			return false
		}
	}
	return true
}

func (t *t01) exit(x *Ctx, ex *Exit) {
	if t.pp == nil {
		return
	}
	name := fnName(t.fn)
	res := stripConv(ex.results[0])
	if len(t.pp) == 3 {
		t.rangeExit(x, ex, res, name)
		return
	}
	if res == t.ps[0] {
		full := false
		if l := ex.st.cl["left"]; l != nil {
			full = l.aux == "full" || len(l.args) == 1 && !t.bad[l.aux] && t.scan[l.aux+fmt.Sprint("|", l.args[0].id)]
		}
		full = full || x.e.provesGE0(ex.st, x.e.linOf(x.e.mkLen(t.ps[1])).neg())
		t.r.ob(full, "candidate-default", name, "return", "the default can be returned before every candidate was compared with the value", "", ex.ret)
		t.r.ob(t.eqFact(ex.st, nil, nil) != 1 && ex.st.cl["hit"] == nil, "candidate-default", name, "no candidate", "the default can be returned although a candidate equals the value", "", ex.ret)
		return
	}
	ok := false
	if h := ex.st.cl["hit"]; h != nil {
		ok = res == h.args[0] || res == h.args[1]
	}
	t.eqFact(ex.st, nil, func(i, a, b *Term, pol bool) {
		if pol && (stripConv(a) == res || stripConv(b) == res) {
			ok = true
		}
	})
	if i, el := t.isElem(ex.st, res); el && i == nil && ex.st.cl["hitel"] != nil {
		ok = ex.st.cl["hit"] != nil
	}
	t.r.ob(ok, "candidate", name, "return", "a value is returned that was not found equal to a candidate", "", ex.ret)
}

// atLeast: a >= b is known (1), a < b or not comparable is known (-1).
func atLeast(e *Eng, st *State, a, b *Term, float bool) int {
	if a.typ != nil && isIntType(a.typ) || b.typ != nil && isIntType(b.typ) {
		d := e.linOf(a).add(e.linOf(b), -1)
		if e.provesGE0(st, d) {
			return 1
		}
		if e.provesGE0(st, newLin(-1).add(d, -1)) {
			return -1
		}
		return 0
	}
	for f, pol := range st.facts {
		switch {
		case f.op == "le" && len(f.args) == 2: // args[0] <= args[1]
			l, h := stripConv(f.args[0]), stripConv(f.args[1])
			if l == b && h == a {
				if pol {
					return 1
				}
				return -1
			}
			if l == a && h == b && !pol && !float {
				return 1
			}
		case f.op == "lt" && len(f.args) == 2:
			l, h := stripConv(f.args[0]), stripConv(f.args[1])
			if l == a && h == b {
				if pol {
					return -1
				}
				if !float {
					return 1
				}
			}
			if l == b && h == a && pol {
				return 1
			}
		case f.op == "call" && len(f.args) == 2 && (f.aux == "(time.Time).Before" || f.aux == "(time.Time).After"):
			l, h := f.args[0], f.args[1]
			if f.aux == "(time.Time).After" {
				l, h = h, l
			}
			// l < h
			if l == a && h == b {
				if pol {
					return -1
				}
				return 1
			}
			if l == b && h == a && pol {
				return 1
			}
		case f.op == "call" && f.aux == "(time.Time).Equal" && pol:
			if f.args[0] == a && f.args[1] == b || f.args[0] == b && f.args[1] == a {
				return 1
			}
		}
	}
	for _, nm := range []string{"(time.Time).Compare", "cmp.Compare"} {
		c := e.T.App("call", nm, types.Typ[types.Int], a, b)
		if e.provesGE0(st, e.linOf(c)) {
			return 1
		}
		if e.provesGE0(st, newLin(-1).add(e.linOf(c), -1)) {
			return -1
		}
		c = e.T.App("call", nm, types.Typ[types.Int], b, a)
		if e.provesGE0(st, e.linOf(c).neg()) {
			return 1
		}
		if e.provesGE0(st, e.linOf(c).add(newLin(1), -1)) {
			return -1
		}
	}
	return 0
}

func (t *t01) rangeExit(x *Ctx, ex *Exit, res *Term, name string) {
	rd := t.read(ex.st)
	if rd == nil {
		t.r.ob(false, "range", name, "no value", "a path returns without reading the value", "", ex.ret)
		return
	}
	float := isFloatType(t.pp[0].Type())
	for f, pol := range ex.st.facts {
		nan := 0
		if f.op == "call" && f.aux == "math.IsNaN" && f.args[0] == rd {
			nan = 1
		} else if f.op == "eq" && f.args[0] == rd && f.args[1] == rd {
			nan = -1
		}
		if nan != 0 && pol == (nan == 1) {
			t.r.ob(res == t.ps[0], "range", name, "not a number", "a value that is not a number is returned", "", ex.ret)
			return
		}
		if nan != 0 {
			float = false
		}
	}
	lo := atLeast(x.e, ex.st, rd, t.ps[1], float)
	hi := atLeast(x.e, ex.st, t.ps[2], rd, float)
	if res == t.ps[0] {
		t.r.ob(lo == -1 || hi == -1, "range-default", name, "return", "the default can be returned although the value is in the range", "", ex.ret)
		return
	}
	t.r.ob(t.isRead(ex.st, res), "range", name, "result", "what is returned is neither the value nor the default", "", ex.ret)
	t.r.ob(lo == 1, "range", name, "lower bound", "a value can be returned without being known to reach the lower bound", "", ex.ret)
	t.r.ob(hi == 1, "range", name, "upper bound", "a value can be returned without being known to stay within the upper bound", "", ex.ret)
}
