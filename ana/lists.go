package main

import (
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Rule T03: list reads treat invalid elements as their name says.

func init() { checks["T03"] = checkT03 }

// exhausted: cond holding (or not) means that an index that counts from zero
// has reached the length of list; k is the header of the loop that counts.
func exhausted(x *Ctx, cond *Term, taken bool) (list *Term, head *ssa.BasicBlock) {
	e := x.e
	for cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	var l *LinExpr
	switch {
	case cond.op == "ge0":
		l = e.linOf(cond.args[0])
		if !taken {
			l = newLin(-1).add(l, -1)
		}
	case cond.op == "eq" && taken:
		l = e.linOf(cond.args[0]).add(e.linOf(cond.args[1]), -1)
		for a := range l.co {
			if a.op == "len" && l.co[a] == 1 {
				l = l.neg()
				break
			}
		}
	default:
		return nil, nil
	}
	var phi, ln *Term
	for a, k := range l.co {
		switch {
		case a.op == "len" && k == -1 && ln == nil:
			ln = a
		case a.op == "sym" && k == 1 && phi == nil:
			phi = a
		default:
			return nil, nil
		}
	}
	if phi == nil {
		return nil, nil
	}
	ph, ok := phi.in.(*ssa.Phi)
	if !ok || phi.fr != x.fr || !counts(ph, l.k) {
		return nil, nil
	}
	if ln == nil { // the list is known to be empty
		return nil, ph.Block()
	}
	return ln.args[0], ph.Block()
}

// isPart: a proper part of another list.
func isPart(x *Ctx, t *Term) bool {
	if t.op != "slice" {
		return false
	}
	lo, hi := t.args[1], t.args[2]
	whole := (lo.isNil() || isInt(lo, 0)) && (hi.isNil() || hi == x.e.mkLen(t.args[0]))
	return !whole || isPart(x, t.args[0])
}

type t03 struct {
	r     *Rep
	p     *Prog
	fn    *ssa.Function
	mode  string // plain, Valid, Strict
	elem  types.Type
	used  map[string]string          // loops that convert or collect: the type collected
	skip  map[string]ssa.Instruction // loops with rounds that do neither
	early map[string]ssa.Instruction // exits after leaving a loop early
	full  map[string]ssa.Instruction // loops after whose end the root returns
}

func listMode(fn *ssa.Function) string {
	for _, m := range []string{"Valid", "Strict"} {
		if strings.HasPrefix(fn.Name(), m) {
			return m
		}
	}
	return "plain"
}

func checkT03(p *Prog, r *Rep) {
	r.rule("every list read, per round of its loops: a converted element is collected unchanged; an element that does not convert is collected as the zero value (plain), not collected (Valid) or makes the read return an error (Strict); no element is passed over, no loop is left before the end of its list without an error, and the result is the whole collection in that order")
	r.need("collected", 14)
	r.need("zero", 7)
	r.need("whole", 21)
	r.need("strict", 7)
	r.assumes("the key belongs to a file", "the list of texts is the one the package's own splitting yields (which elements those are is not decided here)")
	roots := keyMethods(p, func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		if rs.Len() == 0 {
			return false
		}
		_, isList := rs.At(0).Type().Underlying().(*types.Slice)
		return isList && valueKind(rs.At(0).Type()) != ""
	})
	var ts []*t03
	var mu sync.Mutex
	r.run(roots, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
		t := &t03{r: r, p: p, fn: fn, mode: listMode(fn), used: map[string]string{}, skip: map[string]ssa.Instruction{}, early: map[string]ssa.Instruction{}, full: map[string]ssa.Instruction{}}
		t.elem = fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		mu.Lock()
		ts = append(ts, t)
		mu.Unlock()
		h := fullHooks()
		h.JoinCap = 8
		h.Call = t.call
		h.Append = func(x *Ctx, base, tail, res *Term) {
			if s, ok := res.typ.Underlying().(*types.Slice); ok && !isStringType(s.Elem()) {
				if tail.op == "arr" && len(tail.args) == 1 {
					t.collect(x, tail.args[0], s.Elem())
				} else {
					r.obx(x, false, "collected", t.where(x), "elements are collected in another way than one by one")
				}
			}
		}
		h.Store = func(x *Ctx, loc, val *Term) {
			if loc.op == "&e" && val.typ != nil && loc.args[0].op != "alloc" {
				if s, ok := loc.args[0].typ.Underlying().(*types.Slice); ok && !isStringType(s.Elem()) {
					t.collect(x, val, s.Elem())
				}
			}
		}
		h.BackEdge = func(x *Ctx, fr *Frame, head, st *State, hdr *ssa.BasicBlock) { t.round(x, st, hdrKey(fr, hdr), x.in) }
		h.Branch = t.branch
		h.RootExit = t.exit
		return h, nil
	})
	for _, t := range ts {
		name := fnName(t.fn)
		for k := range t.used {
			r.ob(t.skip[k] == nil, "whole", name, "passed over", "an element can be passed over without being converted or collected", "", t.skip[k])
			r.ob(t.early[k] == nil, "whole", name, "left early", "the loop can be left before the end of its list without an error", "", t.early[k])
		}
		for k, at := range t.full {
			r.ob(k != "" && t.used[k] == t.elem.String(), "whole", name, "result", "a list is returned without going through all elements", "", at)
		}
	}
}

func (t *t03) where(x *Ctx) string { return fnName(t.fn) + ": " + fnName(x.fr.fn) }

func (t *t03) call(x *Ctx, c *CallInfo) ([]CallRes, bool) {
	if kind, ti, ok := convInfo(x, c); ok {
		t.r.obx(x, x.st.cl["it"] == nil, "whole", t.where(x), "a second conversion in one round")
		txt := c.Args[ti]
		for txt.op == "call" && txt.aux == "strings.TrimSpace" {
			txt = txt.args[0]
		}
		isEl := (txt.op == "init" || txt.op == "hv") && txt.args[0].op == "&e" && !isPart(x, txt.args[0].args[0])
		t.r.obx(x, isEl, "collected", t.where(x), "what is converted is not an element of the list of texts")
		good, bad := convResults(x, c, kind)
		st2 := x.st.clone()
		x.st.cl["it"] = x.e.T.App("v", "ok", nil, good)
		st2.cl["it"] = x.e.T.App("v", "fail", nil, good)
		st2.cl["failed"] = x.e.T.Bool(true)
		return []CallRes{{x.st, []*Term{good, x.e.T.Nil()}}, {st2, []*Term{bad, failErr(x, "conv")}}}, true
	}
	if c.Kind == "ini" && c.Sig.Results().Len() == 1 && typeShort(c.Sig.Results().At(0).Type()) == "[]string" && len(x.e.fnInfo(c.Fn).loops) > 0 {
		list := x.fresh("list", c.Sig.Results().At(0).Type())
		x.st.cl["list"] = list
		return []CallRes{{x.st, []*Term{list}}}, true
	}
	n := c.Name
	if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || n == "slices.Reverse" || strings.HasPrefix(n, "slices.Compact") || strings.HasPrefix(n, "slices.Delete") {
		t.r.obx(x, false, "whole", t.where(x)+" "+n, "the list is rearranged")
	}
	return keyText(x, c)
}

func unbox(t *Term) *Term {
	for t.op == "changetype" || t.op == "iface" || t.op == "changeiface" || t.op == "convert" {
		t = t.args[0]
	}
	return t
}

func (t *t03) collect(x *Ctx, val *Term, typ types.Type) {
	v := unbox(val)
	it := x.st.cl["it"]
	t.r.obx(x, x.st.cl["app"] == nil, "whole", t.where(x), "an element is collected twice in one round")
	x.st.cl["app"] = x.e.T.App("v", typ.String(), nil)
	switch {
	case it == nil:
		ok := false
		switch v.op {
		case "init", "hv", "sym", "typeassert", "index", "conv":
			ok = true
		}
		t.r.obx(x, ok, "collected", t.where(x), "what is collected is not the element")
	case it.aux == "ok":
		t.r.obx(x, v == it.args[0], "collected", t.where(x), "the element converts but something else is collected")
	case t.mode == "Valid":
		t.r.obx(x, false, "zero", t.where(x), "an element that does not convert is collected")
	case t.mode == "plain":
		vt := v.typ
		if vt == nil {
			vt = t.elem
		}
		t.r.obx(x, isZeroTerm(x, x.st, v, vt), "zero", t.where(x), "an element that does not convert is collected as something other than the zero value")
	}
}

// round: the end of one round of a loop.
func (t *t03) round(x *Ctx, st *State, key string, at ssa.Instruction) {
	it, app := st.cl["it"], st.cl["app"]
	if app != nil {
		t.used[key] = app.aux
	} else if it != nil {
		if _, ok := t.used[key]; !ok {
			t.used[key] = ""
		}
	} else {
		t.skip[key] = at
		return
	}
	t.ended(x, st, at)
}

func (t *t03) ended(x *Ctx, st *State, at ssa.Instruction) {
	it, app := st.cl["it"], st.cl["app"]
	if it != nil {
		switch {
		case it.aux == "ok":
			t.r.ob(app != nil, "collected", t.where(x), "dropped", "an element converts but is not collected", "", at)
		case t.mode == "plain":
			t.r.ob(app != nil, "zero", t.where(x), "dropped", "an element that does not convert is left out", "", at)
		}
	}
	delete(st.cl, "it")
	delete(st.cl, "app")
}

func (t *t03) branch(x *Ctx, cond *Term, taken bool) bool {
	b := x.in.Block()
	in := x.e.fnInfo(x.fr.fn).inLoop[b]
	if len(in) == 0 {
		return true
	}
	succ := b.Succs[1]
	if taken {
		succ = b.Succs[0]
	}
	for _, l := range in {
		if l.blocks[succ] {
			continue
		}
		if list, hd := exhausted(x, cond, taken); hd == l.head && (list == nil || !isPart(x, list)) {
			k := hdrKey(x.fr, hd)
			if list != nil && list == x.st.cl["list"] {
				x.st.cl["done"] = x.e.T.Bool(true)
			}
			x.st.cl["last"] = x.e.T.App("v", k, nil)
			continue
		}
		x.st.cl["early"] = x.e.T.App("v", hdrKey(x.fr, l.head), nil)
	}
	return true
}

func (t *t03) exit(x *Ctx, ex *Exit) {
	st := ex.st
	name := fnName(t.fn)
	if len(ex.results) == 2 {
		failed := st.cl["failed"] != nil
		if failed {
			t.r.ob(x.e.knownNonNil(st, ex.results[1]), "strict", name, "return", "an element does not convert but no error is returned", "", ex.ret)
			return
		}
		t.r.ob(x.e.knownNil(st, ex.results[1]), "strict", name, "return", "every element converts but an error is returned", "", ex.ret)
	}
	if e := st.cl["early"]; e != nil {
		t.early[e.aux] = ex.ret
	}
	t.ended(x, st, ex.ret)
	list := st.cl["list"]
	if list != nil && x.e.provesGE0(st, x.e.linOf(x.e.mkLen(list)).neg()) || emptyText(x, st) {
		return
	}
	if st.cl["done"] == nil || list == nil {
		t.full[""] = ex.ret
		return
	}
	t.full[clStr(st, "last")] = ex.ret
	res := ex.results[0]
	for res.op == "changetype" {
		res = res.args[0]
	}
	bad := res.isConst() || res.isNil() || res.op == "slice" && !isInt(res.args[1], 0) && !res.args[1].isNil() || res.op == "slice" && t.mode != "Valid" && isPart(x, res)
	t.r.ob(!bad, "whole", name, "result", "what is returned is not the whole collection", "", ex.ret)
}

// emptyText: the key's text is known to be empty.
func emptyText(x *Ctx, st *State) bool {
	for f, pol := range st.facts {
		if pol && f.op == "eq" && (isEmptyStr(f.args[1]) && f.args[0].op == "expand" || isEmptyStr(f.args[0]) && f.args[1].op == "expand") {
			return true
		}
	}
	return false
}
