package main

import (
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["I02"] = checkI02 }

var secFields = map[string]bool{"File.sectionList": true, "File.sectionIndexes": true, "File.sections": true}

func checkI02(p *Prog, r *Rep) {
	r.rule("on every path through a function that writes the section list, the index list or the section table (or through its callers, for a helper): a section added to one is added at the end of all three, with the number of sections its name had before as its index; a section removed from one is removed from all three, from list and index list at one position, and the last of its name only as the last; the entries that follow it under its name are counted down by one; nothing else changes places")
	r.need("in-step", 2)
	r.assumes("at most one section is created or deleted by one operation of the package's own table code")
	var mu sync.Mutex
	down, cut := map[*ssa.Function]bool{}, map[*ssa.Function]ssa.Instruction{}
	post := func(f *ssa.Function, report func(finding)) {
		if at := cut[f]; at != nil && !down[f] {
			report(finding{fn: f, rule: "in-step", what: "index list", why: "an entry is removed from the index list but the following ones of its name are never counted down", at: at})
		}
	}
	together(p, r, writersOf(p, secFields), post, func(fn *ssa.Function, report func(finding)) (*Hooks, func(*Eng, *Frame, *State)) {
		t := &i02{fn: fn, report: report, cut: func(at ssa.Instruction) { mu.Lock(); cut[fn] = at; mu.Unlock() }, down: func() { mu.Lock(); down[fn] = true; mu.Unlock() }}
		return t.hooks(), nil
	})
}

type i02 struct {
	fn     *ssa.Function
	report func(finding)
	cut    func(ssa.Instruction)
	down   func()
}

func (t *i02) hooks() *Hooks {
	h := fullHooks()
	h.JoinCap, h.ExitCap, h.FactCap = 12, 24, 32
	absent(h, func(x *Ctx, v *Term) bool { return storageVal(x, v) == "File.sectionList" }, func(x *Ctx, v *Term) bool { return storageVal(x, v) == "File.sections" })
	h.Store = func(x *Ctx, loc, val *Term) {
		switch loc.op {
		case "&f":
			if rootOf(loc).op == "alloc" {
				return
			}
			switch loc.aux {
			case "File.sectionList":
				t.list(x, "L", loc, val)
			case "File.sectionIndexes":
				t.list(x, "I", loc, val)
			case "File.sections":
				setOne(x, "resetT", loc)
			}
		case "&m":
			if storageVal(x, loc.args[0]) == "File.sections" {
				t.list(x, "T", loc, val)
			}
		case "&e":
			switch c := collOf(x, loc.args[0]); {
			case c == "File.sectionIndexes":
				t.count(x, loc, val)
			case (c == "File.sectionList" || c == "*File.sections") && tailElem(x, loc.args[0], val):
				setOne(x, "moved", loc.args[0])
			}
		}
	}
	h.MapDelete = func(x *Ctx, loc *Term) {
		if storageVal(x, loc.args[0]) != "File.sections" {
			return
		}
		e := x.e
		l := e.peek(x, e.mapLoc(loc.args[0], loc.args[1], loc.args[0].typ, "&m"), loc.args[0].typ.Underlying().(*types.Map).Elem())
		last := l != nil && e.provesGE0(x.st, newLin(1).add(e.linOf(e.mkLen(l)), -1))
		setOne(x, "Tgone", loc.args[1])
		if n := x.st.cl["last"]; n != nil && (n == loc.args[1] || e.evalBool(x.st, e.mkEq(n, loc.args[1])) == 1) {
			last = true
		}
		if !last {
			setOne(x, "all", loc.args[1])
		}
	}
	branch := h.Branch
	h.Branch = func(x *Ctx, cond *Term, taken bool) bool {
		c, pol := cond, taken
		for c.op == "not" {
			c, pol = c.args[0], !pol
		}
		if c.op == "eq" && c.args[0].typ != nil && isString(c.args[0].typ) {
			delete(x.st.cl, "named")
			if pol {
				x.st.cl["named"] = c
			}
		}
		for _, s := range subterms(c) {
			if s.op == "len" && (s.args[0].op == "init" || s.args[0].op == "hv") && s.args[0].args[0].op == "&m" && storageVal(x, s.args[0].args[0].args[0]) == "File.sections" {
				delete(x.st.cl, "last")
				if x.e.provesGE0(x.st, newLin(1).add(x.e.linOf(s), -1)) {
					x.st.cl["last"] = s.args[0].args[0].args[1]
				}
			}
		}
		return branch(x, cond, taken)
	}
	h.BackEdge = func(x *Ctx, fr *Frame, _, st *State, hdr *ssa.BasicBlock) {
		delete(x.st.cl, "named")
	}
	pass := h.Call
	h.Call = apart(func(x *Ctx, ci *CallInfo) ([]CallRes, bool) {
		if mutator(ci.Name) && !strings.Contains(ci.Name, "Delete") && len(ci.Args) > 0 {
			if c := collOf(x, unbox(ci.Args[0])); c == "File.sectionList" || c == "File.sectionIndexes" || c == "*File.sections" {
				setOne(x, "moved", unbox(ci.Args[0]))
			}
		}
		if rs, ok := cutOut(x, ci); ok {
			return rs, ok
		}
		return pass(x, ci)
	})
	h.RootExit = func(x *Ctx, ex *Exit) { t.exit(&Ctx{x.e, x.fr, ex.st, ex.ret}, ex) }
	return h
}

// list: one of the three collections (L, I, T) gets a new value.
func (t *i02) list(x *Ctx, which string, loc, val *Term) {
	e := x.e
	if val.op == "append" {
		base, tail := val.args[0], val.args[1]
		if tail.op == "arr" && !isPart(x, base) {
			if which == "T" {
				setOne(x, "TA", loc.args[1], base, tail)
			} else {
				setOne(x, which+"A", tail, base)
			}
			return
		}
		if inFront(x, map[string]string{"L": "File.sectionList", "I": "File.sectionIndexes", "T": "*File.sections"}[which], base, tail) {
			setOne(x, "front", loc, val)
			return
		}
	}
	if i := removedAt(x, val); i != nil {
		if which == "T" {
			setOne(x, "TD", loc.args[1], i)
			if i.op == "wrong" {
				setOne(x, "wrong", i)
			} else if i.op == "at" && isConstInt(i.args[1]) && !t.isParam(x, i.args[1]) {
				setOne(x, "fixed", i)
			}
		} else {
			setOne(x, which+"D", i)
			if which == "L" && val.op == "append" {
				setOne(x, "inplace", loc)
			}
			if i.op == "wrong" {
				setOne(x, "wrong", i)
			}
			other := exact(events(x.st, map[string]string{"L": "ID", "I": "LD"}[which]))
			if len(other) > 0 && other[0].args[0].op == "at" && i.op == "at" {
				a, b := other[0].args[0], i
				d := e.linOf(a.args[1]).add(e.linOf(b.args[1]), -1)
				off := len(d.co) > 0 && e.evalBool(x.st, e.mkEq(a.args[1], b.args[1])) != 1
				if len(d.co) == 0 && d.k != 0 || off && (a.aux != b.aux || isGiven(a.args[1]) != isGiven(b.args[1])) {
					setOne(x, "apart", i)
				}
			}
			if which == "I" && i.op == "at" {
				t.cut(x.in)
			}
		}
		return
	}
	if e.knownNil(x.st, val) || val.op == "make" || val.op == "makemap" {
		setOne(x, "reset"+which, loc)
		return
	}
	setOne(x, "other"+which, loc)
}

// count: an entry of the index list is changed.
func (t *i02) count(x *Ctx, loc, val *Term) {
	e := x.e
	old := e.peek(x, loc, types.Typ[types.Int])
	d := e.linOf(val).add(e.linOf(old), -1)
	t.down()
	if len(d.co) != 0 {
		return
	}
	if d.k != -1 {
		setOne(x, "miscount", loc.args[1])
		return
	}
	named := false
	if f := x.st.cl["named"]; f != nil {
		named = true
		for i := 0; i < 2; i++ {
			a := f.args[i]
			if (a.op != "init" && a.op != "hv") || a.args[0].op != "&e" || !isString(a.typ) {
				continue
			}
			off := e.linOf(loc.args[1]).add(e.linOf(a.args[0].args[1]), -1)
			if len(off.co) != 0 {
				continue
			}
			gone := happened(x.st, "ID")
			from := a.args[0].args[0]
			stale := false
			if happened(x.st, "inplace") && collOf(x, from) == "File.sectionList" {
				now := current(x, "File.sectionList")
				stale = now != nil && from != now
			}
			switch {
			case stale:
				setOne(x, "stale", loc.args[1])
			case gone && from.op == "make" && off.k == 0, off.k != 0 && off.k != -1:
				setOne(x, "miscount", loc.args[1])
			}
		}
	}
	if !named {
		setOne(x, "unnamed", loc.args[1])
	}
}

// setOne: like setEv, for what happens once in an operation; a second time,
// what is known about it is dropped.
func setOne(x *Ctx, kind string, args ...*Term) {
	v := x.e.T.App("ev", kind, nil, args...)
	if old := x.st.cl["ev:"+kind]; old != nil && old != v {
		v = x.e.T.App("ev", kind, nil)
	}
	x.st.cl["ev:"+kind] = v
}

// exact: the events of which something is known.
func exact(l []*Term) []*Term {
	if len(l) == 1 && len(l[0].args) > 0 {
		return l
	}
	return nil
}

// isGiven: a number the operation was called with.
func isGiven(t *Term) bool { return t.op == "sym" && t.in == nil }

func isConstInt(t *Term) bool { _, ok := constInt(t); return ok }

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (t *i02) exit(x *Ctx, ex *Exit) {
	e, st := x.e, ex.st
	n := 0
	bad := func(what, why string) {
		n++
		t.report(finding{fn: t.fn, rule: "in-step", what: what, why: why, at: ex.ret})
	}
	ev := map[string][]*Term{}
	any, whole := false, 0
	for _, k := range []string{"LA", "IA", "TA", "LD", "ID", "TD", "Tgone", "resetL", "resetI", "resetT", "otherL", "otherI", "otherT", "front", "moved", "miscount", "unnamed", "stale"} {
		ev[k] = events(st, k)
		if len(ev[k]) == 0 && happened(st, k) {
			ev[k] = []*Term{e.T.App("ev", k, nil)}
		}
		any = any || len(ev[k]) > 0
		if strings.HasPrefix(k, "reset") || strings.HasPrefix(k, "other") {
			whole += len(ev[k])
		}
	}
	if !any {
		return
	}
	if whole > len(ev["otherI"])+len(ev["resetI"]) {
		for _, w := range []string{"L", "I", "T"} {
			if len(ev[w+"A"])+len(ev[w+"D"])+len(ev["other"+w])+len(ev["reset"+w]) == 0 && !(w == "T" && len(ev["Tgone"]) > 0) {
				bad("collections", "the section list, index list and table are not replaced together")
			}
		}
	} else if whole == 0 {
		t.step(x, ex, ev, bad)
	}
	if len(ev["front"]) > 0 {
		bad("order", "a section is not added at the end")
	}
	if len(ev["moved"]) > 0 {
		bad("order", "the sections change places")
	}
	if len(ev["miscount"]) > 0 {
		bad("index list", "an index is not counted down by one at the place of its section")
	}
	if len(ev["unnamed"]) > 0 {
		bad("index list", "the index of a section of any name is counted down")
	}
	if happened(st, "stale") {
		bad("index list", "the places are taken from a list that was changed in place")
	}
	_ = e
	if n == 0 {
		t.report(finding{fn: t.fn, rule: "in-step", what: "sections", at: ex.ret, ok: true})
	}
}

func (t *i02) step(x *Ctx, ex *Exit, ev map[string][]*Term, bad func(string, string)) {
	e, st := x.e, ex.st
	same := func(a, b *Term) bool { return a == b || e.evalBool(st, e.mkEq(a, b)) == 1 }
	la, ia, ta := ev["LA"], ev["IA"], ev["TA"]
	if len(la) != len(ia) || len(la) != len(ta) {
		bad("creation", "a section is not added to all of list, index list and table")
	} else if la, ia, ta := exact(la), exact(ia), exact(ta); len(la)+len(ia)+len(ta) == 3 {
		if len(la[0].args[0].args) != 1 || len(ia[0].args[0].args) != 1 || len(ta[0].args[2].args) != 1 {
			bad("creation", "list, index list and table get different numbers of entries")
		} else {
			if !same(la[0].args[0].args[0], ta[0].args[0]) {
				bad("creation", "the name listed is not the name the section is stored under")
			}
			before := e.mkLen(ta[0].args[1])
			d := e.linOf(ia[0].args[0].args[0]).add(e.linOf(before), -1)
			v := ia[0].args[0].args[0]
			known := v.op == "len" || v.op == "lin" || v.op == "const"
			none := isInt(v, 0) && st.cl["absent"] != nil
			if len(d.co) == 0 && d.k != 0 || len(d.co) != 0 && known && !none {
				bad("creation", "the index entered is not the number of sections the name had")
			}
			sec := ta[0].args[2].args[0]
			str := types.Typ[types.String]
			if sn := e.peek(x, e.fieldAddr(sec, "Section.name", types.NewPointer(str)), str); sec.op == "alloc" && !same(sn, ta[0].args[0]) {
				bad("creation", "a section is stored under a name that is not its own")
			}
		}
	}
	ld, id, td, gone := ev["LD"], ev["ID"], ev["TD"], ev["Tgone"]
	if (len(ld) > 0) != (len(id) > 0) || (len(ld) > 0) != (len(td)+len(gone) > 0) {
		bad("deletion", "a section is not removed from all of list, index list and table")
	}
	for k, why := range map[string]string{
		"wrong": "another number of entries than one is removed",
		"apart": "list and index list lose different entries",
		"fixed": "the table loses a fixed entry instead of the one at the index",
		"all":   "all sections of the name are dropped from the table although only one is deleted",
	} {
		if happened(st, k) {
			bad("deletion", why)
		}
	}
}

// isParam: the number is the index the operation was given.
func (t *i02) isParam(x *Ctx, v *Term) bool {
	any := false
	for _, p := range t.fn.Params {
		b, is := p.Type().Underlying().(*types.Basic)
		any = any || is && b.Info()&types.IsInteger != 0
	}
	if !any {
		return true
	}
	for f := range x.st.facts {
		for _, s := range subterms(f) {
			if s.op == "sym" && s.in == nil && s.typ != nil && isIntType(s.typ) && x.e.evalBool(x.st, x.e.mkEq(s, v)) == 1 {
				return true
			}
		}
	}
	return false
}
