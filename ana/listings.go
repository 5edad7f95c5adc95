package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule L01: listings are complete and in stored order.

func init() { checks["L01"] = checkL01 }

// listing: what an operation lists.
type listing struct {
	from  []string // the lists (or tables) any one of which names all entries
	names bool     // a list of texts taken unchanged
	table bool     // from may be a table in any order
}

var listings = map[string]listing{
	"(*File).Sections":         {from: []string{"File.sectionList", "File.sectionIndexes"}},
	"(*File).SectionStrings":   {from: []string{"File.sectionList", "sections"}, names: true},
	"(*File).SectionsByName":   {from: []string{"File.sections[]"}},
	"(*Section).ChildSections": {from: []string{"File.sectionList", "File.sectionIndexes", "sections"}},
	"(*Section).Keys":          {from: []string{"Section.keyList"}},
	"(*Section).KeyStrings":    {from: []string{"Section.keyList", "keys"}, names: true},
	"(*Section).KeysHash":      {from: []string{"Section.keyList", "Section.keysHash", "Section.keys", "keys"}, names: true, table: true},
	"(*Section).HasValue":      {from: []string{"Section.keyList", "Section.keysHash", "Section.keys", "keys"}, table: true},
	"(*Key).NestedValues":      {from: []string{"Key.nestedValues"}, names: true},
	"(*Key).ValueWithShadows":  {from: []string{"Key.shadows"}, names: true},
}

type l01 struct {
	r    *Rep
	p    *Prog
	fn   *ssa.Function
	name string
	l    listing
}

func checkL01(p *Prog, r *Rep) {
	r.rule("every listing, on every path: the result is a full copy of the stored list, or a loop goes through the whole stored list from its start and puts exactly one entry, that of this round, unaltered, in its place per round (a child listing only and all those whose name starts with the parent's name and the delimiter, a listing of shadowed values all but empty ones); a search for a value answers no only after the last key and yes only for an equal value")
	r.need("all", 8)
	r.need("round", 5)
	r.assumes("tables and lists are in step (I01, I02)", "the key or section belongs to a file")
	var roots []*ssa.Function
	for _, f := range p.exportedRoots() {
		if _, ok := listings[fnName(f)]; ok {
			roots = append(roots, f)
		}
	}
	r.run(roots, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
		t := &l01{r, p, fn, fnName(fn), listings[fnName(fn)]}
		h := fullHooks()
		h.JoinCap, h.ExitCap, h.FactCap = 32, 32, 32
		h.Call = t.call
		h.Branch = t.branch
		h.BackEdge = t.round
		h.Store = t.store
		h.Append = t.append
		h.Copy = t.copy
		h.RootExit = t.exit
		h.KeepEpochs = true
		return h, nil
	})
}

func (t *l01) ob(x *Ctx, ok bool, rule, what, why string) {
	t.r.ob(ok, rule, t.name, what, why, "", x.in)
}

func (t *l01) call(x *Ctx, c *CallInfo) ([]CallRes, bool) {
	if c.Kind == "ini" {
		if k := listCall[c.Name]; k != "" && c.Name != t.name && (k == "sections" || k == "keys") {
			l := x.e.T.App("listof", k, c.Sig.Results().At(0).Type(), c.Args[0])
			return []CallRes{{x.st, []*Term{l}}}, true
		}
		return nil, false
	}
	if c.Kind == "lib" && (strings.HasSuffix(c.Name, ".Clone") || strings.HasSuffix(c.Name, ".Copy")) {
		for _, a := range c.Args {
			if t.stored(x, a) != "" {
				x.st.cl["whole"] = x.e.T.Bool(true)
			}
		}
	}
	return nil, false
}

// stored: the name of the stored list (or table) the term is, whole.
func (t *l01) stored(x *Ctx, l *Term) string {
	for l.op == "slice" && !isPart(x, l) || l.op == "changetype" || l.op == "convert" || l.op == "append" && emptyBase(x, l.args[0]) {
		if l.op == "append" {
			l = l.args[1]
		} else {
			l = l.args[0]
		}
	}
	if k := x.st.cl["copy:"+l.String()]; k != nil {
		s, _ := constStr(k)
		return s
	}
	if l.op == "listof" {
		return l.aux
	}
	if l.op != "init" && l.op != "hv" {
		return ""
	}
	switch l.args[0].op {
	case "&f":
		return l.args[0].aux
	case "&m":
		if k := t.stored(x, l.args[0].args[0]); k != "" {
			return k + "[]"
		}
	}
	return ""
}

func (t *l01) isSource(x *Ctx, l *Term) bool {
	k := t.stored(x, l)
	for _, f := range t.l.from {
		if f == k {
			return true
		}
	}
	return false
}

func emptyBase(x *Ctx, b *Term) bool {
	return b.isNil() || x.e.provesGE0(x.st, newLin(0).add(x.e.linOf(x.e.mkLen(b)), -1))
}

func private(b *Term) bool {
	for b.op == "slice" || b.op == "append" || b.op == "changetype" {
		b = b.args[0]
	}
	return b.op != "init" && b.op != "hv"
}

func (t *l01) append(x *Ctx, base, tail, res *Term) {
	if t.isSource(x, tail) && emptyBase(x, base) {
		t.whole(x)
		x.st.cl["copy:"+res.String()] = x.e.T.Str(t.stored(x, tail))
		return
	}
	if !private(base) {
		return
	}
	if els, ok := x.e.varargs(x, tail); ok {
		for _, v := range els {
			t.put(x, nil, v)
		}
		return
	}
	if k := t.active(x, tail); k != "" && t.name != "(*Key).ValueWithShadows" {
		t.ob(x, t.unique(x), "round", "entry", "all sections of a name are listed for each of them")
		t.set(x, "put:"+k)
	}
}

func (t *l01) copy(x *Ctx, dst, src *Term) {
	if !t.isSource(x, src) || !private(dst) {
		return
	}
	e := x.e
	n := e.linOf(e.mkLen(dst)).add(e.linOf(e.mkLen(src)), -1)
	t.ob(x, e.provesGE0(x.st, n), "all", "copy", "the copy can be shorter than the stored list")
	t.whole(x)
	if e.provesGE0(x.st, n) && e.provesGE0(x.st, newLin(0).add(n, -1)) {
		for dst.op == "slice" && !isPart(x, dst) {
			dst = dst.args[0]
		}
		x.st.cl["copy:"+dst.String()] = e.T.Str(t.stored(x, src))
	}
}

func (t *l01) set(x *Ctx, k string) { x.st.cl[k] = x.e.T.Bool(true) }

func (t *l01) whole(x *Ctx) {
	if t.name == "(*Section).ChildSections" || t.name == "(*Section).HasValue" || t.name == "(*Key).ValueWithShadows" {
		return
	}
	if k := x.st.cl["loops"]; k == nil {
		t.set(x, "whole")
	}
}

// store: an entry put in its place.
func (t *l01) store(x *Ctx, loc, v *Term) {
	if loc.op != "&e" && loc.op != "&m" || loc.args[0].op == "init" || loc.args[0].op == "hv" {
		return
	}
	if loc.op == "&e" && rootOf(loc).op == "alloc" && !isSliceLike(loc.args[0]) {
		return // an argument list being made
	}
	t.put(x, loc, v)
}

func isSliceLike(b *Term) bool {
	if b.typ == nil {
		return false
	}
	_, ok := b.typ.Underlying().(*types.Slice)
	return ok
}

// active: the round the value belongs to.
func (t *l01) active(x *Ctx, v *Term) string {
	for k, s := range x.st.cl {
		if (strings.HasPrefix(k, "it:") || strings.HasPrefix(k, "itv:")) && s.op != "const" && mentions(v, s) {
			return k[strings.Index(k, ":")+1:]
		}
	}
	return ""
}

func (t *l01) put(x *Ctx, loc, v *Term) {
	e := x.e
	if t.name == "(*Key).ValueWithShadows" && isField(v, "Key.value") && !mentionsElem(v) {
		t.ob(x, x.st.cl["loops"] == nil, "round", "first value", "a shadow's value can be listed before the key's own")
		t.ob(x, x.st.cl["own"] == nil, "round", "first value", "the key's own value is listed twice")
		t.set(x, "own")
		return
	}
	k := t.active(x, v)
	if k == "" && loc != nil && loc.op == "&m" {
		k = t.active(x, loc.args[1])
	}
	if k == "" {
		return
	}
	s := x.st.cl["it:"+k]
	t.ob(x, x.st.cl["put:"+k] == nil, "round", "entry", "an entry is listed twice")
	t.set(x, "put:"+k)
	if t.name == "(*Section).ChildSections" {
		t.ob(x, x.st.cl["child:"+k] != nil, "round", "entry", "a section is listed whose name was not seen to start with the parent's name and the delimiter")
	}
	if t.l.names {
		t.ob(x, !altered(v), "round", "entry", "a listed text is not the stored one")
		if loc != nil && loc.op == "&m" {
			t.ob(x, !altered(loc.args[1]) && mentions(loc.args[1], s), "round", "name", "a name in the table is not the stored one")
			sv := x.st.cl["itv:"+k]
			t.ob(x, mentions(v, s) || sv != nil && mentions(v, sv), "round", "entry", "a value in the table is not the one of its name")
		}
	}
	if i := sectionIndex(v); i != nil {
		t.ob(x, !i.isConst() || t.unique(x), "round", "entry", "of several sections with one name always the same is listed")
	}
	if loc == nil || loc.op != "&e" {
		return
	}
	// its place
	d := e.linOf(loc.args[1])
	if c := d.co[s]; c != 0 {
		ok := c == 1
		if j := elemIndex(v, s); j != nil {
			d = d.add(e.linOf(j), -1)
			ok = ok && !(len(d.co) == 0 && d.k != 0)
		}
		t.ob(x, ok, "round", "place", "entries are listed in another order, or places, than stored")
	}
}

func (t *l01) unique(x *Ctx) bool {
	for f, pol := range x.st.facts {
		if !pol && mentionsOption(f, "AllowNonUniqueSections") {
			return true
		}
	}
	return false
}

// altered: computed from the stored text.
func altered(v *Term) bool {
	switch v.op {
	case "concat", "call", "bytes2str", "const", "slice":
		return true
	}
	return false
}

func isField(v *Term, f string) bool {
	return (v.op == "init" || v.op == "hv") && v.args[0].op == "&f" && v.args[0].aux == f
}

func mentionsElem(v *Term) bool {
	if v.op == "&e" {
		return true
	}
	for _, a := range v.args {
		if mentionsElem(a) {
			return true
		}
	}
	return false
}

// sectionIndex: which of the sections with a name was read.
func sectionIndex(v *Term) *Term {
	if (v.op == "init" || v.op == "hv") && v.args[0].op == "&e" {
		if b := v.args[0].args[0]; (b.op == "init" || b.op == "hv") && b.args[0].op == "&m" {
			return v.args[0].args[1]
		}
	}
	return nil
}

// elemIndex: the position in a stored list the value came from.
func elemIndex(v, s *Term) *Term {
	if v.op == "&e" && mentions(v.args[1], s) && !mentionsElem(v.args[1]) {
		return v.args[1]
	}
	for _, a := range v.args {
		if j := elemIndex(a, s); j != nil {
			return j
		}
	}
	return nil
}

func (t *l01) branch(x *Ctx, cond *Term, taken bool) bool {
	e := x.e
	for cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	// loops over the stored list
	for _, end := range []bool{true, false} {
		tk := taken
		if !end {
			tk = !taken
		}
		l, hd := exhausted(x, cond, tk)
		if hd == nil {
			continue
		}
		k := hdrKey(x.fr, hd)
		if l != nil && !t.isSource(x, l) && !t.sameLength(x, l) {
			continue
		}
		if end {
			if l != nil || x.st.cl["it:"+k] != nil {
				t.set(x, "full")
			} else if l == nil {
				t.set(x, "empty")
			}
			clearMarks(x.st, "it:"+k, "itv:"+k, "put:"+k, "skip:"+k, "child:"+k)
		} else if ph := countPhi(x, cond); ph != nil {
			x.st.cl["it:"+k] = ph
			t.set(x, "loops")
		}
	}
	if in, ok := x.in.(*ssa.If); ok {
		if ex, ok := in.Cond.(*ssa.Extract); ok && ex.Index == 0 {
			if nx, ok := ex.Tuple.(*ssa.Next); ok && !nx.IsString {
				t.tableRound(x, nx, taken)
			}
		}
	}
	// what allows a round not to put anything
	for k, s := range x.st.cl {
		if !strings.HasPrefix(k, "it:") && !strings.HasPrefix(k, "itv:") || s.op == "const" || !mentions(cond, s) {
			continue
		}
		t.excuse(x, k[strings.Index(k, ":")+1:], cond, taken)
	}
	switch t.name {
	case "(*Section).HasValue":
		if a, b, ok := equality(cond); ok && taken {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if isParam(p[0]) && !altered(p[1]) && t.active(x, p[1]) != "" {
					t.set(x, "match")
				}
			}
		}
	case "(*Key).ValueWithShadows":
		if v := emptyTest(cond, taken, e); v != nil && isField(v, "Key.value") && !mentionsElem(v) {
			t.set(x, "own")
		}
	}
	for _, u := range subterms(cond) {
		if u.op == "len" && t.isSource(x, u.args[0]) && e.provesGE0(x.st, newLin(0).add(e.linOf(u), -1)) {
			t.set(x, "empty")
		}
	}
	if cond.op == "eq" && taken && (cond.args[1].isNil() && t.isSource(x, cond.args[0]) || cond.args[0].isNil() && t.isSource(x, cond.args[1])) {
		t.set(x, "empty")
	}
	return true
}

// sameLength: a private list made as long as the stored one.
func (t *l01) sameLength(x *Ctx, l *Term) bool {
	for l.op == "slice" && !isPart(x, l) {
		l = l.args[0]
	}
	if l.op != "make" {
		return false
	}
	n := l.args[1]
	return n.op == "len" && t.isSource(x, n.args[0])
}

func countPhi(x *Ctx, cond *Term) *Term {
	for _, a := range cond.args {
		for s := range x.e.linOf(a).co {
			if s.op == "sym" {
				if _, ok := s.in.(*ssa.Phi); ok {
					return s
				}
			}
		}
	}
	return nil
}

// tableRound: the next entry of a table, or none.
func (t *l01) tableRound(x *Ctx, nx *ssa.Next, more bool) {
	rg := x.val(nx.Iter)
	if rg.op != "range" || !t.isSource(x, rg.args[0]) {
		return
	}
	k := hdrKey(x.fr, nx.Block())
	if !more {
		if t.l.table {
			t.set(x, "full")
		}
		clearMarks(x.st, "it:"+k, "itv:"+k, "put:"+k, "skip:"+k)
		return
	}
	if tup := x.val(nx); tup.op == "tuple" {
		x.st.cl["it:"+k] = tup.args[1]
		x.st.cl["itv:"+k] = tup.args[2]
		t.set(x, "loops")
	}
}

// emptyTest: the text known to be empty (cond as taken).
func emptyTest(cond *Term, taken bool, e *Eng) *Term {
	if a, b, ok := equality(cond); ok && taken {
		if isEmptyStr(b) {
			return a
		}
		if isEmptyStr(a) {
			return b
		}
	}
	var l *LinExpr
	switch {
	case cond.op == "eq" && taken && isIntType(cond.args[0].typ):
		l = e.linOf(cond.args[0]).add(e.linOf(cond.args[1]), -1)
		if l.k != 0 {
			return nil
		}
	case cond.op == "ge0" && !taken:
		l = e.linOf(cond.args[0])
		if l.k != -1 {
			return nil
		}
	case cond.op == "ge0":
		l = e.linOf(cond.args[0])
		if l.k != 0 {
			return nil
		}
		for _, c := range l.co {
			if c > 0 {
				return nil
			}
		}
	default:
		return nil
	}
	if len(l.co) == 1 {
		for a := range l.co {
			if a.op == "len" && isStringType(a.args[0].typ) {
				return a.args[0]
			}
		}
	}
	return nil
}

func (t *l01) excuse(x *Ctx, k string, cond *Term, taken bool) {
	if t.name == "(*Section).ChildSections" {
		delim := mentionsOption(cond, "ChildSectionDelimiter")
		parent := strings.Contains(cond.String(), "Section.name") || isParamIn(cond)
		switch {
		case cond.op == "call" && (strings.HasPrefix(cond.aux, "strings.HasPrefix") || strings.HasPrefix(cond.aux, "strings.CutPrefix")), cond.op == "eq" && delim:
			t.ob(x, delim && parent, "round", "child", "a child section is told by a test without the parent's name or the delimiter")
			if taken {
				t.set(x, "child:"+k)
			} else {
				t.set(x, "skip:"+k)
			}
			return
		case cond.op == "ge0" && measures(cond):
			t.set(x, "skip:"+k)
			return
		case cond.op == "eq" && taken && (ownName(cond.args[0]) || ownName(cond.args[1])):
			t.set(x, "skip:"+k)
			return
		}
	}
	if cond.op == "eq" && taken && (cond.args[0].isNil() || cond.args[1].isNil()) {
		t.set(x, "skip:"+k)
	}
	if (cond.op == "init" || cond.op == "hv") && cond.args[0].op == "&mok" && !taken {
		t.set(x, "skip:"+k)
	}
	if t.name == "(*Key).ValueWithShadows" {
		if v := emptyTest(cond, taken, x.e); v != nil && isField(v, "Key.value") {
			t.set(x, "skip:"+k)
		}
	}
}

// ownName: the name of the section itself.
func ownName(t *Term) bool { return isField(t, "Section.name") && isParam(t.args[0].args[0]) }

// measures: a test of the length of an element.
func measures(cond *Term) bool {
	for _, u := range subterms(cond) {
		if u.op == "len" && isStringType(u.args[0].typ) && mentionsElem(u) {
			return true
		}
	}
	return false
}

func isParam(t *Term) bool { return t.op == "sym" && t.in == nil }

func isParamIn(t *Term) bool {
	for _, u := range subterms(t) {
		if isParam(u) && isStringType(u.typ) {
			return true
		}
	}
	return false
}

// round: what a round over the stored list did.
func (t *l01) round(x *Ctx, fr *Frame, _, st *State, hdr *ssa.BasicBlock) {
	k := hdrKey(fr, hdr)
	if st.cl["it:"+k] == nil {
		return
	}
	y := &Ctx{x.e, fr, st, hdr.Instrs[0]}
	if t.name == "(*Section).HasValue" {
		t.ob(y, true, "round", "search", "")
	} else if !t.prepares(x, fr, hdr) {
		t.ob(y, st.cl["put:"+k] != nil || st.cl["skip:"+k] != nil, "round", "entry", "an entry is passed over")
	}
	clearMarks(st, "it:"+k, "itv:"+k, "put:"+k, "skip:"+k, "child:"+k)
}

// prepares: a loop in which nothing is put at all.
func (t *l01) prepares(x *Ctx, fr *Frame, hdr *ssa.BasicBlock) bool {
	l := x.e.fnInfo(fr.fn).loops[hdr]
	if l == nil {
		return true
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store, *ssa.MapUpdate:
				return false
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok || in.Call.StaticCallee() == nil || in.Call.StaticCallee().Pkg == t.fn.Pkg {
					return false
				}
			}
		}
	}
	return true
}

func (t *l01) exit(x *Ctx, ex *Exit) {
	st := ex.st
	n := len(ex.results)
	if n == 0 || n > 1 && !ex.results[n-1].isNil() && x.e.knownNonNil(st, ex.results[n-1]) {
		return
	}
	y := &Ctx{x.e, x.fr, st, ex.ret}
	res := ex.results[0]
	has := func(k string) bool { return st.cl[k] != nil }
	if t.name == "(*Section).HasValue" {
		switch x.e.evalBool(st, res) {
		case 0:
			t.ob(y, res.op != "eq" && res.op != "not" || has("full"), "all", "no", "a value is reported absent before all keys were looked at")
		case 1:
			t.ob(y, has("match"), "all", "yes", "a value is reported present without an equal one having been found")
		case -1:
			t.ob(y, !has("match"), "all", "no", "a value is reported absent although an equal one was found")
			t.ob(y, has("full") || has("empty"), "all", "no", "a value is reported absent before all keys were looked at")
		}
		return
	}
	if res.op == "call" && !strings.HasSuffix(res.aux, "Clone") {
		return // made by a library function not known here
	}
	t.ob(y, has("whole") || has("full") || has("empty"), "all", "result", "the listing can end before all entries were listed")
	t.ob(y, !isPart(y, res) || emptyList(res) && has("empty"), "all", "result", "only a part of what was collected is returned")
	if t.name == "(*Key).ValueWithShadows" {
		own := has("own")
		if els, ok := x.e.varargs(y, res); ok {
			for _, v := range els {
				own = own || isField(v, "Key.value") && !mentionsElem(v)
			}
		}
		t.ob(y, own, "all", "own value", "the key's own value can be left out")
	}
	if !has("full") {
		return
	}
	if b := res; t.name != "(*Section).ChildSections" {
		for b.op == "slice" && !isPart(y, b) {
			b = b.args[0]
		}
		if b.op == "make" {
			if m := b.args[1]; m.op == "lin" || m.isConst() {
				l := x.e.linOf(m)
				for a := range l.co {
					if a.op == "len" && t.isSource(y, a.args[0]) && len(l.co) == 1 && l.co[a] == 1 && l.k != 0 {
						t.ob(y, false, "all", "result", "the listing is longer or shorter than what is stored")
					}
				}
			}
		}
	}
}
