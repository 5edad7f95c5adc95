package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Rule P01: no index or slice expression leaves its bounds.

func init() { checks["P01"] = checkP01 }

type p01 struct {
	r       *Rep
	p       *Prog
	inherit map[*ssa.Function]bool // judged in their callers' contexts
	leaf    map[*ssa.Function]bool // calls nothing of the package

	has  map[*ssa.Function]bool                  // something to judge in it
	mk   func(y *p01try, f *ssa.Function) *Hooks // how
	axs  func(st *State, a *Term) []*LinExpr     // further facts
	lean map[*ssa.Function]bool                  // tried so first
	want map[*ssa.Function]bool                  // always analysed with their callers
}

// bounded: the functions with index or slice expressions (their closures'
// included) and those that create them.
func (t *p01) own(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
					if a, ok := p.Elem().Underlying().(*types.Array); ok {
						if c, ok := in.Index.(*ssa.Const); ok && c.Int64() < a.Len() {
							continue // the compiler checked it
						}
					}
				}
				return true
			case *ssa.Index, *ssa.Slice:
				if s, ok := in.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
					continue
				}
				return true
			case *ssa.Lookup:
				if isStringType(in.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}

// p01try: one analysis of a function.
type p01try struct {
	inline map[*ssa.Function]bool // these callees are analysed too
	leaves bool                   // and those that call nothing of the package
	all    bool
	steps  int
	lean   bool // only with the facts that input and errors need

	sub   *Rep
	fails []*Term // what the failing expressions are about
	after func()
}

func (t *p01) try(f *ssa.Function, y *p01try) {
	y.sub = newRep(t.p, t.r.prop, t.r.tier)
	e := newEng(t.p, t.mk(y, f))
	e.maxSteps = y.steps
	e.Axioms = t.axs
	func() {
		defer func() {
			if x := recover(); x != nil {
				y.sub.undecided(fmt.Sprintf("analysis of %s failed: %v", fnName(f), x))
			}
		}()
		e.runRoot(f, func(fr *Frame, st *State) {})
		if y.after != nil {
			y.after()
		}
	}()
	y.sub.absorb(e, f)
}

// judge looks at a function by itself first, then together with the callees
// its open expressions depend on.
func (t *p01) judge(f *ssa.Function) *p01try {
	if t.lean[f] {
		for _, leaves := range []bool{false, true} {
			y := &p01try{inline: map[*ssa.Function]bool{}, steps: 100000, lean: true, leaves: leaves}
			if t.try(f, y); y.sub.clean() {
				return y
			}
		}
	}
	y := &p01try{inline: map[*ssa.Function]bool{}, steps: 200000}
	t.try(f, y)
	best := y
	for i := 0; i < 5 && !best.sub.clean(); i++ {
		n := &p01try{inline: map[*ssa.Function]bool{}, steps: 200000}
		for g := range best.inline {
			n.inline[g] = true
		}
		for _, g := range t.p.funcs {
			for _, u := range best.fails {
				n.inline[g] = n.inline[g] || mentionsResult(u, g)
			}
			if !n.inline[g] {
				delete(n.inline, g)
			}
		}
		if len(n.inline) == len(best.inline) {
			break
		}
		t.try(f, n)
		if len(n.sub.undec) > 0 {
			break
		}
		best = n
	}
	for _, n := range []*p01try{{leaves: true, steps: 60000}, {all: true, steps: 60000}} {
		if best.sub.clean() {
			break
		}
		n.inline = best.inline
		t.try(f, n)
		if len(n.sub.undec) == 0 && len(n.sub.failing()) < len(best.sub.failing()) || n.sub.clean() {
			best = n
		}
	}
	return best
}

// mentionsResult: the term is made of a result of g.
func mentionsResult(t *Term, g *ssa.Function) bool {
	if c, ok := t.in.(*ssa.Call); ok && t.op == "sym" && c.Call.StaticCallee() == g {
		return true
	}
	for _, a := range t.args {
		if mentionsResult(a, g) {
			return true
		}
	}
	return false
}

// fromOutside: the term is made of a parameter.
func fromOutside(t *Term) bool {
	if t.op == "&f" && strings.HasPrefix(t.aux, "LoadOptions.") {
		return false
	}
	if t.op == "sym" && t.in == nil {
		return true
	}
	for _, a := range t.args {
		if fromOutside(a) {
			return true
		}
	}
	return false
}

func (t *p01) hooks(y *p01try, f *ssa.Function) *Hooks {
	sub := y.sub
	h := fullHooks()
	h.JoinCap, h.ExitCap, h.FactCap, h.KeepEpochs, h.JoinBounds = 32, 32, 48, true, true
	h.KeepFact = func(t *Term) bool {
		switch t.op {
		case "ge0", "lt", "le", "istype":
			return true
		case "call":
			return len(t.args) > 0 && t.args[0].typ != nil && isText(t.args[0].typ)
		case "eq":
			return true
		}
		return false
	}
	if !y.all {
		h.JoinCap = 12
	}
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) { return t.call(y, x, c) }
	mine := func(x *Ctx) bool { return t.mine(x.fr.fn, f) }
	h.Index = func(x *Ctx, base, idx, ln *Term) {
		if !mine(x) || tableMatter(x, base, idx) || gathered(base) {
			return
		}
		e := x.e
		i := e.linOf(idx)
		ok := e.provesGE0(x.st, i) && e.provesGE0(x.st, e.linOf(ln).add(i, -1).add(newLin(1), -1))
		if !ok {
			y.fails = append(y.fails, base, idx, ln)
		}
		sub.obx(x, ok, "index", t.what(x), "an index can leave the bounds: "+idx.String()+" of "+ln.String())
	}
	h.Slice = func(x *Ctx, base, lo, hi, max, cp *Term) {
		if s, ok := x.in.(*ssa.Slice); ok && s.Low == nil && s.High == nil && s.Max == nil {
			return
		}
		if !mine(x) || tableMatter(x, base, lo) || gathered(base) {
			return
		}
		if s, ok := x.in.(*ssa.Slice); ok && x.e.P.padding(s.X, map[ssa.Value]bool{}) {
			return
		}
		e := x.e
		l, u := e.linOf(lo), e.linOf(hi)
		ok := e.provesGE0(x.st, l) && e.provesGE0(x.st, u.add(l, -1)) && e.provesGE0(x.st, e.linOf(cp).add(u, -1))
		if !ok {
			y.fails = append(y.fails, base, lo, hi)
		}
		sub.obx(x, ok, "slice", t.what(x), "a slice expression can leave the bounds: "+lo.String()+" : "+hi.String()+" of "+cp.String())
	}
	return h
}

// call: what an analysis does not look into may change anything it can reach.
func (t *p01) call(y *p01try, x *Ctx, c *CallInfo) ([]CallRes, bool) {
	if c.Kind != "ini" || c.Fn == nil || c.Fn.Parent() != nil || t.inherit[c.Fn] || t.want[c.Fn] {
		return nil, false
	}
	for _, a := range c.Args {
		if a.op == "func" || a.op == "closure" {
			return nil, false
		}
	}
	if y.all || y.leaves && t.leaf[c.Fn] || y.inline[c.Fn] {
		return nil, false
	}
	x.e.havocMods(x, c.Fn)
	return []CallRes{{x.st, nil}}, true
}

// mine: the function judged, its closures, and those judged with it.
func (t *p01) mine(g, f *ssa.Function) bool {
	for g.Parent() != nil {
		g = g.Parent()
	}
	return g == f || t.inherit[g]
}

// gathered: a text put together in a buffer, or a list whose type was found
// by reflection (M02).
func gathered(t *Term) bool {
	switch t.op {
	case "typeassert":
		return true
	case "sym":
		c, ok := t.in.(*ssa.Call)
		return ok && c.Call.StaticCallee() != nil && (c.Call.StaticCallee().String() == "(*bytes.Buffer).String" || c.Call.StaticCallee().String() == "(*strings.Builder).String" || c.Call.StaticCallee().String() == "(*bytes.Buffer).Bytes")
	case "slice", "bytes2str", "str2bytes":
		return gathered(t.args[0])
	}
	return false
}

// fileTable: the list was read from the file's section lists or tables.
func fileTable(v ssa.Value) bool {
	for {
		switch u := v.(type) {
		case *ssa.UnOp:
			switch fieldRead(u) {
			case "File.sections", "File.sectionList", "File.sectionIndexes":
				return true
			}
			return false
		case *ssa.Lookup:
			v = u.X
		case *ssa.Extract:
			v = u.Tuple
		case *ssa.Slice:
			v = u.X
		default:
			return false
		}
	}
}

// padding: a run of equal characters, wherever it was kept since.
func (p *Prog) padding(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Call:
		c := v.Call.StaticCallee()
		return c != nil && c.Pkg != nil && c.Name() == "Repeat" && (c.Pkg.Pkg.Path() == "bytes" || c.Pkg.Pkg.Path() == "strings")
	case *ssa.Convert:
		return p.padding(v.X, seen)
	case *ssa.ChangeType:
		return p.padding(v.X, seen)
	case *ssa.Slice:
		return p.padding(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !p.padding(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return p.padding(v.X, seen)
		}
	case *ssa.FreeVar:
		f := v.Parent()
		for i, fv := range f.FreeVars {
			if fv != v {
				continue
			}
			n := 0
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(f) {
						n++
						if !p.padding(m.Bindings[i], seen) {
							return false
						}
					}
				}
			}
			return n > 0
		}
	case *ssa.Alloc:
		n := 0
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr != ssa.Value(v) || !p.padding(u.Val, seen) {
					return false
				}
				n++
			case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
			default:
				return false
			}
		}
		return n > 0
	case *ssa.Parameter:
		f := v.Parent()
		i := -1
		for j, q := range f.Params {
			if q == v {
				i = j
			}
		}
		n := 0
		for _, g := range p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() != f {
						continue
					}
					n++
					if i < 0 || !p.padding(c.Common().Args[i], seen) {
						return false
					}
				}
			}
		}
		if p.taken[f] || f.Object() != nil && f.Object().Exported() {
			return false
		}
		return i >= 0 && n > 0
	}
	return false
}

func (t *p01) what(x *Ctx) string {
	n := 0
	for _, b := range x.fr.fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.IndexAddr, *ssa.Slice, *ssa.Lookup, *ssa.Index:
				n++
			}
			if in == x.in {
				return fmt.Sprint("expression ", n)
			}
		}
	}
	return "expression"
}

// tableMatter: positions in the file's section lists and tables (I02).
func tableMatter(x *Ctx, base, idx *Term) bool {
	switch in := x.in.(type) {
	case *ssa.IndexAddr:
		if fileTable(in.X) {
			return true
		}
	case *ssa.Slice:
		if fileTable(in.X) {
			return true
		}
	}
	s := ""
	switch base.op {
	case "m", "init", "hv", "field": // the stored list itself, not a copy of it
		s = base.String()
	}
	for _, f := range []string{"File.sections}", "File.sectionList}", "File.sectionIndexes}"} {
		if strings.Contains(s, f) || idx != nil && strings.Contains(idx.String(), f) {
			return true
		}
	}
	return false
}

func checkP01(p *Prog, r *Rep) {
	r.rule("every index and slice expression: lower bound at least zero, upper bound at most the length (capacity), as a linear consequence of the facts established on every path to it")
	t := newP01(p, r)
	t.mk = t.hooks
	t.drive(t.own)
}

func newP01(p *Prog, r *Rep) *p01 {
	return &p01{r: r, p: p, inherit: map[*ssa.Function]bool{}, leaf: map[*ssa.Function]bool{}, has: map[*ssa.Function]bool{}, want: map[*ssa.Function]bool{}, lean: map[*ssa.Function]bool{}}
}

// drive judges every function that has something to judge, by itself if that
// is enough, else together with its callers.
func (t *p01) drive(own func(*ssa.Function) bool) {
	p, r, has := t.p, t.r, t.has
	var all []*ssa.Function
	reach := map[*ssa.Function]bool{}
	for _, f := range p.exportedRoots() {
		gs, _ := p.reach(f)
		for g := range gs {
			reach[g] = true
		}
		reach[f] = true
	}
	for f := range reach {
		if f.Parent() == nil && len(f.Blocks) > 0 && f.Pkg == p.pkg {
			all = append(all, f)
		}
		t.leaf[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg == p.pkg {
						t.leaf[f] = false
					}
				}
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	for _, f := range all {
		has[f] = own(f)
		var anon func(g *ssa.Function)
		anon = func(g *ssa.Function) {
			for _, a := range g.AnonFuncs {
				has[f] = has[f] || own(a)
				anon(a)
			}
		}
		anon(f)
	}
	done := map[*ssa.Function]*Rep{}
	for round := 0; round < 6; round++ {
		var work []*ssa.Function
		for _, f := range all {
			if done[f] == nil && !t.inherit[f] && (has[f] || t.callsInherit(f)) {
				work = append(work, f)
			}
		}
		if len(work) == 0 {
			break
		}
		var mu sync.Mutex
		inh := map[*ssa.Function]bool{}
		failed := map[*ssa.Function]*Rep{}
		var jobs []func()
		for _, f := range work {
			f := f
			jobs = append(jobs, func() {
				y := t.judge(f)
				sub := y.sub
				outside := false
				for _, u := range y.fails {
					outside = outside || fromOutside(u)
				}
				mu.Lock()
				defer mu.Unlock()
				if sub.clean() || !outside || f.Object() == nil || f.Object().Exported() {
					done[f] = sub
				} else {
					inh[f] = true
					failed[f] = sub
				}
			})
		}
		par(jobs)
		// a function that calls another one of these is tried again first
		first := map[*ssa.Function]bool{}
		for f := range inh {
			gs, _ := p.reach(f)
			dep := false
			for g := range gs {
				dep = dep || g != f && inh[g]
			}
			if !dep {
				first[f] = true
			}
		}
		if len(first) > 0 {
			inh = first
		}
		for f := range inh {
			t.inherit[f] = true
		}
		for _, f := range all { // their callers are judged again
			if done[f] != nil && t.callsAny(f, inh) {
				done[f] = nil
			}
		}
	}
	for _, f := range all {
		if s := done[f]; s != nil {
			r.merge(s)
		}
	}
}

func (t *p01) callsInherit(f *ssa.Function) bool { return t.callsAny(f, t.inherit) }

func (t *p01) callsAny(f *ssa.Function, set map[*ssa.Function]bool) bool {
	gs, _ := t.p.reach(f)
	for g := range gs {
		if set[g] {
			return true
		}
	}
	return false
}

// clean: everything was decided, and holds.
func (r *Rep) clean() bool {
	if len(r.undec) > 0 {
		return false
	}
	for _, o := range r.obs {
		if !o.OK {
			return false
		}
	}
	return true
}

// merge takes over what another report decided.
func (r *Rep) merge(s *Rep) {
	for k, o := range s.obs {
		if q := r.obs[k]; q == nil {
			r.obs[k] = o
		} else {
			q.N += o.N
			if !o.OK {
				n := q.N
				*q = *o
				q.N = n
			}
		}
	}
	for k := range s.undec {
		r.undec[k] = true
	}
	for k := range s.roots {
		r.roots[k] = true
	}
	for k := range s.funcs {
		r.funcs[k] = true
	}
	for k := range s.calls {
		r.calls[k] = true
	}
	r.steps += s.steps
	r.joins += s.joins
}

// leastMatch: the length of the shortest text that a package
// variable's regular expression matches.
func (p *Prog) leastMatch(t *Term) int64 {
	for t.op == "gload" || t.op == "init" || t.op == "hv" {
		if len(t.args) == 0 {
			return 0
		}
		t = t.args[0]
	}
	if t.op != "&g" {
		return 0
	}
	g, ok := p.pkg.Members[t.aux].(*ssa.Global)
	if !ok {
		return 0
	}
	var src *string
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(g) {
					continue
				}
				c, ok := s.Val.(*ssa.Call)
				if !ok || src != nil || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "regexp.MustCompile" {
					return 0
				}
				k, ok := c.Call.Args[0].(*ssa.Const)
				if !ok || k.Value == nil {
					return 0
				}
				v := constant.StringVal(k.Value)
				src = &v
			}
		}
	}
	if src == nil {
		return 0
	}
	re, err := syntax.Parse(*src, syntax.Perl)
	if err != nil {
		return 0
	}
	return shortest(re)
}

// shortestMatch: the same for non-empty texts.
func (p *Prog) shortestMatch(t *Term) int64 {
	if n := p.leastMatch(t); n > 1 {
		return n
	}
	return 1
}

func shortest(re *syntax.Regexp) int64 {
	switch re.Op {
	case syntax.OpLiteral:
		return int64(len(re.Rune))
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return shortest(re.Sub[0])
	case syntax.OpRepeat:
		return int64(re.Min) * shortest(re.Sub[0])
	case syntax.OpConcat:
		var n int64
		for _, s := range re.Sub {
			n += shortest(s)
		}
		return n
	case syntax.OpAlternate:
		n := shortest(re.Sub[0])
		for _, s := range re.Sub[1:] {
			if m := shortest(s); m < n {
				n = m
			}
		}
		return n
	case syntax.OpNoMatch:
		return 1 << 20
	}
	return 0
}

func (r *Rep) failing() []string {
	var out []string
	for k, o := range r.obs {
		if !o.OK {
			out = append(out, k)
		}
	}
	return out
}
