package main

import (
	"fmt"
	"sort"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Modular analysis: a function is analysed once per calling context (client
// state on entry plus constant, nil and non-nil arguments) and its outcomes are
// applied at each call site.

type summary struct {
	key     string
	exits   []*Exit
	sig     string
	running bool
	used    bool // its outcomes were used before it was complete
	round   int
}

// modEntry is what a client hands to the callee.
type modEntry struct {
	cl   map[string]*Term // client state on entry
	key  string           // extra context
	args []*Term          // arguments of an entry point (nil: any)
}

func (e *Eng) modular(x *Ctx, ci *CallInfo) bool {
	if e.H.Modular == nil || ci.Fn == nil || ci.Fn.Parent() != nil || len(ci.Fn.FreeVars) > 0 {
		return false
	}
	for _, a := range ci.Args {
		if a.op == "func" || a.op == "closure" {
			return false
		}
	}
	return e.H.Modular(x, ci)
}

// argContext: the value an argument has in the callee.
func (e *Eng) argContext(x *Ctx, fr *Frame, p *ssa.Parameter, a *Term, st *State) (*Term, string) {
	if a != nil && (a.isConst() || a.isNil()) {
		return a, fmt.Sprint("=", a.id)
	}
	s := e.T.Sym(fr, nil, p.Name(), p.Type())
	if a == nil {
		return s, ""
	}
	if isNillable(p.Type()) && e.knownNonNil(x.st, a) {
		st.facts[e.T.App("eq", "", types.Typ[types.Bool], s, e.T.Nil())] = false
		return s, "!nil"
	}
	return s, ""
}

// summarise analyses fn in a context and returns its outcomes.
func (e *Eng) summarise(x *Ctx, fn *ssa.Function, args []*Term, ent modEntry) *summary {
	fr := e.frame(nil, nil, fn)
	st := newState()
	live := map[*Term]bool{}
	key := fn.String() + "|" + ent.key + "|"
	for i, p := range fn.Params {
		var a *Term
		if i < len(args) {
			a = args[i]
		}
		v, k := e.argContext(x, fr, p, a, st)
		st.env[p] = v
		for _, s := range v.syms {
			live[s] = true
		}
		key += k + ","
	}
	var cks []string
	for k, v := range ent.cl {
		st.cl[k] = v
		cks = append(cks, fmt.Sprintf("%s=%d", k, v.id))
	}
	sort.Strings(cks)
	key += "|" + strings.Join(cks, ";")
	s := e.summ[key]
	if s == nil {
		s = &summary{key: key, round: -1}
		e.summ[key] = s
	}
	if s.running {
		s.used = true
		return s
	}
	if s.round == e.round {
		return s
	}
	s.running = true
	s.round = e.round
	s.used = false
	saved := e.roots
	e.roots = []map[*Term]bool{live}
	e.stack = append(e.stack, fnName(fn))
	if e.H.ModInit != nil {
		e.H.ModInit(&Ctx{e, fr, st, nil}, fn)
	}
	ex := e.exec(fr, st)
	for _, o := range ex {
		if e.H.FnExit != nil {
			e.H.FnExit(&Ctx{e, fr, o.st, o.ret}, o)
		}
	}
	e.stack = e.stack[:len(e.stack)-1]
	e.roots = saved
	s.running = false
	var sg []string
	if e.round > 5 { // the joins at the exits do not settle: drop what they depend on
		for _, o := range ex {
			o.st.facts = map[*Term]bool{}
		}
	}
	if e.round > 8 { // and keep every exit seen before
		ex = append(ex[:len(ex):len(ex)], s.exits...)
	}
	had := map[string]bool{}
	all := ex
	ex = nil
	for _, o := range all {
		k := o.st.clKey() + "/" + e.nilSig(o.st, o.results) + "/" + e.pureFacts(o.st, fr)
		for _, t := range o.results {
			if t.isConst() || t.isNil() || t.op == "iface" && t.args[0].isConst() || paramPure(t, fr) {
				k += fmt.Sprint(",", t.id)
			} else {
				k += ",?"
			}
		}
		if had[k] && e.round > 5 {
			continue
		}
		had[k] = true
		ex = append(ex, o)
		sg = append(sg, k)
	}
	sort.Strings(sg)
	sig := strings.Join(sg, "&")
	if sig != s.sig {
		s.sig = sig
		if s.used {
			e.again = true
		}
		s.exits = ex
	}
	return s
}

// pureFacts: the facts a caller can use.
func (e *Eng) pureFacts(st *State, fr *Frame) string {
	if e.H.ModNoFacts {
		return ""
	}
	var l []string
	for f, pol := range st.facts {
		if len(f.syms) > 0 && paramPure(f, fr) {
			l = append(l, fmt.Sprint(f.id, pol))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// paramPure: the term is a function of the parameters' values alone.
func paramPure(t *Term, fr *Frame) bool {
	switch t.op {
	case "sym":
		return t.fr == fr && t.in == nil
	case "alloc", "init", "hv", "epoch", "maplen", "make", "makemap", "append", "&f", "&e", "&m", "arr", "closure":
		return false
	}
	for _, a := range t.args {
		if !paramPure(a, fr) {
			return false
		}
	}
	return true
}

// modCall applies the summary of a call.
func (e *Eng) modCall(x *Ctx, ci *CallInfo, bind func(*State, []*Term)) []*State {
	fn := ci.Fn
	var ent modEntry
	if e.H.ModEnter != nil {
		ent = e.H.ModEnter(x, ci)
	} else {
		ent.cl = x.st.cl
	}
	s := e.summarise(x, fn, ci.Args, ent)
	fr := e.frame(nil, nil, fn)
	e.havocMods(x, fn)
	var out []*State
	seen := map[string]bool{}
	for _, ex := range s.exits {
		n := x.st.clone()
		y := &Ctx{e, x.fr, n, x.in}
		sub := map[*Term]*Term{}
		mp := func(t *Term) *Term {
			return e.subst(t, func(q *Term) *Term {
				if q.op == "sym" && q.fr == fr && q.in == nil {
					for i, p := range fn.Params {
						if i < len(ci.Args) && q == e.T.Sym(fr, nil, p.Name(), p.Type()) {
							return ci.Args[i]
						}
					}
				}
				return nil
			}, sub)
		}
		res := make([]*Term, len(ex.results))
		for i, t := range ex.results {
			rt := ci.Sig.Results().At(i).Type()
			switch {
			case t.isConst() || t.isNil():
				res[i] = t
			case t.op == "iface" && (t.args[0].isConst()):
				res[i] = t
			case paramPure(t, fr):
				res[i] = mp(t)
			default:
				f := e.T.Sym(x.fr, x.in, fmt.Sprintf("m%d:%s", i, fnName(fn)), rt)
				e.forget(n, f)
				if isNillable(rt) {
					nk := e.T.App("eq", "", types.Typ[types.Bool], f, e.T.Nil())
					if e.knownNonNil(ex.st, t) {
						n.facts[nk] = false
					} else if e.knownNil(ex.st, t) {
						res[i] = e.T.Nil()
					}
				}
				if res[i] == nil {
					res[i] = f
				}
			}
		}
		ok := true
		if !e.H.ModNoFacts {
			for f, pol := range ex.st.facts {
				if len(f.syms) > 0 && paramPure(f, fr) {
					if !e.assume(n, mp(f), pol) {
						ok = false
						break
					}
				}
			}
		}
		if !ok {
			continue
		}
		if e.H.ModLeave != nil {
			e.H.ModLeave(y, ci, ex, res)
		} else {
			n.cl = map[string]*Term{}
			for k, v := range ex.st.cl {
				n.cl[k] = v
			}
		}
		k := n.clKey() + "#" + n.factKey()
		for _, t := range res {
			k += fmt.Sprint(",", t.id)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		if bind != nil {
			bind(n, res)
		}
		out = append(out, n)
	}
	return out
}

// runModular analyses entry points with one engine to a fixpoint of summaries.
func (r *Rep) runModular(h *Hooks, roots []*ssa.Function, ent func(e *Eng, fn *ssa.Function) modEntry) *Eng {
	e := newEng(r.p, h)
	e.summ = map[string]*summary{}
	for round := 0; ; round++ {
		e.round = round
		e.again = false
		e.steps = 0
		e.memo = map[string][]*Exit{}
		for _, fn := range roots {
			var m modEntry
			if ent != nil {
				m = ent(e, fn)
			}
			e.stack = nil
			s := e.summarise(&Ctx{e, e.frame(nil, nil, fn), newState(), nil}, fn, m.args, m)
			if h.RootExit != nil && s.round == round {
				for _, o := range s.exits {
					e.stack = []string{}
					h.RootExit(&Ctx{e, e.frame(nil, nil, fn), o.st, o.ret}, o)
				}
			}
		}
		if !e.again {
			break
		}
		if round > 20 {
			r.undecided("summaries did not stabilise")
			break
		}
	}
	for _, fn := range roots {
		r.absorbFn(fn)
	}
	r.absorbEng(e)
	return e
}

func (r *Rep) absorbFn(fn *ssa.Function) {
	r.mu.Lock()
	r.roots[fnName(fn)] = true
	r.mu.Unlock()
}
