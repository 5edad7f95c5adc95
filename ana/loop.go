package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) phiSym(fr *Frame, ph *ssa.Phi) *Term { return e.T.Sym(fr, ph, "phi", ph.Type()) }

// atHeader merges an arriving state into the invariant of the loop headed by b
// and returns the states to (re)process.
func (e *Eng) atHeader(fr *Frame, st *State, b *ssa.BasicBlock, l *loopInfo, pred *ssa.BasicBlock, heads map[*ssa.BasicBlock]map[string]*headState) {
	if heads[b] == nil {
		heads[b] = map[string]*headState{}
	}
	first := b.Instrs[0]
	x := &Ctx{e, fr, st, first}
	back := pred != nil && l.blocks[pred]
	if back && e.H.BackEdge != nil {
		e.H.BackEdge(x, fr, nil, st, b)
	}
	if e.H.LoopEnter != nil && !back {
		e.H.LoopEnter(x, b)
	}
	if len(st.defers) > 0 {
		for _, d := range st.defers {
			if l.blocks[d.in.Block()] && d.in.Parent() == fr.fn {
				e.undecide(fr, d.in, "defer inside a loop")
			}
		}
	}
	var phis []*ssa.Phi
	isPhi := map[ssa.Value]bool{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		isPhi[ph] = true
	}
	// split on booleans and on nil
	states := []*State{st}
	for _, ph := range phis {
		var nx []*State
		for _, s := range states {
			v := s.env[ph]
			switch {
			case isBoolType(ph.Type()) && !v.isConst():
				for _, pol := range []bool{true, false} {
					n := s.clone()
					if e.assume(n, v, pol) {
						n.env[ph] = e.T.Bool(pol)
						nx = append(nx, n)
					}
				}
			case isNillable(ph.Type()) && !isSliceType(ph.Type()) && !e.knownNil(s, v) && !e.knownNonNil(s, v):
				for _, pol := range []bool{true, false} {
					n := s.clone()
					if e.assume(n, e.mkEq(v, e.T.Nil()), pol) {
						nx = append(nx, n)
					}
				}
			default:
				nx = append(nx, s)
			}
		}
		states = nx
	}
	for _, s := range states {
		e.mergeHead(fr, s, b, l, phis, isPhi, heads[b], false)
	}
}

// changedHeads returns copies of the loop invariants that changed.
func (e *Eng) changedHeads(heads map[string]*headState) []*State {
	var ks []string
	for k, h := range heads {
		if h.changed {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []*State
	for _, k := range ks {
		heads[k].changed = false
		out = append(out, heads[k].st.clone())
	}
	return out
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (e *Eng) dies(t *Term, fr *Frame, l *loopInfo) bool {
	for _, s := range t.syms {
		if symInLoop(s, fr, l) {
			return true
		}
	}
	return false
}

func (e *Eng) mergeHead(fr *Frame, st *State, b *ssa.BasicBlock, l *loopInfo, phis []*ssa.Phi, isPhi map[ssa.Value]bool, heads map[string]*headState, force bool) {
	first := b.Instrs[0]
	x := &Ctx{e, fr, st, first}
	// client state must not mention values of the iteration that ended
	ncl := map[string]*Term{}
	for k, t := range st.cl {
		if e.dies(t, fr, l) {
			t = e.T.Sym(fr, first, "cl:"+k, t.typ)
		}
		ncl[k] = t
	}
	// partition
	var pk []string
	kind := map[*ssa.Phi]byte{}
	for _, ph := range phis {
		v := st.env[ph]
		switch {
		case isBoolType(ph.Type()):
			kind[ph] = 'c'
			pk = append(pk, v.String())
		case isNillable(ph.Type()) && !isSliceType(ph.Type()):
			if e.knownNil(st, v) {
				kind[ph] = 'n'
				pk = append(pk, "nil")
			} else {
				kind[ph] = 'N'
				pk = append(pk, "obj")
			}
		default:
			kind[ph] = 'g'
		}
	}
	var bm []string
	for loc, v := range st.mem {
		if v.isConst() && isBoolType(v.typ) && !e.dies(loc, fr, l) {
			bm = append(bm, fmt.Sprintf("%d=%s", loc.id, v))
		}
	}
	sort.Strings(bm)
	var ek fp
	for v, t := range st.env {
		if !isPhi[v] {
			ek.add(strHash(v.Name()), uint64(t.id))
		}
	}
	tmp := &State{cl: ncl, defers: st.defers}
	base := tmp.clKey() + "#" + tmp.deferKey() + "#" + strings.Join(pk, ",") + "#" + strings.Join(bm, ",")
	key := base + "#" + ek.String()
	H := heads[key]
	if H == nil && len(heads) >= 2*e.cap() {
		// too many entries: merge with an existing one of the same partition
		var ks []string
		for k := range heads {
			if strings.HasPrefix(k, base+"#") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		if len(ks) > 0 && !force {
			o := heads[ks[len(ks)-1]]
			for _, k := range ks {
				if heads[k].joined {
					o = heads[k]
				}
			}
			j := e.joinEnv(fr, b, o.st, st, isPhi)
			e.nJoins++
			e.mergeHead(fr, j, b, l, phis, isPhi, heads, true)
			return
		}
	}
	symOf := func(ph *ssa.Phi) *Term { return e.phiSym(fr, ph) }
	if H == nil {
		n := st.clone()
		n.cl = ncl
		ren := map[*Term][]*Term{}
		for _, ph := range phis {
			v := st.env[ph]
			switch kind[ph] {
			case 'c':
			case 'n':
				n.env[ph] = e.T.Nil()
			default:
				s := symOf(ph)
				n.env[ph] = s
				if v != s {
					ren[v] = append(ren[v], s)
				}
			}
		}
		// facts that mention the old iteration's symbols of this loop are stale
		for f := range n.facts {
			if e.dies(f, fr, l) {
				delete(n.facts, f)
			}
		}
		e.killMem(fr, n, l, first)
		for v, ss := range ren {
			for _, s := range ss {
				if kindOfSym(kind, phis, s, symOf) == 'N' {
					n.facts[e.T.App("eq", "", types.Typ[types.Bool], s, e.T.Nil())] = false
				}
				dead := e.dies(v, fr, l)
				if !dead {
					eq := e.mkEq(s, v)
					e.addFact(n, eq, true)
				}
				if isSignedInt(s.typ) && s.typ != nil && isIntType(s.typ) {
					ls, lv := e.linOf(s), e.linOf(v)
					if !dead {
						e.addFact(n, e.mkGE0(ls.add(lv, -1)), true)
						e.addFact(n, e.mkGE0(lv.add(ls, -1)), true)
					}
					atoms := e.lenAtoms(st, fr, l)
					if v.op == "call" && isIndexFn(v.aux) {
						if n := e.mkLen(v.args[0]); !n.isConst() && !e.dies(n, fr, l) {
							atoms = append(atoms, n)
						}
						e.addFact(n, e.mkGE0(ls.add(newLin(1), 1)), true)
					}
					for _, a := range atoms {
						la := e.linOf(a)
						if e.provesGE0(st, la.add(lv, -1).add(newLin(1), -1)) {
							e.addFact(n, e.mkGE0(la.add(ls, -1).add(newLin(1), -1)), true)
							e.addFact(n, e.mkGE0(la.add(ls, -1)), true)
						} else if e.provesGE0(st, la.add(lv, -1)) {
							e.addFact(n, e.mkGE0(la.add(ls, -1)), true)
						}
					}
				}
				if !v.isConst() && !v.isNil() {
					memo := map[*Term]*Term{}
					for f, p := range st.facts {
						if !contains(f, v) || f.op == "eq" && f.args[1].isNil() {
							continue
						}
						g := e.subst(f, func(t *Term) *Term {
							if t == v {
								return s
							}
							return nil
						}, memo)
						if g != f && !e.dies2(g, fr, l, phis, symOf) {
							e.addFact(n, g, p)
						}
					}
				} else if isStringType(v.typ) && !isEmptyStr(v) {
					e.addFact(n, e.mkEq(s, e.T.Str("")), false)
				}
			}
		}
		if e.H.JoinBounds {
			e.projectLen(n, nil)
			e.lockStep(fr, n, st, l, phis, symOf)
		}
		// facts other partitions of this loop established, if they hold here too
		bsub := map[*Term]*Term{}
		for _, ph := range phis {
			if kind[ph] == 'g' || kind[ph] == 'N' {
				bsub[symOf(ph)] = st.env[ph]
			}
		}
		for loc, v := range n.mem {
			if isJoinSym(v, fr, first) {
				bsub[v] = w0(st, loc, e.peek(x, loc, et0(elemOf(loc))))
			}
		}
		bmemo := map[*Term]*Term{}
		for _, o := range heads {
			for f, p := range o.st.facts {
				if _, ok := n.facts[f]; ok || !e.dies(f, fr, l) {
					continue
				}
				g := e.subst(f, func(t *Term) *Term { return bsub[t] }, bmemo)
				if r := e.evalBool(st, g); r == 1 && p || r == -1 && !p {
					n.facts[f] = p
				}
			}
		}
		H = &headState{st: n, joined: force, changed: true}
		heads[key] = H
		return
	}
	// later arrival: weaken
	changed := false
	n := H.st
	sub := map[*Term]*Term{}
	for _, ph := range phis {
		if kind[ph] == 'g' || kind[ph] == 'N' {
			sub[symOf(ph)] = st.env[ph]
		}
	}
	// memory
	for loc, v := range n.mem {
		if isJoinSym(v, fr, first) {
			if w, ok := st.mem[loc]; ok {
				sub[v] = w
			} else {
				sub[v] = e.peek(x, loc, et0(elemOf(loc)))
			}
		}
	}
	old := st.clone()
	e.killMem(fr, old, l, first)
	nm := map[*Term]*Term{}
	for loc, v := range n.mem {
		nm[loc] = v
	}
	for loc := range old.mem {
		if _, ok := nm[loc]; !ok {
			nm[loc] = e.peek(&Ctx{e, fr, n, first}, loc, et0(elemOf(loc)))
		}
	}
	for loc, v := range nm {
		w, ok := old.mem[loc]
		if !ok {
			w = e.peek(&Ctx{e, fr, old, first}, loc, et0(elemOf(loc)))
		}
		if v == w {
			if _, had := n.mem[loc]; !had {
				n.mem[loc] = v
				changed = true
			}
			continue
		}
		s := e.T.Sym(fr, first, fmt.Sprintf("hm:%d", loc.id), elemOf(loc))
		if n.mem[loc] == s {
			continue
		}
		ov := v
		n.mem[loc] = s
		changed = true
		if s.typ != nil && isNillable(s.typ) {
			nk := e.T.App("eq", "", types.Typ[types.Bool], s, e.T.Nil())
			if e.knownNonNil(n, ov) && e.knownNonNil(st, w0(st, loc, w)) {
				n.facts[nk] = false
			}
		}
		if s.typ != nil && isIntType(s.typ) && isSignedInt(s.typ) {
			// ov <= s as a candidate
			cand := e.mkGE0(e.linOf(s).add(e.linOf(ov), -1))
			if e.provesGE0(st, e.linOf(w0(st, loc, w)).add(e.linOf(ov), -1)) {
				e.addFact(n, cand, true)
			}
		}
		sub[s] = w0(st, loc, w)
	}
	for r, v := range old.dirty {
		s := e.T.Sym(fr, first, "hd:"+r, nil)
		if n.dirty[r] != v && n.dirty[r] != s {
			n.dirty[r] = s
			changed = true
			e.flushClass(n, r)
		}
	}
	for r, v := range n.dirty {
		s := e.T.Sym(fr, first, "hd:"+r, nil)
		if old.dirty[r] != v && v != s {
			n.dirty[r] = s
			changed = true
		}
	}
	memo := map[*Term]*Term{}
	for f, p := range n.facts {
		g := e.subst(f, func(t *Term) *Term { return sub[t] }, memo)
		want := 1
		if !p {
			want = -1
		}
		if e.evalBool(st, g) != want {
			delete(n.facts, f)
			changed = true
		}
	}
	if !changed {
		return
	}
	H.n++
	if H.n > 200 {
		e.undecide(fr, first, "loop invariant does not stabilise")
		return
	}
	H.changed = true
}

func w0(st *State, loc, w *Term) *Term {
	if v, ok := st.mem[loc]; ok {
		return v
	}
	return w
}

// flushClass is a no-op placeholder: entries recorded in mem stay valid because
// every write that may alias them deletes them on the path itself, and the
// merge above compares each of them with the arriving state.
func (e *Eng) flushClass(n *State, r string) {}

func elemOf(loc *Term) types.Type {
	if loc.typ == nil {
		return nil
	}
	return deref(loc.typ)
}

func isJoinSym(v *Term, fr *Frame, first ssa.Instruction) bool {
	return v.op == "sym" && v.fr == fr && v.in == first && strings.Contains(v.aux, "hm:")
}

func kindOfSym(kind map[*ssa.Phi]byte, phis []*ssa.Phi, s *Term, symOf func(*ssa.Phi) *Term) byte {
	for _, ph := range phis {
		if symOf(ph) == s {
			return kind[ph]
		}
	}
	return 0
}

func contains(t, v *Term) bool {
	if t == v {
		return true
	}
	if v.depth >= t.depth {
		return false
	}
	for _, a := range t.args {
		if contains(a, v) {
			return true
		}
	}
	return false
}

// dies2: mentions an in-loop symbol other than the header's own phi symbols.
func (e *Eng) dies2(t *Term, fr *Frame, l *loopInfo, phis []*ssa.Phi, symOf func(*ssa.Phi) *Term) bool {
	for _, s := range t.syms {
		if symInLoop(s, fr, l) {
			own := false
			for _, ph := range phis {
				if symOf(ph) == s {
					own = true
				}
			}
			if !own {
				return true
			}
		}
	}
	return false
}

func (e *Eng) addFact(st *State, f *Term, pol bool) {
	for f.op == "not" {
		pol = !pol
		f = f.args[0]
	}
	if f.isConst() {
		return
	}
	if _, ok := st.facts[f]; !ok {
		st.facts[f] = pol
	}
}

// killMem removes what refers to values of the finished iteration.
func (e *Eng) killMem(fr *Frame, st *State, l *loopInfo, first ssa.Instruction) {
	for loc, v := range st.mem {
		if e.dies(loc, fr, l) {
			delete(st.mem, loc)
			root := rootOf(loc)
			if root.op == "alloc" {
				if a, ok := root.in.(*ssa.Alloc); ok && e.P.private(a) {
					continue
				}
			}
			reg := regionOf(loc)
			c := string(classOf(root))
			st.dirty[c+":"+reg] = e.T.Sym(fr, first, "kd:"+c+reg, nil)
			continue
		}
		if e.dies(v, fr, l) && !isJoinSym(v, fr, first) {
			s := e.T.Sym(fr, first, fmt.Sprintf("hm:%d", loc.id), elemOf(loc))
			st.mem[loc] = s
			if s.typ != nil && isNillable(s.typ) {
				nk := e.T.App("eq", "", types.Typ[types.Bool], s, e.T.Nil())
				if e.knownNonNil(st, v) {
					st.facts[nk] = false
				} else {
					delete(st.facts, nk)
				}
			}
		}
	}
	for r, v := range st.dirty {
		if strings.HasPrefix(r, "o") {
			var id int
			fmt.Sscanf(r, "o%d:", &id)
			_ = id
		}
		if e.dies(v, fr, l) {
			st.dirty[r] = e.T.Sym(fr, first, "hd:"+r, nil)
		}
	}
}

// lenAtoms lists the lengths worth relating a counter to.
func (e *Eng) lenAtoms(st *State, fr *Frame, l *loopInfo) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		if !seen[t] && len(out) < 12 && !e.dies(t, fr, l) {
			seen[t] = true
			out = append(out, t)
		}
	}
	var vs []*Term
	for _, t := range st.env {
		vs = append(vs, t)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, t := range vs {
		if t.typ == nil {
			continue
		}
		if isStringType(t.typ) && !t.isConst() || isSliceType(t.typ) && !t.isNil() {
			n := e.mkLen(t)
			if !n.isConst() {
				add(n)
			}
		}
		if isIntType(t.typ) && (t.op == "len" || t.op == "lin" || isROp(t.op)) {
			add(t)
		}
	}
	return out
}

// joinEnv joins two header states in their non-phi registers.
func (e *Eng) joinEnv(fr *Frame, b *ssa.BasicBlock, a, c *State, isPhi map[ssa.Value]bool) *State {
	n := c.clone()
	first := b.Instrs[0]
	if e.H.JoinBounds {
		e.joinCounted(fr, first, n, a, c, isPhi)
		return n
	}
	for v, t := range c.env {
		if isPhi[v] {
			continue
		}
		u, ok := a.env[v]
		if !ok {
			continue
		}
		if u != t {
			s := e.T.Sym(fr, first, "j:"+v.Name(), v.Type())
			if u == s {
				n.env[v] = s
				e.carryNil(n, s, a, u, c, t)
				continue
			}
			n.env[v] = s
			e.carryNil(n, s, a, u, c, t)
		}
	}
	for f, p := range n.facts {
		if q, ok := a.facts[f]; !ok || q != p {
			delete(n.facts, f)
		}
	}
	return n
}

// joinCounted is joinEnv where joined numbers and lists keep what is known
// about their sizes.
func (e *Eng) joinCounted(fr *Frame, first ssa.Instruction, n, a, c *State, isPhi map[ssa.Value]bool) {
	var ps []joined
	fresh := map[*Term]bool{}
	for v, t := range c.env {
		u, ok := a.env[v]
		if isPhi[v] || !ok || u == t {
			continue
		}
		s := e.T.Sym(fr, first, "j:"+v.Name(), v.Type())
		n.env[v] = s
		fresh[s] = true
		ps = append(ps, joined{v, s, u, t})
	}
	for f, p := range n.facts {
		if q, ok := a.facts[f]; !ok || q != p || symsAny(f, fresh) {
			delete(n.facts, f)
		}
	}
	for _, p := range ps {
		e.carryNil(n, p.s, a, p.t, c, p.u)
	}
	e.carrySizes(n, a, c, ps)
}

// joined: a register whose values t and u became s.
type joined struct {
	v       ssa.Value
	s, t, u *Term
}

// carrySizes: how joined numbers relate to the sizes of joined lists and texts.
func (e *Eng) carrySizes(n, a, c *State, ps []joined) {
	for _, p := range ps {
		if !isStringType(p.s.typ) && !isSliceLike(p.s) {
			continue
		}
		ls := e.linOf(e.mkLen(p.s))
		for i := 0; i < 2; i++ {
			st, ot, lt, lu := a, c, e.mkLen(p.t), e.linOf(e.mkLen(p.u))
			if i == 1 {
				st, ot, lt, lu = c, a, e.mkLen(p.u), e.linOf(e.mkLen(p.t))
			}
			if lt.op != "len" || lt == e.mkLen(p.s) && i == 1 {
				continue
			}
			for f, pol := range st.facts {
				if f.op != "ge0" {
					continue
				}
				l := e.linOf(f.args[0])
				k, ok := l.co[lt]
				if !ok || len(l.co) < 2 {
					continue
				}
				if !pol {
					l, k = newLin(-1).add(l, -1), -k
				}
				rest := l.add(e.linOf(lt), -k)
				if e.provesGE0(ot, rest.add(lu, k)) {
					e.addFact(n, e.mkGE0(rest.add(ls, k)), true)
				}
			}
		}
		for _, q := range ps {
			if !isIntType(q.v.Type()) {
				continue
			}
			if q.t == e.mkLen(p.t) && q.u == e.mkLen(p.u) {
				n.env[q.v] = e.mkLen(p.s)
				continue
			}
			e.carryDiff(n, e.mkLen(p.s), q.s, a, e.mkLen(p.t), q.t, c, e.mkLen(p.u), q.u)
		}
	}
}

// lockStep assumes, until an iteration shows otherwise, that counters and
// growing lists advance together.
func (e *Eng) lockStep(fr *Frame, n, st *State, l *loopInfo, phis []*ssa.Phi, symOf func(*ssa.Phi) *Term) {
	type measure struct{ now, start *LinExpr }
	var ms []measure
	for _, ph := range phis {
		v, s := st.env[ph], symOf(ph)
		if n.env[ph] != s || v == nil || e.dies(v, fr, l) {
			continue
		}
		switch {
		case isIntType(ph.Type()) && isSignedInt(ph.Type()):
			ms = append(ms, measure{e.linOf(s), e.linOf(v)})
		case isSliceType(ph.Type()):
			ms = append(ms, measure{e.linOf(e.mkLen(s)), e.linOf(e.mkLen(v))})
		}
	}
	if len(ms) > 5 {
		return
	}
	for i, a := range ms {
		for _, b := range ms[i+1:] {
			d := a.now.add(a.start, -1).add(b.now, -1).add(b.start, 1)
			e.addFact(n, e.mkGE0(d), true)
			e.addFact(n, e.mkGE0(d.neg()), true)
		}
	}
}
