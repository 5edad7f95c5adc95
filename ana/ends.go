package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule P02: every loop and every recursion makes progress towards an end.

func init() { checks["P02"] = checkP02 }

type p02 struct {
	*p01
}

// counted: the loop runs over a map or a text that is fixed when it starts, or
// its head compares a counter, which every round moves on, with such a value.
func counted(hdr *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) bool {
	before := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return !ok || !blocks[in.Block()]
	}
	outside := func(v ssa.Value) bool {
		if before(v) {
			return true
		}
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" && before(c.Call.Args[0])
		}
		recv := measured(&c.Call)
		return recv != nil && before(recv)
	}
	for _, in := range hdr.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok && !blocks[r.Block()] {
				return true
			}
		}
	}
	// the counter's step in every round
	step := func(ph *ssa.Phi) int64 {
		if ph.Block() != hdr || !isSignedInt(ph.Type()) {
			return 0
		}
		var k int64
		for i, e := range ph.Edges {
			if !blocks[hdr.Preds[i]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(ph) || b.Op != token.ADD && b.Op != token.SUB {
				return 0
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return 0
			}
			d := c.Int64()
			if b.Op == token.SUB {
				d = -d
			}
			if d == 0 || k != 0 && (k > 0) != (d > 0) {
				return 0
			}
			k = d
		}
		return k
	}
	br, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	if outside(x) && !outside(y) {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
	}
	if !outside(y) {
		return false
	}
	stay := blocks[hdr.Succs[0]]
	if stay == blocks[hdr.Succs[1]] {
		return false
	}
	if !stay {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS}[op]
	}
	if b, ok := x.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, ok := b.Y.(*ssa.Const); ok {
			x = b.X
		}
	}
	ph, ok := x.(*ssa.Phi)
	if !ok {
		return false
	}
	switch k := step(ph); op {
	case token.LSS, token.LEQ:
		return k > 0
	case token.GTR, token.GEQ:
		return k < 0
	}
	return false
}

func (t *p02) own(f *ssa.Function) bool {
	some := false
	for hdr, l := range findLoops(f) {
		if !counted(hdr, l.blocks) {
			some = true
		} else {
			t.r.ob(true, "counted", fnName(f), loopName(f, hdr), "", "", hdr.Instrs[len(hdr.Instrs)-1])
		}
	}
	return some
}

// inputRead: the operation takes bytes out of a source; the index of its error
// result and of the bytes.
func inputRead(c *CallInfo) (recv string, ok bool) {
	if c.Kind != "lib" {
		return "", false
	}
	i := strings.LastIndex(c.Name, ".")
	if i < 0 {
		return "", false
	}
	recv = c.Name[:i]
	switch recv {
	case "(*bufio.Reader)", "(*bytes.Buffer)", "(*bytes.Reader)", "(*strings.Reader)":
		switch c.Name[i+1:] {
		case "ReadBytes", "ReadString", "ReadSlice", "ReadLine", "ReadByte", "ReadRune":
			return recv, true
		}
	case "(*bufio.Scanner)":
		return recv, c.Name[i+1:] == "Scan"
	}
	return "", false
}

const roundMark, freeMark = "pg@", "free@"

// progressed notes that every loop running now took input in this round.
func progressed(x *Ctx, st *State) {
	b := x.in.Block()
	for fr := x.fr; fr != nil; fr = fr.parent {
		for hdr, l := range x.e.fnInfo(fr.fn).loops {
			if l.blocks[b] {
				st.cl[roundMark+hdrKey(fr, hdr)] = x.e.T.App("v", "taken", nil)
			}
		}
		if fr.call != nil {
			b = fr.call.Block()
		}
	}
}

// take: the outcomes of taking input.
func (t *p02) take(x *Ctx, c *CallInfo) ([]CallRes, bool) {
	recv, ok := inputRead(c)
	if !ok {
		return nil, false
	}
	T := x.e.T
	n := c.Sig.Results().Len()
	ended := "ended:" + recv
	var out []CallRes
	add := func(some bool, err *Term, end bool) {
		st := x.st.clone()
		res := make([]*Term, n)
		for i := range res {
			ty := c.Sig.Results().At(i).Type()
			switch {
			case isErrType(ty):
				res[i] = err
			case isBoolType(ty):
				if n == 1 {
					res[i] = T.Bool(some)
				}
			case i == 0 && (isStringType(ty) || isSliceType(ty)):
				if !some && isStringType(ty) {
					res[i] = T.Str("")
				} else if !some {
					res[i] = T.Nil()
				} else {
					res[i] = x.fresh("input", ty)
					x.e.addFact(st, x.e.mkGE0(x.e.linOf(x.e.mkLen(res[i])).add(newLin(1), -1)), true)
				}
			}
		}
		if some {
			progressed(x, st)
		}
		if end {
			st.cl[ended] = T.App("v", "ended", nil)
		}
		out = append(out, CallRes{st, res})
	}
	eof := libErr(x, "io.EOF")
	if recv == "(*bufio.Scanner)" {
		eof = nil
	}
	if x.st.cl[ended] == nil {
		add(true, T.Nil(), false)
		if n > 1 && !isIntType(c.Sig.Results().At(0).Type()) {
			add(true, eof, true)
		}
	}
	add(false, eof, true)
	if recv == "(*bufio.Reader)" {
		st := x.st.clone()
		res := make([]*Term, n)
		for i := range res {
			if isErrType(c.Sig.Results().At(i).Type()) {
				res[i] = x.fresh("err", c.Sig.Results().At(i).Type())
				x.e.assume(st, x.e.mkEq(res[i], T.Nil()), false)
				x.e.assume(st, x.e.mkEq(res[i], eof), false)
			}
		}
		st.cl[ended] = T.App("v", "failed", nil)
		out = append(out, CallRes{st, res})
	}
	return out, true
}

// A loop's rounds, by what they do to its measures.
type p02loop struct {
	fn    string
	what  string
	at    ssa.Instruction
	edges map[string]map[string]int // round -> measure -> 1 falls, 2 does not grow
	bad   string
	n     int
}

type measure struct {
	name     string
	old, new *LinExpr
}

func (t *p02) measures(x *Ctx, fr *Frame, st *State, hdr *ssa.BasicBlock) []measure {
	e := x.e
	var one []measure
	for _, in := range hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := st.env[ph]
		s := e.phiSym(fr, ph)
		switch {
		case v == nil:
		case isIntType(ph.Type()) && isSignedInt(ph.Type()):
			one = append(one, measure{ph.Name(), e.linOf(s), e.linOf(v)})
		case isStringType(ph.Type()), isSliceType(ph.Type()):
			one = append(one, measure{"len " + ph.Name(), e.linOf(e.mkLen(s)), e.linOf(e.mkLen(v))})
		}
	}
	out := append([]measure{}, one...)
	z := newLin(0)
	for _, m := range one {
		out = append(out, measure{"-" + m.name, z.add(m.old, -1), z.add(m.new, -1)})
	}
	for i, m := range one {
		for j, o := range one {
			if i != j {
				out = append(out, measure{m.name + "-" + o.name, m.old.add(o.old, -1), m.new.add(o.new, -1)})
			}
		}
	}
	return out
}

// fixed: a value that stays the same while the loop runs.
func (t *p02) fixed(e *Eng, a *Term, fr *Frame, l *loopInfo) bool {
	if !e.dies(a, fr, l) {
		return true
	}
	switch a.op {
	case "len":
		return t.fixed(e, a.args[0], fr, l)
	case "call":
		if strings.HasPrefix(a.aux, "(reflect.") {
			for _, q := range a.args {
				if !t.fixed(e, q, fr, l) {
					return false
				}
			}
			return true
		}
	case "sym":
		if a.fr != fr {
			return false
		}
		if _, n, ok := strings.Cut("."+a.aux, ".j:"); ok {
			n, _, _ = strings.Cut(n, "@")
			for _, b := range fr.fn.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok && v.Name() == n {
						return !l.blocks[b]
					}
				}
			}
			return true
		}
		c, ok := a.in.(*ssa.Call)
		if !ok {
			return false
		}
		cc := c.Call
		if recv := measured(&cc); recv != nil {
			in, ok := recv.(ssa.Instruction)
			return !ok || !l.blocks[in.Block()]
		}
		g := cc.StaticCallee()
		return g != nil && g.String() == "(*bufio.Reader).Peek" // never more than the reader's buffer
	}
	return false
}

// measured: what a call of reflection counts the parts of.
func measured(cc *ssa.CallCommon) ssa.Value {
	name, recv := "", ssa.Value(nil)
	if cc.IsInvoke() {
		name, recv = cc.Method.Name(), cc.Value
	} else if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(cc.Args) > 0 {
		name, recv = g.Name(), cc.Args[0]
	}
	switch name {
	case "NumField", "Len", "NumMethod", "NumIn", "NumOut":
		if strings.Contains(recv.Type().String(), "reflect.") {
			return recv
		}
	}
	return nil
}

// bounded: the measure cannot fall below something fixed.
func (t *p02) bounded(e *Eng, st *State, m measure, fr *Frame, l *loopInfo) bool {
	if e.provesGE0(st, m.old) || e.provesGE0(st, m.new) {
		return true
	}
	try := func(f *LinExpr) bool {
		for _, side := range []*LinExpr{m.old, m.new} {
			rest := f.add(side, -1)
			ok := true
			for a, c := range rest.co {
				ok = ok && (c == 0 || t.fixed(e, a, fr, l))
			}
			if ok {
				return true
			}
		}
		return false
	}
	// the measure itself is about something fixed
	if try(newLin(0)) {
		return true
	}
	for f, p := range st.facts {
		if f.op == "ge0" {
			q := e.linOf(f.args[0])
			if !p {
				q = newLin(-1).add(q, -1)
			}
			if try(q) {
				return true
			}
		}
	}
	return false
}

func (t *p02) hooks(y *p01try, f *ssa.Function) *Hooks {
	h := fullHooks()
	h.JoinCap, h.ExitCap, h.FactCap, h.KeepEpochs, h.JoinBounds, h.KeepPhis = 32, 32, 48, true, true, true
	h.KeepFact = func(u *Term) bool {
		switch u.op {
		case "eq":
			return !y.lean || u.args[1].isNil() || u.args[0].typ != nil && isErrType(u.args[0].typ)
		case "ge0", "lt", "le":
			return true
		case "istype":
			return !y.lean
		case "call":
			return !y.lean && len(u.args) > 0 && u.args[0].typ != nil && isText(u.args[0].typ)
		}
		return false
	}
	if !y.all {
		h.JoinCap = 12
	}
	if y.lean {
		h.JoinCap, h.ExitCap = 2, 4
	}
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		if rs, ok := t.take(x, c); ok {
			return rs, true
		}
		if rs, ok := t.nothingThere(x, c); ok {
			return rs, true
		}
		return t.call(y, x, c)
	}
	h.LoopEnter = func(x *Ctx, hdr *ssa.BasicBlock) {
		delete(x.st.cl, roundMark+hdrKey(x.fr, hdr))
		delete(x.st.cl, freeMark+hdrKey(x.fr, hdr))
	}
	// marks of loops that are over
	over := func(x *Ctx, fr *Frame, b *ssa.BasicBlock) {
		on := map[string]bool{}
		for ; fr != nil; fr = fr.parent {
			for hdr, l := range x.e.fnInfo(fr.fn).loops {
				if l.blocks[b] {
					on[hdrKey(fr, hdr)] = true
				}
			}
			if fr.call != nil {
				b = fr.call.Block()
			}
		}
		for k := range x.st.cl {
			if i := strings.Index(k, "@"); i > 0 && !on[k[i+1:]] {
				delete(x.st.cl, k)
			}
		}
	}
	h.Leave = func(x *Ctx, callee *Frame, c *CallInfo, res []*Term) {
		over(x, x.fr, x.in.Block())
		delete(x.st.cl, "ended:(*bytes.Buffer)")
	}
	h.Branch = func(x *Ctx, cond *Term, taken bool) bool {
		over(x, x.fr, x.in.Block())
		return true
	}
	loops := map[string]*p02loop{}
	h.BackEdge = func(x *Ctx, fr *Frame, _, st *State, hdr *ssa.BasicBlock) {
		key := hdrKey(fr, hdr)
		taken := st.cl[roundMark+key] != nil
		delete(st.cl, roundMark+key)
		e := x.e
		l := e.fnInfo(fr.fn).loops[hdr]
		for h2 := range e.fnInfo(fr.fn).loops {
			if h2 != hdr && l.blocks[h2] {
				delete(st.cl, roundMark+hdrKey(fr, h2))
				delete(st.cl, freeMark+hdrKey(fr, h2))
			}
		}
		if !t.mine(fr.fn, f) || counted(hdr, l.blocks) {
			return
		}
		q := loops[key]
		if q == nil {
			q = &p02loop{fn: fnName(fr.fn), what: loopName(fr.fn, hdr), at: hdr.Instrs[len(hdr.Instrs)-1], edges: map[string]map[string]int{}}
			loops[key] = q
		}
		q.n++
		if taken {
			return
		}
		rel := map[string]int{}
		falls := false
		var names []string
		for _, m := range t.measures(x, fr, st, hdr) {
			d := m.old.add(m.new, -1)
			switch {
			case e.provesGE0(st, d.add(newLin(1), -1)) && t.bounded(e, st, m, fr, l):
				rel[m.name] = 1
				falls = true
			case e.provesGE0(st, d):
				rel[m.name] = 2
			default:
				continue
			}
			names = append(names, fmt.Sprint(m.name, ":", rel[m.name]))
		}
		if !falls {
			if st.cl[freeMark+key] == nil {
				st.cl[freeMark+key] = e.T.App("v", "free", nil)
				return
			}
			if q.bad == "" {
				q.bad = "a round of the loop brings nothing closer to an end: no input is taken and no counter, length or difference falls towards a fixed bound"
			}
			for _, in := range hdr.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && st.env[ph] != nil {
					y.fails = append(y.fails, st.env[ph])
				}
			}
			for g := range st.facts {
				if g.op == "ge0" || g.op == "eq" {
					y.fails = append(y.fails, g)
				}
			}
			return
		}
		sort.Strings(names)
		q.edges[strings.Join(names, " ")] = rel
	}
	y.after = func() {
		var ks []string
		for k := range loops {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			q := loops[k]
			if q.bad == "" && !descends(q.edges) {
				q.bad = "the rounds of the loop undo each other's progress: no order of counters and lengths falls in every round"
			}
			y.sub.ob(q.bad == "", "loop", q.fn, q.what, q.bad, "", q.at)
		}
	}
	return h
}

// descends: some lexicographic order of the measures falls in every round.
func descends(edges map[string]map[string]int) bool {
	left := map[string]map[string]int{}
	for k, v := range edges {
		left[k] = v
	}
	for len(left) > 0 {
		cand := map[string]bool{}
		for _, e := range left {
			for m, r := range e {
				if r == 1 {
					cand[m] = true
				}
			}
		}
		cut := false
		for m := range cand {
			ok := true
			for _, e := range left {
				ok = ok && e[m] != 0
			}
			if !ok {
				continue
			}
			for k, e := range left {
				if e[m] == 1 {
					delete(left, k)
				}
			}
			cut = true
			break
		}
		if !cut {
			return false
		}
	}
	return true
}

func loopName(f *ssa.Function, hdr *ssa.BasicBlock) string {
	n := 0
	for _, b := range f.Blocks {
		if l := findLoops(f)[b]; l != nil {
			n++
		}
		if b == hdr {
			return fmt.Sprint("loop ", n)
		}
	}
	return "loop"
}

// nothingThere: a search with a pattern that matches no empty text finds
// nothing in an empty one.
func (t *p02) nothingThere(x *Ctx, c *CallInfo) ([]CallRes, bool) {
	if !strings.HasPrefix(c.Name, "(*regexp.Regexp).Find") || len(c.Args) < 2 || c.Sig.Results().Len() != 1 {
		return nil, false
	}
	e := x.e
	n := e.mkLen(c.Args[1])
	if !e.provesGE0(x.st, newLin(0).add(e.linOf(n), -1)) || t.p.leastMatch(c.Args[0]) < 1 {
		return nil, false
	}
	ty := c.Sig.Results().At(0).Type()
	res := e.T.Nil()
	if isStringType(ty) {
		res = e.T.Str("")
	}
	return []CallRes{{x.st, []*Term{res}}}, true
}

func checkP02(p *Prog, r *Rep) {
	r.rule("every loop: each round takes input, or lowers, in one lexicographic order, counters, lengths or differences that are bounded from below by values fixed for the loop (one round without progress is allowed); every recursion: an argument falls likewise")
	r.need("counted", 1)
	judge := func(axs func(*State, *Term) []*LinExpr) *Rep {
		sub := newRep(p, r.prop, r.tier)
		t := &p02{p01: newP01(p, sub)}
		t.mk = t.hooks
		t.axs = axs
		for _, f := range p.funcs {
			if reads, makes := readsInput(p, f); reads && f.Parent() == nil {
				t.want[f], t.lean[f] = !makes, true
			}
		}
		t.drive(t.own)
		return sub
	}
	sub := judge(nil)
	if !sub.clean() {
		// with what is known of the options of a file
		sub = judge(nonEmptyDelimiters)
		d := newRep(p, r.prop, r.tier)
		t := newP01(p, d)
		t.mk = t.delimiters
		t.drive(storesOptions)
		sub.merge(d)
	}
	r.merge(sub)
	recursion(p, r, nonEmptyDelimiters)
}

// nonEmptyDelimiters: a file's delimiters are not empty.
func nonEmptyDelimiters(st *State, a *Term) []*LinExpr {
	if a.op == "len" && delimiterOf(a.args[0]) != "" {
		l := newLin(-1)
		l.co[a] = 1
		return []*LinExpr{l}
	}
	return nil
}

func delimiterOf(t *Term) string {
	for _, o := range []string{"ChildSectionDelimiter", "KeyValueDelimiters"} {
		if isOption(t, o) {
			return o
		}
	}
	return ""
}

// storesOptions: the function gives a file its options.
func storesOptions(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				for v := s.Addr; ; {
					a, ok := v.(*ssa.FieldAddr)
					if !ok {
						break
					}
					if k, _ := fieldKeyOf(a.X, a.Field); k == "File.options" {
						return true
					}
					v = a.X
				}
			}
		}
	}
	return false
}

// delimiters: a file's delimiters are not empty from the start.
func (t *p01) delimiters(y *p01try, f *ssa.Function) *Hooks {
	h := fullHooks()
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) { return t.call(y, x, c) }
	h.Store = func(x *Ctx, loc, val *Term) {
		if loc.op != "&f" || !strings.HasPrefix(loc.aux, "LoadOptions.") || loc.args[0].op != "&f" || loc.args[0].aux != "File.options" || !t.mine(x.fr.fn, f) {
			return
		}
		switch o := strings.TrimPrefix(loc.aux, "LoadOptions."); o {
		case "ChildSectionDelimiter", "KeyValueDelimiters":
			ok := x.e.knownNonEmpty(x.st, val) || x.e.provesGE0(x.st, x.e.linOf(x.e.mkLen(val)).add(newLin(1), -1))
			if !ok {
				y.fails = append(y.fails, val)
			}
			y.sub.obx(x, ok, "delimiter", o, "a file can be given an empty delimiter, with which the search for parent sections does not end")
		}
	}
	return h
}

func isOption(t *Term, opt string) bool {
	if (t.op == "init" || t.op == "hv") && t.args[0].op == "&f" && t.args[0].aux == "LoadOptions."+opt {
		return true
	}
	return t.op == "field" && strings.HasSuffix(t.aux, opt)
}

// readsInput: the function takes input from a reader; and creates one.
func readsInput(p *Prog, f *ssa.Function) (reads, makes bool) {
	gs, _ := p.reach(f)
	for g := range gs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				k := c.Common().StaticCallee()
				if k == nil {
					continue
				}
				n := k.String()
				if _, ok := inputRead(&CallInfo{Kind: "lib", Name: n}); ok && (strings.HasPrefix(n, "(*bufio.")) {
					reads = true
				}
				makes = makes || n == "bufio.NewReader" || n == "bufio.NewReaderSize" || n == "bufio.NewScanner"
			}
		}
	}
	return
}

// recursion: a function that calls itself, by way of others or not, does so
// with an argument that falls towards a fixed bound.
func recursion(p *Prog, r *Rep, axs func(*State, *Term) []*LinExpr) {
	next := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.funcs {
		next[f], _ = p.callees(f)
	}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		m := map[*ssa.Function]bool{}
		work := append([]*ssa.Function{}, next[f]...)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if !m[g] {
				m[g] = true
				work = append(work, next[g]...)
			}
		}
		reach[f] = m
	}
	var jobs []func()
	for _, f := range p.funcs {
		if !reach[f][f] || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		f := f
		jobs = append(jobs, func() {
			recursive(p, r, axs, f, func(g *ssa.Function) bool { return g.Parent() != nil || reach[g][f] })
		})
	}
	par(jobs)
}

func recursive(p *Prog, r *Rep, axs func(*State, *Term) []*LinExpr, f *ssa.Function, round func(*ssa.Function) bool) {
	sub := newRep(p, r.prop, r.tier)
	h := fullHooks()
	h.JoinCap, h.ExitCap = 8, 8
	edges := map[string]map[string]int{}
	bad := ""
	var at ssa.Instruction
	var root *Frame
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		if c.Kind != "ini" || c.Fn == nil {
			return nil, false
		}
		if c.Fn == f {
			at = x.in
			e := x.e
			rel := map[string]int{}
			falls, same := false, true
			types, names := 0, []string{}
			var one []measure
			for i, q := range f.Params {
				if i >= len(c.Args) {
					break
				}
				old, v := e.T.Sym(root, nil, q.Name(), q.Type()), c.Args[i]
				same = same && v == old
				switch {
				case strings.Contains(q.Type().String(), "reflect."):
					types++
					if v != old {
						rel[q.Name()] = 1
						falls = true
						names = append(names, q.Name())
					}
				case isSignedInt(q.Type()) && isIntType(q.Type()):
					one = append(one, measure{q.Name(), e.linOf(old), e.linOf(v)})
					one = append(one, measure{"-" + q.Name(), newLin(0).add(e.linOf(old), -1), newLin(0).add(e.linOf(v), -1)})
				case isStringType(q.Type()), isSliceType(q.Type()):
					one = append(one, measure{"len " + q.Name(), e.linOf(e.mkLen(old)), e.linOf(e.mkLen(v))})
				}
			}
			for _, m := range one {
				d := m.old.add(m.new, -1)
				switch {
				case e.provesGE0(x.st, d.add(newLin(1), -1)) && boundedBelow(e, x.st, m):
					rel[m.name] = 1
					falls = true
				case e.provesGE0(x.st, d):
					rel[m.name] = 2
				default:
					continue
				}
				names = append(names, fmt.Sprint(m.name, rel[m.name]))
			}
			switch {
			case falls:
				sort.Strings(names)
				edges[strings.Join(names, " ")] = rel
			case types > 0 && !same:
			default:
				bad = "the function calls itself, and no argument falls towards a fixed bound"
			}
			e.havocMods(x, f)
			return []CallRes{{x.st, nil}}, true
		}
		if round(c.Fn) {
			return nil, false
		}
		x.e.havocMods(x, c.Fn)
		return []CallRes{{x.st, nil}}, true
	}
	e := newEng(p, h)
	e.maxSteps, e.Axioms = 200000, axs
	func() {
		defer func() {
			if x := recover(); x != nil {
				sub.undecided(fmt.Sprint(x))
			}
		}()
		e.runRoot(f, func(fr *Frame, st *State) { root = fr })
	}()
	sub.absorb(e, f)
	if at == nil {
		return
	}
	if bad == "" && len(sub.undec) > 0 {
		r.count("recursions not decided", 1)
		return
	}
	if bad == "" && !descends(edges) {
		bad = "the function's calls of itself undo each other's progress"
	}
	r.ob(bad == "", "recursion", fnName(f), "calls itself", bad, "", at)
	r.merge(sub)
}

// boundedBelow: the measure cannot fall below a constant.
func boundedBelow(e *Eng, st *State, m measure) bool {
	if e.provesGE0(st, m.old) || e.provesGE0(st, m.new) {
		return true
	}
	for f, p := range st.facts {
		if f.op != "ge0" {
			continue
		}
		q := e.linOf(f.args[0])
		if !p {
			q = newLin(-1).add(q, -1)
		}
		for _, side := range []*LinExpr{m.old, m.new} {
			ok := true
			for _, c := range q.add(side, -1).co {
				ok = ok && c == 0
			}
			if ok {
				return true
			}
		}
	}
	return false
}
