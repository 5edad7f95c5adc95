package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules W02, W03, W04: what writing puts into the encoding buffer, piece by
// piece, on every path of the writing operations.

func init() {
	checks["W02"] = func(p *Prog, r *Rep) {
		r.rule("every path through writing: each round of the section loop emits the section's comment, its header (unless it is the first and the default section) and either its raw body or all its keys; each round of the key loop emits the key's comment, its name, every value (or the name alone for a boolean key) and every nested value; names, values and bodies unaltered; the loops run over the whole lists in stored order and writing ends well only after the last section")
		r.need("round", 2)
		r.need("all sections", 1)
		r.assumes("the lists of sections, keys, values and nested values are those the package's own accessors return", "a write to a buffer in memory does not fail")
		emitRun(p, r, "W02")
	}
	checks["W03"] = func(p *Prog, r *Rep) {
		r.rule("wherever text of a comment enters the encoding buffer, on every path: the line it is on starts with # or ; (written before it, or established as its own first character), the text is free of line feeds (split at line feeds, or searched for them), and nothing but a line break follows it on its line")
		r.need("section comment", 1)
		r.need("key comment", 1)
		r.assumes("the indentation given is white space", "a write to a buffer in memory does not fail")
		emitRun(p, r, "W03")
	}
	checks["W04"] = func(p *Prog, r *Rep) {
		r.rule("wherever a value or key name enters the encoding buffer bare, on every path: for a value, line feeds, back quotes, comment marks (unless inline comments are ignored) and outer white space have been excluded; for a name, double quotes, back quotes and delimiters; otherwise it is enclosed in the same quotes on both sides; it is never altered")
		r.need("value", 1)
		r.need("name", 1)
		r.assumes("a write to a buffer in memory does not fail")
		emitRun(p, r, "W04")
	}
}

type emitT struct {
	p    *Prog
	r    *Rep
	rule string
	fn   *ssa.Function
}

func emitRun(p *Prog, r *Rep, rule string) {
	var roots []*ssa.Function
	for _, f := range p.exportedRoots() {
		if recvName(f) == "File" && (f.Name() == "WriteToIndent" || f.Name() == "SaveToIndent") {
			roots = append(roots, f)
		}
	}
	r.run(roots, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
		t := &emitT{p, r, rule, fn}
		return t.hooks(), nil
	})
}

func (t *emitT) ob(x *Ctx, ok bool, rule, what, why string) {
	t.r.ob(ok, rule, fnName(x.fr.fn), what, why, "", x.in)
}

func (t *emitT) hooks() *Hooks {
	h := fullHooks()
	h.JoinCap, h.ExitCap, h.FactCap = 64, 32, 32
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		if c.Kind == "ini" {
			if k := listCall[c.Name]; k != "" {
				l := x.e.T.App("listof", k, c.Sig.Results().At(0).Type(), c.Args[0])
				return []CallRes{{x.st, []*Term{l}}}, true
			}
			if c.Name == "(*Key).String" {
				return []CallRes{{x.st, []*Term{x.e.T.App("expanded", "", types.Typ[types.String], c.Args[0])}}}, true
			}
			return nil, false
		}
		if n, ts := emission(c); n {
			for _, s := range ts {
				for _, pc := range pieces(x, filled(x, s)) {
					t.piece(x, pc)
				}
			}
			res := make([]*Term, c.Sig.Results().Len())
			if k := len(res); k > 0 && isErrType(c.Sig.Results().At(k-1).Type()) {
				res[k-1] = x.e.T.Nil()
			}
			return []CallRes{{x.st, res}}, true
		}
		return nil, false
	}
	h.KeepFact, h.KeepEpochs = t.keep, true
	h.Branch = t.branch
	h.BackEdge = func(x *Ctx, fr *Frame, head, st *State, hdr *ssa.BasicBlock) {
		t.round(x, fr, head, st, hdr)
		t.leave(x, fr, st, hdr)
	}
	h.LoopEnter = t.enter
	h.RootExit = func(x *Ctx, ex *Exit) {
		if t.rule != "W02" {
			return
		}
		if n := len(ex.results); n > 0 && isErrType(ex.results[n-1].typ) && x.e.knownNonNil(ex.st, ex.results[n-1]) {
			return
		}
		y := &Ctx{x.e, x.fr, ex.st, ex.ret}
		t.ob(y, ex.st.cl["did:sections"] != nil, "all sections", "writing", "writing can end well before all sections were looked at in order")
	}
	return h
}

// enter: texts prepared before a loop are told apart within it.
func (t *emitT) enter(x *Ctx, hdr *ssa.BasicBlock) {
	st := x.st
	put := func(at string, v *Term) {
		if v == nil || v.typ == nil || !isStringType(v.typ) || v.isConst() {
			return
		}
		for _, pc := range pieces(x, v) {
			switch k, _ := source(x, pc); {
			case k == "name", k == "value" && t.rule != "W03", strings.HasSuffix(k, "comment") && t.rule != "W04":
				st.cl["v:"+hdrKey(x.fr, hdr)+":"+at] = v
				return
			}
		}
	}
	for r, v := range st.env {
		put(r.Name(), v)
	}
	for l, v := range st.mem {
		if rootOf(l).op == "alloc" {
			put(l.String(), v)
		}
	}
}

func (t *emitT) over(x *Ctx, cond *Term, taken bool) {
	if _, hd := exhausted(x, cond, taken); hd != nil {
		clearMarks(x.st, "v:"+hdrKey(x.fr, hd)+":")
	}
}

// lastRound: after the round with the last index there is no other round.
func (t *emitT) lastRound(x *Ctx, cond *Term, taken bool) bool {
	e, st := x.e, x.st
	if _, hd := exhausted(x, cond, taken); hd != nil {
		delete(st.cl, "last:"+hdrKey(x.fr, hd))
		return true
	}
	if _, hd := exhausted(x, cond, !taken); hd != nil && st.cl["last:"+hdrKey(x.fr, hd)] != nil {
		return false
	}
	for cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	var l *LinExpr
	var phi *Term
	switch {
	case cond.op == "ge0":
		if l = e.linOf(cond.args[0]); !taken {
			l = newLin(-1).add(l, -1)
		}
	case cond.op == "eq" && taken && isIntType(cond.args[0].typ):
		l = e.linOf(cond.args[0]).add(e.linOf(cond.args[1]), -1)
		for a, k := range l.co {
			if a.op == "len" && k == 1 {
				l = l.neg()
				break
			}
		}
	default:
		return true
	}
	n := 0
	for a, k := range l.co {
		switch {
		case a.op == "len" && k == -1 && a.args[0].op == "listof":
			n++
		case a.op == "sym" && k == 1:
			phi = a
		default:
			return true
		}
	}
	if n != 1 || phi == nil {
		return true
	}
	if ph, ok := phi.in.(*ssa.Phi); ok && phi.fr == x.fr && counts(ph, l.k-1) {
		st.cl["last:"+hdrKey(x.fr, ph.Block())] = e.T.Bool(true)
	}
	return true
}

// leave: a round ended, and with it the loops within.
func (t *emitT) leave(x *Ctx, fr *Frame, st *State, hdr *ssa.BasicBlock) {
	var in *loopInfo
	for h, l := range x.e.fnInfo(fr.fn).loops {
		if h == hdr {
			in = l
		}
	}
	for k := range st.cl {
		if !strings.HasPrefix(k, "v:") {
			continue
		}
		var id, b int
		fmt.Sscanf(k, "v:%d:%d:", &id, &b)
		if id > fr.id || id == fr.id && b != hdr.Index && in != nil && in.blocks[fr.fn.Blocks[b]] {
			delete(st.cl, k)
		}
	}
}

// keep: the facts a rule decides with.
func (t *emitT) keep(f *Term) bool {
	if (f.op == "ge0" || f.op == "eq") && t.rule != "W04" && countFact(f) { // which round it is
		return true
	}
	if t.rule == "W02" {
		return (f.op == "init" || f.op == "hv") && f.args[0].op == "&f" && (f.args[0].aux == "Section.isRawSection" || strings.HasPrefix(f.args[0].aux, "Key.is"))
	}
	seen := map[*Term]bool{}
	var has func(s *Term) bool
	has = func(s *Term) bool {
		if s.op == "call" {
			for _, a := range s.args {
				if of(a, t.rule) {
					return true
				}
			}
		}
		if seen[s] || s.op == "sym" {
			return false
		}
		seen[s] = true
		for _, a := range s.args {
			if has(a) {
				return true
			}
		}
		return false
	}
	if t.rule == "W03" && strings.Contains(f.String(), "Section.rawBody") {
		return true
	}
	if has(f) {
		return true
	}
	if f.op == "eq" {
		return of(strip(f.args[0]), t.rule) || of(strip(f.args[1]), t.rule)
	}
	return false
}

// countFact: a fact about one counter, or the length of one of the lists.
func countFact(f *Term) bool {
	var at []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.op {
		case "lin":
			for _, a := range t.args {
				walk(a)
			}
		case "const":
		default:
			at = append(at, t)
		}
	}
	for _, a := range f.args {
		walk(a)
	}
	if len(at) != 1 {
		return false
	}
	if at[0].op == "sym" {
		_, ok := at[0].in.(*ssa.Phi)
		return ok
	}
	return at[0].op == "len" && at[0].args[0].op == "listof"
}

// of: the text is (part of) a comment (W03), a value or a name (W04).
func of(a *Term, rule string) bool {
	if a.op == "index" || a.op == "convert" || a.op == "bytes2str" {
		return len(a.args) > 0 && of(a.args[0], rule)
	}
	a = strip(a)
	if a.op == "expanded" {
		return rule == "W04"
	}
	if a.op != "init" && a.op != "hv" {
		return a.op == "sym" && a.typ != nil && isStringType(a.typ)
	}
	l := a.args[0]
	if l.op == "&e" {
		l = l.args[0]
		if rule == "W03" {
			return l.op == "call"
		}
		return l.op == "listof" || l.op == "init" || l.op == "hv"
	}
	if rule == "W03" {
		return strings.HasSuffix(l.aux, ".Comment")
	}
	return l.aux == "Key.value" || l.aux == "Key.name"
}

var listCall = map[string]string{"(*File).Sections": "sections", "(*Section).Keys": "keys", "(*Key).ValueWithShadows": "values", "(*Key).NestedValues": "nested"}

// emission: the texts a call adds to a buffer in memory.
func emission(c *CallInfo) (bool, []*Term) {
	switch {
	case encodes(c):
		return true, c.Args[1:2]
	case strings.HasPrefix(c.Name, "fmt.Fprint") && len(c.Args) > 1 && memBufArg(c.Args[0]):
		return true, []*Term{{op: "call", aux: "fmt.Sp" + strings.TrimPrefix(c.Name, "fmt.Fp"), args: c.Args[1:]}}
	case c.Name == "io.WriteString" && memBufArg(c.Args[0]):
		return true, c.Args[1:2]
	}
	return false, nil
}

func memBufArg(t *Term) bool {
	for t.op == "iface" || t.op == "changeiface" || t.op == "changetype" {
		if memReader(t.typ) {
			return true
		}
		t = t.args[0]
	}
	return t.typ != nil && (memReader(t.typ) || t.typ.String() == "*strings.Builder")
}

// filled: with the elements of lists made on the spot put in their place.
func filled(x *Ctx, t *Term) *Term {
	if t.op != "concat" && t.op != "call" && t.op != "str2bytes" && t.op != "bytes2str" && t.op != "append" {
		return t
	}
	var as []*Term
	changed := false
	for _, a := range t.args {
		b := a
		if t.op == "call" && t.aux == "strings.Join" && a.op == "slice" {
			if va, ok := x.e.varargs(x, a); ok {
				b = x.e.T.App("arr", "", a.typ, va...)
			}
		} else {
			b = filled(x, a)
		}
		changed = changed || b != a
		as = append(as, b)
	}
	if !changed {
		return t
	}
	return x.e.T.App(t.op, t.aux, t.typ, as...)
}

// pieces: the parts a text is put together from, in order.
func pieces(x *Ctx, t *Term) []*Term {
	T := x.e.T
	switch t.op {
	case "concat":
		return append(pieces(x, t.args[0]), pieces(x, t.args[1])...)
	case "str2bytes", "bytes2str", "convert", "changetype", "iface":
		return pieces(x, t.args[0])
	case "append":
		if isByteSlice(t.typ) || t.typ == nil {
			return append(pieces(x, t.args[0]), pieces(x, t.args[1])...)
		}
	case "const":
		if t.val != nil && t.val.Kind() == constant.Int {
			n, _ := constant.Int64Val(t.val)
			return []*Term{T.Str(string(rune(n)))}
		}
	case "call":
		var out []*Term
		switch {
		case t.aux == "strings.Join" && len(t.args) == 2 && t.args[0].op == "arr":
			for i, a := range t.args[0].args {
				if i > 0 {
					out = append(out, pieces(x, t.args[1])...)
				}
				out = append(out, pieces(x, a)...)
			}
			return out
		case strings.HasPrefix(t.aux, "fmt.Sprint") && len(t.args) > 0:
			args := t.args[len(t.args)-1]
			if args.op != "arr" {
				break
			}
			rest := args.args
			if t.aux == "fmt.Sprintf" {
				f, ok := constStr(t.args[0])
				if !ok {
					break
				}
				for f != "" {
					i := strings.IndexByte(f, '%')
					if i < 0 || i+1 >= len(f) {
						out = append(out, T.Str(f))
						break
					}
					if i > 0 {
						out = append(out, T.Str(f[:i]))
					}
					switch v := f[i+1]; {
					case v == '%':
						out = append(out, T.Str("%"))
					case (v == 's' || v == 'v') && len(rest) > 0:
						out = append(out, pieces(x, rest[0])...)
						rest = rest[1:]
					case len(rest) > 0:
						out = append(out, T.App("verb", string(v), types.Typ[types.String], unbox(rest[0])))
						rest = rest[1:]
					}
					f = f[i+2:]
				}
				return out
			}
			for i, a := range rest {
				if i > 0 && t.aux == "fmt.Sprintln" {
					out = append(out, T.Str(" "))
				}
				out = append(out, pieces(x, a)...)
			}
			if t.aux == "fmt.Sprintln" {
				out = append(out, T.Str("\n"))
			}
			return out
		}
	}
	return []*Term{t}
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// source: what a term is read from: "comment", "value", "name", "section",
// "body", "nested", and the term read.
func source(x *Ctx, t *Term) (string, *Term) {
	if t == nil {
		return "", nil
	}
	if t.op == "init" || t.op == "hv" {
		l := t.args[0]
		switch {
		case l.op == "&f":
			switch l.aux {
			case "Section.Comment":
				return "scomment", t
			case "Key.Comment":
				return "kcomment", t
			case "Key.value":
				return "value", t
			case "Key.name":
				return "name", t
			case "Section.name":
				return "section", t
			case "Section.rawBody":
				return "body", t
			}
		case l.op == "&e":
			switch listKind(x, l.args[0]) {
			case "values":
				return "value", t
			case "nested":
				return "nested", t
			case "scomment":
				return "scomment", t
			case "kcomment":
				return "kcomment", t
			}
			switch storageVal(x, l.args[0]) {
			case "Section.keyList":
				return "name", t
			case "File.sectionList":
				return "section", t
			}
			return source(x, l.args[0])
		}
		return "", nil
	}
	if t.op == "sym" || !isText(t.typ) {
		return "", nil
	}
	if t.op == "slice" {
		return source(x, t.args[0])
	}
	if t.op == "expanded" {
		return "value", t.args[0]
	}
	for _, a := range t.args {
		if k, s := source(x, a); k != "" {
			return k, s
		}
	}
	return "", nil
}

// listKind: what a list is a list of.
func listKind(x *Ctx, l *Term) string {
	switch l.op {
	case "listof":
		return l.aux
	case "call":
		if splits(l) {
			if k, _ := source(x, l.args[0]); strings.HasSuffix(k, "comment") {
				return k
			}
		}
	case "init", "hv":
		switch storageVal(x, l) {
		case "File.sectionList":
			return "sections"
		case "Section.keyList":
			return "keys"
		}
	}
	return ""
}

func splits(l *Term) bool {
	return l.op == "call" && (strings.HasPrefix(l.aux, "strings.Split") || l.aux == "strings.FieldsFunc" || strings.HasPrefix(l.aux, "bytes.Split"))
}

// clear drops the marks of a round that ended, and of the rounds within it.
func clearMarks(st *State, pre ...string) {
	for k := range st.cl {
		for _, p := range pre {
			if strings.HasPrefix(k, p) {
				delete(st.cl, k)
			}
		}
	}
}

func (t *emitT) branch(x *Ctx, cond *Term, taken bool) bool {
	e, st := x.e, x.st
	if t.rule == "W03" {
		t.bodyEnd(x, cond)
		t.over(x, cond, taken)
		return t.lastRound(x, cond, taken)
	}
	set := func(k string) {
		if t.rule == "W02" || strings.HasPrefix(k, "opt:") {
			st.cl[k] = e.T.Bool(true)
		}
	}
	if t.rule == "W04" {
		t.inline(x, cond)
		t.over(x, cond, taken)
		return true
	}
	if l, hd := exhausted(x, cond, taken); hd != nil && l != nil {
		clearMarks(st, "v:"+hdrKey(x.fr, hd)+":")
		if k := listKind(x, l); k != "" && emitsIn(t.p, x.fr.fn, hd, x.e) {
			set("did:" + k)
			delete(st.cl, "in:"+hdrKey(x.fr, hd))
		}
		return true
	}
	if l, hd := exhausted(x, cond, !taken); hd != nil && l != nil {
		if k := listKind(x, l); k != "" && emitsIn(t.p, x.fr.fn, hd, x.e) {
			st.cl["in:"+hdrKey(x.fr, hd)] = e.T.Str(k)
			clearMarks(st, marksOf[k]...)
		}
	}
	c, pol := cond, taken
	for c.op == "not" {
		c, pol = c.args[0], !pol
	}
	var look func(s *Term)
	seen := map[*Term]bool{}
	look = func(s *Term) {
		if seen[s] {
			return
		}
		seen[s] = true
		if s.op == "init" || s.op == "hv" {
			if s.args[0].op == "&f" {
				v := e.evalBool(st, s)
				switch s.args[0].aux {
				case "Section.isRawSection":
					if v != 0 {
						st.cl["is:raw"] = e.T.Bool(v == 1)
					}
				case "Key.isBooleanType":
					if v == 1 {
						set("is:bool")
					}
				case "Key.isAutoIncrement":
					if v == 1 {
						set("is:auto")
					}
				case "Section.Comment", "Key.Comment":
					if e.evalBool(st, e.mkEq(s, e.T.Str(""))) == 1 || e.evalBool(st, e.mkEq(e.mkLen(s), e.T.Int(0))) == 1 {
						k, _ := source(x, s)
						set("did:" + k)
					}
				}
			}
			return
		}
		if k := listKind(x, s); k != "" && e.evalBool(st, e.mkEq(e.mkLen(s), e.T.Int(0))) == 1 {
			set("did:" + k)
		}
		if s.op == "sym" {
			if _, ok := s.in.(*ssa.Phi); ok && st.cl["did:header"] == nil && isIntType(s.typ) {
				t.first(x, s)
			}
			return
		}
		for _, a := range s.args {
			look(a)
		}
	}
	look(c)
	if pol && (c.op == "eq" || c.op == "call" && c.aux == "strings.EqualFold") {
		for i := 0; i < 2; i++ {
			if isGlobalNamed(c.args[i], "DefaultSection") {
				if k, _ := source(x, c.args[1-i]); k == "section" && st.cl["did:header"] == nil {
					set("is:default")
				}
			}
		}
	}
	if st.cl["is:first"] != nil && st.cl["is:default"] != nil {
		clearMarks(st, "is:first", "is:default")
		set("did:header")
	}
	return true
}

// marksOf: what a round of a loop over a kind of list leaves behind.
var marksOf = map[string][]string{
	"sections": {"did:", "is:", "line:", "w:", "in2:"},
	"keys":     {"did:values", "did:nested", "did:kcomment", "did:name", "line:", "w:", "is:bool", "is:auto"},
	"values":   {"line:", "w:full"},
	"nested":   {"w:part"},
	"scomment": {"w:part"},
	"kcomment": {"w:part"},
}

func (t *emitT) inline(x *Ctx, c *Term) {
	for _, s := range subterms(c) {
		if s.typ != nil && isBoolType(s.typ) && mentionsOption(s, "IgnoreInlineComment") {
			delete(x.st.cl, "opt:inline")
			if x.e.evalBool(x.st, s) == 1 {
				x.st.cl["opt:inline"] = x.e.T.Bool(true)
			}
		}
	}
}

// bodyEnd: whether the line a raw section's body ends with was ended by it.
func (t *emitT) bodyEnd(x *Ctx, c *Term) {
	e, st := x.e, x.st
	for c.op == "not" {
		c = c.args[0]
	}
	for _, s := range subterms(c) {
		if s.op != "init" && s.op != "hv" || s.args[0].op != "&f" || s.args[0].aux != "Section.rawBody" {
			continue
		}
		open, known := false, false
		for _, f := range subterms(c) {
			if f.op == "call" && len(f.args) == 2 && f.args[0] == s && f.aux == "strings.HasSuffix" {
				if q, ok := constStr(f.args[1]); ok && strings.HasSuffix(q, "\n") || isLineBreak(f.args[1]) {
					v := e.evalBool(st, f)
					open, known = open || v == -1, known || v == 1
				}
			}
		}
		emptiness := c == e.mkEq(s, e.T.Str("")) || len(c.args) > 0 && !c.mentionsCall()
		switch {
		case known || e.evalBool(st, e.mkEq(s, e.T.Str(""))) == 1:
		case open || emptiness:
			continue
		}
		if l := st.cl["line"]; l != nil && l.isConst() && l == e.T.Str("body") {
			delete(st.cl, "line")
		} else {
			st.cl["bodyends"] = e.T.Bool(true)
		}
	}
}

// first: the round is known to be the first one of the section loop.
func (t *emitT) first(x *Ctx, phi *Term) {
	ph := phi.in.(*ssa.Phi)
	if k, _ := constStr(orNil(x.st.cl["in:"+hdrKey(phi.fr, ph.Block())])); k != "sections" {
		return
	}
	start := int64(0)
	for _, ed := range ph.Edges {
		if c, ok := ed.(*ssa.Const); ok {
			start = c.Int64()
		}
	}
	if x.e.provesGE0(x.st, newLin(start).add(x.e.linOf(phi), -1)) {
		x.st.cl["is:first"] = x.e.T.Bool(true)
	}
}

func orNil(t *Term) *Term {
	if t == nil {
		return &Term{op: "none"}
	}
	return t
}

func (t *emitT) round(x *Ctx, fr *Frame, _, st *State, hdr *ssa.BasicBlock) {
	kt := st.cl["in:"+hdrKey(fr, hdr)]
	if kt == nil {
		return
	}
	kind, _ := constStr(kt)
	if t.rule != "W02" {
		return
	}
	has := func(k string) bool { return st.cl[k] != nil }
	y := &Ctx{x.e, fr, st, hdr.Instrs[0]}
	ob := func(ok bool, why string) { t.ob(y, ok, "round", kind, why) }
	fresh := st.cl["line"] == nil
	left := func(kinds string) bool { // a loop within was left early
		for k, v := range st.cl {
			if s, _ := constStr(v); strings.HasPrefix(k, "in:") && s == kinds {
				return true
			}
		}
		return false
	}
	switch kind {
	case "sections":
		ob(has("did:scomment") && !left("scomment"), "a section's comment is not written, or not all of it")
		ob(has("did:header"), "a section's header is not written")
		if raw := st.cl["is:raw"]; raw != nil && x.e.evalBool(st, raw) == 1 {
			ob(has("did:body"), "the body of a raw section is not written")
		} else {
			ob(has("did:keys"), "not all keys of a section are written")
		}
	case "keys":
		ob(has("did:kcomment") && !left("kcomment"), "a key's comment is not written, or not all of it")
		ob(has("did:name"), "a key's name is not written")
		if !has("is:bool") {
			ob(has("did:values"), "not all values of a key are written")
			ob(has("did:nested"), "not all nested values of a key are written")
		}
		ob(fresh, "the line of a key is not ended")
	case "values":
		ob(has("is:bool") || has("w:full"), "a value is not written with its name and a delimiter on a line of its own")
	case "nested":
		ob(has("w:part"), "a nested value is not written")
		ob(fresh, "the line of a nested value is not ended")
	case "scomment", "kcomment":
		ob(has("w:part"), "a line of a comment is not written")
	}
	clearMarks(st, marksOf[kind]...)
	for k, v := range st.cl {
		if s, _ := constStr(v); strings.HasPrefix(k, "in:") && k != "in:"+hdrKey(fr, hdr) && (kind == "sections" || kind == "keys" && s != "sections") {
			delete(st.cl, k)
		}
	}
}

// emitsIn: the loop adds to a buffer in memory, itself or in what it calls.
func emitsIn(p *Prog, fn *ssa.Function, hdr *ssa.BasicBlock, e *Eng) bool {
	l := e.fnInfo(fn).loops[hdr]
	if l == nil {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var writes func(b *ssa.BasicBlock) bool
	visit := func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if f.Pkg != p.pkg && f.Parent() == nil && f.Origin() == nil {
			n := f.String()
			return strings.Contains(n, ").Write") || strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString"
		}
		for _, b := range f.Blocks {
			if writes(b) {
				return true
			}
		}
		return false
	}
	writes = func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && visit(mc.Fn.(*ssa.Function)) {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				switch v := cc.Value.(type) {
				case *ssa.Builtin:
				case *ssa.Function:
					if visit(v) {
						return true
					}
				case *ssa.MakeClosure:
					if visit(v.Fn.(*ssa.Function)) {
						return true
					}
				default:
					if !cc.IsInvoke() || strings.HasPrefix(cc.Method.Name(), "Write") {
						return true
					}
				}
			}
		}
		return false
	}
	for b := range l.blocks {
		if writes(b) {
			return true
		}
	}
	return false
}

func isLineBreak(t *Term) bool { return isGlobalNamed(t, "LineBreak") }

// piece: one piece of text enters the buffer.
func (t *emitT) piece(x *Ctx, p *Term) {
	e, st := x.e, x.st
	mark := func(k string) {
		if t.rule == "W02" {
			st.cl[k] = e.T.Bool(true)
		}
	}
	kind, src := source(x, p)
	line := ""
	if l := st.cl["line"]; l != nil {
		line, _ = constStr(l)
	}
	name := func() {
		mark("did:name")
		mark("line:name")
	}
	setLine := func(s string) {
		if s == "" || t.rule == "W04" {
			delete(st.cl, "line")
		} else {
			st.cl["line"] = e.T.Str(s)
		}
	}
	prev, _ := constStr(orNil(st.cl["quote"]))
	delete(st.cl, "quote")
	if t.rule != "W04" {
		delete(st.cl, "close")
	}
	if cl := st.cl["close"]; cl != nil {
		q, _ := constStr(cl)
		s, ok := constStr(p)
		delete(st.cl, "close")
		if t.rule == "W04" {
			t.ob(x, ok && strings.HasPrefix(s, q), "closed", "quotes", "what follows a quoted text is not the quote it was opened with")
		}
	}
	switch {
	case kind == "" && isLineBreak(p):
		setLine("")
		t.lineEnd(st)
		return
	case kind == "":
		s, ok := constStr(p)
		if ok {
			t.text(x, s, line, setLine)
			for _, q := range []string{`"""`, "`", `"`} {
				if t.rule == "W04" && strings.HasSuffix(s, q) {
					st.cl["quote"] = e.T.Str(q)
					break
				}
			}
			if strings.Contains(s, "\n") {
				t.lineEnd(st)
			}
			if s == "-" && st.cl["is:auto"] != nil {
				name()
			}
			return
		}
		if mentionsOption(p, "KeyValueDelimiterOnWrite") || p.op == "sym" {
			mark("line:delim")
		}
		if line == "" && p.op == "sym" || blank(p) {
			return // indentation
		}
		if line == "" {
			setLine("text")
		}
		return
	}
	whole := p == src
	switch kind {
	case "scomment", "kcomment":
		mark("did:" + kind)
		mark("w:part")
		if t.rule == "W03" {
			x2 := strip(p)
			kname := "section comment"
			if kind == "kcomment" {
				kname = "key comment"
			}
			switch line {
			case "comment":
			case "":
				t.ob(x, marked(x, p, x2), kname, "comment", "a comment can be written without a comment mark before it")
			default:
				t.ob(x, false, kname, "comment", "a comment is written on a line that has other text before it")
			}
			t.ob(x, oneLine(x, p), kname, "text", "a comment can be written with a line feed in it, so that what follows the line feed is no longer a comment")
		}
		setLine("comment")
		return
	}
	if t.rule == "W03" && line == "comment" {
		t.ob(x, false, "comment line", kind, "text is written on the line of a comment")
	}
	setLine("text")
	switch kind {
	case "value":
		if whole {
			mark("line:value")
		}
	case "name":
		name()
	case "section":
		if whole {
			mark("did:header")
			clearMarks(st, "is:first", "is:default")
		}
	case "body":
		if whole {
			mark("did:body")
			setLine("body")
			if st.cl["bodyends"] != nil {
				setLine("")
			}
		}
		delete(st.cl, "bodyends")
	case "nested":
		if whole {
			mark("w:part")
		}
	}
	if t.rule == "W02" && (kind == "section" || kind == "nested" || kind == "body") {
		t.ob(x, whole, "unaltered", kind, "the text written is not the one stored")
	}
	if t.rule != "W04" || kind != "value" && kind != "name" {
		return
	}
	if p.op == "verb" && p.aux == "q" && p.args[0] == src {
		t.ob(x, false, kind, "verb q", "a text is written with escapes that reading does not undo")
		return
	}
	t.ob(x, whole, kind, "unaltered", "the text written is not the one stored")
	if !whole {
		return
	}
	if prev != "" {
		st.cl["close"] = e.T.Str(prev)
		t.ob(x, true, kind, "quoted", "")
		return
	}
	for _, why := range t.bare(x, kind, src) {
		t.ob(x, false, kind, "bare", "a "+kind+" can be written without quotes although it "+why)
		return
	}
	t.ob(x, true, kind, "bare", "")
}

// lineEnd: a line with a name, a delimiter and a value is complete.
func (t *emitT) lineEnd(st *State) {
	if st.cl["line:name"] != nil && st.cl["line:delim"] != nil && st.cl["line:value"] != nil {
		for k, v := range st.cl {
			if s, _ := constStr(v); strings.HasPrefix(k, "in:") && s == "values" {
				st.cl["w:full"] = v
			}
		}
	}
	clearMarks(st, "line:")
}

// text: constant text.
func (t *emitT) text(x *Ctx, s, line string, setLine func(string)) {
	for _, r := range s {
		switch {
		case r == '\n':
			line = ""
		case r == ' ' || r == '\t' || r == '\r':
		case line == "" && (r == '#' || r == ';'):
			line = "comment"
		case line == "":
			line = "text"
		}
	}
	setLine(line)
}

func blank(t *Term) bool {
	switch t.op {
	case "call":
		if (t.aux == "strings.Repeat" || t.aux == "bytes.Repeat") && len(t.args) > 0 {
			for _, p := range subterms(t.args[0]) {
				if s, ok := constStr(p); ok && strings.TrimSpace(s) != "" {
					return false
				}
			}
			return true
		}
	case "slice":
		return blank(t.args[0])
	}
	return false
}

func mentionsOption(t *Term, opt string) bool {
	if (t.op == "init" || t.op == "hv") && t.args[0].op == "&f" && t.args[0].aux == "LoadOptions."+opt {
		return true
	}
	if t.op == "field" && strings.HasSuffix(t.aux, opt) {
		return true
	}
	for _, a := range t.args {
		if mentionsOption(a, opt) {
			return true
		}
	}
	return false
}

// strip: the text a part was taken from.
func strip(t *Term) *Term {
	for {
		switch {
		case t.op == "slice":
			t = t.args[0]
		case t.op == "call" && strings.HasPrefix(t.aux, "strings.Trim") && len(t.args) > 0:
			t = t.args[0]
		default:
			return t
		}
	}
}

// marked: the text starts with a comment mark.
func marked(x *Ctx, p, base *Term) bool {
	if p.op == "slice" && !isInt(p.args[1], 0) {
		return false
	}
	if p.op == "call" { // trimmed: the mark must be known of what is left
		base = p
	}
	subset := func(s string) bool { return s != "" && strings.Trim(s, "#;") == "" }
	head := func(a *Term) bool {
		switch {
		case a.op == "slice" && isInt(a.args[1], 0) && isInt(a.args[2], 1):
			return a.args[0] == base
		case a.op == "index" && isInt(a.args[1], 0):
			return a.args[0] == base
		case a.op == "convert" || a.op == "bytes2str" || a.op == "str2bytes":
			return len(a.args) == 1 && a.args[0].op == "index" && a.args[0].args[0] == base && isInt(a.args[0].args[1], 0)
		}
		return false
	}
	for f, pol := range x.st.facts {
		g, want := f, true
		if f.op == "ge0" { // found at a place
			l := x.e.linOf(f.args[0])
			if len(l.co) != 1 || l.k != 0 && l.k != -1 {
				continue
			}
			for a, k := range l.co {
				if k == 1 && l.k == 0 && pol || k == -1 && l.k == -1 && !pol {
					g = a
				}
			}
			pol = true
		}
		if pol != want {
			continue
		}
		switch {
		case g.op == "call" && g.aux == "strings.HasPrefix" && g.args[0] == base:
			if s, ok := constStr(g.args[1]); ok && s != "" && (s[0] == '#' || s[0] == ';') {
				return true
			}
		case g.op == "call" && strings.HasPrefix(g.aux, "strings.Contains") && len(g.args) == 2, g.op == "call" && strings.HasPrefix(g.aux, "strings.Index") && len(g.args) == 2:
			a, b := g.args[0], g.args[1]
			if s, ok := constStr(b); ok && subset(s) && head(a) {
				return true
			}
			if s, ok := constStr(a); ok && subset(s) && head(b) {
				return true
			}
		case g.op == "eq":
			for i := 0; i < 2; i++ {
				if head(g.args[i]) {
					if s, ok := constStr(g.args[1-i]); ok && subset(s) {
						return true
					}
					if n, ok := constInt(g.args[1-i]); ok && (n == '#' || n == ';') {
						return true
					}
				}
				if a := g.args[i]; a.op == "call" && strings.HasPrefix(a.aux, "strings.Index") && a.args[0] == base && isInt(g.args[1-i], 0) {
					if s, ok := constStr(a.args[1]); ok && subset(s) {
						return true
					}
				}
			}
		}
	}
	return false
}

// oneLine: the text has no line feed in it.
func oneLine(x *Ctx, p *Term) bool {
	if p.op == "slice" && isInt(p.args[1], 0) {
		hi := p.args[2]
		if isInt(hi, 0) || isInt(hi, 1) && marked(x, p, strip(p)) {
			return true
		}
		if hi.op == "call" && strings.HasPrefix(hi.aux, "strings.Index") && hi.args[0] == p.args[0] {
			if s, ok := constStr(hi.args[1]); ok && s == "\n" {
				return true
			}
			if n, ok := constInt(hi.args[1]); ok && n == '\n' {
				return true
			}
		}
	}
	b := strip(p)
	switch {
	case b.op == "init" || b.op == "hv":
		if l := b.args[0]; l.op == "&e" {
			if l.args[0].op == "call" && strings.HasPrefix(l.args[0].aux, "strings.Split") && len(l.args[0].args) >= 2 {
				s, ok := constStr(l.args[0].args[1])
				return ok && s == "\n" && !strings.HasPrefix(l.args[0].aux, "strings.SplitAfter") && !strings.HasPrefix(l.args[0].aux, "strings.SplitN")
			}
			return l.args[0].op == "call" && l.args[0].aux == "strings.Fields"
		}
	case b.op == "call" && b.aux == "strings.Cut#0":
		s, ok := constStr(b.args[1])
		return ok && s == "\n"
	case b.op == "call" && (b.aux == "strings.ReplaceAll" || b.aux == "strings.Replace") && len(b.args) >= 3:
		s, ok := constStr(b.args[1])
		var w string
		var ok2 bool
		if w, ok2 = constStr(b.args[2]); !ok2 {
			if ps := pieces(x, b.args[2]); len(ps) > 0 {
				w, ok2 = constStr(ps[len(ps)-1])
				w = "\n" + w
			}
		}
		if i := strings.LastIndex(w, "\n"); i >= 0 {
			w = strings.TrimSpace(w[i+1:])
			ok2 = ok2 && w != "" && (w[0] == '#' || w[0] == ';')
		}
		return ok && ok2 && s == "\n"
	}
	return x.e.evalBool(x.st, x.e.T.App("call", "strings.Contains", types.Typ[types.Bool], b, x.e.T.Str("\n"))) == -1
}

// bare: what has not been excluded of a text written without quotes.
func (t *emitT) bare(x *Ctx, kind string, v *Term) []string {
	e, st := x.e, x.st
	if e.evalBool(st, e.mkEq(v, e.T.Str(""))) == 1 {
		return nil
	}
	free := "" // characters v is known not to contain
	noDelim, noSpace, own := false, false, false
	for f, pol := range st.facts {
		g := f
		neg := !pol
		if f.op == "ge0" {
			l := e.linOf(f.args[0])
			if len(l.co) == 1 {
				for a, k := range l.co {
					if k == 1 && l.k == 0 && !pol || k == -1 && l.k == -1 && pol {
						g, neg = a, true
					}
				}
			}
		}
		if f.op == "eq" && pol {
			for i := 0; i < 2; i++ {
				if a := f.args[i]; a.op == "call" && strings.HasPrefix(a.aux, "strings.Index") && isInt(f.args[1-i], -1) || a.op == "call" && a.aux == "strings.Count" && isInt(f.args[1-i], 0) {
					g, neg = a, true
				}
				a, b := f.args[i], f.args[1-i]
				if a.op == "len" && b.op == "len" {
					a, b = a.args[0], b.args[0]
				}
				if b == v && a.op == "call" && a.aux == "strings.TrimSpace" && a.args[0] == v {
					noSpace = true
				}
			}
		}
		if g.op != "call" || len(g.args) < 2 || g.args[0] != v {
			if g.op == "call" && len(g.args) > 0 && strings.Contains(g.aux, "Func") && g.args[0] == v {
				own = true
			}
			if !(g.op == "call") {
				for _, s := range subterms(g) {
					own = own || s.op == "call" && strings.HasPrefix(s.aux, "regexp.") || s.op == "call" && strings.Contains(s.aux, "Regexp")
				}
			}
			continue
		}
		if !neg {
			continue
		}
		switch g.aux {
		case "strings.ContainsAny", "strings.IndexAny", "strings.Contains", "strings.Index", "strings.IndexByte", "strings.ContainsRune", "strings.IndexRune", "strings.Count":
			for _, pc := range pieces(x, g.args[1]) {
				s, ok := constStr(pc)
				if ok && (strings.HasSuffix(g.aux, "Any") || len(s) == 1) {
					free += s
				}
				if mentionsOption(pc, "KeyValueDelimiters") && strings.HasSuffix(g.aux, "Any") {
					noDelim = true
				}
			}
		}
	}
	if own {
		return nil
	}
	var out []string
	without := func(cs, why string) {
		for _, c := range cs {
			if !strings.ContainsRune(free, c) {
				out = append(out, why)
				return
			}
		}
	}
	if kind == "value" {
		without("\n", "contains a line feed")
		without("`", "contains a back quote")
		if st.cl["opt:inline"] == nil {
			without("#;", "contains a comment mark")
		}
		if !noSpace {
			out = append(out, "starts or ends with white space")
		}
	} else {
		without("\"", "contains a double quote")
		without("`", "contains a back quote")
		if !noDelim {
			out = append(out, "contains a delimiter")
		}
	}
	return out
}

// isGlobalNamed: the value of a package variable of this name.
func isGlobalNamed(t *Term, name string) bool {
	switch {
	case t.op == "gload":
		return t.aux == name || strings.HasSuffix(t.aux, "."+name)
	case (t.op == "init" || t.op == "hv") && t.args[0].op == "&g":
		a := t.args[0].aux
		return a == name || strings.HasSuffix(a, "."+name)
	}
	return false
}

// isText: a string, bytes, a character, or lists of them.
func isText(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isText(u.Elem())
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Uint8 || u.Kind() == types.Int32
	case *types.Interface:
		return true
	}
	return false
}

// mentionsCall: the condition is about more than a length.
func (t *Term) mentionsCall() bool {
	if t.op == "call" || t.op == "index" || t.op == "slice" {
		return true
	}
	if t.op == "init" || t.op == "hv" || t.op == "sym" {
		return false
	}
	for _, a := range t.args {
		if a.mentionsCall() {
			return true
		}
	}
	return false
}
