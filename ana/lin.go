package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// LinExpr is sum(co[i]*atom[i]) + k over integer atoms.
type LinExpr struct {
	co map[*Term]int64
	k  int64
}

func newLin(k int64) *LinExpr { return &LinExpr{co: map[*Term]int64{}, k: k} }
func (l *LinExpr) add(o *LinExpr, f int64) *LinExpr {
	r := newLin(l.k + f*o.k)
	for a, c := range l.co {
		r.co[a] = c
	}
	for a, c := range o.co {
		r.co[a] += f * c
		if r.co[a] == 0 {
			delete(r.co, a)
		}
	}
	return r
}
func (l *LinExpr) neg() *LinExpr { return newLin(0).add(l, -1) }
func (l *LinExpr) atoms() []*Term {
	var as []*Term
	for a := range l.co {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return as
}

func constInt(t *Term) (int64, bool) {
	if t.op != "const" {
		return 0, false
	}
	v := constant.ToInt(t.val)
	if v.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(v)
	return n, ok
}

// linOf views an integer term as a linear expression.
func (e *Eng) linOf(t *Term) *LinExpr {
	if n, ok := constInt(t); ok {
		return newLin(n)
	}
	if t.op == "lin" {
		parts := strings.Split(t.aux, ",")
		k, _ := strconv.ParseInt(parts[len(parts)-1], 10, 64)
		r := newLin(k)
		for i, a := range t.args {
			c, _ := strconv.ParseInt(parts[i], 10, 64)
			// atoms may have been substituted by non-atoms
			r = r.add(e.linOfAtom(a), c)
		}
		return r
	}
	return e.linOfAtom(t)
}

func (e *Eng) linOfAtom(t *Term) *LinExpr {
	if _, ok := constInt(t); ok || t.op == "lin" {
		return e.linOf(t)
	}
	r := newLin(0)
	r.co[t] = 1
	return r
}

// mkLin builds the canonical term of a linear expression.
func (e *Eng) mkLin(l *LinExpr, typ types.Type) *Term {
	as := l.atoms()
	if len(as) == 0 {
		return e.T.Const(constant.MakeInt64(l.k), typ)
	}
	if len(as) == 1 && l.co[as[0]] == 1 && l.k == 0 {
		return as[0]
	}
	var p []string
	for _, a := range as {
		p = append(p, strconv.FormatInt(l.co[a], 10))
	}
	p = append(p, strconv.FormatInt(l.k, 10))
	return e.T.App("lin", strings.Join(p, ","), typ, as...)
}

func isSignedInt(t types.Type) bool {
	if t == nil {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Int32, types.UntypedInt, types.UntypedRune:
		return true
	}
	return false
}
func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// --- feasibility by Fourier-Motzkin elimination over the rationals, with
// integer tightening of strict inequalities (a<b is b-a-1>=0).

type ineq struct {
	co map[*Term]int64
	k  int64
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func norm(q *ineq) {
	var g int64
	for _, c := range q.co {
		g = gcd(g, c)
	}
	if g > 1 {
		for a := range q.co {
			q.co[a] /= g
		}
		// floor division keeps integer solutions
		k := q.k
		if k >= 0 {
			q.k = k / g
		} else {
			q.k = -((-k + g - 1) / g)
		}
	}
}

func (q *ineq) key() string {
	as := (&LinExpr{co: q.co}).atoms()
	var b strings.Builder
	for _, a := range as {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(':')
		b.WriteString(strconv.FormatInt(q.co[a], 10))
		b.WriteByte(' ')
	}
	return b.String()
}

// infeasible reports whether the conjunction of e>=0 constraints has no
// rational solution. Returns false when it gives up.
func infeasible(qs []*ineq) bool {
	// dedupe, keep the tightest
	best := map[string]*ineq{}
	put := func(m map[string]*ineq, q *ineq) bool {
		norm(q)
		if len(q.co) == 0 {
			return q.k < 0
		}
		k := q.key()
		if o, ok := m[k]; ok {
			if q.k < o.k {
				m[k] = q
			}
		} else {
			m[k] = q
		}
		return false
	}
	for _, q := range qs {
		if put(best, q) {
			return true
		}
	}
	for len(best) > 0 {
		// choose the atom with the fewest products
		type cnt struct{ p, n int }
		cs := map[*Term]*cnt{}
		for _, q := range best {
			for a, c := range q.co {
				if cs[a] == nil {
					cs[a] = &cnt{}
				}
				if c > 0 {
					cs[a].p++
				} else {
					cs[a].n++
				}
			}
		}
		var pick *Term
		bc := 1 << 30
		for a, c := range cs {
			v := c.p*c.n - c.p - c.n
			if v < bc || v == bc && (pick == nil || a.id < pick.id) {
				bc, pick = v, a
			}
		}
		if bc > 400 {
			return false
		}
		next := map[string]*ineq{}
		var pos, ng []*ineq
		var keys []string
		for k := range best {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			q := best[k]
			c := q.co[pick]
			switch {
			case c > 0:
				pos = append(pos, q)
			case c < 0:
				ng = append(ng, q)
			default:
				if put(next, q) {
					return true
				}
			}
		}
		for _, p := range pos {
			for _, n := range ng {
				cp, cn := p.co[pick], -n.co[pick]
				if cp > 1<<20 || cn > 1<<20 {
					continue
				}
				r := &ineq{co: map[*Term]int64{}, k: cn*p.k + cp*n.k}
				for a, c := range p.co {
					r.co[a] += cn * c
				}
				for a, c := range n.co {
					r.co[a] += cp * c
				}
				for a, c := range r.co {
					if c == 0 {
						delete(r.co, a)
					}
				}
				if put(next, r) {
					return true
				}
			}
		}
		best = next
		if len(best) > 600 {
			return false
		}
	}
	return false
}

func toIneq(l *LinExpr) *ineq {
	q := &ineq{co: map[*Term]int64{}, k: l.k}
	for a, c := range l.co {
		q.co[a] = c
	}
	return q
}

// constraints collects the inequalities of st relevant to the atoms of seeds.
func (e *Eng) constraints(st *State, seeds ...*LinExpr) []*ineq {
	rel := map[*Term]bool{}
	var queue []*Term
	addAtom := func(a *Term) {
		if !rel[a] {
			rel[a] = true
			queue = append(queue, a)
		}
	}
	for _, s := range seeds {
		for a := range s.co {
			addAtom(a)
		}
	}
	// index facts by atom
	type lf struct{ qs []*LinExpr }
	byAtom := map[*Term][]*LinExpr{}
	reg := func(l *LinExpr) {
		for a := range l.co {
			byAtom[a] = append(byAtom[a], l)
		}
	}
	var diseqs []*LinExpr
	for f, pol := range st.facts {
		switch f.op {
		case "ge0":
			l := e.linOf(f.args[0])
			if !pol {
				l = newLin(-1).add(l, -1)
			}
			reg(l)
		case "eq":
			a, b := f.args[0], f.args[1]
			if pol && (isIntType(a.typ) || isIntType(b.typ)) {
				d := e.linOf(a).add(e.linOf(b), -1)
				reg(d)
				reg(d.neg())
			} else if pol && (isStringType(a.typ) || isStringType(b.typ)) {
				d := e.linOf(e.mkLen(a)).add(e.linOf(e.mkLen(b)), -1)
				reg(d)
				reg(d.neg())
			} else if !pol && isStringType(a.typ) {
				if isEmptyStr(a) {
					a, b = b, a
				}
				if isEmptyStr(b) {
					reg(e.linOf(e.mkLen(a)).add(newLin(1), -1))
				}
			} else if !pol && (isIntType(a.typ) || isIntType(b.typ)) {
				diseqs = append(diseqs, e.linOf(a).add(e.linOf(b), -1))
			}
		case "call":
			// strings.HasPrefix(s,p) true => len(s)>=len(p)
			if pol && (f.aux == "strings.HasPrefix" || f.aux == "strings.HasSuffix" || f.aux == "strings.Contains" || f.aux == "bytes.HasPrefix" || f.aux == "bytes.HasSuffix") {
				reg(e.linOf(e.mkLen(f.args[0])).add(e.linOf(e.mkLen(f.args[1])), -1))
			}
			if pol && (f.aux == "strings.ContainsAny" || f.aux == "strings.ContainsRune" || f.aux == "bytes.ContainsAny") {
				reg(e.linOf(e.mkLen(f.args[0])).add(newLin(1), -1))
			}
		}
	}
	seen := map[*LinExpr]bool{}
	var out []*ineq
	use := func(l *LinExpr) {
		if seen[l] {
			return
		}
		seen[l] = true
		out = append(out, toIneq(l))
		for a := range l.co {
			addAtom(a)
		}
	}
	for len(queue) > 0 {
		a := queue[0]
		queue = queue[1:]
		for _, l := range e.axioms(st, a) {
			use(l)
		}
		for _, l := range byAtom[a] {
			use(l)
		}
		if len(rel) > 60 {
			break
		}
	}
	// a != b tightens a >= b to a > b (one level)
	for _, d := range diseqs {
		ok := true
		for a := range d.co {
			if !rel[a] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for _, s := range []*LinExpr{d, d.neg()} {
			// s >= 0 entailed?  -s-1>=0 infeasible
			t := newLin(-1).add(s, -1)
			if infeasible(append(cloneIneqs(out), toIneq(t))) {
				out = append(out, toIneq(s.add(newLin(1), -1)))
			}
		}
	}
	return out
}

func cloneIneqs(qs []*ineq) []*ineq {
	r := make([]*ineq, len(qs))
	for i, q := range qs {
		c := &ineq{co: map[*Term]int64{}, k: q.k}
		for a, v := range q.co {
			c.co[a] = v
		}
		r[i] = c
	}
	return r
}

// provesGE0 reports whether st entails l >= 0.
func (e *Eng) provesGE0(st *State, l *LinExpr) bool {
	if len(l.co) == 0 {
		return l.k >= 0
	}
	n := newLin(-1).add(l, -1)
	qs := e.constraints(st, l)
	if infeasible(append(cloneIneqs(qs), toIneq(n))) {
		return true
	}
	// Index-family axioms that are conditional on a found result.
	extra := e.condAxioms(st, qs)
	if len(extra) > 0 {
		return infeasible(append(append(cloneIneqs(qs), extra...), toIneq(n)))
	}
	return false
}

func isEmptyStr(t *Term) bool {
	return t.op == "const" && t.val.Kind() == constant.String && constant.StringVal(t.val) == ""
}

func isIndexFn(aux string) bool {
	switch aux {
	case "strings.Index", "strings.LastIndex", "strings.IndexAny", "strings.LastIndexAny", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexFunc", "strings.LastIndexFunc",
		"bytes.Index", "bytes.LastIndex", "bytes.IndexAny", "bytes.LastIndexAny", "bytes.IndexByte", "bytes.LastIndexByte", "bytes.IndexRune", "bytes.IndexFunc", "bytes.LastIndexFunc", "slices.Index", "slices.IndexFunc":
		return true
	}
	return false
}
func isSubIndexFn(aux string) bool {
	switch aux {
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		return true
	}
	return false
}

// condAxioms: if an index result is entailed >=0 then it is at most len(s)-len(sub)
// (or len(s)-1 for single characters).
func (e *Eng) condAxioms(st *State, qs []*ineq) []*ineq {
	var out []*ineq
	done := map[*Term]bool{}
	for _, q := range qs {
		for a := range q.co {
			if done[a] || a.op != "call" || !isIndexFn(a.aux) {
				continue
			}
			done[a] = true
			neg := newLin(-1)
			neg.co[a] = -1
			if !infeasible(append(cloneIneqs(qs), toIneq(neg))) {
				continue
			}
			l := e.linOf(e.mkLen(a.args[0]))
			b := newLin(0)
			b.co[a] = 1
			if isSubIndexFn(a.aux) {
				out = append(out, toIneq(l.add(b, -1).add(e.linOf(e.mkLen(a.args[1])), -1)))
				for _, x := range e.axiomsOfLen(st, e.mkLen(a.args[1])) {
					out = append(out, toIneq(x))
				}
			} else {
				out = append(out, toIneq(l.add(b, -1).add(newLin(1), -1)))
			}
			if e.elsewhere(st, a) {
				out = append(out, toIneq(b.add(newLin(1), -1)))
			}
		}
	}
	return out
}

// someText: not the empty text.
func (e *Eng) someText(st *State, t *Term) bool {
	if e.knownNonEmpty(st, t) {
		return true
	}
	if e.Axioms == nil {
		return false
	}
	n := e.mkLen(t)
	for _, x := range e.Axioms(st, n) {
		if len(x.co) == 1 && x.co[n] == 1 && x.k <= -1 {
			return true
		}
	}
	return false
}

// contained: what an index function looks for is known to be there.
func (e *Eng) contained(st *State, a *Term) bool {
	pkg, fn, ok := strings.Cut(a.aux, ".")
	if !ok || len(a.args) != 2 {
		return false
	}
	var with []string
	switch strings.TrimPrefix(fn, "Last") {
	case "Index":
		with = []string{"Contains", "HasPrefix", "HasSuffix"}
	case "IndexAny":
		with = []string{"ContainsAny"}
	case "IndexRune":
		with = []string{"ContainsRune"}
	case "IndexFunc":
		with = []string{"ContainsFunc"}
	}
	for f, pol := range st.facts {
		if pol && f.op == "call" && len(f.args) == 2 && f.args[0] == a.args[0] && f.args[1] == a.args[1] {
			for _, w := range with {
				if f.aux == pkg+"."+w {
					return true
				}
			}
		}
	}
	return false
}

// elsewhere: the text is known to start with a byte other than the one the
// search is for.
func (e *Eng) elsewhere(st *State, a *Term) bool {
	if !a.args[1].isConst() || strings.HasPrefix(a.aux, "slices.") {
		return false
	}
	var sought []int64
	if k, ok := constInt(a.args[1]); ok {
		sought = append(sought, k)
	} else if s, ok := constStr(a.args[1]); ok && s != "" {
		if isSubIndexFn(a.aux) {
			s = s[:1]
		}
		for i := 0; i < len(s); i++ {
			sought = append(sought, int64(s[i]))
		}
	} else {
		return false
	}
	for f, pol := range st.facts {
		if !pol {
			continue
		}
		var el *Term
		var ch int64
		switch {
		case f.op == "eq":
			for i := 0; i < 2; i++ {
				if k, ok := constInt(f.args[i]); ok {
					el, ch = f.args[1-i], k
				}
			}
		case f.op == "call" && strings.HasSuffix(f.aux, ".HasPrefix") && f.args[0] == a.args[0]:
			if s, ok := constStr(f.args[1]); ok && s != "" {
				el, ch = nil, int64(s[0])
				ok = true
				for _, k := range sought {
					ok = ok && k != ch
				}
				if ok {
					return true
				}
			}
		}
		if el == nil || !firstByte(el, a.args[0]) {
			continue
		}
		ok := true
		for _, k := range sought {
			ok = ok && k != ch
		}
		if ok {
			return true
		}
	}
	return false
}

func sameText(a, b *Term) bool {
	for a.op == "bytes2str" || a.op == "str2bytes" {
		a = a.args[0]
	}
	for b.op == "bytes2str" || b.op == "str2bytes" {
		b = b.args[0]
	}
	return a == b
}

// firstByte: el is the first byte of the text.
func firstByte(el, text *Term) bool {
	for el.op == "convert" {
		el = el.args[0]
	}
	switch el.op {
	case "index":
		return sameText(el.args[0], text) && isInt(el.args[1], 0)
	case "init", "hv":
		l := el.args[0]
		return l.op == "&e" && sameText(l.args[0], text) && isInt(l.args[1], 0)
	}
	return false
}

func (e *Eng) axiomsOfLen(st *State, t *Term) []*LinExpr {
	var out []*LinExpr
	for a := range e.linOf(t).co {
		out = append(out, e.axioms(st, a)...)
	}
	return out
}

// axioms are inequalities true of an atom by the meaning of its operation.
func (e *Eng) axioms(st *State, a *Term) []*LinExpr {
	var out []*LinExpr
	self := newLin(0)
	self.co[a] = 1
	ge := func(x, y *LinExpr) { out = append(out, x.add(y, -1)) } // x>=y
	switch a.op {
	case "len", "cap":
		ge(self, newLin(0))
		x := a.args[0]
		if a.op == "cap" {
			ge(self, e.linOf(e.mkLen(x)))
		}
		if x.op == "call" {
			switch x.aux {
			case "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.TrimFunc",
				"bytes.TrimSpace", "bytes.TrimLeft", "bytes.TrimRight", "bytes.Trim", "bytes.TrimPrefix", "bytes.TrimSuffix", "bytes.TrimLeftFunc", "bytes.TrimRightFunc", "bytes.TrimFunc":
				ge(e.linOf(e.mkLen(x.args[0])), self)
			case "strings.Split", "bytes.Split":
				// at least one element unless the separator is empty
				if !isEmptyStr(x.args[1]) && x.args[1].isConst() {
					ge(self, newLin(1))
				} else if e.evalBoolNoLin(st, e.mkEq(x.args[1], e.T.Str(""))) == -1 {
					ge(self, newLin(1))
				}
			case "strings.SplitN":
				if n, ok := constInt(x.args[2]); ok && n > 0 && x.args[1].isConst() && !isEmptyStr(x.args[1]) {
					ge(self, newLin(1))
					ge(newLin(n), self)
				}
			case "strings.ToLower", "strings.ToUpper":
				if e.knownNonEmpty(st, x.args[0]) {
					ge(self, newLin(1))
				}
			case "strings.Repeat":
			case "(*regexp.Regexp).FindString", "(*regexp.Regexp).Find":
				if e.knownNonEmpty(st, x) || isSliceLike(x) && e.evalBoolNoLin(st, e.mkEq(x, e.T.Nil())) == -1 {
					ge(self, newLin(e.P.shortestMatch(x.args[0])))
				}
			}
			// Left-trimmed text that is non-empty stays non-empty when trimmed on both sides.
			if x.aux == "strings.TrimSpace" || x.aux == "bytes.TrimSpace" {
				if e.leadingNonSpace(st, x.args[0]) {
					ge(self, newLin(1))
				}
			}
		}
		if x.op == "runes" { // []rune(s)
			ge(e.linOf(e.mkLen(x.args[0])), self)
			if e.knownNonEmpty(st, x.args[0]) {
				ge(self, newLin(1))
			}
		}
		if isStringType(x.typ) {
			if v := e.evalBoolNoLin(st, e.mkEq(x, e.T.Str(""))); v == -1 {
				ge(self, newLin(1))
			} else if v == 1 {
				ge(newLin(0), self)
			}
		}
	case "call":
		if isIndexFn(a.aux) {
			ge(self, newLin(-1))
			if isSubIndexFn(a.aux) && !e.someText(st, a.args[1]) {
				ge(e.linOf(e.mkLen(a.args[0])), self)
			} else {
				ge(e.linOf(e.mkLen(a.args[0])).add(newLin(1), -1), self)
			}
			if e.contained(st, a) {
				ge(self, newLin(0))
			}
		}
		if strings.HasPrefix(a.aux, "utf8.RuneCount") || a.aux == "unicode/utf8.RuneCountInString" || a.aux == "unicode/utf8.RuneCount" {
			ge(self, newLin(0))
			ge(e.linOf(e.mkLen(a.args[0])), self)
			if e.knownNonEmpty(st, a.args[0]) {
				ge(self, newLin(1))
			}
		}
		if a.aux == "strings.Count" {
			ge(self, newLin(0))
		}
		if strings.HasSuffix(a.aux, ".NumField") || strings.HasSuffix(a.aux, "reflect.Value).Len") {
			ge(self, newLin(0))
		}
	case "index":
		if b, ok := a.typ.(*types.Basic); ok && b.Kind() == types.Uint8 {
			ge(self, newLin(0))
			ge(newLin(255), self)
		}
	}
	if e.Axioms != nil {
		out = append(out, e.Axioms(st, a)...)
	}
	return out
}

func (e *Eng) knownNonEmpty(st *State, x *Term) bool {
	if x.isConst() {
		return x.val.Kind() == constant.String && constant.StringVal(x.val) != ""
	}
	if isStringType(x.typ) && e.evalBoolNoLin(st, e.mkEq(x, e.T.Str(""))) == -1 {
		return true
	}
	return false
}

// leadingNonSpace: x is non-empty and cannot start with white space because it
// is itself the result of trimming white space from the left.
func (e *Eng) leadingNonSpace(st *State, x *Term) bool {
	if x.op != "call" {
		return false
	}
	switch x.aux {
	case "strings.TrimSpace", "bytes.TrimSpace":
	case "strings.TrimLeftFunc", "bytes.TrimLeftFunc":
		f := x.args[1]
		for f.op == "changetype" {
			f = f.args[0]
		}
		if f.op != "func" || f.fn.String() != "unicode.IsSpace" {
			return false
		}
	default:
		return false
	}
	if isStringType(x.typ) {
		return e.knownNonEmpty(st, x)
	}
	return e.evalBoolNoLin(st, e.mkEq(e.mkLen(x), e.T.Int(0))) == -1
}
