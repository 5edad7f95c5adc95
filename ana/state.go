package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	in   *ssa.Defer
	fn   *Term
	args []*Term
}

// State is one abstract state: registers, memory, branch facts, client state.
type State struct {
	env    map[ssa.Value]*Term
	mem    map[*Term]*Term
	dirty  map[string]*Term
	facts  map[*Term]bool
	cl     map[string]*Term
	defers []deferRec
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, dirty: map[string]*Term{}, facts: map[*Term]bool{}, cl: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]*Term, len(s.env)+4), mem: make(map[*Term]*Term, len(s.mem)+4), dirty: make(map[string]*Term, len(s.dirty)), facts: make(map[*Term]bool, len(s.facts)+4), cl: make(map[string]*Term, len(s.cl)+1)}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.dirty {
		n.dirty[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.cl {
		n.cl[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	return n
}

// Order-independent 128-bit fingerprints of the components of a state.
type fp struct{ a, b uint64 }

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}
func (f *fp) add(x, y uint64) {
	h := mix(x*0x9e3779b97f4a7c15 + y)
	f.a += h
	f.b += mix(h ^ 0xd1b54a32d192ed03 + x)
}
func (f fp) String() string {
	var b [16]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(f.a >> (8 * i))
		b[8+i] = byte(f.b >> (8 * i))
	}
	return string(b[:])
}
func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (s *State) clKey() string {
	var p []string
	for k, v := range s.cl {
		p = append(p, fmt.Sprintf("%s=%d", k, v.id))
	}
	sort.Strings(p)
	return strings.Join(p, ";")
}

func (s *State) envKey() string {
	var f fp
	for k, v := range s.env {
		f.add(strHash(k.Name()), uint64(v.id))
	}
	return f.String()
}

func (s *State) memKey() string {
	var f fp
	for k, v := range s.mem {
		f.add(uint64(k.id), uint64(v.id))
	}
	for k, v := range s.dirty {
		f.add(strHash(k), uint64(v.id))
	}
	return f.String()
}

func (s *State) factKey() string {
	var f fp
	for k, v := range s.facts {
		x := uint64(0)
		if v {
			x = 1
		}
		f.add(uint64(k.id), x)
	}
	return f.String()
}

func (s *State) deferKey() string {
	var b strings.Builder
	for _, d := range s.defers {
		fmt.Fprintf(&b, "%p:", d.in)
		for _, a := range d.args {
			fmt.Fprintf(&b, "%d,", a.id)
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- constructors

func (e *Eng) mkNot(t *Term) *Term {
	if t.isConst() {
		return e.T.Bool(!constant.BoolVal(t.val))
	}
	if t.op == "not" {
		return t.args[0]
	}
	return e.T.App("not", "", types.Typ[types.Bool], t)
}

func (e *Eng) mkEq(a, b *Term) *Term {
	if a == b && !isFloatType(a.typ) {
		return e.T.Bool(true)
	}
	if a.isConst() && b.isConst() {
		if a.val.Kind() == b.val.Kind() || (a.val.Kind() != constant.String && b.val.Kind() != constant.String && a.val.Kind() != constant.Bool && b.val.Kind() != constant.Bool) {
			return e.T.Bool(constant.Compare(a.val, token.EQL, b.val))
		}
	}
	if a.isConst() || (b.id < a.id && !b.isConst()) {
		a, b = b, a
	}
	if a.isNil() {
		a, b = b, a
	}
	if b.isConst() && b.val.Kind() == constant.Bool {
		if constant.BoolVal(b.val) {
			return a
		}
		return e.mkNot(a)
	}
	if b.isNil() {
		switch e.nonNilShape(a) {
		case 1:
			return e.T.Bool(false)
		}
	}
	// lengths of strings against zero
	if n, ok := constInt(b); ok && n == 0 && a.op == "len" && isStringType(a.args[0].typ) {
		return e.mkEq(a.args[0], e.T.Str(""))
	}
	if (isSignedInt(a.typ) && a.typ != nil) || a.op == "lin" || b.op == "lin" {
		d := e.linOf(a).add(e.linOf(b), -1)
		if len(d.co) == 0 {
			return e.T.Bool(d.k == 0)
		}
		// canonical: if single atom with coefficient +-1, compare with constant
		as := d.atoms()
		if len(as) == 1 && (d.co[as[0]] == 1 || d.co[as[0]] == -1) {
			c := -d.k * d.co[as[0]]
			x := as[0]
			if c == 0 && x.op == "len" && isStringType(x.args[0].typ) {
				return e.mkEq(x.args[0], e.T.Str(""))
			}
			return e.T.App("eq", "", types.Typ[types.Bool], x, e.T.Int(c))
		}
	}
	return e.T.App("eq", "", types.Typ[types.Bool], a, b)
}

// mkGE0 is the canonical atom (or its negation) for l >= 0.
func (e *Eng) mkGE0(l *LinExpr) *Term {
	as := l.atoms()
	if len(as) == 0 {
		return e.T.Bool(l.k >= 0)
	}
	q := toIneq(l)
	norm(q)
	l = &LinExpr{co: q.co, k: q.k}
	if len(as) == 1 && as[0].op == "len" && isStringType(as[0].args[0].typ) {
		x := as[0].args[0]
		if l.co[as[0]] == 1 && l.k == -1 { // len>=1
			return e.mkNot(e.mkEq(x, e.T.Str("")))
		}
		if l.co[as[0]] == -1 && l.k == 0 { // len<=0
			return e.mkEq(x, e.T.Str(""))
		}
		if l.co[as[0]] == 1 && l.k >= 0 {
			return e.T.Bool(true)
		}
	}
	if l.co[as[0]] < 0 {
		return e.mkNot(e.mkGE0(newLin(-1).add(l, -1)))
	}
	return e.T.App("ge0", "", types.Typ[types.Bool], e.mkLin(l, types.Typ[types.Int]))
}

// mkLt is a < b.
func (e *Eng) mkLt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return e.T.Bool(constant.Compare(a.val, token.LSS, b.val))
	}
	if a == b {
		return e.T.Bool(false)
	}
	if isIntType(a.typ) || isIntType(b.typ) || a.op == "lin" || b.op == "lin" {
		return e.mkGE0(e.linOf(b).add(e.linOf(a), -1).add(newLin(1), -1))
	}
	return e.T.App("lt", "", types.Typ[types.Bool], a, b)
}

func (e *Eng) mkAdd(a, b *Term, typ types.Type) *Term {
	if isStringType(typ) {
		return e.mkConcat(a, b)
	}
	if isSignedInt(typ) {
		return e.mkLin(e.linOf(a).add(e.linOf(b), 1), typ)
	}
	return e.T.App("arith+", "", typ, a, b)
}
func (e *Eng) mkSub(a, b *Term, typ types.Type) *Term {
	if isSignedInt(typ) {
		return e.mkLin(e.linOf(a).add(e.linOf(b), -1), typ)
	}
	return e.T.App("arith-", "", typ, a, b)
}

func (e *Eng) mkConcat(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return e.T.Str(constant.StringVal(a.val) + constant.StringVal(b.val))
	}
	if isEmptyStr(a) {
		return b
	}
	if isEmptyStr(b) {
		return a
	}
	// left-associate so that equal texts are equal terms
	if b.op == "concat" {
		return e.mkConcat(e.mkConcat(a, b.args[0]), b.args[1])
	}
	if b.isConst() && a.op == "concat" && a.args[1].isConst() {
		return e.mkConcat(a.args[0], e.T.Str(constant.StringVal(a.args[1].val)+constant.StringVal(b.val)))
	}
	return e.T.App("concat", "", types.Typ[types.String], a, b)
}

func (e *Eng) mkLen(x *Term) *Term {
	switch x.op {
	case "const":
		if x.val.Kind() == constant.String {
			return e.T.Int(int64(len(constant.StringVal(x.val))))
		}
	case "nil":
		return e.T.Int(0)
	case "slice":
		return e.mkLin(e.linOf(x.args[2]).add(e.linOf(x.args[1]), -1), types.Typ[types.Int])
	case "concat":
		return e.mkLin(e.linOf(e.mkLen(x.args[0])).add(e.linOf(e.mkLen(x.args[1])), 1), types.Typ[types.Int])
	case "make":
		return x.args[1]
	case "append":
		return e.mkLin(e.linOf(e.mkLen(x.args[0])).add(e.linOf(e.mkLen(x.args[1])), 1), types.Typ[types.Int])
	case "arr":
		return e.T.Int(int64(len(x.args)))
	case "bytes2str", "str2bytes", "changetype":
		return e.mkLen(x.args[0])
	}
	if x.typ != nil {
		u := x.typ.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return e.T.Int(a.Len())
		}
	}
	return e.T.App("len", "", types.Typ[types.Int], x)
}

// mkSlice builds base[lo:hi]; lo and hi are always explicit.
func (e *Eng) mkSlice(base, lo, hi *Term, typ types.Type) *Term {
	if n, ok := constInt(lo); ok && n == 0 && hi == e.mkLen(base) && isStringType(base.typ) {
		return base
	}
	if base.isConst() && base.val.Kind() == constant.String {
		l, ok1 := constInt(lo)
		h, ok2 := constInt(hi)
		s := constant.StringVal(base.val)
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			return e.T.Str(s[l:h])
		}
	}
	if base.op == "slice" { // s[a:b][c:d] = s[a+c:a+d]
		a := base.args[1]
		return e.mkSlice(base.args[0], e.mkAdd(a, lo, types.Typ[types.Int]), e.mkAdd(a, hi, types.Typ[types.Int]), typ)
	}
	return e.T.App("slice", "", typ, base, lo, hi)
}

// nonNilShape: 1 if the term can never be nil because of what it is.
func (e *Eng) nonNilShape(t *Term) int {
	switch t.op {
	case "alloc", "iface", "failerr", "func", "closure", "make", "makemap", "&f", "&e", "&g", "const", "concat", "struct", "arr", "slicelit":
		return 1
	case "changetype", "changeiface":
		return e.nonNilShape(t.args[0])
	case "call":
		switch t.aux {
		case "fmt.Errorf", "errors.New", "reflect.TypeOf#nn":
			return 1
		}
	case "append":
		if e.mkLen(t.args[1]).isConst() {
			if n, ok := constInt(e.mkLen(t.args[1])); ok && n > 0 {
				return 1
			}
		}
		return e.nonNilShape(t.args[0])
	case "slice":
		return e.nonNilShape(t.args[0])
	case "gload":
		if strings.HasPrefix(t.aux, "lib:") {
			return 1
		}
	}
	return 0
}

// ---------------------------------------------------------------- facts

// evalBoolNoLin: 1 true, -1 false, 0 unknown, using shape and recorded facts.
func (e *Eng) evalBoolNoLin(st *State, t *Term) int {
	neg := false
	for t.op == "not" {
		neg = !neg
		t = t.args[0]
	}
	r := 0
	if t.isConst() {
		if t.val.Kind() == constant.Bool {
			if constant.BoolVal(t.val) {
				r = 1
			} else {
				r = -1
			}
		}
	} else if p, ok := st.facts[t]; ok {
		if p {
			r = 1
		} else {
			r = -1
		}
	} else if t.op == "eq" {
		r = e.evalEq(st, t)
	}
	if neg {
		r = -r
	}
	return r
}

func (e *Eng) evalEq(st *State, t *Term) int {
	a, b := t.args[0], t.args[1]
	if b.isNil() {
		if e.knownNonNil(st, a) {
			return -1
		}
	}
	if b.isConst() || b.isNil() || b.op == "gload" {
		// a known equal to a different constant?
		for f, pol := range st.facts {
			if f.op != "eq" || !pol {
				continue
			}
			var o *Term
			if f.args[0] == a {
				o = f.args[1]
			} else if f.args[1] == a {
				o = f.args[0]
			}
			if o == nil || o == b {
				continue
			}
			if o.isConst() && b.isConst() && o.val.Kind() == b.val.Kind() {
				if !constant.Compare(o.val, token.EQL, b.val) {
					return -1
				}
			}
			if (o.op == "gload") && (b.isNil() || b.op == "gload") { // distinct sentinels
				return -1
			}
			if o.isNil() && b.op == "gload" && e.nonNilShape(b) == 1 {
				return -1
			}
		}
	}
	// a constant string against structure: a concat with a constant head/tail
	if b.isConst() && b.val.Kind() == constant.String {
		if a.op == "concat" && e.minLen(st, a) > len(constant.StringVal(b.val)) {
			return -1
		}
	}
	return 0
}

func (e *Eng) minLen(st *State, t *Term) int {
	switch t.op {
	case "const":
		if t.val.Kind() == constant.String {
			return len(constant.StringVal(t.val))
		}
	case "concat":
		return e.minLen(st, t.args[0]) + e.minLen(st, t.args[1])
	}
	if e.knownNonEmpty(st, t) {
		return 1
	}
	return 0
}

func (e *Eng) knownNonNil(st *State, a *Term) bool {
	if e.nonNilShape(a) == 1 {
		return true
	}
	if a.op == "changetype" || a.op == "changeiface" {
		return e.knownNonNil(st, a.args[0])
	}
	if e.AssumeNonNil != nil && e.AssumeNonNil(a) {
		return true
	}
	nilT := e.T.Nil()
	key := e.T.App("eq", "", types.Typ[types.Bool], a, nilT)
	if p, ok := st.facts[key]; ok {
		return !p
	}
	// equal to something non-nil
	for f, pol := range st.facts {
		if f.op == "eq" && pol {
			if f.args[0] == a && e.nonNilShape(f.args[1]) == 1 || f.args[1] == a && e.nonNilShape(f.args[0]) == 1 {
				return true
			}
		}
	}
	return false
}

func (e *Eng) knownNil(st *State, a *Term) bool {
	if a.isNil() {
		return true
	}
	if a.op == "changetype" || a.op == "changeiface" {
		return e.knownNil(st, a.args[0])
	}
	key := e.T.App("eq", "", types.Typ[types.Bool], a, e.T.Nil())
	p, ok := st.facts[key]
	return ok && p
}

// evalBool also consults the linear facts and operation axioms.
func (e *Eng) evalBool(st *State, t *Term) int {
	if r := e.evalBoolNoLin(st, t); r != 0 || e.H.NoLin && t.op != "call" {
		return r
	}
	neg := false
	for t.op == "not" {
		neg = !neg
		t = t.args[0]
	}
	r := 0
	switch t.op {
	case "ge0":
		l := e.linOf(t.args[0])
		if e.provesGE0(st, l) {
			r = 1
		} else if e.provesGE0(st, newLin(-1).add(l, -1)) {
			r = -1
		}
	case "eq":
		a, b := t.args[0], t.args[1]
		if isSignedInt(a.typ) && a.typ != nil || isSignedInt(b.typ) && b.typ != nil {
			d := e.linOf(a).add(e.linOf(b), -1)
			g1 := e.provesGE0(st, d.add(newLin(1), -1))
			g2 := false
			if !g1 {
				g2 = e.provesGE0(st, newLin(-1).add(d, -1))
			}
			if g1 || g2 {
				r = -1
			} else if e.provesGE0(st, d) && e.provesGE0(st, d.neg()) {
				r = 1
			}
		} else if isStringType(a.typ) && isEmptyStr(b) {
			l := e.linOf(e.mkLenRaw(a))
			if e.provesGE0(st, l.add(newLin(1), -1)) {
				r = -1
			} else if e.provesGE0(st, l.neg()) {
				r = 1
			}
		} else if isStringType(a.typ) && b.isConst() {
			d := e.linOf(e.mkLenRaw(a)).add(newLin(int64(len(constant.StringVal(b.val)))), -1)
			if e.provesGE0(st, d.add(newLin(1), -1)) || e.provesGE0(st, newLin(-1).add(d, -1)) {
				r = -1
			}
		}
	case "call":
		r = e.evalCallBool(st, t)
	}
	if neg {
		r = -r
	}
	return r
}

func (e *Eng) mkLenRaw(x *Term) *Term { return e.mkLen(x) }

// evalCallBool decides pure predicates on (partly) constant text.
func (e *Eng) evalCallBool(st *State, t *Term) int {
	b := func(v bool) int {
		if v {
			return 1
		}
		return -1
	}
	if len(t.args) == 2 && t.args[0].isConst() && t.args[1].isConst() && t.args[0].val.Kind() == constant.String && t.args[1].val.Kind() == constant.String {
		x, y := constant.StringVal(t.args[0].val), constant.StringVal(t.args[1].val)
		switch t.aux {
		case "strings.Contains":
			return b(strings.Contains(x, y))
		case "strings.ContainsAny":
			return b(strings.ContainsAny(x, y))
		case "strings.HasPrefix":
			return b(strings.HasPrefix(x, y))
		case "strings.HasSuffix":
			return b(strings.HasSuffix(x, y))
		case "strings.EqualFold":
			return b(strings.EqualFold(x, y))
		}
	}
	return 0
}

// assume adds t==pol; returns false if that contradicts the state.
func (e *Eng) assume(st *State, t *Term, pol bool) bool {
	for t.op == "not" {
		pol = !pol
		t = t.args[0]
	}
	want := 1
	if !pol {
		want = -1
	}
	if r := e.evalBool(st, t); r != 0 {
		return r == want
	}
	switch t.op {
	case "and":
		if pol {
			return e.assume(st, t.args[0], true) && e.assume(st, t.args[1], true)
		}
	case "or":
		if !pol {
			return e.assume(st, t.args[0], false) && e.assume(st, t.args[1], false)
		}
	}
	st.facts[t] = pol
	if e.OnAssume != nil {
		return e.OnAssume(st, t, pol)
	}
	return true
}
