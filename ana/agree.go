package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule M03: mapping and reflecting agree. The kinds of fields and of list
// elements that mapping sets are those whose contents reflecting reads into a
// text, and the other way round (unsigned bytes aside); the layout of times,
// the tags and the delimiter used when none is given are the same.

func init() { checks["M03"] = checkM03 }

// kEvents: what a function (and what is analysed inside it) does with reflected
// values.
type kEvents struct {
	set, get         [2]kindSet // by field and by list element, for certain
	maySet, mayGet   [2]kindSet
	refuse           [2]kindSet // an error is made of for no other reason than the kind
	whereNo          map[string]string
	judged           map[[2]int]bool           // parameters that are set or read: itself (0), its elements (1)
	via              map[*ssa.Function]kindSet // list elements given to
	layouts          map[string]bool
	tags             map[string]bool
	anyTag           bool
	delims           map[string]bool
	whereSet         map[string]string
	whereGet         map[string]string
	nset, nget, nlay int
}

func newKEvents() *kEvents {
	return &kEvents{via: map[*ssa.Function]kindSet{}, layouts: map[string]bool{}, tags: map[string]bool{}, delims: map[string]bool{}, whereSet: map[string]string{}, whereGet: map[string]string{}, whereNo: map[string]string{}, judged: map[[2]int]bool{}}
}

// fmtLayout: how package fmt writes a time.
const fmtLayout = "2006-01-02 15:04:05.999999999 -0700 MST"

var (
	plainKinds = kindsOf(kBool, kFloat32, kFloat64, kComplex64, kComplex128, kString) | intKinds | uintKinds
	getters    = map[string]kindSet{"String": kindsOf(kString), "Bool": kindsOf(kBool), "Int": intKinds, "Uint": uintKinds, "Float": floatKinds, "Complex": kindsOf(kComplex64, kComplex128)}
)

// plainText: a short function that yields plain values, stores nothing and calls
// nothing of the package.
func plainText(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 12 {
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if _, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	for _, p := range f.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
		case *types.Pointer:
			if _, ok := t.Elem().Underlying().(*types.Struct); !ok {
				return false
			}
		default:
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				return false
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				if g := c.Common().StaticCallee(); g == nil || g.Pkg == f.Pkg {
					return false
				}
			}
		}
	}
	return true
}

// element: the value is an element of a list (1) or not (0).
func (k *kctx) element(v *Term) int {
	if v.op == "rIndex" {
		return 1
	}
	T := k.canon0(k.app("rT", nil, v))
	if T.op == "rElemT" && k.typeKinds(T.args[0])&^kindsOf(kSlice, kArray) == 0 {
		return 1
	}
	return 0
}

// plain: the kinds of v that hold a plain value (Struct stands for a time).
func (k *kctx) plain(v *Term) (s kindSet, sure bool) {
	T := k.canon0(k.app("rT", nil, v))
	all := k.typeKinds(T)
	s = all & plainKinds
	if all&kindsOf(kStruct) != 0 && k.isTime(T) {
		s |= kindsOf(kStruct)
	}
	n := 0
	for i := 0; i < kinds27; i++ {
		if all&(1<<i) != 0 {
			n++
		}
	}
	return s, n <= 6 && !k.odd() && k.known(v)
}

func (k *kctx) isTime(T *Term) bool {
	for name, typ := range k.consts {
		_ = name
		if typ != nil && typ.String() == "time.Time" && k.sameType(k.constT(typ), T) {
			return true
		}
	}
	return T.op == "rConst" && T.typ.String() == "time.Time" || k.timeAsserted(T)
}

func (k *kctx) timeAsserted(T *Term) bool {
	for f, pol := range k.st.facts {
		if f.op == "istype" && pol && f.args[0].op == "rIface" && f.aux == "time.Time" && k.canon0(k.app("rT", nil, f.args[0].args[0])) == T {
			return true
		}
	}
	return false
}

func (k *kctx) at() string { return fnName(k.fr.fn) }

// judge notes the parameter that is v or holds v as an element.
func (ev *kEvents) judge(k *kctx, v *Term) {
	T := k.canon0(k.app("rT", nil, v))
	for i, p := range k.f.Params {
		if isReflect(p.Type(), "Value") {
			P := k.canon0(k.app("rT", nil, k.e.T.Sym(k.rootFrame(), nil, p.Name(), p.Type())))
			if P == T {
				ev.judged[[2]int{i, 0}] = true
			}
			if k.canon0(k.app("rElemT", nil, P)) == T {
				ev.judged[[2]int{i, 1}] = true
			}
		}
	}
}

func (k *kctx) rootFrame() *Frame {
	fr := k.fr
	for fr.parent != nil {
		fr = fr.parent
	}
	return fr
}

func (ev *kEvents) sets(k *kctx, v *Term) {
	s, sure := k.plain(v)
	i := k.element(v)
	ev.nset++
	if !sure {
		for i := range ev.maySet {
			ev.maySet[i] |= plainKinds | kindsOf(kStruct)
		}
		return
	}
	ev.judge(k, v)
	ev.set[i] |= s
	ev.maySet[i] |= s
	for n := 0; n < kinds27; n++ {
		if s&(1<<n) != 0 {
			ev.whereSet[fmt.Sprint(i, n)] = k.at()
		}
	}
}

func (ev *kEvents) gets(k *kctx, v *Term, only kindSet) {
	s, sure := k.plain(v)
	i := k.element(v)
	ev.nget++
	if !sure {
		for i := range ev.mayGet {
			ev.mayGet[i] |= only
		}
		return
	}
	s &= only
	ev.judge(k, v)
	ev.get[i] |= s
	ev.mayGet[i] |= s
	for n := 0; n < kinds27; n++ {
		if s&(1<<n) != 0 {
			ev.whereGet[fmt.Sprint(i, n)] = k.at()
		}
	}
}

// reads: the contents of reflected values that are part of u become text.
func (ev *kEvents) reads(k *kctx, u *Term) {
	seen := map[*Term]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		if u.op == "call" {
			if m := strings.TrimPrefix(u.aux, "(reflect.Value)."); m != u.aux && getters[m] != 0 {
				ev.gets(k, u.args[0], getters[m])
				return
			}
		}
		if u.op == "rIface" {
			ev.gets(k, u.args[0], plainKinds)
			return
		}
		if isROp(u.op) || u.op == "call" && u.aux == "fmt.Errorf" || u.op == "typeassert" && u.typ != nil && types.IsInterface(u.typ) {
			return
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(u)
}

// asserted: a concrete value is taken out of a reflected one.
func (ev *kEvents) asserted(k *kctx, v *Term, typ types.Type) {
	if v.op != "rIface" {
		return
	}
	if _, ok := typ.Underlying().(*types.Interface); ok {
		return
	}
	u := v.args[0]
	i := k.element(u)
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
		if u.op == "rAddr" {
			i = k.element(u.args[0])
		}
	}
	n := kindOfType(typ)
	if n == kStruct && typ.String() != "time.Time" {
		return
	}
	ev.maySet[i] |= 1 << n
	if res := k.fr.fn.Signature.Results(); res.Len() == 1 && types.Identical(res.At(0).Type(), types.Typ[types.Bool]) {
		return // a question about the value
	}
	ev.mayGet[i] |= 1 << n
}

// op: an operation of the libraries.
func (ev *kEvents) op(k *kctx, c *CallInfo) {
	a := c.Args
	if m := strings.TrimPrefix(c.Name, "(reflect.Value)."); m != c.Name {
		switch m {
		case "SetString", "SetBool", "SetInt", "SetUint", "SetFloat", "SetComplex":
			ev.sets(k, a[0])
		case "Set":
			T := k.canon0(k.app("rT", nil, a[1]))
			if s := k.typeKinds(k.app("rT", nil, a[0])); s&(plainKinds|kindsOf(kStruct)) != 0 {
				ev.sets(k, a[0])
			}
			if el := k.canon0(k.app("rElemT", nil, T)); el.op == "rConst" {
				if n := kindOfType(el.typ); n != kStruct || el.typ.String() == "time.Time" {
					ev.maySet[1] |= 1 << n
					ev.set[1] |= 1 << n
				}
			}
		}
		return
	}
	if strings.HasPrefix(c.Name, "reflect.") || strings.HasPrefix(c.Name, "(reflect.Type).") {
		return
	}
	if c.Name == "(reflect.StructTag).Get" || c.Name == "(reflect.StructTag).Lookup" {
		if s, ok := constStr(a[1]); ok {
			ev.tags[s] = true
		} else {
			ev.anyTag = true
		}
		return
	}
	if c.Name == "fmt.Errorf" || c.Name == "errors.New" {
		return
	}
	if c.Name == "(time.Time).String" && fromReflect(a[0]) {
		ev.layouts[fmtLayout] = true
	}
	if strings.HasPrefix(c.Name, "(time.Time).") {
		if m := strings.TrimPrefix(c.Name, "(time.Time)."); (m == "Format" || m == "AppendFormat") && fromReflect(a[0]) {
			if s, ok := constStr(a[len(a)-1]); ok {
				ev.layouts[s] = true
			}
			ev.nlay++
			ev.timeRead(k, a[0])
		}
		return
	}
	if c.Kind == "iface" && len(a) > 0 && a[0].op == "rIface" {
		a = a[1:] // a method of the user's type
	}
	for _, u := range a {
		vs := []*Term{u}
		if u.typ != nil && isSliceType(u.typ) {
			if va, ok := k.e.varargs(&Ctx{k.e, k.fr, k.st, nil}, u); ok {
				vs = va
			}
		}
		for _, w := range vs {
			if c.Kind == "dyn" || c.Kind == "iface" {
				if w.typ != nil && isReflect(w.typ, "Value") {
					for i := range ev.maySet {
						ev.maySet[i] |= plainKinds | kindsOf(kStruct)
						ev.mayGet[i] |= plainKinds | kindsOf(kStruct)
					}
				}
			}
			ev.reads(k, w)
			if c.Name == "fmt.Sprint" || c.Name == "fmt.Fprint" {
				u := w
				for u.op == "iface" || u.op == "typeassert" {
					u = u.args[0]
				}
				if u.op == "rIface" && k.valueKinds(u.args[0])&^kindsOf(kStruct) == 0 {
					if s, sure := k.plain(u.args[0]); sure && s == kindsOf(kStruct) {
						ev.layouts[fmtLayout] = true
					}
				}
			}
			if w.op == "typeassert" && w.typ != nil && types.IsInterface(w.typ) {
				continue
			}
			for _, y := range subterms(w) {
				if y.op == "rAddr" || y.op == "rIface" && k.typeKinds(k.app("rT", nil, y.args[0]))&kindsOf(kPointer) != 0 {
					for i := range ev.maySet {
						ev.maySet[i] |= plainKinds | kindsOf(kStruct)
					}
				}
			}
		}
	}
}

func fromReflect(u *Term) bool {
	for _, y := range subterms(u) {
		if y.op == "rIface" {
			return true
		}
	}
	return false
}

// timeRead: a time taken out of a reflected value becomes text.
func (ev *kEvents) timeRead(k *kctx, u *Term) {
	for _, y := range subterms(u) {
		if y.op == "rIface" {
			i := k.element(y.args[0])
			ev.get[i] |= kindsOf(kStruct)
			ev.mayGet[i] |= kindsOf(kStruct)
			ev.whereGet[fmt.Sprint(i, kStruct)] = k.at()
			ev.nget++
		}
	}
}

// used: a function of the package is called.
func (ev *kEvents) used(k *kctx, c *CallInfo) {
	for i, u := range c.Args {
		if u.typ == nil && i < len(c.Fn.Params) || i < len(c.Fn.Params) && isReflect(c.Fn.Params[i].Type(), "Value") {
			if isReflect(c.Fn.Params[i].Type(), "Value") {
				if k.element(u) == 1 {
					ev.via[c.Fn] |= k.valueKinds(u)
				}
				continue
			}
		}
		ev.reads(k, u)
		if s, ok := constStr(u); ok && i < len(c.Fn.Params) && c.Common != nil && i < len(c.Common.Args) {
			if _, plain := c.Common.Args[i].(*ssa.Const); !plain {
				if k.askedTag("delim") {
					ev.delims[s] = true
				}
			}
		}
	}
}

// kindTest: the test asks for kinds or for the identity of types alone.
func (k *kctx) kindTest(u *Term) bool {
	if u.op != "eq" {
		return false
	}
	for _, a := range u.args {
		if a.op == "rKind" || a.op == "rVKind" {
			return true
		}
	}
	return u.args[0].typ != nil && isReflect(u.args[0].typ, "Type") && !u.args[0].isNil() && !u.args[1].isNil()
}

// asksOther: the test asks for kinds or types in a way that is not followed.
func asksOther(u *Term) bool {
	for _, y := range subterms(u) {
		if y.op == "rCanK" && (y.args[0].op != "sym" || y.args[0].in != nil) {
			return true
		}
		if c, ok := y.in.(*ssa.Call); ok && y.op == "sym" {
			if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "reflect" && types.Identical(c.Type(), types.Typ[types.Bool]) {
				return true
			}
		}
		if y.op != "call" || !strings.HasPrefix(y.aux, "(reflect.") && !strings.HasPrefix(y.aux, "reflect.") {
			continue
		}
		if m := strings.TrimPrefix(y.aux, "(reflect.Value)."); getters[m] != 0 || strings.HasPrefix(y.aux, "(reflect.StructTag).") {
			continue
		}
		switch y.aux {
		case "(reflect.Value).IsNil", "(reflect.Value).IsValid", "(reflect.Value).IsZero", "(reflect.Value).CanSet", "(reflect.Value).CanAddr", "(reflect.Value).CanInterface":
			continue
		}
		return true
	}
	return false
}

// exit: a function that ends in an error of its own for the kind of a value.
func (ev *kEvents) exit(k *kctx, ex *Exit) {
	if _, ok := k.st.cl["bykind"]; !ok || len(ex.results) == 0 {
		return
	}
	if _, ok := k.st.cl["unk"]; ok {
		return
	}
	u := ex.results[len(ex.results)-1]
	if u.op != "call" || u.aux != "fmt.Errorf" && u.aux != "errors.New" || k.odd() {
		return
	}
	for i, p := range k.f.Params {
		v := k.e.T.Sym(k.fr, nil, p.Name(), p.Type())
		if v == nil || !isReflect(p.Type(), "Value") || !k.known(v) || !k.valid(v) {
			continue
		}
		T := k.canon0(k.app("rT", nil, v))
		if ev.judged[[2]int{i, 0}] {
			ev.refuses(k, 0, T, k.valueKinds(v))
		}
		if s := k.typeKinds(T); ev.judged[[2]int{i, 1}] && s != 0 && s&^kindsOf(kSlice, kArray) == 0 {
			ev.refuses(k, 1, k.canon0(k.app("rElemT", nil, T)), allKinds)
		}
	}
}

func (ev *kEvents) refuses(k *kctx, i int, T *Term, of kindSet) {
	s := of & k.typeKinds(T) & (plainKinds | kindsOf(kStruct))
	if s&kindsOf(kStruct) != 0 && !k.isTime(T) {
		for f, pol := range k.st.facts {
			if f.op == "eq" && !pol && (f.args[0] == T && f.args[1].op == "rConst" || f.args[1] == T && f.args[0].op == "rConst") {
				s &^= kindsOf(kStruct)
			}
		}
	}
	ev.refuse[i] |= s
	for n := 0; n < kinds27; n++ {
		if s&(1<<n) != 0 {
			ev.whereNo[fmt.Sprint(i, n)] = fnName(k.f)
		}
	}
}

// askedTag: what the tag holds decided the path.
func (k *kctx) askedTag(name string) bool {
	for f := range k.st.facts {
		for _, y := range subterms(f) {
			if y.op == "call" && strings.HasPrefix(y.aux, "(reflect.StructTag).") && len(y.args) == 2 {
				if s, ok := constStr(y.args[1]); ok && s == name {
					return true
				}
			}
		}
	}
	return false
}

func checkM03(p *Prog, r *Rep) {
	r.rule("the kinds of fields and of list elements that mapping sets are those that reflecting turns into text, unsigned bytes aside; times are written in the layout that is read; both ask for the same tags and fall back on the same delimiter")
	r.need("agree", 4)
	r.assumes("methods of the user's types return", "package reflect works as documented")
	t, done := runKinds(p, r)
	for _, f := range t.inOrder(done) {
		sub := done[f]
		sub.obs = map[string]*Ob{}
		r.merge(sub)
	}
	reach := func(part string) (out []*ssa.Function) {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			out = append(out, f)
			for _, g := range t.calls[f] {
				walk(g)
			}
		}
		for _, f := range p.exportedRoots() {
			if strings.Contains(f.Name(), part) {
				walk(f)
			}
		}
		return
	}
	sum := func(fs []*ssa.Function) *kEvents {
		s := newKEvents()
		for _, f := range fs {
			ev := t.ev[f]
			if ev == nil {
				continue
			}
			for i := range s.set {
				s.set[i] |= ev.set[i]
				s.get[i] |= ev.get[i]
				s.maySet[i] |= ev.maySet[i]
				s.mayGet[i] |= ev.mayGet[i]
			}
			for i := range s.refuse {
				s.refuse[i] |= ev.refuse[i]
			}
			for x, y := range ev.whereNo {
				s.whereNo[x] = y
			}
			for g, ks := range ev.via {
				if e2 := t.ev[g]; e2 != nil {
					s.maySet[1] |= e2.maySet[0] & ks
					s.mayGet[1] |= e2.mayGet[0] & ks
				}
			}
			for _, m := range []struct{ to, from map[string]bool }{{s.layouts, ev.layouts}, {s.tags, ev.tags}, {s.delims, ev.delims}} {
				for x := range m.from {
					m.to[x] = true
				}
			}
			for _, m := range []struct{ to, from map[string]string }{{s.whereSet, ev.whereSet}, {s.whereGet, ev.whereGet}} {
				for x, y := range m.from {
					m.to[x] = y
				}
			}
			s.anyTag = s.anyTag || ev.anyTag
			s.nset += ev.nset
			s.nget += ev.nget
			s.nlay += ev.nlay
		}
		return s
	}
	M, R := sum(reach("MapTo")), sum(reach("ReflectFrom"))
	r.count("places that set a mapped value", M.nset)
	r.count("places that read a reflected value", R.nget)
	what := []string{"a field", "a list element"}
	name := func(n int) string {
		if n == kStruct {
			return "a time"
		}
		return kindSet(1 << n).String()
	}
	for i := range what {
		for n := 0; n < kinds27; n++ {
			b := kindSet(1 << n)
			if M.set[i]&b != 0 {
				r.ob(R.refuse[i]&b == 0, "refuse", R.whereNo[fmt.Sprint(i, n)], "mapping fills "+what[i]+" of "+name(n), "reflecting can end in an error for no other reason than this kind", "", nil)
				r.ob(R.mayGet[i]&b != 0, "agree", M.whereSet[fmt.Sprint(i, n)], "mapping fills "+what[i]+" of "+name(n), "reflecting never turns the contents of such "+what[i]+" into a text", "", nil)
			}
			if R.get[i]&b != 0 && n != kUint8 {
				r.ob(M.refuse[i]&b == 0, "refuse", M.whereNo[fmt.Sprint(i, n)], "reflecting reads "+what[i]+" of "+name(n), "mapping can end in an error for no other reason than this kind", "", nil)
				r.ob(M.maySet[i]&b != 0, "agree", R.whereGet[fmt.Sprint(i, n)], "reflecting reads "+what[i]+" of "+name(n), "mapping never sets such "+what[i], "", nil)
			}
		}
	}
	for _, l := range sortedKeys(R.layouts) {
		r.ob(l == "2006-01-02T15:04:05Z07:00", "layout", "reflecting", "times written as "+l, "mapping reads times in RFC 3339", "", nil)
	}
	if !R.anyTag && !M.anyTag {
		for _, g := range sortedKeys(M.tags) {
			r.ob(R.tags[g], "tags", "mapping", "asks for the tag "+g, "reflecting never asks for it", "", nil)
		}
		for _, g := range sortedKeys(R.tags) {
			if g != "comment" {
				r.ob(M.tags[g], "tags", "reflecting", "asks for the tag "+g, "mapping never asks for it", "", nil)
			}
		}
	}
	if len(M.delims) > 0 && len(R.delims) > 0 {
		a, b := strings.Join(sortedKeys(M.delims), " "), strings.Join(sortedKeys(R.delims), " ")
		r.ob(a == b, "delimiter", "mapping and reflecting", "the delimiter when none is given", fmt.Sprintf("mapping splits at %q, reflecting joins with %q", a, b), "", nil)
	}
}

func sortedKeys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func (t *m02) inOrder(x interface{}) (fs []*ssa.Function) {
	switch m := x.(type) {
	case map[*ssa.Function]bool:
		for f := range m {
			fs = append(fs, f)
		}
	case map[*ssa.Function]*Rep:
		for f := range m {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return
}
