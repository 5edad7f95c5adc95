package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule M02: an operation of package reflect is only applied to values and
// types it accepts. The kinds a value can have are those the tests on the path
// leave; what a function may assume of its parameters is what holds at all its
// call sites (found by iteration from the exported functions).

func init() { checks["M02"] = checkM02 }

const (
	kInvalid = iota
	kBool
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kUintptr
	kFloat32
	kFloat64
	kComplex64
	kComplex128
	kArray
	kChan
	kFunc
	kInterface
	kMap
	kPointer
	kSlice
	kString
	kStruct
	kUnsafePointer
	kinds27
)

type kindSet uint32

func kindsOf(ks ...int) (s kindSet) {
	for _, k := range ks {
		s |= 1 << k
	}
	return s
}

const allKinds = kindSet(1<<kinds27 - 1)

var (
	intKinds   = kindsOf(kInt, kInt8, kInt16, kInt32, kInt64)
	uintKinds  = kindsOf(kUint, kUint8, kUint16, kUint32, kUint64, kUintptr)
	floatKinds = kindsOf(kFloat32, kFloat64)

	valueAccepts = map[string]kindSet{
		"SetString": kindsOf(kString), "SetBool": kindsOf(kBool), "SetInt": intKinds, "SetUint": uintKinds, "SetFloat": floatKinds,
		"SetComplex": kindsOf(kComplex64, kComplex128), "SetLen": kindsOf(kSlice), "SetCap": kindsOf(kSlice), "SetMapIndex": kindsOf(kMap),
		"Bool": kindsOf(kBool), "Int": intKinds, "Uint": uintKinds, "Float": floatKinds, "Complex": kindsOf(kComplex64, kComplex128),
		"OverflowInt": intKinds, "OverflowUint": uintKinds, "OverflowFloat": floatKinds,
		"Len":   kindsOf(kArray, kChan, kMap, kSlice, kString),
		"Cap":   kindsOf(kArray, kChan, kSlice),
		"Index": kindsOf(kArray, kSlice, kString), "Slice": kindsOf(kArray, kSlice, kString), "Slice3": kindsOf(kArray, kSlice),
		"Elem":     kindsOf(kPointer, kInterface),
		"IsNil":    kindsOf(kChan, kFunc, kInterface, kMap, kPointer, kSlice, kUnsafePointer),
		"NumField": kindsOf(kStruct), "Field": kindsOf(kStruct), "FieldByName": kindsOf(kStruct), "FieldByIndex": kindsOf(kStruct),
		"MapKeys": kindsOf(kMap), "MapRange": kindsOf(kMap), "MapIndex": kindsOf(kMap),
		"Type": allKinds &^ 1, "Interface": allKinds &^ 1, "Addr": allKinds &^ 1, "Set": allKinds &^ 1, "IsZero": allKinds &^ 1, "SetZero": allKinds &^ 1,
	}
	typeAccepts = map[string]kindSet{
		"Elem": kindsOf(kArray, kChan, kMap, kPointer, kSlice), "NumField": kindsOf(kStruct), "Field": kindsOf(kStruct),
		"Key": kindsOf(kMap), "Len": kindsOf(kArray),
	}
)

func (s kindSet) String() string {
	names := strings.Fields("Invalid Bool Int Int8 Int16 Int32 Int64 Uint Uint8 Uint16 Uint32 Uint64 Uintptr Float32 Float64 Complex64 Complex128 Array Chan Func Interface Map Pointer Slice String Struct UnsafePointer")
	var out []string
	for i, n := range names {
		if s&(1<<i) != 0 {
			out = append(out, n)
		}
	}
	if len(out) > 6 {
		return strings.Join(out[:5], ", ") + fmt.Sprintf(" and %d others", len(out)-5)
	}
	return strings.Join(out, ", ")
}

// kindOfType is the kind values of a Go type have.
func kindOfType(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return kBool
		case types.Int:
			return kInt
		case types.Int8:
			return kInt8
		case types.Int16:
			return kInt16
		case types.Int32:
			return kInt32
		case types.Int64:
			return kInt64
		case types.Uint:
			return kUint
		case types.Uint8:
			return kUint8
		case types.Uint16:
			return kUint16
		case types.Uint32:
			return kUint32
		case types.Uint64:
			return kUint64
		case types.Uintptr:
			return kUintptr
		case types.Float32:
			return kFloat32
		case types.Float64:
			return kFloat64
		case types.Complex64:
			return kComplex64
		case types.Complex128:
			return kComplex128
		case types.String:
			return kString
		case types.UnsafePointer:
			return kUnsafePointer
		}
	case *types.Array:
		return kArray
	case *types.Chan:
		return kChan
	case *types.Signature:
		return kFunc
	case *types.Interface:
		return kInterface
	case *types.Map:
		return kMap
	case *types.Pointer:
		return kPointer
	case *types.Slice:
		return kSlice
	case *types.Struct:
		return kStruct
	}
	return kInvalid
}

func isReflect(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == name
}

// param: what a function may assume of a parameter.
type kparam struct {
	valid, set, iface, nonNil bool
	kinds                     kindSet
	lost                      bool         // some call passes what was not followed
	tied                      bool         // a truth value some call ties to kinds or types
	same                      map[int]bool // the type parameters that are its type
}

type m02 struct {
	p       *Prog
	r       *Rep
	refl    map[*ssa.Function]bool // uses reflection, or calls what does
	worker  map[*ssa.Function]bool // judged by itself
	hyp     map[*ssa.Function][]kparam
	todo    map[*ssa.Function]bool
	globals map[string]func(e *Eng, t types.Type) *Term
	consts  map[string]types.Type
	e       *Eng
	calls   map[*ssa.Function][]*ssa.Function
	ev      map[*ssa.Function]*kEvents // what was seen, for M03
}

func reflectCall(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		if isReflect(c.Value.Type(), "Type") {
			return "Type." + c.Method.Name()
		}
		return ""
	}
	if g := c.StaticCallee(); g != nil {
		s := g.String()
		if strings.HasPrefix(s, "(reflect.Value).") {
			return "Value." + strings.TrimPrefix(s, "(reflect.Value).")
		}
		if strings.HasPrefix(s, "reflect.") {
			return s
		}
	}
	return ""
}

func checkM02(p *Prog, r *Rep) {
	r.rule("every operation of package reflect with a precondition is reached only with values and types of the kinds it accepts: kinds, nil-ness, settability, type identity and bounds must follow from the tests on each path; a function may assume of its parameters what holds at all its call sites")
	r.need("kind", 8)
	r.need("settable", 3)
	r.assumes("methods of the user's types return", "package reflect works as documented")
	t, done := runKinds(p, r)
	for _, f := range t.inOrder(done) {
		r.merge(done[f])
	}
}

// runKinds judges every function that uses reflection until what each may
// assume of its parameters has settled.
func runKinds(p *Prog, r *Rep) (*m02, map[*ssa.Function]*Rep) {
	t := &m02{p: p, r: r, refl: map[*ssa.Function]bool{}, worker: map[*ssa.Function]bool{}, hyp: map[*ssa.Function][]kparam{}, todo: map[*ssa.Function]bool{}, consts: map[string]types.Type{}, ev: map[*ssa.Function]*kEvents{}}
	t.setup()
	for _, f := range p.exportedRoots() {
		if t.refl[f] {
			t.hyp[f] = make([]kparam, len(f.Params))
			for i := range t.hyp[f] {
				t.hyp[f][i].kinds = allKinds
			}
			t.todo[f] = true
		}
	}
	done := map[*ssa.Function]*Rep{}
	for n := 0; len(t.todo) > 0 && n < 200; n++ {
		f := t.inOrder(t.todo)[0]
		delete(t.todo, f)
		sub := newRep(p, r.prop, r.tier)
		done[f] = sub
		t.ev[f] = newKEvents()
		e := newEng(p, t.hooks(f, sub))
		t.e = e
		e.Axioms = func(st *State, a *Term) []*LinExpr {
			if a.op == "rLen" || a.op == "rNumField" {
				return []*LinExpr{e.linOf(a)}
			}
			return nil
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					sub.undecided(fmt.Sprintf("analysis of %s failed: %v", fnName(f), x))
				}
			}()
			e.runRoot(f, func(fr *Frame, st *State) {})
		}()
		sub.absorb(e, f)
	}
	if len(t.todo) > 0 {
		r.undecided("what functions may assume of their parameters did not settle")
	}
	return t, done
}

// setup finds the functions that matter and the package variables whose type
// or kind is fixed.
func (t *m02) setup() {
	calls := map[*ssa.Function][]*ssa.Function{}
	t.calls = calls
	uses := map[*ssa.Function]bool{} // has operations that are judged
	for _, f := range t.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok {
					calls[f] = append(calls[f], m.Fn.(*ssa.Function))
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if n := reflectCall(c.Common()); n != "" {
					t.refl[f] = true
					switch strings.TrimPrefix(n, "Value.") {
					case n, "Kind", "Type", "Elem", "CanSet", "CanInterface", "IsValid", "CanAddr", "IsNil", "Len":
					default:
						uses[f] = true
					}
				}
				if g := c.Common().StaticCallee(); g != nil && g.Pkg == t.p.pkg {
					calls[f] = append(calls[f], g)
				}
			}
		}
	}
	for _, f := range t.p.funcs {
		for _, q := range f.Params {
			for _, n := range []string{"Value", "Type", "Kind", "StructField", "StructTag"} {
				t.refl[f] = t.refl[f] || isReflect(q.Type(), n)
			}
		}
	}
	for again := true; again; {
		again = false
		for f, gs := range calls {
			for _, g := range gs {
				if t.refl[g] && !t.refl[f] {
					t.refl[f], again = true, true
				}
				if g.Parent() != nil && uses[g] && !uses[f] {
					uses[f], again = true, true
				}
			}
		}
	}
	reach := func(f *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function) bool
		walk = func(g *ssa.Function) bool {
			for _, h := range calls[g] {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if walk(h) {
						return true
					}
				}
			}
			return false
		}
		return walk(f)
	}
	for f := range t.refl {
		if f.Parent() != nil {
			continue
		}
		plain := f.Signature.Results().Len() == 0 || f.Signature.Results().Len() == 1 && isErrType(f.Signature.Results().At(0).Type())
		t.worker[f] = plain && (uses[f] && len(f.Blocks) > 24 || reach(f)) || f.Object() != nil && f.Object().Exported()
	}
	for _, f := range t.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || g.Pkg != t.p.pkg {
					continue
				}
				typ := constType(s.Val)
				if _, dup := t.consts[g.Name()]; dup || f.Name() != "init" || typ == nil {
					t.consts[g.Name()] = nil
					continue
				}
				t.consts[g.Name()] = typ
			}
		}
	}
}

// constType: the value is the reflect.Type or reflect.Kind of this Go type.
func constType(v ssa.Value) types.Type {
	switch v := v.(type) {
	case *ssa.ChangeInterface:
		return constType(v.X)
	case *ssa.Call:
		switch reflectCall(&v.Call) {
		case "reflect.TypeOf", "reflect.ValueOf":
			if m, ok := v.Call.Args[0].(*ssa.MakeInterface); ok {
				return m.X.Type()
			}
		case "Type.Kind":
			return constType(v.Call.Value)
		case "Value.Kind", "Value.Type":
			return constType(v.Call.Args[0])
		case "Type.Elem":
			if u := constType(v.Call.Value); u != nil {
				if p, ok := u.Underlying().(*types.Pointer); ok {
					return p.Elem()
				}
			}
		default:
			if g := v.Call.StaticCallee(); g != nil && g.Origin() != nil && g.Origin().String() == "reflect.TypeFor" && len(g.TypeArgs()) == 1 {
				return g.TypeArgs()[0]
			}
		}
	}
	return nil
}

// kctx answers questions about values and types on one path.
type kctx struct {
	*m02
	st *State
	f  *ssa.Function
	fr *Frame
}

func (k *kctx) app(op string, typ types.Type, args ...*Term) *Term {
	return k.e.T.App(op, "", typ, args...)
}

func (k *kctx) constT(t types.Type) *Term {
	return k.e.T.App("rConst", types.TypeString(t, nil), t)
}

// hypo: what may be assumed of a parameter of the function judged.
func (k *kctx) hypo(v *Term) (*kparam, int) {
	if v.op == "sym" && v.in == nil {
		for i, p := range k.f.Params {
			if i < len(k.hyp[k.f]) && k.e.T.Sym(k.root(), nil, p.Name(), p.Type()) == v {
				return &k.hyp[k.f][i], i
			}
		}
	}
	return nil, -1
}

func (k *kctx) root() *Frame {
	fr := k.fr
	for fr.parent != nil {
		fr = fr.parent
	}
	return fr
}

// loopBase: a value changed round by round in ways that keep its type is, as
// far as its type goes, the value it began with.
func (k *kctx) loopBase(v *Term) *Term {
	ph, ok := v.in.(*ssa.Phi)
	if !ok {
		return nil
	}
	seen := map[ssa.Value]bool{}
	var base ssa.Value
	var walk func(u ssa.Value) bool
	walk = func(u ssa.Value) bool {
		if seen[u] {
			return true
		}
		seen[u] = true
		switch u := u.(type) {
		case *ssa.Phi:
			for _, a := range u.Edges {
				if !walk(a) {
					return false
				}
			}
			return true
		case *ssa.Call:
			switch reflectCall(&u.Call) {
			case "reflect.Append", "reflect.AppendSlice", "Value.Slice":
				return walk(u.Call.Args[0])
			}
		}
		if base != nil && base != u {
			return false
		}
		base = u
		return true
	}
	if !walk(ph) || base == nil {
		return nil
	}
	return k.st.cl[baseMark(v.fr, ph)]
}

func baseMark(fr *Frame, ph *ssa.Phi) string { return fmt.Sprintf("base:%d:%s", fr.id, ph.Name()) }

// kindsLeft: the kinds a kind term can stand for on this path.
func (k *kctx) kindsLeft(kt *Term) kindSet {
	if n, ok := constInt(kt); ok {
		return 1 << n
	}
	s := allKinds
	l := k.e.linOf(kt)
	for i := 0; i < kinds27; i++ {
		if k.e.evalBool(k.st, k.e.mkEq(kt, k.e.T.Int(int64(i)))) == -1 || k.ge0(l.add(newLin(int64(i+1)), -1)) || k.ge0(newLin(int64(i-1)).add(l, -1)) {
			s &^= 1 << i
		}
	}
	return s
}

func (k *kctx) kindTerms() (ts []*Term) {
	seen := map[*Term]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		if u.op == "rKind" || u.op == "rVKind" {
			ts = append(ts, u)
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	for f := range k.st.facts {
		walk(f)
	}
	return ts
}

// typeKinds: the kinds a type can have.
func (k *kctx) typeKinds(t *Term) kindSet {
	t = k.canon0(t)
	s := allKinds &^ 1
	switch t.op {
	case "rConst":
		return 1 << kindOfType(t.typ)
	case "rPtrT":
		return kindsOf(kPointer)
	}
	if h, _ := k.hypo(t); h != nil {
		s &= h.kinds
	}
	if t.op == "field" {
		if h, _ := k.hypo(t.args[0]); h != nil {
			s &= h.kinds
		}
	}
	if t.op == "rT" {
		if h, _ := k.hypo(t.args[0]); h != nil && h.kinds != 1 {
			s &= h.kinds
		}
	}
	for _, kt := range k.kindTerms() {
		switch {
		case kt.op == "rKind" && k.canon0(kt.args[0]) == t:
			s &= k.kindsLeft(kt)
		case kt.op == "rVKind" && k.canon0(k.app("rT", t.typ, kt.args[0])) == t:
			if left := k.kindsLeft(kt); left&^1 != 0 {
				s &= left
			}
		}
	}
	for f, pol := range k.st.facts {
		if f.op == "eq" && pol {
			for i, a := range f.args {
				if k.canonR(a) == t {
					if b := k.canonR(f.args[1-i]); b.op == "rConst" {
						s &= 1 << kindOfType(b.typ)
					}
				}
			}
		}
	}
	return s
}

// paramType: the type a parameter stands for.
func (k *kctx) paramType(i int) *Term {
	q := k.f.Params[i]
	s := k.e.T.Sym(k.root(), nil, q.Name(), q.Type())
	if isReflect(q.Type(), "StructField") {
		return k.sfType(s)
	}
	return s
}

func (k *kctx) sfType(sf *Term) *Term {
	if sf.op == "struct" {
		st := sf.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Type" {
				return sf.args[i]
			}
		}
	}
	return k.e.field(sf, "reflect.StructField.Type", nil)
}

// canon0 normalises without asking for kinds (which would ask for the normal
// form again).
func (k *kctx) canon0(t *Term) *Term { return k.canonDepth(t) }

func (k *kctx) canonDepth(t *Term) *Term {
	switch t.op {
	case "field":
		if t.args[0].op == "rSF" && strings.HasSuffix(t.aux, "StructField.Type") {
			return k.canonDepth(k.app("rFieldT", t.typ, t.args[0].args[0], t.args[0].args[1]))
		}
	case "rT":
		v := t.args[0]
		switch v.op {
		case "rVal":
			if v.args[0].op == "iface" {
				return k.constT(v.args[0].typ)
			}
			if v.args[0].op == "rIface" {
				return k.canonDepth(k.app("rT", t.typ, v.args[0].args[0]))
			}
		case "rElem", "rIndex":
			return k.canonDepth(k.app("rElemT", t.typ, k.app("rT", t.typ, v.args[0])))
		case "rField":
			return k.canonDepth(k.app("rFieldT", t.typ, k.app("rT", t.typ, v.args[0]), v.args[1]))
		case "rAddr":
			return k.canonDepth(k.app("rPtrT", t.typ, k.app("rT", t.typ, v.args[0])))
		case "rNew":
			return k.canonDepth(k.app("rPtrT", t.typ, v.args[0]))
		case "rMake", "rZero":
			return k.canonDepth(v.args[0])
		case "rConv":
			return k.canonDepth(v.args[1])
		case "rApp", "rSlice":
			return k.canonDepth(k.app("rT", t.typ, v.args[0]))
		case "sym":
			if h, _ := k.hypo(v); h != nil {
				for i := range k.f.Params {
					if h.same[i] {
						return k.paramType(i)
					}
				}
			}
			if r := k.loopBase(v); r != nil && r != v {
				return k.canonDepth(k.app("rT", t.typ, r))
			}
		}
	case "rElemT":
		u := k.canonDepth(t.args[0])
		if u.op == "rPtrT" {
			return u.args[0]
		}
		if u.op == "rConst" {
			switch c := u.typ.Underlying().(type) {
			case interface{ Elem() types.Type }:
				return k.constT(c.Elem())
			}
		}
		return k.app("rElemT", t.typ, u)
	case "rPtrT":
		return k.app("rPtrT", t.typ, k.canonDepth(t.args[0]))
	case "rFieldT":
		return k.app("rFieldT", t.typ, k.canonDepth(t.args[0]), t.args[1])
	}
	return t
}

func (k *kctx) canonR(t *Term) *Term {
	if strings.HasPrefix(t.op, "r") || t.op == "field" || t.op == "sym" {
		return k.canonDepth(t)
	}
	return t
}

// valueKinds: the kinds a value can have (Invalid: it may be missing).
func (k *kctx) valueKinds(v *Term) kindSet {
	s := k.typeKinds(k.app("rT", nil, v))
	if !k.valid(v) {
		s |= 1
	}
	for _, kt := range k.kindTerms() {
		if kt.op == "rVKind" && kt.args[0] == v {
			s &= k.kindsLeft(kt)
		}
	}
	for f, pol := range k.st.facts {
		if f.op == "rCanK" && f.args[0] == v {
			ks := map[string]kindSet{"CanInt": intKinds, "CanUint": uintKinds, "CanFloat": floatKinds, "CanComplex": kindsOf(kComplex64, kComplex128)}[f.aux]
			if !pol {
				ks = ^ks
			}
			s &= ks
		}
	}
	return s
}

func (k *kctx) isTrue(t *Term) bool { return k.e.evalBool(k.st, t) == 1 }

func boolT() types.Type { return types.Typ[types.Bool] }

func (k *kctx) valid(v *Term) bool {
	switch v.op {
	case "rField", "rIndex", "rNew", "rConv", "rMake", "rZero", "rApp", "rAddr", "rSlice":
		return true
	case "rVal":
		x := v.args[0]
		if x.op == "iface" || x.op == "rIface" || k.e.evalBool(k.st, k.e.mkEq(x, k.e.T.Nil())) == -1 {
			return true
		}
		for f, pol := range k.st.facts {
			if f.op == "eq" && !pol && f.args[1].isNil() && f.args[0].op == "rT" && f.args[0].args[0] == v {
				return true
			}
		}
	case "rElem":
		if k.nonNil(v.args[0]) {
			return true
		}
	case "sym":
		if h, _ := k.hypo(v); h != nil && h.valid {
			return true
		}
		if r := k.loopBase(v); r != nil && r != v && k.valid(r) {
			return true
		}
	}
	for _, kt := range k.kindTerms() {
		if kt.op == "rVKind" && kt.args[0] == v && k.kindsLeft(kt)&1 == 0 {
			return true
		}
	}
	return k.isTrue(k.app("rIsValid", boolT(), v))
}

func (k *kctx) nonNil(v *Term) bool {
	return v.op == "rNew" || v.op == "rAddr" || k.e.evalBool(k.st, k.app("rIsNil", boolT(), v)) == -1 || k.st.cl["nn:"+v.String()] != nil
}

func (k *kctx) canSet(v *Term) bool {
	if k.isTrue(k.app("rCanSet", boolT(), v)) {
		return true
	}
	switch v.op {
	case "rElem":
		return k.valid(v) && k.canIface(v.args[0]) && k.typeKinds(k.app("rT", nil, v.args[0]))&kindsOf(kInterface) == 0
	case "rIndex":
		return k.canIface(v.args[0]) && (k.valueKinds(v.args[0])&^kindsOf(kSlice) == 0 || k.canSet(v.args[0]))
	case "sym":
		h, _ := k.hypo(v)
		return h != nil && h.set
	}
	return false
}

func (k *kctx) canIface(v *Term) bool {
	if k.isTrue(k.app("rCanIface", boolT(), v)) || k.canSet0(v) {
		return true
	}
	switch v.op {
	case "rVal", "rNew", "rMake", "rZero":
		return true
	case "rElem", "rIndex", "rSlice", "rApp", "rAddr", "rConv":
		return k.canIface(v.args[0])
	case "sym":
		if h, _ := k.hypo(v); h != nil && (h.iface || h.set) {
			return true
		}
		if r := k.loopBase(v); r != nil && r != v {
			return k.canIface(r)
		}
	}
	return false
}

func (k *kctx) canSet0(v *Term) bool { return k.isTrue(k.app("rCanSet", boolT(), v)) }

func (k *kctx) canAddr(v *Term) bool {
	switch v.op {
	case "rElem":
		return true
	case "rIndex":
		return k.valueKinds(v.args[0])&^kindsOf(kSlice) == 0 || k.canAddr(v.args[0])
	case "rField":
		if k.canAddr(v.args[0]) {
			return true
		}
	}
	return k.canSet(v) || k.isTrue(k.app("rCanAddr", boolT(), v))
}

func (k *kctx) typeNonNil(t *Term) bool {
	t0 := t
	t = k.canon0(t)
	switch t.op {
	case "rConst", "rPtrT", "rElemT", "rFieldT", "field":
		return true
	case "rT":
		if k.valid(t.args[0]) {
			return true
		}
	case "sym":
		if h, _ := k.hypo(t); h != nil && h.nonNil {
			return true
		}
	}
	return k.e.evalBool(k.st, k.e.mkEq(t0, k.e.T.Nil())) == -1 || k.e.evalBool(k.st, k.e.mkEq(t, k.e.T.Nil())) == -1
}

// sameType: two types are the same on this path, or values of b can be
// assigned to a (a type put together from parts of a).
func (k *kctx) sameType(a, b *Term) bool {
	a, b = k.canon0(a), k.canon0(b)
	if a == b {
		return true
	}
	for f, pol := range k.st.facts {
		if f.op == "eq" && pol {
			x, y := k.canonR(f.args[0]), k.canonR(f.args[1])
			if x == a && y == b || x == b && y == a {
				return true
			}
		}
	}
	if k.asserted(a, b) || k.asserted(b, a) {
		return true
	}
	if b.op == "rPtrT" && k.typeKinds(a)&^kindsOf(kPointer) == 0 {
		return k.sameType(k.app("rElemT", a.typ, a), b.args[0])
	}
	if a.op == "rPtrT" && k.typeKinds(b)&^kindsOf(kPointer) == 0 {
		return k.sameType(k.app("rElemT", b.typ, b), a.args[0])
	}
	return false
}

// asserted: a type assertion on the path found the value of type a to be of
// the Go type b.
func (k *kctx) asserted(a, b *Term) bool {
	if b.op != "rConst" {
		return false
	}
	for f, pol := range k.st.facts {
		if f.op == "istype" && pol && f.args[0].op == "rIface" && f.aux == typeShort(b.typ) && k.canon0(k.app("rT", nil, f.args[0].args[0])) == a {
			return true
		}
	}
	return false
}

// odd: the path tested a kind or a type in a way that is not understood.
func (k *kctx) odd() bool {
	if k.st.cl["odd"] != nil {
		return true
	}
	for f, pol := range k.st.facts {
		if f.op == "call" && pol && (strings.HasSuffix(f.aux, "AssignableTo") || strings.HasSuffix(f.aux, "ConvertibleTo") || strings.HasSuffix(f.aux, "Implements") || strings.HasSuffix(f.aux, "CanConvert") || strings.HasSuffix(f.aux, "IsExported")) {
			return true
		}
	}
	return false
}

// hasKind: a kind has a part in the test itself (not in what is tested).
func hasKind(u *Term) bool {
	if u.op == "rKind" || u.op == "rVKind" {
		return true
	}
	if isROp(u.op) {
		return false
	}
	for _, a := range u.args {
		if hasKind(a) {
			return true
		}
	}
	return false
}

// reflective: the term says something about reflected values.
func reflective(u *Term) bool {
	if isROp(u.op) {
		return true
	}
	for _, a := range u.args {
		if reflective(a) {
			return true
		}
	}
	return false
}

// tiedTest: the test asks for a parameter that stands for kinds of others.
func (k *kctx) tiedTest(u *Term) bool {
	if u.op == "sym" {
		if u.typ != nil && isReflect(u.typ, "Kind") {
			return true
		}
		h, _ := k.hypo(u)
		return h != nil && h.tied
	}
	if isROp(u.op) {
		return false
	}
	for _, a := range u.args {
		if k.tiedTest(a) {
			return true
		}
	}
	return false
}

func isROp(op string) bool { return len(op) > 1 && op[0] == 'r' && op[1] >= 'A' && op[1] <= 'Z' }

func (k *kctx) lostParam(u *Term) bool {
	h, _ := k.hypo(u)
	return h == nil || h.lost
}

// known: the value or type comes from the call's own arguments or from the
// program's values by ways that were followed.
func (k *kctx) known(u *Term) bool {
	switch u.op {
	case "const", "nil", "rConst":
		return true
	case "rVal":
		return u.args[0].op != "sym" || u.args[0].in == nil || !strings.Contains(u.args[0].aux, "j:")
	case "iface":
		return k.known(u.args[0])
	case "field":
		return u.args[0].op == "rSF" && k.known(u.args[0].args[0]) || u.args[0].op == "sym" && u.args[0].in == nil && u.args[0].typ != nil && isReflect(u.args[0].typ, "StructField") && !k.lostParam(u.args[0])
	case "rApp", "rConv", "rElem", "rField", "rIndex", "rSlice", "rAddr", "rNew", "rMake", "rZero", "rT", "rElemT", "rFieldT", "rPtrT", "rIface":
		return k.known(u.args[0])
	case "sym":
		if u.typ != nil && (isReflect(u.typ, "Value") || isReflect(u.typ, "Type")) {
			if u.in == nil {
				h, _ := k.hypo(u)
				return h != nil && !h.lost
			}
			b := k.loopBase(u)
			return b != nil && b != u && k.known(b)
		}
	case "struct":
		return true
	}
	return u.typ == nil || !isReflect(u.typ, "Value") && !isReflect(u.typ, "Type")
}

func (t *m02) hooks(f *ssa.Function, sub *Rep) *Hooks {
	h := fullHooks()
	h.JoinCap, h.ExitCap, h.FactCap, h.KeepEpochs, h.JoinBounds = 64, 32, 48, true, true
	memo := map[*Term]bool{}
	var about func(u *Term) bool
	about = func(u *Term) bool {
		if r, ok := memo[u]; ok {
			return r
		}
		r := isROp(u.op) || u.typ != nil && (isReflect(u.typ, "Type") || isReflect(u.typ, "Kind"))
		for _, a := range u.args {
			r = r || about(a)
		}
		memo[u] = r
		return r
	}
	h.KeepFact = func(u *Term) bool {
		return about(u) || u.op == "istype" || u.op == "ge0" || u.op == "eq" && u.args[1].isNil()
	}
	at := func(x *Ctx) *kctx { return &kctx{t, x.st, f, x.fr} }
	h.Fixed = func(loc *Term) *Term {
		if loc.op != "&g" || t.consts[loc.aux] == nil {
			return nil
		}
		typ := t.consts[loc.aux]
		if p, ok := loc.typ.(*types.Pointer); ok {
			if isReflect(p.Elem(), "Kind") {
				return t.e.T.Int(int64(kindOfType(typ)))
			}
			if isReflect(p.Elem(), "Type") {
				return t.e.T.App("rConst", types.TypeString(typ, nil), typ)
			}
		}
		return nil
	}
	h.Branch = func(x *Ctx, cond *Term, taken bool) bool {
		for cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		if hasKind(cond) && cond.op != "ge0" && (cond.op != "eq" || !cond.args[0].isConst() && !cond.args[1].isConst()) {
			x.st.cl["odd"] = x.e.T.Nil()
		}
		k := at(x)
		if k.tiedTest(cond) {
			x.st.cl["odd"] = x.e.T.Nil()
		}
		delete(x.st.cl, "bykind")
		if asksOther(cond) {
			x.st.cl["unk"] = x.e.T.Nil()
		}
		if k.kindTest(cond) {
			x.st.cl["bykind"] = x.e.T.Nil()
		}
		if cond.op != "eq" {
			return true
		}
		for i, a := range cond.args {
			n, ok := constInt(cond.args[1-i])
			if !ok || n < 0 || n >= kinds27 {
				continue
			}
			var s kindSet
			switch a.op {
			case "rKind":
				s = k.typeKinds(a.args[0])
			case "rVKind":
				s = k.valueKinds(a.args[0])
			default:
				continue
			}
			if taken && s&(1<<n) == 0 || !taken && s&^(1<<n) == 0 {
				return false
			}
		}
		return true
	}
	// rounds that began with different values are kept apart
	entered := map[string]*ssa.BasicBlock{}
	h.LoopEnter = func(x *Ctx, hdr *ssa.BasicBlock) {
		var sig []string
		for v, u := range x.st.env {
			if u != nil && (isReflect(v.Type(), "Value") || isReflect(v.Type(), "Type") || isReflect(v.Type(), "Kind") || types.IsInterface(v.Type()) && !isErrType(v.Type())) {
				sig = append(sig, fmt.Sprintf("%s=%d", v.Name(), u.id))
			}
		}
		for u, pol := range x.st.facts {
			if u.op == "eq" && about(u) {
				sig = append(sig, fmt.Sprint(u.id, pol))
			}
		}
		for _, in := range hdr.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if u := x.st.env[ph]; isReflect(ph.Type(), "Type") && u != nil && at(x).typeNonNil(u) {
				x.e.assume(x.st, x.e.mkEq(u, x.e.T.Nil()), false)
			}
			if isReflect(ph.Type(), "Value") {
				x.st.cl[baseMark(x.fr, ph)] = x.st.env[ph]
			}
		}
		sort.Strings(sig)
		key := fmt.Sprintf("in:%s:%d", hdr.Parent().Name(), hdr.Index)
		entered[key] = hdr
		x.st.cl[key] = x.e.T.Str(strings.Join(sig, " "))
	}
	h.BackEdge = func(x *Ctx, fr *Frame, head, st *State, hdr *ssa.BasicBlock) {
		for m := range st.cl {
			if b := entered[m]; strings.HasPrefix(m, "nn:") || b != nil && b != hdr && b.Parent() == hdr.Parent() && hdr.Dominates(b) {
				delete(st.cl, m)
			}
		}
	}
	h.RootExit = func(x *Ctx, ex *Exit) { t.ev[f].exit(at(x), ex) }
	h.Store = func(x *Ctx, loc, val *Term) { t.ev[f].reads(at(x), val) }
	h.TypeAssert = func(x *Ctx, v *Term, typ types.Type, commaOk bool) {
		t.ev[f].asserted(at(x), v, typ)
		if commaOk {
			return
		}
		if _, ok := typ.Underlying().(*types.Interface); ok {
			return
		}
		k := at(x)
		switch v.op {
		case "iface":
			k.need(x, sub, types.Identical(v.typ, typ), nil, "assert", ".("+typeShort(typ)+")", "the value is known to be of type "+typeShort(v.typ))
		case "rIface":
			k.need(x, sub, k.sameType(k.constT(typ), k.app("rT", nil, v.args[0])), v.args, "assert", ".("+typeShort(typ)+")", "the value need not be of this type: "+v.args[0].String())
		}
	}
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		k := at(x)
		if c.Kind == "ini" && c.Fn != nil {
			if c.Fn.Parent() != nil || t.refl[c.Fn] && !t.worker[c.Fn] && !c.Recursive {
				return nil, false
			}
			for _, a := range c.Args {
				if a.op == "func" || a.op == "closure" {
					return nil, false
				}
			}
			if plainText(c.Fn) && !c.Recursive {
				return nil, false
			}
			t.ev[f].used(k, c)
			if t.refl[c.Fn] && !(c.Fn.Object() != nil && c.Fn.Object().Exported()) {
				t.meet(k, c)
			}
			x.e.havocMods(x, c.Fn)
			return []CallRes{{x.st, nil}}, true
		}
		res, ok := t.reflectOp(k, x, c, sub)
		t.ev[f].op(k, c)
		if !ok {
			return nil, false
		}
		return []CallRes{{x.st, []*Term{res}}}, true
	}
	return h
}

// need: an obligation, unless it hangs on what was not followed.
func (k *kctx) need(x *Ctx, sub *Rep, ok bool, args []*Term, rule, what, why string) {
	if !ok && k.odd() {
		sub.count("operations not judged", 1)
		return
	}
	if !ok {
		for _, u := range args {
			if u.op == "arr" || u.typ != nil && isSliceType(u.typ) {
				continue
			}
			if !k.known(u) {
				sub.count("operations not judged", 1)
				return
			}
		}
	}
	sub.obx(x, ok, rule, fnName(x.fr.fn)+": "+what, why)
}

// meet lets what holds of the arguments bear on what a function may assume.
func (t *m02) meet(k *kctx, c *CallInfo) {
	old := t.hyp[c.Fn]
	now := make([]kparam, len(c.Fn.Params))
	for i, p := range c.Fn.Params {
		if i >= len(c.Args) {
			return
		}
		a := c.Args[i]
		now[i].kinds = allKinds
		lost := k.odd() || !k.known(a)
		switch {
		case isReflect(p.Type(), "Value"):
			now[i] = kparam{valid: k.valid(a), set: k.canSet(a), iface: k.canIface(a), kinds: k.valueKinds(a), same: map[int]bool{}}
			for j, q := range c.Fn.Params {
				if j >= len(c.Args) {
					continue
				}
				if isReflect(q.Type(), "Type") {
					now[i].same[j] = k.sameType(c.Args[j], k.app("rT", nil, a))
				}
				if isReflect(q.Type(), "StructField") {
					now[i].same[j] = k.sameType(k.sfType(c.Args[j]), k.app("rT", nil, a))
				}
			}
		case isReflect(p.Type(), "Type"):
			now[i] = kparam{nonNil: k.typeNonNil(a), kinds: k.typeKinds(a)}
		case isReflect(p.Type(), "StructField"):
			now[i] = kparam{nonNil: true, kinds: k.typeKinds(k.sfType(a))}
		case isReflect(p.Type(), "Kind"):
			now[i].kinds = k.kindsLeft(a)
		}
		now[i].lost = lost
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && c.Common != nil && i < len(c.Common.Args) {
			_, plain := c.Common.Args[i].(*ssa.Const)
			q, given := c.Common.Args[i].(*ssa.Parameter)
			now[i].tied = a.isConst() && !plain && !given || reflective(a)
			if h, _ := k.hypo(a); h != nil && h.tied {
				now[i].tied = true
			}
			if given && k.fr.fn == k.f {
				for j, s := range k.f.Params {
					if s == q && k.hyp[k.f] != nil && k.hyp[k.f][j].tied {
						now[i].tied = true
					}
				}
			}
		}
	}
	if old == nil {
		t.hyp[c.Fn] = now
		t.todo[c.Fn] = true
		return
	}
	changed := false
	and := func(a *bool, b bool) {
		if *a && !b {
			*a, changed = false, true
		}
	}
	for i := range old {
		o, n := &old[i], &now[i]
		and(&o.valid, n.valid)
		and(&o.set, n.set)
		and(&o.iface, n.iface)
		and(&o.nonNil, n.nonNil)
		if n.lost && !o.lost {
			o.lost, changed = true, true
		}
		if n.tied && !o.tied {
			o.tied, changed = true, true
		}
		for j, s := range o.same {
			if s && !n.same[j] {
				o.same[j], changed = false, true
			}
		}
		if n.kinds&^o.kinds != 0 {
			o.kinds |= n.kinds
			changed = true
		}
	}
	if changed {
		t.todo[c.Fn] = true
	}
}

// reflectOp: the result of an operation of package reflect, and whether it may
// be applied here.
func (t *m02) reflectOp(k *kctx, x *Ctx, c *CallInfo, sub *Rep) (*Term, bool) {
	var rt types.Type
	if c.Sig != nil && c.Sig.Results().Len() == 1 {
		rt = c.Sig.Results().At(0).Type()
	}
	need := func(ok bool, rule, what, why string) { k.need(x, sub, ok, c.Args, rule, what, why) }
	a := c.Args
	if m := strings.TrimPrefix(c.Name, "(reflect.Type)."); m != c.Name {
		T := a[0]
		if T.op == "iface" {
			T = T.args[0]
		}
		need(k.typeNonNil(T), "type", "Type."+m, "the type can be missing (of a nil interface): "+T.String())
		if want, ok := typeAccepts[m]; ok {
			s := k.typeKinds(T)
			need(s&^want == 0, "kind", "Type."+m, "applied to a type that can be of kind "+(s&^want).String())
		}
		C := k.canon0(T)
		switch m {
		case "Kind":
			if s := k.typeKinds(C); s != 0 && s&(s-1) == 0 {
				for i := 0; i < kinds27; i++ {
					if s == 1<<i {
						return k.e.T.Int(int64(i)), true
					}
				}
			}
			return k.app("rKind", rt, C), true
		case "Elem":
			u := k.canon0(k.app("rElemT", rt, C))
			x.e.assume(x.st, x.e.mkEq(u, x.e.T.Nil()), false)
			return u, true
		case "Field":
			need(k.inBounds(a[1], k.app("rNumField", types.Typ[types.Int], C)), "bounds", "Type."+m, "the field's number can leave the bounds")
			return k.app("rSF", rt, C, a[1]), true
		case "NumField":
			return k.app("rNumField", rt, C), true
		}
		return nil, false
	}
	if m := strings.TrimPrefix(c.Name, "(reflect.Value)."); m != c.Name {
		v := a[0]
		if want, ok := valueAccepts[m]; ok {
			s := k.valueKinds(v)
			what := "kind"
			if s&^want == 1 {
				what = "valid"
			}
			need(s&^want == 0, what, "Value."+m, "applied to a value that can be of kind "+(s&^want).String()+": "+v.String())
		}
		if strings.HasPrefix(m, "Set") && m != "SetMapIndex" {
			need(k.canSet(v), "settable", "Value."+m, "the value need not be settable: "+v.String())
		}
		num := types.Typ[types.Int]
		T := k.canon0(k.app("rT", nil, v))
		switch m {
		case "Kind":
			if k.valid(v) {
				s := k.valueKinds(v)
				for i := 0; i < kinds27; i++ {
					if s == 1<<i {
						return k.e.T.Int(int64(i)), true
					}
				}
				return k.app("rKind", rt, T), true
			}
			return k.app("rVKind", rt, v), true
		case "Type":
			return k.canon0(k.app("rT", rt, v)), true
		case "Elem":
			return k.app("rElem", rt, v), true
		case "Field":
			need(k.inBounds(a[1], k.app("rNumField", num, T)), "bounds", "Value."+m, "the field's number can leave the bounds")
			return k.app("rField", rt, v, a[1]), true
		case "NumField":
			return k.app("rNumField", rt, T), true
		case "Index":
			// the length of a list that came out of nowhere is not judged
			unseen := false
			if v.op == "rVal" {
				u := v.args[0]
				for u.op == "iface" {
					u = u.args[0]
				}
				unseen = u.op != "sym" || u.in != nil
			}
			need(unseen || k.inBounds(a[1], k.lenOf(v)), "bounds", "Value."+m, "the element's number can leave the bounds")
			return k.app("rIndex", rt, v, a[1]), true
		case "Len":
			return k.lenOf(v), true
		case "Slice":
			lo, hi := k.e.linOf(a[1]), k.e.linOf(a[2])
			l := k.e.linOf(k.lenOf(v))
			ok := k.ge0(lo) && k.ge0(hi.add(lo, -1)) && k.ge0(l.add(hi, -1))
			need(ok, "bounds", "Value."+m, "a part can leave the bounds of the value")
			return k.app("rSlice", rt, v, a[1], a[2]), true
		case "Convert":
			return k.app("rConv", rt, v, k.canon0(a[1])), true
		case "CanSet":
			if k.canSet(v) {
				return k.e.T.Bool(true), true
			}
			return k.app("rCanSet", rt, v), true
		case "CanInt", "CanUint", "CanFloat", "CanComplex":
			return k.e.T.App("rCanK", m, rt, v), true
		case "CanInterface":
			return k.app("rCanIface", rt, v), true
		case "CanAddr":
			return k.app("rCanAddr", rt, v), true
		case "IsValid":
			if k.valid(v) {
				return k.e.T.Bool(true), true
			}
			return k.app("rIsValid", rt, v), true
		case "IsNil":
			if k.nonNil(v) {
				return k.e.T.Bool(false), true
			}
			return k.app("rIsNil", rt, v), true
		case "Interface":
			need(k.canIface(v), "exported", "Value."+m, "the value can belong to a field that is not exported: "+v.String())
			return k.app("rIface", rt, v), true
		case "Addr":
			need(k.canAddr(v), "addressable", "Value."+m, "the value need not have an address: "+v.String())
			return k.app("rAddr", rt, v), true
		case "Set":
			u := a[1]
			need(k.valid(u), "valid", "Value."+m+" of", "the value to set can be missing: "+u.String())
			to, from := k.app("rT", nil, v), k.app("rT", nil, u)
			need(k.sameType(to, from) || k.typeKinds(to)&^kindsOf(kInterface) == 0, "type", "Value."+m, "a value of type "+k.canon0(from).String()+" need not be assignable to "+k.canon0(to).String())
			if k.nonNil(u) {
				x.st.cl["nn:"+v.String()] = k.e.T.Nil()
			} else {
				delete(x.st.cl, "nn:"+v.String())
			}
		}
		return nil, false
	}
	elemOK := func(list *Term, e *Term) bool {
		et := k.app("rElemT", nil, k.app("rT", nil, list))
		return k.sameType(et, k.app("rT", nil, e)) || k.typeKinds(et)&^kindsOf(kInterface) == 0
	}
	switch c.Name {
	case "reflect.TypeOf":
		if a[0].op == "iface" {
			return k.constT(a[0].typ), true
		}
		return k.app("rT", rt, k.app("rVal", nil, a[0])), true
	case "reflect.ValueOf":
		return k.app("rVal", rt, a[0]), true
	case "reflect.New", "reflect.Zero":
		need(k.typeNonNil(a[0]), "type", c.Name, "the type can be missing")
		return k.app("r"+strings.TrimPrefix(c.Name, "reflect."), rt, k.canon0(a[0])), true
	case "reflect.PtrTo", "reflect.PointerTo":
		return k.app("rPtrT", rt, k.canon0(a[0])), true
	case "reflect.Indirect":
		switch s := k.valueKinds(a[0]); {
		case s&^kindsOf(kPointer) == 0:
			return k.app("rElem", rt, a[0]), true
		case s&kindsOf(kPointer) == 0:
			return a[0], true
		}
	case "reflect.MakeSlice":
		s := k.typeKinds(a[0])
		need(s&^kindsOf(kSlice) == 0, "kind", c.Name, "applied to a type that can be of kind "+(s&^kindsOf(kSlice)).String())
		need(k.ge0(k.e.linOf(a[1])) && k.ge0(k.e.linOf(a[2]).add(k.e.linOf(a[1]), -1)), "bounds", c.Name, "the length can be negative or exceed the capacity")
		return k.app("rMake", rt, k.canon0(a[0]), a[1]), true
	case "reflect.AppendSlice":
		return k.app("rApp", rt, a...), true
	case "reflect.Append":
		s := k.valueKinds(a[0])
		need(s&^kindsOf(kSlice) == 0, "kind", c.Name, "applied to a value that can be of kind "+(s&^kindsOf(kSlice)).String())
		if len(a) == 2 {
			if va, ok := x.e.varargs(x, a[1]); ok {
				for _, e := range va {
					need(k.valid(e), "valid", c.Name, "the element can be missing: "+e.String())
					need(elemOK(a[0], e), "type", c.Name, "an element of type "+k.canon0(k.app("rT", nil, e)).String()+" need not fit the list")
				}
			}
		}
		return k.app("rApp", rt, a...), true
	}
	return nil, false
}

func (k *kctx) ge0(l *LinExpr) bool { return k.e.provesGE0(k.st, l) }

func (k *kctx) inBounds(i, n *Term) bool {
	l := k.e.linOf(i)
	return k.ge0(l) && k.ge0(k.e.linOf(n).add(l, -1).add(newLin(1), -1))
}

// lenOf: the length of a value.
func (k *kctx) lenOf(v *Term) *Term {
	switch v.op {
	case "rMake":
		return v.args[1]
	case "rSlice":
		if isInt(v.args[1], 0) {
			return v.args[2]
		}
		return k.e.mkSub(v.args[2], v.args[1], types.Typ[types.Int])
	}
	return k.app("rLen", types.Typ[types.Int], v)
}
