package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/go-ini/ini.", "")
	s = strings.ReplaceAll(s, "github.com/go-ini/ini", "ini")
	return s
}

func (e *Eng) inPkg(fn *ssa.Function) bool {
	if e.P.in(fn) {
		return true
	}
	if fn.Origin() != nil {
		return false
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		// wrappers and bound methods of ini types
		if o := fn.Object(); o != nil && o.Pkg() == e.pkg.Pkg {
			return true
		}
		if strings.Contains(fn.String(), e.pkg.Pkg.Path()) {
			return true
		}
	}
	return false
}

func (e *Eng) recursive(fr *Frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// call evaluates a call and binds its results with bind.
func (e *Eng) call(x *Ctx, c *ssa.CallCommon, bind func(*State, []*Term)) []*State {
	e.callsSeen[x.in] = true
	var args []*Term
	for _, a := range c.Args {
		args = append(args, x.val(a))
	}
	if c.IsInvoke() {
		return e.invoke(x, x.val(c.Value), c.Method, args, c, bind)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(x, b, args, c, bind)
	}
	return e.callTerm(x, x.val(c.Value), args, c, bind)
}

func (e *Eng) callTerm(x *Ctx, f *Term, args []*Term, c *ssa.CallCommon, bind func(*State, []*Term)) []*State {
	sig := c.Signature()
	switch f.op {
	case "func":
		return e.callFn(x, f.fn, args, nil, c, sig, bind)
	case "closure":
		return e.callFn(x, f.fn, args, f.args, c, sig, bind)
	}
	ci := &CallInfo{Name: "dynamic", FnTerm: f, Args: args, Sig: sig, Common: c, Kind: "dyn"}
	return e.external(x, ci, bind)
}

func (e *Eng) invoke(x *Ctx, recv *Term, m *types.Func, args []*Term, c *ssa.CallCommon, bind func(*State, []*Term)) []*State {
	if recv.op == "iface" {
		if fn := e.prog.LookupMethod(recv.typ, m.Pkg(), m.Name()); fn != nil {
			return e.callFn(x, fn, append([]*Term{recv.args[0]}, args...), nil, c, fn.Signature, bind)
		}
	}
	it := m.Type().(*types.Signature).Recv().Type()
	name := "(" + typeShort(it) + ")." + m.Name()
	if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() == e.pkg.Pkg && !n.Obj().Exported() {
		// package-private interface: all implementors are known
		var out []*State
		for _, t := range e.P.implementors(it.Underlying().(*types.Interface)) {
			fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
			if fn == nil {
				continue
			}
			st := x.st.clone()
			if !e.assume(st, e.T.App("istype", typeShort(t), types.Typ[types.Bool], recv), true) {
				continue
			}
			y := &Ctx{e, x.fr, st, x.in}
			ra := e.T.App("typeassert", typeShort(t), t, recv)
			out = append(out, e.callFn(y, fn, append([]*Term{ra}, args...), nil, c, fn.Signature, bind)...)
		}
		if len(out) > 0 {
			return out
		}
	}
	ci := &CallInfo{Name: name, Args: append([]*Term{recv}, args...), Sig: m.Type().(*types.Signature), Common: c, Kind: "iface"}
	return e.external(x, ci, bind)
}

func (e *Eng) callFn(x *Ctx, fn *ssa.Function, args, binds []*Term, c *ssa.CallCommon, sig *types.Signature, bind func(*State, []*Term)) []*State {
	ci := &CallInfo{Name: fn.String(), Fn: fn, Args: args, Sig: sig, Common: c, Kind: "lib"}
	if e.inPkg(fn) && len(fn.Blocks) > 0 {
		ci.Name = fnName(fn)
		ci.Kind = "ini"
		ci.Recursive = e.recursive(x.fr, fn)
		if e.H.Call != nil {
			if rs, ok := e.H.Call(x, ci); ok {
				return e.finish(x, ci, rs, bind)
			}
		}
		if e.modular(x, ci) {
			return e.modCall(x, ci, bind)
		}
		if ci.Recursive {
			e.havocMods(x, fn)
			return e.finish(x, ci, []CallRes{{x.st, nil}}, bind)
		}
		return e.inline(x, fn, args, binds, ci, bind)
	}
	if o := fn.Origin(); o != nil {
		ci.Name = o.String()
	}
	// methods of the library used as functions
	if n := strings.TrimSuffix(ci.Name, "$thunk"); n != ci.Name {
		ci.Name = n
	} else if n := strings.TrimSuffix(ci.Name, "$bound"); n != ci.Name && len(binds) == 1 {
		ci.Name = n
		ci.Args = append([]*Term{binds[0]}, args...)
	}
	return e.external(x, ci, bind)
}

func (e *Eng) inline(x *Ctx, fn *ssa.Function, args, binds []*Term, ci *CallInfo, bind func(*State, []*Term)) []*State {
	cf := e.frame(x.fr, x.in, fn)
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			env[p] = binds[i]
		}
	}
	callerEnv := x.st.env
	callerDefers := x.st.defers
	live := map[*Term]bool{}
	for _, t := range callerEnv {
		for _, s := range t.syms {
			live[s] = true
		}
	}
	for _, d := range callerDefers {
		for _, s := range d.fn.syms {
			live[s] = true
		}
		for _, a := range d.args {
			for _, s := range a.syms {
				live[s] = true
			}
		}
	}
	x.st.env = env
	x.st.defers = nil
	e.roots = append(e.roots, live)
	if e.H.Enter != nil {
		e.H.Enter(&Ctx{e, cf, x.st, x.in}, ci)
	}
	var mk string
	for _, p := range fn.Params {
		if t := env[p]; t != nil {
			mk += fmt.Sprint(t.id, ",")
		}
	}
	for _, p := range fn.FreeVars {
		if t := env[p]; t != nil {
			mk += fmt.Sprint(t.id, ",")
		}
	}
	mk = fmt.Sprint(cf.id, "|", mk, "|", x.st.clKey(), "|", x.st.memKey(), "|", x.st.factKey())
	cached, hit := e.memo[mk]
	var exits []*Exit
	if hit {
		for _, c := range cached {
			exits = append(exits, &Exit{c.st.clone(), c.results, c.ret})
		}
		e.nMemo++
	} else {
		exits = e.exec(cf, x.st)
		for _, c := range exits {
			cached = append(cached, &Exit{c.st.clone(), c.results, c.ret})
		}
		e.memo[mk] = cached
	}
	e.roots = e.roots[:len(e.roots)-1]
	var out []*State
	for _, ex := range exits {
		s := ex.st
		s.env = make(map[ssa.Value]*Term, len(callerEnv)+1)
		for k, v := range callerEnv {
			s.env[k] = v
		}
		s.defers = append([]deferRec(nil), callerDefers...)
		if e.H.Leave != nil {
			e.H.Leave(&Ctx{e, x.fr, s, x.in}, cf, ci, ex.results)
		}
		if bind != nil {
			bind(s, ex.results)
		}
		out = append(out, s)
	}
	return out
}

// finish completes partial results with fresh values.
func (e *Eng) finish(x *Ctx, ci *CallInfo, rs []CallRes, bind func(*State, []*Term)) []*State {
	var out []*State
	n := ci.Sig.Results().Len()
	for _, r := range rs {
		res := make([]*Term, n)
		for i := 0; i < n; i++ {
			if i < len(r.res) && r.res[i] != nil {
				res[i] = r.res[i]
			} else {
				res[i] = e.T.Sym(x.fr, x.in, fmt.Sprintf("r%d:%s", i, ci.Name), ci.Sig.Results().At(i).Type())
			}
		}
		if bind != nil {
			bind(r.st, res)
		}
		out = append(out, r.st)
	}
	return out
}

// varargs expands the elements of a variadic argument when they are known.
func (e *Eng) varargs(x *Ctx, t *Term) ([]*Term, bool) {
	if t.isNil() {
		return nil, true
	}
	if t.op == "arr" {
		return t.args, true
	}
	if t.op == "slice" && t.args[0].op == "alloc" {
		n, ok := constInt(t.args[2])
		if !ok || n > 16 {
			return nil, false
		}
		at, ok := deref(t.args[0].typ).Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		var out []*Term
		for i := int64(0); i < n; i++ {
			l := e.elemAddr(t.args[0], e.T.Int(i), types.NewPointer(at.Elem()))
			out = append(out, e.peek(x, l, at.Elem()))
		}
		return out, true
	}
	return nil, false
}

func (e *Eng) external(x *Ctx, ci *CallInfo, bind func(*State, []*Term)) []*State {
	if ci.Sig.Variadic() && len(ci.Args) > 0 {
		if va, ok := e.varargs(x, ci.Args[len(ci.Args)-1]); ok {
			at := ci.Sig.Params().At(ci.Sig.Params().Len() - 1).Type()
			ci.Args = append(append([]*Term(nil), ci.Args[:len(ci.Args)-1]...), e.T.App("arr", "", at, va...))
		}
	}
	if e.H.Call != nil {
		if rs, ok := e.H.Call(x, ci); ok {
			return e.finish(x, ci, rs, bind)
		}
	}
	n := ci.Sig.Results().Len()
	switch libKind(ci) {
	case "pure":
		// functions passed along are part of the operation
		var res []*Term
		for i := 0; i < n; i++ {
			nm := ci.Name
			if i > 0 || n > 1 {
				nm = fmt.Sprintf("%s#%d", ci.Name, i)
			}
			res = append(res, e.T.App("call", nm, ci.Sig.Results().At(i).Type(), ci.Args...))
		}
		return e.finish(x, ci, []CallRes{{x.st, res}}, bind)
	case "mapper", "opaque":
		e.libEffects(x, ci)
		return e.finish(x, ci, []CallRes{{x.st, nil}}, bind)
	}
	// unknown code
	e.havoc(x)
	return e.finish(x, ci, []CallRes{{x.st, nil}}, bind)
}

// libEffects: library code may write through the slices and pointers it gets.
func (e *Eng) libEffects(x *Ctx, ci *CallInfo) {
	switch ci.Name {
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "bytes.NewBuffer", "bytes.NewReader", "io/ioutil.WriteFile", "os.WriteFile", "io.Copy":
		return
	}
	for _, a := range ci.Args {
		if a.typ == nil {
			continue
		}
		if s, ok := a.typ.Underlying().(*types.Slice); ok && a.op != "arr" {
			reg := "e:" + typeShort(s.Elem())
			for l := range x.st.mem {
				if regionOf(l) == reg {
					delete(x.st.mem, l)
				}
			}
			d := e.T.Sym(x.fr, x.in, "lib:"+reg, nil)
			for _, c := range []string{"i:", "n:", "w:"} {
				x.st.dirty[c+reg] = d
			}
		}
	}
}

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "errors.", "path.", "path/filepath.", "math.", "regexp.", "(*regexp.Regexp).", "sort.Search",
	"(time.Time).", "(time.Duration).", "time.Parse", "time.ParseDuration", "(reflect.Type).", "(*reflect.rtype).", "reflect.TypeOf", "reflect.ValueOf", "(reflect.Kind).", "(reflect.StructTag).", "reflect.New", "reflect.Zero", "reflect.MakeSlice", "reflect.Indirect", "reflect.PtrTo", "reflect.PointerTo", "reflect.SliceOf", "reflect.DeepEqual",
	"fmt.Sprint", "fmt.Errorf", "bytes.", "os.IsNotExist", "os.IsExist", "os.IsPermission", "(error).Error", "(fmt.Stringer).String", "runtime.", "slices.", "maps.", "cmp."}

var impureIn = map[string]bool{"bytes.NewBuffer": true, "bytes.NewReader": true, "bytes.NewBufferString": true, "strings.NewReader": true, "reflect.New": true, "slices.Sort": true, "sort.Strings": true}

func libKind(ci *CallInfo) string {
	n := ci.Name
	if ci.Kind == "dyn" {
		if isMapperSig(ci.Sig) {
			return "mapper"
		}
		return "unknown"
	}
	if impureIn[n] {
		return "opaque"
	}
	if strings.HasPrefix(n, "(reflect.Value).") {
		m := strings.TrimPrefix(n, "(reflect.Value).")
		if strings.HasPrefix(m, "Set") || m == "Call" || m == "Send" || m == "Recv" {
			return "opaque"
		}
		switch m {
		case "Kind", "Type", "NumField", "CanSet", "CanInterface", "Elem", "Field", "IsNil", "Index", "Slice", "Len", "IsValid", "CanAddr", "Addr", "Interface", "Bool", "Int", "Uint", "Float", "String", "IsZero", "Convert", "FieldByName", "Pointer", "OverflowInt", "OverflowUint", "OverflowFloat", "CanConvert":
			return "pure"
		}
		return "opaque"
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return "pure"
		}
	}
	if ci.Kind == "lib" {
		return "opaque"
	}
	// interface methods of library types
	if strings.HasPrefix(n, "(io.") || strings.HasPrefix(n, "(sync.") || strings.HasPrefix(n, "(fmt.") || strings.HasPrefix(n, "(reflect.") || strings.HasPrefix(n, "(os.") {
		return "opaque"
	}
	return "unknown"
}

// isMapperSig: func(string) string and func(string): name mappers, value
// mappers, validators and debug functions.
func isMapperSig(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		if !isStringType(s.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < s.Results().Len(); i++ {
		t := s.Results().At(i).Type()
		if !isStringType(t) && !isBoolType(t) {
			return false
		}
	}
	return true
}

func (e *Eng) builtin(x *Ctx, b *ssa.Builtin, args []*Term, c *ssa.CallCommon, bind func(*State, []*Term)) []*State {
	var res *Term
	var rt types.Type
	if i, ok := x.in.(ssa.Value); ok {
		rt = i.Type()
	}
	switch b.Name() {
	case "len":
		if p, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			_ = p
			res = e.T.App("maplen", "", rt, args[0], x.st.epochOf(e, "m:"+typeShort(c.Args[0].Type())))
		} else {
			res = e.mkLen(args[0])
		}
	case "cap":
		res = e.mkCap(args[0])
	case "append":
		base := args[0]
		tail := e.T.Nil()
		if len(args) > 1 {
			tail = args[1]
			if va, ok := e.varargs(x, tail); ok {
				tail = e.T.App("arr", "", rt, va...)
			}
		}
		if tail.op == "arr" && len(tail.args) == 0 || tail.isNil() {
			res = base
			break
		}
		res = e.T.App("append", "", rt, base, tail)
		if e.H.Append != nil {
			e.H.Append(x, base, tail, res)
		}
	case "copy":
		if e.H.Copy != nil {
			e.H.Copy(x, args[0], args[1])
		}
		if e.H.Store != nil {
			e.H.Store(x, e.T.App("&e", typeShort(elemType(c.Args[0].Type())), types.NewPointer(elemType(c.Args[0].Type())), args[0], e.T.App("anyidx", "", types.Typ[types.Int])), args[1])
		}
		ci := &CallInfo{Name: "copy", Args: args[:1], Sig: c.Signature()}
		e.libEffects(x, ci)
		res = x.fresh("copied", types.Typ[types.Int])
	case "delete":
		mt := c.Args[0].Type()
		loc := e.mapLoc(args[0], args[1], mt, "&m")
		if e.H.MapDelete != nil {
			e.H.MapDelete(x, loc)
		}
		e.poke(x, loc, e.zero(mt.Underlying().(*types.Map).Elem()))
		v := x.st.mem[loc]
		e.poke(x, e.mapLoc(args[0], args[1], mt, "&mok"), e.T.Bool(false))
		x.st.mem[loc] = v
	case "panic":
		return nil
	case "min", "max":
		res = x.fresh(b.Name(), rt)
		if isSignedInt(rt) {
			for _, a := range args {
				if b.Name() == "min" {
					e.addFact(x.st, e.mkGE0(e.linOf(a).add(e.linOf(res), -1)), true)
				} else {
					e.addFact(x.st, e.mkGE0(e.linOf(res).add(e.linOf(a), -1)), true)
				}
			}
		}
	case "ssa:wrapnilchk":
		res = args[0]
	case "print", "println", "clear", "close":
		if b.Name() == "clear" {
			op := "&e"
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				op = "&m"
			}
			if e.H.MapDelete != nil {
				e.H.MapDelete(x, e.T.App(op, "", nil, args[0], e.T.App("anyidx", "", types.Typ[types.Int])))
			}
			e.havoc(x)
		}
	default:
		if rt != nil {
			res = x.fresh(b.Name(), rt)
		}
	}
	if bind != nil {
		if res != nil {
			bind(x.st, []*Term{res})
		} else {
			bind(x.st, nil)
		}
	}
	return []*State{x.st}
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return types.Typ[types.Uint8]
}

// epochOf is a term that changes whenever a region may have been written.
func (s *State) epochOf(e *Eng, reg string) *Term {
	var ks []string
	for k := range s.dirty {
		if strings.HasSuffix(k, ":"+reg) || k == "*" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var as []*Term
	for _, k := range ks {
		as = append(as, s.dirty[k])
	}
	return e.T.App("epoch", reg, nil, as...)
}

func (e *Eng) runDefers(x *Ctx) []*State {
	states := []*State{x.st}
	for {
		var next []*State
		any := false
		for _, s := range states {
			if len(s.defers) == 0 {
				next = append(next, s)
				continue
			}
			any = true
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			y := &Ctx{e, x.fr, s, d.in}
			c := &d.in.Call
			if c.IsInvoke() {
				next = append(next, e.invoke(y, d.fn, c.Method, d.args, c, nil)...)
			} else if b, ok := c.Value.(*ssa.Builtin); ok {
				next = append(next, e.builtin(y, b, d.args, c, nil)...)
			} else {
				next = append(next, e.callTerm(y, d.fn, d.args, c, nil)...)
			}
		}
		states = next
		if !any {
			return states
		}
	}
}

// havocMods forgets the regions fn may write.
func (e *Eng) havocMods(x *Ctx, fn *ssa.Function) {
	m := e.P.mods(fn)
	if m["*"] {
		e.havoc(x)
		return
	}
	for l := range x.st.mem {
		if m[regionOf(l)] && !e.immune(l, rootOf(l)) {
			delete(x.st.mem, l)
		}
	}
	var rs []string
	for r := range m {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	for _, r := range rs {
		d := e.T.Sym(x.fr, x.in, "rec:"+r, nil)
		x.st.dirty["i:"+r] = d
		x.st.dirty["n:"+r] = d
		x.st.dirty["w:"+r] = d
	}
}
