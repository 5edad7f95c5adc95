package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Conversions of text to typed values. A conversion is a call of one of the
// library's parse functions, or of a function of the package from a text to a
// truth value and an error; each is split into success and failure.

// convInfo: the conversion a call performs; text is the index of its text.
func convInfo(x *Ctx, c *CallInfo) (kind string, text int, ok bool) {
	switch c.Name {
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.ParseBool", "strconv.Atoi":
		return strings.TrimPrefix(c.Name, "strconv."), 0, true
	case "time.ParseDuration":
		return "ParseDuration", 0, true
	case "time.Parse":
		return "ParseTime", 1, true
	case "time.ParseInLocation":
		return "ParseTimeIn", 1, true
	}
	if c.Kind == "ini" && c.Fn != nil && isBoolParser(c.Fn) {
		return "bool:" + c.Name, len(c.Args) - 1, true
	}
	return "", 0, false
}

// isBoolParser: a function of the package from a text to a truth value.
func isBoolParser(fn *ssa.Function) bool {
	s := fn.Signature
	if len(fn.Blocks) == 1 { // one that only passes on what another says
		for _, in := range fn.Blocks[0].Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g != fn && g.Pkg == fn.Pkg && isBoolParser(g) {
					return false
				}
			}
		}
	}
	return s.Params().Len() == 1 && isStringType(s.Params().At(0).Type()) && s.Results().Len() == 2 &&
		isBoolType(s.Results().At(0).Type()) && isErrType(s.Results().At(1).Type())
}

// zeroOnError: the conversion's value is the zero value when it fails.
func zeroOnError(kind string) bool {
	switch kind {
	case "ParseInt", "ParseUint", "ParseFloat", "Atoi":
		return false
	}
	return true
}

// convResults: the two outcomes of a conversion.
func convResults(x *Ctx, c *CallInfo, kind string) (ok, bad *Term) {
	vt := c.Sig.Results().At(0).Type()
	ok = x.e.T.App("conv", kind, vt, c.Args...)
	if zeroOnError(kind) {
		bad = x.e.zero(vt)
	} else {
		bad = x.e.T.App("badval", kind, vt, c.Args...)
	}
	return
}

func clStr(st *State, k string) string {
	if t := st.cl[k]; t != nil {
		return t.aux
	}
	return ""
}

// stripConv removes conversions that keep the value.
func stripConv(t *Term) *Term {
	for t.op == "changetype" || t.op == "iface" || t.op == "changeiface" {
		t = t.args[0]
	}
	return t
}

// stringRoots: the texts a string term is made of.
func badText(t *Term, deny func(*Term) bool) bool {
	if deny(t) {
		return true
	}
	for _, a := range t.args {
		if badText(a, deny) {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------- T02

func init() { checks["T02"] = checkT02 }

func keyMethods(p *Prog, pick func(f *ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.exportedRoots() {
		if recvName(f) == "Key" && f.Parent() == nil && pick(f) {
			out = append(out, f)
		}
	}
	return out
}

// keyText: reading the key's text is one opaque step, so that the value mapper
// and interpolation do not matter to the rules about conversions.
func keyText(x *Ctx, c *CallInfo) ([]CallRes, bool) {
	if c.Kind != "ini" || c.Fn == nil || c.Fn.Parent() != nil {
		return nil, false
	}
	s := c.Sig
	if s.Results().Len() != 1 || !isStringType(s.Results().At(0).Type()) || len(x.e.fnInfo(c.Fn).loops) == 0 && !callsItself(c.Fn) {
		return nil, false
	}
	return []CallRes{{x.st, []*Term{x.e.T.App("expand", "", types.Typ[types.String], c.Args...)}}}, true
}

func callsItself(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

func fullHooks() *Hooks { return &Hooks{JoinCap: 24, ExitCap: 64, FactCap: 24} }

func checkT02(p *Prog, r *Rep) {
	r.rule("each conversion in a defaulted read is split into success and failure; on success the result is the converted value and nothing is stored; on failure with a default given the result is that default and the key's value becomes its text in the notation of the type; on failure without one the result is the zero value and nothing is stored")
	r.need("converted", 8)
	r.need("default", 8)
	r.need("zero", 6)
	r.assumes("the key belongs to a file", "formatting and parsing of the standard library agree (strconv, time, fmt)")
	roots := keyMethods(p, func(f *ssa.Function) bool {
		return strings.HasPrefix(f.Name(), "Must") && f.Signature.Results().Len() == 1
	})
	r.run(roots, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
		h := fullHooks()
		h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
			if kind, ti, ok := convInfo(x, c); ok {
				good, bad := convResults(x, c, kind)
				st2 := x.st.clone()
				x.st.cl["conv"] = x.e.T.App("v", "ok", nil, good)
				st2.cl["conv"] = x.e.T.App("v", "fail", nil, good)
				r.obx(x, !badText(c.Args[ti], notKeyText), "text", fnName(fn)+": "+c.Name, "converts something other than the key's value")
				return []CallRes{{x.st, []*Term{good, x.e.T.Nil()}}, {st2, []*Term{bad, failErr(x, "conv")}}}, true
			}
			return keyText(x, c)
		}
		h.Branch = func(x *Ctx, cond *Term, taken bool) bool {
			if x.fr.parent == nil && saysEmpty(cond, taken) {
				x.st.cl["empty"] = x.e.T.Nil()
			}
			return true
		}
		h.Store = func(x *Ctx, loc, val *Term) {
			f := storageLoc(x, loc)
			switch f {
			case "":
			case "Section.keysHash":
			case "Key.value":
				if root := rootOf(loc); root.op == "sym" && root.in == nil {
					x.st.cl["store"] = val
				} else {
					x.st.cl["other"] = x.e.T.App("v", "another key's value", nil)
				}
			default:
				x.st.cl["other"] = x.e.T.App("v", f, nil)
			}
		}
		h.RootExit = func(x *Ctx, ex *Exit) { t02Exit(x, r, fn, ex) }
		return h, nil
	})
	// functions from text to truth values give no value with an error
	var bp []*ssa.Function
	for _, f := range p.funcs {
		if isBoolParser(f) && f.Parent() == nil && len(f.Blocks) > 0 {
			bp = append(bp, f)
		}
	}
	r.run(bp, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
		h := fullHooks()
		h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
			if kind, _, ok := convInfo(x, c); ok {
				good, bad := convResults(x, c, kind)
				st2 := x.st.clone()
				return []CallRes{{x.st, []*Term{good, x.e.T.Nil()}}, {st2, []*Term{bad, failErr(x, "conv")}}}, true
			}
			return nil, false
		}
		h.RootExit = func(x *Ctx, ex *Exit) {
			v, er := ex.results[0], ex.results[1]
			if x.e.knownNil(ex.st, er) {
				return
			}
			no := v.isConst() && v.String() == "false" || x.e.evalBool(ex.st, v) == -1
			r.ob(no, "zero", fnName(fn), "return", "a truth value can be returned together with an error", "", ex.ret)
		}
		return h, nil
	})
}

// notKeyText: parts that a key's text is not made of.
func notKeyText(t *Term) bool {
	switch t.op {
	case "const":
		return t.typ != nil && isStringType(t.typ)
	case "init", "hv":
		a := t.args[0]
		return a.op == "&f" && (a.aux == "Key.name" || a.aux == "Key.Comment")
	}
	return false
}

func isZeroTerm(x *Ctx, st *State, t *Term, typ types.Type) bool {
	t = stripConv(t)
	if t.isConst() {
		switch t.String() {
		case "0", "false", `""`:
			return true
		}
		return false
	}
	return t == x.e.zero(typ) || x.e.evalBool(st, x.e.mkEq(t, x.e.zero(typ))) == 1
}

func t02Exit(x *Ctx, r *Rep, fn *ssa.Function, ex *Exit) {
	st := ex.st
	res := ex.results[0]
	rt := fn.Signature.Results().At(0).Type()
	name := fnName(fn)
	if o := clStr(st, "other"); o != "" {
		r.ob(false, "only-value", name, o, "a defaulted read changes more than the key's value", "", ex.ret)
	}
	stored := st.cl["store"]
	if stored == nil && (st.cl["conv"] == nil || st.cl["conv"].aux != "ok") { // it was there already
		for f, pol := range st.facts {
			if !pol || f.op != "eq" || len(f.args) != 2 {
				continue
			}
			for i, a := range f.args {
				if (a.op == "init" || a.op == "hv") && a.args[0].op == "&f" && a.args[0].aux == "Key.value" && !f.args[1-i].isConst() {
					if root := rootOf(a.args[0]); root.op == "sym" && root.in == nil {
						stored = f.args[1-i]
					}
				}
			}
		}
	}
	// the default
	lp := fn.Params[len(fn.Params)-1]
	ps := x.e.T.Sym(x.fr, nil, lp.Name(), lp.Type())
	given := 0
	variadic := fn.Signature.Variadic()
	isDef := func(t *Term) bool {
		t = stripConv(t)
		if !variadic {
			return t == ps
		}
		return (t.op == "init" || t.op == "hv") && t.args[0].op == "&e" && t.args[0].args[0] == ps && isInt(t.args[0].args[1], 0)
	}
	if !variadic {
		given = 1
	} else {
		given = x.e.evalBool(st, x.e.mkGE0(x.e.linOf(x.e.mkLen(ps)).add(newLin(1), -1)))
	}
	if isStringType(rt) {
		def := isDef(res)
		switch {
		case def && stored == nil:
			r.ob(false, "default", name, "stored", "the default is returned but not stored", "", ex.ret)
		case stored != nil:
			r.ob(isDef(stored) && def, "default", name, "stored", "what is stored is not the default that is returned", "", ex.ret)
			empty := st.cl["empty"] != nil
			for f, pol := range st.facts {
				empty = empty || saysEmpty(f, pol)
			}
			r.ob(empty, "default", name, "only when empty", "the default is used without looking at the value", "", ex.ret)
		default:
			r.ob(!badText(res, notKeyText) && !res.isConst(), "converted", name, "result", "the result is not the key's value", "", ex.ret)
			ne := x.e.evalBool(st, x.e.mkEq(res, x.e.T.Str(""))) == -1 || x.e.evalBool(st, x.e.mkGE0(x.e.linOf(x.e.mkLen(res)).add(newLin(1), -1))) == 1
			r.ob(ne, "converted", name, "not empty", "an empty value can be returned instead of the default", "", ex.ret)
		}
		return
	}
	cv := st.cl["conv"]
	if cv == nil {
		r.ob(false, "converted", name, "no conversion", "a path returns without converting the key's value", "", ex.ret)
		return
	}
	switch {
	case cv.aux == "ok":
		r.ob(stripConv(res) == stripConv(cv.args[0]), "converted", name, "result", "the value converts but the result is something else", "", ex.ret)
		r.ob(stored == nil, "converted", name, "nothing stored", "the value converts but something is stored", "", ex.ret)
	case given == 1:
		r.ob(isDef(res), "default", name, "result", "a default is given and the value does not convert, but the default is not returned", "", ex.ret)
		if stored == nil {
			r.ob(false, "default", name, "stored", "the default is returned but not stored", "", ex.ret)
			return
		}
		why := notTextOf(x, stored, isDef, rt, cv.args[0])
		r.ob(why == "", "default", name, "stored", "what is stored is not the default's text: "+why, "", ex.ret)
	case given == -1:
		r.ob(isZeroTerm(x, st, res, rt), "zero", name, "result", "no default is given and the value does not convert, but the result is not the zero value", "", ex.ret)
		r.ob(stored == nil, "zero", name, "nothing stored", "no default is given but something is stored", "", ex.ret)
	default:
		r.ob(false, "default", name, "looked at", "the value does not convert but whether a default is given is not looked at", "", ex.ret)
	}
}

func saysEmpty(f *Term, pol bool) bool {
	return pol && f.op == "eq" && (isEmptyStr(f.args[1]) || isLenEq0(f)) || f.op == "ge0"
}

func isLenEq0(f *Term) bool {
	return f.args[1].isConst() && f.args[1].String() == "0"
}

func isInt(t *Term, n int64) bool {
	k, ok := constInt(t)
	return ok && k == n
}

// notTextOf: why a text is not the default's in the notation of the type.
func notTextOf(x *Ctx, t *Term, isDef func(*Term) bool, typ types.Type, conv *Term) string {
	for t.op == "slice" || t.op == "bytes2str" {
		t = t.args[0]
	}
	if t.op != "call" {
		return "no formatting of the default"
	}
	arg := func(i int) *Term {
		if i < len(t.args) {
			return t.args[i]
		}
		return x.e.T.Nil()
	}
	ts := typeShort(typ)
	b, _ := typ.Underlying().(*types.Basic)
	unsigned := b != nil && b.Info()&types.IsUnsigned != 0
	switch t.aux {
	case "strconv.FormatBool":
		if isDef(arg(0)) {
			return ""
		}
	case "strconv.FormatInt", "strconv.FormatUint", "strconv.Itoa":
		if ts == "time.Duration" {
			return "not in the notation of durations"
		}
	}
	switch t.aux {
	case "strconv.FormatInt":
		if isDef(arg(0)) && isInt(arg(1), 10) && !unsigned {
			return ""
		}
		return "not in base ten"
	case "strconv.FormatUint":
		if isDef(arg(0)) && isInt(arg(1), 10) && unsigned {
			return ""
		}
		return "not in base ten, or signed"
	case "strconv.Itoa":
		if isDef(arg(0)) && !unsigned {
			return ""
		}
	case "strconv.FormatFloat":
		if isDef(arg(0)) && isInt(arg(2), -1) && isInt(arg(3), 64) && !isInt(arg(1), 'b') && !isInt(arg(1), 'x') && !isInt(arg(1), 'X') {
			return ""
		}
		return "not all digits of a 64-bit float"
	case "(time.Duration).String":
		if isDef(arg(0)) {
			return ""
		}
	case "(time.Time).Format":
		if isDef(arg(0)) && conv.aux == "ParseTime" && arg(1) == conv.args[0] {
			return ""
		}
		return "not in the layout that is read"
	case "fmt.Sprint":
		if len(t.args) == 1 && t.args[0].op == "arr" && len(t.args[0].args) == 1 && isDef(t.args[0].args[0]) && ts != "time.Time" {
			return ""
		}
	case "fmt.Sprintf":
		if len(t.args) == 2 && t.args[1].op == "arr" && len(t.args[1].args) == 1 && isDef(t.args[1].args[0]) && ts != "time.Time" {
			switch f := strings.Trim(t.args[0].String(), `"`); f {
			case "%v", "%t", "%s":
				return ""
			case "%d":
				if b != nil && ts != "time.Duration" {
					return ""
				}
			}
		}
	}
	return "unexpected formatting " + t.aux
}
