package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Rule G01: opt-in behaviour only when opted in.

func init() { checks["G01"] = checkG01 }

// optIn: one option and the effect it guards.
type optIn struct {
	opt    string
	what   string
	load   bool // only loading is restricted
	isList bool
	effect func(x *Ctx, loc, val *Term) bool
	call   func(x *Ctx, c *CallInfo) bool
}

// storesTo: a store of something other than the zero value to a field of an
// object of the library.
func storesTo(f string) func(x *Ctx, loc, val *Term) bool {
	return func(x *Ctx, loc, val *Term) bool {
		return loc.op == "&f" && loc.aux == f && !zeroConst(val) && !emptyList(val) && !copied(val, f)
	}
}

// copied: taken from the same field of another object.
func copied(v *Term, f string) bool {
	switch v.op {
	case "init", "hv":
		return v.args[0].op == "&f" && v.args[0].aux == f
	case "field":
		return strings.HasSuffix(f, "."+v.aux) || v.aux == f
	case "sym":
		u, ok := v.in.(*ssa.UnOp)
		return ok && (fieldRead(u) == f || typeShort(u.Type()) == f[:strings.Index(f, ".")])
	}
	return false
}

func emptyList(v *Term) bool { return v.op == "slice" && isInt(v.args[2], 0) }

// replaces: a replacement of one of some constant texts.
func replaces(s ...string) func(x *Ctx, c *CallInfo) bool {
	return func(x *Ctx, c *CallInfo) bool {
		switch c.Name {
		case "strings.Replace", "strings.ReplaceAll", "strings.NewReplacer", "bytes.Replace", "bytes.ReplaceAll":
		default:
			return false
		}
		for _, a := range c.Args {
			for _, b := range append([]*Term{a}, a.args...) {
				if t, ok := constStr(stripConv(b)); ok {
					for _, w := range s {
						if t == w {
							return true
						}
					}
				}
			}
		}
		return false
	}
}

var optIns = []optIn{
	{opt: "AllowShadows", what: "a shadow key is recorded", effect: storesTo("Key.shadows")},
	{opt: "AllowNestedValues", what: "a nested value is recorded", effect: storesTo("Key.nestedValues")},
	{opt: "AllowBooleanKeys", what: "a boolean key is loaded", load: true, effect: storesTo("Key.isBooleanType")},
	{opt: "UnparseableSections", what: "a raw section is loaded", load: true, isList: true, effect: func(x *Ctx, loc, val *Term) bool {
		return storesTo("Section.isRawSection")(x, loc, val) || storesTo("Section.rawBody")(x, loc, val)
	}},
	{opt: "UnescapeValueDoubleQuotes", what: "escaped double quotes are replaced", load: true, call: replaces(`\"`)},
	{opt: "AllowPythonMultilineValues", what: "input looked ahead at is consumed as part of a value", load: true, call: func(x *Ctx, c *CallInfo) bool { return c.Name == "(*bufio.Reader).Discard" }},
	{opt: "UnescapeValueCommentSymbols", what: "escaped comment marks are replaced", load: true, call: replaces(`\#`, `\;`)},
}

func checkG01(p *Prog, r *Rep) {
	r.rule("with an option off, the effect it guards is on no path from any operation (shadows, nested values, boolean keys, raw sections, unescaping, case folding); with it on, it is on some path; a section name is listed again, and an equal shadow value kept, only with its option; without short circuit loading ends well only after all sources, with it only the first is opened; an option set by one name is passed on by that name, never changed, and read somewhere; the convenience loaders set only their own option")
	r.need("off", 5)
	r.need("wired", 4)
	r.assumes("options are not changed through the address of a file's options by the program itself")
	var load, all []*ssa.Function
	for _, f := range p.exportedRoots() {
		if setsOptions(f) {
			continue
		}
		all = append(all, f)
		if recvName(f) == "File" && (f.Name() == "Reload" || f.Name() == "Append") {
			load = append(load, f)
		}
	}
	var fs []func()
	for _, o := range optIns {
		o := o
		roots := all
		if o.load {
			roots = load
		}
		fs = append(fs, func() { g01Effect(p, r, o, roots) })
	}
	fs = append(fs, func() { g01Repeat(p, r) }, func() { g01Shadow(p, r) }, func() { g01Reload(p, r, load) }, func() { g01Wiring(p, r) })
	par(fs)
}

// setsOptions: functions that are given options or choose them.
func setsOptions(f *ssa.Function) bool {
	for _, q := range f.Params {
		if strings.HasSuffix(typeShort(q.Type()), "LoadOptions") {
			return true
		}
	}
	return f.Signature.Recv() == nil && f.Signature.Results().Len() > 0 && typeShort(f.Signature.Results().At(0).Type()) == "*File"
}

func optField(p *Prog, name string) types.Type {
	o := p.pkg.Pkg.Scope().Lookup("LoadOptions")
	if o == nil {
		return nil
	}
	s := o.Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func g01Effect(p *Prog, r *Rep, o optIn, roots []*ssa.Function) {
	run := func(on bool) map[string]*Ctx {
		var mu sync.Mutex
		seen := map[string]*Ctx{}
		h := lightHooks()
		h.JoinCap, h.ExitCap, h.FactCap, h.ModNoFacts = 6, 6, 4, true
		h.Modular = func(x *Ctx, c *CallInfo) bool { return !isTinyPredicate(c.Fn) }
		h.Track = func(reg string) bool { return strings.HasSuffix(reg, "."+o.opt) }
		h.HavocKeep = func(f string) bool { return strings.HasSuffix(f, "."+o.opt) }
		h.Init = func(x *Ctx, loc *Term) *Term {
			if loc.op == "&f" && strings.HasSuffix(loc.aux, "."+o.opt) {
				if o.isList {
					if !on {
						return x.e.T.Nil()
					}
					return nil
				}
				return x.e.T.Bool(on)
			}
			return nil
		}
		note := func(x *Ctx) {
			mu.Lock()
			defer mu.Unlock()
			cp := *x
			seen[fnName(x.fr.fn)+": "+r.pos(x.in)] = &cp
		}
		h.Branch = func(x *Ctx, cond *Term, taken bool) bool {
			return !(o.isList && !on && taken && emptyLoop(x))
		}
		h.Store = func(x *Ctx, loc, val *Term) {
			if o.effect != nil && o.effect(x, loc, val) {
				note(x)
			}
		}
		h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
			if o.call != nil && o.call(x, c) {
				note(x)
			}
			switch c.Name {
			case "slices.Contains", "slices.ContainsFunc":
				if c.Args[0].isNil() {
					return []CallRes{{x.st, []*Term{x.e.T.Bool(false)}}}, true
				}
			case "slices.Index", "slices.IndexFunc":
				if c.Args[0].isNil() {
					return []CallRes{{x.st, []*Term{x.e.T.Int(-1)}}}, true
				}
			}
			return nil, false
		}
		r.runModular(h, roots, nil)
		return seen
	}
	off, on := run(false), run(true)
	for w, x := range off {
		r.obx(x, false, "off", w, o.what+" although "+o.opt+" is not set")
	}
	if len(off) == 0 {
		r.ob(true, "off", o.opt, o.what, "", "", nil)
	}
	if len(off) == 0 && len(on) == 0 && g01Exists(p, o) {
		r.ob(false, "on", o.opt, o.what, "nothing has this effect even though "+o.opt+" is set", "", nil)
	} else if len(on) > 0 {
		r.ob(true, "on", o.opt, o.what, "", "", nil)
	}
}

// emptyLoop: the test of a counted loop over nothing.
func emptyLoop(x *Ctx) bool {
	c, ok := x.in.(*ssa.If)
	if !ok {
		return false
	}
	b, ok := c.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS || !isInt(x.val(b.Y), 0) {
		return false
	}
	switch i := b.X.(type) {
	case *ssa.Phi:
		return counts(i, 0)
	case *ssa.BinOp:
		ph, ok := i.X.(*ssa.Phi)
		return ok && i.Op == token.ADD && counts(ph, 1)
	}
	return false
}

// g01Exists: the effect is there in the source at all.
func g01Exists(p *Prog, o optIn) bool { return o.effect != nil }

// g01Repeat: a name enters the list of sections a second time only if repeated
// sections were asked for.
func g01Repeat(p *Prog, r *Rep) {
	var roots []*ssa.Function
	for _, f := range nameRoots(p) {
		if recvName(f) == "File" && strings.HasPrefix(f.Name(), "New") {
			roots = append(roots, f)
		}
	}
	var mu sync.Mutex
	again := false
	var fs []func()
	for _, on := range []bool{false, true} {
		on := on
		fs = append(fs, func() {
			r.run(roots, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
				h := fullHooks()
				h.JoinCap, h.ExitCap, h.FactCap = 12, 24, 12
				h.Init = optValue("AllowNonUniqueSections", on)
				isList := func(x *Ctx, t *Term) bool { return storageVal(x, t) == "File.sectionList" }
				isTab := func(x *Ctx, t *Term) bool { return storageVal(x, t) == "File.sections" }
				absent(h, isList, isTab)
				h.Store = func(x *Ctx, loc, val *Term) {
					if storageLoc(x, loc) != "File.sectionList" || val.op != "append" {
						return
					}
					ok := x.st.cl["absent"] != nil
					if !on {
						r.obx(x, ok, "off", fnName(x.fr.fn)+" section list", "a section name can be listed twice although AllowNonUniqueSections is not set")
					} else if !ok {
						mu.Lock()
						again = true
						mu.Unlock()
					}
				}
				return h, func(*Eng, *Frame, *State) {}
			})
		})
	}
	par(fs)
	r.ob(again, "on", "AllowNonUniqueSections", "repeated sections", "a name is never listed twice even though AllowNonUniqueSections is set", "", nil)
}

// optValue: an option has a known value.
func optValue(name string, on bool) func(x *Ctx, loc *Term) *Term {
	return func(x *Ctx, loc *Term) *Term {
		if loc.op == "&f" && loc.aux == "LoadOptions."+name {
			return x.e.T.Bool(on)
		}
		return nil
	}
}

// absent marks the paths on which a list has been searched to its end, or a
// table found not to have an entry.
func absent(h *Hooks, isList, isTab func(x *Ctx, t *Term) bool) {
	mark := func(x *Ctx) { x.st.cl["absent"] = x.e.T.Bool(true) }
	h.Branch = func(x *Ctx, cond *Term, taken bool) bool {
		if list, hd := exhausted(x, cond, taken); hd != nil {
			if list != nil && isList(x, list) {
				mark(x)
				return true
			}
		}
		c := cond
		for c.op == "not" {
			c, taken = c.args[0], !taken
		}
		if c.op == "contains" && !taken && isList(x, c.args[0]) {
			mark(x)
		}
		for _, t := range subterms(c) {
			switch t.op {
			case "init", "hv":
				if l := t.args[0]; (l.op == "&m" || l.op == "&mok") && isTab(x, l.args[0]) {
					v := l.typ
					if l.op == "&mok" {
						if x.e.evalBool(x.st, t) == -1 {
							mark(x)
						}
					} else if x.e.knownNil(x.st, t) {
						mark(x)
					} else if v != nil && x.e.evalBool(x.st, x.e.mkEq(x.e.mkLen(t), x.e.T.Int(0))) == 1 {
						mark(x)
					}
				}
			case "index-of":
				if isList(x, t.args[0]) && x.e.evalBool(x.st, x.e.mkGE0(x.e.linOf(t))) == -1 {
					mark(x)
				}
			}
		}
		return true
	}
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		switch c.Name {
		case "slices.Contains", "slices.ContainsFunc":
			return []CallRes{{x.st, []*Term{x.e.T.App("contains", "", types.Typ[types.Bool], c.Args...)}}}, true
		case "slices.Index", "slices.IndexFunc":
			return []CallRes{{x.st, []*Term{x.e.T.App("index-of", "", types.Typ[types.Int], c.Args...)}}}, true
		}
		return nil, false
	}
}

func subterms(t *Term) []*Term {
	out := []*Term{t}
	if t.op == "sym" || t.op == "init" || t.op == "hv" {
		return out
	}
	for _, a := range t.args {
		out = append(out, subterms(a)...)
	}
	return out
}

// g01Shadow: an equal shadow value is kept only if that was asked for.
func g01Shadow(p *Prog, r *Rep) {
	var roots []*ssa.Function
	for _, f := range p.exportedRoots() {
		if n := recvName(f); n == "Key" && strings.HasPrefix(f.Name(), "AddShadow") || n == "Section" && f.Name() == "NewKey" {
			roots = append(roots, f)
		}
	}
	var mu sync.Mutex
	again, any := false, false
	var fs []func()
	for _, on := range []bool{false, true} {
		on := on
		fs = append(fs, func() {
			r.run(roots, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
				h := fullHooks()
				h.JoinCap, h.ExitCap, h.FactCap = 12, 24, 12
				h.Init = optValue("AllowDuplicateShadowValues", on)
				val := fn.Params[len(fn.Params)-1]
				isList := func(x *Ctx, t *Term) bool {
					return (t.op == "init" || t.op == "hv") && t.args[0].op == "&f" && t.args[0].aux == "Key.shadows"
				}
				absent(h, isList, func(*Ctx, *Term) bool { return false })
				var name *Term
				h.Store = func(x *Ctx, loc, v *Term) {
					if loc.op != "&f" || loc.aux != "Key.shadows" || v.op != "append" {
						return
					}
					str := types.Typ[types.String]
					own := x.e.peek(x, x.e.fieldAddr(loc.args[0], "Key.value", types.NewPointer(str)), str)
					differs := x.e.evalBool(x.st, x.e.mkEq(own, name)) == -1
					swept := x.st.cl["absent"] != nil || x.e.evalBool(x.st, x.e.mkEq(x.e.mkLen(v.args[0]), x.e.T.Int(0))) == 1
					mu.Lock()
					any = true
					again = again || on && !(differs && swept)
					mu.Unlock()
					if !on {
						r.obx(x, differs, "off", fnName(x.fr.fn)+" own value", "a shadow equal to the key's own value is kept although AllowDuplicateShadowValues is not set")
						r.obx(x, swept, "off", fnName(x.fr.fn)+" other shadows", "a shadow is kept without comparing it with all others although AllowDuplicateShadowValues is not set")
					}
				}
				return h, func(e *Eng, fr *Frame, st *State) { name = e.T.Sym(fr, nil, val.Name(), val.Type()) }
			})
		})
	}
	par(fs)
	if any {
		r.ob(again, "on", "AllowDuplicateShadowValues", "equal shadows", "an equal shadow is never kept even though AllowDuplicateShadowValues is set", "", nil)
	}
}

// g01Reload: whether the sources after the first are loaded.
func g01Reload(p *Prog, r *Rep, load []*ssa.Function) {
	var roots []*ssa.Function
	for _, f := range load {
		if f.Name() == "Reload" {
			roots = append(roots, f)
		}
	}
	var fs []func()
	var mu sync.Mutex
	tolerated := false
	for i := 0; i < 4; i++ {
		on, loose := i&1 != 0, i&2 != 0
		fs = append(fs, func() {
			r.run(roots, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
				h := fullHooks()
				h.Init = func(x *Ctx, loc *Term) *Term {
					if v := optValue("Loose", loose)(x, loc); v != nil {
						return v
					}
					return optValue("ShortCircuit", on)(x, loc)
				}
				absent(h, func(x *Ctx, t *Term) bool { return storageVal(x, t) == "File.dataSources" }, func(*Ctx, *Term) bool { return false })
				lib := h.Call
				h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
					if c.Kind == "ini" && takesReader(c.Sig) {
						ok := x.st.clone()
						bad := x.st.clone()
						res := make([]*Term, c.Sig.Results().Len())
						res2 := append([]*Term(nil), res...)
						for i := range res {
							if isErrType(c.Sig.Results().At(i).Type()) {
								res[i], res2[i] = x.e.T.Nil(), failErr(x, "parse")
							}
						}
						return []CallRes{{ok, res}, {bad, res2}}, true
					}
					if returnsSource(c.Sig) {
						if on && !loose {
							r.obx(x, x.st.cl["opened"] == nil, "off", "next source", "another source is opened after the first one although ShortCircuit is set")
						}
						ok := x.st.clone()
						ok.cl["opened"] = x.e.T.Bool(true)
						bad := x.st.clone()
						bad.cl["missed"] = x.e.T.Bool(true)
						return []CallRes{{ok, []*Term{x.fresh("stream", c.Sig.Results().At(0).Type()), x.e.T.Nil()}}, {bad, []*Term{x.e.T.Nil(), failErr(x, "open")}}}, true
					}
					return lib(x, c)
				}
				h.RootExit = func(x *Ctx, ex *Exit) {
					er := errResult(fn, ex.results)
					if er == nil || !x.e.knownNil(ex.st, er) {
						return
					}
					if ex.st.cl["missed"] != nil && loose {
						mu.Lock()
						tolerated = true
						mu.Unlock()
					}
					if !loose {
						r.ob(ex.st.cl["missed"] == nil, "off", fnName(fn), "missing file", "a source that cannot be opened is tolerated although Loose is not set", "", ex.ret)
					}
					if on {
						r.ob(ex.st.cl["absent"] != nil || ex.st.cl["opened"] != nil, "off", fnName(fn), "missing sources", "loading ends without an error before any source was loaded although more sources follow", "", ex.ret)
						return
					}
					r.ob(ex.st.cl["absent"] != nil, "off", fnName(fn), "remaining sources", "loading ends without an error before all sources are loaded although ShortCircuit is not set", "", ex.ret)
				}
				return h, func(*Eng, *Frame, *State) {}
			})
		})
	}
	par(fs)
	r.ob(tolerated, "on", "Loose", "missing file", "no missing file is tolerated even though Loose is set", "", nil)
}

func takesReader(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		if t := typeShort(s.Params().At(i).Type()); strings.HasPrefix(t, "io.Read") || strings.HasSuffix(t, "bufio.Reader") {
			return true
		}
	}
	return false
}

// g01Wiring: options keep their names on the way, are not changed, and are used.
func g01Wiring(p *Prog, r *Rep) {
	o := p.pkg.Pkg.Scope().Lookup("LoadOptions")
	if o == nil {
		r.ob(false, "wired", "LoadOptions", "type", "the type of the options is not there", "", nil)
		return
	}
	st := o.Type().Underlying().(*types.Struct)
	isOpt := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		isOpt[st.Field(i).Name()] = true
	}
	used := map[string]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					T := deref(fa.X.Type())
					to := T.Underlying().(*types.Struct).Field(fa.Field).Name()
					if typeShort(T) == "LoadOptions" {
						g01Set(p, r, f, in, fa, to)
						continue
					}
					from := optionRead(in.Val)
					if from == "" || !isOpt[to] {
						continue
					}
					r.ob(from == to, "wired", fnName(f), typeShort(T)+"."+to, "the option "+from+" is passed on as "+to, "", in)
				case *ssa.UnOp:
					if fa, ok := in.X.(*ssa.FieldAddr); ok {
						n := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
						if isOpt[n] && !onlyCopied(in, n) {
							used[n] = true
						}
					}
				case *ssa.Field:
					n := in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name()
					if isOpt[n] && !onlyCopied(in, n) {
						used[n] = true
					}
				case *ssa.FieldAddr: // its address is taken
					n := deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field).Name()
					if isOpt[n] {
						for _, ref := range *in.Referrers() {
							switch ref.(type) {
							case *ssa.UnOp, *ssa.Store, *ssa.DebugRef:
							default:
								used[n] = true
							}
						}
					}
				}
			}
		}
	}
	for n := range isOpt {
		r.ob(used[n], "used", "LoadOptions."+n, "option", "the option is read by no code", "", nil)
	}
}

// optionRead: the option a value is read from.
func optionRead(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if f := fieldRead(v); strings.HasPrefix(f, "LoadOptions.") {
			return strings.TrimPrefix(f, "LoadOptions.")
		}
	case *ssa.Field:
		if typeShort(v.X.Type()) == "LoadOptions" {
			return v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name()
		}
	}
	return ""
}

// onlyCopied: a value that is only stored in a field of the same name.
func onlyCopied(v ssa.Value, name string) bool {
	for _, ref := range *v.Referrers() {
		switch ref := ref.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Store:
			if fa, ok := ref.Addr.(*ssa.FieldAddr); ok && ref.Val == v {
				if deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == name {
					continue
				}
			}
		}
		return false
	}
	return true
}

// g01Set: a store to a field of the options.
func g01Set(p *Prog, r *Rep, f *ssa.Function, in *ssa.Store, fa *ssa.FieldAddr, to string) {
	if !types.Identical(in.Val.Type().Underlying(), types.Typ[types.Bool]) {
		return
	}
	root := fa.X
	for {
		if g, ok := root.(*ssa.FieldAddr); ok {
			root = g.X
			continue
		}
		break
	}
	if _, ok := root.(*ssa.Alloc); !ok {
		if q, ok := root.(*ssa.Parameter); !ok || !strings.HasSuffix(typeShort(q.Type()), "LoadOptions") {
			r.ob(false, "fixed", fnName(f), "LoadOptions."+to, "an option of a file is changed after it was set", "", in)
			return
		}
	}
	if c, ok := in.Val.(*ssa.Const); ok {
		want := map[string]string{"LooseLoad": "Loose", "InsensitiveLoad": "Insensitive", "ShadowLoad": "AllowShadows"}[f.Name()]
		ok := want == to && f.Signature.Recv() == nil && c.Value.String() == "true"
		if want == "" && (f.Object() == nil || !f.Object().Exported()) {
			return // a helper
		}
		r.ob(ok, "wired", fnName(f), "LoadOptions."+to, fmt.Sprintf("the option %s is set to %s without being asked for", to, c.Value), "", in)
		return
	}
	if from := optionRead(in.Val); from != "" {
		r.ob(from == to, "wired", fnName(f), "LoadOptions."+to, "the option "+from+" is passed on as "+to, "", in)
	}
}

func zeroConst(v *Term) bool {
	return v.isNil() || isEmptyStr(v) || v.isConst() && v.String() == "false"
}
