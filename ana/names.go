package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Rule N01: names are normalised at every entry point when that was asked for,
// and used as given otherwise.

func init() { checks["N01"] = checkN01 }

// foldCalls: functions that change or ignore the case of a text.
var foldCalls = map[string]bool{"strings.ToLower": true, "strings.ToUpper": true, "strings.ToTitle": true, "strings.Title": true, "strings.ToLowerSpecial": true, "strings.ToUpperSpecial": true, "strings.EqualFold": true, "bytes.ToLower": true, "bytes.ToUpper": true, "bytes.EqualFold": true, "unicode.ToLower": true, "unicode.ToUpper": true, "strings.Map": true}

func hasFold(t *Term) bool {
	return badText(t, func(t *Term) bool { return t.op == "call" && foldCalls[t.aux] })
}

type n01cfg struct {
	all, secs, keys bool // the three options
	empty           bool // the name given is empty
}

func (c n01cfg) String() string {
	return fmt.Sprintf(" (Insensitive=%v InsensitiveSections=%v InsensitiveKeys=%v)", c.all, c.secs, c.keys)
}

type n01 struct {
	r     *Rep
	e     *Eng
	fn    *ssa.Function
	cfg   n01cfg
	name  *Term // the name (or list of names) given
	kind  string
	sites int
	cover func(*ssa.Function)
}

// nameRoots: operations on a file or section that are given a name.
func nameRoots(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.exportedRoots() {
		if n := recvName(f); f.Parent() != nil || n != "File" && n != "Section" {
			continue
		}
		if nameParam(f) == nil {
			continue
		}
		out = append(out, f)
	}
	return out
}

// nameParam: the parameter that is the name of a section or key.
func nameParam(f *ssa.Function) *ssa.Parameter {
	n := f.Name()
	for _, s := range []string{"SaveTo", "WriteTo", "HasValue", "SetBody", "MapTo", "ReflectFrom"} {
		if strings.Contains(n, s) {
			return nil
		}
	}
	for _, q := range f.Params[1:] {
		if isStringType(q.Type()) {
			return q
		}
		if s, ok := q.Type().Underlying().(*types.Slice); ok && isStringType(s.Elem()) {
			return q
		}
	}
	return nil
}

func checkN01(p *Prog, r *Rep) {
	r.rule("for every operation given a section or key name and every combination of the three options: with the option set, whatever indexes a table, is compared with or added to an order list, or becomes the name of a stored object is lower-cased (or was read from there); with it unset it is the name exactly as given; an empty section name stands for DefaultSection in every lookup; no case folding happens while loading unless asked for, and raw sections are recognised without regard to case when it is")
	r.need("lower", 10)
	r.need("as-given", 10)
	r.need("empty", 6)
	r.assumes("DefaultSection is not empty", "what is already in tables and lists was put there by these operations")
	roots := nameRoots(p)
	var fs []func()
	covered := map[*ssa.Function]bool{}
	var mu sync.Mutex
	for _, cfg := range []n01cfg{{}, {all: true}, {secs: true}, {keys: true}, {empty: true}, {all: true, empty: true}} {
		cfg := cfg
		rs := roots
		if cfg.empty {
			rs = nil
			for _, f := range roots {
				if recvName(f) == "File" && !strings.HasPrefix(f.Name(), "New") {
					rs = append(rs, f)
				}
			}
		}
		fs = append(fs, func() {
			r.run(rs, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
				t := &n01{r: r, fn: fn, cfg: cfg, kind: "key"}
				t.cover = func(f *ssa.Function) {
					mu.Lock()
					covered[f] = true
					mu.Unlock()
				}
				if recvName(fn) == "File" {
					t.kind = "section"
				}
				t.cover(fn)
				return t.hooks(), func(e *Eng, fr *Frame, st *State) {
					t.e = e
					q := nameParam(fn)
					t.name = e.T.Sym(fr, nil, q.Name(), q.Type())
					if cfg.empty {
						t.name = e.T.Str("")
						st.env[q] = t.name
					}
				}
			})
		})
	}
	fs = append(fs, func() { n01Load(p, r) })
	par(fs)
	n01Elsewhere(p, r, covered)
}

func (t *n01) opt(field string) (v, ok bool) {
	switch field {
	case "LoadOptions.Insensitive":
		return t.cfg.all, true
	case "LoadOptions.InsensitiveSections":
		return t.cfg.secs, true
	case "LoadOptions.InsensitiveKeys":
		return t.cfg.keys, true
	}
	return false, false
}

func (t *n01) hooks() *Hooks {
	h := fullHooks()
	h.JoinCap, h.ExitCap, h.FactCap = 12, 24, 12
	h.Init = func(x *Ctx, loc *Term) *Term {
		if loc.op == "&f" {
			if v, ok := t.opt(loc.aux); ok {
				return x.e.T.Bool(v)
			}
		}
		return nil
	}
	table := func(x *Ctx, loc *Term) {
		if loc.op != "&m" && loc.op != "&mok" {
			return
		}
		switch storageVal(x, loc.args[0]) {
		case "File.sections":
			t.use(x, "section", loc.args[1], "index of the section table")
		case "Section.keys", "Section.keysHash":
			t.use(x, "key", loc.args[1], "index of a key table")
		}
	}
	h.Enter = func(x *Ctx, c *CallInfo) { t.cover(c.Fn) }
	h.Load = func(x *Ctx, loc, val *Term) { table(x, loc) }
	h.MapDelete = table
	h.Store = func(x *Ctx, loc, val *Term) {
		table(x, loc)
		if loc.op == "&m" && storageVal(x, loc.args[0]) == "Section.keys" {
			t.stored(x, val, "key")
		}
		switch storageLoc(x, loc) {
		case "File.sectionList":
			t.added(x, "section", val)
		case "Section.keyList":
			t.added(x, "key", val)
		}
	}
	h.Append = func(x *Ctx, base, tail, res *Term) {
		if tail.op == "arr" && storageVal(x, base) == "File.sections" {
			for _, v := range tail.args {
				t.stored(x, v, "section")
			}
		}
	}
	h.Branch = func(x *Ctx, cond *Term, taken bool) bool {
		for cond.op == "not" {
			cond = cond.args[0]
		}
		if cond.op != "eq" {
			return true
		}
		a, b := cond.args[0], cond.args[1]
		if t.given(a) {
			a, b = b, a
		}
		if t.given(b) && !t.given(a) && !a.isConst() && !a.isNil() && a.op != "len" && isStringType2(a.typ) && !isGlobal(a) {
			t.use(x, t.kind, b, "comparison with a name")
		}
		return true
	}
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		switch c.Name {
		case "slices.Contains", "slices.Index":
			if len(c.Args) == 2 && t.given(c.Args[1]) {
				t.use(x, t.kind, c.Args[1], "search among the names")
			}
		case "strings.EqualFold":
			if len(c.Args) == 2 && (t.given(c.Args[0]) || t.given(c.Args[1])) {
				t.r.obx(x, t.insensitive(t.kind), "as-given", t.where(x)+" "+c.Name, "a name is compared without regard to case although that was not asked for")
				t.sites++
			}
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			if len(c.Args) == 2 && (c.Args[0].op == "init" || c.Args[0].op == "hv" || c.Args[0].op == "sym") && t.given(c.Args[1]) && !t.given(c.Args[0]) {
				t.use(x, t.kind, c.Args[1], "comparison with a part of a name")
			}
		}
		return nil, false
	}
	h.RootExit = func(x *Ctx, ex *Exit) {}
	return h
}

func isStringType2(t types.Type) bool { return t != nil && isStringType(t) }

// isGlobal: the value of a package-level variable.
func isGlobal(t *Term) bool {
	return (t.op == "init" || t.op == "hv") && t.args[0].op == "&g" || t.op == "gload"
}

func (t *n01) where(x *Ctx) string { return fnName(t.fn) + ": " + fnName(x.fr.fn) }

func (t *n01) insensitive(kind string) bool {
	return t.cfg.all || kind == "section" && t.cfg.secs || kind == "key" && t.cfg.keys
}

// given: the text is made of the name that was given.
func (t *n01) given(v *Term) bool {
	if t.cfg.empty {
		return isEmptyStr(v)
	}
	if t.plain(v) {
		return true
	}
	if v.op == "init" || v.op == "hv" {
		return false
	}
	for _, a := range v.args {
		if t.given(a) {
			return true
		}
	}
	return false
}

// plain: the text is the name that was given itself.
func (t *n01) plain(v *Term) bool {
	if v == t.name {
		return true
	}
	return (v.op == "init" || v.op == "hv") && v.args[0].op == "&e" && v.args[0].args[0] == t.name
}

func isDefaultName(v *Term) bool {
	if v.op == "call" && v.aux == "strings.ToLower" {
		v = v.args[0]
	}
	return (v.op == "init" || v.op == "hv") && v.args[0].op == "&g" && v.args[0].aux == "DefaultSection"
}

// lower: the text contains no upper-case letters if stored names do not.
func (t *n01) lower(v *Term) bool {
	switch v.op {
	case "call":
		if v.aux == "strings.ToLower" {
			return true
		}
		if strings.HasPrefix(v.aux, "strings.Trim") || v.aux == "strings.Clone" {
			return t.lower(v.args[0])
		}
		return false
	case "const":
		s, ok := constStr(v)
		return ok && s == strings.ToLower(s)
	case "slice":
		return t.lower(v.args[0])
	case "concat":
		for _, a := range v.args {
			if !t.lower(a) && !isDelim(a) {
				return false
			}
		}
		return true
	case "init", "hv":
		a := v.args[0]
		if t.plain(v) {
			return false
		}
		return a.op == "&f" && (a.aux == "Section.name" || a.aux == "Key.name") || a.op == "&e"
	case "sym": // a part of a stored name, or a key of a table
		return v != t.name && v.in != nil
	}
	return false
}

func isDelim(v *Term) bool {
	return (v.op == "init" || v.op == "hv") && v.args[0].op == "&f" && v.args[0].aux == "LoadOptions.ChildSectionDelimiter"
}

// use: a text is used as the name of a section or key.
func (t *n01) use(x *Ctx, kind string, v *Term, what string) {
	t.sites++
	v = stripConv(v)
	if t.cfg.empty {
		if kind != "section" {
			return
		}
		ok := isDefaultName(v) && (!t.cfg.all || v.op == "call")
		if !ok && (v.op == "init" || v.op == "hv" || v.op == "sym") && t.lower(v) {
			return // a stored name
		}
		t.r.obx(x, ok, "empty", t.where(x)+" "+what, "an empty name does not stand for the default section here"+t.cfg.String())
		return
	}
	if isDefaultName(v) && t.kind == "section" {
		em := t.e.evalBool(x.st, t.e.mkEq(t.name, t.e.T.Str(""))) == 1 || t.fn.Signature.Variadic()
		t.r.obx(x, em, "as-given", t.where(x)+" default", "the default section is used although another name was given")
	}
	if t.insensitive(kind) {
		t.r.obx(x, t.lower(v), "lower", t.where(x)+" "+what, "a name is used without being lower-cased"+t.cfg.String())
		return
	}
	exact := t.plain(v) || !t.given(v)
	if v.op == "concat" && strings.HasSuffix(what, "part of a name") {
		exact = t.plain(v.args[0])
	}
	t.r.obx(x, !hasFold(v) && exact, "as-given", t.where(x)+" "+what, "a name is not used as it was given"+t.cfg.String())
}

// added: names that become part of an order list.
func (t *n01) added(x *Ctx, kind string, list *Term) {
	for list.op == "append" {
		tail := list.args[1]
		if tail.op == "arr" {
			for _, v := range tail.args {
				t.use(x, kind, v, "name added to the order list")
			}
		}
		list = list.args[0]
	}
}

// stored: an object that is put in a table.
func (t *n01) stored(x *Ctx, v *Term, kind string) {
	if v.op != "alloc" {
		return
	}
	f := "Section.name"
	if kind == "key" {
		f = "Key.name"
	}
	loc := x.e.fieldAddr(v, f, types.NewPointer(types.Typ[types.String]))
	t.use(x, kind, x.e.peek(x, loc, types.Typ[types.String]), "name of a stored "+kind)
}

// n01Load: loading folds the case of names only when asked to, and then also
// recognises raw sections without regard to case.
func n01Load(p *Prog, r *Rep) {
	var roots []*ssa.Function
	for _, f := range p.exportedRoots() {
		if recvName(f) == "File" && (f.Name() == "Reload" || f.Name() == "Append") {
			roots = append(roots, f)
		}
	}
	n01LoadCfg(p, r, n01cfg{}, roots, nil)
	// names of raw sections
	reads := map[*ssa.Function]ssa.Instruction{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if o, ok := in.(*ssa.BinOp); ok && (fieldOfList(o.X) == rawList || fieldOfList(o.Y) == rawList) {
					reads[f] = o
				}
			}
		}
	}
	for _, cfg := range []n01cfg{{all: true}, {secs: true}} {
		seen := map[*ssa.Function]bool{}
		n01LoadCfg(p, r, cfg, roots, seen)
		for f, at := range reads {
			r.ob(seen[f], "lower", fnName(f), "raw sections"+cfg.String(), "raw sections are recognised by exact case only"+cfg.String(), "", at)
		}
	}
}

const rawList = "UnparseableSections"

// n01LoadCfg analyses loading under some options; seen gets the functions that
// compare the names of raw sections without regard to case.
func n01LoadCfg(p *Prog, r *Rep, cfg n01cfg, roots []*ssa.Function, seen map[*ssa.Function]bool) {
	h := lightHooks()
	h.JoinCap, h.ExitCap, h.FactCap = 6, 6, 4
	h.Modular = func(x *Ctx, c *CallInfo) bool { return !isTinyPredicate(c.Fn) }
	h.Track = func(reg string) bool { return strings.HasPrefix(reg, "f:LoadOptions.") }
	h.HavocKeep = func(f string) bool { return strings.HasPrefix(f, "LoadOptions.") }
	t := &n01{cfg: cfg}
	h.Init = func(x *Ctx, loc *Term) *Term {
		if loc.op == "&f" {
			if v, ok := t.opt(loc.aux); ok {
				return x.e.T.Bool(v)
			}
		}
		return nil
	}
	from := map[*ssa.Function]*ssa.Function{} // functions given the name of a raw section
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		raw := false
		if in, ok := x.in.(*ssa.Call); ok {
			for _, a := range in.Call.Args {
				raw = raw || fieldOfList(a) == rawList
			}
		}
		if raw && c.Kind == "ini" && seen != nil {
			from[c.Fn] = x.fr.fn
		}
		if c.Kind == "lib" && foldCalls[c.Name] {
			if seen != nil {
				if raw {
					seen[x.fr.fn] = true
				}
				if f := from[x.fr.fn]; f != nil {
					seen[f] = true
				}
				return nil, false
			}
			all := true
			for _, a := range c.Args {
				if isStringType2(a.typ) || a.op == "sym" {
					all = all && (a.isConst() || isGlobalSym(a))
				}
			}
			r.obx(x, all, "as-given", "loading: "+c.Name, "case is folded while loading although that was not asked for")
		}
		return nil, false
	}
	r.runModular(h, roots, nil)
}

// n01Elsewhere: code outside the operations given a name looks tables up only by
// names that are stored already.
func n01Elsewhere(p *Prog, r *Rep, covered map[*ssa.Function]bool) {
	callers := map[*ssa.Function][]callSite{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], callSite{in, c.Common().Args})
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var m, k ssa.Value
				switch in := in.(type) {
				case *ssa.Lookup:
					m, k = in.X, in.Index
				case *ssa.MapUpdate:
					m, k = in.Map, in.Key
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						m, k = in.Call.Args[0], in.Call.Args[1]
					}
				}
				if m == nil {
					continue
				}
				switch fieldRead(m) {
				case "Section.keys", "Section.keysHash", "File.sections":
				default:
					continue
				}
				if covered[f] {
					q, ok := k.(*ssa.Parameter)
					if !ok || f.Object() == nil || f.Object().Exported() {
						continue
					}
					for _, c := range callers[f] {
						if i := paramIndex(q); !covered[c.in.Parent()] && i < len(c.args) {
							bad := foreignName(c.args[i], callers, map[ssa.Value]bool{})
							r.ob(bad == "", "lower", fnName(c.in.Parent()), "name given to "+fnName(f), "a table is looked up by a name that was not normalised: "+bad, "", c.in)
						}
					}
					continue
				}
				bad := foreignName(k, callers, map[ssa.Value]bool{})
				r.ob(bad == "", "lower", fnName(f), "index of "+fieldRead(m), "a table is looked up by a name that was not normalised: "+bad, "", in)
			}
		}
	}
}

func foreignResult(c *ssa.Call, i int, callers map[*ssa.Function][]callSite, seen map[ssa.Value]bool) string {
	g := c.Call.StaticCallee()
	if g == nil || g.Blocks == nil || g.Pkg != c.Parent().Pkg {
		return ""
	}
	out := ""
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(ret.Results) {
			continue
		}
		if l, ok := ret.Results[i].(*ssa.Call); ok && calleeName(l.Common()) == "strings.ToLower" {
			return ""
		}
		if w := foreignName(ret.Results[i], callers, seen); w != "" {
			out = w
		}
	}
	return out
}

type callSite struct {
	in   ssa.Instruction
	args []ssa.Value
}

func paramIndex(q *ssa.Parameter) int {
	for i, p := range q.Parent().Params {
		if p == q {
			return i
		}
	}
	return -1
}

// fieldRead: the field of an object a value was read from.
func fieldRead(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	t := deref(fa.X.Type())
	return typeShort(t) + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
}

// foreignName: where a name comes from if that is neither a table, a list nor an
// object the library stores.
func foreignName(v ssa.Value, callers map[*ssa.Function][]callSite, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		switch v.X.(type) {
		case *ssa.FieldAddr:
			switch f := fieldRead(v); f {
			case "Section.name", "Key.name":
				return ""
			default:
				if strings.HasPrefix(f, "Section.") || strings.HasPrefix(f, "Key.") || strings.HasPrefix(f, "File.") || strings.HasPrefix(f, "LoadOptions.") {
					return "read from " + f
				}
				if f == "reflect.StructField.Name" {
					return "name of a Go field"
				}
				return "" // cannot tell
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if c, ok := e.(*ssa.Call); ok && calleeName(c.Common()) == "strings.ToLower" {
				return ""
			}
		}
		for _, e := range v.Edges {
			if w := foreignName(e, callers, seen); w != "" {
				return w
			}
		}
	case *ssa.Parameter:
		f := v.Parent()
		for _, c := range callers[f] {
			if i := paramIndex(v); i < len(c.args) {
				if w := foreignName(c.args[i], callers, seen); w != "" {
					return w
				}
			}
		}
		if f.Object() != nil && f.Object().Exported() {
			return "given to " + fnName(f)
		}
	case *ssa.Call:
		n := calleeName(v.Common())
		if strings.HasPrefix(n, "strings.Trim") || strings.HasPrefix(n, "strings.Replace") || n == "fmt.Sprintf" || n == "strings.ToUpper" || strings.HasPrefix(n, "(*regexp.Regexp).") {
			return "made by " + n
		}
		return foreignResult(v, 0, callers, seen)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return foreignResult(c, v.Index, callers, seen)
		}
	case *ssa.Field:
		if typeShort(v.X.Type()) == "reflect.StructField" {
			return "name of a Go field"
		}
	case *ssa.Slice:
		return foreignName(v.X, callers, seen)
	}
	return ""
}

// fieldOfList: the field of a list an element was read from.
func fieldOfList(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			v = ia.X
			if u, ok := v.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
				}
			}
			if f, ok := v.(*ssa.Field); ok {
				return f.X.Type().Underlying().(*types.Struct).Field(f.Field).Name()
			}
		}
	}
	return ""
}

// isGlobalSym: read from a package-level variable.
func isGlobalSym(t *Term) bool {
	if isGlobal(t) {
		return true
	}
	if u, ok := t.in.(*ssa.UnOp); ok && t.op == "sym" {
		_, ok = u.X.(*ssa.Global)
		return ok
	}
	return false
}
