package main

import (
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rules O02 and O03: which operations write to a file's objects.

// storageLoc: the part of a file, section or key a location belongs to, ""
// when it is something else or an object only this operation can reach.
func storageLoc(x *Ctx, loc *Term) string {
	if isPrv(x, rootOf(loc)) {
		return ""
	}
	for l := loc; l != nil; {
		switch l.op {
		case "&f":
			if storageField(l.aux) {
				return l.aux
			}
			l = l.args[0]
		case "&e", "&m", "&mok":
			return storageVal(x, l.args[0])
		default:
			if l == loc { // a whole object
				if pt, ok := l.typ.(*types.Pointer); ok {
					if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && n.Obj().Pkg() == x.e.pkg.Pkg && storageTypes[n.Obj().Name()] {
						return n.Obj().Name()
					}
				}
			}
			return ""
		}
	}
	return ""
}

// storageVal: the field a collection value was read from.
func storageVal(x *Ctx, v *Term) string {
	for {
		switch v.op {
		case "slice", "append":
			v = v.args[0]
		case "init", "hv":
			if isPrv(x, rootOf(v.args[0])) {
				return ""
			}
			return storageLoc(x, v.args[0])
		case "field":
			if storageField(v.aux) {
				return v.aux
			}
			return ""
		case "guarded":
			return v.aux
		case "&f": // slice of an array field
			return storageLoc(x, v)
		default:
			return ""
		}
	}
}

// mutators: library functions that change the collection they are given.
func mutator(n string) bool {
	for _, p := range []string{"sort.", "slices.Sort", "slices.Reverse", "slices.Insert", "slices.Delete", "slices.Compact", "slices.Replace", "maps.Copy", "maps.DeleteFunc", "math/rand.Shuffle", "(*math/rand.Rand).Shuffle", "copy"} {
		if strings.HasPrefix(n, p) && !strings.HasPrefix(n, "sort.Search") && !strings.HasSuffix(n, "AreSorted") && !strings.HasSuffix(n, "IsSorted") && !strings.HasPrefix(n, "slices.SortedFunc") && n != "slices.Sorted" {
			return true
		}
	}
	return false
}

// trackPriv keeps track of objects that only the operation itself can reach.
func trackPriv(h *Hooks) {
	store, app, enter, leave, exit := h.Store, h.Append, h.ModEnter, h.ModLeave, h.FnExit
	h.Store = func(x *Ctx, loc, val *Term) {
		if store != nil {
			store(x, loc, val)
		}
		if !tmpObj(x, loc) {
			publish(x, val)
		}
	}
	h.Append = func(x *Ctx, base, tail, res *Term) {
		if app != nil {
			app(x, base, tail, res)
		}
		if storageVal(x, base) != "" {
			publish(x, tail)
		}
	}
	h.ModEnter = func(x *Ctx, c *CallInfo) modEntry {
		var m modEntry
		if enter != nil {
			m = enter(x, c)
		} else {
			m.cl = map[string]*Term{}
			for k, v := range x.st.cl {
				if !strings.HasPrefix(k, "prv") && !strings.HasPrefix(k, "pub") {
					m.cl[k] = v
				}
			}
		}
		fr := x.e.frame(nil, nil, c.Fn)
		for i, p := range c.Fn.Params {
			if i < len(c.Args) && c.Args[i].op != "const" && isPrv(x, c.Args[i]) {
				m.cl[prvKey(x.e.T.Sym(fr, nil, p.Name(), p.Type()))] = x.e.T.App("lk", "priv", nil)
			}
		}
		return m
	}
	h.ModLeave = func(x *Ctx, c *CallInfo, ex *Exit, res []*Term) {
		if leave != nil {
			leave(x, c, ex, res)
		} else {
			for k := range x.st.cl {
				if !strings.HasPrefix(k, "prv") && !strings.HasPrefix(k, "pub") {
					delete(x.st.cl, k)
				}
			}
			for k, v := range ex.st.cl {
				if !strings.HasPrefix(k, "prv") && !strings.HasPrefix(k, "pub") {
					x.st.cl[k] = v
				}
			}
		}
		fr := x.e.frame(nil, nil, c.Fn)
		for i, p := range c.Fn.Params {
			if i < len(c.Args) && isPrv(x, c.Args[i]) && ex.st.cl[prvKey(x.e.T.Sym(fr, nil, p.Name(), p.Type()))] == nil {
				publish(x, c.Args[i])
			}
		}
		y := &Ctx{x.e, fr, ex.st, ex.ret}
		for i, t := range ex.results {
			if res[i].op == "sym" && (t.op == "alloc" || t.op == "make" || t.op == "makemap") && isPrv(y, t) {
				x.st.cl[prvKey(res[i])] = x.e.T.App("lk", "priv", nil)
			}
			if res[i].op == "sym" && collType(res[i].typ) {
				if g := storageVal(y, t); g != "" {
					res[i] = x.e.T.App("guarded", g, res[i].typ, res[i])
				}
			}
		}
	}
	h.FnExit = func(x *Ctx, ex *Exit) {
		for k := range ex.st.cl {
			if strings.HasPrefix(k, "pub") {
				delete(ex.st.cl, k)
			}
		}
		if exit != nil {
			exit(x, ex)
		}
	}
}

// storageWrites reports every write to a file's objects.
func storageWrites(h *Hooks, wr func(x *Ctx, what, how string)) {
	h.Store = func(x *Ctx, loc, val *Term) {
		if g := storageLoc(x, loc); g != "" {
			wr(x, g, "stored to")
		}
	}
	h.Init = func(x *Ctx, loc *Term) *Term {
		if loc.op == "&f" && storageField(loc.aux) && !tmpObj(x, loc) {
			if et := deref(loc.typ); collType(et) {
				return x.e.T.App("guarded", loc.aux, et, loc)
			}
		}
		return nil
	}
	h.MapDelete = func(x *Ctx, loc *Term) {
		if g := storageLoc(x, loc); g != "" {
			wr(x, g, "deleted from")
		}
	}
	h.Append = func(x *Ctx, base, tail, res *Term) {
		if g := storageVal(x, base); g != "" {
			wr(x, g, "appended to in place")
		}
	}
	h.Copy = func(x *Ctx, dst, src *Term) {
		if g := storageVal(x, dst); g != "" {
			wr(x, g, "copied over")
		}
	}
	call := h.Call
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		if c.Kind != "ini" && (mutator(c.Name) || c.Name == "builtin clear") {
			for _, a := range c.Args {
				v := a
				if v.op == "iface" && len(v.args) > 0 {
					v = v.args[0]
				}
				if g := storageVal(x, v); g != "" {
					wr(x, g, "changed by "+c.Name)
				}
			}
		}
		if c.Kind == "lib" && !strings.HasPrefix(c.Name, "(*sync.") {
			for _, a := range c.Args {
				if a.op == "&f" {
					if g := storageLoc(x, a); g != "" && !strings.HasPrefix(c.Name, "(reflect.") {
						wr(x, g, "passed by address to "+c.Name)
					}
				}
			}
		}
		if call != nil {
			return call(x, c)
		}
		return nil, false
	}
}

var fileQueries = []string{"HasSection", "GetSection", "SectionsByName", "Sections", "ChildSections", "SectionStrings", "WriteTo", "WriteToIndent", "SaveTo", "SaveToIndent"}
var sectionQueries = []string{"Name", "Body", "HasKey", "Haskey", "GetKey", "HasValue", "Keys", "ParentKeys", "KeyStrings", "KeysHash", "ChildSections", "MapTo", "StrictMapTo"}

// keyQuery: reads of a key.
func keyQuery(n string) bool {
	switch n {
	case "SetValue", "AddShadow", "AddNestedValue", "MustString":
		return false
	}
	return true
}

func recvName(f *ssa.Function) string {
	rv := f.Signature.Recv()
	if rv == nil {
		return ""
	}
	t := rv.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func init() {
	checks["O02"] = checkO02
	checks["O03"] = checkO03
}

func checkO02(p *Prog, r *Rep) {
	r.rule("no path of a query writes to a field, list or table of a file, section or key that others can reach: direct stores, map updates and deletes, in-place appends and copies, sorting, and fields passed by address; defaulted reads are taken without a default")
	r.need("query", 60)
	r.assumes("user callbacks (mappers, candidates, writers) do not themselves edit the file")
	var roots []*ssa.Function
	for _, f := range p.exportedRoots() {
		n := f.Name()
		switch recvName(f) {
		case "File":
			if has(fileQueries, n) {
				roots = append(roots, f)
			}
		case "Section":
			if has(sectionQueries, n) {
				roots = append(roots, f)
			}
		case "Key":
			if keyQuery(n) {
				roots = append(roots, f)
			}
		}
	}
	h := lightHooks()
	h.Modular = func(x *Ctx, c *CallInfo) bool { return true }
	h.ModNoFacts = true
	h.KeepFact = func(t *Term) bool { return false }
	storageWrites(h, func(x *Ctx, what, how string) {
		root := ""
		if len(x.e.stack) > 0 {
			root = x.e.stack[0]
		}
		_ = root
		r.obx(x, false, "query-writes", what, "a query reaches this: "+what+" "+how)
	})
	trackPriv(h)
	h.RootExit = func(x *Ctx, ex *Exit) {
		r.ob(true, "query", fnName(x.fr.fn), "writes nothing", "", "", nil)
	}
	r.runModular(h, roots, func(e *Eng, fn *ssa.Function) modEntry {
		var m modEntry
		if fn.Signature.Variadic() && strings.HasPrefix(fn.Name(), "Must") {
			m.args = make([]*Term, len(fn.Params))
			m.args[len(fn.Params)-1] = e.T.Nil()
		}
		return m
	})
}

func checkO03(p *Prog, r *Rep) {
	r.rule("on every path on which an edit returns a non-nil error, nothing that others can reach was written before; for Append, only errors that occur before the first source is opened count")
	r.need("error-exit", 6)
	edits := map[string][]string{"File": {"NewSection", "NewRawSection", "DeleteSectionWithIndex", "Append"}, "Section": {"NewKey", "NewBooleanKey"}, "Key": {"AddShadow", "AddNestedValue"}}
	var roots []*ssa.Function
	for _, f := range p.exportedRoots() {
		if has(edits[recvName(f)], f.Name()) {
			roots = append(roots, f)
		}
	}
	h := lightHooks()
	h.JoinCap, h.ExitCap, h.FactCap = 8, 8, 8
	h.Modular = func(x *Ctx, c *CallInfo) bool { return true }
	h.KeepFact = func(t *Term) bool { return t.op == "eq" && t.args[1].isNil() }
	storageWrites(h, func(x *Ctx, what, how string) {
		if x.st.cl["wrote"] == nil {
			x.st.cl["wrote"] = x.e.T.App("wr", what+" "+how+" in "+fnName(x.fr.fn), nil)
		}
	})
	call := h.Call
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		if returnsSource(c.Sig) && c.Kind != "lib" {
			x.st.cl["opened"] = x.e.T.App("wr", "opened", nil)
		}
		return call(x, c)
	}
	trackPriv(h)
	h.RootExit = func(x *Ctx, ex *Exit) {
		er := errResult(x.fr.fn, ex.results)
		if er == nil || x.e.knownNil(ex.st, er) {
			return
		}
		if ex.st.cl["opened"] != nil {
			return
		}
		w := ex.st.cl["wrote"]
		why := ""
		if w != nil {
			why = "an error is returned after " + w.aux
		}
		r.ob(w == nil, "error-exit", fnName(x.fr.fn), errWhat(er), why, "", ex.ret)
	}
	r.runModular(h, roots, nil)
}

func errWhat(t *Term) string {
	if t.op == "iface" && len(t.args) > 0 {
		t = t.args[0]
	}
	s := t.str(2)
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// errResult: the value of a function's error result.
func errResult(fn *ssa.Function, res []*Term) *Term {
	rs := fn.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErrType(rs.At(i).Type()) && i < len(res) {
			return res[i]
		}
	}
	return nil
}

// returnsSource: the function hands out a stream to read, or an error.
func returnsSource(s *types.Signature) bool {
	rs := s.Results()
	if rs.Len() != 2 || !isErrType(rs.At(1).Type()) {
		return false
	}
	return hasReadClose(rs.At(0).Type())
}

func hasReadClose(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "Read") != nil && ms.Lookup(nil, "Close") != nil
}
