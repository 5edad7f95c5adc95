package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Rules I01 and I02: parallel collections are updated together. The functions
// that write one of the collections are analysed path by path; a helper that
// leaves its part to the caller is followed into every caller.

// together analyses writers, and the callers of those that are not balanced on
// their own, with mk; mk's check reports what is out of step at an exit.
type finding struct {
	fn        *ssa.Function
	rule      string
	what, why string
	at        ssa.Instruction
	ok        bool
}

func together(p *Prog, r *Rep, writers []*ssa.Function, post func(*ssa.Function, func(finding)), mk func(fn *ssa.Function, report func(finding)) (*Hooks, func(*Eng, *Frame, *State))) {
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg == p.pkg {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	work := writers
	for len(work) > 0 {
		var mu sync.Mutex
		got := map[*ssa.Function][]finding{}
		for _, f := range work {
			done[f] = true
		}
		r.run(work, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
			return mk(fn, func(f finding) {
				mu.Lock()
				got[fn] = append(got[fn], f)
				mu.Unlock()
			})
		})
		var next []*ssa.Function
		for _, f := range work {
			if post != nil {
				post(f, func(g finding) { got[f] = append(got[f], g) })
			}
			bad := false
			for _, g := range got[f] {
				bad = bad || !g.ok
			}
			if bad && len(callers[f]) > 0 && (f.Object() == nil || !f.Object().Exported()) {
				for _, c := range callers[f] {
					for c.Parent() != nil {
						c = c.Parent()
					}
					if !done[c] {
						done[c] = true
						next = append(next, c)
					}
				}
				continue
			}
			for _, g := range got[f] {
				r.ob(g.ok, g.rule, fnName(f), g.what, g.why, "", g.at)
			}
		}
		work = next
	}
}

// writersOf: functions with an instruction that writes one of some fields, or
// an element of a collection read from one.
func writersOf(p *Prog, fields map[string]bool) []*ssa.Function {
	var out []*ssa.Function
	hit := func(v ssa.Value) bool { return fields[collField(v)] }
	for _, f := range p.funcs {
		w := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						_, fresh := a.X.(*ssa.Alloc)
						w = w || fields[addrField(a)] && !fresh
					case *ssa.IndexAddr:
						w = w || hit(a.X)
					default:
						if _, fresh := in.Addr.(*ssa.Alloc); !fresh {
							for k := range fields {
								w = w || strings.HasPrefix(k, typeShort(in.Val.Type())+".")
							}
						}
					}
				case *ssa.MapUpdate:
					w = w || hit(in.Map)
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
						w = w || hit(in.Call.Args[0])
					}
				}
			}
		}
		if w {
			for f.Parent() != nil {
				f = f.Parent()
			}
			if !hasFn(out, f) {
				out = append(out, f)
			}
		}
	}
	return out
}

func hasFn(l []*ssa.Function, f *ssa.Function) bool {
	for _, g := range l {
		if g == f {
			return true
		}
	}
	return false
}

func addrField(fa *ssa.FieldAddr) string {
	t := deref(fa.X.Type())
	return typeShort(t) + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
}

// collField: the field a collection, or a part of it, was read from.
func collField(v ssa.Value) string {
	for {
		switch u := v.(type) {
		case *ssa.Slice:
			v = u.X
			continue
		case *ssa.UnOp:
			return fieldRead(u)
		}
		return ""
	}
}

// events of a path are kept in the client state: kind, place and value.
func setEv(x *Ctx, kind string, args ...*Term) {
	if len(events(x.st, kind)) > 3 {
		return // in a loop that never ends up with so many
	}
	x.st.cl["ev:"+kind+":"+fmt.Sprint(args[0].id, ".", args[len(args)-1].id*btoi(len(args) > 3))] = x.e.T.App("ev", kind, nil, args...)
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func events(st *State, kind string) []*Term {
	var ks []string
	for k, v := range st.cl {
		if v != nil && v.op == "ev" && v.aux == kind {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []*Term
	for _, k := range ks {
		out = append(out, st.cl[k])
	}
	return out
}

// happened: whether there was such an event, known in detail or not.
func happened(st *State, kind string) bool {
	for k := range st.cl {
		if k == "ev:"+kind || strings.HasPrefix(k, "ev:"+kind+":") {
			return true
		}
	}
	return false
}

func init() { checks["I01"] = checkI01 }

var keyFields = map[string]bool{"Section.keyList": true, "Section.keys": true, "Section.keysHash": true, "Key.value": true, "Key.name": true}

func checkI01(p *Prog, r *Rep) {
	r.rule("on every path through a function that writes the list, the table, the hash of keys or a stored value (or through its callers, for a helper): a name added to the list goes at its end, was not there before, and enters the table and the hash; a name removed from one is removed from all; the hash gets the value the key holds; a changed value of a stored key is entered in the hash under its name")
	r.need("in-step", 4)
	r.assumes("the key belongs to a section", "names are compared as N01 decides")
	together(p, r, writersOf(p, keyFields), nil, func(fn *ssa.Function, report func(finding)) (*Hooks, func(*Eng, *Frame, *State)) {
		t := &i01{fn: fn, report: report}
		return t.hooks(), func(e *Eng, fr *Frame, st *State) { t.e = e }
	})
}

type i01 struct {
	fn     *ssa.Function
	report func(finding)
	e      *Eng
}

func (t *i01) hooks() *Hooks {
	h := fullHooks()
	h.JoinCap, h.ExitCap, h.FactCap = 12, 24, 16
	str := types.Typ[types.String]
	absent(h, func(x *Ctx, v *Term) bool { return storageVal(x, v) == "Section.keyList" }, func(x *Ctx, v *Term) bool {
		g := storageVal(x, v)
		return g == "Section.keys" || g == "Section.keysHash"
	})
	h.Store = func(x *Ctx, loc, val *Term) {
		e := x.e
		switch loc.op {
		case "&m":
			sec := fieldBase(loc.args[0])
			switch storageVal(x, loc.args[0]) {
			case "Section.keys":
				old := e.peek(x, loc, val.typ)
				if e.knownNonNil(x.st, old) {
					setEv(x, "known", loc.args[1], sec)
				}
				setEv(x, "TA", loc.args[1], sec, val)
			case "Section.keysHash":
				setEv(x, "HA", loc.args[1], sec, val)
			}
		case "&f":
			switch {
			case storageLoc(x, loc) == "Section.keyList":
				t.list(x, loc, val)
			case loc.aux == "Section.keys" || loc.aux == "Section.keysHash":
				if storageLoc(x, loc) != "" {
					setEv(x, "reset", e.T.Str(loc.aux), loc.args[0])
				}
			case loc.aux == "Key.value" && rootOf(loc).op != "alloc":
				setEv(x, "VS", loc.args[0], val)
			case loc.aux == "Key.name" && rootOf(loc).op != "alloc":
				old := e.peek(x, loc, str)
				if old != val && e.evalBool(x.st, e.mkEq(old, val)) != 1 && !isFieldOf(val, "Key.name") {
					setEv(x, "rename", loc.args[0], val)
				}
			}
		case "&e":
			if collOf(x, loc.args[0]) == "Section.keyList" && tailElem(x, loc.args[0], val) {
				setEv(x, "moved", loc.args[0], loc.args[1], val)
			}
		}
	}
	h.MapDelete = func(x *Ctx, loc *Term) {
		sec := fieldBase(loc.args[0])
		switch storageVal(x, loc.args[0]) {
		case "Section.keys":
			setEv(x, "TD", loc.args[1], sec)
		case "Section.keysHash":
			setEv(x, "HD", loc.args[1], sec)
		}
	}
	h.RootExit = func(x *Ctx, ex *Exit) { t.exit(&Ctx{x.e, x.fr, ex.st, ex.ret}, ex) }
	pass := h.Call
	h.Call = apart(func(x *Ctx, ci *CallInfo) ([]CallRes, bool) {
		if mutator(ci.Name) && !strings.Contains(ci.Name, "Delete") && len(ci.Args) > 0 && collOf(x, unbox(ci.Args[0])) == "Section.keyList" {
			setEv(x, "moved", unbox(ci.Args[0]))
		}
		if rs, ok := cutOut(x, ci); ok {
			return rs, ok
		}
		return pass(x, ci)
	})
	return h
}

// cutOut: slices.Delete is the append of the two parts around the gap.
func cutOut(x *Ctx, ci *CallInfo) ([]CallRes, bool) {
	if !strings.HasPrefix(ci.Name, "slices.Delete") || len(ci.Args) != 3 {
		return nil, false
	}
	l, t := ci.Args[0], ci.Args[0].typ
	nul := x.e.T.Nil()
	a := x.e.T.App("slice", "", t, l, nul, ci.Args[1], nul)
	b := x.e.T.App("slice", "", t, l, ci.Args[2], nul, nul)
	return []CallRes{{x.st, []*Term{x.e.T.App("append", "", t, a, b)}}}, true
}

// tailElem: an element counted from the end of the list.
func tailElem(x *Ctx, list, v *Term) bool {
	if (v.op == "init" || v.op == "hv") && v.args[0].op == "&e" {
		for t, k := range x.e.linOf(v.args[0].args[1]).co {
			if k == 1 && t.op == "len" && t.args[0] == v.args[0].args[0] {
				return collOf(x, t.args[0]) == collOf(x, list)
			}
		}
	}
	return false
}

// collOf: the field a collection, or the collection it is stored in, was read from.
func collOf(x *Ctx, v *Term) string {
	for v.op == "slice" || v.op == "append" {
		v = v.args[0]
	}
	if (v.op == "init" || v.op == "hv") && v.args[0].op == "&m" {
		return "*" + storageVal(x, v.args[0].args[0])
	}
	if v.op == "sym" {
		for l, w := range x.st.mem {
			if w == v && l.op == "&f" && storageLoc(x, l) != "" {
				return storageLoc(x, l)
			} else if w == v && l.op == "&m" {
				return "*" + storageVal(x, l.args[0])
			}
		}
	}
	return storageVal(x, v)
}

// current: the value a field has now, if it was written or its owner is known.
func current(x *Ctx, field string) *Term {
	for l, w := range x.st.mem {
		if l.op == "&f" && l.aux == field && storageLoc(x, l) != "" {
			return w
		}
	}
	return nil
}

// apart: exported operations are looked at on their own; where they are called
// they may have changed anything they can write.
func apart(next func(*Ctx, *CallInfo) ([]CallRes, bool)) func(*Ctx, *CallInfo) ([]CallRes, bool) {
	return func(x *Ctx, ci *CallInfo) ([]CallRes, bool) {
		if ci.Kind == "ini" && ci.Fn != nil && ci.Fn.Object() != nil && ci.Fn.Object().Exported() && weight(x.e.P, ci.Fn) > 60 {
			x.e.havocMods(x, ci.Fn)
			return []CallRes{{st: x.st, res: make([]*Term, ci.Sig.Results().Len())}}, true
		}
		if next == nil {
			return nil, false
		}
		return next(x, ci)
	}
}

// weight: the instructions of a function and what it calls.
func weight(p *Prog, f *ssa.Function) int {
	fs, _ := p.reach(f)
	n := 0
	for g := range fs {
		if g.Pkg == p.pkg {
			for _, b := range g.Blocks {
				n += len(b.Instrs)
			}
		}
	}
	return n
}

// fieldBase: the object a collection was read from.
func fieldBase(v *Term) *Term {
	for v.op == "slice" || v.op == "append" {
		v = v.args[0]
	}
	if (v.op == "init" || v.op == "hv") && v.args[0].op == "&f" {
		return v.args[0].args[0]
	}
	return v
}

// list: the order list gets a new value.
func (t *i01) list(x *Ctx, loc, val *Term) {
	sec := loc.args[0]
	if val.op == "append" {
		base, tail := val.args[0], val.args[1]
		if tail.op == "arr" && !isPart(x, base) && collOf(x, base) == "Section.keyList" {
			for _, n := range tail.args {
				setEv(x, "LA", n, sec)
				if x.st.cl["absent"] != nil {
					setEv(x, "new", n, sec)
				}
			}
			return
		}
		if inFront(x, "Section.keyList", base, tail) {
			setEv(x, "front", sec, val)
			return
		}
	}
	// a removal: which element is known when two parts around it are joined
	if i := removedAt(x, val); i != nil {
		old := x.e.peek(x, loc, loc.typ)
		_ = old
		setEv(x, "LD", sec, i)
		return
	}
	setEv(x, "LD", sec, x.e.T.Nil())
}

// inFront: the old list is appended to something new.
func inFront(x *Ctx, field string, base, tail *Term) bool {
	return collOf(x, tail) == field && collOf(x, base) != field && !isPart(x, tail) && x.e.provesGE0(x.st, newLin(-1).add(x.e.linOf(x.e.mkLen(base)), 1))
}

// removedAt: the index that is missing from append(l[:i], l[i+1:]...) or slices.Delete(l, i, i+1).
func removedAt(x *Ctx, val *Term) *Term {
	e := x.e
	if val.op == "append" && val.args[0].op == "slice" && val.args[1].op == "slice" && val.args[0].args[0] == val.args[1].args[0] {
		hi, lo := val.args[0].args[2], val.args[1].args[1]
		if !hi.isNil() && !lo.isNil() {
			d := e.linOf(lo).add(e.linOf(hi), -1)
			if len(d.co) == 0 && d.k == 1 {
				return e.T.App("at", "", nil, val.args[0].args[0], hi)
			}
			return e.T.App("wrong", "", types.Typ[types.Int], hi, lo)
		}
	}
	if val.op == "slice" && (val.args[1].isNil() || isInt(val.args[1], 0)) && !val.args[2].isNil() {
		d := e.linOf(val.args[2]).add(e.linOf(e.mkLen(val.args[0])), -1)
		if len(d.co) == 0 && d.k == -1 {
			return e.T.App("at", "end", nil, val.args[0], val.args[2])
		}
	}
	if val.op == "slice" && isInt(val.args[1], 1) && (val.args[2].isNil() || val.args[2] == e.mkLen(val.args[0])) {
		return e.T.App("at", "end", nil, val.args[0], e.T.Int(0))
	}
	return nil
}

func (t *i01) exit(x *Ctx, ex *Exit) {
	e, st := x.e, ex.st
	str := types.Typ[types.String]
	n := 0
	bad := func(what, why string) {
		n++
		t.report(finding{fn: t.fn, rule: "in-step", what: what, why: why, at: ex.ret})
	}
	same := func(a, b *Term) bool { return a == b || e.evalBool(st, e.mkEq(a, b)) == 1 }
	find := func(kind string, name, sec *Term) *Term {
		for _, v := range events(st, kind) {
			if same(v.args[0], name) && (sec == nil || v.args[1] == sec || v.args[1].op == "sym" || sec.op == "sym") {
				return v
			}
		}
		return nil
	}
	LA, LD := events(st, "LA"), events(st, "LD")
	TA, TD := events(st, "TA"), events(st, "TD")
	HA, HD := events(st, "HA"), events(st, "HD")
	VS := events(st, "VS")
	any := len(LA)+len(LD)+len(TA)+len(TD)+len(HA)+len(HD)+len(VS) > 0
	reset := events(st, "reset")
	if len(reset) > 0 {
		any = true
		if !(len(reset) == 2 && len(LD) > 0) {
			bad("reset", "the list, table and hash of keys are not replaced together")
		}
		if n == 0 {
			t.report(finding{fn: t.fn, rule: "in-step", what: "keys", at: ex.ret, ok: true})
		}
		return
	}
	for _, v := range events(st, "front") {
		_ = v
		bad("order", "a key is not listed at the end")
	}
	for range events(st, "moved") {
		bad("order", "the keys listed change places")
	}
	for _, v := range events(st, "rename") {
		if rootOf(v.args[0]).op != "alloc" {
			bad("name", "a stored key gets another name")
		}
	}
	for _, v := range LA {
		name, sec := v.args[0], v.args[1]
		if find("TA", name, sec) == nil {
			bad("list and table", "a key is listed but not stored in the table")
		}
		if find("HA", name, sec) == nil {
			bad("list and hash", "a key is listed but not entered in the hash")
		}
		if find("new", name, sec) == nil {
			bad("list", "a key can be listed twice")
		}
	}
	for _, v := range TA {
		name, sec := v.args[0], v.args[1]
		k := v.args[2]
		if find("LA", name, sec) == nil && find("known", name, sec) == nil && st.cl["absent"] != nil {
			bad("list and table", "a key is stored in the table but not listed")
		}
		if find("HA", name, sec) == nil {
			bad("table and hash", "a key is stored in the table but its value not in the hash")
		}
		kn := e.peek(x, e.fieldAddr(k, "Key.name", types.NewPointer(str)), str)
		if k.op == "alloc" && !same(kn, name) {
			bad("name", "a key is stored under a name that is not its own")
		}
	}
	keyAt := func(name, sec *Term) *Term {
		if v := find("TA", name, sec); v != nil {
			return v.args[2]
		}
		return nil
	}
	for _, v := range HA {
		name, sec, val := v.args[0], v.args[1], v.args[2]
		ok := false
		if k := keyAt(name, sec); k != nil {
			ok = same(e.peek(x, e.fieldAddr(k, "Key.value", types.NewPointer(str)), str), val)
		} else {
			for _, w := range VS {
				ok = ok || t.keyNamed(x, w.args[0], name, sec) && same(w.args[1], val)
			}
			ok = ok || isValueOf(x, val)
		}
		if !ok {
			bad("hash", "the hash gets a value that is not the one of the key")
		}
	}
	for _, v := range VS {
		k, val := v.args[0], v.args[1]
		ok := false
		for _, w := range HA {
			ok = ok || t.keyNamed(x, k, w.args[0], w.args[1]) && same(w.args[2], val)
		}
		if !ok && !t.unlisted(x, k) && !(isValueOf(x, val) && val.args[0].args[0] == k) {
			bad("value and hash", "the value of a stored key is changed but not its entry in the hash")
		}
	}
	for _, v := range TD {
		if find("HD", v.args[0], v.args[1]) == nil {
			bad("table and hash", "a key is removed from the table but not from the hash")
		}
		if !happened(st, "LD") && st.cl["absent"] == nil {
			bad("table and list", "a key is removed from the table but not from the list")
		}
	}
	for _, v := range HD {
		if find("TD", v.args[0], v.args[1]) == nil {
			bad("hash and table", "a key is removed from the hash but not from the table")
		}
	}
	for _, v := range LD {
		if v.args[1].op == "wrong" {
			bad("list", "another number of keys than one is removed from the list")
		}
		if !happened(st, "TD") {
			bad("list and table", "a key is removed from the list but not from the table")
		}
		if v.args[1].op == "at" && t.anotherAt(x, v.args[1], TD) {
			bad("list", "the name removed from the list is not the one removed from the table")
		}
	}
	if any && n == 0 {
		t.report(finding{fn: t.fn, rule: "in-step", what: "keys", at: ex.ret, ok: true})
	}
}

// anotherAt: something is known about the element removed, but not that it is
// the name removed from the table.
func (t *i01) anotherAt(x *Ctx, at *Term, TD []*Term) bool {
	known := false
	for f := range x.st.facts {
		for _, s := range subterms(f) {
			if (s.op != "init" && s.op != "hv") || s.args[0].op != "&e" || s.args[0].args[1] != at.args[1] {
				continue
			}
			known = known || s != f
			for _, d := range TD {
				if d.args[0] == s || x.e.evalBool(x.st, x.e.mkEq(s, d.args[0])) == 1 {
					return false
				}
			}
		}
	}
	return known
}

// keyNamed: the key is the one of that name.
func (t *i01) keyNamed(x *Ctx, k, name, sec *Term) bool {
	if (k.op == "init" || k.op == "hv") && k.args[0].op == "&m" && k.args[0].args[1] == name {
		return true
	}
	str := types.Typ[types.String]
	kn := x.e.peek(x, x.e.fieldAddr(k, "Key.name", types.NewPointer(str)), str)
	if kn == name || x.e.evalBool(x.st, x.e.mkEq(kn, name)) == 1 {
		return true
	}
	for f, pol := range x.st.facts { // the table has this key under the name
		if pol && f.op == "eq" {
			for i := 0; i < 2; i++ {
				a, b := f.args[i], f.args[1-i]
				if b == k && (a.op == "init" || a.op == "hv") && a.args[0].op == "&m" && a.args[0].args[1] == name {
					return true
				}
			}
		}
	}
	return false
}

// unlisted: the key is known not to be the one in its table.
func (t *i01) unlisted(x *Ctx, k *Term) bool {
	for f, pol := range x.st.facts {
		if (f.op == "init" || f.op == "hv") && !pol && f.args[0].op == "&mok" && storageVal(x, f.args[0].args[0]) == "Section.keys" && t.keyNamed(x, k, f.args[0].args[1], nil) {
			return true
		}
		if !pol && f.op == "eq" {
			for i := 0; i < 2; i++ {
				a, b := f.args[i], f.args[1-i]
				if b == k && (a.op == "init" || a.op == "hv") && a.args[0].op == "&m" && strings.HasSuffix(storageVal(x, a.args[0].args[0]), ".keys") {
					return true
				}
			}
		}
	}
	return false
}

// isValueOf: the value a key holds already.
func isValueOf(x *Ctx, v *Term) bool { return isFieldOf(v, "Key.value") }

func isFieldOf(v *Term, f string) bool {
	return (v.op == "init" || v.op == "hv") && v.args[0].op == "&f" && v.args[0].aux == f
}
