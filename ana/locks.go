package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules C01 and C02: the lock of a file.

// guardedFields are the parts of a file that its lock protects.
var guardedFields = map[string]bool{
	"File.sectionList": true, "File.sectionIndexes": true, "File.sections": true,
	"Section.keys": true, "Section.keyList": true, "Section.keysHash": true,
	"Key.value": true, "Key.shadows": true, "Key.nestedValues": true,
}

func init() {
	checks["C01"] = func(p *Prog, r *Rep) { lockCheck(p, r, true) }
	checks["C02"] = func(p *Prog, r *Rep) { lockCheck(p, r, false) }
}

// guardOf: the guarded field a location belongs to ("" if none).
func guardOf(loc *Term) string {
	for loc != nil {
		switch loc.op {
		case "&f":
			if guardedFields[loc.aux] {
				return loc.aux
			}
			return ""
		case "&e", "&m", "&mok":
			// contents of a collection: which field was it read from?
			return guardOfVal(loc.args[0])
		default:
			return ""
		}
	}
	return ""
}
func guardOfVal(v *Term) string {
	for {
		switch v.op {
		case "slice":
			v = v.args[0]
		case "init", "hv":
			return guardOf(v.args[0])
		case "append":
			return guardOfVal(v.args[0])
		case "field":
			if guardedFields[v.aux] {
				return v.aux
			}
			return ""
		case "guarded":
			return v.aux
		default:
			return ""
		}
	}
}

func lightHooks() *Hooks {
	return &Hooks{NoLin: true, JoinCap: 3, ExitCap: 2, FactCap: 1, Track: func(string) bool { return false }}
}

func isFileLock(name string) (string, bool) {
	switch name {
	case "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		return name[strings.LastIndex(name, ".")+1:], true
	}
	return "", false
}

func lockCheck(p *Prog, r *Rep, access bool) {
	if access {
		r.rule("with block mode on, every read of the section tables, key tables, stored values, shadows and nested values happens with the file lock held, and every write with it held exclusively; objects not yet reachable by others are exempt")
		r.need("guarded-read", 12)
		r.need("guarded-write", 8)
	} else {
		r.rule("lock typestate per path: no acquire while held, no release while not held, same state at every return; no user code (mapper, reflector, reader, writer, hook) called while held; checked with block mode on and off")
		r.need("acquire", 6)
		r.need("balanced", 100)
		r.need("no-callback-under-lock", 4)
	}
	r.assumes("all sections, keys and files reached in one operation belong to one file", "block mode is not switched during an operation", "user callbacks do not re-enter the same file from another goroutine's critical section")
	modes := []bool{true}
	if !access {
		modes = []bool{true, false}
	}
	for _, mode := range modes {
		mode := mode
		sfx := ""
		if !mode {
			sfx = " (block mode off)"
		}
		h := lightHooks()
		h.Modular = func(x *Ctx, c *CallInfo) bool { return true }
		h.ModNoFacts = true
		h.Track = func(reg string) bool { return reg == "f:File.BlockMode" }
		h.KeepFact = func(t *Term) bool { return false }
		h.HavocKeep = func(f string) bool { return f == "File.BlockMode" }
		lock := func(st *State) string {
			if t := st.cl["lock"]; t != nil {
				return t.aux
			}
			return ""
		}
		setLock := func(x *Ctx, s string) {
			if s == "" {
				delete(x.st.cl, "lock")
			} else {
				x.st.cl["lock"] = x.e.T.App("lk", s, nil)
			}
		}
		h.Init = func(x *Ctx, loc *Term) *Term {
			if loc.op == "&f" && loc.aux == "File.BlockMode" && rootOf(loc).op != "alloc" {
				return x.e.T.Bool(mode)
			}
			if g := guardOf(loc); g != "" && loc.op == "&f" && !tmpObj(x, loc) {
				et := deref(loc.typ)
				switch et.Underlying().(type) {
				case *types.Slice, *types.Map:
					return x.e.T.App("guarded", g, et, loc)
				}
			}
			return nil
		}
		check := func(x *Ctx, loc *Term, write bool) {
			if !access {
				return
			}
			g := guardOf(loc)
			if g == "" || tmpObj(x, loc) {
				return
			}
			l := lock(x.st)
			if write {
				r.obx(x, l == "W", "guarded-write", "writes "+g+" ("+locKind(loc)+")", "written without the exclusive lock (held: "+orNone(l)+")")
			} else {
				r.obx(x, l != "", "guarded-read", "reads "+g+" ("+locKind(loc)+")", "read without the lock")
			}
		}
		h.Load = func(x *Ctx, loc, val *Term) { check(x, loc, false) }
		h.Store = func(x *Ctx, loc, val *Term) {
			check(x, loc, true)
			if !tmpObj(x, loc) {
				publish(x, val)
			}
		}
		h.MapDelete = func(x *Ctx, loc *Term) { check(x, loc, true) }
		h.MapRange = func(x *Ctx, m *Term) {
			if g := guardOfVal(m); g != "" && access {
				r.obx(x, lock(x.st) != "", "guarded-read", "iterates over "+g, "iterated without the lock")
			}
		}
		h.Append = func(x *Ctx, base, tail, res *Term) {
			if g := guardOfVal(tail); g != "" && access {
				r.obx(x, lock(x.st) != "", "guarded-read", "copies "+g, "copied without the lock")
			}
			if g := guardOfVal(base); g != "" {
				publish(x, tail)
				if access {
					r.obx(x, lock(x.st) == "W", "guarded-write", "appends to "+g, "appended without the exclusive lock")
				}
			}
		}
		h.Copy = func(x *Ctx, dst, src *Term) {
			if g := guardOfVal(src); g != "" && access {
				r.obx(x, lock(x.st) != "", "guarded-read", "copies "+g, "copied without the lock")
			}
		}
		h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
			if op, ok := isFileLock(c.Name); ok {
				l := lock(x.st)
				ob := func(ok bool, why string) {
					if !access {
						r.obx(x, ok, "acquire", op+sfx, why)
					}
				}
				switch op {
				case "Lock":
					ob(l == "", "acquires the file lock while already holding it ("+l+"): waits for itself")
					setLock(x, "W")
				case "RLock":
					ob(l == "", "acquires the file lock while already holding it ("+l+"): can wait for itself")
					setLock(x, "R")
				case "Unlock":
					ob(l == "W", "releases exclusively a lock held as: "+orNone(l))
					setLock(x, "")
				case "RUnlock":
					ob(l == "R", "releases for reading a lock held as: "+orNone(l))
					setLock(x, "")
				default:
					r.undecided("use of " + c.Name)
				}
				return []CallRes{{x.st, nil}}, true
			}
			if c.Kind == "ini" {
				return nil, false
			}
			user := c.Kind == "dyn" || c.Kind == "iface" && !strings.HasPrefix(c.Name, "(reflect.") && !strings.HasPrefix(c.Name, "(error)")
			if user && !access {
				r.obx(x, lock(x.st) == "", "no-callback-under-lock", "calls "+callWhat(c)+sfx, "user-supplied code called while the file lock is held ("+lock(x.st)+")")
			}
			// library code that reads from a caller's reader or writes to a caller's writer
			if c.Kind == "lib" && !access && (strings.HasPrefix(c.Name, "(*bufio.Reader).") || strings.HasPrefix(c.Name, "(*bytes.Buffer).WriteTo") || strings.HasPrefix(c.Name, "(*bytes.Buffer).ReadFrom") || strings.HasPrefix(c.Name, "io.")) {
				r.obx(x, lock(x.st) == "", "no-callback-under-lock", "calls "+callWhat(c)+sfx, "user-supplied reader or writer used while the file lock is held ("+lock(x.st)+")")
			}
			if access {
				for _, a := range c.Args {
					if g := guardOfVal(a); g != "" {
						r.obx(x, lock(x.st) != "", "guarded-read", "passes "+g+" to "+c.Name, "read without the lock")
					}
				}
			}
			return nil, false
		}
		h.ModEnter = func(x *Ctx, c *CallInfo) modEntry {
			m := modEntry{cl: map[string]*Term{}}
			if t := x.st.cl["lock"]; t != nil {
				m.cl["lock"] = t
			}
			fr := x.e.frame(nil, nil, c.Fn)
			for i, p := range c.Fn.Params {
				if i < len(c.Args) && c.Args[i].op != "const" && isPrv(x, c.Args[i]) {
					m.cl[prvKey(x.e.T.Sym(fr, nil, p.Name(), p.Type()))] = x.e.T.App("lk", "priv", nil)
				}
			}
			return m
		}
		h.ModLeave = func(x *Ctx, c *CallInfo, ex *Exit, res []*Term) {
			if t := ex.st.cl["lock"]; t != nil {
				x.st.cl["lock"] = t
			} else {
				delete(x.st.cl, "lock")
			}
			fr := x.e.frame(nil, nil, c.Fn)
			for i, p := range c.Fn.Params {
				if i < len(c.Args) && isPrv(x, c.Args[i]) && ex.st.cl[prvKey(x.e.T.Sym(fr, nil, p.Name(), p.Type()))] == nil {
					publish(x, c.Args[i])
				}
			}
			for i, t := range ex.results {
				y := &Ctx{x.e, fr, ex.st, ex.ret}
				if res[i].op == "sym" && (t.op == "alloc" || t.op == "make" || t.op == "makemap") && isPrv(y, t) {
					x.st.cl[prvKey(res[i])] = x.e.T.App("lk", "priv", nil)
				}
			}
		}
		h.FnExit = func(x *Ctx, ex *Exit) {
			// nothing a function stored in its own variables survives it
			for k := range ex.st.cl {
				if strings.HasPrefix(k, "pub") {
					delete(ex.st.cl, k)
				}
			}
		}
		h.RootExit = func(x *Ctx, ex *Exit) {
			if !access {
				r.obx(x, lock(ex.st) == "", "balanced", "return"+sfx, "returns with the file lock still held ("+lock(ex.st)+")")
			}
		}
		r.runModular(h, p.exportedRoots(), nil)
	}
}

func pubKey(c *Term) string { return "pub" + itoa(c.id) }
func prvKey(c *Term) string { return "prv" + itoa(c.id) }

func itoa(n int) string { return strconv.Itoa(n) }

// isPrv: the value is an object only this operation can reach.
func isPrv(x *Ctx, root *Term) bool {
	switch root.op {
	case "alloc":
		if a, ok := root.in.(*ssa.Alloc); ok && x.e.P.private(a) {
			return true
		}
		return x.st.cl[pubKey(root)] == nil
	case "make", "makemap":
		return x.st.cl[pubKey(root.args[0])] == nil
	case "sym":
		return x.st.cl[prvKey(root)] != nil
	}
	return false
}

// publish: the value is stored where others can see it.
func publish(x *Ctx, v *Term) {
	for _, c := range v.syms {
		if c.op == "alloc" {
			x.st.cl[pubKey(c)] = x.e.T.App("lk", "pub", nil)
		} else {
			delete(x.st.cl, prvKey(c))
		}
	}
}

// tmpObj: the location lies in an object this operation created and has not
// stored anywhere others can see.
func tmpObj(x *Ctx, loc *Term) bool { return isPrv(x, rootOf(loc)) }

func orNone(s string) string {
	if s == "" {
		return "none"
	}
	return s
}
func locKind(l *Term) string {
	switch l.op {
	case "&f":
		return "field"
	case "&e":
		return "element"
	}
	return "entry"
}
func callWhat(c *CallInfo) string {
	if c.Kind == "dyn" {
		return "function value " + typeShort(c.Sig)
	}
	return c.Name
}
