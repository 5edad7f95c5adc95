package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rule P03: a result is never missing without an error.

func init() { checks["P03"] = checkP03 }

// objectType: a pointer to a file, section or key.
func objectType(e *types.Package, t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() != e {
		return false
	}
	switch n.Obj().Name() {
	case "File", "Section", "Key":
		return true
	}
	return false
}

func checkP03(p *Prog, r *Rep) {
	r.rule("at every return of an exported function with a file, section or key and an error: exactly one of the two is non-nil; at every return of an exported function with only a file, section or key: it is non-nil; only non-nil sections and keys are ever stored in tables and lists")
	r.need("pair", 8)
	r.need("present", 4)
	r.need("stored", 2)
	r.assumes("DefaultSection is not empty", "a name in the order list is in the table (I01, I02)", "loading the empty text reports no error", "elements read from lists of sections and keys were stored there")
	pkg := p.pkg.Pkg
	reach := reachesSource(p)
	var roots []*ssa.Function
	for _, f := range p.exportedRoots() {
		rs := f.Signature.Results()
		if f.Parent() != nil {
			continue
		}
		for i := 0; i < rs.Len(); i++ {
			if objectType(pkg, rs.At(i).Type()) {
				roots = append(roots, f)
				break
			}
		}
	}
	mk := func() *Hooks {
		h := fullHooks()
		h.JoinCap, h.ExitCap, h.FactCap = 16, 32, 16
		h.Modular = func(x *Ctx, c *CallInfo) bool { return reach[c.Fn] || !p03Small(x, c.Fn) }
		h.Init = func(x *Ctx, loc *Term) *Term {
			if loc.op == "&g" && loc.aux == "DefaultSection" {
				return x.e.T.Str("DEFAULT")
			}
			return nil
		}
		h.KeepFact = func(t *Term) bool {
			return t.op == "eq" && (t.args[1].isNil() || isEmptyStr(t.args[1]) || isInt(t.args[1], 0))
		}
		nonNil := func(x *Ctx, st *State, v *Term) {
			if v.op != "nil" && !v.isConst() {
				x.e.addFact(st, x.e.mkEq(v, x.e.T.Nil()), false)
			}
		}
		h.Deref = func(x *Ctx, ptr *Term) {
			if ptr.typ != nil && objectType(pkg, ptr.typ) {
				if x.e.knownNil(x.st, ptr) { // nothing is returned from here
					x.st.cl["dead"] = x.e.T.Bool(true)
				}
				nonNil(x, x.st, ptr)
			}
		}
		h.Load = func(x *Ctx, loc, val *Term) {
			if loc.op == "&e" && val.typ != nil && objectType(pkg, val.typ) && !val.isNil() && (rootOf(loc).op != "make" || x.st.cl["filled"] != nil && x.st.cl["holes"] == nil) {
				nonNil(x, x.st, val)
			}
		}
		h.Copy = func(x *Ctx, dst, src *Term) {
			if dst.op == "make" && rootOf(src).op != "make" && dst == rootOf(dst) {
				x.st.cl["filled"] = x.e.T.Bool(true)
			}
		}
		// a made list has no gaps if every round of the loop that fills it stores
		h.BackEdge = func(x *Ctx, fr *Frame, _, st *State, hdr *ssa.BasicBlock) {
			if fillLoop(x, fr, hdr, pkg) {
				if st.cl["stored"] == nil {
					st.cl["holes"] = x.e.T.Bool(true)
				}
				delete(st.cl, "stored")
			}
		}
		h.Branch = func(x *Ctx, cond *Term, taken bool) bool {
			for cond.op == "not" {
				cond, taken = cond.args[0], !taken
			}
			if taken && (cond.op == "init" || cond.op == "hv") && cond.args[0].op == "&mok" {
				a := cond.args[0].args
				if mt, ok := a[0].typ.Underlying().(*types.Map); ok && objectType(pkg, mt.Elem()) {
					nonNil(x, x.st, x.e.peek(x, x.e.mapLoc(a[0], a[1], a[0].typ, "&m"), mt.Elem()))
				}
			}
			return true
		}
		h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
			if (c.Name == "strings.ToLower" || c.Name == "strings.ToUpper") && len(c.Args) == 1 {
				return []CallRes{{x.st, []*Term{c.Args[0]}}}, true // empty exactly when the argument is
			}
			if c.Kind != "ini" || !reach[c.Fn] {
				return nil, false
			}
			rs := c.Sig.Results()
			obj := -1
			for i := 0; i < rs.Len(); i++ {
				if objectType(pkg, rs.At(i).Type()) {
					obj = i
				}
			}
			if obj < 0 { // reading sources: whether it fails is all that matters
				return []CallRes{{x.st, make([]*Term, rs.Len())}}, true
			}
			if rs.Len() == 2 && emptySource(c) {
				v := x.fresh("empty", rs.At(0).Type())
				nonNil(x, x.st, v)
				return []CallRes{{x.st, []*Term{v, x.e.T.Nil()}}}, true
			}
			return nil, false
		}
		h.Store = func(x *Ctx, loc, val *Term) {
			if loc.op == "&e" && rootOf(loc).op == "make" && val.typ != nil && objectType(pkg, val.typ) && x.e.knownNonNil(x.st, val) {
				x.st.cl["filled"], x.st.cl["stored"] = x.e.T.Bool(true), x.e.T.Bool(true)
			}
			if (loc.op == "&m" || loc.op == "&e") && val.typ != nil && objectType(pkg, val.typ) && rootOf(loc).op != "alloc" {
				r.obx(x, x.e.knownNonNil(x.st, val), "stored", typeShort(val.typ), "a missing section or key can be stored")
			}
		}
		h.Append = func(x *Ctx, base, tail, res *Term) {
			if tail.op != "arr" {
				return
			}
			for _, v := range tail.args {
				if v.typ != nil && objectType(pkg, v.typ) {
					r.obx(x, x.e.knownNonNil(x.st, v), "stored", typeShort(v.typ), "a missing section or key can be stored")
				}
			}
		}
		h.RootExit = func(x *Ctx, ex *Exit) { p03Exit(x, r, pkg, ex) }
		return h
	}
	r.runModular(mk(), roots, nil)
}

// fillLoop: the loop stores sections, keys or files in a list.
func fillLoop(x *Ctx, fr *Frame, hdr *ssa.BasicBlock, pkg *types.Package) bool {
	for _, l := range x.e.fnInfo(fr.fn).loops {
		if l.head != hdr {
			continue
		}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok && objectType(pkg, deref(ia.Type())) {
						return true
					}
				}
			}
		}
	}
	return false
}

// p03Small: functions followed with their actual arguments.
func p03Small(x *Ctx, fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	return n < 200
}

func p03Exit(x *Ctx, r *Rep, pkg *types.Package, ex *Exit) {
	fn := x.fr.fn
	if ex.st.cl["dead"] != nil {
		return
	}
	er := errResult(fn, ex.results)
	for i, t := range ex.results {
		if !objectType(pkg, fn.Signature.Results().At(i).Type()) {
			continue
		}
		isNil, isObj := x.e.knownNil(ex.st, t), x.e.knownNonNil(ex.st, t)
		if er == nil {
			r.ob(isObj, "present", fnName(fn), "result", "nothing can be returned where something is promised", "", ex.ret)
			continue
		}
		eNil, eSet := x.e.knownNil(ex.st, er), x.e.knownNonNil(ex.st, er)
		ok := eNil && isObj || eSet && isNil
		why := "it is not certain that exactly one of result and error is given"
		switch {
		case eNil:
			why = "no result although there is no error"
		case eSet:
			why = "a result together with an error"
		}
		r.ob(ok, "pair", fnName(fn), "result", why, "", ex.ret)
	}
}

// emptySource: a call that loads the empty text.
func emptySource(c *CallInfo) bool {
	for _, a := range c.Args {
		if a.op != "iface" {
			continue
		}
		for a = a.args[0]; len(a.args) == 1; a = a.args[0] {
		}
		if isEmptyStr(a) {
			return true
		}
	}
	return false
}
