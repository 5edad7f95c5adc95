package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule E03: typestate of the stream of a data source.
//
//	(none) --open ok--> open --Close--> closed
//	       --open fails--> failed
//
// Reading is allowed in every state but closed, closing only in state open, and
// neither the next open nor the end of the operation may find the state open.

func init() {
	checks["E03"] = checkE03
}

// hasClose: the type has a Close method.
func hasClose(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Close" {
			return true
		}
	}
	return false
}

// opensStream: the call opens a stream that must be closed.
func opensStream(c *CallInfo) bool {
	if c.Kind == "lib" {
		return c.Name == "os.Open" || c.Name == "os.OpenFile"
	}
	return returnsSource(c.Sig)
}

// closesStream: the call closes a stream.
func closesStream(c *CallInfo) bool {
	if !strings.HasSuffix(c.Name, ").Close") || len(c.Args) == 0 || c.Kind == "ini" {
		return false
	}
	return true
}

func mentions(t, what *Term) bool {
	if t == what {
		return true
	}
	for _, a := range t.args {
		if mentions(a, what) {
			return true
		}
	}
	return false
}

func checkE03(p *Prog, r *Rep) {
	r.rule("typestate of each stream on every path: opened, closed once, not read after closing, not closed when opening failed, closed before the next open and before the operation returns; a stream that can be closed is never wrapped so that closing is lost; the functions that open files hand the file on or close it")
	r.need("closed-at-return", 2)
	r.need("close", 1)
	r.need("hand-on", 1)
	r.assumes("a close call on the loading path concerns the stream opened last")
	reach := reachesSource(p)
	loading := errResultRoots(p, func(f *ssa.Function) bool { return reach[f] })
	var openers []*ssa.Function
	for _, f := range p.funcs {
		if f.Parent() == nil && returnsSource(f.Signature) && len(f.Blocks) > 0 {
			openers = append(openers, f)
		}
	}
	par([]func(){
		func() { e03Run(p, r, loading, false) },
		func() { e03Run(p, r, openers, true) },
		func() { e03Wrap(p, r) },
	})
}

func e03Run(p *Prog, r *Rep, roots []*ssa.Function, opener bool) {
	cfg := &pendCfg{}
	state := func(x *Ctx) string {
		if s := x.st.cl["stream"]; s != nil {
			return s.aux
		}
		return ""
	}
	cfg.sources = func(x *Ctx, c *CallInfo) []outcome {
		n := c.Sig.Results().Len()
		mk := func(st string, val, err *Term) outcome {
			res := make([]*Term, n)
			if n > 0 && isErrType(c.Sig.Results().At(n-1).Type()) {
				res[n-1] = err
			}
			if val != nil {
				res[0] = val
			}
			o := outcome{res: res}
			if st != "" {
				o.cl = map[string]string{"stream": st}
			}
			return o
		}
		switch {
		case opensStream(c):
			r.ob(state(x) != "open", "closed-before-open", fnName(x.fr.fn), c.Name, "the stream opened before is still open when the next one is opened", "", x.in)
			file := x.e.T.Sym(x.fr, x.in, "stream", c.Sig.Results().At(0).Type())
			x.st.facts[x.e.mkEq(file, x.e.T.Nil())] = false
			ok := mk("open", file, x.e.T.Nil())
			return []outcome{ok, mk("failed", nil, failErr(x, "open"))}
		case closesStream(c):
			if a := c.Args[0]; strings.Contains(a.String(), "NopCloser") && a.op != "sym" {
				return nil
			}
			if s := state(x); s != "" {
				why := "the stream is closed a second time"
				if s == "failed" {
					why = "the stream is closed although opening it failed"
				}
				r.ob(s == "open", "close", fnName(x.fr.fn), c.Name, why, "", x.in)
			}
			return []outcome{mk("closed", nil, nil)}
		}
		if _, _, ok := readSource(x, c); ok && x.st.cl["inmem"] == nil && !(len(c.Args) > 0 && memReader(c.Args[0].typ)) {
			r.ob(state(x) != "closed", "read", fnName(x.fr.fn), c.Name, "reads from the stream after it was closed", "", x.in)
			return append(readOutcomes(x, c), mk("", nil, failErr(x, "read")))
		}
		return nil
	}
	h := pendHooks(cfg)
	h.RootExit = func(x *Ctx, ex *Exit) {
		s := ""
		if t := ex.st.cl["stream"]; t != nil {
			s = t.aux
		}
		if s == "" {
			return
		}
		if !opener {
			r.ob(s != "open", "closed-at-return", fnName(x.fr.fn), "return", "the operation can return with the stream still open", "", ex.ret)
			return
		}
		er := errResult(x.fr.fn, ex.results)
		switch s {
		case "open":
			given := len(ex.results) > 1 && !x.e.knownNil(ex.st, ex.results[0]) && !x.e.knownNonNil(ex.st, er)
			r.ob(given, "hand-on", fnName(x.fr.fn), "return", "the file that was opened is neither returned nor closed", "", ex.ret)
		case "closed":
			lost := strings.Contains(ex.results[0].String(), "stream")
			r.ob(!lost, "hand-on", fnName(x.fr.fn), "return", "the file that is returned was already closed", "", ex.ret)
		}
	}
	r.runModular(h, roots, nil)
}

// e03Wrap: wrappers that drop Close are applied to streams without one only.
func e03Wrap(p *Prog, r *Rep) {
	h := lightHooks()
	h.JoinCap, h.ExitCap, h.FactCap = 12, 12, 8
	h.KeepFact = func(t *Term) bool { return t.op == "istype" }
	h.Modular = func(x *Ctx, c *CallInfo) bool {
		return len(c.Args) == 0 || !strings.HasPrefix(typeOf(c.Args[0]), "interface")
	}
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		if !strings.HasSuffix(c.Name, ".NopCloser") || len(c.Args) != 1 {
			return nil, false
		}
		a := c.Args[0]
		ok := false
		switch {
		case a.op == "iface":
			ok = !hasClose(a.typ)
		default:
			for f, pol := range x.st.facts {
				if f.op == "istype" && !pol && f.args[0] == a && (f.aux == "io.ReadCloser" || f.aux == "io.Closer") {
					ok = true
				}
			}
		}
		r.ob(ok, "wrap", fnName(x.fr.fn), c.Name, "a stream that may have a Close method is wrapped so that it is never closed", "", x.in)
		return nil, false
	}
	reach := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.funcs {
			if reach[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && (g.Name() == "NopCloser" || reach[g]) {
							reach[f], ch = true, true
						}
					}
				}
			}
		}
	}
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range append(p.exportedRoots(), p.funcs...) {
		if reach[f] && !seen[f] && f.Parent() == nil && (f.Object() != nil && f.Object().Exported()) {
			seen[f] = true
			roots = append(roots, f)
		}
	}
	r.runModular(h, roots, nil)
}
