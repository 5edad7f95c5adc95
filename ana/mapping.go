package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule M01: strict mapping reports every conversion failure, other mapping
// leaves the field as it was.

func init() { checks["M01"] = checkM01 }

func checkM01(p *Prog, r *Rep) {
	r.rule("every conversion and every overflow test reached from mapping is split into success and failure. Strict: after a failure the operation returns a non-nil error on every path (a failed duration is made good by the same text converting as an integer). Not strict: after a failure nothing is set before the next field is looked at and no error is returned, and an element that does not convert is collected as the zero value. Integers and floats are tested for overflow between their conversion and their use")
	r.need("reported", 1)
	r.need("left-alone", 4)
	r.need("overflow", 3)
	r.need("element", 2)
	r.assumes("fields are set by the setters of package reflect", "which texts a value splits into is not decided here")
	par([]func(){func() { m01Mode(p, r, true) }, func() { m01Mode(p, r, false) }})
}

var setters = map[string]bool{"Set": true, "SetInt": true, "SetUint": true, "SetFloat": true, "SetBool": true, "SetString": true, "SetLen": true, "SetBytes": true, "SetZero": true}

func m01Mode(p *Prog, r *Rep, strict bool) {
	sfx := ""
	if strict {
		sfx = " (strict)"
	}
	set := func(x *Ctx, st *State, k, v string) { st.cl[k] = x.e.T.App("v", v, nil) }
	sites := map[ssa.Instruction]bool{}
	cfg := &pendCfg{}
	cfg.call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		if kind, ti, ok := convInfo(x, c); ok {
			sites[x.in] = true
			vt := c.Sig.Results().At(0).Type()
			good := x.e.T.App("conv", kindOfConv(kind), vt)
			bad := x.e.T.App("badval", kind, vt)
			if zeroOnError(kind) {
				bad = x.e.zero(vt)
			}
			txt := c.Args[ti]
			for txt.op == "call" && txt.aux == "strings.TrimSpace" {
				txt = txt.args[0]
			}
			elem := isElement(txt)
			st, st2 := x.st, x.st.clone()
			mark := "need"
			if kindOfConv(kind) == "ParseDuration" || st.cl["dur"] != nil {
				mark = "fits"
			}
			if st.cl["dur"] != nil {
				delete(st.cl, "pend")
				delete(st.cl, "bad")
			}
			delete(st.cl, "dur")
			delete(st.cl, "app")
			if elem {
				delete(st.cl, "width")
				set(x, st2, "efail", "yes")
				delete(st2.cl, "app")
			} else {
				switch kindOfConv(kind) {
				case "ParseInt", "ParseUint", "ParseFloat", "ParseDuration":
					set(x, st, "width", mark)
				default:
					delete(st.cl, "width")
				}
				set(x, st2, "bad", "yes")
				delete(st2.cl, "width")
				if kind == "ParseDuration" {
					set(x, st2, "dur", "failed")
				}
			}
			if strict {
				setPend(x, st2, "a failed conversion")
			}
			return []CallRes{{st, []*Term{good, x.e.T.Nil()}}, {st2, []*Term{bad, failErr(x, "conv")}}}, true
		}
		if rs, ok := keyText(x, c); ok {
			return rs, ok
		}
		m := strings.TrimPrefix(strings.TrimPrefix(c.Name, "(reflect.Value)."), "(reflect.Type).")
		if m == c.Name {
			return nil, false
		}
		switch m {
		case "OverflowInt", "OverflowUint", "OverflowFloat":
			st2 := x.st.clone()
			set(x, x.st, "width", "fits")
			set(x, st2, "bad", "yes")
			if strict {
				setPend(x, st2, "a failed conversion")
			}
			r.obx(x, true, "overflow", m, "")
			return []CallRes{{x.st, []*Term{x.e.T.Bool(false)}}, {st2, []*Term{x.e.T.Bool(true)}}}, true
		}
		if setters[m] && strings.HasPrefix(c.Name, "(reflect.Value).") {
			b := clStr(x.st, "bad")
			r.obx(x, b == "", "left-alone", m+sfx, "a field is set although the conversion of its text failed")
			if len(c.Args) == 2 && (m == "SetInt" || m == "SetUint" || m == "SetFloat") {
				v := c.Args[1]
				for v.op == "convert" || v.op == "changetype" {
					v = v.args[0]
				}
				if v.op == "conv" {
					r.obx(x, clStr(x.st, "width") != "need", "overflow", m+sfx, "a field is set to a number that was not tested for overflow")
				}
			}
		}
		return nil, false
	}
	h := pendHooks(cfg)
	leave := h.ModLeave
	h.ModLeave = func(x *Ctx, c *CallInfo, ex *Exit, res []*Term) {
		for i, v := range ex.results {
			for v.op == "changetype" {
				v = v.args[0]
			}
			if res[i].op == "sym" && v.op == "conv" {
				res[i] = x.e.T.App("conv", v.aux, res[i].typ)
			}
		}
		leave(x, c, ex, res)
	}
	h.RangeExit = true
	h.BackEdge = func(x *Ctx, fr *Frame, head, st *State, hdr *ssa.BasicBlock) {
		if e := clStr(st, "efail"); e != "" && !strict {
			r.obx(x, st.cl["app"] != nil, "element", "dropped", "an element that does not convert is left out")
		}
		for _, k := range []string{"bad", "efail", "width", "dur", "app"} {
			delete(st.cl, k)
		}
	}
	h.Append = func(x *Ctx, base, tail, res *Term) {
		if x.st.cl["efail"] == nil || tail.op != "arr" || len(tail.args) != 1 {
			return
		}
		v := unbox(tail.args[0])
		set(x, x.st, "app", "")
		if !strict {
			r.obx(x, v.typ != nil && isZeroTerm(x, x.st, v, v.typ), "element", "collected", "an element that does not convert is collected as something other than the zero value")
		}
	}
	h.Store = func(x *Ctx, loc, val *Term) {
		if x.st.cl["efail"] == nil || loc.op != "&e" || loc.args[0].op == "alloc" {
			return
		}
		v := unbox(val)
		set(x, x.st, "app", "")
		if !strict {
			r.obx(x, v.typ != nil && isZeroTerm(x, x.st, v, v.typ), "element", "collected", "an element that does not convert is collected as something other than the zero value")
		}
	}
	h.FnExit = func(x *Ctx, ex *Exit) {
		if er := errResult(x.fr.fn, ex.results); er != nil && !strict && ex.st.cl["efail"] != nil {
			r.ob(x.e.knownNil(ex.st, er), "element", fnName(x.fr.fn), "return", "an element that does not convert ends the list although mapping is not strict", "", ex.ret)
		}
	}
	exit := pendExit(r, "reported", sfx, false)
	h.RootExit = func(x *Ctx, ex *Exit) {
		if strict {
			exit(x, ex)
			return
		}
		if b := clStr(ex.st, "bad"); b != "" {
			er := errResult(x.fr.fn, ex.results)
			r.ob(er != nil && x.e.knownNil(ex.st, er), "not-an-error", fnName(x.fr.fn), "return", "a failed conversion is reported although mapping is not strict", "", ex.ret)
		}
	}
	var roots []*ssa.Function
	for _, f := range errResultRoots(p, nil) {
		if strings.Contains(f.Name(), "MapTo") && strings.HasPrefix(f.Name(), "Strict") == strict {
			roots = append(roots, f)
		}
	}
	r.runModular(h, roots, nil)
	r.count("conversions"+sfx, len(sites))
}

// isElement: the value of an element of a list.
func isElement(t *Term) bool {
	if t.op == "init" || t.op == "hv" {
		return t.args[0].op == "&e"
	}
	if u, ok := t.in.(*ssa.UnOp); ok && t.op == "sym" {
		_, ok = u.X.(*ssa.IndexAddr)
		return ok
	}
	return false
}
