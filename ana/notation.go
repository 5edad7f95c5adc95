package main

import (
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Rule T04: one notation per type.

func init() { checks["T04"] = checkT04 }

// valueKind: which conversion a type is read with ("" if none).
func valueKind(t types.Type) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	switch typeShort(t) {
	case "time.Duration":
		return "ParseDuration"
	case "time.Time":
		return "ParseTime"
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return "bool"
	case b.Info()&types.IsUnsigned != 0:
		return "ParseUint"
	case b.Info()&types.IsInteger != 0:
		return "ParseInt"
	case b.Info()&types.IsFloat != 0:
		return "ParseFloat"
	}
	return ""
}

// kindOfConv: the notation a conversion reads.
func kindOfConv(kind string) string {
	if strings.HasPrefix(kind, "bool:") || kind == "ParseBool" {
		return "bool"
	}
	if kind == "ParseTimeIn" {
		return "ParseTime"
	}
	if kind == "Atoi" {
		return "ParseInt"
	}
	return kind
}

// changedText: the text was altered on its way to the conversion.
func changedText(t *Term) bool {
	return badText(t, func(t *Term) bool {
		switch t.op {
		case "concat":
			return true
		case "slice", "bytes2str", "runes2str":
			return t.typ != nil && isStringType(t.typ)
		case "call":
			return strings.HasPrefix(t.aux, "strings.") && t.aux != "strings.TrimSpace" && !strings.HasPrefix(t.aux, "strings.Split") || strings.HasPrefix(t.aux, "strconv.")
		}
		return false
	})
}

type t04 struct {
	r    *Rep
	mu   sync.Mutex
	bool map[string]string // functions that read truth values
}

const rfc3339 = `"2006-01-02T15:04:05Z07:00"`

// conversion applies the rules to one conversion; layout is the layout a time
// must be read with.
func (t *t04) conversion(x *Ctx, c *CallInfo, kind string, ti int, layout *Term) {
	where := c.Name
	arg := func(i int) *Term {
		if i < len(c.Args) {
			return c.Args[i]
		}
		return x.e.T.Nil()
	}
	switch kind {
	case "ParseInt", "ParseUint":
		t.r.obx(x, isInt(arg(1), 0), "notation", where+" base", "integers are read in a fixed base here, elsewhere by their prefix")
		t.r.obx(x, isInt(arg(2), 64), "notation", where+" width", "integers are read at another width than 64 bits")
	case "Atoi":
		t.r.obx(x, false, "notation", where, "integers are read in base ten only here, elsewhere by their prefix")
	case "ParseFloat":
		t.r.obx(x, isInt(arg(1), 64), "notation", where+" width", "floats are read at another width than 64 bits")
	case "ParseTime":
		ok := layout != nil && arg(0) == layout || layout == nil && arg(0).isConst() && arg(0).String() == rfc3339
		t.r.obx(x, ok, "notation", where+" layout", "times are read in a layout that is neither the given one nor RFC 3339")
	case "ParseTimeIn":
		ok := layout != nil && arg(0) == layout || layout == nil && arg(0).isConst() && arg(0).String() == rfc3339
		t.r.obx(x, ok && arg(2).String() == "gload{lib:time.UTC}()", "notation", where+" layout", "times are read in another layout or zone than elsewhere")
	}
	if kindOfConv(kind) == "bool" {
		t.mu.Lock()
		t.bool[where] = fnName(x.fr.fn)
		t.mu.Unlock()
	}
	t.r.obx(x, !changedText(arg(ti)), "text", where, "the text is altered before it is converted, unlike in the other reads")
}

func checkT04(p *Prog, r *Rep) {
	r.rule("every conversion reached from a typed read or from mapping: integers with base 0 and 64 bits, floats with 64 bits, times with the given layout or RFC 3339, truth values by one function; the text is converted unaltered; each read uses the conversion of its type, and numbers are not narrowed or turned into another kind on the way")
	r.need("notation", 6)
	r.need("kind", 30)
	r.need("set", 4)
	r.assumes("the key belongs to a file")
	t := &t04{r: r, bool: map[string]string{}}
	roots := keyMethods(p, func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		return rs.Len() > 0 && valueKind(rs.At(0).Type()) != ""
	})
	r.run(roots, func(fn *ssa.Function) (*Hooks, func(*Eng, *Frame, *State)) {
		want := valueKind(fn.Signature.Results().At(0).Type())
		_, isList := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		var layout *Term
		seen := false
		h := fullHooks()
		h.JoinCap = 8
		h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
			if kind, ti, ok := convInfo(x, c); ok {
				seen = true
				t.conversion(x, c, kind, ti, layout)
				r.obx(x, kindOfConv(kind) == want, "kind", fnName(fn)+": "+c.Name, "a read of one type uses the conversion of another")
				good, bad := convResults(x, c, kind)
				st2 := x.st.clone()
				x.st.cl["conv"] = x.e.T.App("v", "ok", nil, good)
				st2.cl["conv"] = x.e.T.App("v", "fail", nil, good)
				return []CallRes{{x.st, []*Term{good, x.e.T.Nil()}}, {st2, []*Term{bad, failErr(x, "conv")}}}, true
			}
			if strings.HasPrefix(c.Name, "fmt.Sscan") || strings.HasPrefix(c.Name, "fmt.Fscan") || c.Name == "encoding/json.Unmarshal" {
				r.obx(x, false, "notation", c.Name, "text is read in another notation than elsewhere")
			}
			if c.Kind == "ini" && c.Sig.Results().Len() == 1 && typeShort(c.Sig.Results().At(0).Type()) == "[]string" && len(x.e.fnInfo(c.Fn).loops) > 0 {
				return []CallRes{{x.st, nil}}, true
			}
			return keyText(x, c)
		}
		h.RootExit = func(x *Ctx, ex *Exit) {
			if isList || len(ex.results) != 2 {
				return
			}
			// plain reads return what was converted
			if cv := ex.st.cl["conv"]; cv != nil && cv.aux == "ok" {
				r.ob(stripConv(ex.results[0]) == cv.args[0], "kind", fnName(fn), "result", "the value converts but something else is returned", "", ex.ret)
			}
			if cv := ex.st.cl["conv"]; cv == nil {
				r.ob(x.e.knownNonNil(ex.st, ex.results[1]), "kind", fnName(fn), "no conversion", "a value is returned without converting the text", "", ex.ret)
			}
		}
		return h, func(e *Eng, fr *Frame, st *State) {
			if strings.Contains(fn.Name(), "Format") {
				for _, q := range fn.Params[1:] {
					if isStringType(q.Type()) {
						layout = e.T.Sym(fr, nil, q.Name(), q.Type())
						break
					}
				}
			}
			_ = seen
		}
	})
	t.mapping(p)
	var bs []string
	for b := range t.bool {
		bs = append(bs, b)
	}
	sort.Strings(bs)
	r.ob(len(bs) == 1, "notation", "truth values", "one function", "truth values are read by more than one function: "+strings.Join(bs, ", "), "", nil)
	t.widths(p, roots)
}

// setKinds: the conversions whose results a reflect setter may get.
var setKinds = map[string][]string{
	"SetInt": {"ParseInt", "ParseDuration"}, "SetUint": {"ParseUint"}, "SetFloat": {"ParseFloat"}, "SetBool": {"bool"},
}

func (t *t04) mapping(p *Prog) {
	r := t.r
	h := lightHooks()
	h.JoinCap, h.ExitCap, h.FactCap = 12, 12, 6
	h.Modular = func(x *Ctx, c *CallInfo) bool { return !isTinyPredicate(c.Fn) && !errWrap(c.Fn) }
	h.KeepFact = func(t *Term) bool { return t.op == "eq" && t.args[1].isNil() }
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		if kind, ti, ok := convInfo(x, c); ok {
			t.conversion(x, c, kind, ti, nil)
			good := x.e.T.App("conv", kindOfConv(kind), c.Sig.Results().At(0).Type())
			st2 := x.st.clone()
			return []CallRes{{x.st, []*Term{good, x.e.T.Nil()}}, {st2, []*Term{nil, failErr(x, "conv")}}}, true
		}
		if strings.HasPrefix(c.Name, "fmt.Sscan") || strings.HasPrefix(c.Name, "fmt.Fscan") {
			r.obx(x, false, "notation", c.Name, "text is read in another notation than elsewhere")
		}
		if m := strings.TrimPrefix(c.Name, "(reflect.Value)."); m != c.Name && setKinds[m] != nil && len(c.Args) == 2 {
			v := c.Args[1]
			for v.op == "convert" || v.op == "changetype" {
				v = v.args[0]
			}
			ok := true
			if v.op == "conv" {
				ok = false
				for _, k := range setKinds[m] {
					ok = ok || k == v.aux
				}
			}
			r.obx(x, ok, "set", m, "a field is set to a value read with the conversion of another type")
		}
		return nil, false
	}
	h.ModLeave = func(x *Ctx, c *CallInfo, ex *Exit, res []*Term) {
		for i, v := range ex.results {
			if res[i].op != "sym" {
				continue
			}
			for v.op == "changetype" {
				v = v.args[0]
			}
			if v.op == "conv" {
				res[i] = x.e.T.App("conv", v.aux, res[i].typ)
			} else if k, _ := errKind(v); k != "" {
				res[i] = failErr(x, k)
			}
		}
	}
	r.runModular(h, t.mapRoots(p), nil)
}

func (t *t04) mapRoots(p *Prog) []*ssa.Function {
	var roots []*ssa.Function
	for _, f := range p.exportedRoots() {
		if strings.Contains(f.Name(), "MapTo") && (recvName(f) == "Section") {
			roots = append(roots, f)
		}
	}
	return roots
}

// widths: numbers read keep their kind and width.
func (t *t04) widths(p *Prog, roots []*ssa.Function) {
	conv := map[*ssa.Function]bool{}
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if reach[f] || len(f.Blocks) == 0 {
			return
		}
		reach[f] = true
		cs, _ := p.callees(f)
		for _, g := range cs {
			visit(g)
		}
	}
	for _, f := range append(append([]*ssa.Function(nil), roots...), t.mapRoots(p)...) {
		visit(f)
	}
	// functions from which a conversion is reached
	for ch := true; ch; {
		ch = false
		for f := range reach {
			if conv[f] {
				continue
			}
			ok := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, isC := in.(ssa.CallInstruction); isC {
						n := calleeName(c.Common())
						if strings.HasPrefix(n, "strconv.Parse") || strings.HasPrefix(n, "time.Parse") {
							ok = true
						}
					}
				}
			}
			cs, _ := p.callees(f)
			for _, g := range cs {
				ok = ok || conv[g]
			}
			if ok {
				conv[f] = true
				ch = true
			}
		}
	}
	for f := range conv {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Convert)
				if !ok {
					continue
				}
				fb, _ := c.X.Type().Underlying().(*types.Basic)
				tb, _ := c.Type().Underlying().(*types.Basic)
				if fb == nil || tb == nil || fb.Info()&types.IsNumeric == 0 || tb.Info()&types.IsNumeric == 0 {
					continue
				}
				if _, isC := c.X.(*ssa.Const); isC || p.sizes.Sizeof(c.X.Type()) < 8 {
					continue
				}
				cl := func(b *types.Basic) int {
					switch {
					case b.Info()&types.IsFloat != 0:
						return 2
					case b.Info()&types.IsUnsigned != 0:
						return 1
					}
					return 0
				}
				ok = cl(fb) == cl(tb) && p.sizes.Sizeof(c.Type()) >= 8
				t.r.ob(ok, "width", fnName(f), typeShort(c.X.Type())+" to "+typeShort(c.Type()), "a number is narrowed or turned into another kind between its text and its use", "", in)
			}
		}
	}
}
