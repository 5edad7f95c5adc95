package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error propagation: a failure that happened on a path must be what the
// operation reports. A source splits the path into outcomes; an outcome that is
// a failure leaves a pending mark that only an error result discharges.

type outcome struct {
	res  []*Term // results of the call (nil entries: anything)
	fail string  // not empty: this outcome is a failure that must be reported
	drop bool    // a pending failure is made good by this outcome
	cl   map[string]string
}

type pendCfg struct {
	rule    string
	sources func(x *Ctx, c *CallInfo) []outcome
	// errors made by functions of the package (nil: not sources)
	made func(x *Ctx, fn *ssa.Function, err *Term) string
	init func(x *Ctx, loc *Term) *Term
	call func(x *Ctx, c *CallInfo) ([]CallRes, bool)
	sfx  string
	exit func(x *Ctx, ex *Exit)
}

func pendOf(st *State) *Term { return st.cl["pend"] }

func setPend(x *Ctx, st *State, what string) {
	if st.cl["pend"] == nil {
		st.cl["pend"] = x.e.T.App("pend", what, nil)
	}
}

// memReader: readers that cannot fail.
func memReader(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.String() {
	case "*bytes.Buffer", "*bytes.Reader", "*strings.Reader":
		return true
	}
	return false
}

// isTinyPredicate: small functions that only compute a truth value are analysed
// with their actual arguments.
func isTinyPredicate(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() == 1 && isBoolType(rs.At(0).Type()) && len(fn.Blocks) <= 4
}

// scalarWrap: straight-line functions, followed with their actual arguments.
func errWrap(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	if rs.Len() != 1 || !isErrType(rs.At(0).Type()) || len(fn.Blocks) > 6 {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if isErrType(fn.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func pendHooks(cfg *pendCfg) *Hooks {
	h := lightHooks()
	h.JoinCap, h.ExitCap, h.FactCap = 12, 12, 6
	h.Modular = func(x *Ctx, c *CallInfo) bool { return !isTinyPredicate(c.Fn) && !errWrap(c.Fn) }
	h.Track = func(reg string) bool { return strings.HasPrefix(reg, "f:LoadOptions.") }
	h.HavocKeep = func(f string) bool { return strings.HasPrefix(f, "LoadOptions.") }
	h.KeepFact = func(t *Term) bool {
		return t.op == "eq" && (t.args[1].isNil() || t.args[1].op == "gload") || t.op == "istype"
	}
	h.Init = func(x *Ctx, loc *Term) *Term {
		if cfg.init != nil {
			return cfg.init(x, loc)
		}
		return nil
	}
	h.TypeAssert = func(x *Ctx, v *Term, t types.Type, commaOk bool) {
		// errors made by the standard library are of none of the package's types
		if k, _ := errKind(v); k == "made" || k == "open" || k == "notexist" || k == "other" {
			if _, isI := t.Underlying().(*types.Interface); !isI && isPkgType(x.e, t) {
				x.st.facts[x.e.T.App("istype", typeShort(t), types.Typ[types.Bool], v)] = false
			}
		}
	}
	h.Call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		if cfg.call != nil {
			if rs, ok := cfg.call(x, c); ok {
				return rs, ok
			}
		}
		// questions about an error
		switch c.Name {
		case "errors.Is":
			if len(c.Args) == 2 && c.Args[1].op == "gload" {
				a, b := c.Args[0], c.Args[1]
				if a.op == "gload" {
					return []CallRes{{x.st, []*Term{x.e.T.Bool(a == b)}}}, true
				}
				if k, _ := errKind(a); k != "" && k != "any" {
					ne := isNotExistName(b.aux)
					if !ne || k != "open" {
						return []CallRes{{x.st, []*Term{x.e.T.Bool(ne && k == "notexist")}}}, true
					}
				}
			}
		case "errors.As":
			if len(c.Args) == 2 && c.Args[1].op == "iface" {
				t := deref(c.Args[1].typ)
				if _, isI := t.Underlying().(*types.Interface); isI || !isPkgType(x.e, t) {
					break
				}
				a := c.Args[0]
				if k, w := errKind(a); k == "made" && !w {
					return []CallRes{{x.st, []*Term{x.e.T.Bool(false)}}}, true
				}
				if a.op == "iface" && isPkgType(x.e, a.typ) && !types.Identical(a.typ, t) {
					return []CallRes{{x.st, []*Term{x.e.T.Bool(false)}}}, true
				}
			}
		case "os.IsNotExist":
			if k, wrapped := errKind(c.Args[0]); k != "" && k != "any" && (k != "open" || wrapped) {
				return []CallRes{{x.st, []*Term{x.e.T.Bool(k == "notexist" && !wrapped)}}}, true
			}
		}
		if cfg.sources == nil {
			return nil, false
		}
		os := cfg.sources(x, c)
		if os == nil {
			return nil, false
		}
		var out []CallRes
		for i, o := range os {
			st := x.st
			if i < len(os)-1 {
				st = x.st.clone()
			}
			if o.drop {
				delete(st.cl, "pend")
			}
			if o.fail != "" {
				setPend(x, st, o.fail+" in "+fnName(x.fr.fn))
			}
			for k, v := range o.cl {
				if v == "" {
					delete(st.cl, k)
				} else {
					st.cl[k] = x.e.T.App("v", v, nil)
				}
			}
			out = append(out, CallRes{st, o.res})
		}
		return out, true
	}
	h.Branch = func(x *Ctx, cond *Term, taken bool) bool {
		for cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == "eq" && taken {
			a, b := cond.args[0], cond.args[1]
			if isFailErr(b) {
				a, b = b, a
			}
			if isFailErr(a) && (b.op == "gload" && a.aux != "any" || b.isNil()) {
				return false
			}
		}
		return true
	}
	h.ModEnter = func(x *Ctx, c *CallInfo) modEntry {
		m := modEntry{cl: map[string]*Term{}}
		for k, v := range x.st.cl {
			m.cl[k] = v
		}
		for _, a := range c.Args {
			if a.op == "iface" && memReader(a.typ) {
				m.cl["inmem"] = x.e.T.App("v", "inmem", nil)
			}
		}
		return m
	}
	h.ModLeave = func(x *Ctx, c *CallInfo, ex *Exit, res []*Term) {
		inmem := x.st.cl["inmem"]
		x.st.cl = map[string]*Term{}
		for k, v := range ex.st.cl {
			x.st.cl[k] = v
		}
		if inmem == nil {
			delete(x.st.cl, "inmem")
		}
		for i, t := range ex.results {
			if k, w := errKind(t); k != "" && res[i].op == "sym" {
				if w {
					k = "wrapped:" + k
				}
				res[i] = failErr(x, k)
			} else if res[i].op == "sym" && t.op == "iface" && isErrType(res[i].typ) {
				res[i] = x.e.T.App("iface", t.aux, t.typ, res[i])
			}
		}
	}
	h.FnExit = func(x *Ctx, ex *Exit) {
		if cfg.made != nil && pendOf(ex.st) == nil {
			if er := errResult(x.fr.fn, ex.results); er != nil && !x.e.knownNil(ex.st, er) {
				if w := cfg.made(x, x.fr.fn, er); w != "" {
					setPend(x, ex.st, w)
				}
			}
		}
		if cfg.exit != nil {
			cfg.exit(x, ex)
		}
	}
	return h
}

func isPkgType(e *Eng, t types.Type) bool {
	if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == e.pkg.Pkg
}

// errKind: what is known about the origin of an error value, and whether it is
// wrapped in another error.
func errKind(t *Term) (kind string, wrapped bool) {
	if isFailErr(t) {
		if k := strings.TrimPrefix(t.aux, "wrapped:"); k != t.aux {
			return k, true
		}
		return t.aux, false
	}
	if t.op == "call" && t.aux == "errors.New" {
		return "made", false
	}
	if t.op == "call" && t.aux == "fmt.Errorf" && len(t.args) > 0 {
		f := t.args[0]
		if !f.isConst() || strings.Contains(f.String(), "%w") {
			if len(t.args) > 1 {
				for _, a := range t.args[1].args {
					if a.op == "iface" || a.op == "changeiface" {
						a = a.args[0]
					}
					if k, _ := errKind(a); k != "" {
						return k, true
					}
				}
			}
			return "", false
		}
		return "made", false
	}
	return "", false
}

// failErr is the error value of a failure of the given kind.
func failErr(x *Ctx, kind string) *Term {
	return x.e.T.App("failerr", kind, types.Universe.Lookup("error").Type())
}
func isFailErr(t *Term) bool { return t.op == "failerr" }

func isNotExistName(aux string) bool {
	return strings.HasSuffix(aux, ".ErrNotExist")
}

func libErr(x *Ctx, name string) *Term {
	return x.e.T.App("gload", "lib:"+name, types.Universe.Lookup("error").Type())
}

// pendExit: the obligation at the end of an operation.
func pendExit(r *Rep, rule, sfx string, wantNil bool) func(x *Ctx, ex *Exit) {
	return func(x *Ctx, ex *Exit) {
		er := errResult(x.fr.fn, ex.results)
		if er == nil {
			return
		}
		p := pendOf(ex.st)
		if p == nil {
			r.ob(true, rule+"-clean", fnName(x.fr.fn), "return"+sfx, "", "", ex.ret)
			return
		}
		ok := x.e.knownNonNil(ex.st, er)
		r.ob(ok, rule, fnName(x.fr.fn), p.aux+sfx, "the operation can return without an error although "+p.aux+" happened", "", ex.ret)
		if wantNil && ok {
			for i, t := range ex.results {
				if t == er || t.typ == nil && !t.isNil() {
					continue
				}
				if pt, isP := x.fr.fn.Signature.Results().At(i).Type().(*types.Pointer); isP && recvTypeName(pt.Elem()) == "File" {
					r.ob(x.e.knownNil(ex.st, t), "no-file-with-error", fnName(x.fr.fn), p.aux+sfx, "a file is returned together with the error", "", ex.ret)
				}
			}
		}
	}
}

func recvTypeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func init() {
	checks["E01"] = checkE01
}

var readerMethods = map[string]bool{"Peek": true, "Read": true, "ReadBytes": true, "ReadString": true, "ReadByte": true, "ReadRune": true, "ReadLine": true, "ReadSlice": true, "Discard": true, "WriteTo": true}

// readSource: operations that read from a source, with their outcomes.
func readSource(x *Ctx, c *CallInfo) (method string, errIdx int, ok bool) {
	if c.Kind != "lib" && c.Kind != "iface" {
		return "", 0, false
	}
	n := c.Sig.Results().Len()
	if n == 0 || !isErrType(c.Sig.Results().At(n-1).Type()) {
		return "", 0, false
	}
	if i := strings.LastIndex(c.Name, "."); i > 0 {
		recv, m := c.Name[:i], c.Name[i+1:]
		switch recv {
		case "(*bufio.Reader)", "(io.Reader)", "(io.ReadCloser)", "(*os.File)", "(io.ByteReader)", "(io.RuneReader)":
			if readerMethods[m] {
				return m, n - 1, true
			}
		case "io", "io/ioutil":
			switch m {
			case "ReadAll", "ReadFull", "ReadAtLeast", "Copy", "CopyN", "CopyBuffer":
				return m, n - 1, true
			}
		case "(*bufio.Scanner)":
			if m == "Err" {
				return m, n - 1, true
			}
		case "(*bytes.Buffer)":
			if m == "ReadFrom" {
				return m, n - 1, true
			}
		}
	}
	return "", 0, false
}

func checkE01(p *Prog, r *Rep) {
	r.rule("every call that opens or reads a source is split into success, end of input (where the call can report it), and failure; on every path after a failure each exported operation returns a non-nil error, and loading returns no file; only a missing file under the loose option may be tolerated")
	r.need("reported", 4)
	r.assumes("a reader over memory does not fail", "bufio's Peek reports only end of input, a full buffer, or the reader's own error")
	par([]func(){func() { e01Mode(p, r, false) }, func() { e01Mode(p, r, true) }})
}

func e01Mode(p *Prog, r *Rep, loose bool) {
	{
		sfx := fmt.Sprintf(" (loose=%v)", loose)
		cfg := &pendCfg{rule: "reported"}
		cfg.init = func(x *Ctx, loc *Term) *Term {
			if loc.op == "&f" && loc.aux == "LoadOptions.Loose" {
				return x.e.T.Bool(loose)
			}
			return nil
		}
		sites := map[ssa.Instruction]bool{}
		cfg.sources = func(x *Ctx, c *CallInfo) []outcome {
			n := c.Sig.Results().Len()
			mk := func(err *Term, fail string) outcome {
				res := make([]*Term, n)
				res[n-1] = err
				return outcome{res: res, fail: fail}
			}
			pending := pendOf(x.st) != nil
			switch c.Name {
			case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile", "os.Stat":
				sites[x.in] = true
				if pending {
					return nil
				}
				out := []outcome{mk(x.e.T.Nil(), "")}
				if c.Name == "os.Stat" {
					return nil
				}
				if loose {
					out = append(out, mk(failErr(x, "notexist"), ""), mk(failErr(x, "other"), "a failed "+c.Name))
				} else {
					out = append(out, mk(failErr(x, "open"), "a failed "+c.Name))
				}
				return out
			}
			m, _, ok := readSource(x, c)
			if !ok || pending {
				return nil
			}
			sites[x.in] = true
			out := []outcome{mk(x.e.T.Nil(), "")}
			switch m {
			case "ReadAll", "Err", "ReadFrom", "WriteTo", "Copy":
			default:
				out = append(out, mk(libErr(x, "io.EOF"), ""))
			}
			if m == "ReadFull" || m == "ReadAtLeast" {
				out = append(out, mk(libErr(x, "io.ErrUnexpectedEOF"), ""))
			}
			if m == "Peek" || m == "ReadSlice" {
				out = append(out, mk(libErr(x, "bufio.ErrBufferFull"), ""))
			}
			if x.st.cl["inmem"] == nil && !(len(c.Args) > 0 && memReader(c.Args[0].typ)) {
				out = append(out, mk(failErr(x, "read"), "a failed "+c.Name))
			}
			return out
		}
		h := pendHooks(cfg)
		h.RootExit = pendExit(r, "reported", sfx, true)
		var roots []*ssa.Function
		for _, f := range p.exportedRoots() {
			rs := f.Signature.Results()
			if rs.Len() > 0 && isErrType(rs.At(rs.Len()-1).Type()) {
				roots = append(roots, f)
			}
		}
		r.runModular(h, roots, nil)
		r.count("read_sites", len(sites))
	}
}

// par runs independent analyses concurrently.
func par(fs []func()) {
	done := make(chan bool)
	for _, f := range fs {
		f := f
		go func() {
			defer func() { done <- true }()
			f()
		}()
	}
	for range fs {
		<-done
	}
}
