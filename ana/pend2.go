package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules E02 and W01, built on the propagation of failures.

func init() {
	checks["E02"] = checkE02
	checks["W01"] = checkW01
}

// errResultRoots: exported operations that report errors.
func errResultRoots(p *Prog, ok func(f *ssa.Function) bool) []*ssa.Function {
	var roots []*ssa.Function
	for _, f := range p.exportedRoots() {
		rs := f.Signature.Results()
		if rs.Len() > 0 && isErrType(rs.At(rs.Len()-1).Type()) && (ok == nil || ok(f)) {
			roots = append(roots, f)
		}
	}
	return roots
}

// reachesSource: the operation opens a data source.
func reachesSource(p *Prog) map[*ssa.Function]bool {
	reach := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.funcs {
			if reach[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if returnsSource(c.Common().Signature()) {
						reach[f] = true
					}
					if g := c.Common().StaticCallee(); g != nil && reach[g] {
						reach[f] = true
					}
				}
			}
			for _, a := range f.AnonFuncs {
				if reach[a] {
					reach[f] = true
				}
			}
			ch = ch || reach[f]
		}
	}
	return reach
}

// readOutcomes: reading succeeds or reaches the end of input.
func readOutcomes(x *Ctx, c *CallInfo) []outcome {
	m, _, ok := readSource(x, c)
	if !ok {
		return nil
	}
	n := c.Sig.Results().Len()
	mk := func(err *Term) outcome {
		res := make([]*Term, n)
		res[n-1] = err
		return outcome{res: res}
	}
	out := []outcome{mk(x.e.T.Nil())}
	switch m {
	case "ReadAll", "Err", "ReadFrom", "WriteTo", "Copy":
	default:
		out = append(out, mk(libErr(x, "io.EOF")))
	}
	return out
}

// closingMark: a search for the mark that ends a construct.
func closingMark(c *CallInfo) (string, bool) {
	if c.Kind != "lib" {
		return "", false
	}
	i := strings.LastIndex(c.Name, ".")
	if i < 0 || (c.Name[:i] != "strings" && c.Name[:i] != "bytes") || len(c.Args) != 2 {
		return "", false
	}
	nd := c.Args[1]
	s := ""
	switch c.Name[i+1:] {
	case "Index", "LastIndex":
		s, _ = constStr(nd)
	case "IndexByte", "LastIndexByte", "IndexRune":
		if n, ok := constInt(nd); ok && n == ']' {
			s = "]"
		}
	}
	switch s {
	case "]", `"""`, "`", `"`:
		return "a closing " + s, true
	}
	return "", false
}

func checkE02(p *Prog, r *Rep) {
	r.rule("an error made by any function on the loading path reaches the return of the operation (tolerated kinds only under their options, all four combinations analysed); a path on which the mark that closes a section header or quote was searched for and not found returns an error; empty names and unsuitable keys are refused; an unsupported source type is refused")
	r.need("reported", 3)
	r.need("closing-mark", 2)
	r.need("empty-name-refused", 3)
	r.need("unsuitable-key-refused", 3)
	r.need("unsupported-source-refused", 1)
	var fs []func()
	for _, skip := range []bool{false, true} {
		for _, boolean := range []bool{false, true} {
			skip, boolean := skip, boolean
			fs = append(fs, func() { e02Load(p, r, skip, boolean) })
		}
	}
	fs = append(fs, func() { e02Refuse(p, r) })
	par(fs)
}

// lookups: functions whose errors say that something is absent.
func isLookup(n string) bool {
	for _, s := range []string{"GetSection", "SectionsByName", "GetKey", "HasSection", "HasKey", "Haskey"} {
		if strings.HasSuffix(n, ")."+s) {
			return true
		}
	}
	return false
}

func e02Load(p *Prog, r *Rep, skip, boolean bool) {
	sfx := fmt.Sprintf(" (skip unrecognizable=%v, boolean keys=%v)", skip, boolean)
	cfg := &pendCfg{}
	cfg.call = func(x *Ctx, c *CallInfo) ([]CallRes, bool) {
		if c.Name == "strings.ToLower" && len(c.Args) == 1 {
			if v, ok := constStr(c.Args[0]); ok {
				return []CallRes{{x.st, []*Term{x.e.T.Str(strings.ToLower(v))}}}, true
			}
		}
		return nil, false
	}
	cfg.init = func(x *Ctx, loc *Term) *Term {
		if loc.op == "&g" && loc.aux == "DefaultSection" {
			return x.e.T.Str("DEFAULT") // any name that is not empty
		}
		if loc.op == "&f" {
			switch loc.aux {
			case "LoadOptions.Loose":
				return x.e.T.Bool(false)
			case "LoadOptions.SkipUnrecognizableLines":
				return x.e.T.Bool(skip)
			case "LoadOptions.AllowBooleanKeys":
				return x.e.T.Bool(boolean)
			}
		}
		return nil
	}
	tolerated := map[string]bool{}
	if boolean || skip {
		tolerated["ErrDelimiterNotFound"] = true
	}
	if skip {
		tolerated["ErrEmptyKeyName"] = true
	}
	cfg.made = func(x *Ctx, fn *ssa.Function, er *Term) string {
		for _, s := range x.e.stack {
			if isLookup(s) {
				return ""
			}
		}
		if isLookup(fnName(fn)) || !x.e.knownNonNil(x.st, er) {
			return ""
		}
		if er.op == "iface" && tolerated[recvTypeName(er.typ)] {
			return ""
		}
		if er.op == "iface" && recvTypeName(er.typ) != "" {
			return "an " + recvTypeName(er.typ) + " made by " + fnName(fn)
		}
		return "an error made by " + fnName(fn)
	}
	cfg.sources = func(x *Ctx, c *CallInfo) []outcome {
		if os := readOutcomes(x, c); os != nil {
			return os
		}
		if mark, ok := closingMark(c); ok {
			v := x.e.T.App("call", c.Name, types.Typ[types.Int], c.Args...)
			r.ob(true, "closing-mark", fnName(x.fr.fn), "search for "+mark, "", "", x.in)
			if x.st.cl["unclosed"] != nil || pendOf(x.st) != nil {
				// found, or still missing
				return []outcome{{res: []*Term{v}, cl: map[string]string{"unclosed": ""}}, {res: []*Term{x.e.T.Int(-1)}}}
			}
			return []outcome{{res: []*Term{v}}, {res: []*Term{x.e.T.Int(-1)}, cl: map[string]string{"unclosed": mark + " not found in " + fnName(x.fr.fn)}}}
		}
		return nil
	}
	h := pendHooks(cfg)
	exit := pendExit(r, "reported", sfx, false)
	h.RootExit = func(x *Ctx, ex *Exit) {
		exit(x, ex)
		er := errResult(x.fr.fn, ex.results)
		if u := ex.st.cl["unclosed"]; u != nil && er != nil {
			r.ob(x.e.knownNonNil(ex.st, er), "unclosed-reported", fnName(x.fr.fn), u.aux+sfx, "the operation can return without an error although "+u.aux, "", ex.ret)
		}
	}
	reach := reachesSource(p)
	r.runModular(h, errResultRoots(p, func(f *ssa.Function) bool {
		return reach[f] && (recvName(f) == "File" || recvTypeName(deref(f.Signature.Results().At(0).Type())) == "File")
	}), nil)
}

// e02Refuse: arguments and keys that must be refused.
func e02Refuse(p *Prog, r *Rep) {
	run := func(roots []*ssa.Function, field, rule, what string, ent func(e *Eng, fn *ssa.Function) modEntry) {
		h := lightHooks()
		h.JoinCap, h.ExitCap, h.FactCap = 8, 8, 6
		h.Modular = func(x *Ctx, c *CallInfo) bool { return true }
		h.Track = func(reg string) bool { return reg == "f:"+field }
		h.HavocKeep = func(f string) bool { return f == field }
		h.KeepFact = func(t *Term) bool { return t.op == "eq" && t.args[1].isNil() }
		h.Init = func(x *Ctx, loc *Term) *Term {
			if loc.op == "&f" && loc.aux == field && rootOf(loc).op != "alloc" {
				return x.e.T.Bool(true)
			}
			return nil
		}
		h.RootExit = func(x *Ctx, ex *Exit) {
			er := errResult(x.fr.fn, ex.results)
			r.ob(er != nil && x.e.knownNonNil(ex.st, er), rule, fnName(x.fr.fn), what, "the operation can return without an error: "+what, "", ex.ret)
		}
		r.runModular(h, roots, ent)
	}
	var byName, onKey, shadow []*ssa.Function
	for _, f := range errResultRoots(p, nil) {
		switch recvName(f) + "." + f.Name() {
		case "File.NewSection", "File.NewRawSection", "Section.NewKey", "Section.NewBooleanKey":
			byName = append(byName, f)
		case "Key.AddShadow":
			onKey = append(onKey, f)
			shadow = append(shadow, f)
		case "Key.AddNestedValue":
			onKey = append(onKey, f)
		}
	}
	run(byName, "-", "empty-name-refused", "the name is empty", func(e *Eng, fn *ssa.Function) modEntry {
		m := modEntry{args: make([]*Term, len(fn.Params))}
		m.args[1] = e.T.Str("")
		return m
	})
	run(onKey, "Key.isBooleanType", "unsuitable-key-refused", "the key is a boolean key", nil)
	run(onKey, "Key.isAutoIncrement", "unsuitable-key-refused", "the key is an auto-increment key", nil)
	run(shadow, "Key.isShadow", "unsuitable-key-refused", "the key is itself a shadow", nil)
	// a source of an unknown type
	for _, f := range p.funcs {
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if f.Parent() != nil || rs.Len() != 2 || !isErrType(rs.At(1).Type()) || ps.Len() == 0 {
			continue
		}
		n, ok := types.Unalias(rs.At(0).Type()).(*types.Named)
		if !ok || n.Obj().Name() != "dataSource" {
			continue
		}
		idx := -1
		for i := 0; i < ps.Len(); i++ {
			if it, ok := ps.At(i).Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				idx = i
			}
		}
		if idx < 0 {
			continue
		}
		f := f
		h := lightHooks()
		h.JoinCap, h.ExitCap, h.FactCap = 12, 12, 8
		h.KeepFact = func(t *Term) bool { return t.op == "istype" || t.op == "eq" }
		h.Modular = func(x *Ctx, c *CallInfo) bool { return false }
		h.RootExit = func(x *Ctx, ex *Exit) {
			er := errResult(f, ex.results)
			if er == nil || !x.e.knownNil(ex.st, er) {
				return
			}
			known := false
			for t, pol := range ex.st.facts {
				if t.op == "istype" && pol {
					known = true
				}
			}
			r.ob(known, "unsupported-source-refused", fnName(f), errWhat(ex.results[0]), "a source is accepted although none of the supported types was recognised", "", ex.ret)
		}
		r.runModular(h, []*ssa.Function{f}, nil)
	}
}

// ---------------------------------------------------------------- W01

// destWrite: operations that touch the destination, with an error result.
func destWrite(c *CallInfo) bool {
	i := strings.LastIndex(c.Name, ".")
	if i < 0 {
		return false
	}
	recv, m := c.Name[:i], c.Name[i+1:]
	switch recv {
	case "os":
		switch m {
		case "Create", "OpenFile", "WriteFile", "Rename", "Truncate", "CreateTemp", "Chmod", "Link", "Symlink", "Remove":
			return true
		}
	case "io/ioutil":
		return m == "WriteFile" || m == "TempFile"
	case "(*os.File)":
		switch m {
		case "Write", "WriteString", "WriteAt", "Close", "Sync", "Truncate", "ReadFrom", "Chmod":
			return true
		}
	case "(io.Writer)", "(io.StringWriter)", "(io.WriteCloser)", "(io.Closer)", "(io.WriterTo)", "(*bufio.Writer)":
		return m == "Write" || m == "WriteString" || m == "Close" || m == "Flush" || m == "WriteTo" || m == "WriteByte" || m == "WriteRune" || m == "ReadFrom"
	case "(*bytes.Buffer)", "(*bytes.Reader)", "(*strings.Reader)":
		return m == "WriteTo"
	case "io":
		return m == "Copy" || m == "WriteString" || m == "CopyN" || m == "CopyBuffer"
	case "fmt":
		return strings.HasPrefix(m, "Fprint")
	}
	return false
}

// encodes: operations that add to an in-memory encoding.
func encodes(c *CallInfo) bool {
	i := strings.LastIndex(c.Name, ".")
	if i < 0 {
		return false
	}
	recv, m := c.Name[:i], c.Name[i+1:]
	return (recv == "(*bytes.Buffer)" || recv == "(*strings.Builder)") && strings.HasPrefix(m, "Write") && m != "WriteTo"
}

func checkW01(p *Prog, r *Rep) {
	r.rule("writing and saving: every operation on the destination is split into success and failure, and every path after a failure returns an error; nothing is encoded after the destination was first touched; an existing file is truncated; the bytes handed to the destination are those of the encoding buffer")
	r.need("reported", 2)
	r.need("encode-before-write", 2)
	r.need("content", 1)
	r.assumes("an io.Writer that writes less than it was given returns an error (its contract)", "closing a file opened only for reading cannot lose data")
	cfg := &pendCfg{}
	memBuf := func(t *Term) bool {
		for t.op == "iface" || t.op == "changeiface" || t.op == "changetype" {
			if memReader(t.typ) {
				return true
			}
			t = t.args[0]
		}
		return t.typ != nil && (memReader(t.typ) || t.typ.String() == "*strings.Builder")
	}
	cfg.sources = func(x *Ctx, c *CallInfo) []outcome {
		if c.Kind == "ini" || c.Kind == "dyn" {
			return nil
		}
		into := c.Name
		toMem := (strings.HasPrefix(c.Name, "fmt.Fprint") || strings.HasPrefix(c.Name, "io.") || strings.HasPrefix(c.Name, "(io.")) && len(c.Args) > 0 && memBuf(c.Args[0])
		if encodes(c) || toMem {
			r.ob(x.st.cl["touched"] == nil, "encode-before-write", fnName(x.fr.fn), into, "encodes after the destination was touched", "", x.in)
			return nil
		}
		if !destWrite(c) {
			return nil
		}
		n := c.Sig.Results().Len()
		if n == 0 || !isErrType(c.Sig.Results().At(n-1).Type()) {
			return nil
		}
		r.ob(true, "encode-before-write", fnName(x.fr.fn), into, "", "", x.in)
		switch c.Name {
		case "os.OpenFile":
			fl, ok := constInt(c.Args[1])
			if ok && fl&3 != 0 { // opened for writing
				r.ob(fl&0x200 != 0 && fl&0x400 == 0, "content", fnName(x.fr.fn), "os.OpenFile flags", "an existing file is not truncated before it is written", "", x.in)
			}
		case "io/ioutil.WriteFile", "os.WriteFile":
			r.ob(bufBytes(c.Args[1]), "content", fnName(x.fr.fn), into, "what is written is not the content of the encoding buffer", "", x.in)
		case "(io.Writer).Write", "(*os.File).Write", "(*bufio.Writer).Write", "(io.WriteCloser).Write":
			r.ob(bufBytes(c.Args[1]), "content", fnName(x.fr.fn), into, "what is written is not the content of the encoding buffer", "", x.in)
		case "io.WriteString", "(*os.File).WriteString":
			r.ob(bufBytes(c.Args[1]), "content", fnName(x.fr.fn), into, "what is written is not the content of the encoding buffer", "", x.in)
		default:
			if strings.HasSuffix(c.Name, ".WriteTo") {
				r.ob(true, "content", fnName(x.fr.fn), into, "", "", x.in)
			}
		}
		mk := func(err *Term, fail string) outcome {
			res := make([]*Term, n)
			res[n-1] = err
			o := outcome{res: res, fail: fail, cl: map[string]string{"touched": "touched"}}
			buffered := func(i int) bool {
				return len(c.Args) > i && strings.Contains(typeOf(c.Args[i]), "*bufio.Writer")
			}
			switch {
			case c.Name == "(*bufio.Writer).Flush":
				o.cl["unflushed"] = ""
			case buffered(0) && !strings.HasPrefix(c.Name, "(*bytes."), buffered(1):
				o.cl["unflushed"] = "unflushed"
			}
			return o
		}
		if c.Name == "os.Remove" || c.Name == "(*os.File).Chmod" || c.Name == "os.Chmod" {
			return nil
		}
		if pendOf(x.st) != nil {
			return nil
		}
		return []outcome{mk(x.e.T.Nil(), ""), mk(failErr(x, "any"), "a failed "+c.Name)}
	}
	h := pendHooks(cfg)
	// functions given the encoding buffer or its content are followed with it
	mod := h.Modular
	h.Modular = func(x *Ctx, c *CallInfo) bool {
		for _, a := range c.Args {
			if bufBytes(a) || a.op == "iface" && memBuf(a) {
				return false
			}
		}
		return mod(x, c)
	}
	exit := pendExit(r, "reported", "", false)
	h.RootExit = func(x *Ctx, ex *Exit) {
		exit(x, ex)
		if er := errResult(x.fr.fn, ex.results); er != nil && ex.st.cl["unflushed"] != nil {
			r.ob(x.e.knownNonNil(ex.st, er), "flushed", fnName(x.fr.fn), "buffered writer", "the operation can return without an error before the buffered bytes were written out", "", ex.ret)
		}
	}
	roots := errResultRoots(p, func(f *ssa.Function) bool {
		return recvName(f) == "File" && (strings.HasPrefix(f.Name(), "WriteTo") || strings.HasPrefix(f.Name(), "SaveTo"))
	})
	r.runModular(h, roots, nil)
}

// bufBytes: the term is the content of an in-memory buffer.
func bufBytes(t *Term) bool {
	switch t.op {
	case "call":
		switch t.aux {
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
			return true
		}
	case "slice":
		return bufBytes(t.args[0])
	case "convert", "str2bytes", "bytes2str", "changetype", "conv":
		return bufBytes(t.args[0])
	case "sym":
		return strings.Contains(t.aux, "(*bytes.Buffer).Bytes") || strings.Contains(t.aux, "(*bytes.Buffer).String")
	}
	return false
}

func constStr(t *Term) (string, bool) {
	if t.op == "const" && t.val != nil && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}

// typeOf: the (dynamic) type of a value, as text.
func typeOf(t *Term) string {
	if t.typ == nil {
		return ""
	}
	return t.typ.String()
}
