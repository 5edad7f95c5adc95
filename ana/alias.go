package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Origins of reference values: a flow-insensitive alias analysis within
// functions, context-sensitive across calls through summaries.

// origin says what a reference value may point to or into.
type origin struct {
	kind byte // 'P' parameter, 'I' a table or list of a file, section or key, 'G' package-level variable
	idx  int  // parameter number
	deep bool // reachable from it rather than itself
	name string
}

type oset map[origin]bool

func (s oset) addAll(o oset) bool {
	ch := false
	for k := range o {
		if !s[k] {
			s[k] = true
			ch = true
		}
	}
	return ch
}

func (s oset) has(kind byte) (origin, bool) {
	var best origin
	found := false
	for o := range s {
		if o.kind == kind && (!found || o.name < best.name) {
			best, found = o, true
		}
	}
	return best, found
}

// effect is something a function does to what its values point to.
type effect struct {
	what string // "mutate", "retain:<field>", "lib:<function>", "user"
	org  origin
}

type fnAlias struct {
	fn      *ssa.Function
	vals    map[ssa.Value]oset
	results []oset
	effects map[effect]ssa.Instruction
	via     map[effect]string
}

type Alias struct {
	p     *Prog
	fns   map[*ssa.Function]*fnAlias
	cells map[ssa.Value]oset // contents of local variables whose address is taken
	field map[string]oset    // what fields of helper structs may hold (I and G only)
	ch    bool
}

// refType: values of the type may lead to shared memory.
func refType(t types.Type) bool { return refType1(t, map[types.Type]bool{}) }
func refType1(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType1(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return refType1(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType1(u.At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// collType: slices and maps (what can be an alias of internal storage).
func collType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

var storageTypes = map[string]bool{"File": true, "Section": true, "Key": true}

func storageField(key string) bool {
	i := strings.Index(key, ".")
	return i > 0 && storageTypes[key[:i]]
}

func newAlias(p *Prog) *Alias {
	a := &Alias{p: p, fns: map[*ssa.Function]*fnAlias{}, cells: map[ssa.Value]oset{}, field: map[string]oset{}}
	for _, f := range p.funcs {
		a.fns[f] = &fnAlias{fn: f, vals: map[ssa.Value]oset{}, effects: map[effect]ssa.Instruction{}, via: map[effect]string{}}
	}
	for round := 0; round < 40; round++ {
		a.ch = false
		for _, f := range p.funcs {
			a.analyse(a.fns[f])
		}
		if !a.ch {
			break
		}
	}
	return a
}

func deepen(s oset) oset {
	n := oset{}
	for o := range s {
		o.deep = true
		n[o] = true
	}
	return n
}

func (a *Alias) get(fa *fnAlias, v ssa.Value) oset {
	switch x := v.(type) {
	case *ssa.Global:
		return oset{origin{'G', 0, false, x.Pkg.Pkg.Path() + "." + x.Name()}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin, nil:
		return nil
	case *ssa.Parameter:
		for i, p := range fa.fn.Params {
			if p == x {
				if !refType(x.Type()) {
					return nil
				}
				return oset{origin{'P', i, false, x.Name()}: true}
			}
		}
		return nil
	case *ssa.FreeVar:
		return a.freeVar(x)
	}
	return fa.vals[v]
}

// freeVar: what closures were given for a free variable.
func (a *Alias) freeVar(x *ssa.FreeVar) oset {
	out := oset{}
	for _, b := range a.bindings(x) {
		pf := a.fns[b.parent]
		if pf == nil {
			continue
		}
		// parameters of the enclosing function are out of scope here
		for o := range a.get(pf, b.v) {
			if o.kind != 'P' {
				out[o] = true
			}
		}
	}
	return out
}

type binding struct {
	parent *ssa.Function
	v      ssa.Value
}

func (a *Alias) bindings(x *ssa.FreeVar) (out []binding) {
	fn := x.Parent()
	idx := -1
	for i, fv := range fn.FreeVars {
		if fv == x {
			idx = i
		}
	}
	par := fn.Parent()
	if par == nil || idx < 0 {
		return nil
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				out = append(out, binding{par, mc.Bindings[idx]})
			}
		}
	}
	return
}

// cell is the local variable an address denotes, if it is one.
func (a *Alias) cell(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			bs := a.bindings(x)
			if len(bs) == 0 {
				return nil
			}
			v = bs[0].v
		default:
			return nil
		}
	}
	return nil
}

func (a *Alias) set(fa *fnAlias, v ssa.Value, s oset) {
	if len(s) == 0 {
		return
	}
	m := fa.vals[v]
	if m == nil {
		m = oset{}
		fa.vals[v] = m
	}
	if m.addAll(s) {
		a.ch = true
	}
}

func heapOnly(s oset) oset {
	n := oset{}
	for o := range s {
		if o.kind != 'P' {
			n[o] = true
		}
	}
	return n
}

func (a *Alias) eff(fa *fnAlias, what string, s oset, in ssa.Instruction, via string) {
	for o := range s {
		e := effect{what, o}
		if _, ok := fa.effects[e]; !ok {
			fa.effects[e] = in
			fa.via[e] = via
			a.ch = true
		}
	}
}

// addrBase walks from an address to the object it lies in.
func addrBase(v ssa.Value) (base ssa.Value, key string) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if key == "" {
				key, _ = fieldKeyOf(x.X, x.Field)
			}
			v = x.X
		case *ssa.IndexAddr:
			if key == "" {
				key = "[]"
			}
			v = x.X
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				return v, key
			}
		default:
			return v, key
		}
	}
}

// into: v is put into container (element of a slice or map).
func (a *Alias) into(fa *fnAlias, container ssa.Value, v ssa.Value) {
	s := a.get(fa, v)
	if len(s) == 0 {
		return
	}
	n := oset{}
	for o := range s {
		if o.kind == 'I' && !collType(v.Type()) {
			continue
		}
		if o.kind == 'P' {
			continue
		}
		o.deep = true
		n[o] = true
	}
	r := container
	for {
		if sl, ok := r.(*ssa.Slice); ok {
			r = sl.X
			continue
		}
		break
	}
	switch r.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return
	}
	a.set(fa, r, n)
}

func (a *Alias) load(fa *fnAlias, addr ssa.Value, t types.Type) oset {
	if !refType(t) {
		return nil
	}
	out := oset{}
	base, key := addrBase(addr)
	if key == "" {
		if g, ok := base.(*ssa.Global); ok {
			out[origin{'G', 0, true, g.Pkg.Pkg.Path() + "." + g.Name()}] = true
			return out
		}
		if c := a.cell(base); c != nil {
			out.addAll(a.cells[c])
			return out
		}
		out.addAll(deepen(a.get(fa, base)))
		return out
	}
	// a field of a struct variable
	if c := a.cell(base); c != nil && key != "[]" {
		out.addAll(a.cells[c])
	}
	for o := range a.get(fa, base) {
		if o.kind == 'I' && !collType(t) {
			continue
		}
		o.deep = true
		out[o] = true
	}
	if key != "[]" {
		if storageField(key) {
			if collType(t) {
				out[origin{'I', 0, false, key}] = true
			}
		}
		out.addAll(a.field[key])
	}
	return out
}

func (a *Alias) analyse(fa *fnAlias) {
	fn := fa.fn
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for _, ed := range x.Edges {
					a.set(fa, x, a.get(fa, ed))
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					a.set(fa, x, a.load(fa, x.X, x.Type()))
				}
			case *ssa.FieldAddr:
				a.set(fa, x, a.get(fa, x.X))
			case *ssa.IndexAddr:
				a.set(fa, x, a.get(fa, x.X))
			case *ssa.Field:
				if refType(x.Type()) {
					a.set(fa, x, deepen(a.get(fa, x.X)))
					k, _ := fieldKeyOf(x.X, x.Field)
					if storageField(k) && collType(x.Type()) {
						a.set(fa, x, oset{origin{'I', 0, false, k}: true})
					}
				}
			case *ssa.Index:
				if refType(x.Type()) {
					a.set(fa, x, deepen(a.get(fa, x.X)))
				}
			case *ssa.Lookup:
				if refType(x.Type()) {
					a.set(fa, x, a.elems(fa, x.X, x.Type()))
				}
			case *ssa.Next:
				if r, ok := x.Iter.(*ssa.Range); ok {
					a.set(fa, x, deepen(a.get(fa, r.X)))
				}
			case *ssa.Extract:
				if refType(x.Type()) {
					if c, ok := x.Tuple.(*ssa.Call); ok {
						a.set(fa, x, a.callResult(fa, c, x.Index))
					} else if l, ok := x.Tuple.(*ssa.Lookup); ok {
						a.set(fa, x, a.elems(fa, l.X, x.Type()))
					} else {
						s := a.get(fa, x.Tuple)
						n := oset{}
						for o := range s {
							if o.kind != 'I' || collType(x.Type()) {
								n[o] = true
							}
						}
						a.set(fa, x, n)
					}
				}
			case *ssa.Slice:
				a.set(fa, x, a.get(fa, x.X))
				if c := a.cell(x.X); c != nil { // slice of a local array
					a.set(fa, x, a.cells[c])
				}
			case *ssa.ChangeType:
				a.set(fa, x, a.get(fa, x.X))
			case *ssa.ChangeInterface:
				a.set(fa, x, a.get(fa, x.X))
			case *ssa.MakeInterface:
				a.set(fa, x, a.get(fa, x.X))
			case *ssa.Convert:
				if refType(x.Type()) && refType(x.X.Type()) {
					a.set(fa, x, a.get(fa, x.X))
				}
			case *ssa.TypeAssert:
				a.set(fa, x, a.get(fa, x.X))
			case *ssa.Store:
				a.store(fa, x)
			case *ssa.MapUpdate:
				a.eff(fa, "mutate", a.get(fa, x.Map), in, "")
				a.into(fa, x.Map, x.Value)
			case *ssa.Call:
				a.call(fa, x, x.Common())
				if x.Type() != nil && x.Call.Signature().Results().Len() == 1 && refType(x.Type()) {
					a.set(fa, x, a.callResult(fa, x, 0))
				}
			case *ssa.Defer:
				a.call(fa, x, x.Common())
			case *ssa.Go:
				a.call(fa, x, x.Common())
			case *ssa.Return:
				for len(fa.results) < len(x.Results) {
					fa.results = append(fa.results, oset{})
				}
				for i, r := range x.Results {
					if fa.results[i].addAll(a.get(fa, r)) {
						a.ch = true
					}
				}
			}
		}
	}
}

func (a *Alias) elems(fa *fnAlias, m ssa.Value, t types.Type) oset {
	out := oset{}
	coll := collType(t)
	if tup, ok := t.(*types.Tuple); ok {
		coll = collType(tup.At(0).Type())
	}
	for o := range a.get(fa, m) {
		if o.kind == 'I' && !coll {
			continue
		}
		o.deep = true
		out[o] = true
	}
	return out
}

func (a *Alias) store(fa *fnAlias, x *ssa.Store) {
	base, key := addrBase(x.Addr)
	v := a.get(fa, x.Val)
	if key == "" {
		if c := a.cell(base); c != nil {
			m := a.cells[c]
			if m == nil {
				m = oset{}
				a.cells[c] = m
			}
			if m.addAll(v) {
				a.ch = true
			}
			return
		}
		a.eff(fa, "mutate", a.get(fa, base), x, "")
		return
	}
	a.eff(fa, "mutate", a.get(fa, base), x, "")
	if key == "[]" {
		if c := a.cell(base); c != nil { // element of a local array
			m := a.cells[c]
			if m == nil {
				m = oset{}
				a.cells[c] = m
			}
			n := oset{}
			for o := range v {
				if o.kind == 'P' || o.kind == 'I' && !collType(x.Val.Type()) {
					continue
				}
				o.deep = true
				n[o] = true
			}
			if m.addAll(n) {
				a.ch = true
			}
			return
		}
		a.into(fa, base, x.Val)
		return
	}
	if storageField(key) && collType(x.Val.Type()) {
		a.eff(fa, "retain:"+key, v, x, "")
	}
	if !storageField(key) {
		if m := a.field[key]; m == nil {
			a.field[key] = oset{}
		}
		if a.field[key].addAll(heapOnly(v)) {
			a.ch = true
		}
	}
}

// subst maps a callee's origin to the caller's.
func (a *Alias) subst(fa *fnAlias, o origin, args []ssa.Value) oset {
	if o.kind != 'P' {
		return oset{o: true}
	}
	out := oset{}
	if o.idx < len(args) {
		for q := range a.get(fa, args[o.idx]) {
			if o.deep {
				q.deep = true
			}
			out[q] = true
		}
		// a variable passed by address
		if c := a.cell(args[o.idx]); c != nil && o.deep {
			out.addAll(a.cells[c])
		}
	}
	return out
}

func (a *Alias) targets(c *ssa.CallCommon) (fs []*fnAlias, args []ssa.Value) {
	args = c.Args
	if c.IsInvoke() {
		it := c.Method.Type().(*types.Signature).Recv().Type()
		if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() == a.p.pkg.Pkg && !n.Obj().Exported() {
			for _, t := range a.p.implementors(it.Underlying().(*types.Interface)) {
				if f := a.fns[a.p.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())]; f != nil {
					fs = append(fs, f)
				}
			}
		}
		args = append([]ssa.Value{c.Value}, c.Args...)
		return
	}
	if g := c.StaticCallee(); g != nil {
		if f := a.fns[g]; f != nil {
			fs = append(fs, f)
		}
		return
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return
	}
	for _, f := range a.p.funcs {
		if (f.Parent() != nil || a.p.taken[f]) && types.Identical(f.Signature, c.Signature()) {
			fs = append(fs, a.fns[f])
		}
	}
	return
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + typeShort(c.Method.Type().(*types.Signature).Recv().Type()) + ")." + c.Method.Name()
	}
	if g := c.StaticCallee(); g != nil {
		n := g.String()
		if i := strings.Index(n, "["); i > 0 { // generic instance
			n = n[:i]
		}
		return n
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "function value"
}

// copying library functions: results share nothing with the arguments.
var copying = map[string]bool{"slices.Clone": true, "maps.Clone": true, "bytes.Clone": true, "slices.Concat": true, "slices.Collect": true, "slices.Sorted": true, "bytes.Repeat": true, "bytes.Join": true, "bytes.ToLower": true, "bytes.ToUpper": true, "bytes.Replace": true, "bytes.ReplaceAll": true, "io/ioutil.ReadAll": true, "io.ReadAll": true}

func (a *Alias) callResult(fa *fnAlias, x *ssa.Call, i int) oset {
	c := x.Common()
	out := oset{}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			out.addAll(a.get(fa, c.Args[0]))
			if len(c.Args) > 1 {
				et := elemType(c.Args[1].Type())
				for o := range a.get(fa, c.Args[1]) {
					if o.kind == 'G' && refType(et) || o.kind == 'I' && collType(et) {
						o.deep = true
						out[o] = true
					}
				}
			}
		}
		return out
	}
	fs, args := a.targets(c)
	for _, f := range fs {
		if i < len(f.results) {
			for o := range f.results[i] {
				out.addAll(a.subst(fa, o, args))
			}
		}
	}
	if len(fs) == 0 {
		if copying[calleeName(c)] {
			return out
		}
		rt := c.Signature().Results().At(i).Type()
		// library code may hand back what it was given
		for _, ar := range args {
			for o := range a.get(fa, ar) {
				if o.kind == 'I' && !(collType(rt) && collType(ar.Type())) {
					continue
				}
				out[o] = true
			}
		}
	}
	return out
}

func (a *Alias) call(fa *fnAlias, in ssa.Instruction, c *ssa.CallCommon) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			// may write into spare capacity
			a.eff(fa, "mutate", a.get(fa, c.Args[0]), in, "append")
		case "copy", "delete", "clear":
			a.eff(fa, "mutate", a.get(fa, c.Args[0]), in, b.Name())
		}
		return
	}
	fs, args := a.targets(c)
	for _, f := range fs {
		for e := range f.effects {
			if e.org.kind == 'P' {
				a.eff(fa, e.what, a.subst(fa, e.org, args), in, fnName(f.fn))
			}
		}
	}
	if len(fs) == 0 {
		n := calleeName(c)
		for _, ar := range args {
			if s := a.get(fa, ar); len(s) > 0 {
				if n == "function value" {
					a.eff(fa, "user", s, in, n)
				} else {
					a.eff(fa, "lib:"+n, s, in, n)
				}
			}
		}
	}
}

// harmless: library functions that neither keep nor change what they are given.
func harmless(n string) bool {
	for _, p := range []string{"fmt.", "strings.", "errors.", "strconv.", "unicode", "(*regexp.Regexp).", "regexp.", "(reflect.Type).", "(reflect.Kind).", "(error).", "time.Parse", "(time.", "os.Is", "reflect.TypeOf", "bytes.", "reflect.DeepEqual", "slices.", "maps.", "path", "(io.Reader)", "(io.Writer)", "(io.Closer)"} {
		if strings.HasPrefix(n, p) && !strings.HasPrefix(n, "fmt.Sscan") && !strings.HasPrefix(n, "fmt.Fscan") && n != "(*regexp.Regexp).Longest" && n != "(*regexp.Regexp).UnmarshalText" && !strings.HasPrefix(n, "slices.Sort") && n != "slices.Reverse" && n != "bytes.NewBuffer" && !strings.HasPrefix(n, "fmt.Fprint") {
			return true
		}
	}
	return false
}

func (o origin) String() string {
	switch o.kind {
	case 'P':
		return "parameter " + o.name
	case 'I':
		return "internal collection " + o.name
	}
	return "package variable " + strings.TrimPrefix(o.name, "github.com/go-ini/ini.")
}

func init() {
	checks["C03"] = checkC03
	checks["O01"] = checkO01
}

// C03: package-level state is never written.
func checkC03(p *Prog, r *Rep) {
	r.rule("no store, map update, delete, append, copy or mutating library call outside package initialisation reaches a package-level variable or an object held by one, directly or through calls, parameters, closures and fields; no call that changes process-wide state")
	r.need("package-variable", 10)
	r.need("function", 100)
	a := newAlias(p)
	for _, f := range p.funcs {
		fa := a.fns[f]
		r.mu.Lock()
		r.funcs[fnName(f)] = true
		r.mu.Unlock()
		initFn := f.Parent() == nil && p.isInit(f)
		bad := ""
		var at ssa.Instruction
		why := ""
		var es []effect
		for e := range fa.effects {
			es = append(es, e)
		}
		sort.Slice(es, func(i, j int) bool { return es[i].what+es[i].org.name < es[j].what+es[j].org.name })
		for _, e := range es {
			if e.org.kind != 'G' || initFn {
				continue
			}
			if e.what == "mutate" || e.what == "user" || strings.HasPrefix(e.what, "lib:") && !harmless(e.what[4:]) {
				bad = e.org.String()
				at = fa.effects[e]
				why = fmt.Sprintf("%s may be changed (%s)", e.org, strings.TrimSuffix(e.what+" "+fa.via[e], " "))
				r.ob(false, "write", fnName(f), bad, why, "", at)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					r.mu.Lock()
					r.calls[in] = true
					r.mu.Unlock()
					n := calleeName(c.Common())
					if processState(n) && !initFn {
						r.ob(false, "write", fnName(f), n, "changes process-wide state", "", in)
					}
				}
			}
		}
		r.ob(true, "function", fnName(f), "writes no package-level state", "", "", nil)
	}
	for n, m := range p.pkg.Members {
		if g, ok := m.(*ssa.Global); ok && n != "init$guard" {
			_ = g
			r.ob(true, "package-variable", "package ini", n, "", "", nil)
		}
	}
	r.assumes("library functions listed as harmless in ana/alias.go do not change their arguments", "user callbacks change package settings only as the program itself")
}

func processState(n string) bool {
	switch n {
	case "os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "syscall.Umask", "math/rand.Seed", "runtime.GOMAXPROCS", "runtime/debug.SetGCPercent", "log.SetOutput", "log.SetFlags", "log.SetPrefix", "log/slog.SetDefault", "syscall.Setenv", "flag.Parse", "flag.Set":
		return true
	}
	return false
}

// O01: collections handed out are copies.
func checkO01(p *Prog, r *Rep) {
	r.rule("no slice or map an exported operation returns shares memory with a table or list of a file, section or key (origin analysis through calls, variables, closures, appends and subslices); no such collection is passed to user code or to reflection; no slice or map parameter is stored as one of them")
	r.need("returned-collection", 20)
	r.need("stored-collection", 3)
	a := newAlias(p)
	for _, f := range p.funcs {
		r.mu.Lock()
		r.funcs[fnName(f)] = true
		r.mu.Unlock()
	}
	for _, f := range p.exportedRoots() {
		fa := a.fns[f]
		r.absorbFn(f)
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if !collType(t) {
				continue
			}
			var s oset
			if i < len(fa.results) {
				s = fa.results[i]
			}
			o, bad := s.has('I')
			var at ssa.Instruction
			if bad {
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && a.get(fa, ret.Results[i])[o] {
						at = ret
					}
				}
			}
			r.ob(!bad, "returned-collection", fnName(f), fmt.Sprintf("result %d of type %s", i, typeShort(t)), "shares memory with "+o.name, "", at)
		}
	}
	for _, f := range p.funcs {
		fa := a.fns[f]
		for e, in := range fa.effects {
			if e.org.kind == 'I' && (e.what == "user" || strings.HasPrefix(e.what, "lib:reflect.") || strings.HasPrefix(e.what, "lib:(reflect.Value)") || strings.HasPrefix(e.what, "lib:bytes.NewBuffer")) {
				r.ob(false, "leaked-collection", fnName(f), e.org.name+" to "+e.what, "the internal collection itself is handed to other code", "", in)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if _, key := addrBase(st.Addr); storageField(key) && collType(st.Val.Type()) && key != "File.dataSources" {
						r.ob(true, "stored-collection", fnName(f), key, "", "", in)
					}
				}
			}
		}
	}
	for _, f := range p.exportedRoots() {
		fa := a.fns[f]
		for e, in := range fa.effects {
			if strings.HasPrefix(e.what, "retain:") && e.what != "retain:File.dataSources" && e.org.kind == 'P' && !e.org.deep && e.org.idx < len(f.Params) && collType(f.Params[e.org.idx].Type()) {
				r.ob(false, "stored-collection", fnName(f), e.what[7:]+" from parameter "+e.org.name, "the caller's collection is kept as storage", "", in)
			}
		}
	}
	r.assumes("data sources given as []byte and the load options belong to the library once passed in (documented use), so they are not 'lists of names or values'")
}
