package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program with the facts all rules share.
type Prog struct {
	mu    sync.Mutex
	prog  *ssa.Program
	pkg   *ssa.Package
	lp    *packages.Package
	sizes types.Sizes
	info  map[*ssa.Function]*fnInfo

	funcs    []*ssa.Function // every function of the package, closures included
	initOnly map[string]bool // struct fields stored only while their object is being built
	privMemo map[*ssa.Alloc]bool
	modMemo  map[*ssa.Function]map[string]bool
	taken    map[*ssa.Function]bool // functions used as values
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
		Dir:  dir,
		Env:  os.Environ(),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("package does not type-check: %v", pkgs[0].Errors)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug&0)
	prog.Build()
	p := &Prog{prog: prog, pkg: sp[0], lp: pkgs[0], sizes: pkgs[0].TypesSizes, info: map[*ssa.Function]*fnInfo{}, privMemo: map[*ssa.Alloc]bool{}, taken: map[*ssa.Function]bool{}}
	p.collect()
	p.findInitOnly()
	return p, nil
}

// in: the function is part of the package (instances of its generic functions
// included).
func (p *Prog) in(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		if f.Pkg == p.pkg || f.Origin() != nil && f.Origin().Pkg == p.pkg {
			return true
		}
	}
	return false
}

func (p *Prog) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	// instances of generic functions are found where they are used
	defer func() {
		for i := 0; i < len(p.funcs); i++ {
			for _, b := range p.funcs[i].Blocks {
				for _, in := range b.Instrs {
					var ops []*ssa.Value
					for _, o := range in.Operands(ops) {
						g, ok := (*o).(*ssa.Function)
						if !ok || !p.in(g) {
							continue
						}
						if g.Origin() != nil {
							add(g)
						}
						if c, ok := in.(ssa.CallInstruction); !ok || c.Common().Value != g {
							p.taken[g] = true
						}
					}
				}
			}
		}
	}()
	var names []string
	for n := range p.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := p.pkg.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := p.prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						add(f)
					}
				}
			}
		}
	}
}

// isInit: package initialisation code.
func (p *Prog) isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// findInitOnly finds struct fields that are only ever stored in an object the
// storing function itself created and has not yet let go.
func (p *Prog) findInitOnly() {
	p.initOnly = map[string]bool{}
	stored := map[string]bool{}
	bad := map[string]bool{}
	all := map[string]bool{}
	for _, n := range p.pkg.Pkg.Scope().Names() {
		tn, ok := p.pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if s, ok := tn.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if !s.Field(i).Exported() || n == "LoadOptions" || n == "parserOptions" {
					all[n+"."+s.Field(i).Name()] = true
				}
			}
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
						k, _ := fieldKeyOf(fa.X, fa.Field)
						stored[k] = true
						base := fa.X
						for {
							if x, ok := base.(*ssa.FieldAddr); ok {
								base = x.X
								continue
							}
							break
						}
						if _, ok := base.(*ssa.Alloc); !ok {
							bad[k] = true
						}
					} else if s := isIniStruct(i.Val.Type()); s != nil {
						if _, ok := i.Addr.(*ssa.Alloc); ok {
							continue
						}
						for j := 0; j < s.NumFields(); j++ {
							k := typeShort(i.Val.Type()) + "." + s.Field(j).Name()
							bad[k] = true
						}
					}
				}
			}
		}
	}
	for k := range all {
		if !bad[k] {
			p.initOnly[k] = true
		}
	}
	// copying a whole Key over another keeps its section
	for k := range bad {
		delete(p.initOnly, k)
	}
}

// private: the address of the variable never leaves the function (or its closures).
func (p *Prog) private(a *ssa.Alloc) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.privMemo[a]; ok {
		return r
	}
	p.privMemo[a] = true
	r := p.privateVal(a, map[ssa.Value]bool{})
	p.privMemo[a] = r
	return r
}

func (p *Prog) privateVal(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch i := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if i.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !p.privateVal(i, seen) {
				return false
			}
		case *ssa.IndexAddr:
			if i.X != v || !p.privateVal(i, seen) {
				return false
			}
		case *ssa.MakeClosure:
			fn := i.Fn.(*ssa.Function)
			for bi, b := range i.Bindings {
				if b == v && !p.privateVal(fn.FreeVars[bi], seen) {
					return false
				}
			}
			// the closure itself must only be called or passed within the package
			if !p.closurePrivate(i, map[ssa.Value]bool{}) {
				return false
			}
		case *ssa.Call:
			// receiver of a library method on a local buffer
			if c := i.Call.StaticCallee(); c != nil && !p.in(c) && len(i.Call.Args) > 0 && i.Call.Args[0] == v && c.Signature.Recv() != nil {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

func (p *Prog) closurePrivate(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch i := r.(type) {
		case *ssa.Call:
			if c := i.Call.StaticCallee(); c == nil || p.in(c) || c.Parent() != nil {
				continue
			} else if o := c.Object(); o != nil && o.Pkg() != nil && (o.Pkg().Path() == "strings" || o.Pkg().Path() == "bytes" || o.Pkg().Path() == "sort" || o.Pkg().Path() == "slices") {
				continue
			}
			return false
		case *ssa.Defer, *ssa.DebugRef:
		case *ssa.ChangeType:
			if !p.closurePrivate(i, seen) {
				return false
			}
		case *ssa.Phi:
			if !p.closurePrivate(i, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// implementors lists the package's types that implement an interface.
func (p *Prog) implementors(it *types.Interface) []types.Type {
	var out []types.Type
	for _, n := range p.pkg.Pkg.Scope().Names() {
		tn, ok := p.pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(tn.Type(), it) {
			out = append(out, tn.Type())
		} else if types.Implements(types.NewPointer(tn.Type()), it) {
			out = append(out, types.NewPointer(tn.Type()))
		}
	}
	return out
}

// exportedRoots lists the exported functions and methods of the package: the
// operations a user can call.
func (p *Prog) exportedRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.funcs {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			n, ok := t.(*types.Named)
			if !ok || !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func (p *Prog) fn(name string) *ssa.Function {
	for _, f := range p.funcs {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

// callees over-approximates the package functions a function may call; unknown
// reports calls to code outside the package that may do anything.
func (p *Prog) callees(f *ssa.Function) (out []*ssa.Function, unknown bool) {
	add := func(g *ssa.Function) {
		if g != nil && len(g.Blocks) > 0 && (p.in(g) || g.Synthetic != "" && g.Origin() == nil) {
			out = append(out, g)
		}
	}
	for _, a := range f.AnonFuncs {
		add(a)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				it := cc.Method.Type().(*types.Signature).Recv().Type()
				if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() == p.pkg.Pkg {
					for _, t := range p.implementors(it.Underlying().(*types.Interface)) {
						add(p.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()))
					}
					if n.Obj().Exported() {
						unknown = true
					}
				}
				continue
			}
			if g := cc.StaticCallee(); g != nil {
				add(g)
				continue
			}
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				continue
			}
			if isMapperSig(cc.Signature()) {
				continue
			}
			found := false
			for _, g := range p.funcs {
				if g.Parent() != nil && types.Identical(g.Signature, cc.Signature()) {
					add(g)
					found = true
				}
			}
			if !found {
				unknown = true
			}
		}
	}
	return
}

// reach is the set of package functions reachable from f.
func (p *Prog) reach(f *ssa.Function) (map[*ssa.Function]bool, bool) {
	seen := map[*ssa.Function]bool{f: true}
	unk := false
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		cs, u := p.callees(g)
		unk = unk || u
		for _, c := range cs {
			if !seen[c] {
				seen[c] = true
				work = append(work, c)
			}
		}
	}
	return seen, unk
}

func rootVal(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// mods lists the memory regions a function and everything it calls may write.
func (p *Prog) mods(f *ssa.Function) map[string]bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.modMemo == nil {
		p.modMemo = map[*ssa.Function]map[string]bool{}
	}
	if m, ok := p.modMemo[f]; ok {
		return m
	}
	m := map[string]bool{}
	p.modMemo[f] = m
	fs, unk := p.reach(f)
	if unk {
		m["*"] = true
	}
	for g := range fs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if _, ok := rootVal(i.Addr).(*ssa.Alloc); ok {
						// only objects this call creates
						if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
							k, _ := fieldKeyOf(fa.X, fa.Field)
							_ = k
						}
						continue
					}
					switch a := i.Addr.(type) {
					case *ssa.FieldAddr:
						k, _ := fieldKeyOf(a.X, a.Field)
						m["f:"+k] = true
					case *ssa.IndexAddr:
						if _, ok := rootVal(a).(*ssa.MakeSlice); ok {
							continue
						}
						m["e:"+typeShort(deref(a.Type()))] = true
					case *ssa.Global:
						m["g:"+a.Name()] = true
					default:
						if s := isIniStruct(i.Val.Type()); s != nil {
							for j := 0; j < s.NumFields(); j++ {
								m["f:"+typeShort(i.Val.Type())+"."+s.Field(j).Name()] = true
							}
						} else {
							m["p:"+typeShort(a.Type())] = true
						}
					}
				case *ssa.MapUpdate:
					m["m:"+typeShort(i.Map.Type())] = true
				case ssa.CallInstruction:
					if bi, ok := i.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear":
							m["m:"+typeShort(i.Common().Args[0].Type())] = true
						case "copy":
							if _, ok := rootVal(i.Common().Args[0]).(*ssa.MakeSlice); !ok {
								m["e:"+typeShort(elemType(i.Common().Args[0].Type()))] = true
							}
						}
					}
				}
			}
		}
	}
	return m
}
