package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule D01: nothing depends on map order, time, randomness or addresses.

func init() { checks["D01"] = checkD01 }

// nondet: library functions whose result is not determined by their arguments.
func nondet(n string) bool {
	for _, p := range []string{"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.Sleep", "math/rand", "crypto/rand", "(*math/rand", "hash/maphash", "(*hash/maphash", "os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv", "os.Getpid", "os.Getppid", "os.Hostname", "os.Getwd", "os.Getuid", "os.TempDir", "runtime.", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(reflect.Value).Seq", "maps.Keys", "maps.Values", "maps.All", "(*sync.Pool).Get", "(*sync.Map).Range", "os/signal", "os/user", "net.", "unique."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func isSort(n string) bool {
	return strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "sort.Search") && !strings.HasSuffix(n, "AreSorted") && !strings.HasSuffix(n, "IsSorted") || strings.HasPrefix(n, "slices.Sort") || n == "slices.Reverse"
}

func checkD01(p *Prog, r *Rep) {
	r.rule("every loop over a map is order-insensitive (commutative accumulation, per-key map writes, or early exit with one constant outcome); no call to a source of time, randomness, environment or addresses; no goroutine, channel or select; no pointer printed; no list re-sorted")
	r.need("function", 100)
	r.need("map-loop", 1)
	for _, f := range p.funcs {
		r.mu.Lock()
		r.funcs[fnName(f)] = true
		r.mu.Unlock()
		r.ob(true, "function", fnName(f), "no nondeterministic construct", "", "", nil)
		e := newEng(p, &Hooks{})
		fi := e.fnInfo(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					r.ob(false, "concurrency", fnName(f), "go statement", "the outcome depends on scheduling", "", in)
				case *ssa.Select, *ssa.Send, *ssa.MakeChan:
					r.ob(false, "concurrency", fnName(f), "channel operation", "the outcome depends on scheduling", "", in)
				case *ssa.Convert:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						r.ob(false, "address", fnName(f), "address taken as a number", "the value differs from run to run", "", in)
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						why := mapLoop(p, f, fi, x)
						r.ob(why == "", "map-loop", fnName(f), "loop over "+typeShort(x.X.Type()), why, "", in)
					}
				case ssa.CallInstruction:
					r.mu.Lock()
					r.calls[in] = true
					r.mu.Unlock()
					n := calleeName(x.Common())
					if nondet(n) && !typeOnly(x) && !(strings.HasPrefix(n, "maps.") && sortedLater(x)) {
						r.ob(false, "nondeterminism", fnName(f), n, "its result is not determined by the inputs", "", in)
					}
					if isSort(n) && !p.isInit(f) {
						r.ob(false, "order", fnName(f), n, "re-orders a list that must keep its stored order", "", in)
					}
					if strings.HasPrefix(n, "fmt.") {
						if why := printsPointer(x.Common()); why != "" {
							r.ob(false, "address", fnName(f), n+" "+why, "prints an address", "", in)
						}
					}
				}
			}
		}
	}
	r.assumes("user callbacks and readers are themselves deterministic")
}

// typeOnly: the result is only asked for its type.
func typeOnly(c ssa.CallInstruction) bool {
	v, ok := c.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		mi, ok := u.(*ssa.MakeInterface)
		if !ok || mi.Referrers() == nil {
			return false
		}
		for _, w := range *mi.Referrers() {
			wc, ok := w.(ssa.CallInstruction)
			if !ok || calleeName(wc.Common()) != "reflect.TypeOf" {
				return false
			}
		}
	}
	return true
}

func sortedLater(c ssa.CallInstruction) bool {
	v, ok := c.(ssa.Value)
	if !ok || v.Referrers() == nil || len(*v.Referrers()) == 0 {
		return false
	}
	for _, u := range *v.Referrers() {
		wc, ok := u.(ssa.CallInstruction)
		if !ok || !strings.HasPrefix(calleeName(wc.Common()), "slices.Sorted") {
			return false
		}
	}
	return true
}

// printsPointer: a fmt call that would print an address.
func printsPointer(c *ssa.CallCommon) string {
	for _, a := range c.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
			return "with %p"
		}
	}
	if len(c.Args) == 0 {
		return ""
	}
	sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		return ""
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return ""
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			t := mi.X.Type()
			ms := types.NewMethodSet(t)
			if ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Format") != nil {
				continue
			}
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				if isIniStruct(u.Elem()) != nil {
					return "of " + typeShort(t)
				}
			case *types.Signature, *types.Chan:
				return "of " + typeShort(t)
			}
		}
	}
	return ""
}

// mapLoop decides whether a loop over a map is order-insensitive; it returns
// the reason if not.
func mapLoop(p *Prog, f *ssa.Function, fi *fnInfo, rg *ssa.Range) string {
	if rg.Referrers() == nil {
		return ""
	}
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	l := fi.loops[next.Block()]
	if l == nil {
		return "" // never repeated
	}
	inL := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && l.blocks[i.Block()]
	}
	var key ssa.Value
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
			key = e
		}
	}
	// accumulators
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if why := accum(ph, l, f); why != "" {
			return why
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if x.Key == key {
					continue
				}
				if !inL(x.Value) && !inL(x.Key) {
					continue
				}
				if _, ok := x.Value.(*ssa.Const); ok && !inL(x.Map) {
					continue // the same constant whatever the order
				}
				return "stores into a map under a key that several iterations may share"
			case *ssa.Store:
				if !inL(x.Val) {
					if !inL(x.Addr) {
						continue
					}
					continue
				}
				base, k := addrBase(x.Addr)
				if al, ok := base.(*ssa.Alloc); ok && inL(al) {
					continue // a variable of this iteration
				}
				if k == "[]" && sortedAfter(base, l) {
					continue
				}
				if elemByKey(x.Addr, key) {
					continue
				}
				return "stores a value that depends on the iteration"
			case *ssa.Send, *ssa.Go:
				return "concurrency in a map loop"
			case *ssa.Return:
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "len", "cap", "append", "min", "max":
					case "copy":
						if inL(c.Args[0]) {
							continue
						}
						return "copies inside a map loop"
					}
					continue
				}
				if g := c.StaticCallee(); g != nil && p.in(g) {
					if len(p.mods(g)) > 0 {
						return "calls " + fnName(g) + ", which has effects"
					}
					continue
				}
				n := calleeName(c)
				ci := &CallInfo{Name: n, Kind: "lib", Sig: c.Signature()}
				if c.IsInvoke() {
					ci.Kind = "iface"
				} else if c.StaticCallee() == nil {
					ci.Kind = "dyn"
				}
				if fs, ok := p.boundTo(c.Value, 0); ci.Kind == "dyn" && ok {
					for _, g := range fs {
						if len(p.mods(g)) > 0 || storesOutside(g) {
							return "calls " + fnName(g) + ", which has effects"
						}
					}
					continue
				}
				if k := libKind(ci); k != "pure" && !isLockOp(n) {
					return "calls " + n + ", which may have effects"
				}
			}
		}
	}
	// early exits: one outcome, independent of the iteration
	var outcome []ssa.Value
	first := true
	for b := range l.blocks {
		for _, s := range b.Succs {
			if l.blocks[s] || b == l.head {
				continue
			}
			vals, why := exitValues(b, s, l, 0)
			if why != "" {
				return why
			}
			if first {
				outcome, first = vals, false
			} else if !sameVals(outcome, vals) {
				return "leaves the loop with different outcomes"
			}
		}
	}
	for _, v := range outcome {
		if v != nil && inL(v) {
			return "leaves the loop with a value of whichever entry came first"
		}
	}
	if !first {
		for _, in := range l.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			used := false
			for _, u := range *ph.Referrers() {
				used = used || u.Block() != nil && !l.blocks[u.Block()]
			}
			if used && accumulates(ph, l) {
				return "stops part-way and uses what it had accumulated so far"
			}
		}
	}
	// values of the last iteration used after the loop
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if ph, ok := in.(*ssa.Phi); ok && b == l.head {
				_ = ph
				continue
			}
			for _, u := range *v.Referrers() {
				if u.Block() != nil && !l.blocks[u.Block()] {
					if _, isPhi := u.(*ssa.Phi); isPhi {
						return "a value of one iteration is used after the loop"
					}
					if k, ok := u.(*ssa.Return); ok {
						_ = k
						return "returns a value of whichever entry came first"
					}
					return "a value of one iteration is used after the loop"
				}
			}
		}
	}
	return ""
}

func isLockOp(n string) bool { _, ok := isFileLock(n); return ok }

func elemByKey(addr ssa.Value, key ssa.Value) bool {
	if ia, ok := addr.(*ssa.IndexAddr); ok {
		return ia.Index == key
	}
	return false
}

// exitValues lists what an early exit hands on.
func exitValues(b, s *ssa.BasicBlock, l *loopInfo, d int) ([]ssa.Value, string) {
	if d > 4 {
		return nil, "leaves the loop in a way that is not understood"
	}
	var vals []ssa.Value
	pi := -1
	for i, q := range s.Preds {
		if q == b {
			pi = i
		}
	}
	for _, in := range s.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			vals = append(vals, x.Edges[pi])
		case *ssa.Return:
			for _, r := range x.Results {
				if ph, ok := r.(*ssa.Phi); ok && ph.Block() == s {
					continue
				}
				vals = append(vals, r)
			}
			return vals, ""
		}
	}
	return vals, ""
}

func sameVals(a, b []ssa.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		x, ok1 := a[i].(*ssa.Const)
		y, ok2 := b[i].(*ssa.Const)
		if !ok1 || !ok2 || (x.Value == nil) != (y.Value == nil) || x.Value != nil && !constant.Compare(x.Value, token.EQL, y.Value) {
			return false
		}
	}
	return true
}

// accum: a loop variable is accumulated commutatively.
func accum(ph *ssa.Phi, l *loopInfo, f *ssa.Function) string {
	seen := map[ssa.Value]bool{}
	var ops []token.Token
	var appended bool
	var sets []ssa.Value
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		if v == ph || seen[v] {
			return ""
		}
		seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || !l.blocks[i.Block()] {
			sets = append(sets, v)
			return ""
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if why := walk(e); why != "" {
					return why
				}
			}
			return ""
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB:
				if isIntType(x.Type()) {
					ops = append(ops, x.Op)
					if !usesOnce(x, ph) {
						return "accumulates in a way that depends on the order"
					}
					if x.Op == token.SUB {
						return walk(x.X)
					}
					if reaches(x.X, ph, l) {
						return walk(x.X)
					}
					return walk(x.Y)
				}
			}
			return "accumulates " + typeShort(ph.Type()) + " in map order"
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					appended = true
					return walk(x.Call.Args[0])
				case "min", "max":
					ops = append(ops, token.LAND)
					for _, a := range x.Call.Args {
						if reaches(a, ph, l) {
							return walk(a)
						}
					}
					return ""
				}
			}
		}
		return "carries a value of one iteration to the next"
	}
	for i, e := range ph.Edges {
		if l.blocks[ph.Block().Preds[i]] {
			if why := walk(e); why != "" {
				return why
			}
		}
	}
	if appended {
		if !sortedAfter(ph, l) {
			return "collects elements in map order"
		}
		return ""
	}
	if len(sets) > 1 {
		for _, s := range sets[1:] {
			if !sameVals([]ssa.Value{sets[0]}, []ssa.Value{s}) {
				return "sets a variable to different values in map order"
			}
		}
	}
	if len(sets) > 0 && len(ops) > 0 {
		return "both sets and accumulates a variable in map order"
	}
	for _, o := range ops {
		if o != ops[0] && !(o == token.ADD && ops[0] == token.SUB || o == token.SUB && ops[0] == token.ADD) {
			return "mixes accumulations"
		}
	}
	return ""
}

func accumulates(ph *ssa.Phi, l *loopInfo) bool {
	for i, e := range ph.Edges {
		if l.blocks[ph.Block().Preds[i]] && e != ph && reaches(e, ph, l) {
			if _, isPhi := e.(*ssa.Phi); !isPhi {
				return true
			}
		}
	}
	return false
}

func usesOnce(x *ssa.BinOp, ph *ssa.Phi) bool { return x.X != x.Y }

func reaches(v ssa.Value, ph *ssa.Phi, l *loopInfo) bool {
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value) bool
	w = func(v ssa.Value) bool {
		if v == ph {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || !l.blocks[i.Block()] {
			return false
		}
		var rands [12]*ssa.Value
		for _, r := range i.Operands(rands[:0]) {
			if *r != nil && w(*r) {
				return true
			}
		}
		return false
	}
	return w(v)
}

// sortedAfter: the collected slice is sorted before anything else sees it.
func sortedAfter(v ssa.Value, l *loopInfo) bool {
	if v.Referrers() == nil {
		return false
	}
	var srt ssa.Instruction
	var uses []ssa.Instruction
	var walk func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if u.Block() == nil || l.blocks[u.Block()] {
				continue
			}
			switch x := u.(type) {
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case ssa.CallInstruction:
				if isSort(calleeName(x.Common())) {
					srt = u
					continue
				}
				uses = append(uses, u)
			case *ssa.DebugRef:
			default:
				uses = append(uses, u)
			}
		}
	}
	walk(v)
	if srt == nil {
		return false
	}
	for _, u := range uses {
		if u.Block() == srt.Block() {
			after := false
			for _, in := range u.Block().Instrs {
				if in == srt {
					after = true
				}
				if in == u && !after {
					return false
				}
			}
			continue
		}
		if !srt.Block().Dominates(u.Block()) {
			return false
		}
	}
	return true
}

var _ = fmt.Sprint

// boundTo: the functions of the package a function value can be.
func (p *Prog) boundTo(v ssa.Value, depth int) ([]*ssa.Function, bool) {
	if depth > 4 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}, p.in(v)
	case *ssa.MakeClosure:
		return p.boundTo(v.Fn, depth+1)
	case *ssa.ChangeType:
		return p.boundTo(v.X, depth+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			fs, ok := p.boundTo(e, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	case *ssa.Parameter:
		f := v.Parent()
		if p.taken[f] || f.Object() == nil || f.Object().Exported() {
			return nil, false
		}
		i := paramIndex(v)
		var out []*ssa.Function
		n := 0
		for _, g := range p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() != f {
						continue
					}
					fs, ok := p.boundTo(c.Common().Args[i], depth+1)
					if !ok {
						return nil, false
					}
					n++
					out = append(out, fs...)
				}
			}
		}
		return out, n > 0
	}
	return nil, false
}

// storesOutside: the closure changes variables of the function around it.
func storesOutside(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if base, _ := addrBase(in.Addr); base != nil {
					if _, ok := base.(*ssa.Alloc); ok {
						continue
					}
				}
				return true
			case *ssa.MapUpdate, *ssa.Send:
				return true
			}
		}
	}
	return false
}
