package main

import (
	"time"

	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one inlined activation: a function reached through a chain of call
// sites. Frames are interned, so the same chain always yields the same frame.
type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	call   ssa.Instruction
	depth  int
}

type frameKey struct {
	parent int
	call   ssa.Instruction
	fn     *ssa.Function
}

func (f *Frame) chain() string {
	var p []string
	for x := f; x != nil; x = x.parent {
		p = append(p, fnName(x.fn))
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return strings.Join(p, " > ")
}

// Exit is one way an activation ends.
type Exit struct {
	st      *State
	results []*Term
	ret     *ssa.Return
}

// Ctx is what a rule sees at an event.
type Ctx struct {
	e  *Eng
	fr *Frame
	st *State
	in ssa.Instruction
}

// CallInfo describes a call about to happen.
type CallInfo struct {
	Name      string // full name of a library function or interface method, or of an ini function
	Fn        *ssa.Function
	FnTerm    *Term // dynamic callee
	Args      []*Term
	Variadic  bool
	Sig       *types.Signature
	Common    *ssa.CallCommon
	Kind      string // "ini", "lib", "dyn" (unresolved function value), "iface" (unresolved method)
	Recursive bool
}

// CallRes is one outcome of a call.
type CallRes struct {
	st  *State
	res []*Term // nil entries are made fresh
}

// Hooks are the transfer functions a rule adds to the analysis.
type Hooks struct {
	Init       func(x *Ctx, loc *Term) *Term
	Call       func(x *Ctx, c *CallInfo) ([]CallRes, bool)
	Load       func(x *Ctx, loc, val *Term)
	Fixed      func(loc *Term) *Term // what a location holds for good
	Store      func(x *Ctx, loc, val *Term)
	MapDelete  func(x *Ctx, loc *Term)
	MapRange   func(x *Ctx, m *Term)
	Index      func(x *Ctx, base, idx *Term, lenT *Term)             // element access
	Slice      func(x *Ctx, base, lo, hi, max *Term, capT *Term)     // slice expression
	Deref      func(x *Ctx, ptr *Term)                               // field/elem address or load through pointer
	Enter      func(x *Ctx, c *CallInfo)                             // inlined call entered (callee frame)
	Leave      func(x *Ctx, callee *Frame, c *CallInfo, res []*Term) // inlined call left
	KeepPhis   bool                                                  // keep what is known about the values a loop's round began with
	RangeExit  bool                                                  // BackEdge too when a range over a number ends
	BackEdge   func(x *Ctx, fr *Frame, head *State, next *State, hdr *ssa.BasicBlock)
	Branch     func(x *Ctx, cond *Term, taken bool) bool
	RootExit   func(x *Ctx, ex *Exit)
	Go         func(x *Ctx)
	Panic      func(x *Ctx, v *Term)
	KeepFact   func(t *Term) bool
	Append     func(x *Ctx, base, tail, res *Term)
	Copy       func(x *Ctx, dst, src *Term)
	TypeAssert func(x *Ctx, v *Term, t types.Type, commaOk bool)
	LoopEnter  func(x *Ctx, hdr *ssa.BasicBlock)
	JoinBounds bool // joined numbers keep the bounds they have in common
	KeepEpochs bool // facts about memory written before stay while it is not written again
	HavocKeep  func(field string) bool
	Inline     func(x *Ctx, c *CallInfo) bool
	JoinCap    int
	FactCap    int
	SigRegs    func(v ssa.Value) bool   // registers whose nil-ness keeps states apart
	NoLin      bool                     // no arithmetic reasoning
	Track      func(region string) bool // memory regions worth remembering (private variables always are)
	ExitCap    int

	// modular analysis
	Modular    func(x *Ctx, c *CallInfo) bool
	ModEnter   func(x *Ctx, c *CallInfo) modEntry
	ModInit    func(x *Ctx, fn *ssa.Function)
	ModLeave   func(x *Ctx, c *CallInfo, ex *Exit, res []*Term)
	FnExit     func(x *Ctx, ex *Exit)
	ModNoFacts bool
}

type Eng struct {
	T      *Terms
	prog   *ssa.Program
	pkg    *ssa.Package
	H      *Hooks
	frames map[frameKey]*Frame
	nfr    int

	Axioms       func(st *State, a *Term) []*LinExpr
	AssumeNonNil func(t *Term) bool
	OnAssume     func(st *State, t *Term, pol bool) bool

	steps, maxSteps int
	undecided       map[string]bool
	info            map[*ssa.Function]*fnInfo
	roots           []map[*Term]bool
	funcsSeen       map[*ssa.Function]bool
	callsSeen       map[ssa.Instruction]bool
	nExits, nJoins  int
	P               *Prog
	memo            map[string][]*Exit
	nMemo           int
	blkCount        map[*ssa.BasicBlock]int
	summ            map[string]*summary
	round           int
	again           bool
	stack           []string
}

// started bounds the time of a run.
var started = time.Now()

func newEng(p *Prog, h *Hooks) *Eng {
	return &Eng{T: &Terms{m: map[string]*Term{}}, prog: p.prog, pkg: p.pkg, H: h, P: p, frames: map[frameKey]*Frame{},
		maxSteps: 6000000, undecided: map[string]bool{}, info: map[*ssa.Function]*fnInfo{}, funcsSeen: map[*ssa.Function]bool{}, callsSeen: map[ssa.Instruction]bool{}, memo: map[string][]*Exit{}, blkCount: map[*ssa.BasicBlock]int{}}
}

func (e *Eng) undecide(fr *Frame, in ssa.Instruction, msg string) {
	where := ""
	if fr != nil {
		where = fnName(fr.fn)
	}
	e.undecided[where+": "+msg] = true
}

func (e *Eng) frame(parent *Frame, call ssa.Instruction, fn *ssa.Function) *Frame {
	k := frameKey{0, call, fn}
	if parent != nil {
		k.parent = parent.id
	}
	if f, ok := e.frames[k]; ok {
		return f
	}
	e.nfr++
	f := &Frame{id: e.nfr, fn: fn, parent: parent, call: call}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	e.frames[k] = f
	return f
}

// ---------------------------------------------------------------- CFG info

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo         map[*ssa.BasicBlock]int
	live        map[*ssa.BasicBlock]map[ssa.Value]bool // live-in, not counting own phis' operands
	loops       map[*ssa.BasicBlock]*loopInfo          // by header
	inLoop      map[*ssa.BasicBlock][]*loopInfo        // innermost last
	irreducible bool
}

// findLoops: the natural loops of a function, by header.
func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return loops
}

func (e *Eng) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := e.info[fn]; ok {
		return i
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inLoop: map[*ssa.BasicBlock][]*loopInfo{}}
	e.info[fn] = fi
	fi.loops = findLoops(fn)
	var ls []*loopInfo
	for _, l := range fi.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return ls[i].head.Index < ls[j].head.Index
	})
	for _, l := range ls {
		for b := range l.blocks {
			fi.inLoop[b] = append(fi.inLoop[b], l)
		}
	}
	for b := range fi.inLoop {
		x := fi.inLoop[b]
		sort.Slice(x, func(i, j int) bool { return len(x[i].blocks) > len(x[j].blocks) })
	}
	// depth-first order that leaves loops last, so loop bodies are contiguous
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		depthIn := func(s *ssa.BasicBlock) int { // how many of b's loops contain s
			n := 0
			for _, l := range fi.inLoop[b] {
				if l.blocks[s] {
					n++
				}
			}
			return n
		}
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depthIn(ss[i]) < depthIn(ss[j]) })
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := range post {
		fi.rpo[post[i]] = len(post) - 1 - i
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, s := range b.Succs {
			if fi.rpo[s] <= fi.rpo[b] && !s.Dominates(b) {
				fi.irreducible = true
			}
		}
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for _, b := range fn.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				var rands [12]*ssa.Value
				for _, r := range in.Operands(rands[:0]) {
					if *r != nil && isReg(*r) && !d[*r] {
						u[*r] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		fi.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			in := fi.live[b]
			n := len(in)
			for v := range use[b] {
				in[v] = true
			}
			for _, s := range b.Succs {
				for v := range fi.live[s] {
					if !def[b][v] {
						in[v] = true
					}
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, si := range s.Instrs {
						ph, ok := si.(*ssa.Phi)
						if !ok {
							break
						}
						if isReg(ph.Edges[pi]) && !def[b][ph.Edges[pi]] {
							in[ph.Edges[pi]] = true
						}
					}
				}
			}
			// phis of b are defined at entry
			for _, si := range b.Instrs {
				ph, ok := si.(*ssa.Phi)
				if !ok {
					break
				}
				_ = ph
			}
			if len(in) != n {
				changed = true
			}
		}
	}
	return fi
}

// inLoopOf: was term sym t created inside loop l of frame fr (directly or in a callee)?
func symInLoop(t *Term, fr *Frame, l *loopInfo) bool {
	f := t.fr
	in := t.in
	for f != nil && f != fr {
		in = f.call
		f = f.parent
	}
	if f != fr || in == nil || in.Block() == nil {
		return false
	}
	return l.blocks[in.Block()]
}

// ---------------------------------------------------------------- memory

func fieldKeyOf(x ssa.Value, idx int) (string, types.Type) {
	t := x.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		st := p.Elem()
		return typeShort(st) + "." + st.Underlying().(*types.Struct).Field(idx).Name(), st.Underlying().(*types.Struct).Field(idx).Type()
	}
	return typeShort(x.Type()) + "." + t.(*types.Struct).Field(idx).Name(), t.(*types.Struct).Field(idx).Type()
}

func typeShort(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "ini" {
			return ""
		}
		return p.Path()
	})
}

// regionOf names the group of locations that may alias by type.
func regionOf(loc *Term) string {
	switch loc.op {
	case "&f":
		return "f:" + loc.aux
	case "&e":
		return "e:" + elemTypeName(loc)
	case "&m", "&mok":
		return "m:" + loc.aux
	case "&g":
		return "g:" + loc.aux
	}
	if loc.typ != nil {
		return "p:" + typeShort(loc.typ)
	}
	return "p:?"
}
func elemTypeName(loc *Term) string { return loc.aux }

func (e *Eng) fieldAddr(base *Term, key string, typ types.Type) *Term {
	return e.T.App("&f", key, typ, base)
}

func baseOf(loc *Term) *Term {
	if len(loc.args) > 0 {
		return loc.args[0]
	}
	return loc
}

// mayAlias of two different locations of one region.
func (e *Eng) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op {
		// a bare pointer may point into a field
		return !(a.op == "alloc" && b.op != "sym" || b.op == "alloc" && a.op != "sym")
	}
	switch a.op {
	case "alloc", "&g":
		return false
	case "&f":
		return e.mayEqual(a.args[0], b.args[0])
	case "&e", "&m", "&mok":
		if !e.mayEqual(rootSlice(a.args[0]), rootSlice(b.args[0])) {
			return false
		}
		if a.args[0] == b.args[0] {
			if a.args[1].isConst() && b.args[1].isConst() {
				return a.args[1] == b.args[1]
			}
			if isIntType(a.args[1].typ) || a.args[1].op == "lin" {
				d := e.linOf(a.args[1]).add(e.linOf(b.args[1]), -1)
				if len(d.co) == 0 && d.k != 0 {
					return false
				}
			}
		}
		return true
	}
	return true
}

func rootSlice(t *Term) *Term {
	for t.op == "slice" {
		t = t.args[0]
	}
	return t
}

func freshObj(t *Term) bool { return t.op == "alloc" || t.op == "make" || t.op == "makemap" }
func initialObj(t *Term) bool {
	return t.op == "init" || t.op == "&g" || t.op == "sym" && t.in == nil
}

func (e *Eng) mayEqual(a, b *Term) bool {
	if a == b {
		return true
	}
	if freshObj(a) && freshObj(b) {
		return false
	}
	for _, p := range []*Term{a, b} {
		if p.op == "alloc" {
			if al, ok := p.in.(*ssa.Alloc); ok && e.P.private(al) {
				return false
			}
		}
	}
	if freshObj(a) && initialObj(b) || freshObj(b) && initialObj(a) {
		return false
	}
	if a.op == "&f" && b.op == "&f" && a.aux != b.aux {
		return false
	}
	if a.isNil() || b.isNil() {
		return false
	}
	return true
}

func isIniStruct(t types.Type) *types.Struct {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "ini" {
			return nil
		}
	}
	return s
}

func (e *Eng) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.T.Bool(false)
		case u.Info()&types.IsString != 0:
			return e.T.Str("")
		case u.Info()&types.IsInteger != 0:
			return e.T.Int(0)
		case u.Info()&types.IsFloat != 0:
			return e.T.Const(constant.MakeFloat64(0), t)
		case u.Kind() == types.UntypedNil:
			return e.T.Nil()
		}
		return e.T.App("zero", typeShort(t), t)
	case *types.Struct:
		if s := isIniStruct(t); s != nil {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, e.zero(s.Field(i).Type()))
			}
			return e.T.App("struct", typeShort(t), t, fs...)
		}
		return e.T.App("zero", typeShort(t), t)
	case *types.Array:
		return e.T.App("zero", typeShort(t), t)
	}
	return e.T.Nil()
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// load reads a location of element type typ.
func (e *Eng) load(x *Ctx, loc *Term, typ types.Type) *Term {
	if s := isIniStruct(typ); s != nil {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fl := e.fieldAddr(loc, typeShort(typ)+"."+s.Field(i).Name(), types.NewPointer(s.Field(i).Type()))
			fs = append(fs, e.load(x, fl, s.Field(i).Type()))
		}
		// folding back: struct of all fields of one opaque value
		if len(fs) > 0 && fs[0].op == "field" {
			o := fs[0].args[0]
			all := true
			for i, f := range fs {
				if f.op != "field" || f.args[0] != o || f.aux != typeShort(typ)+"."+s.Field(i).Name() {
					all = false
				}
			}
			if all {
				return o
			}
		}
		return e.T.App("struct", typeShort(typ), typ, fs...)
	}
	var v *Term
	if e.tracked(loc) {
		v = e.peek(x, loc, typ)
	} else {
		if e.H.Init != nil {
			v = e.H.Init(x, loc)
		}
		if v == nil {
			v = e.T.Sym(x.fr, x.in, fmt.Sprintf("l:%d", loc.id), typ)
			e.forget(x.st, v)
		}
	}
	if e.H.Load != nil {
		e.H.Load(x, loc, v)
	}
	return v
}

// rootOf is the object a location lies in.
func rootOf(loc *Term) *Term {
	root := loc
	for len(root.args) > 0 && strings.HasPrefix(root.op, "&") && root.op != "&g" {
		root = rootSlice(root.args[0])
	}
	return root
}

// classOf: 'n' object created during the analysed operation, 'i' object that
// existed before it, 'w' unknown.
func classOf(root *Term) byte {
	switch {
	case freshObj(root):
		return 'n'
	case initialObj(root):
		return 'i'
	}
	return 'w'
}

func (e *Eng) tracked(loc *Term) bool {
	if e.H.Track == nil || e.H.Track(regionOf(loc)) {
		return true
	}
	root := rootOf(loc)
	if root.op == "alloc" {
		if a, ok := root.in.(*ssa.Alloc); ok && e.P.private(a) {
			return true
		}
	}
	return false
}

// forget drops facts about a symbol that is about to denote a new value.
func (e *Eng) forget(st *State, s *Term) {
	for f := range st.facts {
		for _, y := range f.syms {
			if y == s {
				delete(st.facts, f)
				break
			}
		}
	}
}

// peek is load without the event.
func (e *Eng) peek(x *Ctx, loc *Term, typ types.Type) *Term {
	if e.H.Fixed != nil {
		if v := e.H.Fixed(loc); v != nil {
			return v
		}
	}
	if v, ok := x.st.mem[loc]; ok {
		return v
	}
	if loc.op == "&f" {
		if v, ok := x.st.mem[loc.args[0]]; ok {
			return e.field(v, loc.aux, typ)
		}
	}
	if loc.op == "&e" && loc.args[0].op == "arr" {
		if i, ok := constInt(loc.args[1]); ok && i >= 0 && i < int64(len(loc.args[0].args)) {
			return loc.args[0].args[i]
		}
	}
	root := rootOf(loc)
	reg := regionOf(loc)
	var eps []*Term
	add := func(k string) {
		if d, ok := x.st.dirty[k]; ok {
			eps = append(eps, d)
		}
	}
	cls := classOf(root)
	if root.op == "alloc" && cls == 'n' {
		if a, ok := root.in.(*ssa.Alloc); !ok || !e.P.private(a) {
			add("w:" + reg)
		}
	} else {
		add("w:" + reg)
	}
	switch cls {
	case 'n':
		add(fmt.Sprintf("o%d:%s", root.id, reg))
	case 'i':
		add("i:" + reg)
	default:
		add("i:" + reg)
		add("n:" + reg)
	}
	if _, ok := x.st.dirty["*"]; ok && !e.immune(loc, root) {
		add("*")
	}
	if len(eps) > 0 {
		return e.T.App("hv", "", typ, append([]*Term{loc}, eps...)...)
	}
	if cls == 'n' {
		if loc.op == "&mok" {
			return e.T.Bool(false)
		}
		return e.zero(typ)
	}
	if e.H.Init != nil {
		if v := e.H.Init(x, loc); v != nil {
			return v
		}
	}
	return e.T.App("init", "", typ, loc)
}

// immune: locations a user callback or unknown code cannot change.
func (e *Eng) immune(loc, root *Term) bool {
	if loc.op == "&f" && e.P.initOnly[loc.aux] {
		return true
	}
	if loc.op == "&f" && e.H.HavocKeep != nil && e.H.HavocKeep(loc.aux) {
		return true
	}
	if root.op == "alloc" {
		if a, ok := root.in.(*ssa.Alloc); ok && e.P.private(a) {
			return true
		}
	}
	return false
}

func (e *Eng) field(v *Term, key string, typ types.Type) *Term {
	if v.op == "struct" {
		s := v.typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if strings.HasSuffix(key, "."+s.Field(i).Name()) {
				return v.args[i]
			}
		}
	}
	if v.op == "zero" {
		return e.zero(typ)
	}
	return e.T.App("field", key, typ, v)
}

func (e *Eng) store(x *Ctx, loc, val *Term, typ types.Type) {
	if s := isIniStruct(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			key := typeShort(typ) + "." + s.Field(i).Name()
			fl := e.fieldAddr(loc, key, types.NewPointer(s.Field(i).Type()))
			e.store(x, fl, e.field(val, key, s.Field(i).Type()), s.Field(i).Type())
		}
		return
	}
	if e.H.Store != nil {
		e.H.Store(x, loc, val)
	}
	e.poke(x, loc, val)
}

// poke writes a location and forgets everything that may alias it.
func (e *Eng) poke(x *Ctx, loc, val *Term) {
	st := x.st
	reg := regionOf(loc)
	for l := range st.mem {
		if l != loc && regionOf(l) == reg && e.mayAlias(l, loc) {
			delete(st.mem, l)
		}
		// overwriting an opaque aggregate
		if l != loc && l.op == "&f" && l.args[0] == loc {
			delete(st.mem, l)
		}
	}
	root := rootOf(loc)
	cls := classOf(root)
	if loc.op != "&g" && loc != root {
		st.dirty[string(cls)+":"+reg] = e.T.Sym(x.fr, x.in, "d:"+reg, nil)
	}
	if loc == root && cls == 'w' {
		st.dirty["w:"+reg] = e.T.Sym(x.fr, x.in, "d:"+reg, nil)
	}
	if cls == 'n' && (loc.op == "&e" || loc.op == "&m" || loc.op == "&mok") {
		st.dirty[fmt.Sprintf("o%d:%s", root.id, reg)] = e.T.Sym(x.fr, x.in, "d:"+reg, nil)
	}
	st.mem[loc] = val
}

// havoc forgets everything unknown code may change.
func (e *Eng) havoc(x *Ctx) {
	st := x.st
	for l := range st.mem {
		if !e.immune(l, rootOf(l)) {
			delete(st.mem, l)
		}
	}
	st.dirty["*"] = e.T.Sym(x.fr, x.in, "havoc", nil)
}

// ---------------------------------------------------------------- values

func (e *Eng) val(fr *Frame, st *State, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return e.zero(c.Type())
		}
		return e.T.Const(c.Value, c.Type())
	case *ssa.Function:
		return e.T.Func(c)
	case *ssa.Global:
		return e.globalAddr(c)
	case *ssa.Builtin:
		return e.T.App("builtin", c.Name(), c.Type())
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	return e.T.Sym(fr, instrOf(v), "undef:"+v.Name(), v.Type())
}

func instrOf(v ssa.Value) ssa.Instruction {
	if i, ok := v.(ssa.Instruction); ok {
		return i
	}
	return nil
}

func (e *Eng) globalAddr(g *ssa.Global) *Term {
	n := g.Name()
	if g.Pkg != e.pkg {
		n = "lib:" + g.Pkg.Pkg.Path() + "." + g.Name()
	}
	return e.T.App("&g", n, g.Type())
}

// ---------------------------------------------------------------- execution

type item struct {
	blk  *ssa.BasicBlock
	pred *ssa.BasicBlock
	st   *State
}

type headState struct {
	st      *State // generalised
	n       int
	joined  bool
	changed bool
}

func (e *Eng) cap() int {
	if e.H.JoinCap > 0 {
		return e.H.JoinCap
	}
	return 8
}

func (e *Eng) factCap() int {
	if e.H.FactCap > 0 {
		return e.H.FactCap
	}
	return 2
}

// gc drops registers that are dead at block b and facts about dead values.
func (e *Eng) gc(fr *Frame, st *State, live map[ssa.Value]bool, extra []*Term) {
	if live != nil {
		for v := range st.env {
			if !live[v] {
				delete(st.env, v)
			}
		}
	}
	alive := map[*Term]bool{}
	mark := func(t *Term) {
		for _, s := range t.syms {
			alive[s] = true
		}
	}
	for _, t := range st.env {
		mark(t)
	}
	for _, t := range extra {
		mark(t)
	}
	for _, t := range st.cl {
		mark(t)
	}
	if e.H.KeepEpochs {
		for _, t := range st.dirty {
			mark(t)
		}
	}
	for _, d := range st.defers {
		mark(d.fn)
		for _, a := range d.args {
			mark(a)
		}
	}
	for _, r := range e.roots {
		for s := range r {
			alive[s] = true
		}
	}
	// memory: entries rooted at dead private cells are dropped
	for changed := true; changed; {
		changed = false
		for l, v := range st.mem {
			root := rootOf(l)
			if root.op == "alloc" && !alive[root] {
				continue
			}
			for _, s := range v.syms {
				if !alive[s] {
					alive[s] = true
					changed = true
				}
			}
			for _, s := range l.syms {
				if !alive[s] {
					alive[s] = true
					changed = true
				}
			}
		}
	}
	for l := range st.mem {
		root := rootOf(l)
		if root.op == "alloc" && !alive[root] {
			delete(st.mem, l)
		}
	}
	if e.H.JoinBounds {
		e.projectLen(st, alive)
	}
	if e.H.KeepPhis {
		for f := range st.facts {
			if f.op != "ge0" && f.op != "eq" {
				continue
			}
			for _, s := range f.syms {
				if ph, ok := s.in.(*ssa.Phi); ok && !alive[s] && e.running(fr, st, s.fr, ph.Block()) {
					alive[s] = true
				}
			}
		}
	}
	for f := range st.facts {
		if len(f.syms) > 0 && !symsSubset(f, alive) || e.H.KeepFact != nil && !e.H.KeepFact(f) {
			delete(st.facts, f)
		}
	}
}

// running: g is a frame on the way to fr, and b the head of one of its loops.
func (e *Eng) running(fr *Frame, st *State, g *Frame, b *ssa.BasicBlock) bool {
	for ; fr != nil; fr = fr.parent {
		if fr == g {
			return e.fnInfo(g.fn).loops[b] != nil
		}
	}
	return false
}

// projectLen keeps that a list has elements when the facts that say so are
// about to be dropped.
func (e *Eng) projectLen(st *State, alive map[*Term]bool) {
	var keep []*Term
	for f := range st.facts {
		if f.op != "ge0" || len(f.syms) == 0 || alive != nil && symsSubset(f, alive) {
			continue
		}
		for at := range e.linOf(f.args[0]).co {
			if at.op != "len" || alive != nil && !symsSubset(at, alive) {
				continue
			}
			g := e.mkGE0(e.linOf(at).add(newLin(1), -1))
			if g.op == "const" || e.evalBoolNoLin(st, g) != 0 {
				continue
			}
			if e.provesGE0(st, e.linOf(at).add(newLin(1), -1)) {
				keep = append(keep, g)
			}
		}
	}
	for _, g := range keep {
		e.addFact(st, g, true)
	}
}

func subsumes(a, b map[*Term]bool) bool { // a ⊆ b: state with facts a covers state with facts b
	if len(a) > len(b) {
		return false
	}
	for f, p := range a {
		if q, ok := b[f]; !ok || q != p {
			return false
		}
	}
	return true
}

// exec runs fr from its entry with st (env holds parameters) and returns the exits.
func (e *Eng) exec(fr *Frame, st *State) []*Exit {
	fn := fr.fn
	e.funcsSeen[fn] = true
	fi := e.fnInfo(fn)
	if fi.irreducible {
		e.undecide(fr, nil, "irreducible control flow")
	}
	var work []*item
	push := func(it *item) { work = append(work, it) }
	pop := func() []*item {
		best := -1
		for i, it := range work {
			if best < 0 || fi.rpo[it.blk] < fi.rpo[work[best].blk] {
				best = i
			}
		}
		blk := work[best].blk
		var got, rest []*item
		for _, it := range work {
			if it.blk == blk {
				got = append(got, it)
			} else {
				rest = append(rest, it)
			}
		}
		work = rest
		return got
	}
	type seenAt struct {
		facts  map[string][]map[*Term]bool // by full key
		n      map[string]int              // states run per client key
		joined map[string]*State           // the joined state per client key
	}
	at := map[*ssa.BasicBlock]*seenAt{}
	heads := map[*ssa.BasicBlock]map[string]*headState{}
	var exits []*Exit
	push(&item{fn.Blocks[0], nil, st})
	for len(work) > 0 {
		if e.steps > e.maxSteps || time.Since(started) > 7*time.Minute {
			e.undecide(nil, nil, "step budget exceeded in "+fnName(fn))
			return exits
		}
		items := pop()
		b := items[0].blk
		isHead := fi.loops[b] != nil
		if at[b] == nil {
			at[b] = &seenAt{map[string][]map[*Term]bool{}, map[string]int{}, map[string]*State{}}
		}
		sa := at[b]
		lv := map[ssa.Value]bool{}
		for v := range fi.live[b] {
			lv[v] = true
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			lv[ph] = true
		}
		var todo []*State
		for _, it := range items {
			st := it.st
			if it.pred != nil {
				pi := -1
				for i, p := range b.Preds {
					if p == it.pred {
						pi = i
					}
				}
				var nv []*Term
				var phis []*ssa.Phi
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis = append(phis, ph)
					nv = append(nv, e.val(fr, st, ph.Edges[pi]))
				}
				for i, ph := range phis {
					st.env[ph] = nv[i]
				}
			}
			e.gc(fr, st, lv, nil)
			if isHead {
				e.atHeader(fr, st, b, fi.loops[b], it.pred, heads)
			} else {
				todo = append(todo, st)
			}
		}
		if isHead {
			todo = e.changedHeads(heads[b])
		}
		ckOf := func(st *State) string { return st.clKey() + "#" + st.deferKey() }
		full := func(st *State) string { return ckOf(st) + "#" + st.envKey() + "#" + st.memKey() }
		covered := func(st *State) bool {
			for _, f := range sa.facts[full(st)] {
				if subsumes(f, st.facts) {
					return true
				}
			}
			return false
		}
		run := func(st *State) {
			fcopy := make(map[*Term]bool, len(st.facts))
			for f, p := range st.facts {
				fcopy[f] = p
			}
			k := full(st)
			var keep []map[*Term]bool
			for _, f := range sa.facts[k] {
				if !subsumes(fcopy, f) {
					keep = append(keep, f)
				}
			}
			sa.facts[k] = append(keep, fcopy)
			e.blkCount[b]++
			e.runBlock(fr, b, st, push, &exits)
		}
		if isHead {
			for _, st := range todo {
				if !covered(st) {
					run(st)
				}
			}
			continue
		}
		// group by client state, then keep the number of disjuncts bounded
		groups := map[string][]*State{}
		var order []string
		for _, st := range todo {
			if covered(st) {
				continue
			}
			ck := ckOf(st) + "#" + e.envSig(st)
			if groups[ck] == nil {
				order = append(order, ck)
			}
			groups[ck] = append(groups[ck], st)
		}
		for _, ck := range order {
			g := e.reduceStates(groups[ck], sa.facts, full)
			if sa.n[ck]+len(g) > e.cap() {
				m := sa.joined[ck]
				for _, st := range g {
					if m == nil {
						m = st
						continue
					}
					m = e.join(fr, b, m, st)
					e.nJoins++
				}
				if m == nil || covered(m) {
					continue
				}
				sa.joined[ck] = m.clone()
				run(m)
				continue
			}
			for _, st := range g {
				if covered(st) {
					continue
				}
				sa.n[ck]++
				run(st)
			}
		}
	}
	return e.mergeExits(fr, exits)
}

// reduceStates merges states that differ in facts only.
func (e *Eng) reduceStates(g []*State, seen map[string][]map[*Term]bool, full func(*State) string) []*State {
	by := map[string][]*State{}
	var order []string
	for _, s := range g {
		k := full(s)
		if by[k] == nil {
			order = append(order, k)
		}
		dup := false
		var keep []*State
		for _, o := range by[k] {
			if subsumes(o.facts, s.facts) {
				dup = true
			}
			if !subsumes(s.facts, o.facts) {
				keep = append(keep, o)
			}
		}
		if dup {
			continue
		}
		by[k] = append(keep, s)
	}
	var out []*State
	for _, k := range order {
		l := by[k]
		if len(l)+len(seen[k]) > e.factCap() {
			m := l[0]
			meet := func(o map[*Term]bool) {
				for f, p := range m.facts {
					if q, ok := o[f]; !ok || q != p {
						delete(m.facts, f)
					}
				}
			}
			for _, o := range l[1:] {
				meet(o.facts)
			}
			if n := len(seen[k]); n >= e.factCap() {
				meet(seen[k][n-1])
			}
			l = []*State{m}
			e.nJoins++
		}
		out = append(out, l...)
	}
	return out
}

// envSig tells which nillable registers are nil, non-nil or unknown.
func (e *Eng) envSig(st *State) string {
	if e.H.SigRegs == nil {
		return ""
	}
	var p []string
	for v, t := range st.env {
		if !e.H.SigRegs(v) {
			continue
		}
		s := "?"
		switch {
		case t.isConst() && isBoolType(t.typ):
			s = t.String()
		case e.knownNil(st, t):
			s = "0"
		case e.knownNonNil(st, t):
			s = "1"
		}
		p = append(p, v.Name()+s)
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

// nilSig tells which results are nil, non-nil, true or false: outcomes that
// differ in this are kept apart.
func (e *Eng) nilSig(st *State, rs []*Term) string {
	var b strings.Builder
	for _, r := range rs {
		switch {
		case r.isConst() && isBoolType(r.typ):
			b.WriteString(r.String())
		case r.typ == nil && !r.isNil() || r.typ != nil && !isNillable(r.typ):
			b.WriteByte('-')
		case e.knownNil(st, r):
			b.WriteByte('0')
		case e.knownNonNil(st, r):
			b.WriteByte('1')
		default:
			b.WriteByte('?')
		}
	}
	return b.String()
}

func (e *Eng) mergeExits(fr *Frame, exits []*Exit) []*Exit {
	groups := map[string][]*Exit{}
	var order []string
	for _, ex := range exits {
		ex.st.env = map[ssa.Value]*Term{}
		e.gc(fr, ex.st, nil, ex.results)
		k := ex.st.clKey() + "#" + ex.st.deferKey() + "#" + e.nilSig(ex.st, ex.results)
		if fr.parent == nil {
			k += fmt.Sprintf("%p", ex.ret)
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], ex)
	}
	var out []*Exit
	for _, k := range order {
		out = append(out, e.reduce(fr, groups[k])...)
	}
	e.nExits += len(out)
	return out
}

// reduce drops outcomes covered by others and joins when there are too many.
func (e *Eng) reduce(fr *Frame, exits []*Exit) []*Exit {
	sub := map[string][]*Exit{}
	var order []string
	for _, ex := range exits {
		k := ex.st.memKey()
		for _, r := range ex.results {
			k += fmt.Sprint(r.id, ",")
		}
		if sub[k] == nil {
			order = append(order, k)
		}
		dup := false
		var keep []*Exit
		for _, o := range sub[k] {
			if subsumes(o.st.facts, ex.st.facts) {
				dup = true
			}
			if !subsumes(ex.st.facts, o.st.facts) {
				keep = append(keep, o)
			}
		}
		if dup {
			continue
		}
		sub[k] = append(keep, ex)
	}
	var out []*Exit
	for _, k := range order {
		g := sub[k]
		if len(g) > e.factCap() {
			m := g[0]
			for _, o := range g[1:] {
				for f, p := range m.st.facts {
					if q, ok := o.st.facts[f]; !ok || q != p {
						delete(m.st.facts, f)
					}
				}
			}
			g = []*Exit{m}
			e.nJoins++
		}
		out = append(out, g...)
	}
	cap := e.H.ExitCap
	if cap == 0 {
		cap = 4
	}
	if len(out) <= cap {
		return out
	}
	m := out[0]
	for _, o := range out[1:] {
		m = e.joinExit(fr, m, o)
		e.nJoins++
	}
	return []*Exit{m}
}

func (e *Eng) joinExit(fr *Frame, a, c *Exit) *Exit {
	first := fr.fn.Blocks[0].Instrs[0]
	n := a.st.clone()
	var rs []*Term
	type pair struct{ s, t, u *Term }
	var ps []pair
	for i := range a.results {
		t, u := a.results[i], c.results[i]
		if t == u {
			rs = append(rs, t)
			continue
		}
		s := e.T.Sym(fr, first, fmt.Sprintf("xr:%d", i), fr.fn.Signature.Results().At(i).Type())
		rs = append(rs, s)
		ps = append(ps, pair{s, t, u})
	}
	for f, p := range a.st.facts {
		if q, ok := c.st.facts[f]; !ok || q != p {
			delete(n.facts, f)
		}
	}
	e.joinMem(fr, first, n, a.st, c.st)
	for _, p := range ps {
		e.carryNil(n, p.s, a.st, p.t, c.st, p.u)
	}
	return &Exit{n, rs, a.ret}
}

// join is the least upper bound of two states with equal client state.
func (e *Eng) join(fr *Frame, b *ssa.BasicBlock, a, c *State) *State {
	n := a.clone()
	first := b.Instrs[0]
	for f, p := range a.facts {
		if q, ok := c.facts[f]; !ok || q != p {
			delete(n.facts, f)
		}
	}
	var ps []joined
	fresh := map[*Term]bool{}
	for v, t := range a.env {
		u, ok := c.env[v]
		if !ok {
			delete(n.env, v)
			continue
		}
		if u != t {
			s := e.T.Sym(fr, first, "j:"+v.Name(), v.Type())
			n.env[v] = s
			ps = append(ps, joined{v, s, t, u})
			fresh[s] = true
		}
	}
	// the new value may share its name with the one of an earlier join
	for f := range n.facts {
		if symsAny(f, fresh) {
			delete(n.facts, f)
		}
	}
	for _, p := range ps {
		e.carryNil(n, p.s, a, p.t, c, p.u)
	}
	if e.H.JoinBounds {
		e.carrySizes(n, a, c, ps)
	}
	e.joinMem(fr, first, n, a, c)
	return n
}

// carryDiff: by how much the first number is at least above the second one,
// before the states were joined and so afterwards.
func (e *Eng) carryDiff(n *State, hi, lo *Term, a *State, hiA, loA *Term, c *State, hiC, loC *Term) {
	for _, k := range []int64{1, 0} {
		f, pol := e.mkGE0(e.linOf(hi).add(e.linOf(lo), -1).add(newLin(k), -1)), true
		if f.op == "not" {
			f, pol = f.args[0], false
		}
		if f.op != "ge0" {
			continue
		}
		if e.provesGE0(a, e.linOf(hiA).add(e.linOf(loA), -1).add(newLin(k), -1)) && e.provesGE0(c, e.linOf(hiC).add(e.linOf(loC), -1).add(newLin(k), -1)) {
			n.facts[f] = pol
			return
		}
	}
}

func (e *Eng) carryNil(n *State, s *Term, a *State, t *Term, c *State, u *Term) {
	if s.typ == nil {
		return
	}
	nk := e.T.App("eq", "", types.Typ[types.Bool], s, e.T.Nil())
	delete(n.facts, nk)
	if e.H.JoinBounds {
		if s == t || s == u { // the facts about the new value were dropped
			for f := range n.facts {
				if f.op == "ge0" && symsAny(f, map[*Term]bool{s: true}) {
					delete(n.facts, f)
				}
			}
		}
		e.carryBounds(n, s, a, t, c, u)
	}
	if isNillable(s.typ) {
		if e.knownNonNil(a, t) && e.knownNonNil(c, u) {
			n.facts[nk] = false
		} else if e.knownNil(a, t) && e.knownNil(c, u) {
			n.facts[nk] = true
		}
	}
}

// carryBounds: what both values of a joined number or text have in common.
func (e *Eng) carryBounds(n *State, s *Term, a *State, t *Term, c *State, u *Term) {
	if isStringType(s.typ) {
		k := e.mkEq(s, e.T.Str(""))
		delete(n.facts, k)
		if e.knownNonEmpty(a, t) && e.knownNonEmpty(c, u) {
			n.facts[k] = false
		}
		return
	}
	if !isIntType(s.typ) {
		return
	}
	self := newLin(0)
	self.co[s] = 1
	try := func(dt, du, ds *LinExpr) {
		f, pol := e.mkGE0(ds), true
		if f.op == "not" {
			f, pol = f.args[0], false
		}
		if f.op != "ge0" {
			return
		}
		if e.provesGE0(a, dt) && e.provesGE0(c, du) {
			n.facts[f] = pol
		}
	}
	lt, lu := e.linOf(t), e.linOf(u)
	for _, k := range []int64{1, 0, -1} {
		try(lt.add(newLin(k), -1), lu.add(newLin(k), -1), self.add(newLin(k), -1))
	}
	lens := map[*Term]bool{}
	for _, l := range []*LinExpr{lt, lu} {
		for at := range l.co {
			for _, y := range subterms(at) {
				if y.typ != nil && y.op != "const" && (isStringType(y.typ) || isSliceLike(y)) {
					lens[y] = true
				}
			}
		}
	}
	for _, p := range []struct {
		st *State
		t  *Term
	}{{a, t}, {c, u}} {
		for f := range p.st.facts {
			if f.op != "ge0" || p.t.isConst() {
				continue
			}
			l := e.linOf(f.args[0])
			if _, ok := l.co[p.t]; !ok {
				continue
			}
			for at := range l.co {
				if at.op == "len" {
					lens[at.args[0]] = true
				}
			}
		}
	}
	if len(lens) > 8 {
		return
	}
	for y := range lens {
		l := e.linOf(e.mkLen(y))
		try(l.add(lt, -1), l.add(lu, -1), l.add(self, -1))
	}
}

func isNillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (e *Eng) joinMem(fr *Frame, at ssa.Instruction, n, a, c *State) {
	locs := map[*Term]bool{}
	for l := range a.mem {
		locs[l] = true
	}
	for l := range c.mem {
		locs[l] = true
	}
	n.mem = map[*Term]*Term{}
	n.dirty = map[string]*Term{}
	for l := range locs {
		x, ok1 := a.mem[l]
		y, ok2 := c.mem[l]
		if ok1 && ok2 && x == y {
			n.mem[l] = x
			continue
		}
		typ := l.typ
		var et types.Type
		if typ != nil {
			et = deref(typ)
		}
		if !ok1 {
			x = e.peek(&Ctx{e, fr, a, at}, l, et0(et))
		}
		if !ok2 {
			y = e.peek(&Ctx{e, fr, c, at}, l, et0(et))
		}
		if x == y {
			n.mem[l] = x
			continue
		}
		s := e.T.Sym(fr, at, fmt.Sprintf("jm:%d", l.id), et)
		n.mem[l] = s
		for f := range n.facts {
			if symsAny(f, map[*Term]bool{s: true}) {
				delete(n.facts, f)
			}
		}
		e.carryNil(n, s, a, x, c, y)
	}
	ds := map[string]bool{}
	for r := range a.dirty {
		ds[r] = true
	}
	for r := range c.dirty {
		ds[r] = true
	}
	for r := range ds {
		x, y := a.dirty[r], c.dirty[r]
		if x == y {
			n.dirty[r] = x
		} else {
			n.dirty[r] = e.T.Sym(fr, at, "jd:"+r, nil)
		}
	}
}

func et0(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	return t
}

// runBlock executes the non-phi instructions of b.
func (e *Eng) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, push func(*item), exits *[]*Exit) {
	states := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var next []*State
		for _, s := range states {
			e.steps++
			x := &Ctx{e, fr, s, in}
			switch i := in.(type) {
			case *ssa.If:
				c := e.val(fr, s, i.Cond)
				for k, succ := range b.Succs {
					n := s.clone()
					pol := k == 0
					if !e.assume(n, c, pol) {
						continue
					}
					if e.H.Branch != nil && !e.H.Branch(&Ctx{e, fr, n, in}, c, pol) {
						continue
					}
					if e.H.RangeExit && b.Comment == "rangeint.loop" && succ.Comment == "rangeint.done" {
						// a range over a number tests at the end of its rounds
						hdr := b.Succs[1-k]
						e.H.BackEdge(&Ctx{e, fr, n, hdr.Instrs[0]}, fr, nil, n, hdr)
					}
					push(&item{succ, b, n})
				}
			case *ssa.Jump:
				push(&item{b.Succs[0], b, s})
			case *ssa.Return:
				var rs []*Term
				for _, r := range i.Results {
					rs = append(rs, e.val(fr, s, r))
				}
				*exits = append(*exits, &Exit{s, rs, i})
			case *ssa.Panic:
				if e.H.Panic != nil {
					e.H.Panic(x, e.val(fr, s, i.X))
				}
			default:
				next = append(next, e.step(x)...)
			}
		}
		states = next
		if len(states) == 0 {
			return
		}
		if len(states) > 1 {
			states = e.dedupe(states)
		}
	}
}

func (e *Eng) dedupe(ss []*State) []*State {
	seen := map[string][]*State{}
	var out []*State
	for _, s := range ss {
		k := s.clKey() + "#" + s.deferKey() + "#" + s.envKey() + "#" + s.memKey()
		dup := false
		for _, o := range seen[k] {
			if subsumes(o.facts, s.facts) {
				dup = true
				break
			}
		}
		if dup {
			continue
		}
		seen[k] = append(seen[k], s)
		out = append(out, s)
	}
	return out
}

// bind sets the value of the instruction and returns the state.
func (x *Ctx) bind(t *Term) []*State {
	if v, ok := x.in.(ssa.Value); ok {
		x.st.env[v] = t
	}
	return []*State{x.st}
}

func (x *Ctx) val(v ssa.Value) *Term { return x.e.val(x.fr, x.st, v) }

func (x *Ctx) fresh(tag string, typ types.Type) *Term { return x.e.T.Sym(x.fr, x.in, tag, typ) }

func (e *Eng) step(x *Ctx) []*State {
	switch i := x.in.(type) {
	case *ssa.DebugRef:
		return []*State{x.st}
	case *ssa.Alloc:
		t := e.T.Alloc(x.fr, i, "", i.Type())
		// a new object: forget what an earlier iteration stored in it
		for l := range x.st.mem {
			for _, c := range l.cells {
				if c == t {
					delete(x.st.mem, l)
					break
				}
			}
		}
		for k := range x.st.dirty {
			if strings.HasPrefix(k, fmt.Sprintf("o%d:", t.id)) {
				delete(x.st.dirty, k)
			}
		}
		e.zeroInit(x.st, t, deref(i.Type()))
		return x.bind(t)
	case *ssa.BinOp:
		return x.bind(e.binop(x, i.Op, x.val(i.X), x.val(i.Y), i.Type(), i.X.Type()))
	case *ssa.UnOp:
		return e.unop(x, i)
	case *ssa.ChangeInterface:
		return x.bind(x.val(i.X))
	case *ssa.ChangeType:
		return x.bind(x.val(i.X))
	case *ssa.Convert:
		return x.bind(e.convert(x, x.val(i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		return x.bind(e.convert(x, x.val(i.X), i.X.Type(), i.Type()))
	case *ssa.MakeInterface:
		return x.bind(e.T.App("iface", typeShort(i.X.Type()), i.X.Type(), x.val(i.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, v := range i.Bindings {
			bs = append(bs, x.val(v))
		}
		return x.bind(e.T.Closure(i.Fn.(*ssa.Function), bs))
	case *ssa.MakeMap:
		return x.bind(e.T.App("makemap", typeShort(i.Type()), i.Type(), e.T.Alloc(x.fr, i, "", i.Type())))
	case *ssa.MakeSlice:
		return x.bind(e.T.App("make", typeShort(i.Type()), i.Type(), e.T.Alloc(x.fr, i, "", i.Type()), x.val(i.Len), x.val(i.Cap)))
	case *ssa.MakeChan:
		return x.bind(e.T.Alloc(x.fr, i, "", i.Type()))
	case *ssa.FieldAddr:
		base := x.val(i.X)
		if e.H.Deref != nil {
			e.H.Deref(x, base)
		}
		k, ft := fieldKeyOf(i.X, i.Field)
		return x.bind(e.fieldAddr(base, k, types.NewPointer(ft)))
	case *ssa.Field:
		k, ft := fieldKeyOf(i.X, i.Field)
		return x.bind(e.field(x.val(i.X), k, ft))
	case *ssa.IndexAddr:
		base, idx := x.val(i.X), x.val(i.Index)
		ln := e.mkLen(base)
		if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				ln = e.T.Int(a.Len())
			}
		}
		if e.H.Index != nil {
			e.H.Index(x, base, idx, ln)
		}
		return x.bind(e.elemAddr(base, idx, i.Type()))
	case *ssa.Index:
		base, idx := x.val(i.X), x.val(i.Index)
		if e.H.Index != nil {
			e.H.Index(x, base, idx, e.mkLen(base))
		}
		return x.bind(e.indexStr(base, idx, i.Type()))
	case *ssa.Lookup:
		return e.lookup(x, i)
	case *ssa.MapUpdate:
		e.mapUpdate(x, x.val(i.Map), x.val(i.Key), x.val(i.Value), i.Map.Type())
		return []*State{x.st}
	case *ssa.Slice:
		return e.sliceOp(x, i)
	case *ssa.Store:
		loc, v := x.val(i.Addr), x.val(i.Val)
		e.store(x, loc, v, i.Val.Type())
		return []*State{x.st}
	case *ssa.Extract:
		t := x.val(i.Tuple)
		if t.op == "tuple" {
			return x.bind(t.args[i.Index])
		}
		return x.bind(e.T.App("extract", fmt.Sprint(i.Index), i.Type(), t))
	case *ssa.Range:
		t := x.val(i.X)
		if e.H.MapRange != nil {
			if _, ok := i.X.Type().Underlying().(*types.Map); ok {
				e.H.MapRange(x, t)
			}
		}
		return x.bind(e.T.App("range", "", i.Type(), t))
	case *ssa.Next:
		return e.next(x, i)
	case *ssa.TypeAssert:
		return e.typeAssert(x, i)
	case *ssa.Call:
		return e.call(x, &i.Call, func(st *State, res []*Term) {
			bindRes(e, st, i, i.Type(), res)
		})
	case *ssa.Defer:
		c := i.Call
		d := deferRec{in: i}
		if c.IsInvoke() {
			d.fn = x.val(c.Value)
		} else {
			d.fn = x.val(c.Value)
		}
		for _, a := range c.Args {
			d.args = append(d.args, x.val(a))
		}
		x.st.defers = append(x.st.defers, d)
		return []*State{x.st}
	case *ssa.RunDefers:
		return e.runDefers(x)
	case *ssa.Go:
		if e.H.Go != nil {
			e.H.Go(x)
		} else {
			e.undecide(x.fr, x.in, "goroutine started")
		}
		return []*State{x.st}
	case *ssa.Send, *ssa.Select:
		e.undecide(x.fr, x.in, "channel operation")
		if v, ok := x.in.(ssa.Value); ok {
			return x.bind(x.fresh("chan", v.Type()))
		}
		return []*State{x.st}
	case *ssa.SliceToArrayPointer:
		return x.bind(e.T.App("slice2arr", "", i.Type(), x.val(i.X)))
	}
	e.undecide(x.fr, x.in, fmt.Sprintf("unsupported instruction %T", x.in))
	if v, ok := x.in.(ssa.Value); ok {
		return x.bind(x.fresh("unk", v.Type()))
	}
	return []*State{x.st}
}

func bindRes(e *Eng, st *State, v ssa.Value, typ types.Type, res []*Term) {
	if tup, ok := typ.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return
		}
		st.env[v] = e.T.App("tuple", "", typ, res...)
		return
	}
	if len(res) > 0 {
		st.env[v] = res[0]
	}
}

func (e *Eng) elemAddr(base, idx *Term, typ types.Type) *Term {
	aux := ""
	if typ != nil {
		aux = typeShort(deref(typ))
	}
	for base.op == "slice" {
		idx = e.mkAdd(base.args[1], idx, types.Typ[types.Int])
		base = base.args[0]
	}
	return e.T.App("&e", aux, typ, base, idx)
}

func (e *Eng) indexStr(base, idx *Term, typ types.Type) *Term {
	for base.op == "slice" {
		idx = e.mkAdd(base.args[1], idx, types.Typ[types.Int])
		base = base.args[0]
	}
	if base.isConst() && base.val.Kind() == constant.String {
		if n, ok := constInt(idx); ok {
			s := constant.StringVal(base.val)
			if n >= 0 && n < int64(len(s)) {
				return e.T.Const(constant.MakeInt64(int64(s[n])), typ)
			}
		}
	}
	return e.T.App("index", "", typ, base, idx)
}

func (e *Eng) binop(x *Ctx, op token.Token, a, b *Term, typ, opt types.Type) *Term {
	switch op {
	case token.ADD:
		if a.isConst() && b.isConst() && !isStringType(typ) {
			return e.T.Const(constant.BinaryOp(a.val, op, b.val), typ)
		}
		return e.mkAdd(a, b, typ)
	case token.SUB:
		if a.isConst() && b.isConst() {
			return e.T.Const(constant.BinaryOp(a.val, op, b.val), typ)
		}
		return e.mkSub(a, b, typ)
	case token.EQL:
		return e.mkEq(a, b)
	case token.NEQ:
		return e.mkNot(e.mkEq(a, b))
	case token.LSS:
		return e.mkLt(a, b)
	case token.GTR:
		return e.mkLt(b, a)
	case token.LEQ:
		if isFloatType(opt) {
			return e.T.App("le", "", typ, a, b)
		}
		return e.mkNot(e.mkLt(b, a))
	case token.GEQ:
		if isFloatType(opt) {
			return e.T.App("le", "", typ, b, a)
		}
		return e.mkNot(e.mkLt(a, b))
	case token.MUL:
		if isSignedInt(typ) {
			if n, ok := constInt(a); ok {
				return e.mkLin(newLin(0).add(e.linOf(b), n), typ)
			}
			if n, ok := constInt(b); ok {
				return e.mkLin(newLin(0).add(e.linOf(a), n), typ)
			}
		}
	}
	if isBoolType(typ) {
		if op == token.AND {
			return e.T.App("and", "", typ, a, b)
		}
		if op == token.OR {
			return e.T.App("or", "", typ, a, b)
		}
	}
	return e.T.App("arith"+op.String(), "", typ, a, b)
}

func (e *Eng) unop(x *Ctx, i *ssa.UnOp) []*State {
	t := x.val(i.X)
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok && g.Pkg != e.pkg {
			return x.bind(e.T.App("gload", "lib:"+g.Pkg.Pkg.Path()+"."+g.Name(), i.Type()))
		}
		if e.H.Deref != nil {
			e.H.Deref(x, t)
		}
		return x.bind(e.load(x, t, i.Type()))
	case token.NOT:
		return x.bind(e.mkNot(t))
	case token.SUB:
		if isSignedInt(i.Type()) {
			return x.bind(e.mkLin(e.linOf(t).neg(), i.Type()))
		}
	case token.ARROW:
		e.undecide(x.fr, x.in, "channel receive")
	}
	return x.bind(e.T.App("un"+i.Op.String(), "", i.Type(), t))
}

func (e *Eng) convert(x *Ctx, t *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	isBytes := func(u types.Type) (byte, bool) {
		s, ok := u.(*types.Slice)
		if !ok {
			return 0, false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		if !ok {
			return 0, false
		}
		switch b.Kind() {
		case types.Uint8:
			return 'b', true
		case types.Int32:
			return 'r', true
		}
		return 0, false
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if k, ok := isBytes(fu); ok {
			if k == 'b' {
				if t.op == "str2bytes" {
					return t.args[0]
				}
				return e.T.App("bytes2str", "", to, t)
			}
			return e.T.App("runes2str", "", to, t)
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return t
		}
		return e.T.App("int2str", "", to, t)
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if k, ok := isBytes(tu); ok {
			if k == 'b' {
				return e.T.App("str2bytes", "", to, t)
			}
			return e.T.App("runes", "", to, t)
		}
	}
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if t.isConst() {
			return e.T.Const(t.val, to)
		}
		fs, ts := e.P.sizes.Sizeof(from), e.P.sizes.Sizeof(to)
		fun, tun := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
		if fun == tun && ts >= fs || fun && !tun && ts > fs {
			return t
		}
	}
	if t.isConst() && fb != nil && tb != nil && tb.Info()&types.IsFloat != 0 {
		return e.T.Const(constant.ToFloat(t.val), to)
	}
	return e.T.App("convert", typeShort(to), to, t)
}

func (e *Eng) mapLoc(m, k *Term, mt types.Type, op string) *Term {
	t := mt.Underlying().(*types.Map)
	if op == "&mok" {
		return e.T.App(op, typeShort(mt), types.NewPointer(types.Typ[types.Bool]), m, k)
	}
	return e.T.App(op, typeShort(mt), types.NewPointer(t.Elem()), m, k)
}

func (e *Eng) lookup(x *Ctx, i *ssa.Lookup) []*State {
	m, k := x.val(i.X), x.val(i.Index)
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		if e.H.Index != nil {
			e.H.Index(x, m, k, e.mkLen(m))
		}
		return x.bind(e.indexStr(m, k, i.Type()))
	}
	v := e.load(x, e.mapLoc(m, k, i.X.Type(), "&m"), mt.Elem())
	if !i.CommaOk {
		return x.bind(v)
	}
	okT := e.peek(x, e.mapLoc(m, k, i.X.Type(), "&mok"), types.Typ[types.Bool])
	return x.bind(e.T.App("tuple", "", i.Type(), v, okT))
}

func (e *Eng) mapUpdate(x *Ctx, m, k, v *Term, mt types.Type) {
	e.store(x, e.mapLoc(m, k, mt, "&m"), v, types.Typ[types.Int])
	if !e.tracked(e.mapLoc(m, k, mt, "&m")) {
		return
	}
	okl := e.mapLoc(m, k, mt, "&mok")
	vl := e.mapLoc(m, k, mt, "&m")
	sv := x.st.mem[vl]
	e.poke(x, okl, e.T.Bool(true))
	x.st.mem[vl] = sv
	if sv == nil {
		x.st.mem[vl] = v
	}
}

func (e *Eng) sliceOp(x *Ctx, i *ssa.Slice) []*State {
	base := x.val(i.X)
	lo := e.T.Int(0)
	if i.Low != nil {
		lo = x.val(i.Low)
	}
	ln := e.mkLen(base)
	capT := ln
	switch u := i.X.Type().Underlying().(type) {
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			ln = e.T.Int(a.Len())
			capT = ln
		}
	case *types.Slice:
		capT = e.mkCap(base)
	}
	hi := ln
	if i.High != nil {
		hi = x.val(i.High)
	}
	var max *Term
	if i.Max != nil {
		max = x.val(i.Max)
	}
	if e.H.Slice != nil {
		e.H.Slice(x, base, lo, hi, max, capT)
	}
	return x.bind(e.mkSlice(base, lo, hi, i.Type()))
}

func (e *Eng) mkCap(x *Term) *Term {
	switch x.op {
	case "make":
		return x.args[2]
	case "slice":
		return e.mkSub(e.mkCap(x.args[0]), x.args[1], types.Typ[types.Int])
	case "nil":
		return e.T.Int(0)
	}
	if isStringType(x.typ) {
		return e.mkLen(x)
	}
	return e.T.App("cap", "", types.Typ[types.Int], x)
}

func (e *Eng) next(x *Ctx, i *ssa.Next) []*State {
	r := x.val(i.Iter)
	tup := i.Type().(*types.Tuple)
	var out []*State
	for _, more := range []bool{true, false} {
		n := x.st.clone()
		y := &Ctx{e, x.fr, n, x.in}
		if more {
			k := y.fresh("k", tup.At(1).Type())
			v := y.fresh("v", tup.At(2).Type())
			if i.IsString {
				// 0 <= k < len(s)
				s := r.args[0]
				n.facts[e.mkGE0(e.linOf(k))] = true
				e.assume(n, e.mkLt(k, e.mkLen(s)), true)
			} else if r.op == "range" {
				if mt, ok := r.args[0].typ.Underlying().(*types.Map); ok {
					n.mem[e.mapLoc(r.args[0], k, r.args[0].typ, "&mok")] = e.T.Bool(true)
					vl := e.mapLoc(r.args[0], k, r.args[0].typ, "&m")
					if e.H.Load != nil {
						e.H.Load(y, vl, v)
					}
					n.mem[vl] = v
					_ = mt
				}
			}
			n.env[i] = e.T.App("tuple", "", tup, e.T.Bool(true), k, v)
		} else {
			n.env[i] = e.T.App("tuple", "", tup, e.T.Bool(false), y.fresh("k0", tup.At(1).Type()), y.fresh("v0", tup.At(2).Type()))
		}
		out = append(out, n)
	}
	return out
}

func (e *Eng) typeAssert(x *Ctx, i *ssa.TypeAssert) []*State {
	v := x.val(i.X)
	if e.H.TypeAssert != nil {
		e.H.TypeAssert(x, v, i.AssertedType, i.CommaOk)
	}
	var res, ok *Term
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	switch {
	case v.op == "iface":
		if toIface {
			if types.Implements(v.typ, i.AssertedType.Underlying().(*types.Interface)) {
				res, ok = v, e.T.Bool(true)
			} else {
				res, ok = e.T.Nil(), e.T.Bool(false)
			}
		} else if types.Identical(v.typ, i.AssertedType) {
			res, ok = v.args[0], e.T.Bool(true)
		} else {
			res, ok = e.zero(i.AssertedType), e.T.Bool(false)
		}
	case v.isNil():
		res, ok = e.zero(i.AssertedType), e.T.Bool(false)
	default:
		ok = e.T.App("istype", typeShort(i.AssertedType), types.Typ[types.Bool], v)
		if toIface {
			res = v
		} else {
			res = e.T.App("typeassert", typeShort(i.AssertedType), i.AssertedType, v)
		}
	}
	if !i.CommaOk {
		return x.bind(res)
	}
	if ok.isConst() {
		return x.bind(e.T.App("tuple", "", i.Type(), res, ok))
	}
	var out []*State
	for _, b := range []bool{true, false} {
		n := x.st.clone()
		if !e.assume(n, ok, b) {
			continue
		}
		r := res
		if !b {
			r = e.zero(i.AssertedType)
		} else if toIface {
			if !e.assume(n, e.mkEq(v, e.T.Nil()), false) {
				continue
			}
		}
		n.env[i] = e.T.App("tuple", "", i.Type(), r, e.T.Bool(b))
		out = append(out, n)
	}
	return out
}

// zeroInit records the zero content of a new object.
func (e *Eng) zeroInit(st *State, loc *Term, typ types.Type) {
	if s := isIniStruct(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			fl := e.fieldAddr(loc, typeShort(typ)+"."+s.Field(i).Name(), types.NewPointer(s.Field(i).Type()))
			e.zeroInit(st, fl, s.Field(i).Type())
		}
		return
	}
	if _, ok := typ.Underlying().(*types.Array); ok {
		return
	}
	if e.tracked(loc) {
		st.mem[loc] = e.zero(typ)
	}
}

// runRoot analyses one function as an entry point with unknown arguments.
func (e *Eng) runRoot(fn *ssa.Function, prep func(fr *Frame, st *State)) []*Exit {
	fr := e.frame(nil, nil, fn)
	st := newState()
	live := map[*Term]bool{}
	for _, p := range fn.Params {
		s := e.T.Sym(fr, nil, p.Name(), p.Type())
		st.env[p] = s
		live[s] = true
	}
	e.roots = []map[*Term]bool{live}
	if prep != nil {
		prep(fr, st)
	}
	ex := e.exec(fr, st)
	if e.H.RootExit != nil {
		for _, x := range ex {
			e.H.RootExit(&Ctx{e, fr, x.st, x.ret}, x)
		}
	}
	return ex
}
