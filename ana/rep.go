package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation: a rule applied to one construct.
type Ob struct {
	Rule   string   `json:"rule"`
	Where  string   `json:"where"` // function
	What   string   `json:"what"`  // construct in it
	OK     bool     `json:"ok"`
	N      int      `json:"checked_times"`
	Why    string   `json:"why,omitempty"`
	Paths  []string `json:"paths,omitempty"`
	Source string   `json:"source,omitempty"`
}

func (o *Ob) key() string { return o.Rule + "|" + o.Where + "|" + o.What }

// Rep collects what a check decided.
type Rep struct {
	mu     sync.Mutex
	prop   string
	tier   string
	obs    map[string]*Ob
	undec  map[string]bool
	roots  map[string]bool
	funcs  map[string]bool
	calls  map[ssa.Instruction]bool
	steps  int
	joins  int
	mins   map[string]int
	counts map[string]int
	rules  []string
	assume []string
	trusts []string
	level  string
	p      *Prog
}

func newRep(p *Prog, prop, tier string) *Rep {
	return &Rep{prop: prop, tier: tier, p: p, obs: map[string]*Ob{}, undec: map[string]bool{}, roots: map[string]bool{}, funcs: map[string]bool{}, calls: map[ssa.Instruction]bool{}, mins: map[string]int{}, counts: map[string]int{}, level: "proof"}
}

func (r *Rep) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := in.Pos()
	if !p.IsValid() {
		// nearest instruction of the block with a position
		if b := in.Block(); b != nil {
			for _, o := range b.Instrs {
				if o.Pos().IsValid() {
					p = o.Pos()
					if o == in {
						break
					}
				}
			}
		}
	}
	if !p.IsValid() {
		return ""
	}
	q := r.p.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// ob records one evaluation of an obligation.
func (r *Rep) ob(ok bool, rule, where, what, why, path string, at ssa.Instruction) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := rule + "|" + where + "|" + what
	o := r.obs[k]
	if o == nil {
		o = &Ob{Rule: rule, Where: where, What: what, OK: true}
		r.obs[k] = o
	}
	o.N++
	if !ok {
		if o.OK {
			o.OK = false
			o.Why = why
			o.Source = r.pos(at)
		}
		if path != "" && len(o.Paths) < 4 {
			dup := false
			for _, p := range o.Paths {
				dup = dup || p == path
			}
			if !dup {
				o.Paths = append(o.Paths, path)
			}
		}
	}
}

// obx records an obligation at an instruction of an abstract run.
func (r *Rep) obx(x *Ctx, ok bool, rule, what, why string) {
	path := ""
	if !ok {
		path = x.fr.chain()
		if n := len(x.e.stack); n > 1 {
			path = strings.Join(x.e.stack[:n-1], " > ") + " > " + path
		}
	}
	r.ob(ok, rule, fnName(x.fr.fn), what, why, path, x.in)
}

func (r *Rep) undecided(msg string) {
	r.mu.Lock()
	r.undec[msg] = true
	r.mu.Unlock()
}

// need demands at least n distinct obligations of a rule, so that a rule whose
// anchors vanished cannot pass silently.
func (r *Rep) need(rule string, n int) { r.mins[rule] = n }
func (r *Rep) count(name string, n int) {
	r.mu.Lock()
	r.counts[name] += n
	r.mu.Unlock()
}
func (r *Rep) rule(s string)       { r.rules = append(r.rules, s) }
func (r *Rep) assumes(s ...string) { r.assume = append(r.assume, s...) }

// run analyses entry points in parallel, each with its own engine.
func (r *Rep) run(roots []*ssa.Function, mk func(fn *ssa.Function) (*Hooks, func(e *Eng, fr *Frame, st *State))) {
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, fn := range roots {
		fn := fn
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if os.Getenv("NORECOVER") != "" {
					return
				}
				if x := recover(); x != nil {
					buf := make([]byte, 4096)
					n := runtime.Stack(buf, false)
					r.undecided(fmt.Sprintf("analysis of %s failed: %v\n%s", fnName(fn), x, buf[:n]))
				}
			}()
			t := time.Now()
			h, prep := mk(fn)
			if h == nil {
				return
			}
			e := newEng(r.p, h)
			e.runRoot(fn, func(fr *Frame, st *State) {
				if prep != nil {
					prep(e, fr, st)
				}
			})
			r.absorb(e, fn)
			if os.Getenv("VERB") != "" {
				fmt.Fprintln(os.Stderr, fnName(fn), "steps", e.steps, "joins", e.nJoins, "terms", e.T.n, time.Since(t).Round(time.Millisecond))
			}
		}()
	}
	wg.Wait()
}

func (r *Rep) absorb(e *Eng, root *ssa.Function) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.roots[fnName(root)] = true
	r.mu.Unlock()
	r.absorbEng(e)
	r.mu.Lock()
}

func (r *Rep) absorbEng(e *Eng) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for f := range e.funcsSeen {
		r.funcs[fnName(f)] = true
	}
	for c := range e.callsSeen {
		r.calls[c] = true
	}
	r.steps += e.steps
	r.joins += e.nJoins
	for u := range e.undecided {
		r.undec[u] = true
	}
}

type knownFinding struct{ key, text string }

func readKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "open: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "open: property="+prop+" ")
		i := strings.Index(l, "key=<")
		j := strings.Index(l, ">")
		if i != 0 || j < 0 {
			continue
		}
		out = append(out, knownFinding{l[5:j], strings.TrimSpace(l[j+1:])})
	}
	return out
}

// finish prints the verdict, writes evidence, and returns the exit code.
func (r *Rep) finish(out, known string, wall float64, cmd string) int {
	perRule := map[string]int{}
	var all []*Ob
	for _, o := range r.obs {
		perRule[o.Rule]++
		all = append(all, o)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].key() < all[j].key() })
	kf := readKnown(known, r.prop)
	var viol []*Ob
	discharged := 0
	printed := map[string]bool{}
	for _, o := range all {
		if o.OK {
			discharged++
			continue
		}
		listed := false
		for _, k := range kf {
			if k.key == o.key() {
				listed = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", r.prop, o.key(), k.text)
				}
			}
		}
		if !listed {
			viol = append(viol, o)
		}
	}
	var rules []string
	for k := range r.mins {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	for _, k := range rules {
		if perRule[k] < r.mins[k] {
			viol = append(viol, &Ob{Rule: "instances", Where: "package ini", What: k, Why: fmt.Sprintf("rule %q applied to %d constructs, at least %d expected: the code it is about was not found, so it decides nothing", k, perRule[k], r.mins[k])})
		}
	}
	var us []string
	for u := range r.undec {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		viol = append(viol, &Ob{Rule: "undecided", Where: "package ini", What: u, Why: "the analysis could not decide this; it is not assumed to hold"})
	}
	replay := filepath.Join(out, r.prop+".violations.json")
	os.MkdirAll(out, 0o755)
	os.Remove(replay)
	if len(viol) > 0 {
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(replay, append(b, '\n'), 0o644)
		for i, v := range viol {
			if i >= 12 {
				fmt.Printf("... and %d more (see %s)\n", len(viol)-i, replay)
				break
			}
			fmt.Printf("%s: %s: %s [%s] %s\n", v.Rule, v.Where, v.What, v.Source, v.Why)
			for _, p := range v.Paths {
				fmt.Printf("    via %s\n", p)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, replay)
	}
	keys := func(m map[string]bool) []string {
		var o []string
		for k := range m {
			o = append(o, k)
		}
		sort.Strings(o)
		return o
	}
	var samples []*Ob
	seenRule := map[string]int{}
	for _, o := range all {
		if seenRule[o.Rule] < 6 {
			samples = append(samples, o)
		}
		seenRule[o.Rule]++
	}
	cov := map[string]any{
		"obligations": len(all), "discharged": discharged,
		"obligations_per_rule": perRule,
		"rules_applied":        r.rules,
		"entry_points":         len(r.roots),
		"functions_analysed":   len(r.funcs),
		"functions":            keys(r.funcs),
		"call_sites":           len(r.calls),
		"abstract_steps":       r.steps,
		"joins":                r.joins,
		"samples":              samples,
		"known_findings":       len(printed),
		"checker_cmd":          cmd,
		"trusted_base":         append([]string{"go/types and golang.org/x/tools/go/ssa build the program the Go compiler builds", "the models of the standard library in ana/call.go (pure functions, readers, reflection)", "the analyser in /verif/ana itself"}, r.trusts...),
		"explanation":          "static analysis of the current source: every listed rule was applied to every matching construct on every abstract path from the listed entry points; nothing of the library was executed",
	}
	for k, v := range r.counts {
		cov[k] = v
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{"property": r.prop, "tier": r.tier, "seed": seed, "level": r.level, "coverage": cov, "assumptions": r.assume, "wall_s": wall, "violations": len(viol)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, r.prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d obligations on %d constructs' rules, %d discharged, %d known, %d violations; %d entry points, %d functions, %d call sites, %d steps, %.1fs\n", r.prop, r.tier, len(all), len(perRule), discharged, len(printed), len(viol), len(r.roots), len(r.funcs), len(r.calls), r.steps, wall)
	if len(viol) > 0 {
		return 1
	}
	return 0
}
