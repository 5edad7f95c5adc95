package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

var checks = map[string]func(p *Prog, r *Rep){}
var levels = map[string]string{}

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "/verif/evidence", "evidence directory")
	known := flag.String("known", "/verif/known_findings.txt", "known findings")
	dump := flag.Bool("dump", false, "print all obligations")
	flag.Parse()
	debug.SetGCPercent(400)
	if pf := os.Getenv("PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t := time.Now()
	r := newRep(nil, *prop, *tier)
	run, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	p, err := loadProg(*repo)
	if err != nil {
		r.p = &Prog{}
		r.undecided("source does not load: " + err.Error())
	} else {
		r.p = p
		run(p, r)
	}
	if l := levels[*prop]; l != "" {
		r.level = l
	}
	if *dump {
		for _, o := range r.obs {
			fmt.Println("OB", o.OK, o.N, o.key())
		}
	}
	code := r.finish(*out, *known, time.Since(t).Seconds(), "/verif/check.sh "+*prop)
	pprof.StopCPUProfile()
	os.Exit(code)
}
