package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

type checkFn func(p *Prog, r *Report)

var verifDir string

var checks = map[string]checkFn{}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	dump := flag.String("dump", "", "debug dump")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if tier != "quick" && tier != "thorough" {
		tier = "quick"
	}
	fn := checks[*prop]
	if fn == nil && *dump == "" {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	verifDir = *verif
	debug.SetGCPercent(150)
	debug.SetMemoryLimit(5 << 30)
	r := NewReport(*prop, tier)
	p, err := LoadProg(*repo, *verif, "")
	if err != nil {
		r.Bad("load", *repo, "the repository no longer loads: "+err.Error())
		os.Exit(r.Finish(*verif))
	}
	if *dump != "" {
		dumpCmd(p, *dump, flag.Args())
		return
	}
	if pf := os.Getenv("VERIF_CPUPROF"); pf != "" {
		if f, err := os.Create(pf); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
			time.AfterFunc(60*time.Second, func() { pprof.StopCPUProfile(); os.Exit(3) })
		}
	}
	r.Count("source_files", p.Units)
	r.Count("functions_loaded", len(p.funcs))
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("VERIF_DEBUG") != "" {
					debug.PrintStack()
				}
				r.Undecided("analysis", fmt.Sprintf("the analysis met a construct it cannot handle: %v", e))
			}
		}()
		fn(p, r)
	}()
	_ = time.Now
	os.Exit(r.Finish(*verif))
}

var dumps = map[string]func(p *Prog, args []string){}

func dumpCmd(p *Prog, name string, args []string) {
	if d := dumps[name]; d != nil {
		d(p, args)
	}
}
