package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Report collects the obligations a rule produced on this run.  An obligation
// is keyed by rule + construct (never by line); it is discharged, violated, or
// a known finding.
type Report struct {
	Prop     string
	Tier     string
	Level    string
	Start    time.Time
	Obls     []Obl
	Counts   map[string]int
	Explain  string
	Assume   []string
	Trusted  []string
	Min      map[string]int // minimum instance counts confirmed by reading
	Analysed []string
	Und      []Obl // obligations the analysis could not decide (reported in the evidence, no alarm)
}

type Obl struct {
	Key    string `json:"key"`
	OK     bool   `json:"ok"`
	Where  string `json:"where,omitempty"`
	Detail string `json:"detail,omitempty"`
}

func NewReport(prop, tier string) *Report {
	return &Report{Prop: prop, Tier: tier, Level: "other", Start: time.Now(), Counts: map[string]int{}, Min: map[string]int{}}
}

func (r *Report) OK(key, where, detail string) {
	r.Obls = append(r.Obls, Obl{key, true, where, detail})
}
func (r *Report) Bad(key, where, detail string) {
	r.Obls = append(r.Obls, Obl{key, false, where, detail})
}
func (r *Report) Check(ok bool, key, where, detail string) {
	r.Obls = append(r.Obls, Obl{key, ok, where, detail})
}

// Undecided: the analysis could not tell; not a violation, but visible.
func (r *Report) Undecided(key, why string) {
	r.Und = append(r.Und, Obl{Key: key, Detail: why})
}
func (r *Report) Count(k string, n int) { r.Counts[k] += n }

// parallel runs the jobs on separate reports and merges them in order.
func (r *Report) parallel(n int, job func(i int, sub *Report)) {
	subs := make([]*Report, n)
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range subs {
		subs[i] = NewReport(r.Prop, r.Tier)
		wg.Add(1)
		go func(i int) {
			sem <- true
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Println(e)
						debug.PrintStack()
					}
					subs[i].Undecided("analysis", fmt.Sprintf("the analysis met a construct it cannot handle: %v", e))
				}
				<-sem
				wg.Done()
			}()
			job(i, subs[i])
		}(i)
	}
	wg.Wait()
	for _, s := range subs {
		r.Obls = append(r.Obls, s.Obls...)
		r.Und = append(r.Und, s.Und...)
		for k, c := range s.Counts {
			r.Counts[k] += c
		}
	}
}

// known findings: lines "finding: property=<id> key=<key> <text>"
func loadKnown(verif, prop string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+prop+" ")
		if !strings.HasPrefix(l, "key=") {
			continue
		}
		l = l[4:]
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		out[l[:i]] = l[i+4:]
	}
	return out
}

func (r *Report) Finish(verif string) int {
	known := loadKnown(verif, r.Prop)
	var bad []Obl
	seenKnown := map[string]bool{}
	ok := 0
	for _, o := range r.Obls {
		if o.OK {
			ok++
			continue
		}
		if _, k := known[o.Key]; k {
			seenKnown[o.Key] = true
			continue
		}
		bad = append(bad, o)
	}
	for k, n := range r.Min {
		if r.Counts[k] < n && len(r.Und) == 0 {
			r.Undecided("instances/"+k, fmt.Sprintf("rule matched %d instances of %s, at least %d were confirmed by reading: the anchor no longer resolves", r.Counts[k], k, n))
		}
	}
	if len(r.Obls) == 0 && len(r.Und) == 0 {
		r.Undecided("vacuous", "the rule produced no obligation")
	}
	var ks []string
	for k := range seenKnown {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.Prop, known[k], k)
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	rc := 0
	if len(bad) > 0 {
		rc = 1
		rp := filepath.Join(evDir, r.Prop+".violations.txt")
		var sb strings.Builder
		for _, o := range bad {
			fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n", o.Key, o.Where, o.Detail)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		max := len(bad)
		if max > 25 {
			max = 25
		}
		for _, o := range bad[:max] {
			fmt.Printf("  violated: %s\n    at %s\n    %s\n", o.Key, o.Where, strings.ReplaceAll(o.Detail, "\n", "\n    "))
		}
		if len(bad) > max {
			fmt.Printf("  ... and %d more\n", len(bad)-max)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation": r.Explain,
		"obligations": len(r.Obls),
		"discharged":  ok,
	}
	for k, n := range r.Counts {
		cov[k] = n
	}
	cov["undecided"] = len(r.Und)
	if len(r.Und) > 0 {
		u := r.Und
		if len(u) > 40 {
			u = u[:40]
		}
		cov["undecided_obligations"] = u
		for i, o := range u {
			if i < 10 {
				fmt.Printf("  undecided: %s (%s)\n", o.Key, o.Detail)
			}
		}
	}
	if len(r.Analysed) > 0 {
		a := r.Analysed
		if len(a) > 400 {
			a = a[:400]
		}
		cov["analysed"] = a
	}
	var samples []Obl
	for i := 0; i < len(r.Obls); i += 1 + len(r.Obls)/12 {
		samples = append(samples, r.Obls[i])
	}
	cov["samples"] = samples
	if r.Level == "proof" {
		cov["checker_cmd"] = "bash run.sh " + r.Prop
		cov["trusted_base"] = r.Trusted
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": seed, "level": r.Level,
		"coverage": cov, "assumptions": r.Assume, "wall_s": time.Since(r.Start).Seconds(), "violations": len(bad),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, r.Prop+".json"), js, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known, %d violated, %d undecided\n", r.Prop, len(r.Obls), ok, len(seenKnown), len(bad), len(r.Und))
	return rc
}
