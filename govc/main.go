package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Report struct {
	Property string
	Units    []*UnitResult
	Total    int
	Ok       int
	Failed   int
	Secs     float64
	Solver   map[string]float64
	Err      string
}

func main() {
	repo := flag.String("repo", "/repo", "repository root")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property id")
	fn := flag.String("fn", "", "verify one function or lemma (development)")
	mode := flag.String("mode", "", "unit mode for -fn: own, lock, term")
	out := flag.String("out", "", "report file (JSON)")
	tmo := flag.Float64("t", 10, "solver timeout per stage (s)")
	ctmo := flag.Float64("ct", 4, "timeout for invariant candidates (s)")
	jobs := flag.Int("j", 8, "parallel solver processes")
	budget := flag.Float64("budget", 300, "no second attempts after this many seconds, and none at all once an obligation failed (s)")
	one := flag.Bool("one", false, "with -fn: only that unit, not what it uses (development)")
	debug := flag.Bool("debug", false, "verbose")
	flag.Parse()
	var err error
	scratch, err = os.MkdirTemp("", "govc")
	if err != nil {
		fatal(*out, err)
	}
	defer os.RemoveAll(scratch)
	pr, err := Load(*repo)
	if err != nil {
		fatal(*out, err)
	}
	files, _ := filepath.Glob(filepath.Join(*specs, "*.spec"))
	sort.Strings(files)
	sp, err := LoadSpecs(files)
	if err != nil {
		fatal(*out, err)
	}
	v := &verifier{pr: pr, sp: sp, tmo: *tmo, ctmo: *ctmo, jobs: *jobs, debug: *debug, start: time.Now(), budget: *budget}
	t0 := time.Now()
	implementers(pr, sp)
	// contracts of private functions that no longer exist: callers see the code itself,
	// unless the contract's code lives on under another name
	adopt(pr, sp)
	rep := &Report{Property: *prop}
	done := map[string]*UnitResult{}
	var work []string
	push := func(k, mode string) {
		id := k + "@" + mode
		if _, ok := done[id]; !ok {
			done[id] = nil
			work = append(work, id)
		}
	}
	modeOf := func(m string) unitMode {
		um := unitMode{name: m}
		for _, x := range strings.Split(m, "+") {
			switch x {
			case "own":
				um.track = true
			case "lock":
				um.locks = true
			case "term":
				um.term = true
			}
		}
		return um
	}
	if *fn != "" {
		for _, k := range append(append([]string{}, sp.order...), sp.predOrder...) {
			if k == *fn || strings.HasSuffix(k, "."+*fn) {
				push(k, *mode)
			}
		}
	} else {
		for _, sw := range sp.sweeps {
			q, m, _ := strings.Cut(sw[1], "/")
			if q != *prop {
				continue
			}
			for _, k := range sortedKeys(pr.byKey) {
				fi := pr.byKey[k]
				if fi.pkg.name != sw[0] || !fi.obj.Exported() {
					continue
				}
				if sp.contracts[k] == nil {
					c := &Contract{key: k, pkg: sw[0]}
					for _, p := range declParams(fi) {
						n := "_"
						if p != nil {
							n = p.Name()
						}
						c.params = append(c.params, n)
					}
					sp.contracts[k] = c
				}
				push(k, m)
			}
		}
		for _, k := range sp.order {
			c := sp.contracts[k]
			for _, p := range c.props {
				// PROP or PROP/mode
				q, m, _ := strings.Cut(p, "/")
				if q == *prop {
					push(k, m)
				}
			}
		}
		for _, k := range sp.predOrder {
			for _, p := range sp.preds[k].props {
				if p == *prop {
					push(k, "")
				}
			}
		}
	}
	failed := 0
	for i := 0; i < len(work); i++ {
		id := work[i]
		k, m, _ := strings.Cut(id, "@")
		if failed > 0 && v.late() {
			break // decided; the remaining units are not reported
		}
		var r *UnitResult
		if d := sp.preds[k]; d != nil && sp.contracts[k] == nil {
			if d.kind != "lemma" {
				continue
			}
			r = v.verifyLemma(d)
		} else {
			con := sp.contracts[k]
			if len(con.impls) > 0 {
				r = &UnitResult{Key: k, Kind: "interface", Used: con.impls}
			} else if con.trusted != "" {
				r = &UnitResult{Key: k, Kind: "function", Trusted: con.trusted}
			} else if fi := pr.byKey[k]; fi == nil {
				r = &UnitResult{Key: k, Kind: "function", Missing: true}
				name := k[strings.LastIndexByte(k, '.')+1:]
				if name[0] >= 'A' && name[0] <= 'Z' && !con.optional {
					r.Total = 1
					r.Failed = []FailedObl{{Kind: "generate", Desc: "function under contract not found in the source"}}
				}
			} else {
				r = v.verifyFn(con, fi, modeOf(m))
			}
		}
		done[id] = r
		failed += len(r.Failed)
		rep.Units = append(rep.Units, r)
		if *one {
			r.Used, r.Lemmas = nil, nil
		}
		for _, c := range r.Used {
			push(c, m)
		}
		for _, l := range r.Lemmas {
			push(l, "")
		}
		if *debug || *fn != "" || *out == "" {
			printUnit(r)
		}
	}
	for _, r := range rep.Units {
		rep.Total += r.Total
		rep.Ok += r.Ok
		rep.Failed += len(r.Failed)
	}
	rep.Secs = time.Since(t0).Seconds()
	rep.Solver = solverNs
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d failed in %d units, %.1fs\n", *prop, rep.Total, rep.Ok, rep.Failed, len(rep.Units), rep.Secs)
	if rep.Failed > 0 {
		os.RemoveAll(scratch)
		os.Exit(1)
	}
}

// implementers gives every type of the package that implements an interface
// method under contract that contract (a type added later included).
func implementers(pr *Prog, sp *Specs) {
	for _, k := range append([]string{}, sp.order...) {
		con := sp.contracts[k]
		parts := strings.Split(k, ".")
		if pr.byKey[k] != nil || len(parts) != 3 {
			continue
		}
		pkg := pr.pkgByName(parts[0])
		if pkg == nil {
			continue
		}
		tn, ok := pkg.types.Scope().Lookup(parts[1]).(*types.TypeName)
		if !ok {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Interface); !ok {
			continue
		}
		for _, n := range pkg.types.Scope().Names() {
			t, ok := pkg.types.Scope().Lookup(n).(*types.TypeName)
			if !ok || t == tn || t.IsAlias() {
				continue
			}
			nt, ok := t.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			it := tn.Type()
			var targs []types.Type
			for i := 0; i < nt.TypeParams().Len(); i++ {
				targs = append(targs, nt.TypeParams().At(i))
			}
			var self types.Type = nt
			if len(targs) > 0 {
				g, err := types.Instantiate(nil, nt, targs, false)
				if err != nil {
					continue
				}
				self = g
			}
			if in := it.(*types.Named); in.TypeParams().Len() > 0 {
				if in.TypeParams().Len() != len(targs) {
					continue
				}
				g, err := types.Instantiate(nil, in, targs, false)
				if err != nil {
					continue
				}
				it = g
			}
			if !types.Implements(types.NewPointer(self), it.Underlying().(*types.Interface)) {
				continue
			}
			dk := parts[0] + "." + n + "." + parts[2]
			if pr.byKey[dk] == nil {
				continue
			}
			if sp.contracts[dk] == nil {
				c := *con
				c.key = dk
				c.impls = nil
				sp.contracts[dk] = &c
				sp.order = append(sp.order, dk)
			}
			con.impls = append(con.impls, dk)
		}
	}
}

func printUnit(r *UnitResult) {
	fmt.Printf("%s %s %s: %d/%d ok, %d rounds, %.1fs\n", r.Kind, r.Key, r.Mode, r.Ok, r.Total, r.Rounds, r.Secs)
	for _, f := range r.Failed {
		fmt.Printf("   FAIL [%s] %s at %s\n        %s\n", f.Kind, f.Desc, f.Pos, strings.ReplaceAll(strings.TrimSpace(f.Out), "\n", " | "))
	}
	if len(r.Failed) > 0 {
		for _, h := range r.HintErrs {
			fmt.Printf("   hint: %s\n", h)
		}
		for _, h := range r.Invs {
			fmt.Printf("   inv: %s\n", h)
		}
	}
}

func fatal(out string, err error) {
	if out != "" {
		b, _ := json.MarshalIndent(&Report{Err: err.Error()}, "", " ")
		os.WriteFile(out, b, 0o644)
	}
	fmt.Fprintln(os.Stderr, "govc:", err)
	os.Exit(2)
}
