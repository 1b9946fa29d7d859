package main

// Houdini over loop-invariant candidates, verification of units and lemmas.

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type UnitResult struct {
	Key      string
	Kind     string // function | lemma
	Mode     string
	Pos      string
	Total    int
	Ok       int
	Failed   []FailedObl
	ByKind   map[string]int
	BySolver map[string]int
	Secs     float64
	GenErr   string
	Used     []string
	Inlined  []string
	Lemmas   []string
	Notes    []string
	Invs     []string
	HintErrs []string
	Trusted  string
	Missing  bool
	Rounds   int
}

type FailedObl struct {
	Kind, Desc, Pos, Out, Label string
}

var ndump int

type verifier struct {
	pr     *Prog
	sp     *Specs
	tmo    float64
	ctmo   float64
	jobs   int
	debug  bool
	start  time.Time
	budget float64
}

// splitGoal breaks conjunctions (under implications) into separate queries.
func (u *Unit) splitGoal(g *Term) []*Term {
	c := u.c
	switch g.op {
	case "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, u.splitGoal(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, a := range u.splitGoal(g.args[1]) {
			out = append(out, c.Implies(g.args[0], a))
		}
		return out
	case "forall":
		in := u.splitGoal(g.args[0])
		if len(in) > 1 {
			var out []*Term
			for _, a := range in {
				out = append(out, c.Forall(g.vars, a, g.pats...))
			}
			return out
		}
	case "=":
		if g.args[0].sort == SBool && len(g.args) == 2 && (big(g.args[0]) || big(g.args[1])) {
			return append(u.splitGoal(c.Implies(g.args[0], g.args[1])), u.splitGoal(c.Implies(g.args[1], g.args[0]))...)
		}
	}
	return []*Term{g}
}

func big(t *Term) bool { return t.op == "forall" || t.op == "exists" || t.op == "and" || t.op == "or" }

func (v *verifier) solveAll(u *Unit, os_ []*Obl, stages []stage) {
	type job struct {
		o *Obl
		q string
	}
	// queries are built sequentially (the term table is not thread-safe)
	var jobs []job
	for _, o := range os_ {
		o.status = "ok"
		gs := []*Term{o.goal}
		if o.kind != "vacuity" {
			gs = u.splitGoal(o.goal)
		}
		for _, g := range gs {
			if isTrue(g) {
				continue
			}
			jobs = append(jobs, job{o, u.query(o.facts, g)})
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	ch := make(chan job)
	for i := 0; i < v.jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if j.o.cand != "" {
					mu.Lock()
					dead := j.o.status == "fail"
					mu.Unlock()
					if dead {
						continue
					}
				}
				st := stages
				if j.o.kind == "vacuity" {
					st = []stage{{"z3-new", 2}}
				}
				r := decide(j.q, st)
				mu.Lock()
				j.o.secs += r.secs
				good := r.ok
				if j.o.kind == "vacuity" {
					good = !r.ok
				}
				if !good {
					j.o.status = "fail"
					j.o.out += r.out
					if d := os.Getenv("GOVC_DUMP"); d != "" && strings.Contains(j.o.kind+" "+j.o.cand+" "+j.o.desc, d) {
						ndump++
						os.WriteFile(fmt.Sprintf("/tmp/dump_%d.smt2", ndump), []byte("; "+j.o.kind+" "+j.o.desc+"\n"+j.q), 0o644)
					}
					if v.debug && j.o.cand == "" {
						os.WriteFile(fmt.Sprintf("/tmp/govc_fail_%s.smt2", san(trunc(j.o.kind+"_"+j.o.desc, 60))), []byte(j.q), 0o644)
					}
				} else if j.o.solver == "" {
					j.o.solver = r.solver
				}
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func (v *verifier) stages() []stage {
	return []stage{{"z3-new", v.tmo}, {"z3-new-r0", v.tmo}, {"z3", v.tmo}, {"cvc5", v.tmo}, {"z3-new-mbqi", v.tmo}}
}

type unitMode struct {
	name                       string
	track, locks, term, inline bool
}

func (v *verifier) verifyFn(con *Contract, fi *FuncInfo, mode unitMode) *UnitResult {
	op := map[string]bool{}
	for _, o := range con.opaque {
		if !strings.Contains(o, ".") {
			o = con.pkg + "." + o
		}
		op[o] = true
	}
	// first with the named predicates folded and invariants on the variables they
	// name; predicates unfolded, then invariants on any variables, if that is not enough
	best, bound := v.verifyFn1(con, fi, mode, op, false)
	try := func(op map[string]bool, free bool) {
		if len(best.Failed) == 0 || v.late() {
			return
		}
		if r, _ := v.verifyFn1(con, fi, mode, op, free); len(r.Failed) < len(best.Failed) {
			best = r
		}
	}
	if len(op) > 0 {
		try(nil, false)
	}
	if bound {
		try(op, true)
	}
	return best
}

// late: the time set aside for second attempts is used up.
func (v *verifier) late() bool { return time.Since(v.start).Seconds() > v.budget }

func (v *verifier) verifyFn1(con *Contract, fi *FuncInfo, mode unitMode, opaque map[string]bool, free bool) (*UnitResult, bool) {
	res := &UnitResult{Key: con.key, Kind: "function", Mode: mode.name, Pos: v.pr.pos(fi.decl.Pos()), ByKind: map[string]int{}, BySolver: map[string]int{}}
	t0 := time.Now()
	dropped := map[string]bool{}
	var u *Unit
	gen := func() bool {
		u = NewUnit(v.pr, v.sp)
		u.dropped = dropped
		u.opaque = opaque
		u.free = free
		u.track, u.locks, u.termination = mode.track, mode.locks, mode.term
		u.noFrame = u.lean()
		u.inlineAll = u.lean()
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case unsupported:
						res.GenErr = r.msg + " (near " + v.pr.pos(u.curPos) + ")"
					case specErr:
						res.GenErr = "contract: " + r.s
					default:
						if v.debug {
							panic(r)
						}
						res.GenErr = fmt.Sprintf("internal: %v (near %s)", r, v.pr.pos(u.curPos))
					}
					ok = false
				}
			}()
			u.genFn(con, fi)
		}()
		return ok
	}
	for round := 0; ; round++ {
		res.Rounds = round + 1
		if !gen() {
			res.Total++
			res.Failed = append(res.Failed, FailedObl{Kind: "generate", Desc: "obligations could not be generated: " + res.GenErr, Pos: res.Pos})
			res.Secs = time.Since(t0).Seconds()
			return res, u != nil && u.bound
		}
		var cs []*Obl
		for _, o := range u.obls {
			if o.cand != "" {
				cs = append(cs, o)
			}
		}
		v.solveAll(u, cs, []stage{{"z3-new", v.ctmo}, {"z3-new-r0", 0.5}})
		n := 0
		for _, o := range cs {
			if o.status == "fail" && !dropped[o.cand] {
				dropped[o.cand] = true
				n++
				if v.debug {
					fmt.Fprintf(os.Stderr, "  drop[%d] %s %s: %s\n     %s\n", round, o.kind, o.cand, o.desc, strings.ReplaceAll(o.out, "\n", " "))
				}
			}
		}
		if n == 0 || round > 30 {
			break
		}
	}
	var hard []*Obl
	for _, o := range u.obls {
		if o.cand == "" {
			hard = append(hard, o)
		}
	}
	// alternatives: a cheap attempt first, the full portfolio only for groups left open
	var grp, single []*Obl
	for _, o := range hard {
		if o.group != "" {
			grp = append(grp, o)
		} else {
			single = append(single, o)
		}
	}
	v.solveAll(u, grp, v.stages()[:1])
	open := map[string]bool{}
	for _, o := range grp {
		open[o.group] = true
	}
	for _, o := range grp {
		if o.status == "ok" {
			delete(open, o.group)
		}
	}
	var rest []*Obl
	for _, o := range grp {
		if open[o.group] {
			rest = append(rest, o)
		}
	}
	v.solveAll(u, append(rest, single...), v.stages())
	okGroup := map[string]bool{}
	for _, o := range u.obls {
		if o.group != "" && o.status == "ok" {
			okGroup[o.group] = true
		}
	}
	seenGroup := map[string]bool{}
	for _, o := range u.obls {
		if o.group != "" {
			if okGroup[o.group] && o.status != "ok" || seenGroup[o.group] {
				continue
			}
			seenGroup[o.group] = true
		}
		res.Total++
		res.ByKind[o.kind]++
		if o.status == "ok" {
			res.Ok++
			if o.solver != "" {
				res.BySolver[o.solver]++
			}
		} else {
			res.Failed = append(res.Failed, FailedObl{o.kind, o.desc, o.pos, o.out, o.label})
		}
	}
	res.Used = sortedKeys(u.usedContracts)
	res.Inlined = sortedKeys(u.inlined)
	res.Lemmas = sortedKeys(u.lemmas)
	res.Notes = sortedKeys(u.assumptions)
	for k, t := range u.candUsed {
		_ = k
		res.Invs = append(res.Invs, t)
	}
	sort.Strings(res.Invs)
	for k, e := range u.hintErrs {
		res.HintErrs = append(res.HintErrs, k+": "+e)
	}
	sort.Strings(res.HintErrs)
	res.Secs = time.Since(t0).Seconds()
	return res, u != nil && u.bound
}

// verifyLemma proves a lemma, by induction on its measure when it has one.
func (v *verifier) verifyLemma(d *PredDef) *UnitResult {
	res := &UnitResult{Key: d.pkg + "." + d.name, Kind: "lemma", ByKind: map[string]int{}, BySolver: map[string]int{}}
	t0 := time.Now()
	u := NewUnit(v.pr, v.sp)
	pkg := v.pr.pkgByName(d.pkg)
	u.pkg = pkg
	u.tparams = v.pr.typeParamNames(pkg)
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case unsupported:
					err = fmt.Errorf("%s", r.msg)
				case specErr:
					err = r
				default:
					panic(r)
				}
			}
		}()
		c := u.c
		st := &State{pc: c.True(), vars: map[vkey]*Term{}, heap: map[string]*Term{}}
		e := u.newEnv(pkg, st, st)
		e.tp = u.tparams
		for _, p := range d.params {
			t := e.mustType(p.typ)
			x := c.Fresh("l."+p.name, u.sortOf(t))
			for _, w := range u.wfVal(st, x, t) {
				u.fact(w)
			}
			e.names[p.name] = SVal{x, t}
		}
		for _, r := range d.req {
			u.fact(e.boolOf(r.e))
		}
		if d.dec != nil {
			// induction hypothesis for all smaller instances
			m := e.ev(d.dec).t
			for fuel := 2; fuel >= 0; fuel-- {
				ih := &SEnv{u: u, pkg: pkg, tp: u.tparams, names: map[string]SVal{}, st: st, old: st, baseFuel: 2 - fuel}
				var vars []*Term
				for _, p := range d.params {
					t := e.mustType(p.typ)
					x := c.BVar(p.name, u.sortOf(t))
					vars = append(vars, x)
					ih.names[p.name] = SVal{x, t}
				}
				mm := ih.ev(d.dec).t
				prem := []*Term{c.Le(c.Int(0), mm), c.Lt(mm, m)}
				for _, r := range d.req {
					prem = append(prem, ih.boolOf(r.e))
				}
				var con []*Term
				for _, r := range d.ens {
					con = append(con, ih.boolOf(r.e))
				}
				var pats [][]*Term
				for _, ps := range d.pats {
					var p []*Term
					te := ih
					for _, x := range ps {
						t := te.ev(x).t
						if t.sort == SBool {
							te = te.assuming(t)
						}
						p = append(p, patOr(t))
					}
					pats = append(pats, p)
				}
				u.fact(c.Forall(vars, c.Implies(c.And(prem...), c.And(con...)), pats...))
			}
		}
		for _, us := range d.uses {
			t, err := u.useFact(e, us)
			if err != nil {
				return err
			}
			u.fact(t)
		}
		for _, r := range d.ens {
			u.oblige(st, "lemma", "lemma "+d.name+": "+r.src, e.boolOf(r.e))
		}
		return nil
	}()
	if err != nil {
		res.GenErr = err.Error()
		res.Total++
		res.Failed = append(res.Failed, FailedObl{Kind: "generate", Desc: "lemma could not be generated: " + err.Error()})
		return res
	}
	v.solveAll(u, u.obls, v.stages())
	for _, o := range u.obls {
		res.Total++
		res.ByKind[o.kind]++
		if o.status == "ok" {
			res.Ok++
			res.BySolver[o.solver]++
		} else {
			res.Failed = append(res.Failed, FailedObl{o.kind, o.desc, "", o.out, ""})
		}
	}
	res.Lemmas = sortedKeys(u.lemmas)
	for _, l := range res.Lemmas {
		if v.sp.predIndex(l) >= v.sp.predIndex(res.Key) {
			res.Total++
			res.Failed = append(res.Failed, FailedObl{Kind: "lemma", Desc: "lemma uses a later lemma: " + l})
		}
	}
	res.Secs = time.Since(t0).Seconds()
	return res
}

func (sp *Specs) predIndex(k string) int {
	for i, x := range sp.predOrder {
		if x == k {
			return i
		}
	}
	return -1
}
