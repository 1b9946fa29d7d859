package main

// SMT-LIB output and solver invocation.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// query text for facts |- goal.
func (u *Unit) query(facts []*Term, goal *Term) string {
	c := u.c
	seen := map[*Term]bool{}
	ops := map[string]*Term{}
	hsUse := map[string]map[string]bool{} // sym -> heap tuple ids
	visit := func(t *Term) {
		collect(t, seen, func(x *Term) {
			if _, ok := ops[x.op]; !ok {
				ops[x.op] = x
			}
		})
	}
	_ = hsUse
	var asserts []*Term
	for _, g := range u.globals {
		asserts = append(asserts, g)
	}
	asserts = append(asserts, facts...)
	// relevance: facts that mention only ... (kept simple: all facts)
	for _, t := range asserts {
		visit(t)
	}
	goal, sks := u.skolem(goal, nil)
	neg := c.Not(goal)
	visit(neg)
	// mention the goal's constants in every set whose cardinality matters, so
	// that what the contracts say about membership applies to them
	if len(sks) > 0 {
		var sets []*Term
		for t := range seen {
			if strings.HasPrefix(t.op, "card.") && !hasBound(t) {
				sets = append(sets, t.args[0])
			}
		}
		sort.Slice(sets, func(i, j int) bool { return sets[i].id < sets[j].id })
		for _, st := range sets {
			ks, _ := arrParts(st.sort)
			for _, k := range sks {
				if k.sort == ks {
					f := c.App("touch", SBool, c.Select(st, k))
					asserts = append(asserts, f)
					visit(f)
				}
			}
		}
	}
	// conditional axioms for the symbol/heap combinations that occur
	added := map[int]bool{}
	occurs := func(sym string, hs []*Term) bool {
		found := false
		for t := range seen {
			if t.op == sym || strings.HasPrefix(t.op, sym+".") && strings.HasPrefix(sym, "rec.") {
				ok := true
				for i, h := range hs {
					if i >= len(t.args) || t.args[i] != h {
						ok = false
						break
					}
				}
				if ok {
					found = true
					break
				}
			}
		}
		return found
	}
	for changed := true; changed; {
		changed = false
		for i, ax := range u.condAx {
			if added[i] {
				continue
			}
			if occurs(ax.sym, ax.hs) {
				added[i] = true
				asserts = append(asserts, ax.t)
				visit(ax.t)
				changed = true
			}
		}
	}
	// s[0:j] is s itself when j is its length; stated for the slices that
	// occur only below quantifiers, where no trigger would find them
	var slices []*Term
	for t := range seen {
		if strings.HasPrefix(t.op, "seq.slice.") && t.args[1].op == "0" && !hasBound(t) {
			slices = append(slices, t)
		}
	}
	sort.Slice(slices, func(i, j int) bool { return slices[i].id < slices[j].id })
	for _, t := range slices {
		f := c.Implies(c.Eq(t.args[2], c.App("seq.len."+t.sort, SInt, t.args[0])), c.Eq(t, t.args[0]))
		asserts = append(asserts, f)
		visit(f)
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	// sorts
	var pre, decl strings.Builder
	sorts := map[string]bool{}
	var addSort func(s string)
	addSort = func(s string) {
		if strings.HasPrefix(s, "(Array ") {
			k, v := arrParts(s)
			addSort(k)
			addSort(v)
			return
		}
		if sorts[s] {
			return
		}
		sorts[s] = true
		if si, ok := u.structs[s]; ok {
			for _, x := range si.sorts {
				addSort(x)
			}
		}
		if es, ok := u.seqs[s]; ok {
			addSort(es)
		}
	}
	for t := range seen {
		addSort(t.sort)
		for _, v := range t.vars {
			addSort(v.sort)
		}
	}
	for _, op := range sortedKeys(ops) {
		if d, ok := c.decls[op]; ok {
			for _, a := range d.args {
				addSort(a)
			}
			addSort(d.res)
		}
	}
	sorts[SStr], sorts[SAny] = true, true
	for _, s := range sortedKeys(sorts) {
		switch {
		case s == SInt || s == SBool:
		case s == SUnit:
			fmt.Fprintf(&pre, "(declare-datatypes ((Unit 0)) (((unit))))\n")
		case strings.HasPrefix(s, "Seq_"), s == SStr, s == SAny, s == SFn, u.usorts[s]:
			fmt.Fprintf(&pre, "(declare-sort %s 0)\n", s)
		}
	}
	for _, s := range u.structOrder {
		if !sorts[s] {
			continue
		}
		si := u.structs[s]
		fmt.Fprintf(&pre, "(declare-datatypes ((%s 0)) (((mk.%s", s, s)
		for i, f := range si.fields {
			fmt.Fprintf(&pre, " (%s.%s.%d %s)", s, san(f.Name()), i, si.sorts[i])
		}
		pre.WriteString("))))\n")
	}
	// families used by the query need their axioms; axioms may use further symbols
	declared := map[string]bool{}
	var ax strings.Builder
	declFn := func(name string, args []string, res string) {
		if declared[name] {
			return
		}
		declared[name] = true
		fmt.Fprintf(&decl, "(declare-fun %s (%s) %s)\n", name, strings.Join(args, " "), res)
	}
	has := func(op string) bool { _, ok := ops[op]; return ok }
	for _, s := range sortedKeys(u.seqs) {
		if !sorts[s] {
			continue
		}
		u.seqAxioms(s, u.seqs[s], has, declFn, &ax)
	}
	for _, s := range sortedKeys(u.sets) {
		nm := "card." + mangle(s)
		if !has(nm) {
			continue
		}
		k, _ := arrParts(s)
		w := "wit." + mangle(s)
		declFn(nm, []string{s}, SInt)
		declFn(w, []string{s}, k)
		R := strings.NewReplacer("CARD", nm, "SET", s, "KEY", k, "WIT", w)
		ax.WriteString(R.Replace(`(assert (forall ((s SET)) (! (<= 0 (CARD s)) :pattern ((CARD s)))))
(assert (= (CARD ((as const SET) false)) 0))
(assert (forall ((s SET) (x KEY)) (! (= (CARD (store s x true)) (+ (CARD s) (ite (select s x) 0 1))) :pattern ((CARD (store s x true))))))
(assert (forall ((s SET) (x KEY)) (! (= (CARD (store s x false)) (- (CARD s) (ite (select s x) 1 0))) :pattern ((CARD (store s x false))))))
(assert (forall ((s SET) (x KEY)) (! (=> (select s x) (< 0 (CARD s))) :pattern ((CARD s) (select s x)))))
(assert (forall ((s SET)) (! (=> (< 0 (CARD s)) (select s (WIT s))) :pattern ((CARD s)))))
(assert (forall ((s SET) (x KEY) (y KEY)) (! (=> (and (= (CARD s) 1) (select s x) (select s y)) (= x y)) :pattern ((CARD s) (select s x) (select s y)))))
`))
	}
	// strings
	declFn("str.length", []string{SStr}, SInt)
	declFn("str.byte", []string{SStr, SInt}, SInt)
	var lits []string
	for _, l := range u.litOrder {
		t := u.lits[l]
		if !has(t.op) && l != "" {
			continue
		}
		declFn(t.op, nil, SStr)
		lits = append(lits, t.op)
		fmt.Fprintf(&ax, "(assert (= (str.length %s) %d))\n", t.op, len(l))
		for i := 0; i < len(l) && i < 16; i++ {
			fmt.Fprintf(&ax, "(assert (= (str.byte %s %d) %d))\n", t.op, i, l[i])
		}
	}
	if len(lits) > 1 {
		fmt.Fprintf(&ax, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	ax.WriteString("(assert (forall ((s Str)) (! (<= 0 (str.length s)) :pattern ((str.length s)))))\n")
	if e, ok := u.lits[""]; ok {
		fmt.Fprintf(&ax, "(assert (forall ((s Str)) (! (=> (= (str.length s) 0) (= s %s)) :pattern ((str.length s)))))\n", e.op)
	}
	ax.WriteString("(assert (forall ((s Str) (i Int)) (! (and (<= 0 (str.byte s i)) (< (str.byte s i) 256)) :pattern ((str.byte s i)))))\n")
	if has("str.cat") {
		declFn("str.cat", []string{SStr, SStr}, SStr)
		ax.WriteString(`(assert (forall ((a Str) (b Str)) (! (= (str.length (str.cat a b)) (+ (str.length a) (str.length b))) :pattern ((str.cat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (= (str.byte (str.cat a b) i) (ite (< i (str.length a)) (str.byte a i) (str.byte b (- i (str.length a))))) :pattern ((str.byte (str.cat a b) i)))))
`)
	}
	if has("str.sub") {
		declFn("str.sub", []string{SStr, SInt, SInt}, SStr)
		ax.WriteString(`(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (str.length s))) (= (str.length (str.sub s i j)) (- j i))) :pattern ((str.sub s i j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (str.length s)) (<= 0 k) (< k (- j i))) (= (str.byte (str.sub s i j) k) (str.byte s (+ i k)))) :pattern ((str.byte (str.sub s i j) k)))))
(assert (forall ((s Str)) (! (= (str.sub s 0 (str.length s)) s) :pattern ((str.sub s 0 (str.length s))))))
`)
	}
	// interface values
	if sorts[SAny] {
		declFn("any.nil", nil, SAny)
		declFn("any.tag", []string{SAny}, SInt)
		tags := []string{"tag.nil"}
		declFn("tag.nil", nil, SInt)
		ax.WriteString("(assert (= (any.tag any.nil) tag.nil))\n")
		ax.WriteString("(assert (forall ((v Any)) (! (=> (= (any.tag v) tag.nil) (= v any.nil)) :pattern ((any.tag v)))))\n")
		for _, k := range sortedKeys(u.boxes) {
			s := u.boxes[k]
			if !has("box."+k) && !has("unbox."+k) && !has("tag."+k) {
				continue
			}
			ok := true
			var chk func(s string)
			chk = func(s string) {
				if strings.HasPrefix(s, "(Array ") {
					a, b := arrParts(s)
					chk(a)
					chk(b)
				} else if s != SInt && s != SBool && !sorts[s] {
					ok = false
				}
			}
			chk(s)
			if !ok {
				continue
			}
			declFn("box."+k, []string{s}, SAny)
			declFn("unbox."+k, []string{SAny}, s)
			declFn("tag."+k, nil, SInt)
			tags = append(tags, "tag."+k)
			R := strings.NewReplacer("KK", k, "SS", s)
			ax.WriteString(R.Replace(`(assert (forall ((x SS)) (! (and (= (unbox.KK (box.KK x)) x) (= (any.tag (box.KK x)) tag.KK)) :pattern ((box.KK x)))))
(assert (forall ((v Any)) (! (=> (= (any.tag v) tag.KK) (= (box.KK (unbox.KK v)) v)) :pattern ((unbox.KK v)))))
`))
		}
		if len(tags) > 1 {
			fmt.Fprintf(&ax, "(assert (distinct %s))\n", strings.Join(tags, " "))
		}
	}
	var fns []string
	for op := range ops {
		if strings.HasPrefix(op, "fn.n") {
			fns = append(fns, op)
		}
	}
	sort.Strings(fns)
	if len(fns) > 1 {
		for _, f := range fns {
			declFn(f, nil, SFn)
		}
		fmt.Fprintf(&ax, "(assert (distinct %s))\n", strings.Join(fns, " "))
	}
	if has("go.div") || has("go.mod") {
		ax.WriteString("")
		decl.WriteString("(define-fun go.div ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))\n(define-fun go.mod ((a Int) (b Int)) Int (- a (* b (go.div a b))))\n")
		declared["go.div"], declared["go.mod"] = true, true
	}
	for _, op := range sortedKeys(ops) {
		if d, ok := c.decls[op]; ok {
			declFn(op, d.args, d.res)
		}
	}
	b.WriteString(pre.String())
	b.WriteString(decl.String())
	b.WriteString(ax.String())
	for _, t := range asserts {
		b.WriteString("(assert ")
		writeTerm(&b, t, nil)
		b.WriteString(")\n")
	}
	b.WriteString("(assert ")
	writeTerm(&b, neg, nil)
	b.WriteString(")\n(check-sat)\n")
	return b.String()
}

func (u *Unit) seqAxioms(s, es string, has func(string) bool, declFn func(string, []string, string), ax *strings.Builder) {
	f := func(n string) string { return "seq." + n + "." + s }
	use := false
	for _, n := range []string{"len", "at", "mem", "nil", "empty", "build", "cat", "slice", "upd", "isnil", "buf"} {
		if has(f(n)) {
			use = true
		}
	}
	if !use {
		return
	}
	declFn(f("len"), []string{s}, SInt)
	declFn(f("at"), []string{s, SInt}, es)
	declFn(f("mem"), []string{s, es}, SBool)
	declFn(f("idx"), []string{s, es}, SInt)
	declFn(f("nil"), nil, s)
	declFn(f("empty"), nil, s)
	declFn(f("build"), []string{s, es}, s)
	declFn(f("cat"), []string{s, s}, s)
	declFn(f("slice"), []string{s, SInt, SInt}, s)
	declFn(f("upd"), []string{s, SInt, es}, s)
	declFn(f("isnil"), []string{s}, SBool)
	R := strings.NewReplacer("LEN", f("len"), "AT", f("at"), "MEM", f("mem"), "IDX", f("idx"), "NIL", f("nil"), "EMPTY", f("empty"), "BUILD", f("build"), "CAT", f("cat"), "SLICE", f("slice"), "UPD", f("upd"), "ISN", f("isnil"), "BUF", f("buf"), "SEQ", s, "ELT", es)
	ax.WriteString(R.Replace(`(assert (forall ((s SEQ)) (! (<= 0 (LEN s)) :pattern ((LEN s)))))
(assert (= (LEN NIL) 0))
(assert (= (LEN EMPTY) 0))
(assert (ISN NIL))
(assert (not (ISN EMPTY)))
(assert (forall ((s SEQ)) (! (=> (ISN s) (= (LEN s) 0)) :pattern ((ISN s)))))
(assert (forall ((s SEQ) (x ELT)) (! (=> (MEM s x) (and (<= 0 (IDX s x)) (< (IDX s x) (LEN s)) (= (AT s (IDX s x)) x))) :pattern ((MEM s x)))))
(assert (forall ((s SEQ) (i Int)) (! (=> (and (<= 0 i) (< i (LEN s))) (MEM s (AT s i))) :pattern ((AT s i)))))
(assert (forall ((s SEQ) (x ELT)) (! (and (= (LEN (BUILD s x)) (+ (LEN s) 1)) (= (AT (BUILD s x) (LEN s)) x) (not (ISN (BUILD s x)))) :pattern ((BUILD s x)))))
(assert (forall ((s SEQ) (x ELT) (i Int)) (! (=> (and (<= 0 i) (< i (LEN s))) (= (AT (BUILD s x) i) (AT s i))) :pattern ((AT (BUILD s x) i)))))
(assert (forall ((s SEQ) (x ELT) (y ELT)) (! (= (MEM (BUILD s x) y) (or (MEM s y) (= x y))) :pattern ((MEM (BUILD s x) y)))))
(assert (forall ((s SEQ) (x ELT) (y ELT)) (! (=> (MEM s y) (MEM (BUILD s x) y)) :pattern ((BUILD s x) (MEM s y)))))
(assert (forall ((a SEQ) (b SEQ) (y ELT)) (! (=> (MEM a y) (MEM (CAT a b) y)) :pattern ((CAT a b) (MEM a y)))))
(assert (forall ((a SEQ) (b SEQ) (y ELT)) (! (=> (MEM b y) (MEM (CAT a b) y)) :pattern ((CAT a b) (MEM b y)))))
(assert (forall ((a SEQ) (b SEQ)) (! (and (= (LEN (CAT a b)) (+ (LEN a) (LEN b))) (= (ISN (CAT a b)) (and (ISN a) (= (LEN b) 0)))) :pattern ((CAT a b)))))
(assert (forall ((a SEQ) (b SEQ) (i Int)) (! (=> (and (<= 0 i) (< i (+ (LEN a) (LEN b)))) (= (AT (CAT a b) i) (ite (< i (LEN a)) (AT a i) (AT b (- i (LEN a)))))) :pattern ((AT (CAT a b) i)))))
(assert (forall ((a SEQ) (b SEQ) (y ELT)) (! (= (MEM (CAT a b) y) (or (MEM a y) (MEM b y))) :pattern ((MEM (CAT a b) y)))))
(assert (forall ((s SEQ) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (LEN s))) (= (LEN (SLICE s i j)) (- j i))) :pattern ((SLICE s i j)))))
(assert (forall ((s SEQ) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= j (LEN s)) (<= 0 k) (< k (- j i))) (= (AT (SLICE s i j) k) (AT s (+ i k)))) :pattern ((AT (SLICE s i j) k)))))
(assert (forall ((s SEQ) (i Int) (j Int) (y ELT)) (! (=> (and (<= 0 i) (<= i j) (<= j (LEN s)) (MEM (SLICE s i j) y)) (MEM s y)) :pattern ((MEM (SLICE s i j) y)))))
(assert (forall ((s SEQ) (i Int) (x ELT)) (! (and (= (LEN (UPD s i x)) (LEN s)) (= (ISN (UPD s i x)) (ISN s)) (=> (and (<= 0 i) (< i (LEN s))) (= (AT (UPD s i x) i) x))) :pattern ((UPD s i x)))))
(assert (forall ((s SEQ) (i Int) (x ELT) (j Int)) (! (=> (not (= i j)) (= (AT (UPD s i x) j) (AT s j))) :pattern ((AT (UPD s i x) j)))))
`))
	if has(f("buf")) {
		declFn(f("buf"), []string{s}, SInt)
		ax.WriteString(R.Replace(`(assert (= (BUF NIL) 0))
(assert (= (BUF EMPTY) 0))
(assert (forall ((s SEQ) (x ELT)) (! (= (BUF (BUILD s x)) (BUF s)) :pattern ((BUILD s x)))))
(assert (forall ((s SEQ) (t SEQ)) (! (= (BUF (CAT s t)) (BUF s)) :pattern ((CAT s t)))))
(assert (forall ((s SEQ) (i Int) (j Int)) (! (= (BUF (SLICE s i j)) (BUF s)) :pattern ((SLICE s i j)))))
(assert (forall ((s SEQ) (i Int) (x ELT)) (! (= (BUF (UPD s i x)) (BUF s)) :pattern ((UPD s i x)))))
`))
	}
}

// ---------- solving ----------

type solveRes struct {
	ok     bool
	status string
	solver string
	secs   float64
	out    string
}

var (
	qcache   = map[[32]byte]*solveRes{}
	qmu      sync.Mutex
	qnum     int
	solverNs = map[string]float64{}
	scratch  string
)

func runSolver(name, file string, tmo float64) (string, float64) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration((tmo+3)*float64(time.Second)))
	defer cancel()
	var cmd *exec.Cmd
	switch name {
	case "z3-new":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", int(tmo+0.999)), "auto_config=false", "smt.mbqi=false", "smt.random_seed=0", file)
	case "z3-new-r0":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", int(tmo+0.999)), "auto_config=false", "smt.mbqi=false", "smt.relevancy=0", "smt.random_seed=0", file)
	case "z3-new-mbqi":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", int(tmo+0.999)), file)
	case "z3":
		cmd = exec.CommandContext(ctx, "z3", fmt.Sprintf("-T:%d", int(tmo+0.999)), "auto_config=false", "smt.mbqi=false", "smt.qi.eager_threshold=20", file)
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", fmt.Sprintf("--tlimit=%d", int(tmo*1000)), file)
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	return strings.TrimSpace(out.String()), time.Since(t0).Seconds()
}

// decide runs the solver portfolio on one query.
func decide(q string, stages []stage) *solveRes {
	h := sha256.Sum256([]byte(q + fmt.Sprint(stages)))
	qh := sha256.Sum256([]byte(q))
	dk := fmt.Sprintf("%x", qh[:16])
	qmu.Lock()
	if r, ok := qcache[h]; ok {
		qmu.Unlock()
		return r
	}
	if d := os.Getenv("GOVC_CACHE"); d != "" { // development only (mutation runs); checks never set it
		if b, err := os.ReadFile(filepath.Join(d, dk)); err == nil {
			f := strings.SplitN(string(b), "\n", 4)
			r := &solveRes{ok: f[0] == "true", status: f[1], solver: f[2], out: f[3]}
			qcache[h] = r
			qmu.Unlock()
			return r
		}
	}
	qnum++
	file := filepath.Join(scratch, fmt.Sprintf("%x-%d.smt2", h[:10], qnum))
	qmu.Unlock()
	os.WriteFile(file, []byte(q), 0o644)
	r := &solveRes{status: "unknown"}
	for _, s := range stages {
		out, secs := runSolver(s.solver, file, s.tmo)
		r.secs += secs
		qmu.Lock()
		solverNs[s.solver] += secs
		qmu.Unlock()
		for strings.HasPrefix(out, "WARNING") {
			_, out, _ = strings.Cut(out, "\n")
		}
		first := out
		if i := strings.IndexByte(out, '\n'); i >= 0 {
			first = out[:i]
		}
		if strings.HasPrefix(first, "(error") || strings.Contains(out, "(error") {
			r.out += s.solver + ": " + trunc(out, 400) + "\n"
			r.status = "error"
			continue
		}
		r.out += fmt.Sprintf("%s: %s (%.1fs)\n", s.solver, trunc(first, 100), secs)
		if first == "unsat" {
			r.ok, r.status, r.solver = true, "unsat", s.solver
			break
		}
		if first == "sat" {
			r.status = "sat"
			break
		}
	}
	if os.Getenv("GOVC_KEEP") == "" {
		os.Remove(file)
	}
	if d := os.Getenv("GOVC_CACHE"); d != "" && r.ok {
		os.WriteFile(filepath.Join(d, dk), []byte(fmt.Sprintf("%v\n%s\n%s\n%s", r.ok, r.status, r.solver, r.out)), 0o644)
	}
	qmu.Lock()
	qcache[h] = r
	qmu.Unlock()
	return r
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

type stage struct {
	solver string
	tmo    float64
}

func hasBound(t *Term) bool {
	found := false
	collect(t, map[*Term]bool{}, func(x *Term) {
		if strings.HasPrefix(x.op, "?") {
			found = true
		}
	})
	return found
}

// skolem replaces the goal's positive universal variables by constants.
func (u *Unit) skolem(g *Term, ks []*Term) (*Term, []*Term) {
	c := u.c
	switch g.op {
	case "=>":
		b, ks := u.skolem(g.args[1], ks)
		return c.Implies(g.args[0], b), ks
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range g.vars {
			k := c.Const("sk."+san(v.sort)+"."+itoa(len(ks)), v.sort)
			m[v] = k
			ks = append(ks, k)
		}
		return u.skolem(c.Subst(g.args[0], m), ks)
	case "and", "or":
		as := make([]*Term, len(g.args))
		for i, a := range g.args {
			as[i], ks = u.skolem(a, ks)
		}
		if g.op == "and" {
			return c.And(as...), ks
		}
		return c.Or(as...), ks
	}
	return g, ks
}
