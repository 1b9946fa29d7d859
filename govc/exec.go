package main

// Symbolic execution of Go statements (forward, merging at joins).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type Obl struct {
	id    string
	kind  string // safety pre post frame inv-init inv-pres term
	desc  string
	pos   string
	goal  *Term
	facts []*Term
	cand  string
	label string
	group string // alternatives: one of the group has to hold
	// result
	status string // ok fail
	solver string
	secs   float64
	out    string
}

type Unit struct {
	c         *Ctx
	pr        *Prog
	sp        *Specs
	facts     []*Term
	globals   []*Term
	obls      []*Obl
	groups    int
	lemmaSeen map[string]bool

	lits        map[string]*Term
	litOrder    []string
	seqs        map[string]string
	usorts      map[string]bool
	structs     map[string]*structInfo
	structOrder []string
	boxes       map[string]string
	comps       map[string]*compInfo
	wf0         map[string]bool
	sets        map[string]bool
	defs        map[*Term]*Term
	readLog     func(*compInfo)
	writeLog    []func(*compInfo, *Term)

	fns    []*FuncVal
	fnTerm map[string]*Term

	dry      int
	dropped  map[string]bool
	candUsed map[string]string // key -> text

	con           *Contract // contract being verified
	hintCons      []*Contract
	fi            *FuncInfo
	frame0        *Frame
	entry         *State // entry state of the unit
	loops         []*loopGhost
	depth         int
	stack         []string
	sites         []string // call sites of the inlined functions on the stack
	callPos       token.Pos
	entryArgs     map[string][]*Term // arguments of the inlined functions on the stack
	alts          map[*Term][]*Term  // a merged value is one of these
	inds          map[string]*indInst
	guardLog      map[string]bool // kinds of references quantified over
	wild          map[string]int  // components a callee may write anywhere
	opaque        map[string]bool // predicates left folded in this unit
	recs          map[string]bool
	lemmas        map[string]bool
	usedContracts map[string]bool
	inlined       map[string]bool
	assumptions   map[string]bool
	taint         map[types.Object]bool
	closureCon    map[*ast.FuncLit]*Contract
	curPos        token.Pos
	track         bool // ownership tracking of pooled buffers
	locks         bool
	termination   bool
	hintErrs      map[string]string
	pkg           *Pkg
	free, bound   bool // metavariables range over all variables; some name was taken literally
	inSpec        int
	pure          int // inside pureCall/optAfter: no guarded definitions
	props         map[string]bool
	lastGuard     *Term
	condAx        []condAxiom
	hdr           map[string]vkey
	tparams       map[string]types.Type
	stepFrom      *State
	tpn           map[*Pkg]map[string]types.Type
	entryNames    map[string]SVal
	resultNames   map[string]SVal
	start         *State
	noFrame       bool
	inlineAll     bool // ignore the contracts of functions that have a body
	autoMods      map[*ast.FuncLit]*autoMods
	clos          map[*ast.FuncLit]*closInfo
}

type FuncVal struct {
	lit   *ast.FuncLit
	frame *Frame
	fi    *FuncInfo
	obj   *types.Func
	recv  *Term
	recvT types.Type
	tsub  map[*types.TypeParam]types.Type
}

type Frame struct {
	id      int
	parent  *Frame
	fi      *FuncInfo
	pkg     *Pkg
	tsub    map[*types.TypeParam]types.Type
	returns []*retState
	ctl     []*loopCtl
	results []*types.Var
	sig     *types.Signature
	depth   int
	lit     *ast.FuncLit
}

type retState struct {
	st   *State
	vals []*Term
}

type loopCtl struct {
	label  string
	breaks []*State
	conts  []*State
	sw     bool
}

type loopGhost struct {
	f       *Frame
	s       *Term // ranged sequence
	kObj    types.Object
	seenObj types.Object
	m       *Term
	mt      types.Type
	elem    types.Type
	keyT    types.Type
	before  *State
	pos     token.Pos
}

type deferred struct {
	call *ast.CallExpr
	f    *Frame
	fn   *FuncVal
	args []*Term
}

func NewUnit(pr *Prog, sp *Specs) *Unit {
	return &Unit{c: NewCtx(), pr: pr, sp: sp, lits: map[string]*Term{}, seqs: map[string]string{}, usorts: map[string]bool{}, structs: map[string]*structInfo{}, boxes: map[string]string{}, comps: map[string]*compInfo{}, wf0: map[string]bool{}, sets: map[string]bool{}, defs: map[*Term]*Term{}, fnTerm: map[string]*Term{}, dropped: map[string]bool{}, candUsed: map[string]string{}, inds: map[string]*indInst{}, recs: map[string]bool{}, lemmas: map[string]bool{}, usedContracts: map[string]bool{}, inlined: map[string]bool{}, assumptions: map[string]bool{}, taint: map[types.Object]bool{}, closureCon: map[*ast.FuncLit]*Contract{}, hintErrs: map[string]string{}, lemmaSeen: map[string]bool{}, wild: map[string]int{}, clos: map[*ast.FuncLit]*closInfo{}, autoMods: map[*ast.FuncLit]*autoMods{}, tpn: map[*Pkg]map[string]types.Type{}}
}

func (u *Unit) fact(t *Term) {
	if isTrue(t) {
		return
	}
	u.facts = append(u.facts, t)
}
func (u *Unit) assume(st *State, t *Term) {
	if u.pure > 0 {
		// facts of a pure evaluation only define its fresh constants, whose value
		// outside the path is never used
		u.fact(t)
		return
	}
	u.fact(u.c.Implies(st.pc, t))
}

// lean runs check one discipline (locks, buffer ownership) with all calls inlined.
func (u *Unit) lean() bool { return u.locks || u.track }

func (u *Unit) oblige(st *State, kind, desc string, goal *Term) *Obl {
	if isTrue(goal) || isFalse(st.pc) {
		return nil
	}
	if u.lean() && kind != "lock" && kind != "own" && kind != "vacuity" && kind != "pre" && kind != "frame" && !strings.HasPrefix(kind, "inv-") {
		return nil // other obligations belong to the functional run
	}
	o := &Obl{kind: kind, desc: desc, goal: u.c.Implies(st.pc, goal), facts: u.facts[:len(u.facts):len(u.facts)], pos: u.pr.pos(u.curPos)}
	if u.dry == 0 && u.inSpec == 0 {
		u.obls = append(u.obls, o)
	}
	return o
}

// check = oblige then assume (so one failure is reported once).
func (u *Unit) check(st *State, kind, desc string, goal *Term) {
	u.oblige(st, kind, desc, goal)
	if u.inSpec == 0 {
		u.assume(st, goal)
	}
}

func (u *Unit) logWrite(ci *compInfo, ref *Term) {
	for _, f := range u.writeLog {
		f(ci, ref)
	}
}
func (u *Unit) onAlloc(st *State, r *Term, t types.Type) {}
func (u *Unit) onNewMutex(st *State, r *Term, t types.Type, i int) {
	if u.locks {
		ci := u.lockComp(t, u.structFields(t)[i])
		u.assume(st, u.c.Eq(u.c.Select(u.H(st, ci), r), u.c.Int(0)))
	}
}

func (u *Unit) namePC(t *Term) *Term {
	if t.size < 8 {
		return t
	}
	b := u.c.Fresh("pc", SBool)
	u.fact(u.c.Eq(b, t))
	return b
}

func (u *Unit) branch(st *State, cond *Term) (*State, *State) {
	a := st.clone()
	a.pc = u.namePC(u.c.And(st.pc, cond))
	b := st.clone()
	b.pc = u.namePC(u.c.And(st.pc, u.c.Not(cond)))
	return a, b
}

func live(st *State) bool { return st != nil && !isFalse(st.pc) }

func (u *Unit) merge(sts ...*State) *State {
	var ss []*State
	for _, s := range sts {
		if live(s) {
			ss = append(ss, s)
		}
	}
	if len(ss) == 0 {
		return nil
	}
	if len(ss) == 1 {
		return ss[0]
	}
	c := u.c
	var pcs []*Term
	for _, s := range ss {
		pcs = append(pcs, s.pc)
	}
	pc := c.Or(pcs...)
	n := &State{vars: map[vkey]*Term{}, heap: map[string]*Term{}, defers: ss[0].defers}
	// simplification: (p∧c) ∨ (p∧¬c)
	n.pc = u.namePC(u.simplOr(pcs, pc))
	mk := func(hint string, ts []*Term) *Term {
		same := true
		for _, t := range ts[1:] {
			if t != ts[0] {
				same = false
			}
		}
		if same {
			return ts[0]
		}
		if u.pure > 0 {
			v := ts[len(ts)-1]
			for j := len(ts) - 2; j >= 0; j-- {
				v = c.Ite(ss[j].pc, ts[j], v)
			}
			return v
		}
		m := c.Fresh(hint, ts[0].sort)
		for i, t := range ts {
			u.fact(c.Implies(ss[i].pc, c.Eq(m, t)))
		}
		if u.alts == nil {
			u.alts = map[*Term][]*Term{}
		}
		u.alts[m] = append([]*Term{}, ts...)
		return m
	}
	var keys []vkey
	for k := range ss[0].vars {
		all := true
		for _, s := range ss[1:] {
			if _, ok := s.vars[k]; !ok {
				all = false
				break
			}
		}
		if all {
			keys = append(keys, k)
		}
	}
	sortVK(keys)
	for _, k := range keys {
		var ts []*Term
		for _, s := range ss {
			ts = append(ts, s.vars[k])
		}
		n.vars[k] = mk(k.v.Name(), ts)
	}
	hk := map[string]bool{}
	for _, s := range ss {
		for k := range s.heap {
			hk[k] = true
		}
	}
	for _, k := range sortedKeys(hk) {
		var ts []*Term
		for _, s := range ss {
			t, ok := s.heap[k]
			if !ok {
				t = u.H0(u.comps[k])
			}
			ts = append(ts, t)
		}
		n.heap[k] = mk(k, ts)
	}
	return n
}

// simplOr recognises complementary two-way splits of a common prefix.
func (u *Unit) simplOr(pcs []*Term, or *Term) *Term {
	if len(pcs) != 2 {
		return or
	}
	conj := func(t *Term) []*Term {
		if t.op == "and" {
			return t.args
		}
		return []*Term{t}
	}
	a, b := conj(pcs[0]), conj(pcs[1])
	if len(a) == len(b) {
		n := len(a)
		for i := 0; i < n-1; i++ {
			if a[i] != b[i] {
				return or
			}
		}
		if a[n-1] == u.c.Not(b[n-1]) {
			return u.c.And(a[:n-1]...)
		}
	}
	return or
}

func sortVK(keys []vkey) {
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		if a.f.id != b.f.id {
			return a.f.id < b.f.id
		}
		if a.v.Pos() != b.v.Pos() {
			return a.v.Pos() < b.v.Pos()
		}
		return a.v.Name() < b.v.Name()
	})
}

var frameSeq int

func (u *Unit) newFrame(parent *Frame, fi *FuncInfo, pkg *Pkg, sig *types.Signature) *Frame {
	frameSeq++
	f := &Frame{id: frameSeq, parent: parent, fi: fi, pkg: pkg, sig: sig}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	return f
}

func (u *Unit) typeOf(f *Frame, e ast.Expr) types.Type {
	tv, ok := f.pkg.info.Types[e]
	if !ok {
		if id, ok2 := e.(*ast.Ident); ok2 {
			if o := f.pkg.info.ObjectOf(id); o != nil {
				return substT(o.Type(), f.tsubAll())
			}
		}
		unsup("no type for expression at %s", u.pr.pos(e.Pos()))
	}
	return substT(tv.Type, f.tsubAll())
}

func (f *Frame) tsubAll() map[*types.TypeParam]types.Type { return f.tsub }

func (u *Unit) lookupVar(f *Frame, st *State, v types.Object) (vkey, bool) {
	for g := f; g != nil; g = g.parent {
		k := vkey{g, v}
		if _, ok := st.vars[k]; ok {
			return k, true
		}
	}
	return vkey{}, false
}

// ---------- statements ----------

func (u *Unit) block(f *Frame, st *State, list []ast.Stmt) *State {
	for _, s := range list {
		if !live(st) {
			return nil
		}
		st = u.stmt(f, st, s, "")
	}
	return st
}

func (u *Unit) stmt(f *Frame, st *State, s ast.Stmt, label string) *State {
	if s == nil {
		return st
	}
	u.curPos = s.Pos()
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return st
	case *ast.BlockStmt:
		return u.block(f, st, s.List)
	case *ast.LabeledStmt:
		return u.stmt(f, st, s.Stmt, s.Label.Name)
	case *ast.ExprStmt:
		if call, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
			_, st = u.call(f, st, call)
			return st
		}
		_, st = u.ev(f, st, s.X)
		return st
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						o := f.pkg.info.Defs[n]
						st.vars[vkey{f, o}] = u.zero(substT(o.Type(), f.tsub))
					}
					continue
				}
				var vals []*Term
				vals, st = u.evList(f, st, vs.Values, len(vs.Names))
				for i, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					o := f.pkg.info.Defs[n]
					var et types.Type
					if len(vs.Values) == len(vs.Names) {
						et = u.typeOf(f, vs.Values[i])
						u.noteTaint(f, o, vs.Values[i])
					} else {
						et = u.tupleAt(f, vs.Values[0], i)
					}
					st.vars[vkey{f, o}] = u.convert(st, vals[i], et, substT(o.Type(), f.tsub))
				}
			}
		}
		return st
	case *ast.AssignStmt:
		return u.assignStmt(f, st, s)
	case *ast.IncDecStmt:
		v, st := u.ev(f, st, s.X)
		d := u.c.Int(1)
		if s.Tok == token.DEC {
			v = u.c.Sub(v, d)
		} else {
			v = u.c.Add(v, d)
		}
		return u.assign(f, st, s.X, v)
	case *ast.IfStmt:
		if s.Init != nil {
			st = u.stmt(f, st, s.Init, "")
			if !live(st) {
				return nil
			}
		}
		u.curPos = s.Cond.Pos()
		cnd, st2 := u.ev(f, st, s.Cond)
		a, b := u.branch(st2, cnd)
		var ra, rb *State
		if live(a) {
			ra = u.block(f, a, s.Body.List)
		}
		if live(b) {
			if s.Else != nil {
				rb = u.stmt(f, b, s.Else, "")
			} else {
				rb = b
			}
		}
		return u.merge(ra, rb)
	case *ast.ForStmt:
		return u.forStmt(f, st, s, label)
	case *ast.RangeStmt:
		return u.rangeStmt(f, st, s, label)
	case *ast.ReturnStmt:
		var vals []*Term
		n := f.sig.Results().Len()
		if len(s.Results) == 0 && n > 0 {
			for _, r := range f.results {
				k, ok := u.lookupVar(f, st, r)
				if !ok {
					unsup("named result")
				}
				vals = append(vals, st.vars[k])
			}
		} else {
			vals, st = u.evList(f, st, s.Results, n)
			if !live(st) {
				return nil
			}
			for i := range vals {
				var et types.Type
				if len(s.Results) == n {
					et = u.typeOf(f, s.Results[i])
				} else {
					et = u.tupleAt(f, s.Results[0], i)
				}
				vals[i] = u.convert(st, vals[i], et, substT(f.sig.Results().At(i).Type(), f.tsub))
			}
			for i, r := range f.results {
				if k, ok := u.lookupVar(f, st, r); ok {
					st.vars[k] = vals[i]
				}
			}
		}
		st = u.runDefers(f, st)
		if !live(st) {
			return nil
		}
		if len(f.results) > 0 {
			for i, r := range f.results {
				if k, ok := u.lookupVar(f, st, r); ok {
					vals[i] = st.vars[k]
				}
			}
		}
		f.returns = append(f.returns, &retState{st, vals})
		return nil
	case *ast.BranchStmt:
		switch s.Tok {
		case token.BREAK, token.CONTINUE:
			for i := len(f.ctl) - 1; i >= 0; i-- {
				l := f.ctl[i]
				if s.Label != nil {
					if l.label != s.Label.Name {
						continue
					}
				} else if s.Tok == token.CONTINUE && l.sw {
					continue
				}
				if s.Tok == token.BREAK {
					l.breaks = append(l.breaks, st)
				} else {
					l.conts = append(l.conts, st)
				}
				return nil
			}
		}
		unsup("branch %v", s.Tok)
	case *ast.SwitchStmt:
		return u.switchStmt(f, st, s, label)
	case *ast.TypeSwitchStmt:
		return u.typeSwitch(f, st, s, label)
	case *ast.DeferStmt:
		d := deferred{call: s.Call, f: f}
		if lit, ok := ast.Unparen(s.Call.Fun).(*ast.FuncLit); ok && len(s.Call.Args) == 0 {
			d.fn = &FuncVal{lit: lit, frame: f}
		}
		st.defers = append(append([]deferred(nil), st.defers...), d)
		return st
	}
	unsup("statement %T at %s", s, u.pr.pos(s.Pos()))
	return nil
}

func (u *Unit) runDefers(f *Frame, st *State) *State {
	for i := len(st.defers) - 1; i >= 0; i-- {
		d := st.defers[i]
		if d.f != f {
			continue
		}
		st.defers = st.defers[:i:i]
		if d.fn != nil {
			_, st = u.inlineLit(st, d.fn, nil)
		} else {
			_, st = u.call(f, st, d.call)
		}
		if !live(st) {
			return nil
		}
	}
	return st
}

func (u *Unit) tupleAt(f *Frame, e ast.Expr, i int) types.Type {
	t := u.typeOf(f, e)
	if tp, ok := t.(*types.Tuple); ok {
		return tp.At(i).Type()
	}
	if i == 1 {
		return types.Typ[types.Bool]
	}
	// comma-ok forms
	switch x := ast.Unparen(e).(type) {
	case *ast.IndexExpr, *ast.TypeAssertExpr:
		_ = x
		return t
	}
	return t
}

// evList evaluates the right-hand sides giving n values.
func (u *Unit) evList(f *Frame, st *State, es []ast.Expr, n int) ([]*Term, *State) {
	if len(es) == n {
		var vs []*Term
		for _, e := range es {
			var v *Term
			v, st = u.ev(f, st, e)
			vs = append(vs, v)
		}
		return vs, st
	}
	if len(es) != 1 {
		unsup("assignment arity")
	}
	e := ast.Unparen(es[0])
	switch e := e.(type) {
	case *ast.CallExpr:
		return u.call(f, st, e)
	case *ast.IndexExpr:
		m, st := u.ev(f, st, e.X)
		mt := u.typeOf(f, e.X)
		kt, _, ok := mapParts(mt)
		if !ok {
			unsup("comma-ok index")
		}
		k, st := u.ev(f, st, e.Index)
		k = u.convert(st, k, u.typeOf(f, e.Index), kt)
		u.useMap(st, m, mt, false)
		return []*Term{u.mapGet(st, m, mt, k), u.mapHas(st, m, mt, k)}, st
	case *ast.TypeAssertExpr:
		v, st := u.ev(f, st, e.X)
		t := u.typeOf(f, e.Type)
		if _, isI := t.Underlying().(*types.Interface); isI {
			unsup("interface type assertion")
		}
		ok := u.hasType(v, t)
		return []*Term{u.c.Ite(ok, u.unbox(v, t), u.zero(t)), ok}, st
	}
	unsup("multi-value expression %T", e)
	return nil, nil
}

func exprText(e ast.Expr) string { return types.ExprString(e) }

// sharedSlice: may the slice value of e alias memory owned by someone else?
func (u *Unit) sharedSlice(f *Frame, e ast.Expr) (shared, sliced bool) {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		o := f.pkg.info.ObjectOf(e)
		return u.taint[o], false
	case *ast.SliceExpr:
		s, _ := u.sharedSlice(f, e.X)
		return s, true
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true, false
	case *ast.CallExpr:
		if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok && id.Name == "append" && len(e.Args) > 0 {
			s, _ := u.sharedSlice(f, e.Args[0])
			return s, false
		}
	}
	return false, false
}

func (u *Unit) noteTaint(f *Frame, o types.Object, e ast.Expr) {
	if o == nil || elemOf(o.Type()) == nil {
		return
	}
	if s, sl := u.sharedSlice(f, e); s {
		_ = sl
		u.taint[o] = true
	}
}

func (u *Unit) assignStmt(f *Frame, st *State, s *ast.AssignStmt) *State {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		// op=
		v, st := u.ev(f, st, s.Lhs[0])
		w, st := u.ev(f, st, s.Rhs[0])
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM}
		op, ok := ops[s.Tok]
		if !ok {
			unsup("assign op %v", s.Tok)
		}
		r := u.arith(st, op, v, w, u.typeOf(f, s.Lhs[0]))
		return u.assign(f, st, s.Lhs[0], r)
	}
	// recursive closure with contract
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
		if lit, ok := ast.Unparen(s.Rhs[0]).(*ast.FuncLit); ok {
			if id, ok := s.Lhs[0].(*ast.Ident); ok {
				u.maybeClosureContract(f, st, id, lit)
			}
		}
		// append aliasing
		if call, ok := ast.Unparen(s.Rhs[0]).(*ast.CallExpr); ok {
			u.checkAppendAlias(f, call, s.Lhs[0])
		}
	} else {
		for i, r := range s.Rhs {
			if call, ok := ast.Unparen(r).(*ast.CallExpr); ok && len(s.Lhs) == len(s.Rhs) {
				u.checkAppendAlias(f, call, s.Lhs[i])
			}
		}
	}
	vals, st := u.evList(f, st, s.Rhs, len(s.Lhs))
	if !live(st) {
		return nil
	}
	for i, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			continue
		}
		var et types.Type
		if len(s.Rhs) == len(s.Lhs) {
			et = u.typeOf(f, s.Rhs[i])
		} else {
			et = u.tupleAt(f, s.Rhs[0], i)
		}
		if id, ok := l.(*ast.Ident); ok {
			if o := f.pkg.info.Defs[id]; o != nil { // new variable
				if len(s.Rhs) == len(s.Lhs) {
					u.noteTaint(f, o, s.Rhs[i])
				}
				st.vars[vkey{f, o}] = u.name(id.Name, u.convert(st, vals[i], et, substT(o.Type(), f.tsub)))
				continue
			}
			if len(s.Rhs) == len(s.Lhs) {
				o := f.pkg.info.ObjectOf(id)
				if call, ok := ast.Unparen(s.Rhs[i]).(*ast.CallExpr); !ok || !isAppendTo(call, l) {
					u.noteTaint(f, o, s.Rhs[i])
				}
			}
		}
		st = u.assign(f, st, l, u.convert(st, vals[i], et, u.typeOf(f, l)))
	}
	return st
}

func isAppendTo(call *ast.CallExpr, lhs ast.Expr) bool {
	id, ok := ast.Unparen(call.Fun).(*ast.Ident)
	return ok && id.Name == "append" && len(call.Args) > 0 && exprText(call.Args[0]) == exprText(lhs)
}

func (u *Unit) checkAppendAlias(f *Frame, call *ast.CallExpr, lhs ast.Expr) {
	id, ok := ast.Unparen(call.Fun).(*ast.Ident)
	if !ok || id.Name != "append" || len(call.Args) == 0 {
		return
	}
	if isAppendTo(call, lhs) {
		if o, ok := ast.Unparen(lhs).(*ast.Ident); ok {
			ob := f.pkg.info.ObjectOf(o)
			if u.taint[ob] && u.taintSliced(ob) {
				unsup("append to a re-sliced shared slice at %s", u.pr.pos(call.Pos()))
			}
		}
		return
	}
	s, sl := u.sharedSlice(f, call.Args[0])
	if s {
		_ = sl
		unsup("append may write into shared backing array at %s", u.pr.pos(call.Pos()))
	}
}

func (u *Unit) taintSliced(o types.Object) bool { return true }

func (u *Unit) assign(f *Frame, st *State, l ast.Expr, v *Term) *State {
	switch l := ast.Unparen(l).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return st
		}
		o := f.pkg.info.ObjectOf(l)
		if k, ok := u.lookupVar(f, st, o); ok {
			st.vars[k] = u.name(l.Name, v)
			return st
		}
		if gv, ok := o.(*types.Var); ok && gv.Parent() == gv.Pkg().Scope() {
			ci := u.globalComp(gv)
			u.logWrite(ci, nil)
			u.setH(st, ci, v)
			return st
		}
		unsup("assignment to unknown variable %s", l.Name)
	case *ast.SelectorExpr:
		sel := f.pkg.info.Selections[l]
		if sel == nil { // pkg.Var
			o := f.pkg.info.Uses[l.Sel].(*types.Var)
			ci := u.globalComp(o)
			u.logWrite(ci, nil)
			u.setH(st, ci, v)
			return st
		}
		return u.assignPath(f, st, l.X, sel.Index(), v)
	case *ast.IndexExpr:
		xt := u.typeOf(f, l.X)
		if kt, _, ok := mapParts(xt); ok {
			m, st := u.ev(f, st, l.X)
			k, st := u.ev(f, st, l.Index)
			k = u.convert(st, k, u.typeOf(f, l.Index), kt)
			u.check(st, "safety", "write to nil map", u.c.Not(u.c.Eq(m, u.c.Int(0))))
			u.useMap(st, m, xt, true)
			u.mapSet(st, m, xt, k, v)
			return st
		}
		if s, _ := u.sharedSlice(f, l.X); s {
			unsup("element write to shared slice at %s", u.pr.pos(l.Pos()))
		}
		if _, isPtr := xt.Underlying().(*types.Pointer); isPtr {
			unsup("index through pointer")
		}
		s, st := u.ev(f, st, l.X)
		i, st := u.ev(f, st, l.Index)
		c := u.c
		u.check(st, "safety", "index out of range", c.And(c.Le(c.Int(0), i), c.Lt(i, u.seqLen(s))))
		n := u.seqUpd(s, i, v)
		// prefix facts
		u.assume(st, c.Eq(u.take(n, i), u.take(s, i)))
		u.assume(st, c.Eq(u.take(n, c.Add(i, c.Int(1))), u.seqBuild(u.take(s, i), v)))
		return u.assign(f, st, l.X, n)
	case *ast.StarExpr:
		p, st := u.ev(f, st, l.X)
		pt := u.typeOf(f, l.X).Underlying().(*types.Pointer)
		u.nonNil(st, p)
		u.storePtr(st, p, pt.Elem(), v)
		return st
	}
	unsup("assignment target %T", l)
	return nil
}

func (u *Unit) nonNil(st *State, p *Term) {
	u.check(st, "safety", "nil dereference", u.c.Not(u.c.Eq(p, u.c.Int(0))))
}

// assignPath: X.path = v
func (u *Unit) assignPath(f *Frame, st *State, x ast.Expr, path []int, v *Term) *State {
	t := u.typeOf(f, x)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p, st := u.ev(f, st, x)
		u.nonNil(st, p)
		et := pt.Elem()
		u.lockUse(st, p, et, path[0], true)
		if len(path) == 1 {
			u.writeField(st, p, et, path[0], v)
			return st
		}
		cur := u.readField(st, p, et, path[0])
		ft := u.structFields(et)[path[0]].Type()
		if _, isP := ft.Underlying().(*types.Pointer); isP {
			return u.assignThrough(st, cur, ft, path[1:], v)
		}
		u.writeField(st, p, et, path[0], u.updPath(cur, ft, path[1:], v))
		return st
	}
	cur, st := u.ev(f, st, x)
	if len(path) >= 1 {
		fs := u.structFields(t)
		ft := fs[path[0]].Type()
		if len(path) > 1 {
			if _, isP := ft.Underlying().(*types.Pointer); isP {
				return u.assignThrough(st, u.fieldOf(cur, t, path[0]), ft, path[1:], v)
			}
		}
	}
	return u.assign(f, st, x, u.updPath(cur, t, path, v))
}

func (u *Unit) assignThrough(st *State, p *Term, ptrT types.Type, path []int, v *Term) *State {
	et := ptrT.Underlying().(*types.Pointer).Elem()
	u.nonNil(st, p)
	if len(path) == 1 {
		u.writeField(st, p, et, path[0], v)
		return st
	}
	cur := u.readField(st, p, et, path[0])
	ft := u.structFields(et)[path[0]].Type()
	if _, isP := ft.Underlying().(*types.Pointer); isP {
		return u.assignThrough(st, cur, ft, path[1:], v)
	}
	u.writeField(st, p, et, path[0], u.updPath(cur, ft, path[1:], v))
	return st
}

func (u *Unit) updPath(cur *Term, t types.Type, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	ft := u.structFields(t)[path[0]].Type()
	return u.setFieldOf(cur, t, path[0], u.updPath(u.fieldOf2(cur, t, path[0], len(path) > 1), ft, path[1:], v))
}
func (u *Unit) fieldOf2(cur *Term, t types.Type, i int, need bool) *Term {
	return u.fieldOf(cur, t, i)
}

func (u *Unit) switchStmt(f *Frame, st *State, s *ast.SwitchStmt, label string) *State {
	if s.Init != nil {
		st = u.stmt(f, st, s.Init, "")
	}
	var tag *Term
	var tagT types.Type
	if s.Tag != nil {
		tag, st = u.ev(f, st, s.Tag)
		tagT = u.typeOf(f, s.Tag)
	}
	ctl := &loopCtl{label: label, sw: true}
	f.ctl = append(f.ctl, ctl)
	var outs []*State
	rest := st
	var def *ast.CaseClause
	clauses := s.Body.List
	var fall *State
	run := func(cc *ast.CaseClause, b *State, next bool) {
		body := cc.Body
		ft := false
		if n := len(body); n > 0 {
			if br, ok := body[n-1].(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				ft = true
				body = body[:n-1]
			}
		}
		b = u.merge(b, fall)
		fall = nil
		if !live(b) {
			return
		}
		r := u.block(f, b, body)
		if ft {
			fall = r
		} else {
			outs = append(outs, r)
		}
	}
	for _, cs := range clauses {
		cc := cs.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			if fall != nil {
				unsup("fallthrough into default")
			}
			continue
		}
		var conds []*Term
		for _, e := range cc.List {
			var v *Term
			if !live(rest) {
				continue
			}
			v, rest = u.ev(f, rest, e)
			if tag != nil {
				conds = append(conds, u.equal(rest, tag, tagT, v, u.typeOf(f, e)))
			} else {
				conds = append(conds, v)
			}
		}
		if !live(rest) && fall == nil {
			continue
		}
		var a *State
		if live(rest) {
			a, rest = u.branch(rest, u.c.Or(conds...))
		}
		run(cc, a, true)
	}
	if def != nil {
		run(def, rest, false)
	} else {
		outs = append(outs, rest)
	}
	f.ctl = f.ctl[:len(f.ctl)-1]
	outs = append(outs, ctl.breaks...)
	return u.merge(outs...)
}

func (u *Unit) typeSwitch(f *Frame, st *State, s *ast.TypeSwitchStmt, label string) *State {
	if s.Init != nil {
		st = u.stmt(f, st, s.Init, "")
	}
	var x ast.Expr
	switch a := s.Assign.(type) {
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	}
	v, st := u.ev(f, st, x)
	ctl := &loopCtl{label: label, sw: true}
	f.ctl = append(f.ctl, ctl)
	var outs []*State
	rest := st
	var def *ast.CaseClause
	bind := func(cc *ast.CaseClause, b *State, val *Term) {
		if o := f.pkg.info.Implicits[cc]; o != nil {
			b.vars[vkey{f, o}] = val
		}
		outs = append(outs, u.block(f, b, cc.Body))
	}
	for _, cs := range s.Body.List {
		cc := cs.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var conds []*Term
		var single types.Type
		for _, e := range cc.List {
			t := u.typeOf(f, e)
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				conds = append(conds, u.c.Eq(v, u.anyNil()))
				continue
			}
			if _, isI := t.Underlying().(*types.Interface); isI {
				// dynamic type implements interface: uninterpreted property of the tag, never for nil
				conds = append(conds, u.c.And(u.c.Not(u.c.Eq(v, u.anyNil())), u.c.App("impl."+typeKey(t), SBool, u.c.App("any.tag", SInt, v))))
				continue
			}
			conds = append(conds, u.hasType(v, t))
			single = t
		}
		var a *State
		a, rest = u.branch(rest, u.c.Or(conds...))
		if !live(a) {
			continue
		}
		val := v
		if len(cc.List) == 1 && single != nil {
			val = u.unbox(v, single)
			for _, w := range u.wfVal(a, val, single) {
				u.assume(a, w)
			}
		}
		bind(cc, a, val)
	}
	if def != nil {
		if live(rest) {
			bind(def, rest, v)
		}
	} else {
		outs = append(outs, rest)
	}
	f.ctl = f.ctl[:len(f.ctl)-1]
	outs = append(outs, ctl.breaks...)
	return u.merge(outs...)
}

func describe(e ast.Node) string {
	return strings.TrimPrefix(fmt.Sprintf("%T", e), "*ast.")
}
