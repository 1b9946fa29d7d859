package main

// Contracts: use at call sites, verification of a unit, closures, allocation inference.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

type fparam struct {
	t *Term
	y types.Type
}

func sigTypeParams(sig *types.Signature) []*types.TypeParam {
	var out []*types.TypeParam
	if l := sig.RecvTypeParams(); l != nil {
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.At(i))
		}
	}
	if l := sig.TypeParams(); l != nil {
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.At(i))
		}
	}
	return out
}

func tpNames(sig *types.Signature, tsub map[*types.TypeParam]types.Type) map[string]types.Type {
	m := map[string]types.Type{}
	for _, tp := range sigTypeParams(sig) {
		if r, ok := tsub[tp]; ok {
			m[tp.Obj().Name()] = r
		} else {
			m[tp.Obj().Name()] = tp
		}
	}
	return m
}

// headerVals binds the contract's header names positionally.
func headerVals(con *Contract, sig *types.Signature, tsub map[*types.TypeParam]types.Type, recv *Term, args []*Term) map[string]SVal {
	m := map[string]SVal{}
	i := 0
	if sig.Recv() != nil {
		if i < len(con.params) {
			m[con.params[i]] = SVal{recv, substT(sig.Recv().Type(), tsub)}
		}
		i++
	}
	for k := 0; k < sig.Params().Len(); k++ {
		if i < len(con.params) {
			m[con.params[i]] = SVal{args[k], substT(sig.Params().At(k).Type(), tsub)}
		}
		i++
	}
	return m
}

func resultVals(rs []*Term, ts []types.Type) map[string]SVal {
	m := map[string]SVal{}
	for i, r := range rs {
		m["result"+itoa(i)] = SVal{r, ts[i]}
		if i == 0 {
			m["result"] = SVal{r, ts[i]}
		}
	}
	return m
}

// cell is one heap location (ref == nil: the whole component).
type cell struct {
	ci  *compInfo
	ref *Term
}

func (u *Unit) modCells(e *SEnv, con *Contract) (cells []cell, vars []string) {
	u.inSpec++
	defer func() { u.inSpec-- }()
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				panic(unsupported{"modifies: " + se.s})
			}
			panic(r)
		}
	}()
	for _, m := range con.modEx {
		switch m.kind {
		case "field":
			v := e.ev(m.e)
			p, ok := v.typ.Underlying().(*types.Pointer)
			if !ok {
				e.fail("field of non-pointer %v", v.typ)
			}
			for _, fd := range u.structFields(p.Elem()) {
				if fd.Name() == m.fld || m.fld == "all" {
					if isMutex(fd.Type()) {
						continue
					}
					cells = append(cells, cell{u.fieldComp(p.Elem(), fd), v.t})
				}
			}
		case "map":
			v := e.ev(m.e)
			_, vt, ok := mapParts(v.typ)
			if !ok {
				e.fail("not a map: %v", v.typ)
			}
			cells = append(cells, cell{u.domComp(v.typ), v.t})
			if u.sortOf(vt) != SUnit {
				cells = append(cells, cell{u.valComp(v.typ), v.t})
			}
		case "allfield":
			t := e.mustType(m.typ)
			for _, fd := range u.structFields(t) {
				if fd.Name() == m.fld {
					cells = append(cells, cell{u.fieldComp(t, fd), nil})
				}
			}
		case "allmap", "allmaplike":
			var t types.Type
			if m.kind == "allmap" {
				t = e.mustType(m.typ)
			} else {
				t = e.ev(m.e).typ
			}
			_, vt, _ := mapParts(t)
			cells = append(cells, cell{u.domComp(t), nil})
			if u.sortOf(vt) != SUnit {
				cells = append(cells, cell{u.valComp(t), nil})
			}
		case "var":
			if e.pkg != nil {
				if o, ok := e.pkg.types.Scope().Lookup(m.fld).(*types.Var); ok {
					cells = append(cells, cell{u.globalComp(o), nil})
					continue
				}
			}
			vars = append(vars, m.fld)
		}
	}
	return
}

// havocCells gives the listed locations arbitrary well-formed values.
func (u *Unit) havocCells(st *State, cells []cell) {
	c := u.c
	for _, cl := range cells { // domains before values
		_ = cl
	}
	var wfs []func()
	for _, cl := range cells {
		ci := cl.ci
		if cl.ref == nil {
			n := c.Fresh(ci.name, ci.sort)
			u.logWrite(ci, nil)
			u.wild[ci.name]++
			st.heap[ci.name] = n
			wfs = append(wfs, func() {
				for _, w := range u.wfComp(st, ci, n) {
					u.assume(st, w)
				}
			})
			continue
		}
		_, vs := arrParts(ci.sort)
		n := c.Fresh("m."+ci.name, vs)
		u.logWrite(ci, cl.ref)
		u.setH(st, ci, c.Store(u.H(st, ci), cl.ref, n))
		ref := cl.ref
		wfs = append(wfs, func() { u.wfCell(st, ci, ref, n) })
	}
	for _, w := range wfs {
		w()
	}
}

func (u *Unit) bumpAllocs(st *State, rks []string) {
	for _, rk := range rks {
		nc := u.nextComp(rk)
		n := u.c.Fresh("N."+rk, SInt)
		u.assume(st, u.c.Le(u.H(st, nc), n))
		u.logWrite(nc, nil)
		st.heap[nc.name] = n
	}
}

type allocCache struct {
	m    map[string][]string
	busy map[string]bool
}

var allocs = &allocCache{m: map[string][]string{}, busy: map[string]bool{}}

// allocsOf: which kinds of memory may a function allocate? (abstract execution of its body)
func (u *Unit) allocsOf(fi *FuncInfo, tsub map[*types.TypeParam]types.Type, con *Contract, sig *types.Signature) []string {
	if fi == nil || con.trusted != "" {
		return con.allocs
	}
	key := fi.key
	for _, tp := range sigTypeParams(sig) {
		if r, ok := tsub[tp]; ok {
			key += "|" + typeKey(r)
		}
	}
	if r, ok := allocs.m[key]; ok {
		return r
	}
	if allocs.busy[key] {
		return nil
	}
	allocs.busy[key] = true
	defer delete(allocs.busy, key)
	n := NewUnit(u.pr, u.sp)
	n.dry = 1
	set := map[string]bool{}
	n.writeLog = append(n.writeLog, func(ci *compInfo, r *Term) {
		if ci.kind == "N" {
			set[strings.TrimPrefix(ci.name, "N!")] = true
		}
	})
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
				u.hintErrs["alloc:"+key] = r.(unsupported).msg
			}
		}()
		n.setupUnit(con, fi, tsub)
		n.body()
	}()
	for _, a := range con.allocs {
		set[a] = true
	}
	rs := sortedKeys(set)
	if len(allocs.busy) == 1 {
		allocs.m[key] = rs
	}
	return rs
}

func (u *Unit) callContract(f *Frame, st *State, con *Contract, fi *FuncInfo, pkg *Pkg, fn *types.Func, sig *types.Signature, tsub map[*types.TypeParam]types.Type, recv *Term, recvT types.Type, args []*Term) ([]*Term, *State) {
	c := u.c
	u.usedContracts[con.key] = true
	if con.trusted != "" {
		u.note("trusted contract " + con.key + ": " + con.trusted)
	}
	osig := sig
	if fi != nil {
		osig = fi.obj.Type().(*types.Signature)
	}
	e := u.newEnv(pkg, st, st)
	e.tp = tpNames(osig, tsub)
	for n, v := range headerVals(con, osig, tsub, recv, args) {
		e.names[n] = v
	}
	if osig.Recv() != nil {
		if _, ok := osig.Recv().Type().Underlying().(*types.Pointer); ok {
			u.nonNil(st, recv)
		}
	}
	for _, r := range con.requires {
		u.check(st, "pre", "precondition of "+con.key+": "+r.src, e.mustBool(r.e, con.key))
	}
	if u.con != nil && u.con.key == con.key && len(con.decreases) > 0 && u.entry != nil {
		u.decreaseCheck(st, con, e)
	}
	pre := st.clone()
	e.old, e.st = pre, pre
	cells, _ := u.modCells(e, con)
	u.bumpAllocs(st, u.allocsOf(fi, tsub, con, osig))
	u.havocCells(st, cells)
	var rs []*Term
	var ts []types.Type
	for i := 0; i < osig.Results().Len(); i++ {
		rt := substT(osig.Results().At(i).Type(), tsub)
		r := c.Fresh(shortName(con.key), u.sortOf(rt))
		for _, w := range u.wfVal(st, r, rt) {
			u.assume(st, w)
		}
		rs = append(rs, r)
		ts = append(ts, rt)
	}
	e2 := e.with(resultVals(rs, ts))
	e2.st = st
	for _, en := range con.ensures {
		if en.shown {
			continue
		}
		u.assume(st, e2.mustBool(en.e, con.key))
	}
	return rs, st
}

func shortName(k string) string {
	i := strings.LastIndexByte(k, '.')
	return k[i+1:]
}

func (u *Unit) decreaseCheck(st *State, con *Contract, e *SEnv) {
	c := u.c
	oe := u.newEnv(u.pkg, u.entry, u.entry)
	oe.tp = u.tparams
	for n, v := range u.entryNames {
		oe.names[n] = v
	}
	var or, eqs []*Term
	for _, d := range con.decreases {
		a, err1 := oe.tryTerm(d)
		b, err2 := e.tryTerm(d)
		if err1 != nil || err2 != nil {
			unsup("decreases: %v %v", err1, err2)
		}
		or = append(or, c.And(append(append([]*Term{}, eqs...), c.Lt(b.t, a.t), c.Le(c.Int(0), a.t))...))
		eqs = append(eqs, c.Eq(a.t, b.t))
	}
	u.oblige(st, "term", "recursive call decreases the measure", c.Or(or...))
}

// ---------- unit set-up ----------

func (u *Unit) setupUnit(con *Contract, fi *FuncInfo, tsub map[*types.TypeParam]types.Type) {
	c := u.c
	sig := fi.obj.Type().(*types.Signature)
	u.con, u.fi, u.pkg = con, fi, fi.pkg
	u.hintCons = []*Contract{con}
	f := u.newFrame(nil, fi, fi.pkg, sig)
	f.tsub = tsub
	u.frame0 = f
	u.tparams = tpNames(sig, tsub)
	st := &State{pc: c.True(), vars: map[vkey]*Term{}, heap: map[string]*Term{}}
	mk := func(hint string, t types.Type) *Term {
		t = substT(t, tsub)
		v := c.Fresh("p."+hint, u.sortOf(t))
		for _, w := range u.wfVal(st, v, t) {
			u.fact(w)
		}
		return v
	}
	var recv *Term
	if sig.Recv() != nil {
		recv = mk("recv", sig.Recv().Type())
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			u.fact(c.Lt(c.Int(0), recv))
		}
	}
	var args []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, mk(sig.Params().At(i).Name(), sig.Params().At(i).Type()))
	}
	u.stack = append(u.stack, fi.key)
	u.bindParams(f, st, fi.decl.Recv, fi.decl.Type, recv, args)
	u.hdr = map[string]vkey{}
	ps := declParams(fi)
	for i, n := range con.params {
		if i < len(ps) && ps[i] != nil {
			if k := (vkey{f, ps[i]}); st.vars[k] != nil {
				u.hdr[n] = k
			}
		}
	}
	u.entryNames = headerVals(con, sig, tsub, recv, args)
	u.entry = st.clone()
	u.start = st
}

// body executes the function body; results are in frame0.returns.
func (u *Unit) body() {
	f := u.frame0
	out := u.block(f, u.start, u.fi.decl.Body.List)
	if live(out) {
		if f.sig.Results().Len() > 0 && len(f.results) == 0 {
			return
		}
		out = u.runDefers(f, out)
		if live(out) {
			var vals []*Term
			for _, r := range f.results {
				k, _ := u.lookupVar(f, out, r)
				vals = append(vals, out.vars[k])
			}
			f.returns = append(f.returns, &retState{out, vals})
		}
	}
}

func (u *Unit) entryEnv(st *State) *SEnv {
	e := u.newEnv(u.pkg, st, u.entry)
	e.tp = u.tparams
	for n, v := range u.entryNames {
		e.names[n] = v
	}
	return e
}

// genFn generates all obligations for a contracted function.
func (u *Unit) genFn(con *Contract, fi *FuncInfo) {
	c := u.c
	u.setupUnit(con, fi, nil)
	st := u.start
	e := u.entryEnv(st)
	if u.locks {
		u.lockEntry(st)
	}
	if u.lean() {
		u.hintCons = nil
	} else {
		for _, r := range con.requires {
			u.fact(e.mustBool(r.e, "requires"))
		}
		for _, r := range con.assumes {
			u.fact(e.mustBool(r.e, "assumes"))
			u.note("assumed at entry of " + con.key + ": " + r.src)
		}
	}
	u.useAt("entry", u.frame0, st, token.NoPos)
	if o := u.oblige(st, "vacuity", "preconditions are satisfiable", c.False()); o != nil {
		o.label = "vacuity"
	}
	u.body()
	sig := fi.obj.Type().(*types.Signature)
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	for ri, r := range u.frame0.returns {
		if !live(r.st) {
			continue
		}
		u.exitChecks(con, r, ts, ri)
	}
}

func (u *Unit) exitChecks(con *Contract, r *retState, ts []types.Type, ri int) {
	n0 := len(u.facts)
	u.curPos = u.fi.decl.Name.Pos()
	u.resultNames = resultVals(r.vals, ts)
	u.useAt("exit", u.frame0, r.st, token.NoPos)
	e := u.entryEnv(r.st).with(u.resultNames)
	for _, en := range con.ensures {
		if u.lean() {
			break
		}
		t := e.mustBool(en.e, "ensures")
		o := u.oblige(r.st, "post", fmt.Sprintf("postcondition (return %d): %s", ri+1, en.src), t)
		if o != nil {
			o.label = en.label
		}
	}
	u.frameChecks(con, r.st, ri)
	for i, v := range r.vals {
		u.ownReturn(r.st, v, ts[i])
	}
	u.poolReturn(r.st, r.vals)
	u.ownHeap(r.st)
	if u.locks {
		u.lockExit(r.st)
	}
	u.resultNames = nil
	u.facts = u.facts[:n0:n0]
}

func (u *Unit) frameChecks(con *Contract, st *State, ri int) {
	if u.noFrame {
		return
	}
	oe := u.entryEnv(u.entry)
	cells, _ := u.modCells(oe, con)
	u.frameOblige(u.entry, st, cells, ri)
}

func (u *Unit) frameOblige(pre, st *State, cells []cell, ri int) {
	c := u.c
	for _, k := range sortedKeys(st.heap) {
		ci := u.comps[k]
		switch ci.kind {
		case "F", "C", "D", "V", "G":
		default:
			continue
		}
		h0, h1 := u.H(pre, ci), u.H(st, ci)
		if h0 == h1 {
			continue
		}
		whole := false
		var refs []*Term
		for _, cl := range cells {
			if cl.ci == ci {
				if cl.ref == nil {
					whole = true
				} else {
					refs = append(refs, cl.ref)
				}
			}
		}
		if whole {
			continue
		}
		if ci.kind == "G" {
			u.oblige(st, "frame", fmt.Sprintf("unlisted state unchanged (return %d): %s", ri+1, k), c.Eq(h0, h1))
			continue
		}
		r := c.Fresh("frm", SInt)
		g := []*Term{c.Lt(c.Int(0), r), c.Lt(r, u.next(pre, ci.owner))}
		for _, x := range refs {
			g = append(g, c.Not(c.Eq(r, x)))
		}
		goal := c.Implies(c.And(g...), c.Eq(c.Select(h1, r), c.Select(h0, r)))
		if ci.kind == "V" { // values matter only inside the domain
			dn := u.comps["D!"+ci.owner]
			kv := c.Fresh("frk", u.sortOf(ci.ktyp))
			g = append(g, c.Select(c.Select(u.H(pre, dn), r), kv))
			goal = c.Implies(c.And(g...), c.Eq(c.Select(c.Select(h1, r), kv), c.Select(c.Select(h0, r), kv)))
			_ = dn
			// callers keep the whole value array; cells outside the domain are unobservable
		}
		u.oblige(st, "frame", fmt.Sprintf("unlisted state unchanged (return %d): %s", ri+1, k), goal)
	}
}

// ---------- recursive closures ----------

type closInfo struct {
	con    *Contract
	id     *ast.Ident
	st0    *State
	frame  *Frame
	allocs []string
	vars   map[string]vkey
	free   []vkey
	auto   *autoMods // lock mode: summary computed from the body
}

// autoMods: what a recursive closure may change (all cells of these components).
type autoMods struct {
	comps map[string]bool
	objs  map[types.Object]bool
}

func (u *Unit) selfRecursive(f *Frame, id *ast.Ident, lit *ast.FuncLit) bool {
	o := f.pkg.info.ObjectOf(id)
	rec := false
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		if x, ok := n.(*ast.Ident); ok && f.pkg.info.Uses[x] == o {
			rec = true
		}
		return !rec
	})
	return rec
}

// closVars resolves the captured variables a closure contract talks about.
func (u *Unit) closVars(cc *Contract, f *Frame, st *State, lit *ast.FuncLit) map[string]vkey {
	m := map[string]vkey{}
	if len(cc.captures) == 0 {
		return m
	}
	e := u.newEnv(u.pkg, st, st)
	e.tp = u.tparams
	vars := u.scopeVars(f, st, lit.Pos())
	used := map[vkey]bool{}
	for _, q := range cc.captures {
		for _, k := range vars {
			if k.v.Name() == q.name {
				m[q.name] = k
				used[k] = true
				break
			}
		}
	}
	// free variables of the literal only
	fv := u.freeVars(f, st, lit)
	for _, q := range cc.captures {
		if _, ok := m[q.name]; ok {
			continue
		}
		t := e.mustType(q.typ)
		var best *vkey
		for i := range fv {
			k := fv[i]
			if used[k] || !types.Identical(u.varType(k), t) {
				continue
			}
			if best == nil || k.v.Pos() < best.v.Pos() {
				best = &fv[i]
			}
		}
		if best == nil && q.opt {
			continue
		}
		if best == nil {
			unsup("closure contract: no captured variable for %s", q.name)
		}
		m[q.name] = *best
		used[*best] = true
	}
	return m
}

func (u *Unit) freeVars(f *Frame, st *State, lit *ast.FuncLit) []vkey {
	seen := map[vkey]bool{}
	var out []vkey
	ast.Inspect(lit, func(n ast.Node) bool {
		if x, ok := n.(*ast.Ident); ok {
			if o := f.pkg.info.Uses[x]; o != nil {
				if k, ok := u.lookupVar(f, st, o); ok && !seen[k] {
					seen[k] = true
					out = append(out, k)
				}
			}
		}
		return true
	})
	sortVK(out)
	return out
}

func (u *Unit) maybeClosureContract(f *Frame, st *State, id *ast.Ident, lit *ast.FuncLit) {
	if u.con == nil || !u.selfRecursive(f, id, lit) {
		return
	}
	if u.lean() {
		u.autoClosure(f, st, id, lit)
		return
	}
	if ci := u.clos[lit]; ci != nil && u.dry > 0 {
		ci.st0 = st.clone()
		return
	}
	var cc *Contract
	for _, x := range u.con.closures {
		if x.key == id.Name {
			cc = x
		}
	}
	if cc == nil && len(u.con.closures) == 1 {
		cc = u.con.closures[0]
	}
	if cc == nil {
		return
	}
	cvars := u.closVars(cc, f, st, lit)
	missing := map[string]bool{}
	for _, q := range cc.captures {
		if _, ok := cvars[q.name]; !ok {
			missing[q.name] = true
		}
	}
	if len(missing) > 0 {
		cc = cc.without(missing)
	}
	ci := &closInfo{con: cc, id: id, frame: f, vars: cvars, free: u.freeVars(f, st, lit)}
	u.closureCon[lit] = cc
	u.clos[lit] = ci
	// the state in which the closure is verified
	fnv := u.fnVal(&FuncVal{lit: lit, frame: f})
	o := f.pkg.info.ObjectOf(id)
	if k, ok := u.lookupVar(f, st, o); ok {
		st.vars[k] = fnv
	} else {
		st.vars[vkey{f, o}] = fnv
	}
	ci.st0 = st.clone()
	// allocation kinds (dry run)
	set := map[string]bool{}
	u.dry++
	u.writeLog = append(u.writeLog, func(c *compInfo, r *Term) {
		if c.kind == "N" {
			set[strings.TrimPrefix(c.name, "N!")] = true
		}
	})
	saveLogs := u.writeLog[:len(u.writeLog)-1]
	u.writeLog = u.writeLog[len(u.writeLog)-1:]
	u.runClosure(ci, lit)
	u.writeLog = saveLogs
	u.dry--
	ci.allocs = sortedKeys(set)
	if u.dry == 0 {
		u.writeLog = nil
		u.runClosure(ci, lit)
		u.writeLog = saveLogs
	}
}

func (u *Unit) closEnv(ci *closInfo, lit *ast.FuncLit, st, old *State, args map[string]SVal) *SEnv {
	e := u.loopEnv(ci.frame, st, lit.Pos())
	e.old = old
	e.ghosts = nil
	e.before = nil
	base := e.lookup
	e.lookup = func(e *SEnv, name string) (SVal, bool) {
		if k, ok := ci.vars[name]; ok {
			if v, ok := e.st.vars[k]; ok {
				return SVal{v, u.varType(k)}, true
			}
		}
		return base(e, name)
	}
	for n, v := range args {
		e.names[n] = v
	}
	return e
}

func closArgs(cc *Contract, sig *types.Signature, tsub map[*types.TypeParam]types.Type, args []*Term) map[string]SVal {
	m := map[string]SVal{}
	for i, n := range cc.params {
		if i < len(args) {
			m[n] = SVal{args[i], substT(sig.Params().At(i).Type(), tsub)}
		}
	}
	return m
}

// runClosure verifies the body of a contracted closure from an arbitrary later state.
func (u *Unit) runClosure(ci *closInfo, lit *ast.FuncLit) {
	c := u.c
	f := ci.frame
	n0 := len(u.facts)
	saveEntry, saveCon, saveHints, saveLoops, saveHdr, saveNames, saveStack := u.entry, u.con, u.hintCons, u.loops, u.hdr, u.entryNames, u.stack
	savePos := u.curPos
	saveF0 := u.frame0
	defer func() {
		u.facts = u.facts[:n0:n0]
		u.entry, u.con, u.hintCons, u.loops, u.hdr, u.entryNames, u.stack = saveEntry, saveCon, saveHints, saveLoops, saveHdr, saveNames, saveStack
		u.curPos = savePos
		u.frame0 = saveF0
	}()
	st := ci.st0.clone()
	st.defers = nil
	sig := substT(f.pkg.info.Types[lit].Type, f.tsub).Underlying().(*types.Signature)
	e0 := u.closEnv(ci, lit, st, st, nil)
	var args []*Term
	argNames := map[string]SVal{}
	// arbitrary memory growth and arbitrary contents of the modified cells
	cells, vars := u.closMods(ci, lit, st)
	u.bumpAllocs(st, u.allKinds(ci, st))
	u.havocCells(st, cells)
	for _, k := range vars {
		n := c.Fresh(k.v.Name(), st.vars[k].sort)
		st.vars[k] = n
		for _, w := range u.wfVal(st, n, u.varType(k)) {
			u.assume(st, w)
		}
	}
	_ = e0
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		v := c.Fresh("cp."+sig.Params().At(i).Name(), u.sortOf(t))
		for _, w := range u.wfVal(st, v, t) {
			u.assume(st, w)
		}
		args = append(args, v)
	}
	argNames = closArgs(ci.con, sig, nil, args)
	fr := u.newFrame(f, f.fi, f.pkg, sig)
	fr.tsub = f.tsub
	fr.lit = lit
	u.stack = append(append([]string{}, u.stack...), "closure "+ci.id.Name)
	u.bindParams(fr, st, nil, lit.Type, nil, args)
	entry := st.clone()
	u.entry = entry
	u.con = &Contract{key: saveCon.key + "/" + ci.con.key, closures: nil, pkg: saveCon.pkg}
	u.hintCons = []*Contract{ci.con}
	u.loops = nil
	hdr := map[string]vkey{}
	for k, v := range saveHdr {
		hdr[k] = v
	}
	for k, v := range ci.vars {
		hdr[k] = v
	}
	pi := 0
	for _, fl := range lit.Type.Params.List {
		for _, n := range fl.Names {
			if pi < len(ci.con.params) && n.Name != "_" {
				hdr[ci.con.params[pi]] = vkey{fr, f.pkg.info.Defs[n]}
			}
			pi++
		}
	}
	u.hdr = hdr
	names := map[string]SVal{}
	for n, v := range saveNames {
		names[n] = v
	}
	for n, v := range argNames {
		names[n] = v
	}
	u.entryNames = names
	for _, r := range append(append([]*Clause{}, ci.con.requires...), ci.con.assumes...) {
		u.assume(st, u.closEnv(ci, lit, st, entry, argNames).mustBool(r.e, "closure requires"))
	}
	if ci.auto != nil {
		// locks held by callers further up: more readers than at creation
		for _, k := range sortedKeys(ci.auto.comps) {
			if lc := u.comps[k]; lc.kind == "L" {
				n := c.Fresh(k, lc.sort)
				u.assume(st, u.lockMono(u.H(ci.st0, lc), n))
				st.heap[k] = n
				entry.heap[k] = n
			}
		}
	}
	u.useAt("entry", fr, st, lit.Body.Pos())
	out := u.block(fr, st, lit.Body.List)
	if live(out) && (sig.Results().Len() == 0 || len(fr.results) > 0) {
		out = u.runDefers(fr, out)
		if live(out) {
			var vals []*Term
			for _, r := range fr.results {
				k, _ := u.lookupVar(fr, out, r)
				vals = append(vals, out.vars[k])
			}
			fr.returns = append(fr.returns, &retState{out, vals})
		}
	}
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	for ri, r := range fr.returns {
		if !live(r.st) {
			continue
		}
		n1 := len(u.facts)
		u.curPos = lit.Pos()
		rn := resultVals(r.vals, ts)
		u.resultNames = rn
		u.useAt("exit", fr, r.st, lit.Body.Rbrace)
		u.resultNames = nil
		e := u.closEnv(ci, lit, r.st, entry, argNames).with(rn)
		for _, en := range ci.con.ensures {
			t := e.mustBool(en.e, "closure ensures")
			u.oblige(r.st, "post", fmt.Sprintf("postcondition of %s (return %d): %s", ci.con.key, ri+1, en.src), t)
		}
		u.frameOblige(entry, r.st, cells, ri)
		for _, k := range sortedKeys(r.st.heap) {
			if xc := u.comps[k]; xc.kind == "L" || xc.kind == "X" && strings.HasPrefix(k, "X!released") {
				if h0, h1 := u.H(entry, xc), u.H(r.st, xc); h0 != h1 {
					x := c.Fresh("cl", SInt)
					what := "lock states unchanged by closure " + ci.con.key + ": " + k[2:]
					if xc.kind == "X" {
						what = "closure " + ci.con.key + " returns no buffer to a pool"
					}
					u.oblige(r.st, map[string]string{"L": "lock", "X": "own"}[xc.kind], what, c.Eq(c.Select(h1, x), c.Select(h0, x)))
				}
			}
		}
		if ci.auto != nil {
			for _, k := range ci.free {
				if r.st.vars[k] != nil && entry.vars[k] != nil && r.st.vars[k] != entry.vars[k] {
					ci.auto.objs[k.v] = true
				}
			}
			u.facts = u.facts[:n1:n1]
			continue
		}
		mod := map[vkey]bool{}
		for _, k := range vars {
			mod[k] = true
		}
		for _, k := range ci.free {
			if !mod[k] && r.st.vars[k] != nil && entry.vars[k] != nil && r.st.vars[k] != entry.vars[k] {
				u.oblige(r.st, "frame", "captured variable "+k.v.Name()+" unchanged", c.Eq(r.st.vars[k], entry.vars[k]))
			}
		}
		u.facts = u.facts[:n1:n1]
	}
}

func (u *Unit) allKinds(ci *closInfo, st *State) []string {
	m := map[string]bool{}
	for _, a := range ci.allocs {
		m[a] = true
	}
	return sortedKeys(m)
}

// lockMono: every lock not write-held in h0 has at least as many readers in h.
func (u *Unit) lockMono(h0, h *Term) *Term {
	c := u.c
	r := c.BVar("r", SInt)
	a, b := c.Select(h0, r), c.Select(h, r)
	return c.Forall([]*Term{r}, c.And(c.Implies(c.Le(c.Int(0), a), c.Le(a, b)), c.Implies(c.Lt(a, c.Int(0)), c.Eq(a, b))), []*Term{b})
}

// autoClosure summarises a recursive closure by what its body changes (lock mode).
func (u *Unit) autoClosure(f *Frame, st *State, id *ast.Ident, lit *ast.FuncLit) {
	am := u.autoMods[lit]
	fresh := am == nil
	if fresh {
		am = &autoMods{comps: map[string]bool{}, objs: map[types.Object]bool{}}
		u.autoMods[lit] = am
	}
	cc := &Contract{key: id.Name, pkg: f.pkg.name}
	ci := &closInfo{con: cc, id: id, frame: f, vars: map[string]vkey{}, free: u.freeVars(f, st, lit), auto: am}
	u.closureCon[lit] = cc
	u.clos[lit] = ci
	fnv := u.fnVal(&FuncVal{lit: lit, frame: f})
	o := f.pkg.info.ObjectOf(id)
	if k, ok := u.lookupVar(f, st, o); ok {
		st.vars[k] = fnv
	} else {
		st.vars[vkey{f, o}] = fnv
	}
	ci.st0 = st.clone()
	saveLogs := u.writeLog
	allocs := map[string]bool{}
	setAllocs := func() { ci.allocs = sortedKeys(allocs) }
	for it := 0; ; it++ {
		if it > 8 {
			unsup("closure analysis does not converge")
		}
		n := len(am.comps) + len(am.objs) + len(allocs)
		u.dry++
		u.writeLog = []func(*compInfo, *Term){func(c *compInfo, r *Term) {
			switch c.kind {
			case "N":
				allocs[strings.TrimPrefix(c.name, "N!")] = true
			case "F", "C", "D", "V", "G", "L":
				am.comps[c.name] = true
			}
		}}
		u.runClosure(ci, lit)
		u.dry--
		setAllocs()
		if len(am.comps)+len(am.objs)+len(allocs) == n {
			break
		}
	}
	if u.dry == 0 {
		u.writeLog = nil
		u.runClosure(ci, lit)
	}
	u.writeLog = saveLogs
}

func (u *Unit) closMods(ci *closInfo, lit *ast.FuncLit, st *State) ([]cell, []vkey) {
	if ci.auto != nil {
		var cells []cell
		for _, k := range sortedKeys(ci.auto.comps) {
			if c := u.comps[k]; c.kind != "L" {
				cells = append(cells, cell{c, nil})
			}
		}
		var vs []vkey
		for _, k := range ci.free {
			if ci.auto.objs[k.v] {
				vs = append(vs, k)
			}
		}
		return cells, vs
	}
	e := u.closEnv(ci, lit, st, st, nil)
	cells, names := u.modCells(e, ci.con)
	var vs []vkey
	for _, n := range names {
		k, ok := ci.vars[n]
		if !ok {
			k, ok = u.scopeLookup(ci.frame, st, n, lit.Pos())
		}
		if !ok {
			unsup("closure modifies unknown variable %s", n)
		}
		vs = append(vs, k)
	}
	return cells, vs
}

func (u *Unit) callClosureContract(f *Frame, st *State, con *Contract, fv *FuncVal, args []*Term) ([]*Term, *State) {
	c := u.c
	ci := u.clos[fv.lit]
	sig := substT(ci.frame.pkg.info.Types[fv.lit].Type, ci.frame.tsub).Underlying().(*types.Signature)
	an := closArgs(con, sig, nil, args)
	e := u.closEnv(ci, fv.lit, st, st, an)
	for _, r := range con.requires {
		u.check(st, "pre", "precondition of closure "+con.key+": "+r.src, e.mustBool(r.e, con.key))
	}
	cells, vars := u.closMods(ci, fv.lit, st)
	mod := map[vkey]bool{}
	for _, k := range vars {
		mod[k] = true
	}
	// nothing else the closure may see has changed since it was created
	for _, k := range ci.free {
		if mod[k] || k.v == ci.frame.pkg.info.ObjectOf(ci.id) {
			continue // (the closure's own variable: this call goes through it)
		}
		a, b := ci.st0.vars[k], st.vars[k]
		if a != nil && b != nil && a != b {
			u.check(st, "pre", "captured variable "+k.v.Name()+" unchanged since the closure was created", c.Eq(a, b))
		}
	}
	if ci.auto != nil {
		for _, k := range sortedKeys(st.heap) {
			lc := u.comps[k]
			if lc.kind != "L" {
				continue
			}
			h0, h1 := u.H(ci.st0, lc), u.H(st, lc)
			if h0 == h1 {
				continue
			}
			if ci.auto.comps[k] {
				u.check(st, "lock", "no lock needed by closure "+con.key+" was released or write-locked since its creation: "+k[2:], u.lockMono(h0, h1))
				u.logWrite(lc, nil)
			} else {
				x := c.BVar("r", SInt)
				u.check(st, "lock", "lock states unchanged since closure "+con.key+" was created: "+k[2:], c.Forall([]*Term{x}, c.Eq(c.Select(h1, x), c.Select(h0, x)), []*Term{c.Select(h1, x)}))
			}
		}
	}
	u.sinceCreation(ci, st, cells)
	pre := st.clone()
	u.bumpAllocs(st, ci.allocs)
	u.havocCells(st, cells)
	for _, k := range vars {
		n := c.Fresh(k.v.Name(), st.vars[k].sort)
		st.vars[k] = n
		for _, w := range u.wfVal(st, n, u.varType(k)) {
			u.assume(st, w)
		}
	}
	var rs []*Term
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := c.Fresh(con.key, u.sortOf(rt))
		for _, w := range u.wfVal(st, r, rt) {
			u.assume(st, w)
		}
		rs = append(rs, r)
		ts = append(ts, rt)
	}
	e2 := u.closEnv(ci, fv.lit, st, pre, an).with(resultVals(rs, ts))
	for _, en := range con.ensures {
		u.assume(st, e2.mustBool(en.e, con.key))
	}
	return rs, st
}

func (u *Unit) sinceCreation(ci *closInfo, st *State, cells []cell) {
	c := u.c
	for _, k := range sortedKeys(st.heap) {
		comp := u.comps[k]
		switch comp.kind {
		case "N":
			known := false
			for _, a := range ci.allocs {
				if "N!"+a == k {
					known = true
				}
			}
			if a, b := u.H(ci.st0, comp), u.H(st, comp); !known && a != b {
				u.check(st, "pre", "no allocation of "+k+" since the closure was created", c.Eq(a, b))
			}
			continue
		case "F", "C", "D", "V", "G":
		default:
			continue
		}
		h0, h1 := u.H(ci.st0, comp), u.H(st, comp)
		if h0 == h1 {
			continue
		}
		whole := false
		var refs []*Term
		for _, cl := range cells {
			if cl.ci == comp {
				if cl.ref == nil {
					whole = true
				} else {
					refs = append(refs, cl.ref)
				}
			}
		}
		if whole {
			continue
		}
		// syntactic fast path: only stores at the modified cells
		b := h1
		for {
			if d, ok := u.defs[b]; ok {
				b = d
				continue
			}
			if b == h0 {
				break
			}
			if b.op == "store" {
				in := false
				for _, r := range refs {
					if r == b.args[1] {
						in = true
					}
				}
				if in {
					b = b.args[0]
					continue
				}
			}
			break
		}
		if b == h0 {
			continue
		}
		if comp.kind == "G" {
			u.check(st, "pre", "state unchanged since the closure was created: "+k, c.Eq(h0, h1))
			continue
		}
		r := c.BVar("r", SInt)
		g := []*Term{c.Lt(c.Int(0), r), c.Lt(r, u.next(ci.st0, comp.owner))}
		for _, x := range refs {
			g = append(g, c.Not(c.Eq(r, x)))
		}
		u.check(st, "pre", "state unchanged since the closure was created: "+k, c.Forall([]*Term{r}, c.Implies(c.And(g...), c.Eq(c.Select(h1, r), c.Select(h0, r))), []*Term{c.Select(h1, r)}))
	}
}
