package main

// Loops: inferred frame, Houdini over contract-supplied invariants.

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type compChg struct {
	refs []*Term
	top  bool
}

type chgSet struct {
	vars  map[vkey]bool
	comps map[string]*compChg
}

func (a *chgSet) equal(b *chgSet) bool {
	if len(a.vars) != len(b.vars) || len(a.comps) != len(b.comps) {
		return false
	}
	for k := range a.vars {
		if !b.vars[k] {
			return false
		}
	}
	for k, x := range a.comps {
		y, ok := b.comps[k]
		if !ok || x.top != y.top || len(x.refs) != len(y.refs) {
			return false
		}
	}
	return true
}

// freshNum returns N for constants named ...!N.
func freshNum(op string) int {
	i := strings.LastIndexByte(op, '!')
	if i < 0 {
		return -1
	}
	n, err := strconv.Atoi(op[i+1:])
	if err != nil {
		return -1
	}
	return n
}

// stableTerm: the term does not depend on anything introduced after fresh0.
func (u *Unit) stableTerm(t *Term, fresh0 int) bool {
	ok := true
	var visit func(t *Term)
	seen := map[*Term]bool{}
	visit = func(t *Term) {
		if !ok || seen[t] {
			return
		}
		seen[t] = true
		if len(t.args) == 0 && freshNum(t.op) > fresh0 {
			if d, has := u.defs[t]; has {
				visit(d)
			} else {
				ok = false
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(t)
	return ok
}

// expand removes definitional names newer than fresh0.
func (u *Unit) expandNew(t *Term, fresh0 int) *Term {
	for {
		m := map[*Term]*Term{}
		collect(t, map[*Term]bool{}, func(x *Term) {
			if len(x.args) == 0 && freshNum(x.op) > fresh0 {
				if d, ok := u.defs[x]; ok {
					m[x] = d
				}
			}
		})
		if len(m) == 0 {
			return t
		}
		t = u.c.Subst(t, m)
	}
}

type cand struct {
	key  string
	text string
	eval func(st *State) (*Term, error)
}

var ghostObjs = map[string]*types.Var{}

func ghostObj(key string, t types.Type) *types.Var {
	if o, ok := ghostObjs[key]; ok {
		return o
	}
	o := types.NewVar(token.NoPos, nil, "#"+key, t)
	ghostObjs[key] = o
	return o
}

func (u *Unit) varType(k vkey) types.Type {
	return substT(k.v.Type(), k.f.tsub)
}

func (u *Unit) runLoop(f *Frame, st *State, label string, pos token.Pos, g *loopGhost, guard func(*State) (*State, *State), body func(*State) *State, post func(*State) *State, isFor bool) *State {
	c := u.c
	key := u.pr.pos(pos) + "/" + strings.Join(u.stack, ">") + strings.Join(u.sites, ">")
	g.f, g.before, g.pos = f, st, pos
	u.loops = append(u.loops, g)
	defer func() { u.loops = u.loops[:len(u.loops)-1] }()
	fresh0 := c.fresh

	run := func(h *State) (*State, *State, *loopCtl) {
		b, e := guard(h)
		ctl := &loopCtl{label: label}
		f.ctl = append(f.ctl, ctl)
		var o *State
		if live(b) {
			o = body(b)
		}
		f.ctl = f.ctl[:len(f.ctl)-1]
		o = u.merge(append([]*State{o}, ctl.conts...)...)
		if live(o) && post != nil {
			o = post(o)
		}
		return o, e, ctl
	}

	havoc := func(ch *chgSet) *State {
		h := st.clone()
		var vs []vkey
		for v := range ch.vars {
			vs = append(vs, v)
		}
		sortVK(vs)
		for _, k := range sortedKeys(ch.comps) {
			if strings.HasPrefix(k, "N!") {
				ci := u.comps[k]
				n := c.Fresh(k, SInt)
				u.assume(st, c.Le(u.H(st, ci), n))
				h.heap[k] = n
				u.logWrite(ci, nil)
			}
		}
		var wfs []func()
		for _, k := range sortedKeys(ch.comps) {
			if strings.HasPrefix(k, "N!") {
				continue
			}
			ci := u.comps[k]
			cc := ch.comps[k]
			if cc.top {
				n := c.Fresh(k, ci.sort)
				h.heap[k] = n
				u.logWrite(ci, nil)
				wfs = append(wfs, func() {
					for _, w := range u.wfComp(h, ci, n) {
						u.assume(st, w)
					}
				})
				continue
			}
			H := u.H(st, ci)
			_, vs := arrParts(ci.sort)
			for _, r := range cc.refs {
				n := c.Fresh("h."+k, vs)
				H = c.Store(H, r, n)
				u.logWrite(ci, r)
				wfs = append(wfs, func() { u.wfCell(h, ci, r, n) })
			}
			h.heap[k] = u.name(k, H)
		}
		for _, v := range vs {
			t := u.varType(v)
			n := c.Fresh(v.v.Name(), st.vars[v].sort)
			h.vars[v] = n
			wfs = append(wfs, func() {
				for _, w := range u.wfVal(h, n, t) {
					u.assume(st, w)
				}
			})
		}
		for _, w := range wfs {
			w()
		}
		// objects allocated by earlier iterations are well-formed too
		for _, k := range sortedKeys(u.comps) {
			ci := u.comps[k]
			if ci.kind != "F" && ci.kind != "C" && ci.kind != "V" || ch.comps["N!"+ci.owner] == nil {
				continue
			}
			if cc := ch.comps[k]; cc != nil && cc.top {
				continue
			}
			for _, w := range u.wfComp(h, ci, u.H(h, ci)) {
				u.assume(st, w)
			}
		}
		return h
	}

	// 1. changed set (fixpoint of dry runs)
	wild0 := map[string]int{}
	for k, n := range u.wild {
		wild0[k] = n
	}
	ch := &chgSet{vars: map[vkey]bool{}, comps: map[string]*compChg{}}
	for it := 0; ; it++ {
		if it > 8 {
			unsup("loop analysis does not converge")
		}
		nf, nr := len(u.facts), len(f.returns)
		fresh1 := c.fresh
		_ = fresh1
		u.dry++
		logs := map[string][]*Term{}
		tops := map[string]bool{}
		h := havoc(ch)
		u.writeLog = append(u.writeLog, func(ci *compInfo, r *Term) {
			if r == nil {
				tops[ci.name] = true
				return
			}
			logs[ci.name] = append(logs[ci.name], r)
		})
		cont, _, _ := run(h)
		u.writeLog = u.writeLog[:len(u.writeLog)-1]
		u.dry--
		nc := &chgSet{vars: map[vkey]bool{}, comps: map[string]*compChg{}}
		for k := range ch.vars {
			nc.vars[k] = true
		}
		for k, v := range ch.comps {
			nc.comps[k] = v
		}
		if live(cont) {
			for k, v := range cont.vars {
				if o, ok := h.vars[k]; ok && o != v {
					if _, in := st.vars[k]; in {
						nc.vars[k] = true
					}
				}
			}
			for k, v := range cont.heap {
				o, ok := h.heap[k]
				if !ok {
					o = u.H0(u.comps[k])
				}
				if o == v {
					continue
				}
				cc := &compChg{}
				if old, ok := nc.comps[k]; ok {
					cc.top = old.top
					cc.refs = append(cc.refs, old.refs...)
				}
				if tops[k] || !strings.HasPrefix(u.comps[k].sort, "(Array Int ") {
					cc.top = true
				}
				var note func(r *Term)
				note = func(r *Term) {
					if !u.stableTerm(r, fresh0) {
						if r = u.expandNew(r, fresh0); r.op == "ite" { // one of two cells
							note(r.args[1])
							note(r.args[2])
							return
						}
						if as := u.alts[r]; as != nil {
							for _, a := range as {
								note(a)
							}
							return
						}
						cc.top = true
						return
					}
					r = u.expandNew(r, fresh0)
					for _, x := range cc.refs {
						if x == r {
							return
						}
					}
					cc.refs = append(cc.refs, r)
				}
				for _, r := range logs[k] {
					note(r)
				}
				if cc.top {
					cc.refs = nil
				}
				nc.comps[k] = cc
			}
		}
		u.facts = u.facts[:nf:nf]
		f.returns = f.returns[:nr:nr]
		if nc.equal(ch) {
			break
		}
		ch = nc
	}

	// 2. candidates
	var cands []*cand
	if u.track {
		for v := range ch.vars {
			v := v
			t0 := st.vars[v]
			if t0 == nil || elemOf(u.varType(v)) == nil {
				continue
			}
			b0 := u.buf(t0)
			cands = append(cands, &cand{key: key + "|buf|" + v.v.Name() + itoa(int(v.v.Pos())), text: "the buffer of " + v.v.Name() + " is the one it had before the loop", eval: func(s *State) (*Term, error) {
				return c.Eq(u.buf(s.vars[v]), b0), nil
			}})
		}
		sort.Slice(cands, func(i, j int) bool { return cands[i].key < cands[j].key })
	}
	for _, k := range sortedKeys(ch.comps) {
		cc := ch.comps[k]
		ci := u.comps[k]
		if ci.kind == "L" || ci.kind == "X" && strings.HasPrefix(k, "X!released") {
			hE := u.H(st, ci)
			cands = append(cands, &cand{key: key + "|same|" + k, text: k + " is as before the loop", eval: func(s *State) (*Term, error) {
				r := c.BVar("r", SInt)
				hs := u.H(s, ci)
				if hs == hE {
					return c.True(), nil
				}
				return c.Forall([]*Term{r}, c.Eq(c.Select(hs, r), c.Select(hE, r)), []*Term{c.Select(hs, r)}), nil
			}})
		}
		if strings.HasPrefix(k, "X!released.") {
			rk := strings.TrimPrefix(k, "X!released.")
			cands = append(cands, &cand{key: key + "|alloc|" + k, text: "buffers put back so far have been allocated: " + rk, eval: func(s *State) (*Term, error) {
				r := c.BVar("r", SInt)
				hs := u.H(s, ci)
				var lim *Term
				if rk == "slices" {
					lim = u.H(s, u.comp(&compInfo{name: "X!bufs", sort: SInt, kind: "X"}))
				} else {
					lim = u.next(s, rk)
				}
				return c.Forall([]*Term{r}, c.Implies(c.Select(hs, r), c.Lt(r, lim)), []*Term{c.Select(hs, r)}), nil
			}})
		}
		if strings.HasPrefix(k, "X!released.") && k != "X!released.slices" && u.entry != nil {
			lim := u.next(u.entry, strings.TrimPrefix(k, "X!released."))
			cands = append(cands, &cand{key: key + "|taken|" + k, text: "buffers put back so far were taken by this call", eval: func(s *State) (*Term, error) {
				r := c.BVar("r", SInt)
				hs := u.H(s, ci)
				return c.Forall([]*Term{r}, c.Implies(c.Select(hs, r), c.Le(lim, r)), []*Term{c.Select(hs, r)}), nil
			}})
		}
		if !cc.top || ci.owner == "" || u.wild[k] > wild0[k] { // a callee may write any cell
			continue
		}
		hE := u.H(st, ci)
		nE := u.next(st, ci.owner)
		cands = append(cands, &cand{key: key + "|frame|" + k, text: "cells of " + k + " that existed before the loop are unchanged", eval: func(s *State) (*Term, error) {
			r := c.BVar("r", SInt)
			hs := u.H(s, ci)
			return c.Forall([]*Term{r}, c.Implies(c.And(c.Lt(c.Int(0), r), c.Lt(r, nE)), c.Eq(c.Select(hs, r), c.Select(hE, r))), []*Term{c.Select(hs, r)}), nil
		}})
		// memory existing at function entry
		if u.entry != nil {
			h0 := u.H(u.entry, ci)
			n0 := u.next(u.entry, ci.owner)
			if n0 != nE {
				cands = append(cands, &cand{key: key + "|frame0|" + k, text: "cells of " + k + " that existed at entry keep their value before the loop", eval: func(s *State) (*Term, error) {
					r := c.BVar("r", SInt)
					hs := u.H(s, ci)
					_ = h0
					return c.Forall([]*Term{r}, c.Implies(c.And(c.Lt(c.Int(0), r), c.Lt(r, n0)), c.Eq(c.Select(hs, r), c.Select(hE, r))), []*Term{c.Select(hs, r)}), nil
				}})
			}
		}
	}
	var cvs []vkey
	for v := range ch.vars {
		cvs = append(cvs, v)
	}
	sortVK(cvs)
	for _, v := range cvs {
		t := u.varType(v)
		if _, isB := t.Underlying().(*types.Basic); !isB || st.vars[v].sort != SInt {
			continue
		}
		e := st.vars[v]
		v := v
		cands = append(cands, &cand{key: key + "|ge|" + v.v.Name(), text: v.v.Name() + " never falls below its initial value", eval: func(s *State) (*Term, error) { return c.Le(e, s.vars[v]), nil }})
	}
	if g.seenObj != nil && g.m != nil {
		dom0 := u.mapDom(st, g.m, g.mt)
		sk := vkey{f, g.seenObj.(*types.Var)}
		if _, ok := st.vars[sk]; ok {
			cands = append(cands,
				&cand{key: key + "|rangedmap", text: "the ranged map keeps its keys", eval: func(s *State) (*Term, error) { return c.Eq(u.mapDom(s, g.m, g.mt), dom0), nil }},
				&cand{key: key + "|seen", text: "visited keys were in the ranged map", eval: func(s *State) (*Term, error) {
					seen := s.vars[sk]
					ks, _ := arrParts(seen.sort)
					x := c.BVar("x", ks)
					return c.Forall([]*Term{x}, c.Implies(c.Select(seen, x), c.Select(dom0, x)), []*Term{c.Select(seen, x)}), nil
				}})
		}
	}
	cands = append(cands, u.hintCands(f, st, key, pos)...)

	// auto candidate from guard: i < n  ==> i <= n ; detect index loops
	if isFor && g.s == nil {
		nf, nr := len(u.facts), len(f.returns)
		u.dry++
		h := havoc(ch)
		b, _ := guard(h)
		u.dry--
		u.facts = u.facts[:nf:nf]
		f.returns = f.returns[:nr:nr]
		if live(b) {
			cond := u.lastGuard
			if cond != nil {
				cond = u.expandNew(cond, fresh0)
				for _, a := range conjuncts(cond) {
					if a.op == "<" {
						lhs, rhs := a.args[0], a.args[1]
						for _, v := range cvs {
							if h.vars[v] == lhs && u.stableTerm(rhs, fresh0) {
								v := v
								cands = append(cands, &cand{key: key + "|le|" + v.v.Name(), text: v.v.Name() + " stays within the loop bound", eval: func(s *State) (*Term, error) { return c.Le(s.vars[v], rhs), nil }})
								if strings.HasPrefix(rhs.op, "seq.len.") && g.s == nil {
									g.s = rhs.args[0]
									g.kObj = v.v
									g.elem = u.seqElemType(f, st, rhs.args[0])
									g.f = v.f
									if g.elem == nil {
										g.s = nil
									}
								}
							}
						}
					}
				}
			}
		}
	}

	// 3. initialisation
	var act []*cand
	for _, cd := range cands {
		if u.dropped[cd.key] {
			continue
		}
		t, err := cd.eval(st)
		if err != nil {
			u.hintErrs[cd.key] = err.Error()
			continue
		}
		act = append(act, cd)
		u.candUsed[cd.key] = cd.text
		u.curPos = pos
		if o := u.oblige(st, "inv-init", "loop invariant holds initially: "+cd.text, t); o != nil {
			o.cand = cd.key
		}
	}

	// 4. arbitrary iteration
	head := havoc(ch)
	if isFor && g.s != nil && g.kObj != nil {
		u.indexFacts(g, head)
	}
	for _, cd := range act {
		t, err := cd.eval(head)
		if err != nil {
			continue
		}
		u.assume(head, t)
	}
	u.useAt("loop", f, head, pos)
	nret := len(f.returns)
	nfHead := len(u.facts)
	_ = nfHead
	// snapshot of facts after guard for the exit path
	var exitFacts int
	var guardTerm *Term
	guard0 := guard
	guard = func(h *State) (*State, *State) {
		b, e := guard0(h)
		exitFacts = len(u.facts)
		guardTerm = u.lastGuard
		return b, e
	}
	head0 := head.clone()
	cont, exit, ctl := run(head)
	if live(cont) {
		u.stepFrom = head0
		u.useAt("step", f, cont, pos)
		u.stepFrom = nil
		for _, cd := range act {
			t, err := cd.eval(cont)
			if err != nil {
				t = c.False()
			}
			u.curPos = pos
			if o := u.oblige(cont, "inv-pres", "loop invariant preserved: "+cd.text, t); o != nil {
				o.cand = cd.key
			}
		}
		if isFor && u.termination {
			u.loopTermination(f, head0, cont, pos, guardTerm, fresh0)
		}
	}
	if len(ctl.breaks) == 0 && len(f.returns) == nret {
		u.facts = u.facts[:exitFacts:exitFacts]
	}
	return u.merge(append([]*State{exit}, ctl.breaks...)...)
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// wfCell: well-formedness of one freshly havoced cell.
func (u *Unit) wfCell(st *State, ci *compInfo, r, v *Term) {
	c := u.c
	switch ci.kind {
	case "F", "C":
		for _, w := range u.wfVal(st, v, ci.vtyp) {
			u.assume(st, w)
		}
	case "D":
		e := c.ConstArr(ArrSort(u.sortOf(ci.ktyp), SBool), c.False())
		u.assume(st, c.Implies(c.Eq(r, c.Int(0)), c.Eq(v, e)))
	case "V":
		k := c.BVar("k", u.sortOf(ci.ktyp))
		dn := &compInfo{name: "D!" + ci.owner, sort: ArrSort(SInt, ArrSort(u.sortOf(ci.ktyp), SBool)), kind: "D", owner: ci.owner, ktyp: ci.ktyp}
		dom := c.Select(u.H(st, u.comp(dn)), r)
		sel := c.Select(v, k)
		for _, f := range u.wfVal(st, sel, ci.vtyp) {
			g := c.Select(dom, k)
			if f.op == "forall" {
				u.assume(st, c.Forall(append([]*Term{k}, f.vars...), c.Implies(g, f.args[0]), f.pats[0]))
			} else {
				u.assume(st, c.Forall([]*Term{k}, c.Implies(g, f), []*Term{sel}))
			}
		}
	}
}

// seqElemType finds the Go element type of a sequence term among the variables in scope.
func (u *Unit) seqElemType(f *Frame, st *State, s *Term) types.Type {
	s = u.expandNew(s, 0)
	for k, v := range st.vars {
		if v.sort == s.sort {
			if e := elemOf(u.varType(k)); e != nil {
				return e
			}
		}
	}
	for _, ci := range u.comps {
		if ci.vtyp != nil {
			if e := elemOf(ci.vtyp); e != nil && u.sortOf(ci.vtyp) == s.sort {
				return e
			}
		}
	}
	return nil
}

func (u *Unit) indexFacts(g *loopGhost, h *State) {
	c := u.c
	k := h.vars[vkey{g.f, g.kObj}]
	if k == nil {
		return
	}
	in := c.And(c.Le(c.Int(0), k), c.Lt(k, u.seqLen(g.s)))
	u.assume(h, c.Implies(in, c.Eq(u.take(g.s, c.Add(k, c.Int(1))), u.seqBuild(u.take(g.s, k), u.seqAt(g.s, k)))))
	u.assume(h, c.Implies(c.Eq(k, u.seqLen(g.s)), c.Eq(u.take(g.s, k), g.s)))
}

func (u *Unit) forStmt(f *Frame, st *State, s *ast.ForStmt, label string) *State {
	if s.Init != nil {
		st = u.stmt(f, st, s.Init, "")
		if !live(st) {
			return nil
		}
	}
	guard := func(h *State) (*State, *State) {
		u.lastGuard = nil
		if s.Cond == nil {
			return h, nil
		}
		u.curPos = s.Cond.Pos()
		cnd, h := u.ev(f, h, s.Cond)
		u.lastGuard = cnd
		return u.branch(h, cnd)
	}
	body := func(b *State) *State { return u.block(f, b, s.Body.List) }
	post := func(o *State) *State {
		if s.Post != nil {
			return u.stmt(f, o, s.Post, "")
		}
		return o
	}
	return u.runLoop(f, st, label, s.Pos(), &loopGhost{}, guard, body, post, true)
}

func (u *Unit) rangeStmt(f *Frame, st *State, s *ast.RangeStmt, label string) *State {
	c := u.c
	xt := u.typeOf(f, s.X)
	x, st := u.ev(f, st, s.X)
	if !live(st) {
		return nil
	}
	gkey := u.pr.pos(s.Pos()) + "/" + strings.Join(u.stack, ">") + strings.Join(u.sites, ">")
	setVar := func(b *State, e ast.Expr, v *Term, vt types.Type) *State {
		if e == nil {
			return b
		}
		id, ok := e.(*ast.Ident)
		if ok && id.Name == "_" {
			return b
		}
		if s.Tok == token.DEFINE {
			o := f.pkg.info.Defs[id]
			if elemOf(o.Type()) != nil {
				u.taint[o] = true
			}
			b.vars[vkey{f, o}] = v
			return b
		}
		return u.assign(f, b, e, u.convert(b, v, vt, u.typeOf(f, e)))
	}
	if p, ok := xt.Underlying().(*types.Pointer); ok {
		x = u.loadPtr(st, x, p.Elem())
		xt = p.Elem()
	}
	if kt, vt, ok := mapParts(xt); ok {
		u.useMap(st, x, xt, false)
		return u.mapLoop(f, st, label, s.Pos(), x, xt, kt, vt, func(b *State, k, v *Term) *State {
			b = setVar(b, s.Key, k, kt)
			if live(b) {
				b = setVar(b, s.Value, v, vt)
			}
			if !live(b) {
				return nil
			}
			return u.block(f, b, s.Body.List)
		})
	}
	if _, isF := xt.Underlying().(*types.Signature); isF {
		unsup("range over function")
	}
	if x.sort == SStr {
		unsup("range over string")
	}
	kObj := ghostObj("k@"+gkey, types.Typ[types.Int])
	kk := vkey{f, kObj}
	st.vars[kk] = c.Int(0)
	if x.sort == SInt {
		g := &loopGhost{kObj: kObj}
		guard := func(h *State) (*State, *State) { return u.branch(h, c.Lt(h.vars[kk], x)) }
		body := func(b *State) *State {
			u.assume(b, c.Le(c.Int(0), b.vars[kk]))
			b = setVar(b, s.Key, b.vars[kk], types.Typ[types.Int])
			return u.block(f, b, s.Body.List)
		}
		post := func(o *State) *State { o.vars[kk] = c.Add(o.vars[kk], c.Int(1)); return o }
		return u.runLoop(f, st, label, s.Pos(), g, guard, body, post, false)
	}
	et := elemOf(xt)
	if et == nil {
		unsup("range over %v", xt)
	}
	n := u.seqLen(x)
	g := &loopGhost{s: x, kObj: kObj, elem: et}
	guard := func(h *State) (*State, *State) {
		k := h.vars[kk]
		u.assume(h, c.And(c.Le(c.Int(0), k), c.Le(k, n)))
		b, e := u.branch(h, c.Lt(k, n))
		if live(e) {
			u.assume(e, c.And(c.Eq(k, n), c.Eq(u.take(x, k), x)))
		}
		return b, e
	}
	body := func(b *State) *State {
		k := b.vars[kk]
		u.assume(b, c.Eq(u.take(x, c.Add(k, c.Int(1))), u.seqBuild(u.take(x, k), u.seqAt(x, k))))
		b = setVar(b, s.Key, k, types.Typ[types.Int])
		if live(b) {
			b = setVar(b, s.Value, u.seqAt(x, k), et)
		}
		if !live(b) {
			return nil
		}
		return u.block(f, b, s.Body.List)
	}
	post := func(o *State) *State { o.vars[kk] = c.Add(o.vars[kk], c.Int(1)); return o }
	return u.runLoop(f, st, label, s.Pos(), g, guard, body, post, false)
}

// mapLoop iterates over the entries of a map in an arbitrary order.
func (u *Unit) mapLoop(f *Frame, st *State, label string, pos token.Pos, m *Term, mt, kt, vt types.Type, body0 func(b *State, k, v *Term) *State) *State {
	c := u.c
	ks := u.sortOf(kt)
	gkey := u.pr.pos(pos) + "/" + strings.Join(u.stack, ">") + strings.Join(u.sites, ">")
	sObj := ghostObj("seen@"+gkey+mangle(ks), &setT{kt})
	sk := vkey{f, sObj}
	st.vars[sk] = c.ConstArr(ArrSort(ks, SBool), c.False())
	dom0 := u.mapDom(st, m, mt)
	g := &loopGhost{m: m, mt: mt, seenObj: sObj, keyT: kt, elem: vt}
	subset := func(a, b *Term) *Term {
		x := c.BVar("x", ks)
		return c.Forall([]*Term{x}, c.Implies(c.Select(a, x), c.Select(b, x)), []*Term{c.Select(a, x)})
	}
	guard := func(h *State) (*State, *State) {
		seen := h.vars[sk]
		dom := u.mapDom(h, m, mt)
		if dom == dom0 {
			u.assume(h, subset(seen, dom))
			u.assume(h, c.Le(u.card(seen), u.card(dom)))
		}
		more := c.Fresh("more", SBool)
		b, e := u.branch(h, more)
		if live(e) {
			x := c.BVar("x", ks)
			if dom == dom0 {
				u.assume(e, c.Eq(seen, dom))
			} else {
				u.note("a key deleted from a map during iteration is not inserted again by the same loop")
				u.assume(e, c.Forall([]*Term{x}, c.Implies(c.And(c.Select(dom, x), c.Select(dom0, x)), c.Select(seen, x)), []*Term{c.Select(dom, x)}, []*Term{c.Select(seen, x)}))
			}
		}
		return b, e
	}
	body := func(b *State) *State {
		seen := b.vars[sk]
		dom := u.mapDom(b, m, mt)
		k := c.Fresh("key", ks)
		u.assume(b, c.And(c.Select(dom, k), c.Not(c.Select(seen, k))))
		for _, w := range u.wfVal(b, k, kt) {
			u.assume(b, w)
		}
		ns := u.name("seen", c.Store(seen, k, c.True()))
		if dom == dom0 {
			u.assume(b, c.Le(u.card(ns), u.card(dom)))
		}
		v := u.zero(vt)
		if u.sortOf(vt) != SUnit {
			v = u.name("val", u.mapRaw(b, m, mt, k))
		}
		b.vars[sk] = ns
		return body0(b, k, v)
	}
	return u.runLoop(f, st, label, pos, g, guard, body, nil, false)
}

// mapForEach: m.ForEach(cb) of the external map containers.
func (u *Unit) mapForEach(f *Frame, st *State, e *ast.CallExpr, m *Term, mt types.Type, cb *Term) ([]*Term, *State) {
	kt, vt, _ := isIMap(mt)
	fv := u.fnOf(cb)
	if fv == nil {
		unsup("ForEach with unknown callback")
	}
	ctlf := f
	out := u.mapLoop(f, st, "", e.Pos(), m, mt, kt, vt, func(b *State, k, v *Term) *State {
		sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)
		rs, b := u.callFnVal(f, b, cb, sig, []*Term{k, v})
		if !live(b) {
			return nil
		}
		goOn, stop := u.branch(b, rs[0])
		if live(stop) {
			ctl := ctlf.ctl[len(ctlf.ctl)-1]
			ctl.breaks = append(ctl.breaks, stop)
		}
		if !live(goOn) {
			return nil
		}
		return goOn
	})
	return nil, out
}

// ---------- invariant hints ----------

type bindVar struct {
	name string
	k    vkey
}

// scopeVars lists variables visible at pos in the frame chain of f (innermost first) and of the unit's own frame.
func (u *Unit) scopeVars(f *Frame, st *State, pos token.Pos) []vkey {
	var out []vkey
	inChain := map[*Frame]int{}
	d := 0
	for g := f; g != nil; g = g.parent {
		inChain[g] = d
		d++
	}
	for k := range st.vars {
		if strings.HasPrefix(k.v.Name(), "#") {
			continue
		}
		if _, ok := inChain[k.f]; ok {
			if p := k.v.Parent(); p != nil && pos.IsValid() && !p.Contains(pos) && k.v.Pos() != token.NoPos {
				// parameters live in the function scope, which contains the body
				continue
			}
			if k.v.Pos() > pos && pos.IsValid() {
				continue
			}
			out = append(out, k)
		} else if k.f == u.frame0 || u.frame0 != nil && u.isAnc(u.frame0, k.f) {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, aok := inChain[out[i].f]
		b, bok := inChain[out[j].f]
		if !aok {
			a = 1000
		}
		if !bok {
			b = 1000
		}
		if a != b {
			return a < b
		}
		if out[i].v.Pos() != out[j].v.Pos() {
			return out[i].v.Pos() > out[j].v.Pos() // later declarations shadow
		}
		return out[i].v.Name() < out[j].v.Name()
	})
	return out
}

func (u *Unit) isAnc(f, anc *Frame) bool {
	for g := f; g != nil; g = g.parent {
		if g == anc {
			return true
		}
	}
	return false
}

// bindings enumerates metavariable assignments.
func (u *Unit) bindings(e *SEnv, any []QVar, f *Frame, st *State, pos token.Pos) []map[string]vkey {
	out := []map[string]vkey{{}}
	if len(any) == 0 {
		return out
	}
	vars := u.scopeVars(f, st, pos)
	// a metavariable named like a variable in scope of the same type stands for it
	fixed := map[string]vkey{}
	taken := map[vkey]bool{}
	for _, q := range any {
		t, err := e.tryType(q.typ)
		if err != nil {
			return nil
		}
		for _, k := range vars {
			if !u.free && k.v.Name() == q.name && sameShape(u.varType(k), t) {
				u.bound = true
				fixed[q.name] = k
				taken[k] = true
			}
		}
	}
	for _, q := range any {
		t, err := e.tryType(q.typ)
		if err != nil {
			return nil
		}
		bt, basic := t.Underlying().(*types.Basic)
		num := basic && bt.Info()&types.IsInteger != 0
		var nx []map[string]vkey
		for _, b := range out {
			for _, k := range vars {
				if !sameShape(u.varType(k), t) {
					continue
				}
				if fk, ok := fixed[q.name]; ok && fk != k || !ok && taken[k] {
					continue
				} else if !ok && num && !u.assigned(k) {
					continue // a number that never changes needs no invariant
				}
				dup := false
				for _, o := range b {
					if o == k {
						dup = true
					}
				}
				if dup {
					continue
				}
				nb := map[string]vkey{}
				for n, v := range b {
					nb[n] = v
				}
				nb[q.name] = k
				nx = append(nx, nb)
				if len(nx) > 1000 {
					break
				}
			}
		}
		out = nx
	}
	// variables declared in the order of the metavariables first
	inv := func(b map[string]vkey) int {
		n := 0
		for i := range any {
			for j := i + 1; j < len(any); j++ {
				x, y := b[any[i].name], b[any[j].name]
				if x.f == y.f && x.v.Pos() > y.v.Pos() {
					n++
				}
			}
		}
		return n
	}
	sort.SliceStable(out, func(i, j int) bool { return inv(out[i]) < inv(out[j]) })
	most := 48
	if len(any) > 2 {
		most = 12
	}
	if len(out) > most {
		out = out[:most]
	}
	return out
}

// assigned: the variable is assigned after its declaration.
func (u *Unit) assigned(k vkey) bool {
	if k.f == nil || k.f.fi == nil || k.f.fi.decl.Body == nil {
		return true
	}
	m, ok := assignedVars[k.f.fi]
	if !ok {
		m = map[types.Object]bool{}
		info := k.f.pkg.info
		use := func(e ast.Expr) {
			if id, ok := ast.Unparen(e).(*ast.Ident); ok {
				if o := info.Uses[id]; o != nil {
					m[o] = true
				}
			}
		}
		ast.Inspect(k.f.fi.decl.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					use(l)
				}
			case *ast.IncDecStmt:
				use(x.X)
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if l != nil {
						use(l)
						if id, ok := l.(*ast.Ident); ok && info.Defs[id] != nil {
							m[info.Defs[id]] = true
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					use(x.X)
				}
			}
			return true
		})
		assignedVars[k.f.fi] = m
	}
	return m[k.v]
}

var assignedVars = map[*FuncInfo]map[types.Object]bool{}

// localBindings: inside an inlined helper, metavariables also stand for the
// helper's own variables, whatever their names.
func (u *Unit) localBindings(e *SEnv, any []QVar, f *Frame, st *State, pos token.Pos, have []map[string]vkey) []map[string]vkey {
	var own []vkey
	for _, k := range u.scopeVars(f, st, pos) {
		if k.f == f {
			own = append(own, k)
		}
	}
	out := []map[string]vkey{{}}
	for _, q := range any {
		t, err := e.tryType(q.typ)
		if err != nil {
			return nil
		}
		var nx []map[string]vkey
		for _, b := range out {
			for _, k := range own {
				dup := !sameShape(u.varType(k), t)
				for _, o := range b {
					dup = dup || o == k
				}
				if dup || len(nx) >= 12 {
					continue
				}
				nb := map[string]vkey{q.name: k}
				for n, v := range b {
					nb[n] = v
				}
				nx = append(nx, nb)
			}
		}
		out = nx
	}
	var res []map[string]vkey
next:
	for _, b := range out {
		for _, h := range have {
			same := true
			for n, v := range b {
				same = same && h[n] == v
			}
			if same {
				continue next
			}
		}
		res = append(res, b)
	}
	return res
}

// sameShape: identical types, a Go map and a map container counting as the same
func sameShape(a, b types.Type) bool {
	if types.Identical(a, b) {
		return true
	}
	ka, va, oka := mapParts(a)
	kb, vb, okb := mapParts(b)
	return oka && okb && types.Identical(ka, kb) && types.Identical(va, vb)
}

func bindText(b map[string]vkey) string {
	s := ""
	for _, n := range sortedKeys(b) {
		s += " " + n + "=" + b[n].v.Name()
	}
	return s
}

func (u *Unit) hintCands(f *Frame, st *State, key string, pos token.Pos) []*cand {
	var out []*cand
	for ci, con := range u.hintCons {
		if u.track && len(con.modes) == 0 { // ownership units need no functional invariants
			continue
		}
		for i, cl := range con.invs {
			e0 := u.loopEnv(f, st, pos)
			used := map[string]int{}
			bs := u.bindings(e0, cl.any, f, st, pos)
			if f != u.frame0 && f.lit == nil && !u.free && len(cl.any) > 0 && len(cl.any) <= 2 {
				bs = append(bs, u.localBindings(e0, cl.any, f, st, pos, bs)...)
			}
			for _, b := range bs {
				b := b
				cl := cl
				bt := bindText(b)
				if used[bt]++; used[bt] > 1 { // variables of the same name in different frames
					bt += "#" + itoa(used[bt])
				}
				out = append(out, &cand{key: key + "|h" + itoa(ci) + "." + itoa(i) + bt, text: cl.src + bindText(b), eval: func(s *State) (*Term, error) {
					e := u.loopEnv(f, s, pos)
					for n, k := range b {
						if v, ok := s.vars[k]; ok {
							e.names[n] = SVal{v, u.varType(k)}
						}
					}
					e.metavars = b
					return e.tryBool(cl.e)
				}})
			}
		}
	}
	return out
}

// loopTermination: some variant decreases on every iteration and is bounded below.
func (u *Unit) loopTermination(f *Frame, head, cont *State, pos token.Pos, guardTerm *Term, fresh0 int) {
	c := u.c
	var alts []*Term
	lex := func(a, b []*Term) *Term { // b < a lexicographically, a >= 0
		var or []*Term
		for i := range a {
			var and []*Term
			for j := 0; j < i; j++ {
				and = append(and, c.Eq(a[j], b[j]))
			}
			and = append(and, c.Lt(b[i], a[i]), c.Le(c.Int(0), a[i]))
			or = append(or, c.And(and...))
		}
		return c.Or(or...)
	}
	for _, con := range u.hintCons {
		for _, v := range con.variants {
			e0 := u.loopEnv(f, head, pos)
			for _, b := range u.bindings(e0, v.any, f, head, pos) {
				ok := true
				get := func(s *State) []*Term {
					e := u.loopEnv(f, s, pos)
					for n, k := range b {
						if t, has := s.vars[k]; has {
							e.names[n] = SVal{t, u.varType(k)}
						}
					}
					var ts []*Term
					for _, x := range v.es {
						t, err := e.tryTerm(x)
						if err != nil || t.t.sort != SInt {
							ok = false
							return nil
						}
						ts = append(ts, t.t)
					}
					return ts
				}
				a := get(head)
				if !ok {
					continue
				}
				bb := get(cont)
				if !ok {
					continue
				}
				alts = append(alts, lex(a, bb))
			}
		}
	}
	// automatic: differences of a growing int variable against the guard bound, or a shrinking length
	vars := u.scopeVars(f, head, pos)
	for _, k := range vars {
		a, b := head.vars[k], cont.vars[k]
		if b == nil || a == b {
			continue
		}
		if _, isB := u.varType(k).Underlying().(*types.Basic); isB && a.sort == SInt {
			alts = append(alts, c.And(c.Lt(b, a), c.Le(c.Int(0), a)))
		} else if elemOf(u.varType(k)) != nil {
			alts = append(alts, c.Lt(u.seqLen(b), u.seqLen(a)))
		}
	}
	for _, bd := range u.guardBounds(head, cont, guardTerm, fresh0) {
		alts = append(alts, bd)
	}
	u.curPos = pos
	// one variant has to decrease on every iteration: alternatives of one group
	u.groups++
	gid := "g" + itoa(u.groups)
	seen := map[*Term]bool{}
	if len(alts) == 0 {
		alts = append(alts, c.False())
	}
	for _, a := range alts {
		if seen[a] {
			continue
		}
		seen[a] = true
		if o := u.oblige(cont, "term", "loop terminates (variant decreases)", a); o != nil {
			o.group = gid
		}
	}
}

// guardBounds: for guards of the shape i < n with n unchanged, n - i decreases.
func (u *Unit) guardBounds(head, cont *State, g *Term, fresh0 int) []*Term {
	c := u.c
	if g == nil {
		return nil
	}
	for i := 0; i < 3; i++ {
		if d, ok := u.defs[g]; ok {
			g = d
		}
	}
	var out []*Term
	for _, a := range conjuncts(g) {
		if a.op != "<" {
			continue
		}
		for k, v := range head.vars {
			if v == a.args[0] && u.stableTerm(a.args[1], fresh0) && cont.vars[k] != nil && cont.vars[k] != v {
				out = append(out, c.And(c.Lt(v, cont.vars[k]), c.Lt(v, a.args[1])))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
