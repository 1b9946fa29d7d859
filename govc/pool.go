package main

import (
	"go/ast"
	"go/types"
	"strings"
)

// The wrappers around sync.Pool. Outside package utils a pool is used through
// its contract (poolCall): Get hands out a buffer nobody else holds (slices:
// empty), Put takes it back. Inside utils the wrappers are checked against that
// contract over a model of sync.Pool itself: Get returns one of the values that
// were Put or made by New, and no value twice unless it was Put again.

// poolItem: what the pools inside a wrapper type hold.
func poolItem(t types.Type) types.Type {
	b, _ := derefNamed(t)
	n, ok := types.Unalias(b).(*types.Named)
	if !ok || n.TypeArgs() == nil || n.TypeArgs().Len() != 1 || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/utils") {
		return nil
	}
	if n.Obj().Name() == "SlicePool" {
		return types.NewSlice(n.TypeArgs().At(0))
	}
	return n.TypeArgs().At(0)
}

func isSyncPool(t types.Type) bool {
	b, _ := derefNamed(t)
	n, ok := types.Unalias(b).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Pool"
}

// takenComp: the values this call has taken from a sync.Pool.
func (u *Unit) takenComp(sort string) *compInfo {
	return u.comp(&compInfo{name: "X!taken." + sort, sort: ArrSort(sort, SBool), kind: "X"})
}

func (u *Unit) syncPoolCall(f *Frame, st *State, e *ast.CallExpr, se *ast.SelectorExpr, fn *types.Func) ([]*Term, *State) {
	c := u.c
	ps, ok := ast.Unparen(se.X).(*ast.SelectorExpr)
	if !ok {
		unsup("sync.Pool outside a wrapper")
	}
	it := poolItem(u.typeOf(f, ps.X))
	if it == nil {
		unsup("sync.Pool outside a wrapper")
	}
	owner, st := u.ev(f, st, ps.X)
	if _, ok := u.typeOf(f, ps.X).Underlying().(*types.Pointer); ok {
		u.nonNil(st, owner)
	}
	u.note("sync.Pool.Get returns a value that was Put or made by New, and no value twice unless it was Put again")
	item := u.sortOf(it)
	switch fn.Name() {
	case "Get":
		x := c.Fresh("pooled", item)
		if elemOf(it) != nil {
			u.assume(st, c.Eq(u.seqLen(x), c.Int(0)))
		}
		if u.track {
			if elemOf(it) != nil {
				b := u.H(st, u.comp(&compInfo{name: "X!bufs", sort: SInt, kind: "X"}))
				u.assume(st, c.Eq(u.buf(x), b))
				u.assume(st, c.Lt(c.Int(0), b))
				st.heap["X!bufs"] = c.Add(b, c.Int(1))
				u.logWrite(u.comps["X!bufs"], nil)
			}
			tc := u.takenComp(item)
			h := u.H(st, tc)
			u.logWrite(tc, nil)
			u.setH(st, tc, c.Store(h, x, c.True()))
		}
		return []*Term{u.box(x, it)}, st
	case "Put":
		v, st := u.ev(f, st, e.Args[0])
		v = u.convert(st, v, u.typeOf(f, e.Args[0]), types.NewInterfaceType(nil, nil))
		u.check(st, "own", "what is put into the pool has the type Get asserts", u.hasType(v, it))
		x := u.unbox(v, it)
		if elemOf(it) != nil {
			u.check(st, "own", "a slice put into the pool is empty", c.Eq(u.seqLen(x), c.Int(0)))
			if u.track {
				ci := u.releasedComp("slices")
				h := u.H(st, ci)
				u.check(st, "own", "buffer returned to the pool twice", c.Not(c.Select(h, u.buf(x))))
				u.logWrite(ci, nil)
				u.setH(st, ci, c.Store(h, u.buf(x), c.True()))
			}
		} else if u.track {
			ci := u.comp(&compInfo{name: "X!putval." + item, sort: ArrSort(item, SBool), kind: "X"})
			h := u.H(st, ci)
			u.check(st, "own", "buffer returned to the pool twice", c.Not(c.Select(h, x)))
			u.logWrite(ci, nil)
			u.setH(st, ci, c.Store(h, x, c.True()))
		}
		return nil, st
	}
	unsup("sync.Pool.%s", fn.Name())
	return nil, nil
}

// poolInit: what New makes satisfies what Get promises.
func (u *Unit) poolInit(f *Frame, st *State, cl *ast.CompositeLit, owner types.Type) *State {
	it := poolItem(substT(owner, f.tsub))
	if it == nil {
		unsup("sync.Pool outside a wrapper")
	}
	found := false
	for _, el := range cl.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok || kv.Key.(*ast.Ident).Name != "New" {
			unsup("sync.Pool literal")
		}
		found = true
		fv, st1 := u.ev(f, st, kv.Value)
		sig := u.typeOf(f, kv.Value).Underlying().(*types.Signature)
		// New runs whenever the pool is empty, in any later state
		rs, s2 := u.callFnVal(f, st1.clone(), fv, sig, nil)
		if !live(s2) {
			unsup("New of a pool does not return")
		}
		v := rs[0]
		u.check(s2, "own", "New of the pool makes a value of the type Get asserts", u.hasType(v, it))
		if elemOf(it) != nil {
			u.check(s2, "own", "New of the pool makes an empty slice", u.c.Eq(u.seqLen(u.unbox(v, it)), u.c.Int(0)))
		}
		st = st1
	}
	u.check(st, "own", "the pool can make a value when it is empty", u.c.Bool(found))
	return st
}

// poolReturn: a wrapper's Get hands out what it took from the pool, and what Put
// puts back is its argument.
func (u *Unit) poolReturn(st *State, vals []*Term) {
	if !u.track {
		return
	}
	sig := u.fi.obj.Type().(*types.Signature)
	if sig.Recv() == nil {
		return
	}
	it := poolItem(sig.Recv().Type())
	if it == nil {
		return
	}
	c := u.c
	item := u.sortOf(it)
	if len(vals) == 1 && vals[0].sort == item {
		u.oblige(st, "own", "the result was taken from the pool by this call", c.Select(u.H(st, u.takenComp(item)), vals[0]))
		if ci, ok := u.comps["X!putval."+item]; ok {
			u.oblige(st, "own", "the result is not in the pool", c.Not(c.Select(u.H(st, ci), vals[0])))
		}
	}
}
