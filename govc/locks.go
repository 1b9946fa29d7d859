package main

// Lock discipline: ghost lock states and guarded-field obligations.

import (
	"go/ast"
	"go/types"
	"strings"
)

// guards: struct type key -> field -> mutex field of the same struct.
var guards = map[string]map[string]string{
	"v2.Authorizer": {"userRoles": "m", "userRoleMap": "m", "tenants": "m", "parentCache": "m", "defaultTenant": "m"},
	"v2.RoleDAG":    {"roles": "mu", "edges": "mu", "resolved": "mu"},
	"v2.Role":       {"Permissions": "m"},
	"v2.Tenant":     {"Namespaces": "m", "ChildTenants": "m", "DefaultNS": "m"},
}

// guardsVia: fields of objects that belong to a guarded container: access needs
// the container's lock when the object was obtained from it.
var guardsVia = map[string]map[string]bool{
	"v2.Namespace": {"Scopes": true},
}

func (u *Unit) lockComp(structT types.Type, f *types.Var) *compInfo {
	return u.comp(&compInfo{name: "L!" + typeKey(structT) + "!" + f.Name(), sort: ArrSort(SInt, SInt), kind: "L", owner: "ptr." + typeKey(structT)})
}

func (u *Unit) mutexField(structT types.Type, name string) *types.Var {
	for _, f := range u.structFields(structT) {
		if f.Name() == name && isMutex(f.Type()) {
			return f
		}
	}
	// renamed mutex: the only one
	var only *types.Var
	n := 0
	for _, f := range u.structFields(structT) {
		if isMutex(f.Type()) {
			only = f
			n++
		}
	}
	if n == 1 {
		return only
	}
	return nil
}

func (u *Unit) mutexCall(f *Frame, st *State, se *ast.SelectorExpr, path []int, name string) ([]*Term, *State) {
	c := u.c
	if !u.locks {
		if name == "TryLock" || name == "TryRLock" {
			unsup("TryLock")
		}
		return nil, st
	}
	// locate owner pointer and field
	var owner *Term
	var ownerT types.Type
	var fld *types.Var
	if len(path) > 1 {
		// embedded mutex: se.X is the owner
		xt := u.typeOf(f, se.X)
		p, ok := xt.Underlying().(*types.Pointer)
		if !ok || len(path) != 2 {
			unsup("embedded mutex path")
		}
		owner, st = u.ev(f, st, se.X)
		ownerT = p.Elem()
		fld = u.structFields(ownerT)[path[0]]
	} else {
		in, ok := ast.Unparen(se.X).(*ast.SelectorExpr)
		if !ok {
			unsup("mutex expression at %s", u.pr.pos(se.Pos()))
		}
		sel := f.pkg.info.Selections[in]
		if sel == nil || len(sel.Index()) != 1 {
			unsup("mutex expression at %s", u.pr.pos(se.Pos()))
		}
		xt := u.typeOf(f, in.X)
		p, ok := xt.Underlying().(*types.Pointer)
		if !ok {
			unsup("mutex of a value at %s", u.pr.pos(se.Pos()))
		}
		owner, st = u.ev(f, st, in.X)
		ownerT = p.Elem()
		fld = u.structFields(ownerT)[sel.Index()[0]]
	}
	u.nonNil(st, owner)
	ci := u.lockComp(ownerT, fld)
	h := u.H(st, ci)
	cur := c.Select(h, owner)
	set := func(v *Term) {
		u.logWrite(ci, owner)
		u.setH(st, ci, c.Store(h, owner, v))
	}
	what := typeKey(ownerT) + "." + fld.Name()
	switch name {
	case "Lock":
		u.check(st, "lock", what+" is not already held (self-deadlock)", c.Eq(cur, c.Int(0)))
		set(c.Int(-1))
	case "Unlock":
		u.check(st, "lock", what+" is held for writing when unlocked", c.Eq(cur, c.Int(-1)))
		set(c.Int(0))
	case "RLock":
		u.check(st, "lock", what+" is not held for writing (self-deadlock)", c.Le(c.Int(0), cur))
		set(c.Add(cur, c.Int(1)))
	case "RUnlock":
		u.check(st, "lock", what+" is held for reading when read-unlocked", c.Lt(c.Int(0), cur))
		set(c.Sub(cur, c.Int(1)))
	default:
		unsup("mutex method %s", name)
	}
	return nil, st
}

func (u *Unit) lockState(st *State, p *Term, t types.Type) *Term {
	pt := t.Underlying().(*types.Pointer).Elem()
	mf := u.mutexField(pt, "m")
	return u.c.Select(u.H(st, u.lockComp(pt, mf)), p)
}

// lockUse: access to a guarded field.
func (u *Unit) lockUse(st *State, p *Term, structT types.Type, i int, write bool) {
	if !u.locks || u.inSpec > 0 {
		return
	}
	u.lockNeed(st, p, structT, u.structFields(structT)[i].Name(), write)
}

func (u *Unit) lockNeed(st *State, p *Term, structT types.Type, field string, write bool) {
	if guardsVia[typeKey(structT)][field] {
		if q, sk, fld, ok := u.provenance(p); ok {
			if t := u.structNamed(sk); t != nil {
				u.lockNeed(st, q, t, fld, write)
			}
		}
		return
	}
	g := guards[typeKey(structT)]
	if g == nil {
		return
	}
	mu, ok := g[field]
	if !ok {
		return
	}
	mf := u.mutexField(structT, mu)
	if mf == nil {
		u.oblige(st, "lock", typeKey(structT)+"."+field+" has a guarding lock", u.c.False())
		return
	}
	c := u.c
	cur := c.Select(u.H(st, u.lockComp(structT, mf)), p)
	fresh := c.Le(u.next(u.entry, "ptr."+typeKey(structT)), p)
	if write {
		u.check(st, "lock", "write of "+typeKey(structT)+"."+field+" happens under the write lock", c.Or(fresh, c.Eq(cur, c.Int(-1))))
	} else {
		u.check(st, "lock", "read of "+typeKey(structT)+"."+field+" happens under the lock", c.Or(fresh, c.Not(c.Eq(cur, c.Int(0)))))
	}
}

// provenance of a map reference: the guarded field it was read from.
func (u *Unit) provenance(m *Term) (p *Term, structKey, field string, ok bool) {
	return u.provenanceN(m, 6)
}

func (u *Unit) strip(m *Term) *Term {
	for i := 0; i < 40; i++ {
		if d, has := u.defs[m]; has {
			m = d
			continue
		}
		if m.op == "store" {
			m = m.args[0]
			continue
		}
		break
	}
	return m
}

func (u *Unit) provenanceN(m *Term, n int) (p *Term, structKey, field string, ok bool) {
	if n == 0 {
		return nil, "", "", false
	}
	for i := 0; i < 12; i++ {
		if d, has := u.defs[m]; has {
			m = d
			continue
		}
		break
	}
	if m.op == "ite" {
		for _, x := range m.args[1:] {
			if p, sk, f, ok := u.provenanceN(x, n-1); ok {
				return p, sk, f, true
			}
		}
		return nil, "", "", false
	}
	if m.op == "select" {
		h := u.strip(m.args[0])
		// value of a map: provenance of that map
		if h.op == "select" && strings.HasPrefix(u.strip(h.args[0]).op, "V!") {
			return u.provenanceN(h.args[1], n-1)
		}
		nm := h.op
		if k := strings.LastIndexAny(nm, "@!"); strings.HasPrefix(nm, "F!") && k > 2 {
			parts := strings.Split(nm[2:k], "!")
			if len(parts) >= 2 {
				return m.args[1], parts[0], parts[1], true
			}
		}
	}
	return nil, "", "", false
}

func (u *Unit) lockMapUse(st *State, m *Term, mt types.Type, write bool) {
	if u.inSpec > 0 {
		return
	}
	p, sk, fld, ok := u.provenance(m)
	if !ok {
		return
	}
	if t := u.structNamed(sk); t != nil {
		u.lockNeed(st, p, t, fld, write)
	}
}

func (u *Unit) structNamed(sk string) types.Type {
	for _, pk := range u.pr.pkgs {
		if !strings.HasPrefix(sk, pk.name+".") {
			continue
		}
		if o := pk.types.Scope().Lookup(strings.TrimPrefix(sk, pk.name+".")); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (u *Unit) lockEntry(st *State) {
	c := u.c
	for _, sk := range sortedKeys(guards) {
		i := strings.IndexByte(sk, '.')
		pk := u.pr.pkgByName(sk[:i])
		if pk == nil {
			continue
		}
		o := pk.types.Scope().Lookup(sk[i+1:])
		if o == nil {
			continue
		}
		for _, f := range u.structFields(o.Type()) {
			if !isMutex(f.Type()) {
				continue
			}
			ci := u.lockComp(o.Type(), f)
			r := c.BVar("r", SInt)
			sel := c.Select(u.H(st, ci), r)
			u.fact(c.Forall([]*Term{r}, c.Eq(sel, c.Int(0)), []*Term{sel}))
		}
	}
}

func (u *Unit) lockExit(st *State) {
	c := u.c
	for _, k := range sortedKeys(st.heap) {
		ci := u.comps[k]
		if ci.kind != "L" {
			continue
		}
		r := c.Fresh("lk", SInt)
		g := c.And(c.Lt(c.Int(0), r), c.Lt(r, u.next(st, ci.owner)))
		u.oblige(st, "lock", "every acquired lock is released on return: "+k[2:], c.Implies(g, c.Eq(c.Select(u.H(st, ci), r), c.Int(0))))
	}
}
