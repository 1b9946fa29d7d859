package v1_test

import (
	"fmt"
	"sort"
	"strings"

	v1 "github.com/oarkflow/permission/v1"
)

// A random v1 world: the real objects next to plain data that records what the
// properties say each call does.

func mMatch(v, p string) bool {
	sep := func(c byte) bool { return c == '/' || c == ' ' }
	var m func(i, j int) bool
	m = func(i, j int) bool {
		switch {
		case j == len(p):
			return i == len(v)
		case p[j] == '*':
			for k := i; k <= len(v); k++ {
				if m(k, j+1) {
					return true
				}
			}
			return false
		case p[j] == ':':
			e := j + 1
			for e < len(p) && !sep(p[e]) {
				e++
			}
			for k := i + 1; k <= len(v) && !sep(v[k-1]); k++ {
				if m(k, e) {
					return true
				}
			}
			return false
		}
		return i < len(v) && v[i] == p[j] && m(i+1, j+1)
	}
	return m(0, 0)
}

type mGroup struct {
	real  *v1.AttributeGroup
	id    string
	perms map[string][2]string
}
type mRole struct {
	real   *v1.Role
	id     string
	lock   bool
	groups map[string]*mGroup
	desc   map[string]*mRole
}
type mNs struct {
	real   *v1.Namespace
	id     string
	roles  map[string]bool
	scopes map[string]bool
}
type mTen struct {
	real   *v1.Tenant
	id     string
	linked bool
	ns     map[string]*mNs
	roles  map[string]*mRole
	scopes map[string]*v1.Scope
	desc   map[string]*mTen
	def    *mNs
}
type mAttr struct {
	real *v1.Attribute
	r, a string
}

func (a mAttr) key() string { return a.r + " " + a.a }

type world struct {
	h      *vh
	m      *v1.RoleManager
	ops    []string
	msg    string
	tens   []*mTen
	nss    []*mNs
	scopes []*v1.Scope
	roles  []*mRole
	groups []*mGroup
	attrs  []mAttr
	prins  []*v1.Principal

	rTen   map[string]*mTen
	rNs    map[string]*mNs
	rScope map[string]*v1.Scope
	rRole  map[string]*mRole
	rGroup map[string]*mGroup
	rAttr  map[string]*v1.Attribute
	rPrin  map[string]*v1.Principal
	rows   map[v1.TenantPrincipal]bool

	ids   []string // identifiers of tenants, principals, roles, scopes
	nsIDs []string
	dense bool // everything registered, most tenants with all namespaces, roles and scopes, most permissions in one group
}

var plainIDs = []string{"a", "b", "c", "d"}
var oddIDs = []string{"a", "b", "a:b", "a b", "b ", "\"", "a,b", "{}", "\n", "\x00", "a/b", "*", "ü"}

func newWorld(h *vh, ids []string) *world {
	w := &world{h: h, m: v1.New(), ids: ids,
		rTen: map[string]*mTen{}, rNs: map[string]*mNs{}, rScope: map[string]*v1.Scope{}, rRole: map[string]*mRole{},
		rGroup: map[string]*mGroup{}, rAttr: map[string]*v1.Attribute{}, rPrin: map[string]*v1.Principal{}, rows: map[v1.TenantPrincipal]bool{}}
	w.nsIDs = ids
	return w
}

func (w *world) op(f string, args ...any) { w.ops = append(w.ops, fmt.Sprintf(f, args...)) }
func (w *world) fail(f string, args ...any) {
	if w.msg == "" {
		w.msg = fmt.Sprintf(f, args...)
	}
}
func (w *world) id() string { return w.h.pick(w.ids...) }
func (w *world) group() string {
	if w.dense && w.h.rng.Intn(4) > 0 {
		return "g"
	}
	return w.h.pick("g", "h", "")
}

var resources = []string{"/x", "/x/y", "/*", "/x/:id", "/:a", "*", "/z"}
var actions = []string{"GET", "PUT", "*", ":m", ""}

func (r *mRole) all() map[*mRole]bool {
	out := map[*mRole]bool{}
	var walk func(x *mRole)
	walk = func(x *mRole) {
		for _, d := range x.desc {
			if !out[d] {
				out[d] = true
				walk(d)
			}
		}
	}
	walk(r)
	return out
}
func (t *mTen) all() map[*mTen]bool {
	out := map[*mTen]bool{}
	var walk func(x *mTen)
	walk = func(x *mTen) {
		for _, d := range x.desc {
			if !out[d] {
				out[d] = true
				walk(d)
			}
		}
	}
	walk(t)
	return out
}
func (r *mRole) own(g, p string) bool {
	grp := r.groups[g]
	if grp == nil {
		return false
	}
	for q := range grp.perms {
		if q == p || mMatch(p, q) {
			return true
		}
	}
	return false
}
func (r *mRole) has(g, p string, allowed []string) bool {
	seen := map[*mRole]bool{}
	var f func(x *mRole) bool
	f = func(x *mRole) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x.groups[g] == nil {
			return false
		}
		if x.own(g, p) {
			return true
		}
		for d := range x.all() {
			ok := len(allowed) == 0
			for _, a := range allowed {
				ok = ok || a == d.id
			}
			if ok && f(d) {
				return true
			}
		}
		return false
	}
	return f(r)
}

func (w *world) row(t, p, r, n, s string, md bool) {
	w.rows[v1.TenantPrincipal{TenantID: t, PrincipalID: p, RoleID: r, NamespaceID: n, ScopeID: s, CanManageDescendants: md}] = true
}

// new objects
func (w *world) mkTenant() *mTen {
	id := w.id()
	t := &mTen{real: v1.NewTenant(id), id: id, ns: map[string]*mNs{}, roles: map[string]*mRole{}, scopes: map[string]*v1.Scope{}, desc: map[string]*mTen{}}
	w.op("T%d := NewTenant(%q)", len(w.tens), id)
	w.tens = append(w.tens, t)
	return t
}
func (w *world) mkNs() *mNs {
	id := w.h.pick(w.nsIDs...)
	n := &mNs{real: v1.NewNamespace(id), id: id, roles: map[string]bool{}, scopes: map[string]bool{}}
	w.op("N%d := NewNamespace(%q)", len(w.nss), id)
	w.nss = append(w.nss, n)
	return n
}
func (w *world) mkScope() *v1.Scope {
	s := v1.NewScope(w.id())
	w.op("S%d := NewScope(%q)", len(w.scopes), s.ID())
	w.scopes = append(w.scopes, s)
	return s
}
func (w *world) mkRole() *mRole {
	id := w.id()
	r := &mRole{real: v1.NewRole(id), id: id, groups: map[string]*mGroup{}, desc: map[string]*mRole{}}
	w.op("R%d := NewRole(%q)", len(w.roles), id)
	w.roles = append(w.roles, r)
	return r
}
func (w *world) mkGroup() *mGroup {
	id := w.group()
	g := &mGroup{real: v1.NewAttributeGroup(id), id: id, perms: map[string][2]string{}}
	w.op("G%d := NewAttributeGroup(%q)", len(w.groups), id)
	w.groups = append(w.groups, g)
	return g
}
func (w *world) mkAttr() mAttr {
	a := mAttr{r: w.h.pick(resources...), a: w.h.pick(actions...)}
	a.real = v1.NewAttribute(a.r, a.a)
	w.op("A%d := NewAttribute(%q, %q)", len(w.attrs), a.r, a.a)
	w.attrs = append(w.attrs, a)
	return a
}
func (w *world) some(n int) []int {
	var out []int
	if n > 0 {
		for i := w.h.rng.Intn(3); i >= 0; i-- {
			out = append(out, w.h.rng.Intn(n))
		}
	}
	return out
}
func (w *world) strs(xs []string) []string {
	var out []string
	for i := w.h.rng.Intn(3); i >= 0; i-- {
		out = append(out, w.h.pick(xs...))
	}
	return out
}

func (w *world) mk() {
	for i := 2 + w.h.rng.Intn(3); i > 0; i-- {
		w.mkTenant()
		w.mkNs()
		w.mkScope()
		w.mkRole()
	}
	for i := 2 + w.h.rng.Intn(2); i > 0; i-- {
		w.mkGroup()
		w.mkAttr()
		w.mkAttr()
	}
}

// one registration
func (w *world) register() {
	rng := w.h.rng
	switch rng.Intn(7) {
	case 0:
		i := rng.Intn(len(w.tens))
		t := w.tens[i]
		w.op("AddTenant(T%d)", i)
		got := w.m.AddTenant(t.real)
		t.linked = true
		if w.rTen[t.id] == nil {
			w.rTen[t.id] = t
		}
		if got != w.rTen[t.id].real {
			w.fail("AddTenant(T%d) returned another tenant than the registered one", i)
		}
		if rng.Intn(3) == 0 {
			ix := w.some(len(w.tens))
			var l []*v1.Tenant
			for _, i := range ix {
				l = append(l, w.tens[i].real)
				w.tens[i].linked = true
				if w.rTen[w.tens[i].id] == nil {
					w.rTen[w.tens[i].id] = w.tens[i]
				}
			}
			w.op("AddTenants(T%v)", ix)
			w.m.AddTenants(l...)
		}
	case 1:
		ix := w.some(len(w.nss))
		var l []*v1.Namespace
		for _, i := range ix {
			l = append(l, w.nss[i].real)
			if w.rNs[w.nss[i].id] == nil {
				w.rNs[w.nss[i].id] = w.nss[i]
			}
		}
		w.op("AddNamespaces(N%v)", ix)
		w.m.AddNamespaces(l...)
		if got := w.m.AddNamespace(l[0]); got != w.rNs[l[0].ID()].real {
			w.fail("AddNamespace returned another namespace than the registered one")
		}
	case 2:
		ix := w.some(len(w.scopes))
		var l []*v1.Scope
		for _, i := range ix {
			l = append(l, w.scopes[i])
			if w.rScope[w.scopes[i].ID()] == nil {
				w.rScope[w.scopes[i].ID()] = w.scopes[i]
			}
		}
		w.op("AddScopes(S%v)", ix)
		w.m.AddScopes(l...)
		if got := w.m.AddScope(l[0]); got != w.rScope[l[0].ID()] {
			w.fail("AddScope returned another scope than the registered one")
		}
	case 3:
		p := v1.NewPrincipal(w.id())
		w.op("AddPrincipal(%q)", p.ID())
		got := w.m.AddPrincipal(p)
		if w.rPrin[p.ID()] == nil {
			w.rPrin[p.ID()] = p
		}
		if got != w.rPrin[p.ID()] {
			w.fail("AddPrincipal returned another principal than the registered one")
		}
		var l []*v1.Principal
		for _, id := range w.strs(w.ids) {
			q := v1.NewPrincipal(id)
			l = append(l, q)
			if w.rPrin[id] == nil {
				w.rPrin[id] = q
			}
			w.op("AddPrincipals(%q)", id)
		}
		w.m.AddPrincipals(l...)
	case 4:
		ix := w.some(len(w.roles))
		var l []*v1.Role
		for _, i := range ix {
			l = append(l, w.roles[i].real)
			if w.rRole[w.roles[i].id] == nil {
				w.rRole[w.roles[i].id] = w.roles[i]
			}
		}
		w.op("AddRoles(R%v)", ix)
		w.m.AddRoles(l...)
		if got := w.m.AddRole(l[0]); got != w.rRole[l[0].ID()].real {
			w.fail("AddRole returned another role than the registered one")
		}
	case 5:
		ix := w.some(len(w.groups))
		var l []*v1.AttributeGroup
		for _, i := range ix {
			l = append(l, w.groups[i].real)
			if w.rGroup[w.groups[i].id] == nil {
				w.rGroup[w.groups[i].id] = w.groups[i]
			}
		}
		w.op("AddAttributeGroups(G%v)", ix)
		w.m.AddAttributeGroups(l...)
		if got := w.m.AddAttributeGroup(l[0]); got != w.rGroup[w.groups[ix[0]].id].real {
			w.fail("AddAttributeGroup returned another group than the registered one")
		}
	case 6:
		ix := w.some(len(w.attrs))
		var l []*v1.Attribute
		for _, i := range ix {
			l = append(l, w.attrs[i].real)
			if w.rAttr[w.attrs[i].key()] == nil {
				w.rAttr[w.attrs[i].key()] = w.attrs[i].real
			}
		}
		w.op("AddAttributes(A%v)", ix)
		w.m.AddAttributes(l...)
		if got := w.m.AddAttribute(l[0]); got != w.rAttr[w.attrs[ix[0]].key()] {
			w.fail("AddAttribute returned another attribute than the registered one")
		}
	}
}

// one change of a role
func (w *world) roleOp() {
	rng := w.h.rng
	i := rng.Intn(len(w.roles))
	r := w.roles[i]
	switch rng.Intn(9) {
	case 0:
		if rng.Intn(3) == 0 {
			w.op("R%d.Lock()", i)
			r.real.Lock()
			r.lock = true
		}
	case 1:
		w.op("R%d.Unlock()", i)
		r.real.Unlock()
		r.lock = false
	case 2, 3:
		ix := w.some(len(w.roles))
		var l []*v1.Role
		bad := r.lock
		for _, j := range ix {
			d := w.roles[j]
			l = append(l, d.real)
			bad = bad || d == r || d.all()[r]
		}
		w.op("R%d.AddDescendent(R%v)", i, ix)
		err := r.real.AddDescendent(l...)
		if (err != nil) != bad {
			w.fail("R%d.AddDescendent(R%v) returned %v, want an error: %v", i, ix, err, bad)
			return
		}
		if !bad {
			for _, j := range ix {
				if r.desc[w.roles[j].id] == nil {
					r.desc[w.roles[j].id] = w.roles[j]
				}
			}
		}
	case 4, 5, 6:
		ix := w.some(len(w.attrs))
		g := w.group()
		var l []*v1.Attribute
		for _, j := range ix {
			l = append(l, w.attrs[j].real)
		}
		w.op("R%d.AddPermission(%q, A%v)", i, g, ix)
		err := r.real.AddPermission(g, l...)
		if (err != nil) != r.lock {
			w.fail("R%d.AddPermission returned %v, locked: %v", i, err, r.lock)
		}
		if !r.lock {
			w.addPerms(r, g, ix)
		}
	case 7:
		j := rng.Intn(len(w.groups))
		g := w.groups[j]
		w.op("R%d.AddPermissionResourceGroup(G%d)", i, j)
		err := r.real.AddPermissionResourceGroup(g.real)
		if (err != nil) != r.lock {
			w.fail("R%d.AddPermissionResourceGroup returned %v, locked: %v", i, err, r.lock)
		}
		if !r.lock && r.groups[g.id] == nil {
			r.groups[g.id] = g
		}
	case 8:
		ix := w.some(len(w.attrs))
		g := w.group()
		var l []*v1.Attribute
		rr := w.rRole[r.id]
		grp := w.rGroup[g]
		ok := rr != nil && grp != nil && !rr.lock
		for _, j := range ix {
			l = append(l, w.attrs[j].real)
			if ok {
				if _, in := grp.perms[w.attrs[j].key()]; !in {
					ok = false
				}
			}
		}
		w.op("AddPermissionsToRole(%q, %q, A%v)", r.id, g, ix)
		err := w.m.AddPermissionsToRole(r.id, g, l...)
		if (err == nil) != ok {
			w.fail("AddPermissionsToRole returned %v, want success: %v", err, ok)
		}
		if ok {
			w.addPerms(rr, g, ix)
		}
	}
}
func (w *world) addPerms(r *mRole, g string, ix []int) {
	if r.groups[g] == nil {
		r.groups[g] = &mGroup{id: g, perms: map[string][2]string{}}
	}
	for _, j := range ix {
		a := w.attrs[j]
		if _, ok := r.groups[g].perms[a.key()]; !ok {
			r.groups[g].perms[a.key()] = [2]string{a.r, a.a}
		}
	}
}
func (w *world) groupOp() {
	j := w.h.rng.Intn(len(w.groups))
	ix := w.some(len(w.attrs))
	w.op("G%d.AddAttributes(A%v)", j, ix)
	var l []*v1.Attribute
	for _, i := range ix {
		l = append(l, w.attrs[i].real)
		w.groups[j].perms[w.attrs[i].key()] = [2]string{w.attrs[i].r, w.attrs[i].a}
	}
	w.groups[j].real.AddAttributes(l...)
}

// one change of a tenant's structure
func (w *world) tenantOp() {
	rng := w.h.rng
	i := rng.Intn(len(w.tens))
	t := w.tens[i]
	switch rng.Intn(9) {
	case 7:
		i := rng.Intn(len(w.nss))
		ix := w.some(len(w.roles))
		var l []*v1.Role
		for _, j := range ix {
			l = append(l, w.roles[j].real)
			w.nss[i].roles[w.roles[j].id] = true
		}
		w.op("N%d.AddRoles(R%v)", i, ix)
		w.nss[i].real.AddRoles(l...)
	case 8:
		i := rng.Intn(len(w.nss))
		ix := w.some(len(w.scopes))
		var l []*v1.Scope
		for _, j := range ix {
			l = append(l, w.scopes[j])
			w.nss[i].scopes[w.scopes[j].ID()] = true
		}
		w.op("N%d.AddScopes(S%v)", i, ix)
		w.nss[i].real.AddScopes(l...)
	case 0:
		ix := w.some(len(w.nss))
		var l []*v1.Namespace
		for _, j := range ix {
			n := w.nss[j]
			l = append(l, n.real)
			if t.ns[n.id] == nil {
				t.ns[n.id] = n
			}
		}
		w.op("T%d.AddNamespace(N%v)", i, ix)
		t.real.AddNamespace(l...)
	case 1:
		n := w.h.pick(w.nsIDs...)
		w.op("T%d.SetDefaultNamespace(%q)", i, n)
		t.real.SetDefaultNamespace(n)
		if t.ns[n] != nil {
			t.def = t.ns[n]
		}
	case 2:
		ix := w.some(len(w.roles))
		var l []*v1.Role
		for _, j := range ix {
			r := w.roles[j]
			l = append(l, r.real)
			if t.roles[r.id] == nil {
				t.roles[r.id] = r
			}
		}
		w.op("T%d.AddRole(R%v)", i, ix)
		t.real.AddRole(l...)
	case 3:
		ix := w.some(len(w.scopes))
		var l []*v1.Scope
		for _, j := range ix {
			s := w.scopes[j]
			l = append(l, s)
			if t.scopes[s.ID()] == nil {
				t.scopes[s.ID()] = s
			}
			if t.def != nil {
				t.def.scopes[s.ID()] = true
			}
		}
		w.op("T%d.AddScopes(S%v)", i, ix)
		t.real.AddScopes(l...)
	case 4:
		n := w.h.pick(w.nsIDs...)
		rs := w.strs(w.ids)
		w.op("T%d.AddRolesToNamespace(%q, %q)", i, n, rs)
		t.real.AddRolesToNamespace(n, rs...)
		for _, r := range rs {
			if t.roles[r] == nil || t.ns[n] == nil {
				break
			}
			t.ns[n].roles[r] = true
		}
	case 5, 6:
		ix := w.some(len(w.tens))
		var l []*v1.Tenant
		bad := false
		for _, j := range ix {
			d := w.tens[j]
			l = append(l, d.real)
			bad = bad || d == t || d.all()[t]
		}
		w.op("T%d.AddDescendent(T%v)", i, ix)
		err := t.real.AddDescendent(l...)
		if (err != nil) != bad {
			w.fail("T%d.AddDescendent(T%v) returned %v, want an error: %v", i, ix, err, bad)
			return
		}
		if !bad {
			for _, j := range ix {
				if t.desc[w.tens[j].id] == nil {
					t.desc[w.tens[j].id] = w.tens[j]
				}
			}
		}
	}
}

// one assignment
func (w *world) assignOp() {
	rng := w.h.rng
	var c []int
	for i, t := range w.tens {
		if t.linked {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		w.register()
		return
	}
	i := c[rng.Intn(len(c))]
	t := w.tens[i]
	p := w.id()
	held := func() (out []v1.TenantPrincipal) {
		for r := range w.rows {
			if r.TenantID == t.id && r.PrincipalID == p {
				out = append(out, r)
			}
		}
		return
	}
	switch rng.Intn(8) {
	case 0, 1:
		rs := w.strs(w.ids)
		w.op("T%d.AddPrincipal(%q, %q)", i, p, rs)
		t.real.AddPrincipal(p, rs...)
		for _, r := range rs {
			if t.roles[r] != nil {
				w.row(t.id, p, r, "", "", true)
				if t.def != nil {
					w.row(t.id, p, r, t.def.id, "", true)
				}
			}
		}
	case 2:
		var rs []string
		if rng.Intn(2) == 0 {
			rs = w.strs(w.ids)
		}
		n := w.h.pick(w.nsIDs...)
		w.op("T%d.AddPrincipalInNamespace(%q, %q, %q)", i, p, n, rs)
		t.real.AddPrincipalInNamespace(p, n, rs...)
		if t.ns[n] != nil {
			for _, r := range rs {
				if t.roles[r] != nil {
					w.row(t.id, p, r, n, "", true)
				}
			}
			if len(rs) == 0 {
				for _, r := range held() {
					if r.NamespaceID != "" && r.NamespaceID != n {
						w.row(t.id, p, r.RoleID, n, "", true)
					}
				}
				w.row(t.id, p, "", n, "", true)
			}
		}
	case 3:
		ss := w.strs(w.ids)
		w.op("T%d.AssignScopesToPrincipal(%q, %q)", i, p, ss)
		t.real.AssignScopesToPrincipal(p, ss...)
		rows := held()
		for _, s := range ss {
			if t.scopes[s] != nil && len(rows) > 0 {
				for _, r := range rows {
					w.row(t.id, p, r.RoleID, "", s, true)
					if t.def != nil {
						w.row(t.id, p, r.RoleID, t.def.id, s, true)
					}
				}
				w.row(t.id, p, "", "", s, true)
			}
		}
	case 4:
		ss := w.strs(w.ids)
		r := w.id()
		w.op("T%d.AssignScopesWithRole(%q, %q, %q)", i, p, r, ss)
		t.real.AssignScopesWithRole(p, r, ss...)
		if len(held()) > 0 && t.roles[r] != nil {
			for _, s := range ss {
				if t.scopes[s] != nil {
					w.row(t.id, p, r, "", s, true)
					if t.def != nil {
						w.row(t.id, p, r, t.def.id, s, true)
					}
				}
			}
		}
	case 5:
		n := w.h.pick(w.nsIDs...)
		ss := w.strs(w.ids)
		w.op("T%d.AddScopesToNamespace(%q, %q)", i, n, ss)
		t.real.AddScopesToNamespace(n, ss...)
		for _, s := range ss {
			if t.scopes[s] == nil {
				break
			}
			if t.ns[n] != nil {
				t.ns[n].scopes[s] = true
				w.row(t.id, "", "", n, s, true)
			}
		}
	case 6, 7:
		r := w.id()
		var n *v1.Namespace
		var s *v1.Scope
		nid, sid := "", ""
		if rng.Intn(2) == 0 {
			n = w.nss[rng.Intn(len(w.nss))].real
			nid = n.ID()
		}
		if rng.Intn(2) == 0 {
			s = w.scopes[rng.Intn(len(w.scopes))]
			sid = s.ID()
		}
		var md []bool
		want := true
		switch rng.Intn(4) {
		case 0:
			md = []bool{false}
			want = false
		case 1:
			md = []bool{true, false}
		}
		w.op("AddPrincipalRole(%q, %q, T%d, %q, %q, %v)", p, r, i, nid, sid, md)
		if rng.Intn(2) == 0 {
			w.m.AddPrincipalRole(p, r, t.real, n, s, md...)
		} else {
			t.real.AddPrincipalRole(p, r, t.real, n, s, md...)
		}
		w.row(t.id, p, r, nid, sid, want)
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// setup registers everything, gives every role a permission and most tenants everything
func (w *world) setup() {
	rng := w.h.rng
	var ts []*v1.Tenant
	for i, t := range w.tens {
		ts = append(ts, t.real)
		t.linked = true
		if w.rTen[t.id] == nil {
			w.rTen[t.id] = t
		}
		for j, n := range w.nss {
			if rng.Intn(4) > 0 {
				w.op("T%d.AddNamespace(N%d)", i, j)
				t.real.AddNamespace(n.real)
				if t.ns[n.id] == nil {
					t.ns[n.id] = n
				}
			}
		}
		for j, r := range w.roles {
			if rng.Intn(6) > 0 {
				w.op("T%d.AddRole(R%d)", i, j)
				t.real.AddRole(r.real)
				if t.roles[r.id] == nil {
					t.roles[r.id] = r
				}
			}
		}
		for j, s := range w.scopes {
			if rng.Intn(4) > 0 {
				w.op("T%d.AddScopes(S%d)", i, j)
				t.real.AddScopes(s)
				if t.scopes[s.ID()] == nil {
					t.scopes[s.ID()] = s
				}
			}
		}
	}
	w.m.AddTenants(ts...)
	for _, n := range w.nss {
		w.m.AddNamespace(n.real)
		if w.rNs[n.id] == nil {
			w.rNs[n.id] = n
		}
	}
	for _, s := range w.scopes {
		w.m.AddScope(s)
		if w.rScope[s.ID()] == nil {
			w.rScope[s.ID()] = s
		}
	}
	for _, id := range w.ids {
		p := v1.NewPrincipal(id)
		w.rPrin[id] = p
		w.m.AddPrincipal(p)
	}
	for i, r := range w.roles {
		w.m.AddRole(r.real)
		if w.rRole[r.id] == nil {
			w.rRole[r.id] = r
		}
		g, ix := w.group(), []int{rng.Intn(len(w.attrs))}
		w.op("R%d.AddPermission(%q, A%v)", i, g, ix)
		if err := r.real.AddPermission(g, w.attrs[ix[0]].real); err != nil {
			w.fail("AddPermission: %v", err)
		}
		w.addPerms(r, g, ix)
	}
	w.op("(all tenants, namespaces, scopes and roles registered, and principals %q)", w.ids)
}

// play runs n random operations, chosen by weight, checking after each
func (w *world) play(n int, weights map[string]int, check func() string) {
	var bag []string
	for _, k := range sortedKeys(weights) {
		for i := 0; i < weights[k]; i++ {
			bag = append(bag, k)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			w.fail("panic: %v", r)
		}
	}()
	w.mk()
	if w.dense {
		w.setup()
	}
	for i := 0; i < n && w.msg == ""; i++ {
		switch w.h.pick(bag...) {
		case "reg":
			w.register()
		case "role":
			w.roleOp()
		case "group":
			w.groupOp()
		case "ten":
			w.tenantOp()
		case "asg":
			w.assignOp()
		}
		if w.msg == "" && check != nil {
			w.msg = check()
		}
	}
}

// one case: the whole history runs inside the harness' watchdog
func (w *world) runCase(n int, weights map[string]int, check func() string) {
	w.h.run("(history in progress)", false, func() string { w.play(n, weights, check); return "" })
	w.h.run(strings.Join(w.ops, "; "), len(w.ops) > 12, func() string { return w.msg })
}
