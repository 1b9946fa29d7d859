package permission_test

import (
	"fmt"
	"sort"
	"strings"

	"github.com/oarkflow/permission"
)

// A random world of the root package: the real objects next to plain data that records what the
// properties say each call does.

func mMatch(v, p string) bool {
	sep := func(c byte) bool { return c == '/' || c == ' ' }
	var m func(i, j int) bool
	m = func(i, j int) bool {
		switch {
		case j == len(p):
			return i == len(v)
		case p[j] == '*':
			for k := i; k <= len(v); k++ {
				if m(k, j+1) {
					return true
				}
			}
			return false
		case p[j] == ':':
			e := j + 1
			for e < len(p) && !sep(p[e]) {
				e++
			}
			for k := i + 1; k <= len(v) && !sep(v[k-1]); k++ {
				if m(k, e) {
					return true
				}
			}
			return false
		}
		return i < len(v) && v[i] == p[j] && m(i+1, j+1)
	}
	return m(0, 0)
}

type mGroup struct {
	real  *permission.AttributeGroup
	id    string
	perms map[string][2]string
}
type mRole struct {
	real   *permission.Role
	id     string
	lock   bool
	groups map[string]*mGroup
	desc   map[string]*mRole
}
type mNs struct {
	real *permission.Namespace
	id   string
}
type mTen struct {
	real   *permission.Tenant
	id     string
	linked bool
	desc   map[string]*mTen
	def    *mNs
}
type mAttr struct {
	real *permission.Attribute
	r, a string
}

func (a mAttr) key() string { return a.r + " " + a.a }

type world struct {
	h      *vh
	m      *permission.RoleManager
	ops    []string
	msg    string
	tens   []*mTen
	nss    []*mNs
	scopes []*permission.Scope
	roles  []*mRole
	groups []*mGroup
	attrs  []mAttr
	prins  []*permission.Principal

	rTen   map[string]*mTen
	rNs    map[string]*mNs
	rScope map[string]*permission.Scope
	rRole  map[string]*mRole
	rGroup map[string]*mGroup
	rAttr  map[string]*permission.Attribute
	rPrin  map[string]*permission.Principal
	rows   map[permission.Data]bool

	ids   []string // identifiers of tenants, principals, roles, scopes
	nsIDs []string
	dense bool // few identifiers, everything registered, most permissions in one group
}

var plainIDs = []string{"a", "b", "c", "d"}
var oddIDs = []string{"a", "b", "a:b", "a b", "b ", "\"", "a,b", "{}", "\n", "\x00", "a/b", "*", "ü"}

func newWorld(h *vh, ids []string) *world {
	w := &world{h: h, m: permission.New(), ids: ids,
		rTen: map[string]*mTen{}, rNs: map[string]*mNs{}, rScope: map[string]*permission.Scope{}, rRole: map[string]*mRole{},
		rGroup: map[string]*mGroup{}, rAttr: map[string]*permission.Attribute{}, rPrin: map[string]*permission.Principal{}, rows: map[permission.Data]bool{}}
	w.nsIDs = ids
	return w
}

func (w *world) op(f string, args ...any) { w.ops = append(w.ops, fmt.Sprintf(f, args...)) }
func (w *world) fail(f string, args ...any) {
	if w.msg == "" {
		w.msg = fmt.Sprintf(f, args...)
	}
}
func (w *world) id() string { return w.h.pick(w.ids...) }
func (w *world) group() string {
	if w.dense && w.h.rng.Intn(4) > 0 {
		return "g"
	}
	return w.h.pick("g", "h", "")
}

var resources = []string{"/x", "/x/y", "/*", "/x/:id", "/:a", "*", "/z"}
var actions = []string{"GET", "PUT", "*", ":m", ""}

func (r *mRole) all() map[*mRole]bool {
	out := map[*mRole]bool{}
	var walk func(x *mRole)
	walk = func(x *mRole) {
		for _, d := range x.desc {
			if !out[d] {
				out[d] = true
				walk(d)
			}
		}
	}
	walk(r)
	return out
}
func (t *mTen) all() map[*mTen]bool {
	out := map[*mTen]bool{}
	var walk func(x *mTen)
	walk = func(x *mTen) {
		for _, d := range x.desc {
			if !out[d] {
				out[d] = true
				walk(d)
			}
		}
	}
	walk(t)
	return out
}
func (r *mRole) own(g, p string) bool {
	grp := r.groups[g]
	if grp == nil {
		return false
	}
	for q := range grp.perms {
		if q == p || mMatch(p, q) {
			return true
		}
	}
	return false
}
func (r *mRole) has(g, p string, allowed []string) bool {
	seen := map[*mRole]bool{}
	var f func(x *mRole) bool
	f = func(x *mRole) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x.groups[g] == nil {
			return false
		}
		if x.own(g, p) {
			return true
		}
		for d := range x.all() {
			ok := len(allowed) == 0
			for _, a := range allowed {
				ok = ok || a == d.id
			}
			if ok && f(d) {
				return true
			}
		}
		return false
	}
	return f(r)
}

func (w *world) row(d permission.Data) { w.rows[d] = true }

// new objects
func (w *world) mkTenant() *mTen {
	id := w.id()
	t := &mTen{real: permission.NewTenant(id), id: id, desc: map[string]*mTen{}}
	w.op("T%d := NewTenant(%q)", len(w.tens), id)
	w.tens = append(w.tens, t)
	return t
}
func (w *world) mkNs() *mNs {
	id := w.h.pick(w.nsIDs...)
	n := &mNs{real: permission.NewNamespace(id), id: id}
	w.op("N%d := NewNamespace(%q)", len(w.nss), id)
	w.nss = append(w.nss, n)
	return n
}
func (w *world) mkScope() *permission.Scope {
	s := permission.NewScope(w.id())
	w.op("S%d := NewScope(%q)", len(w.scopes), s.ID())
	w.scopes = append(w.scopes, s)
	return s
}
func (w *world) mkRole() *mRole {
	id := w.id()
	r := &mRole{real: permission.NewRole(id), id: id, groups: map[string]*mGroup{}, desc: map[string]*mRole{}}
	w.op("R%d := NewRole(%q)", len(w.roles), id)
	w.roles = append(w.roles, r)
	return r
}
func (w *world) mkGroup() *mGroup {
	id := w.group()
	g := &mGroup{real: permission.NewAttributeGroup(id), id: id, perms: map[string][2]string{}}
	w.op("G%d := NewAttributeGroup(%q)", len(w.groups), id)
	w.groups = append(w.groups, g)
	return g
}
func (w *world) mkAttr() mAttr {
	a := mAttr{r: w.h.pick(resources...), a: w.h.pick(actions...)}
	a.real = permission.NewAttribute(a.r, a.a)
	w.op("A%d := NewAttribute(%q, %q)", len(w.attrs), a.r, a.a)
	w.attrs = append(w.attrs, a)
	return a
}
func (w *world) some(n int) []int {
	var out []int
	if n > 0 {
		for i := w.h.rng.Intn(3); i >= 0; i-- {
			out = append(out, w.h.rng.Intn(n))
		}
	}
	return out
}
func (w *world) strs(xs []string) []string {
	var out []string
	for i := w.h.rng.Intn(3); i >= 0; i-- {
		out = append(out, w.h.pick(xs...))
	}
	return out
}

func (w *world) mk() {
	for i := 2 + w.h.rng.Intn(3); i > 0; i-- {
		w.mkTenant()
		w.mkNs()
		w.mkScope()
		w.mkRole()
	}
	for i := 2 + w.h.rng.Intn(2); i > 0; i-- {
		w.mkGroup()
		w.mkAttr()
		w.mkAttr()
	}
}

// one registration
func (w *world) register() {
	rng := w.h.rng
	switch rng.Intn(8) {
	case 7:
		ix := w.some(len(w.tens))
		var l []*permission.Tenant
		for _, i := range ix {
			l = append(l, w.tens[i].real)
		}
		w.op("AddTenants(T%v)", ix)
		w.m.AddTenants(l...)
		for _, i := range ix {
			w.tens[i].linked = true
			if w.rTen[w.tens[i].id] == nil {
				w.rTen[w.tens[i].id] = w.tens[i]
			}
		}
	case 0:
		i := rng.Intn(len(w.tens))
		t := w.tens[i]
		w.op("AddTenant(T%d)", i)
		got := w.m.AddTenant(t.real)
		t.linked = true
		if w.rTen[t.id] == nil {
			w.rTen[t.id] = t
		}
		if got != w.rTen[t.id].real {
			w.fail("AddTenant(T%d) returned another tenant than the registered one", i)
		}
	case 1:
		ix := w.some(len(w.nss))
		var l []*permission.Namespace
		for _, i := range ix {
			l = append(l, w.nss[i].real)
			if w.rNs[w.nss[i].id] == nil {
				w.rNs[w.nss[i].id] = w.nss[i]
			}
		}
		w.op("AddNamespaces(N%v)", ix)
		w.m.AddNamespaces(l...)
		if got := w.m.AddNamespace(l[0]); got != w.rNs[l[0].ID()].real {
			w.fail("AddNamespace returned another namespace than the registered one")
		}
	case 2:
		ix := w.some(len(w.scopes))
		var l []*permission.Scope
		for _, i := range ix {
			l = append(l, w.scopes[i])
			if w.rScope[w.scopes[i].ID()] == nil {
				w.rScope[w.scopes[i].ID()] = w.scopes[i]
			}
		}
		w.op("AddScopes(S%v)", ix)
		w.m.AddScopes(l...)
		if got := w.m.AddScope(l[0]); got != w.rScope[l[0].ID()] {
			w.fail("AddScope returned another scope than the registered one")
		}
	case 3:
		p := permission.NewPrincipal(w.id())
		w.op("AddPrincipal(%q)", p.ID())
		got := w.m.AddPrincipal(p)
		if w.rPrin[p.ID()] == nil {
			w.rPrin[p.ID()] = p
		}
		if got != w.rPrin[p.ID()] {
			w.fail("AddPrincipal returned another principal than the registered one")
		}
		var l []*permission.Principal
		for i := rng.Intn(3); i >= 0; i-- {
			q := permission.NewPrincipal(w.id())
			l = append(l, q)
			w.op("+ principal %q", q.ID())
			if w.rPrin[q.ID()] == nil {
				w.rPrin[q.ID()] = q
			}
		}
		w.op("AddPrincipals(those %d)", len(l))
		w.m.AddPrincipals(l...)
	case 4:
		ix := w.some(len(w.roles))
		var l []*permission.Role
		for _, i := range ix {
			l = append(l, w.roles[i].real)
			if w.rRole[w.roles[i].id] == nil {
				w.rRole[w.roles[i].id] = w.roles[i]
			}
		}
		w.op("AddRoles(R%v)", ix)
		w.m.AddRoles(l...)
		if got := w.m.AddRole(l[0]); got != w.rRole[l[0].ID()].real {
			w.fail("AddRole returned another role than the registered one")
		}
	case 5:
		ix := w.some(len(w.groups))
		var l []*permission.AttributeGroup
		for _, i := range ix {
			l = append(l, w.groups[i].real)
			if w.rGroup[w.groups[i].id] == nil {
				w.rGroup[w.groups[i].id] = w.groups[i]
			}
		}
		w.op("AddAttributeGroups(G%v)", ix)
		w.m.AddAttributeGroups(l...)
		if got := w.m.AddAttributeGroup(l[0]); got != w.rGroup[w.groups[ix[0]].id].real {
			w.fail("AddAttributeGroup returned another group than the registered one")
		}
	case 6:
		ix := w.some(len(w.attrs))
		var l []*permission.Attribute
		for _, i := range ix {
			l = append(l, w.attrs[i].real)
			if w.rAttr[w.attrs[i].key()] == nil {
				w.rAttr[w.attrs[i].key()] = w.attrs[i].real
			}
		}
		w.op("AddAttributes(A%v)", ix)
		w.m.AddAttributes(l...)
		if got := w.m.AddAttribute(l[0]); got != w.rAttr[w.attrs[ix[0]].key()] {
			w.fail("AddAttribute returned another attribute than the registered one")
		}
	}
}

// one change of a role
func (w *world) roleOp() {
	rng := w.h.rng
	i := rng.Intn(len(w.roles))
	r := w.roles[i]
	switch rng.Intn(9) {
	case 0:
		if rng.Intn(3) == 0 {
			w.op("R%d.Lock()", i)
			r.real.Lock()
			r.lock = true
		}
	case 1:
		w.op("R%d.Unlock()", i)
		r.real.Unlock()
		r.lock = false
	case 2, 3:
		ix := w.some(len(w.roles))
		var l []*permission.Role
		bad := r.lock
		for _, j := range ix {
			d := w.roles[j]
			l = append(l, d.real)
			bad = bad || d == r || d.all()[r]
		}
		w.op("R%d.AddDescendant(R%v)", i, ix)
		err := r.real.AddDescendant(l...)
		if (err != nil) != bad {
			w.fail("R%d.AddDescendant(R%v) returned %v, want an error: %v", i, ix, err, bad)
			return
		}
		if !bad {
			for _, j := range ix {
				if r.desc[w.roles[j].id] == nil {
					r.desc[w.roles[j].id] = w.roles[j]
				}
			}
		}
	case 4, 5, 6:
		ix := w.some(len(w.attrs))
		g := w.group()
		var l []*permission.Attribute
		for _, j := range ix {
			l = append(l, w.attrs[j].real)
		}
		w.op("R%d.AddPermission(%q, A%v)", i, g, ix)
		err := r.real.AddPermission(g, l...)
		if (err != nil) != r.lock {
			w.fail("R%d.AddPermission returned %v, locked: %v", i, err, r.lock)
		}
		if !r.lock {
			w.addPerms(r, g, ix)
		}
	case 7:
		j := rng.Intn(len(w.groups))
		g := w.groups[j]
		w.op("R%d.AddPermissionResourceGroup(G%d)", i, j)
		err := r.real.AddPermissionResourceGroup(g.real)
		if (err != nil) != r.lock {
			w.fail("R%d.AddPermissionResourceGroup returned %v, locked: %v", i, err, r.lock)
		}
		if !r.lock && r.groups[g.id] == nil {
			r.groups[g.id] = g
		}
	case 8:
		ix := w.some(len(w.attrs))
		g := w.group()
		var l []*permission.Attribute
		rr := w.rRole[r.id]
		grp := w.rGroup[g]
		ok := rr != nil && grp != nil && !rr.lock
		for _, j := range ix {
			l = append(l, w.attrs[j].real)
			if ok {
				if _, in := grp.perms[w.attrs[j].key()]; !in {
					ok = false
				}
			}
		}
		w.op("AddPermissionsToRole(%q, %q, A%v)", r.id, g, ix)
		err := w.m.AddPermissionsToRole(r.id, g, l...)
		if (err == nil) != ok {
			w.fail("AddPermissionsToRole returned %v, want success: %v", err, ok)
		}
		if ok {
			w.addPerms(rr, g, ix)
		}
	}
}
func (w *world) addPerms(r *mRole, g string, ix []int) {
	if r.groups[g] == nil {
		r.groups[g] = &mGroup{id: g, perms: map[string][2]string{}}
	}
	for _, j := range ix {
		a := w.attrs[j]
		if _, ok := r.groups[g].perms[a.key()]; !ok {
			r.groups[g].perms[a.key()] = [2]string{a.r, a.a}
		}
	}
}
func (w *world) groupOp() {
	j := w.h.rng.Intn(len(w.groups))
	ix := w.some(len(w.attrs))
	w.op("G%d.AddAttributes(A%v)", j, ix)
	var l []*permission.Attribute
	for _, i := range ix {
		l = append(l, w.attrs[i].real)
		w.groups[j].perms[w.attrs[i].key()] = [2]string{w.attrs[i].r, w.attrs[i].a}
	}
	w.groups[j].real.AddAttributes(l...)
}

// one change of a tenant's structure
func (w *world) linked() int {
	var c []int
	for i, t := range w.tens {
		if t.linked {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return -1
	}
	return c[w.h.rng.Intn(len(c))]
}

func (w *world) tenantOp() {
	rng := w.h.rng
	if rng.Intn(3) == 0 {
		i := w.linked()
		if i < 0 {
			w.register()
			return
		}
		n := w.h.pick(w.nsIDs...)
		w.op("T%d.SetDefaultNamespace(%q)", i, n)
		w.tens[i].real.SetDefaultNamespace(n)
		if w.rNs[n] != nil {
			w.tens[i].def = w.rNs[n]
		}
		return
	}
	i := rng.Intn(len(w.tens))
	t := w.tens[i]
	ix := w.some(len(w.tens))
	var l []*permission.Tenant
	bad := false
	for _, j := range ix {
		d := w.tens[j]
		if t.def != nil && !d.linked {
			return
		}
		l = append(l, d.real)
		bad = bad || d == t || d.all()[t]
	}
	w.op("T%d.AddDescendant(T%v)", i, ix)
	err := t.real.AddDescendant(l...)
	if (err != nil) != bad {
		w.fail("T%d.AddDescendant(T%v) returned %v, want an error: %v", i, ix, err, bad)
		return
	}
	if !bad {
		for _, j := range ix {
			d := w.tens[j]
			if t.desc[d.id] == nil {
				t.desc[d.id] = d
			}
			if t.def != nil {
				w.row(permission.Data{Tenant: d.id, Namespace: t.def.id})
				if n := w.rNs[t.def.id]; n != nil {
					d.def = n
				}
			}
		}
	}
}

// one recorded assignment
func (w *world) assignOp() {
	rng := w.h.rng
	i := w.linked()
	if i < 0 {
		w.register()
		return
	}
	t := w.tens[i]
	p := w.id()
	md := rng.Intn(2) == 0
	switch rng.Intn(9) {
	case 0:
		ix := w.some(len(w.nss))
		var l []*permission.Namespace
		for _, j := range ix {
			l = append(l, w.nss[j].real)
			w.row(permission.Data{Tenant: t.id, Namespace: w.nss[j].id})
		}
		w.op("T%d.AddNamespaces(N%v)", i, ix)
		t.real.AddNamespaces(l...)
		if t.real.AddNamespace(l[0]) != l[0] {
			w.fail("AddNamespace returned another namespace")
		}
	case 1:
		ix := w.some(len(w.roles))
		var l []*permission.Role
		for _, j := range ix {
			l = append(l, w.roles[j].real)
			w.row(permission.Data{Tenant: t.id, Role: w.roles[j].id})
		}
		w.op("T%d.AddRoles(R%v)", i, ix)
		t.real.AddRoles(l...)
		if t.real.AddRole(l[0]) != l[0] {
			w.fail("AddRole returned another role")
		}
	case 2:
		ix := w.some(len(w.scopes))
		var l []*permission.Scope
		for _, j := range ix {
			l = append(l, w.scopes[j])
			w.row(permission.Data{Tenant: t.id, Scope: w.scopes[j].ID()})
		}
		w.op("T%d.AddScopes(S%v)", i, ix)
		t.real.AddScopes(l...)
		if t.real.AddScope(l[0]) != l[0] {
			w.fail("AddScope returned another scope")
		}
	case 3:
		n, s := w.h.pick(w.nsIDs...), w.id()
		w.op("T%d.AddScopesToNamespace(%q, %q)", i, n, s)
		t.real.AddScopesToNamespace(n, s)
		w.row(permission.Data{Tenant: t.id, Namespace: n, Scope: s})
	case 4:
		n, r := w.h.pick(w.nsIDs...), w.id()
		w.op("T%d.AddPrincipalInNamespace(%q, %q, %q)", i, p, n, r)
		t.real.AddPrincipalInNamespace(p, n, r)
		w.row(permission.Data{Tenant: t.id, Namespace: n, Role: r, Principal: p})
	case 5, 6:
		rs := w.strs(w.ids)
		w.op("T%d.AddPrincipal(%q, %v, %q)", i, p, md, rs)
		err := t.real.AddPrincipal(p, md, rs...)
		bad := false
		for _, r := range rs {
			if bad = w.rPrin[p] == nil || w.rRole[r] == nil; bad {
				break
			}
			w.row(permission.Data{Tenant: t.id, Principal: p, Role: r, ManageDescendants: md})
			if t.def != nil {
				w.row(permission.Data{Tenant: t.id, Namespace: t.def.id, Principal: p, Role: r, ManageDescendants: md})
			}
		}
		if (err != nil) != bad {
			w.fail("T%d.AddPrincipal(%q, %v, %q) returned %v, want an error: %v", i, p, md, rs, err, bad)
		}
	case 7:
		ss := w.strs(w.ids)
		w.op("T%d.AssignScopesToPrincipal(%q, %v, %q)", i, p, md, ss)
		err := t.real.AssignScopesToPrincipal(p, md, ss...)
		bad := false
		for _, s := range ss {
			if bad = w.rPrin[p] == nil || w.rScope[s] == nil; bad {
				break
			}
			w.row(permission.Data{Tenant: t.id, Principal: p, Scope: s, ManageDescendants: md})
			if t.def != nil {
				w.row(permission.Data{Tenant: t.id, Namespace: t.def.id, Principal: p, Scope: s, ManageDescendants: md})
			}
		}
		if (err != nil) != bad {
			w.fail("T%d.AssignScopesToPrincipal(%q, %v, %q) returned %v, want an error: %v", i, p, md, ss, err, bad)
		}
	case 8:
		d := permission.Data{Tenant: t.id}
		set := func(f *any, v any) {
			if rng.Intn(2) == 0 || w.dense && rng.Intn(3) > 0 {
				*f = v
			}
		}
		set(&d.Namespace, w.h.pick(w.nsIDs...))
		set(&d.Scope, w.id())
		set(&d.Principal, p)
		set(&d.Role, w.id())
		set(&d.ManageDescendants, md)
		w.op("AddData(%+v)", d)
		c := d
		w.m.AddData(&c)
		w.row(d)
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// setup registers everything, gives every role a permission and links roles and tenants
func (w *world) setup() {
	var ts []*permission.Tenant
	for _, t := range w.tens {
		ts = append(ts, t.real)
		t.linked = true
		if w.rTen[t.id] == nil {
			w.rTen[t.id] = t
		}
	}
	w.m.AddTenants(ts...)
	var ns []*permission.Namespace
	for _, n := range w.nss {
		ns = append(ns, n.real)
		if w.rNs[n.id] == nil {
			w.rNs[n.id] = n
		}
	}
	w.m.AddNamespaces(ns...)
	var sc []*permission.Scope
	for _, s := range w.scopes {
		sc = append(sc, s)
		if w.rScope[s.ID()] == nil {
			w.rScope[s.ID()] = s
		}
	}
	w.m.AddScopes(sc...)
	for _, id := range w.ids {
		p := permission.NewPrincipal(id)
		w.rPrin[id] = p
		w.m.AddPrincipal(p)
	}
	var rs []*permission.Role
	for i, r := range w.roles {
		rs = append(rs, r.real)
		if w.rRole[r.id] == nil {
			w.rRole[r.id] = r
		}
		g, ix := w.group(), []int{w.h.rng.Intn(len(w.attrs))}
		w.op("R%d.AddPermission(%q, A%v)", i, g, ix)
		if err := r.real.AddPermission(g, w.attrs[ix[0]].real); err != nil {
			w.fail("AddPermission: %v", err)
		}
		w.addPerms(r, g, ix)
	}
	w.m.AddRoles(rs...)
	w.op("(all tenants, namespaces, scopes and roles registered, and principals %q)", w.ids)
}

// play runs n random operations, chosen by weight, checking after each
func (w *world) play(n int, weights map[string]int, check func() string) {
	var bag []string
	for _, k := range sortedKeys(weights) {
		for i := 0; i < weights[k]; i++ {
			bag = append(bag, k)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			w.fail("panic: %v", r)
		}
	}()
	w.mk()
	if w.dense {
		w.setup()
	}
	for i := 0; i < n && w.msg == ""; i++ {
		switch w.h.pick(bag...) {
		case "reg":
			w.register()
		case "role":
			w.roleOp()
		case "group":
			w.groupOp()
		case "ten":
			w.tenantOp()
		case "asg":
			w.assignOp()
		}
		if w.msg == "" && check != nil {
			w.msg = check()
		}
	}
}

// one case: the whole history runs inside the harness' watchdog
func (w *world) runCase(n int, weights map[string]int, check func() string) {
	w.h.run("(history in progress)", false, func() string { w.play(n, weights, check); return "" })
	w.h.run(strings.Join(w.ops, "; "), len(w.ops) > 12, func() string { return w.msg })
}
