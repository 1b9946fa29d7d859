package permission_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/oarkflow/permission"
)

var perms = []string{"/x GET", "/x/y GET", "/x/y PUT", "/z PUT", "/x ", "* *", "/* *", "/x/:id GET", "/q/r/s DEL", ""}

func attrSet(l []permission.Attribute) map[string]int {
	out := map[string]int{}
	for _, a := range l {
		out[a.String("\x00")]++
	}
	return out
}

func (r *mRole) list(into map[string]map[string]bool) {
	for g, grp := range r.groups {
		if into[g] == nil {
			into[g] = map[string]bool{}
		}
		for k := range grp.perms {
			into[g][k] = true
		}
	}
}
func keysOf(m map[string]*mGroup) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	return
}
func sameLists(got map[string][]permission.Attribute, want map[string]map[string]bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d groups, want %d", len(got), len(want))
	}
	for g, ks := range want {
		l, ok := got[g]
		have := map[string]bool{}
		for _, a := range l {
			have[a.String()] = true
			if !ks[a.String()] {
				return fmt.Sprintf("group %q has %q", g, a.String())
			}
		}
		if !ok || len(have) != len(ks) {
			return fmt.Sprintf("group %q is %v, want %v", g, l, ks)
		}
	}
	return ""
}

func (w *world) checkRoles() string {
	for i, r := range w.roles {
		if r.real.ID() != r.id {
			return fmt.Sprintf("R%d.ID() = %q, want %q", i, r.real.ID(), r.id)
		}
		want := r.all()
		got := map[*permission.Role]bool{}
		for _, d := range r.real.GetDescendantRoles() {
			got[d] = true
		}
		if len(got) != len(want) {
			return fmt.Sprintf("R%d.GetDescendantRoles has %d roles, want %d", i, len(got), len(want))
		}
		for d := range want {
			if !got[d.real] {
				return fmt.Sprintf("R%d.GetDescendantRoles lacks a role", i)
			}
		}
		ps := r.real.GetPermissions()
		if len(ps) != len(r.groups) {
			return fmt.Sprintf("R%d.GetPermissions has %d groups, want %d", i, len(ps), len(r.groups))
		}
		for g, grp := range r.groups {
			l, ok := ps[g]
			if !ok || len(attrSet(l)) > len(grp.perms) {
				return fmt.Sprintf("R%d.GetPermissions: group %q is %v, want %v", i, g, l, grp.perms)
			}
			keys := map[string]bool{}
			for _, a := range l {
				keys[a.String()] = true
			}
			for k := range grp.perms {
				if !keys[k] {
					return fmt.Sprintf("R%d.GetPermissions: group %q lacks %q", i, g, k)
				}
			}
		}
		all := map[string]map[string]bool{}
		for d := range want {
			d.list(all)
		}
		r.list(all)
		if msg := sameLists(r.real.GetAllImplicitPermissions(), all); msg != "" {
			return fmt.Sprintf("R%d.GetAllImplicitPermissions: %s", i, msg)
		}
		into := map[string][]permission.Attribute{"g1": {*permission.NewAttribute("kept", "x")}, "other": nil}
		r.real.GetAllImplicitPermissions(into)
		for _, g := range []string{"g1", "other"} {
			if all[g] == nil {
				all[g] = map[string]bool{}
			}
		}
		all["g1"]["kept x"] = true
		if msg := sameLists(into, all); msg != "" {
			return fmt.Sprintf("R%d.GetAllImplicitPermissions into a list: %s", i, msg)
		}
		for _, g := range append([]string{w.group()}, keysOf(r.groups)...) {
			got := map[string]bool{}
			for _, a := range r.real.GetResourceGroupPermissions(g) {
				got[a.String()] = true
			}
			n := 0
			if grp := r.groups[g]; grp != nil {
				n = len(grp.perms)
				for k := range grp.perms {
					if !got[k] {
						return fmt.Sprintf("R%d.GetResourceGroupPermissions(%q) lacks %q", i, g, k)
					}
				}
			}
			if len(got) != n {
				return fmt.Sprintf("R%d.GetResourceGroupPermissions(%q) has %d, want %d", i, g, len(got), n)
			}
		}
	}
	for n := 0; n < 6; n++ {
		i := w.h.rng.Intn(len(w.roles))
		r := w.roles[i]
		g, p := w.group(), w.h.pick(perms...)
		var allowed []string
		if w.h.rng.Intn(2) == 0 {
			allowed = w.strs(w.ids)
		}
		if got, want := r.real.Has(g, p, allowed...), r.has(g, p, allowed); got != want {
			return fmt.Sprintf("R%d.Has(%q, %q, %q) = %v, want %v", i, g, p, allowed, got, want)
		}
	}
	return ""
}

func TestVerifC11root(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		w := newWorld(h, plainIDs)
		w.runCase(8+h.rng.Intn(20), map[string]int{"role": 12, "group": 1, "reg": 3}, w.checkRoles)
	}
	h.done()
}

func sameRows(got []*permission.Data, want map[permission.Data]bool) bool {
	seen := map[permission.Data]bool{}
	for _, r := range got {
		if r == nil || !want[*r] {
			return false
		}
		seen[*r] = true
	}
	return len(seen) == len(want)
}
func show(got []*permission.Data) string {
	var out []string
	for _, d := range got {
		out = append(out, fmt.Sprintf("%+v", *d))
	}
	return strings.Join(out, " ")
}
func sameSet(got []string, want map[string]bool) bool {
	seen := map[string]bool{}
	for _, s := range got {
		if !want[s] {
			return false
		}
		seen[s] = true
	}
	return len(seen) == len(want)
}
func sameAny(got []any, want map[any]bool) bool {
	seen := map[any]bool{}
	for _, s := range got {
		if !want[s] {
			return false
		}
		seen[s] = true
	}
	return len(seen) == len(want)
}

func (w *world) below(s, t any) bool {
	id, ok := s.(string)
	if !ok || w.rTen[id] == nil {
		return false
	}
	for d := range w.rTen[id].all() {
		if d.id == t {
			return true
		}
	}
	return false
}

func (w *world) checkRows() string {
	m := w.m
	rng := w.h.rng
	if rng.Intn(6) != 0 {
		return ""
	}
	any_ := func(xs []string) any {
		if rng.Intn(12) == 0 {
			return nil
		}
		return w.h.pick(xs...)
	}
	if got := m.Data().Data(); !sameRows(got, w.rows) {
		return fmt.Sprintf("the records are %s, want %+v", show(got), w.rows)
	}
	for n := 0; n < 3; n++ {
		t, p, ns, sc := any_(w.ids), any_(w.ids), any_(w.nsIDs), any_(w.ids)
		eq := func(v, x any) bool { return v != nil && v == x }
		opt := func(v, x any) bool { return v == nil || v == x }
		member := func(t any) bool {
			for d := range w.rows {
				if eq(d.Principal, p) && eq(d.Tenant, t) {
					return true
				}
			}
			return false
		}
		type q struct {
			name string
			got  []*permission.Data
			f    func(d permission.Data) bool
		}
		for _, c := range []q{
			{"GetTenants", m.GetTenants(p), func(d permission.Data) bool { return eq(d.Principal, p) && d.Tenant != nil }},
			{"GetScopesByPrincipal", m.GetScopesByPrincipal(p), func(d permission.Data) bool { return eq(d.Principal, p) && d.Tenant != nil && d.Scope != nil }},
			{"GetRolesByTenant", m.GetRolesByTenant(t), func(d permission.Data) bool { return eq(d.Tenant, t) && d.Role != nil }},
			{"GetNamespacesByTenant", m.GetNamespacesByTenant(t), func(d permission.Data) bool { return eq(d.Tenant, t) && d.Namespace != nil }},
			{"GetNamespaceByTenant", m.GetNamespaceByTenant(t), func(d permission.Data) bool { return eq(d.Tenant, t) && d.Namespace != nil }},
			{"GetScopesByTenant", m.GetScopesByTenant(t), func(d permission.Data) bool { return eq(d.Tenant, t) && d.Scope != nil }},
			{"GetNamespacesForPrincipalByTenant", m.GetNamespacesForPrincipalByTenant(p, t), func(d permission.Data) bool { return eq(d.Tenant, t) && opt(d.Principal, p) && d.Namespace != nil }},
			{"GetNamespaceForPrincipalByTenant", m.GetNamespaceForPrincipalByTenant(p, t), func(d permission.Data) bool { return eq(d.Tenant, t) && opt(d.Principal, p) && d.Namespace != nil }},
			{"GetScopesForPrincipalByTenant", m.GetScopesForPrincipalByTenant(p, t), func(d permission.Data) bool { return eq(d.Tenant, t) && opt(d.Principal, p) && d.Scope != nil }},
			{"GetScopesForPrincipalByTenantAndNamespace", m.GetScopesForPrincipalByTenantAndNamespace(p, t, ns), func(d permission.Data) bool {
				return eq(d.Tenant, t) && opt(d.Principal, p) && opt(d.Namespace, ns) && d.Scope != nil
			}},
			{"GetRolesForPrincipalByTenantNamespaceAndScope", m.GetRolesForPrincipalByTenantNamespaceAndScope(p, t, ns, sc), func(d permission.Data) bool {
				return eq(d.Tenant, t) && eq(d.Principal, p) && opt(d.Namespace, ns) && opt(d.Scope, sc) && d.Role != nil
			}},
			{"GetRolesForPrincipalByTenantAndNamespace", m.GetRolesForPrincipalByTenantAndNamespace(p, t, ns), func(d permission.Data) bool {
				return eq(d.Tenant, t) && eq(d.Principal, p) && opt(d.Namespace, ns) && d.Role != nil
			}},
			{"GetRolesForPrincipalByTenantAndScope", m.GetRolesForPrincipalByTenantAndScope(p, t, sc), func(d permission.Data) bool {
				return eq(d.Tenant, t) && eq(d.Principal, p) && opt(d.Scope, sc) && d.Role != nil
			}},
			{"GetNamespacesByPrincipal", m.GetNamespacesByPrincipal(p), func(d permission.Data) bool { return member(d.Tenant) && opt(d.Principal, p) && d.Namespace != nil }},
			{"GetScopeForPrincipalByNamespace", m.GetScopeForPrincipalByNamespace(p, ns), func(d permission.Data) bool {
				return member(d.Tenant) && opt(d.Principal, p) && opt(d.Namespace, ns) && d.Scope != nil
			}},
		} {
			want := map[permission.Data]bool{}
			for d := range w.rows {
				if c.f(d) {
					want[d] = true
				}
			}
			if !sameRows(c.got, want) {
				return fmt.Sprintf("%s (principal %v, tenant %v, namespace %v, scope %v) = %s, want %+v", c.name, p, t, ns, sc, show(c.got), want)
			}
		}
		tens := map[any]bool{}
		for d := range w.rows {
			if eq(d.Principal, p) && d.Tenant != nil {
				tens[d.Tenant] = true
			}
		}
		if got := m.GetTenantsByPrincipal(p); !sameAny(got, tens) || len(got) != len(tens) {
			return fmt.Sprintf("GetTenantsByPrincipal(%v) = %v, want %v", p, got, tens)
		}
		f := permission.Data{}
		for _, s := range []struct {
			to *any
			v  any
		}{{&f.Tenant, t}, {&f.Namespace, ns}, {&f.Scope, sc}, {&f.Principal, p}, {&f.Role, any_(w.ids)}, {&f.ManageDescendants, rng.Intn(2) == 0}} {
			if rng.Intn(3) == 0 {
				*s.to = s.v
			}
		}
		found := map[permission.Data]bool{}
		for d := range w.rows {
			fit := func(v, x any) bool { return v == nil || v == x }
			if fit(f.Tenant, d.Tenant) && fit(f.Namespace, d.Namespace) && fit(f.Scope, d.Scope) && fit(f.Principal, d.Principal) && fit(f.Role, d.Role) && fit(f.ManageDescendants, d.ManageDescendants) {
				found[d] = true
			}
		}
		if got := m.Data().Search(&f); !sameRows(got, found) {
			return fmt.Sprintf("Data().Search(%+v) = %s, want %+v", f, show(got), found)
		}
		if got := m.Source().First(&f); (got == nil) != (len(found) == 0) || got != nil && !found[*got] {
			return fmt.Sprintf("Source().First(%+v) = %+v, want one of %+v", f, got, found)
		}
		rs := m.GetTenants(p)
		if n > 0 {
			rs = m.Data().Data()
		}
		for name, c := range map[string]struct {
			got []any
			f   func(d *permission.Data) any
		}{
			"GetTenantIDs":    {permission.GetTenantIDs(rs), func(d *permission.Data) any { return d.Tenant }},
			"GetPrincipalIDs": {permission.GetPrincipalIDs(rs), func(d *permission.Data) any { return d.Principal }},
			"GetRoleIDs":      {permission.GetRoleIDs(rs), func(d *permission.Data) any { return d.Role }},
			"GetNamespaceIDs": {permission.GetNamespaceIDs(rs), func(d *permission.Data) any { return d.Namespace }},
			"GetScopeIDs":     {permission.GetScopeIDs(rs), func(d *permission.Data) any { return d.Scope }},
		} {
			want := map[any]bool{}
			for _, d := range rs {
				want[c.f(d)] = true
			}
			if !sameAny(c.got, want) || len(c.got) != len(want) {
				return fmt.Sprintf("%s(%s) = %v, want %v", name, show(rs), c.got, want)
			}
		}
		if s, ok := t.(string); ok {
			want := map[any]bool{}
			if w.rTen[s] != nil {
				for d := range w.rTen[s].all() {
					want[d.id] = true
				}
			}
			if got := m.TenantChildren(s); !sameAny(got, want) {
				return fmt.Sprintf("TenantChildren(%q) = %v, want %v", s, got, want)
			}
			if got := m.GetDescendantTenant(t); !sameAny(got, want) {
				return fmt.Sprintf("GetDescendantTenant(%q) = %v, want %v", s, got, want)
			}
		}
		if s, ok := p.(string); ok {
			want := map[string]bool{}
			for d := range w.rows {
				if d.Principal != p || d.Tenant == nil {
					continue
				}
				want[d.Tenant.(string)] = true
				if d.ManageDescendants == true && w.rTen[d.Tenant.(string)] != nil {
					for x := range w.rTen[d.Tenant.(string)].all() {
						want[x.id] = true
					}
				}
			}
			got := m.GetImplicitTenants(s)
			var l []string
			for k := range got {
				l = append(l, k)
			}
			if !sameSet(l, want) {
				return fmt.Sprintf("GetImplicitTenants(%q) = %v, want %v", s, l, want)
			}
		}
	}
	return ""
}

func TestVerifC10(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		ids := oddIDs
		if h.rng.Intn(2) == 0 {
			ids = plainIDs
		}
		w := newWorld(h, ids)
		w.runCase(10+h.rng.Intn(25), map[string]int{"reg": 5, "ten": 4, "asg": 10}, w.checkRows)
	}
	h.done()
}

// checkAuth compares Authorize with what the records and roles say.
func (w *world) checkAuth() string {
	rng := w.h.rng
	if rng.Intn(4) != 0 && !w.dense {
		return ""
	}
	eq := func(v, x any) bool { return v != nil && v == x }
	opt := func(v, x any) bool { return v == nil || v == x }
	for n := 0; n < 6; n++ {
		p := w.id()
		var t, ns, sc, g, a any
		var opts []func(*permission.Option)
		var desc []string
		add := func(name string, v *any, xs []string, o func(any) func(*permission.Option), odds int) {
			if rng.Intn(10) < odds {
				*v = w.h.pick(xs...)
				if rng.Intn(20) == 0 {
					*v = "zz"
				}
				opts = append(opts, o(*v))
				desc = append(desc, fmt.Sprintf("%s %q", name, *v))
			}
		}
		odds := [3]int{8, 4, 4}
		if rng.Intn(3) == 0 {
			odds = [3]int{5, 9, 9}
		}
		add("tenant", &t, w.ids, permission.WithTenant, odds[0])
		add("namespace", &ns, w.nsIDs, permission.WithNamespace, odds[1])
		add("scope", &sc, w.ids, permission.WithScope, odds[2])
		if rng.Intn(3) > 0 || w.dense && rng.Intn(2) == 0 {
			add("group", &g, []string{"g", w.group(), "h", ""}[:2+rng.Intn(2)*2], permission.WithAttributeGroup, 9)
			add("activity", &a, []string{"/x GET", "/x/y PUT", "/z GET", "/x/7 GET", "/q PUT", "/x ", "/x/:id PUT"}, permission.WithActivity, 9)
		}
		rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		member := func(t any) bool {
			for d := range w.rows {
				if eq(d.Principal, p) && eq(d.Tenant, t) {
					return true
				}
			}
			return false
		}
		in := func(s any) bool {
			if g == nil || a == nil {
				if s != nil && ns == nil && sc == nil {
					return member(s)
				}
				for d := range w.rows {
					if d.Tenant == nil || !opt(d.Principal, p) || !member(d.Tenant) || s != nil && d.Tenant != s {
						continue
					}
					if sc == nil && s != nil && eq(d.Namespace, ns) {
						return true
					}
					if sc != nil && (s != nil || ns != nil) && eq(d.Scope, sc) && (ns == nil || opt(d.Namespace, ns)) {
						return true
					}
				}
				return false
			}
			if s == nil && (ns == nil || sc == nil) {
				return false
			}
			var allowed []string
			for d := range w.rows {
				if d.Role != nil && d.Tenant != nil && (s == nil && member(d.Tenant) || d.Tenant == s) {
					allowed = append(allowed, d.Role.(string))
				}
			}
			for d := range w.rows {
				if d.Role == nil || d.Tenant == nil || !eq(d.Principal, p) || s != nil && d.Tenant != s ||
					ns != nil && !opt(d.Namespace, ns) || sc != nil && !opt(d.Scope, sc) {
					continue
				}
				if r := w.rRole[d.Role.(string)]; r != nil && r.has(g.(string), a.(string), allowed) {
					return true
				}
			}
			return false
		}
		known := w.rPrin[p] != nil &&
			(t == nil || w.rTen[t.(string)] != nil) && (ns == nil || w.rNs[ns.(string)] != nil) && (sc == nil || w.rScope[sc.(string)] != nil)
		want := known && in(t)
		if known && t != nil {
			for d := range w.rows {
				if eq(d.Principal, p) && d.ManageDescendants == true && w.below(d.Tenant, t) && in(d.Tenant) {
					want = true
				}
			}
		}
		if got := w.m.Authorize(p, opts...); got != want {
			return fmt.Sprintf("Authorize(%q, %s) = %v, want %v; records %+v", p, strings.Join(desc, ", "), got, want, w.rows)
		}
	}
	return ""
}

func TestVerifC09(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		ids := oddIDs
		if h.rng.Intn(4) != 0 {
			ids = plainIDs
		}
		w := newWorld(h, ids)
		ops := map[string]int{"reg": 6, "role": 6, "ten": 3, "asg": 10}
		n := 20 + h.rng.Intn(40)
		if h.rng.Intn(3) > 0 {
			w = newWorld(h, plainIDs[:2+h.rng.Intn(2)])
			w.dense = true
			n = 8 + h.rng.Intn(20)
			ops = map[string]int{"role": 4, "ten": 3, "asg": 10}
		}
		w.runCase(n, ops, w.checkAuth)
	}
	h.done()
}

func (w *world) checkRegs() string {
	ids := append(append([]string{}, w.ids...), "", "zz")
	for _, id := range ids {
		if got, ok := w.m.GetTenant(id); ok != (w.rTen[id] != nil) || ok && got != w.rTen[id].real {
			return fmt.Sprintf("GetTenant(%q) is wrong (found %v)", id, ok)
		}
		if got, ok := w.m.GetNamespace(id); ok != (w.rNs[id] != nil) || ok && got != w.rNs[id].real {
			return fmt.Sprintf("GetNamespace(%q) is wrong (found %v)", id, ok)
		}
		if got, ok := w.m.GetScope(id); ok != (w.rScope[id] != nil) || ok && got != w.rScope[id] {
			return fmt.Sprintf("GetScope(%q) is wrong (found %v)", id, ok)
		}
		if got, ok := w.m.GetPrincipal(id); ok != (w.rPrin[id] != nil) || ok && got != w.rPrin[id] {
			return fmt.Sprintf("GetPrincipal(%q) is wrong (found %v)", id, ok)
		}
		if got, ok := w.m.GetRole(id); ok != (w.rRole[id] != nil) || ok && got != w.rRole[id].real {
			return fmt.Sprintf("GetRole(%q) is wrong (found %v)", id, ok)
		}
	}
	for _, id := range []string{"g", "h", "", "zz"} {
		if got, ok := w.m.GetAttributeGroup(id); ok != (w.rGroup[id] != nil) || ok && got != w.rGroup[id].real {
			return fmt.Sprintf("GetAttributeGroup(%q) is wrong (found %v)", id, ok)
		}
	}
	for _, r := range resources {
		for _, a := range actions {
			k := r + " " + a
			if got, ok := w.m.GetAttribute(k); ok != (w.rAttr[k] != nil) || got != w.rAttr[k] {
				return fmt.Sprintf("GetAttribute(%q) is wrong (found %v)", k, ok)
			}
		}
	}
	type lst struct {
		name string
		got  []string
		want map[string]bool
		n    int
	}
	keys := func(l []string) map[string]bool {
		m := map[string]bool{}
		for _, s := range l {
			m[s] = true
		}
		return m
	}
	for _, l := range []lst{
		{"Tenants", w.m.Tenants(), keys(sortedKeys(w.rTen)), w.m.TotalTenants()},
		{"Namespaces", w.m.Namespaces(), keys(sortedKeys(w.rNs)), w.m.TotalNamespaces()},
		{"Scopes", w.m.Scopes(), keys(sortedKeys(w.rScope)), w.m.TotalScopes()},
		{"Principals", w.m.Principals(), keys(sortedKeys(w.rPrin)), w.m.TotalPrincipals()},
		{"Roles", w.m.Roles(), keys(sortedKeys(w.rRole)), w.m.TotalRoles()},
		{"Attributes", w.m.Attributes(), keys(sortedKeys(w.rAttr)), w.m.TotalAttributes()},
	} {
		if !sameSet(l.got, l.want) || int(l.n) != len(l.want) {
			return fmt.Sprintf("%s = %q, total %d, want %v", l.name, l.got, l.n, l.want)
		}
	}
	return ""
}

func TestVerifC14root(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		ids := oddIDs
		if h.rng.Intn(2) == 0 {
			ids = plainIDs
		}
		w := newWorld(h, ids)
		w.runCase(6+h.rng.Intn(20), map[string]int{"reg": 10, "ten": 1, "asg": 1, "role": 1, "group": 1}, w.checkRegs)
	}
	h.done()
}

func (w *world) checkHier() string {
	for i, r := range w.roles {
		got := map[*permission.Role]bool{}
		for _, d := range r.real.GetDescendantRoles() {
			got[d] = true
		}
		want := r.all()
		if len(got) != len(want) || want[r] {
			return fmt.Sprintf("R%d.GetDescendantRoles has %d roles, want %d", i, len(got), len(want))
		}
		for d := range want {
			if !got[d.real] {
				return fmt.Sprintf("R%d.GetDescendantRoles lacks a role", i)
			}
		}
	}
	for i, r := range w.tens {
		want := map[any]bool{}
		for d := range r.all() {
			if d == r {
				return fmt.Sprintf("T%d became its own descendant", i)
			}
			want[d.id] = true
		}
		if got := r.real.GetDescendants(); !sameAny(got, want) {
			return fmt.Sprintf("T%d.GetDescendants() = %v, want %v", i, got, want)
		}
	}
	return ""
}

func TestVerifC20root(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		w := newWorld(h, plainIDs)
		w.runCase(6+h.rng.Intn(24), map[string]int{"role": 8, "ten": 10}, w.checkHier)
	}
	h.done()
}
