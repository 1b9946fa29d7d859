package v1_test

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	v1 "github.com/oarkflow/permission/v1"
)

var perms = []string{"/x GET", "/x/y GET", "/x/y PUT", "/z PUT", "/x ", "* *", "/* *", "/x/:id GET", "/q/r/s DEL", ""}

func attrSet(l []v1.Attribute) map[string]int {
	out := map[string]int{}
	for _, a := range l {
		out[a.String("\x00")]++
	}
	return out
}

func (r *mRole) list(into map[string]map[string]bool) {
	for g, grp := range r.groups {
		if into[g] == nil {
			into[g] = map[string]bool{}
		}
		for k := range grp.perms {
			into[g][k] = true
		}
	}
}
func keysOf(m map[string]*mGroup) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	return
}
func sameLists(got map[string][]v1.Attribute, want map[string]map[string]bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d groups, want %d", len(got), len(want))
	}
	for g, ks := range want {
		l, ok := got[g]
		have := map[string]bool{}
		for _, a := range l {
			have[a.String()] = true
			if !ks[a.String()] {
				return fmt.Sprintf("group %q has %q", g, a.String())
			}
		}
		if !ok || len(have) != len(ks) {
			return fmt.Sprintf("group %q is %v, want %v", g, l, ks)
		}
	}
	return ""
}

func (w *world) checkRoles() string {
	for i, r := range w.roles {
		if r.real.ID() != r.id {
			return fmt.Sprintf("R%d.ID() = %q, want %q", i, r.real.ID(), r.id)
		}
		want := r.all()
		got := map[*v1.Role]bool{}
		for _, d := range r.real.GetDescendantRoles() {
			got[d] = true
		}
		if len(got) != len(want) {
			return fmt.Sprintf("R%d.GetDescendantRoles has %d roles, want %d", i, len(got), len(want))
		}
		for d := range want {
			if !got[d.real] {
				return fmt.Sprintf("R%d.GetDescendantRoles lacks a role", i)
			}
		}
		ps := r.real.GetPermissions()
		if len(ps) != len(r.groups) {
			return fmt.Sprintf("R%d.GetPermissions has %d groups, want %d", i, len(ps), len(r.groups))
		}
		for g, grp := range r.groups {
			l, ok := ps[g]
			if !ok || len(attrSet(l)) > len(grp.perms) {
				return fmt.Sprintf("R%d.GetPermissions: group %q is %v, want %v", i, g, l, grp.perms)
			}
			keys := map[string]bool{}
			for _, a := range l {
				keys[a.String()] = true
			}
			for k := range grp.perms {
				if !keys[k] {
					return fmt.Sprintf("R%d.GetPermissions: group %q lacks %q", i, g, k)
				}
			}
		}
		all := map[string]map[string]bool{}
		for d := range want {
			d.list(all)
		}
		r.list(all)
		if msg := sameLists(r.real.GetAllImplicitPermissions(), all); msg != "" {
			return fmt.Sprintf("R%d.GetAllImplicitPermissions: %s", i, msg)
		}
		into := map[string][]v1.Attribute{"g1": {*v1.NewAttribute("kept", "x")}, "other": nil}
		r.real.GetAllImplicitPermissions(into)
		for _, g := range []string{"g1", "other"} {
			if all[g] == nil {
				all[g] = map[string]bool{}
			}
		}
		all["g1"]["kept x"] = true
		if msg := sameLists(into, all); msg != "" {
			return fmt.Sprintf("R%d.GetAllImplicitPermissions into a list: %s", i, msg)
		}
		for _, g := range append([]string{w.group()}, keysOf(r.groups)...) {
			got := map[string]bool{}
			for _, a := range r.real.GetResourceGroupPermissions(g) {
				got[a.String()] = true
			}
			n := 0
			if grp := r.groups[g]; grp != nil {
				n = len(grp.perms)
				for k := range grp.perms {
					if !got[k] {
						return fmt.Sprintf("R%d.GetResourceGroupPermissions(%q) lacks %q", i, g, k)
					}
				}
			}
			if len(got) != n {
				return fmt.Sprintf("R%d.GetResourceGroupPermissions(%q) has %d, want %d", i, g, len(got), n)
			}
		}
		rp, err := w.m.GetRolePermissions(r.id)
		reg := w.rRole[r.id]
		if (err == nil) != (reg != nil) {
			return fmt.Sprintf("GetRolePermissions(%q): error %v", r.id, err)
		}
		if reg != nil {
			own := map[string]map[string]bool{}
			reg.list(own)
			if msg := sameLists(rp, own); msg != "" {
				return fmt.Sprintf("GetRolePermissions(%q): %s", r.id, msg)
			}
		}
	}
	for n := 0; n < 6; n++ {
		i := w.h.rng.Intn(len(w.roles))
		r := w.roles[i]
		g, p := w.group(), w.h.pick(perms...)
		var allowed []string
		if w.h.rng.Intn(2) == 0 {
			allowed = w.strs(w.ids)
		}
		if got, want := r.real.Has(g, p, allowed...), r.has(g, p, allowed); got != want {
			return fmt.Sprintf("R%d.Has(%q, %q, %q) = %v, want %v", i, g, p, allowed, got, want)
		}
	}
	return ""
}

func TestVerifC11v1(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		w := newWorld(h, plainIDs)
		w.runCase(8+h.rng.Intn(20), map[string]int{"role": 12, "group": 1, "reg": 3}, w.checkRoles)
	}
	h.done()
}

func sameRows(got []v1.TenantPrincipal, want map[v1.TenantPrincipal]bool) bool {
	seen := map[v1.TenantPrincipal]bool{}
	for _, r := range got {
		if !want[r] {
			return false
		}
		seen[r] = true
	}
	return len(seen) == len(want)
}
func sameSet(got []string, want map[string]bool) bool {
	seen := map[string]bool{}
	for _, s := range got {
		if !want[s] {
			return false
		}
		seen[s] = true
	}
	return len(seen) == len(want)
}

func (w *world) checkRows() string {
	sel := func(f func(r v1.TenantPrincipal) bool) map[v1.TenantPrincipal]bool {
		out := map[v1.TenantPrincipal]bool{}
		for r := range w.rows {
			if f(r) {
				out[r] = true
			}
		}
		return out
	}
	for n := 0; n < 3; n++ {
		t, p := w.id(), w.id()
		if w.h.rng.Intn(8) == 0 {
			p = ""
		}
		want := sel(func(r v1.TenantPrincipal) bool { return r.TenantID == t && r.PrincipalID == p })
		if got := w.m.GetPrincipalRoles(t, p); !sameRows(got, want) {
			return fmt.Sprintf("GetPrincipalRoles(%q, %q) = %+v, want %+v", t, p, got, want)
		}
		wt := sel(func(r v1.TenantPrincipal) bool { return r.TenantID == t })
		if got := w.m.GetTenantRoles(t); !sameRows(got, wt) {
			return fmt.Sprintf("GetTenantRoles(%q) = %+v, want %+v", t, got, wt)
		}
		if got := w.m.GetPrincipalRolesByTenant(t); !sameRows(got, wt) {
			return fmt.Sprintf("GetPrincipalRolesByTenant(%q) = %+v, want %+v", t, got, wt)
		}
		tens := map[string]bool{}
		scs, tscs := map[string]bool{}, map[string]bool{}
		for r := range w.rows {
			if r.PrincipalID == p {
				tens[r.TenantID] = true
				if r.ScopeID != "" {
					scs[r.ScopeID] = true
					if r.TenantID == t {
						tscs[r.ScopeID] = true
					}
				}
			}
		}
		if got, err := w.m.GetTenantsForPrincipal(p); err != nil || !sameSet(got, tens) {
			return fmt.Sprintf("GetTenantsForPrincipal(%q) = %q %v, want %v", p, got, err, tens)
		}
		got, err := w.m.GetScopesForPrincipal(p)
		if (err == nil) != (w.rPrin[p] != nil) || err == nil && !sameSet(got, scs) {
			return fmt.Sprintf("GetScopesForPrincipal(%q) = %q %v, want %v", p, got, err, scs)
		}
		got, err = w.m.GetTenantScopesForPrincipal(t, p)
		if (err == nil) != (w.rPrin[p] != nil && w.rTen[t] != nil) || err == nil && !sameSet(got, tscs) {
			return fmt.Sprintf("GetTenantScopesForPrincipal(%q, %q) = %q %v, want %v", t, p, got, err, tscs)
		}
		wi := sel(func(r v1.TenantPrincipal) bool {
			return r.PrincipalID == p && (r.TenantID == t || w.rTen[t] != nil && w.rTen[t].desc[r.TenantID] != nil)
		})
		if got := w.m.GetImplicitPrincipalRoles(t, p); !sameRows(got, wi) {
			return fmt.Sprintf("GetImplicitPrincipalRoles(%q, %q) = %+v, want %+v", t, p, got, wi)
		}
		wp := sel(func(r v1.TenantPrincipal) bool { return want[r] && r.RoleID != "" && w.rRole[r.RoleID] != nil })
		var gp []v1.TenantPrincipal
		for _, d := range w.m.GetPermissionsForPrincipal(t, p) {
			gp = append(gp, d.TenantPrincipal)
			if w.rRole[d.RoleID] != nil && len(d.Permissions) != len(w.rRole[d.RoleID].groups) {
				return fmt.Sprintf("GetPermissionsForPrincipal(%q, %q): role %q has groups %v", t, p, d.RoleID, d.Permissions)
			}
		}
		if !sameRows(gp, wp) {
			return fmt.Sprintf("GetPermissionsForPrincipal(%q, %q) = %+v, want %+v", t, p, gp, wp)
		}
	}
	return ""
}

func TestVerifC12(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		ids := oddIDs
		if h.rng.Intn(2) == 0 {
			ids = plainIDs
		}
		w := newWorld(h, ids)
		w.runCase(10+h.rng.Intn(30), map[string]int{"reg": 4, "ten": 5, "asg": 7, "role": 1}, w.checkRows)
	}
	h.done()
}

// what GetAllowedRoles returns for a principal's assignments in a registered tenant
func (w *world) allowed(rows []v1.TenantPrincipal, t *mTen, ns, s string) map[string]bool {
	out := map[string]bool{}
	if s != "" && t.scopes[s] == nil || ns != "" && t.ns[ns] == nil {
		return nil
	}
	n := t.ns[ns]
	held := false
	for _, r := range rows {
		if r.NamespaceID == "" && r.ScopeID == "" {
			held = true
			if n == nil || len(n.roles) == 0 {
				out[r.RoleID] = true
			}
		}
		if r.ScopeID == s && s != "" {
			held = true
			if ns != "" && r.NamespaceID == ns {
				out[r.RoleID] = true
			}
		}
	}
	if !held || n != nil && len(n.scopes) > 0 && !n.scopes[s] {
		return nil
	}
	if n != nil {
		for r := range n.roles {
			out[r] = true
		}
	}
	for r := range out {
		if t.roles[r] == nil {
			return nil
		}
	}
	return out
}

func (w *world) checkAllowed() string {
	t, p := w.id(), w.id()
	if w.rTen[t] == nil {
		return ""
	}
	ns, s := "", ""
	if w.h.rng.Intn(4) > 0 {
		ns = w.h.pick(w.nsIDs...)
	}
	if w.h.rng.Intn(3) > 0 {
		s = w.id()
	}
	rows := w.m.GetPrincipalRoles(t, p)
	got := w.m.GetAllowedRoles(rows, ns, s)
	if want := w.allowed(rows, w.rTen[t], ns, s); !sameSet(got, want) {
		return fmt.Sprintf("GetAllowedRoles(GetPrincipalRoles(%q, %q), %q, %q) = %q, want %v", t, p, ns, s, got, want)
	}
	return ""
}

func (w *world) checkAuth() string {
	rng := w.h.rng
	if msg := w.checkAllowed(); msg != "" {
		return msg
	}
	for n := 0; n < 6; n++ {
		var o []func(*v1.Option)
		var text []string
		p := w.id()
		var t, ns, s, g, a *string
		pick := func(prob int, xs []string) *string {
			if rng.Intn(prob) != 0 {
				return nil
			}
			x := w.h.pick(xs...)
			return &x
		}
		t, ns, s = pick(2, w.ids), pick(3, w.nsIDs), pick(3, w.ids)
		if rng.Intn(2) == 0 {
			x, y := w.group(), w.h.pick(perms...)
			g, a = &x, &y
			if rng.Intn(4) == 0 {
				g = nil
			}
			if rng.Intn(8) == 0 {
				a = nil
			}
		}
		add := func(name string, v *string, f func(any) func(*v1.Option)) {
			if v != nil {
				o = append(o, f(*v))
				text = append(text, fmt.Sprintf("%s %q", name, *v))
			}
		}
		add("scope", s, v1.WithScope)
		add("tenant", t, v1.WithTenant)
		add("namespace", ns, v1.WithNamespace)
		add("activity", a, v1.WithActivity)
		add("group", g, v1.WithResourceGroup)
		got := w.m.Authorize(p, o...)
		ask := fmt.Sprintf("Authorize(%q; %s)", p, strings.Join(text, ", "))
		exists := func(f func(r v1.TenantPrincipal) bool) bool {
			for r := range w.rows {
				if f(r) {
					return true
				}
			}
			return false
		}
		mine := func(r v1.TenantPrincipal) bool { return r.PrincipalID == p }
		in := func(r v1.TenantPrincipal) bool { return r.PrincipalID == p && r.TenantID == *t }
		only, must := true, false
		if g == nil && a == nil {
			switch {
			case t != nil && ns == nil && s == nil:
				must = w.rTen[*t] != nil && exists(in)
			case t == nil && ns != nil && s == nil:
				must = exists(func(r v1.TenantPrincipal) bool {
					return mine(r) && w.rTen[r.TenantID] != nil && w.rTen[r.TenantID].ns[*ns] != nil
				})
			case t == nil && ns == nil && s != nil:
				must = exists(func(r v1.TenantPrincipal) bool {
					return mine(r) && w.rTen[r.TenantID] != nil && r.ScopeID == *s && w.rTen[r.TenantID].scopes[*s] != nil
				})
			case t != nil && ns != nil && s == nil:
				must = exists(func(r v1.TenantPrincipal) bool { return in(r) && r.NamespaceID == *ns })
			case t != nil && ns == nil && s != nil:
				must = exists(func(r v1.TenantPrincipal) bool { return in(r) && r.ScopeID == *s })
			case t == nil && ns != nil && s != nil:
				must = exists(func(r v1.TenantPrincipal) bool { return mine(r) && r.NamespaceID == *ns && r.ScopeID == *s })
			case t != nil && ns != nil && s != nil:
				must = exists(func(r v1.TenantPrincipal) bool { return in(r) && r.NamespaceID == *ns && r.ScopeID == *s }) ||
					exists(in) && exists(func(r v1.TenantPrincipal) bool {
						return r.PrincipalID == "" && r.TenantID == *t && r.NamespaceID == *ns && r.ScopeID == *s
					})
			}
			only = must
		} else if t != nil || ns != nil || s != nil || g != nil {
			if t == nil {
				none := ""
				t = &none
			}
			str := func(x *string) string {
				if x == nil {
					return ""
				}
				return *x
			}
			ok := w.rTen[*t] != nil && (ns == nil || *ns == "" || w.rTen[*t].ns[*ns] != nil) && (s == nil || *s == "" || w.rTen[*t].scopes[*s] != nil)
			var rows []v1.TenantPrincipal
			for r := range w.rows {
				if in(r) {
					rows = append(rows, r)
				}
			}
			var allowed []string
			if ok && len(rows) > 0 {
				allowed = sortedKeys(w.allowed(rows, w.rTen[*t], str(ns), str(s)))
			}
			only = ok && exists(func(r v1.TenantPrincipal) bool {
				return in(r) && w.rRole[r.RoleID] != nil && w.rRole[r.RoleID].has(str(g), str(a), allowed)
			})
			must = only
			if len(allowed) == 0 {
				must = ok && exists(func(r v1.TenantPrincipal) bool {
					return in(r) && w.rRole[r.RoleID] != nil && w.rRole[r.RoleID].own(str(g), str(a))
				})
			}
		} else {
			must = exists(func(r v1.TenantPrincipal) bool {
				return mine(r) && r.NamespaceID == "" && r.ScopeID == "" && w.rTen[r.TenantID] != nil && w.rRole[r.RoleID] != nil && w.rRole[r.RoleID].own("", *a) &&
					!exists(func(q v1.TenantPrincipal) bool {
						return mine(q) && q.TenantID == r.TenantID && q.NamespaceID == "" && q.ScopeID == "" && w.rTen[r.TenantID].roles[q.RoleID] == nil
					})
			})
			only = exists(func(r v1.TenantPrincipal) bool {
				return mine(r) && w.rRole[r.RoleID] != nil && w.rRole[r.RoleID].has("", *a, nil)
			})
		}
		if w.rPrin[p] == nil {
			only, must = false, false
		}
		if got && !only {
			return ask + " is granted, no assignment of the principal confers it"
		}
		if !got && must {
			return ask + " is denied, an assignment of the principal confers it"
		}
	}
	return ""
}

func TestVerifC13(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		w := newWorld(h, plainIDs)
		weights := map[string]int{"reg": 5, "ten": 7, "asg": 8, "role": 5, "group": 1}
		if h.rng.Intn(2) == 0 {
			w.dense = true
			w.ids = plainIDs[:2+h.rng.Intn(3)]
			w.nsIDs = w.ids
			weights = map[string]int{"reg": 1, "ten": 3, "asg": 12, "role": 5, "group": 1}
		}
		w.runCase(12+h.rng.Intn(40), weights, w.checkAuth)
	}
	h.done()
}

func (w *world) checkRegs() string {
	ids := append(append([]string{}, w.ids...), "", "zz")
	for _, id := range ids {
		if got, ok := w.m.GetTenant(id); ok != (w.rTen[id] != nil) || ok && got != w.rTen[id].real {
			return fmt.Sprintf("GetTenant(%q) is wrong (found %v)", id, ok)
		}
		if got, ok := w.m.GetNamespace(id); ok != (w.rNs[id] != nil) || ok && got != w.rNs[id].real {
			return fmt.Sprintf("GetNamespace(%q) is wrong (found %v)", id, ok)
		}
		if got, ok := w.m.GetScope(id); ok != (w.rScope[id] != nil) || ok && got != w.rScope[id] {
			return fmt.Sprintf("GetScope(%q) is wrong (found %v)", id, ok)
		}
		if got, ok := w.m.GetPrincipal(id); ok != (w.rPrin[id] != nil) || ok && got != w.rPrin[id] {
			return fmt.Sprintf("GetPrincipal(%q) is wrong (found %v)", id, ok)
		}
		if got, ok := w.m.GetRole(id); ok != (w.rRole[id] != nil) || ok && got != w.rRole[id].real {
			return fmt.Sprintf("GetRole(%q) is wrong (found %v)", id, ok)
		}
	}
	for _, id := range []string{"g", "h", "", "zz"} {
		if got, ok := w.m.GetAttributeGroup(id); ok != (w.rGroup[id] != nil) || ok && got != w.rGroup[id].real {
			return fmt.Sprintf("GetAttributeGroup(%q) is wrong (found %v)", id, ok)
		}
	}
	for _, r := range resources {
		for _, a := range actions {
			k := r + " " + a
			if got, ok := w.m.GetAttribute(k); ok != (w.rAttr[k] != nil) || got != w.rAttr[k] {
				return fmt.Sprintf("GetAttribute(%q) is wrong (found %v)", k, ok)
			}
		}
	}
	type lst struct {
		name string
		got  []string
		want map[string]bool
		n    uintptr
	}
	keys := func(l []string) map[string]bool {
		m := map[string]bool{}
		for _, s := range l {
			m[s] = true
		}
		return m
	}
	for _, l := range []lst{
		{"Tenants", w.m.Tenants(), keys(sortedKeys(w.rTen)), w.m.TotalTenants()},
		{"Namespaces", w.m.Namespaces(), keys(sortedKeys(w.rNs)), w.m.TotalNamespaces()},
		{"Scopes", w.m.Scopes(), keys(sortedKeys(w.rScope)), w.m.TotalScopes()},
		{"Principals", w.m.Principals(), keys(sortedKeys(w.rPrin)), w.m.TotalPrincipals()},
		{"Roles", w.m.Roles(), keys(sortedKeys(w.rRole)), w.m.TotalRoles()},
		{"Attributes", w.m.Attributes(), keys(sortedKeys(w.rAttr)), w.m.TotalAttributes()},
	} {
		if !sameSet(l.got, l.want) || int(l.n) != len(l.want) {
			return fmt.Sprintf("%s = %q, total %d, want %v", l.name, l.got, l.n, l.want)
		}
	}
	return ""
}

func TestVerifC14v1(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		ids := oddIDs
		if h.rng.Intn(2) == 0 {
			ids = plainIDs
		}
		w := newWorld(h, ids)
		if h.rng.Intn(3) == 0 {
			// what a tenant and its namespaces contain shows in assignments and allowed roles
			w.ids, w.dense = plainIDs[:2+h.rng.Intn(3)], h.rng.Intn(2) == 0
			w.nsIDs = w.ids
			w.runCase(10+h.rng.Intn(30), map[string]int{"reg": 3, "ten": 10, "asg": 8, "role": 1}, func() string {
				msg := w.checkAllowed()
				if msg == "" {
					msg = w.checkRows()
				}
				return msg
			})
			continue
		}
		w.runCase(6+h.rng.Intn(20), map[string]int{"reg": 10, "ten": 1, "asg": 1, "role": 1, "group": 1}, w.checkRegs)
	}
	h.done()
}

func (w *world) checkHier() string {
	for i, r := range w.roles {
		got := map[*v1.Role]bool{}
		for _, d := range r.real.GetDescendantRoles() {
			got[d] = true
		}
		want := r.all()
		if len(got) != len(want) || want[r] {
			return fmt.Sprintf("R%d.GetDescendantRoles has %d roles, want %d", i, len(got), len(want))
		}
		for d := range want {
			if !got[d.real] {
				return fmt.Sprintf("R%d.GetDescendantRoles lacks a role", i)
			}
		}
	}
	for i, r := range w.tens {
		got := map[*v1.Tenant]bool{}
		for _, d := range r.real.GetDescendantTenants() {
			got[d] = true
		}
		want := r.all()
		if len(got) != len(want) || want[r] {
			return fmt.Sprintf("T%d.GetDescendantTenants has %d tenants, want %d", i, len(got), len(want))
		}
		for d := range want {
			if !got[d.real] {
				return fmt.Sprintf("T%d.GetDescendantTenants lacks a tenant", i)
			}
		}
	}
	return ""
}

func TestVerifC20v1(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		w := newWorld(h, plainIDs)
		w.runCase(6+h.rng.Intn(24), map[string]int{"role": 8, "ten": 10}, w.checkHier)
	}
	h.done()
}

// results of the allowed-role computation are not overwritten by later calls
func TestVerifC15v1(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		w := newWorld(h, plainIDs)
		type kept struct {
			got, copy []string
			text      string
		}
		var all []kept
		w.runCase(25+h.rng.Intn(30), map[string]int{"reg": 5, "ten": 7, "asg": 8, "role": 2}, func() string {
			t, p, n, s := w.id(), w.id(), w.h.pick(append([]string{"", ""}, w.nsIDs...)...), w.h.pick(append([]string{"", ""}, w.ids...)...)
			if w.rTen[t] == nil {
				return ""
			}
			got := w.m.GetAllowedRoles(w.m.GetPrincipalRoles(t, p), n, s)
			all = append(all, kept{got, append([]string(nil), got...), fmt.Sprintf("GetAllowedRoles(rows of %q in %q, %q, %q)", p, t, n, s)})
			for _, k := range all {
				for i := range k.got {
					if k.got[i] != k.copy[i] {
						return fmt.Sprintf("the result of %s was %q and later became %q", k.text, k.copy, k.got)
					}
				}
			}
			// what a call returns depends on its arguments, not on what earlier calls left in the buffers
			again := w.m.GetAllowedRoles(w.m.GetPrincipalRoles(t, p), n, s)
			set := func(xs []string) string {
				xs = slices.Clone(xs)
				slices.Sort(xs)
				return fmt.Sprintf("%q", slices.Compact(xs))
			}
			if set(got) != set(again) {
				return fmt.Sprintf("%s returned %q and then %q", all[len(all)-1].text, got, again)
			}
			return ""
		})
	}
	h.done()
}
