package v2_test

import (
	"fmt"
	"strings"
	"testing"

	v2 "github.com/oarkflow/permission/v2"
)

// Random histories of structure operations against plain data.
type sTen struct {
	id       string
	def      string
	ns       map[string]map[string]*v2.Scope
	children map[string]*v2.Tenant
}

func c18Check(a *v2.Authorizer, real []*v2.Tenant, model []*sTen, regT map[string]*v2.Tenant, regR map[string]*v2.Role, defT string) string {
	for i, t := range real {
		m := model[i]
		if t.ID != m.id || t.DefaultNS != m.def {
			return fmt.Sprintf("tenant %d: ID %q default %q, want %q %q", i, t.ID, t.DefaultNS, m.id, m.def)
		}
		if len(t.Namespaces) != len(m.ns) {
			return fmt.Sprintf("tenant %d: %d namespaces, want %d", i, len(t.Namespaces), len(m.ns))
		}
		for n, sc := range m.ns {
			r := t.Namespaces[n]
			if r == nil || r.ID != n || len(r.Scopes) != len(sc) {
				return fmt.Sprintf("tenant %d: namespace %q is %v, want scopes %v", i, n, r, sc)
			}
			for k, s := range sc {
				if r.Scopes[k] != s {
					return fmt.Sprintf("tenant %d: namespace %q lost scope %q", i, n, k)
				}
			}
		}
		if len(t.ChildTenants) != len(m.children) {
			return fmt.Sprintf("tenant %d: %d children, want %d", i, len(t.ChildTenants), len(m.children))
		}
		for k, c := range m.children {
			if t.ChildTenants[k] != c {
				return fmt.Sprintf("tenant %d: child %q is wrong", i, k)
			}
		}
	}
	for _, id := range []string{"", "t1", "t2", "t3", "x"} {
		got, ok := a.GetTenant(id)
		want, wok := regT[id]
		if ok != wok || got != want {
			return fmt.Sprintf("GetTenant(%q) = %v %v, want %v %v", id, got, ok, want, wok)
		}
	}
	for _, id := range []string{"", "r1", "r2", "r3", "x"} {
		got, ok := a.GetRole(id)
		want, wok := regR[id]
		if ok != wok || got != want {
			return fmt.Sprintf("GetRole(%q) = %v %v, want %v %v", id, got, ok, want, wok)
		}
	}
	d, ok := a.GetDefaultTenant()
	var want *v2.Tenant
	wok := false
	if defT != "" {
		want, wok = regT[defT]
	}
	if d != want || ok != wok {
		return fmt.Sprintf("GetDefaultTenant = %v %v, want %v %v", d, ok, want, wok)
	}
	return ""
}

func TestVerifC18(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		a := v2.NewAuthorizer()
		var real []*v2.Tenant
		var model []*sTen
		var ops []string
		regT, regR := map[string]*v2.Tenant{}, map[string]*v2.Role{}
		defT := ""
		msg := func() (msg string) {
			defer func() {
				if r := recover(); r != nil {
					msg = fmt.Sprintf("panic: %v", r)
				}
			}()
			for i := 3 + h.rng.Intn(20); i > 0; i-- {
				k := 0
				if len(real) > 0 {
					k = h.rng.Intn(len(real))
				}
				op := h.rng.Intn(8)
				if len(real) == 0 {
					op = 0
				}
				switch op {
				case 0:
					m := &sTen{id: h.pick("t1", "t2", "t3", ""), ns: map[string]map[string]*v2.Scope{}, children: map[string]*v2.Tenant{}}
					var args []string
					if h.rng.Intn(3) > 0 {
						m.def = h.pick("n1", "n2")
						m.ns[m.def] = map[string]*v2.Scope{}
						args = append(args, m.def)
						if h.rng.Intn(4) == 0 {
							args = append(args, "n3")
						}
					}
					real = append(real, v2.NewTenant(m.id, args...))
					model = append(model, m)
					ops = append(ops, fmt.Sprintf("T%d := NewTenant(%q, %q)", len(real)-1, m.id, args))
				case 1, 2:
					n := h.pick("n1", "n2", "n3")
					var def []bool
					switch h.rng.Intn(5) {
					case 0:
						def = []bool{true}
						model[k].def = n
					case 1:
						def = []bool{false}
					case 2:
						def = []bool{false, true}
					}
					ops = append(ops, fmt.Sprintf("T%d.AddNamespace(%q, %v)", k, n, def))
					real[k].AddNamespace(n, def...)
					if model[k].ns[n] == nil {
						model[k].ns[n] = map[string]*v2.Scope{}
					}
				case 3, 4:
					n := h.pick("n1", "n2", "n3", "n4")
					var ss []*v2.Scope
					var names []string
					for j := h.rng.Intn(4); j > 0; j-- {
						s := v2.NewScope(h.pick("s1", "s2", "s3"))
						ss = append(ss, s)
						names = append(names, s.ID)
					}
					ops = append(ops, fmt.Sprintf("T%d.AddScopeToNamespace(%q, %q)", k, n, names))
					err := real[k].AddScopeToNamespace(n, ss...)
					if (err == nil) != (model[k].ns[n] != nil) {
						return fmt.Sprintf("error %v but namespace known: %v", err, model[k].ns[n] != nil)
					}
					if err == nil {
						for _, s := range ss {
							model[k].ns[n][s.ID] = s
						}
					}
				case 5:
					var cs []*v2.Tenant
					for j := h.rng.Intn(3); j > 0; j-- {
						c := real[h.rng.Intn(len(real))]
						cs = append(cs, c)
						model[k].children[c.ID] = c
					}
					ops = append(ops, fmt.Sprintf("T%d.AddChildTenant(%d tenants)", k, len(cs)))
					real[k].AddChildTenant(cs...)
				case 6:
					switch h.rng.Intn(3) {
					case 0:
						if r := a.AddTenant(real[k]); r != real[k] {
							return "AddTenant returned another tenant"
						}
						regT[real[k].ID] = real[k]
						ops = append(ops, fmt.Sprintf("AddTenant(T%d)", k))
					case 1:
						j := h.rng.Intn(len(real))
						a.AddTenants(real[k], real[j])
						regT[real[k].ID] = real[k]
						regT[real[j].ID] = real[j]
						ops = append(ops, fmt.Sprintf("AddTenants(T%d, T%d)", k, j))
					case 2:
						defT = h.pick("", "t1", "t2", "x")
						a.SetDefaultTenant(defT)
						ops = append(ops, fmt.Sprintf("SetDefaultTenant(%q)", defT))
					}
				case 7:
					r := v2.NewRole(h.pick("r1", "r2", "r3"))
					regR[r.Name] = r
					if h.rng.Intn(2) == 0 {
						a.AddRole(r)
					} else {
						r2 := v2.NewRole(h.pick("r1", "r2", "r3"))
						a.AddRoles(r, r2)
						regR[r2.Name] = r2
					}
					ops = append(ops, fmt.Sprintf("AddRole(%q)", r.Name))
				}
				if m := c18Check(a, real, model, regT, regR, defT); m != "" {
					return m
				}
			}
			return ""
		}()
		h.run(strings.Join(ops, "; "), len(ops) > 3, func() string { return msg })
	}
	h.done()
}
