{"id":"C15-single-role-from-pool","property":"C15","dir":"v1",
"needs":"an allowed-role computation with exactly one allowed role, followed by another computation",
"breaks":"a single allowed role is returned in the pooled slice itself, so the next call overwrites the result",
"edits":[("v1/role_manager.go","""	for _, role := range allowedRoles {
		if _, ok := tenant.roles.Get(role); !ok {
			return nil
		}
	}
""","""	for _, role := range allowedRoles {
		if _, ok := tenant.roles.Get(role); !ok {
			return nil
		}
		if len(allowedRoles) == 1 {
			return allowedRoles
		}
	}
""")],
"demo":'''package v1_test
import ("testing"; p "github.com/oarkflow/permission/v1")
func TestSeedDemo(t *testing.T) {
	m := p.New()
	ten := m.AddTenant(p.NewTenant("t"))
	for _, n := range []string{"a", "b"} { ten.AddRole(m.AddRole(p.NewRole(n))) }
	row := func(r string) []p.TenantPrincipal { return []p.TenantPrincipal{{TenantID: "t", PrincipalID: "u", RoleID: r}} }
	for i := 0; i < 2000; i++ {
		x := m.GetAllowedRoles(row("a"), "", "")
		for j := 0; j < 5; j++ { m.GetAllowedRoles(row("b"), "", "") }
		if len(x) != 1 || x[0] != "a" { t.Fatal("an earlier result changed", x) }
	}
}
'''}
