{"id":"C12-scoped-manage-flag-lost","property":"C12","dir":"v1",
"needs":"an assignment with a scope and explicit refusal of descendant management",
"breaks":"the descendant-management flag of assignments with a scope is ignored and stored as true",
"edits":[("v1/role_manager.go","""	if len(canManageDescendants) > 0 {""","""	if len(canManageDescendants) > 0 && scope == nil {""")],
"demo":'''package v1_test
import ("testing"; p "github.com/oarkflow/permission/v1")
func TestSeedDemo(t *testing.T) {
	m := p.New()
	ten := m.AddTenant(p.NewTenant("t"))
	m.AddPrincipalRole("u", "r", ten, nil, p.NewScope("s"), false)
	rs := m.GetPrincipalRoles("t", "u")
	if len(rs) != 1 || rs[0].CanManageDescendants { t.Fatal("assignment read back differently", rs) }
}
'''}
