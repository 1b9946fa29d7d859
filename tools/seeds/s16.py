{"id":"C13-foreign-scope-in-namespace","property":"C13","dir":"v1",
"needs":"a request with activity, tenant, namespace and a scope that the tenant does not have (two sites cooperate: the allowed-role computation then returns nothing, which means no restriction)",
"breaks":"the scope is only validated when no namespace is named, so a scope the tenant does not have leads to a grant",
"edits":[("v1/role_manager.go","""	if scope != "" {
		if _, ok := tenant.scopes.Get(scope); !ok {""","""	if scope != "" && namespace == "" {
		if _, ok := tenant.scopes.Get(scope); !ok {""")],
"demo":'''package v1_test
import ("testing"; p "github.com/oarkflow/permission/v1")
func TestSeedDemo(t *testing.T) {
	m := p.New()
	ten := m.AddTenant(p.NewTenant("t"))
	m.AddPrincipal(p.NewPrincipal("u"))
	r := m.AddRole(p.NewRole("r"))
	if r.AddPermission("g", p.NewAttribute("/x", "GET")) != nil { t.Fatal() }
	n := m.AddNamespace(p.NewNamespace("n"))
	ten.AddNamespace(n); ten.AddRole(r); ten.AddPrincipal("u", "r")
	m.AddScope(p.NewScope("s"))
	if m.Authorize("u", p.WithTenant("t"), p.WithNamespace("n"), p.WithScope("s"), p.WithResourceGroup("g"), p.WithActivity("/x GET")) { t.Fatal("granted for a scope the tenant does not have") }
	if !m.Authorize("u", p.WithTenant("t"), p.WithNamespace("n"), p.WithResourceGroup("g"), p.WithActivity("/x GET")) { t.Fatal("setup") }
}
'''}
