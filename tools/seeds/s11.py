{"id":"C09-unregistered-namespace-with-tenant","property":"C09","dir":"",
"needs":"a namespace recorded in a tenant but never registered with the manager, and a request naming tenant and namespace",
"breaks":"the namespace is only validated when no tenant is named, so a request for an unregistered namespace is granted",
"edits":[("authorize.go","""	if svr.namespace != nil {
		if _, ok := u.namespaces""","""	if svr.namespace != nil && svr.tenant == nil {
		if _, ok := u.namespaces""")],
"demo":'''package permission_test
import ("testing"; p "github.com/oarkflow/permission")
func TestSeedDemo(t *testing.T) {
	m := p.New()
	ten := m.AddTenant(p.NewTenant("t"))
	m.AddPrincipal(p.NewPrincipal("u")); m.AddRole(p.NewRole("r"))
	ten.AddNamespace(p.NewNamespace("n"))
	if err := ten.AddPrincipalWithRole("u", "r", false); err != nil { t.Fatal(err) }
	if m.Authorize("u", p.WithTenant("t"), p.WithNamespace("n")) { t.Fatal("granted for an unregistered namespace") }
}
'''}
