{"id":"C06-scope-ignored","property":"C06","dir":"v2",
"needs":"two assignments of the same principal and tenant that differ only in scope, and a removal naming the scope",
"breaks":"RemovePrincipalRole ignores the scope of the target for assignments with a namespace, so other assignments disappear too",
"edits":[("v2/v2.go","""		if target.Scope != "" && pr.Scope != target.Scope {""","""		if target.Scope != "" && pr.Namespace == "" && pr.Scope != target.Scope {""")],
"demo":'''package v2_test
import ("testing"; v2 "github.com/oarkflow/permission/v2")
func TestSeedDemo(t *testing.T) {
	a := v2.NewAuthorizer()
	x := v2.NewTenant("t", "n")
	x.AddScopeToNamespace("n", v2.NewScope("s1"), v2.NewScope("s2"))
	a.AddTenant(x)
	r := v2.NewRole("r")
	r.AddPermission(v2.NewPermission("x", "/r", "GET"))
	a.AddRole(r)
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Namespace: "n", Scope: "s1", Role: "r"}, &v2.PrincipalRole{Principal: "p", Tenant: "t", Namespace: "n", Scope: "s2", Role: "r"})
	if err := a.RemovePrincipalRole(v2.PrincipalRole{Scope: "s1"}); err != nil { t.Fatal(err) }
	if !a.Authorize(v2.Request{Principal: "p", Tenant: "t", Namespace: "n", Scope: "s2", Resource: "/r", Action: "GET"}) { t.Fatal("another assignment was removed") }
	if a.Authorize(v2.Request{Principal: "p", Tenant: "t", Namespace: "n", Scope: "s1", Resource: "/r", Action: "GET"}) { t.Fatal("not removed") }
}
'''}
