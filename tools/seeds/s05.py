{"id":"C01-eleventh-tenant","property":"C01","dir":"v2",
"needs":"a request without tenant by a principal with assignments in more than ten tenants",
"breaks":"only ten of the principal's tenants are considered",
"edits":[("v2/v2.go","""		} else {
			targetTenants = tenants
		}""","""		} else {
			copy(tenantBuffer[:], tenants)
			targetTenants = tenantBuffer[:]
		}""")],
"demo":'''package v2_test
import ("fmt"; "testing"; v2 "github.com/oarkflow/permission/v2")
func TestSeedDemo(t *testing.T) {
	for k := 0; k < 40; k++ {
		a := v2.NewAuthorizer()
		r := v2.NewRole("r")
		r.AddPermission(v2.NewPermission("x", "/r", "GET"))
		a.AddRoles(r, v2.NewRole("none"))
		for i := 0; i < 14; i++ {
			id := fmt.Sprint("t", i)
			a.AddTenant(v2.NewTenant(id, "n"))
			role := "none"
			if i == 7 { role = "r" }
			a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: id, Role: role})
		}
		if !a.Authorize(v2.Request{Principal: "p", Resource: "/r", Action: "GET"}) { t.Fatal("refused") }
	}
}
'''}
