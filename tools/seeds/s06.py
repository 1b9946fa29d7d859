{"id":"C02-expired-role-counts","property":"C02","dir":"v2",
"needs":"an expired assignment, asked through Can",
"breaks":"an expired assignment with a namespace still makes Can true",
"edits":[("v2/v2.go","""			if userRole.IsExpired() {
				continue
			}
			if (userRole.Namespace == "" || userRole.Namespace == namespace) && userRole.Role != "" {""","""			if userRole.Namespace == "" && userRole.IsExpired() {
				continue
			}
			if (userRole.Namespace == "" || userRole.Namespace == namespace) && userRole.Role != "" {""")],
"demo":'''package v2_test
import ("testing"; "time"; v2 "github.com/oarkflow/permission/v2")
func TestSeedDemo(t *testing.T) {
	a := v2.NewAuthorizer()
	a.AddTenant(v2.NewTenant("t", "n"))
	a.AddRole(v2.NewRole("r"))
	past := time.Now().Add(-time.Hour)
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Namespace: "n", Role: "r", Expiry: &past})
	if a.Can(v2.Request{Principal: "p", Tenant: "t", Namespace: "n"}, "r") { t.Fatal("expired assignment counts") }
}
'''}
