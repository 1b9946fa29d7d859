{"id":"C11-single-allowed-role-ignored","property":"C11","dir":"",
"needs":"an inheritance check restricted to exactly one allowed role",
"breaks":"a restriction to a single role is ignored, so permissions of inherited roles that are not allowed count",
"edits":[("role.go","""		if totalD > 0 {
			if slices""","""		if totalD > 1 {
			if slices""")],
"demo":'''package permission_test
import ("testing"; p "github.com/oarkflow/permission")
func TestSeedDemo(t *testing.T) {
	a, b := p.NewRole("a"), p.NewRole("b")
	if a.AddPermission("g", p.NewAttribute("/x", "GET")) != nil || b.AddPermission("g", p.NewAttribute("/y", "GET")) != nil { t.Fatal() }
	if a.AddDescendant(b) != nil { t.Fatal() }
	if a.Has("g", "/y GET", "c") { t.Fatal("a role that is not allowed counted") }
}
'''}
