{"id":"C05-unregistered-child-ends-walk","property":"C05","dir":"v2",
"needs":"a role whose first inherited role is not (yet) registered, followed by a registered one",
"breaks":"ResolvePermissions stops at the first unregistered role instead of skipping it, so permissions of later inherited roles are lost",
"edits":[("v2/role.go","""		role, exists := dag.roles[current]
		if !exists {
			continue
		}
		role.m.RLock()""","""		role, exists := dag.roles[current]
		if !exists {
			break
		}
		role.m.RLock()""")],
"demo":'''package v2_test
import ("testing"; v2 "github.com/oarkflow/permission/v2")
func TestSeedDemo(t *testing.T) {
	d := v2.NewRoleDAG()
	a, c := v2.NewRole("a"), v2.NewRole("c")
	c.AddPermission(v2.NewPermission("x", "/r", "GET"))
	d.AddRole(a, c)
	if err := d.AddChildRole("a", "b", "c"); err != nil { t.Fatal(err) }
	if _, ok := d.ResolvePermissions("a")["/r GET"]; !ok { t.Fatal("inherited permission lost") }
}
'''}
