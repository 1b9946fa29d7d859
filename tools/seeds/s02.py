{"id":"C04-edges-kept-on-error","property":"C04","dir":"v2",
"needs":"a refused AddChildRole call followed by another operation on the hierarchy",
"breaks":"AddChildRole adds the edges before checking and does not take them back, so the refused cycle is in the hierarchy",
"edits":[("v2/role.go","""	if err := dag.checkCircularDependency(parent, child...); err != nil {
		return err
	}
	dag.edges[parent] = append(dag.edges[parent], child...)
	return nil
}""","""	err := dag.checkCircularDependency(parent, child...)
	dag.edges[parent] = append(dag.edges[parent], child...)
	return err
}""")],
"demo":'''package v2_test
import ("testing"; v2 "github.com/oarkflow/permission/v2")
func TestSeedDemo(t *testing.T) {
	d := v2.NewRoleDAG()
	a, b := v2.NewRole("a"), v2.NewRole("b")
	a.AddPermission(v2.NewPermission("x", "/r", "GET"))
	d.AddRole(a, b)
	if err := d.AddChildRole("a", "b"); err != nil { t.Fatal(err) }
	if err := d.AddChildRole("b", "a"); err == nil { t.Fatal("cycle accepted") }
	if len(d.ResolvePermissions("b")) != 0 { t.Fatal("a refused edge is in force") }
}
'''}
