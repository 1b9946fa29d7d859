{"id":"C10-namespaces-of-principals-dropped","property":"C10","dir":"",
"needs":"a namespace that occurs in a tenant only in a record of a principal",
"breaks":"GetNamespacesByTenant leaves out records that belong to a principal",
"edits":[("filters.go","""	return MatchTenant(row, filter) && !utils.IsNil(row.Namespace)
""","""	return MatchTenant(row, filter) && !utils.IsNil(row.Namespace) && (utils.IsNil(row.Principal) || !utils.IsNil(row.Scope))
""")],
"demo":'''package permission_test
import ("testing"; p "github.com/oarkflow/permission")
func TestSeedDemo(t *testing.T) {
	m := p.New()
	ten := m.AddTenant(p.NewTenant("t"))
	ten.AddPrincipalInNamespace("u", "n", "r")
	if len(m.GetNamespacesByTenant("t")) != 1 { t.Fatal("record missing") }
}
'''}
