{"id":"C18-default-namespace-reset","property":"C18","dir":"v2",
"needs":"a namespace with scopes that is added again as the default one",
"breaks":"re-adding an existing namespace as default replaces it and loses its scopes",
"edits":[("v2/role.go","""	if _, exists := t.Namespaces[namespace]; !exists {
		t.Namespaces[namespace] = NewNamespace(namespace)
	}
	if len(isDefault) > 0 && isDefault[0] {
		t.DefaultNS = namespace
	}""","""	makeDefault := len(isDefault) > 0 && isDefault[0]
	if _, exists := t.Namespaces[namespace]; !exists || makeDefault {
		t.Namespaces[namespace] = NewNamespace(namespace)
	}
	if makeDefault {
		t.DefaultNS = namespace
	}""")],
"demo":'''package v2_test
import ("testing"; v2 "github.com/oarkflow/permission/v2")
func TestSeedDemo(t *testing.T) {
	x := v2.NewTenant("t")
	x.AddNamespace("n")
	if err := x.AddScopeToNamespace("n", v2.NewScope("s")); err != nil { t.Fatal(err) }
	x.AddNamespace("n", true)
	if x.Namespaces["n"].Scopes["s"] == nil { t.Fatal("scope lost") }
}
'''}
