{"id":"C11-locked-existing-group","property":"C11","dir":"v1",
"needs":"a locked role that already carries the attribute group",
"breaks":"v1 AddPermission refuses a locked role only when the group is new, so permissions are added to a locked role",
"edits":[("v1/role.go","""	if r.lock {
		return errors.New("changes not allowed")
	}
	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
""","""	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
	if r.lock && !exists {
		return errors.New("changes not allowed")
	}
""")],
"demo":'''package v1_test
import ("testing"; p "github.com/oarkflow/permission/v1")
func TestSeedDemo(t *testing.T) {
	r := p.NewRole("r")
	if r.AddPermission("g", p.NewAttribute("/x", "GET")) != nil { t.Fatal() }
	r.Lock()
	if r.AddPermission("g", p.NewAttribute("/y", "GET")) == nil || r.Has("g", "/y GET") { t.Fatal("locked role changed") }
}
'''}
