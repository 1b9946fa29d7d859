{"id":"C14-group-merged-on-reuse","property":"C14","dir":"",
"needs":"an attribute group registered under an identifier that is already used by a group with other attributes",
"breaks":"re-registering an attribute group merges its attributes into the earlier group instead of changing nothing",
"edits":[("activity_group.go","""	if d, ok := u.attributeGroups.Get(attr.id); ok {
		return d
	}""","""	if d, ok := u.attributeGroups.Get(attr.id); ok {
		attr.permissions.ForEach(func(_ string, a *Attribute) bool {
			d.AddAttributes(a)
			return true
		})
		return d
	}""")],
"demo":'''package permission_test
import ("testing"; p "github.com/oarkflow/permission")
func TestSeedDemo(t *testing.T) {
	m := p.New()
	g := m.AddAttributeGroup(p.NewAttributeGroup("g"))
	r := p.NewRole("r")
	if r.AddPermissionResourceGroup(g) != nil { t.Fatal() }
	h := p.NewAttributeGroup("g"); h.AddAttributes(p.NewAttribute("/x", "GET"))
	if m.AddAttributeGroup(h) != g { t.Fatal("not the earlier one") }
	if len(r.GetResourceGroupPermissions("g")) != 0 { t.Fatal("earlier group changed") }
}
'''}
