{"id":"C20-cycle-through-locked-role","property":"C20","dir":"v1",
"needs":"a chain of inherited roles whose middle role is locked",
"breaks":"the inherited roles of a locked role are left out of the listing, so a cycle through a locked role is accepted",
"edits":[("v1/role.go","""		descendants = append(descendants, child.GetDescendantRoles()...)
		return true""","""		if !child.lock {
			descendants = append(descendants, child.GetDescendantRoles()...)
		}
		return true""")],
"demo":'''package v1_test
import ("testing"; p "github.com/oarkflow/permission/v1")
func TestSeedDemo(t *testing.T) {
	a, b, c := p.NewRole("a"), p.NewRole("b"), p.NewRole("c")
	if b.AddDescendent(c) != nil || a.AddDescendent(b) != nil { t.Fatal() }
	b.Lock()
	if c.AddDescendent(a) == nil { t.Fatal("cycle accepted") }
}
'''}
