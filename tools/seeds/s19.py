{"id":"C16-role-registration-read-lock","property":"C16","dir":"v2","race":True,
"needs":"two goroutines registering roles at the same time",
"breaks":"AddRole writes the role graph while holding the lock only for reading",
"edits":[("v2/role.go","""func (dag *RoleDAG) AddRole(roles ...*Role) {
	dag.mu.Lock()
	defer dag.mu.Unlock()
""","""func (dag *RoleDAG) AddRole(roles ...*Role) {
	dag.mu.RLock()
	defer dag.mu.RUnlock()
""")],
"demo":'''package v2_test
import ("fmt"; "sync"; "testing"; v2 "github.com/oarkflow/permission/v2")
func TestSeedDemo(t *testing.T) {
	d := v2.NewRoleDAG()
	var w sync.WaitGroup
	for g := 0; g < 4; g++ {
		w.Add(1)
		go func() { defer w.Done(); for i := 0; i < 300; i++ { d.AddRole(v2.NewRole(fmt.Sprint(g, i))) } }()
	}
	w.Wait()
}
'''}
