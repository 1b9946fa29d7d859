package v2_test

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"

	v2 "github.com/oarkflow/permission/v2"
)

// Random concurrent use of the exported operations under the race detector.
func TestVerifC16(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		a := v2.NewAuthorizer()
		var ten [4]*v2.Tenant
		for i := range ten {
			ten[i] = v2.NewTenant(fmt.Sprint("t", i), "n1")
			if h.rng.Intn(3) > 0 {
				a.AddTenant(ten[i])
			}
		}
		ten[0].AddChildTenant(ten[1])
		var roles [4]*v2.Role
		for i := range roles {
			roles[i] = v2.NewRole(fmt.Sprint("r", i))
			if h.rng.Intn(3) > 0 {
				a.AddRole(roles[i])
			}
		}
		dag := v2.NewRoleDAG()
		var desc []string
		var plans [4][]func()
		for g := range plans {
			rng := rand.New(rand.NewSource(h.rng.Int63()))
			for n := 0; n < 14; n++ {
				k, j := rng.Intn(4), rng.Intn(4)
				p := fmt.Sprint("p", rng.Intn(2))
				var fn func()
				op := rng.Intn(22)
				switch op {
				case 0:
					fn = func() { a.AddTenant(ten[k]) }
				case 1:
					fn = func() { a.AddTenants(ten[k], ten[j]) }
				case 2:
					fn = func() { a.GetTenant(fmt.Sprint("t", k)) }
				case 3:
					fn = func() { a.SetDefaultTenant(fmt.Sprint("t", k)) }
				case 4:
					fn = func() { a.GetDefaultTenant() }
				case 5:
					fn = func() { a.AddRole(roles[k]) }
				case 6:
					fn = func() { a.AddRoles(roles[k], roles[j]) }
				case 7:
					fn = func() { a.GetRole(fmt.Sprint("r", k)) }
				case 8:
					fn = func() { a.AddChildRole(fmt.Sprint("r", k), fmt.Sprint("r", j)) }
				case 9:
					fn = func() { roles[k].AddPermission(v2.NewPermission("c", "/a", "GET")) }
				case 10:
					fn = func() { roles[k].RemovePermission(v2.NewPermission("c", "/a", "GET")) }
				case 11:
					fn = func() { ten[k].AddNamespace(fmt.Sprint("n", j), j == 0) }
				case 12:
					fn = func() { ten[k].AddScopeToNamespace("n1", v2.NewScope(fmt.Sprint("s", j))) }
				case 13:
					if k < j { // no cycles: lock order follows the tenant hierarchy
						fn = func() { ten[k].AddChildTenant(ten[j]) }
					} else {
						fn = func() {}
					}
				case 14, 15:
					fn = func() {
						a.AddPrincipalRole(&v2.PrincipalRole{Principal: p, Tenant: fmt.Sprint("t", k), Role: fmt.Sprint("r", j), ManageChildTenant: true})
					}
				case 16:
					fn = func() { a.RemovePrincipalRole(v2.PrincipalRole{Principal: p, Tenant: fmt.Sprint("t", k)}) }
				case 17, 18:
					fn = func() {
						a.Authorize(v2.Request{Principal: p, Tenant: fmt.Sprint("t", k), Resource: "/a", Action: "GET", Scope: []string{"", "s1"}[j%2]})
						a.Authorize(v2.Request{Principal: p, Resource: "/a", Action: "GET"})
					}
				case 19, 20:
					fn = func() { a.Can(v2.Request{Principal: p, Tenant: fmt.Sprint("t", k), Namespace: "n1"}, "r0", "x") }
				case 21:
					fn = func() {
						dag.AddRole(roles[k])
						dag.AddChildRole(fmt.Sprint("r", k), fmt.Sprint("r", j))
						dag.ResolvePermissions("r0")
						dag.ResolveChildRoles("r1")
					}
				}
				plans[g] = append(plans[g], fn)
				desc = append(desc, fmt.Sprintf("g%d:op%d(%d,%d,%s)", g, op, k, j, p))
			}
		}
		h.run(strings.Join(desc, " "), true, func() string {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, f := range plans[g] {
						f()
					}
				}()
			}
			close(start)
			wg.Wait()
			return ""
		})
	}
	h.done()
}
