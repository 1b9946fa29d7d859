package v2_test

import (
	"fmt"
	"sync"
	"testing"

	v2 "github.com/oarkflow/permission/v2"
)

// Results handed out stay as they were, and concurrent calls do not disturb
// each other: the state is fixed, many goroutines ask, every answer is compared
// with the oracle.
func TestVerifC15(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		w := newWorld(h)
		var msg string
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg = fmt.Sprint("panic: ", r)
				}
			}()
			w.setup()
			for i := 0; i < 14; i++ {
				w.mutate(true)
			}
		}()
		type q struct {
			req   v2.Request
			roles []string
			can   bool
			want  bool
		}
		var qs []q
		for i := 0; i < 24; i++ {
			r := w.request()
			if i%2 == 0 {
				qs = append(qs, q{req: r, want: w.authorize(r)})
			} else {
				rs := []string{w.of(wRole), w.of(wRole)}
				qs = append(qs, q{req: r, roles: rs, can: true, want: w.can(r, rs...)})
			}
		}
		dag := v2.NewRoleDAG()
		for n, r := range w.roles {
			if w.reg[n] {
				dag.AddRole(r)
			}
		}
		h.run(w.text(), len(w.asg) > 0, func() string {
			if msg != "" {
				return ""
			}
			kept := dag.ResolvePermissions("r1")
			before := fmt.Sprint(keysOf(kept))
			keptR := dag.ResolveChildRoles("r1")
			beforeR := fmt.Sprint(keysOf(keptR))
			var wg sync.WaitGroup
			var mu sync.Mutex
			out := ""
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := range qs {
						x := qs[(i*7+g*5)%len(qs)]
						var got bool
						if x.can {
							got = w.a.Can(x.req, x.roles...)
						} else {
							got = w.a.Authorize(x.req)
						}
						if got != x.want {
							mu.Lock()
							out = fmt.Sprintf("concurrent query %+v gave %v, want %v", x, got, x.want)
							mu.Unlock()
						}
						dag.ResolvePermissions(wRole[(i+g)%len(wRole)])
						dag.ResolveChildRoles(wRole[(i+g)%len(wRole)])
					}
				}()
			}
			wg.Wait()
			if after := fmt.Sprint(keysOf(kept)); after != before {
				return "a permission set handed out earlier changed: " + before + " became " + after
			}
			if after := fmt.Sprint(keysOf(keptR)); after != beforeR {
				return "a role set handed out earlier changed: " + beforeR + " became " + after
			}
			return out
		})
	}
	h.done()
}
