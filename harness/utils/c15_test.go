package utils_test

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/oarkflow/permission/utils"
)

// the shared pools: a buffer is with at most one holder at a time, and slices come out empty
func TestVerifC15Pool(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		size := h.rng.Intn(4)
		pool := utils.NewSlicePool[int](size)
		maps := utils.New(func() map[int]int { return map[int]int{} })
		type held struct {
			s []int
			m map[int]int
		}
		var out []*held
		var log []string
		id := 0
		steps := 5 + h.rng.Intn(40)
		h.run("(pool history)", true, func() (msg string) {
			defer func() {
				if msg != "" {
					msg += "; history: " + strings.Join(log, " ")
				}
			}()
			for i := 0; i < steps; i++ {
				if len(out) == 0 || h.rng.Intn(5) < 3 {
					x := &held{s: pool.Get(), m: maps.Get()}
					if len(x.s) != 0 {
						return fmt.Sprintf("Get returned a slice with %d elements", len(x.s))
					}
					id++
					n := h.rng.Intn(5)
					log = append(log, fmt.Sprintf("get#%d(+%d)", id, n))
					for k := 0; k < n; k++ {
						x.s = append(x.s, id)
					}
					clear(x.m)
					x.m[0] = id
					out = append(out, x)
				} else {
					k := h.rng.Intn(len(out))
					log = append(log, fmt.Sprintf("put(%d)", k))
					pool.Put(out[k].s)
					maps.Put(out[k].m)
					out = append(out[:k], out[k+1:]...)
				}
				for _, x := range out {
					for k := range x.s {
						if x.s[k] != x.s[0] {
							return "a slice in use was handed out again"
						}
					}
					for _, y := range out {
						if x != y && (len(x.s) > 0 && len(y.s) > 0 && &x.s[0] == &y.s[0] || x.m[0] == y.m[0]) {
							return "two holders have the same buffer"
						}
					}
				}
			}
			return ""
		})
		// concurrently
		h.run("(four goroutines take and return buffers)", true, func() string {
			var w sync.WaitGroup
			bad := make([]string, 4)
			for g := 0; g < 4; g++ {
				w.Add(1)
				go func(g int) {
					defer w.Done()
					for i := 0; i < 50; i++ {
						s, m := pool.Get(), maps.Get()
						clear(m)
						if len(s) != 0 {
							bad[g] = "Get returned a slice with elements"
						}
						m[0] = g
						for k := 0; k < 5; k++ {
							s = append(s, g)
						}
						for _, x := range s {
							if x != g || m[0] != g {
								bad[g] = "a buffer in use was handed out again"
							}
						}
						pool.Put(s)
						maps.Put(m)
					}
				}(g)
			}
			w.Wait()
			return strings.Join(bad, "")
		})
	}
	h.done()
}
