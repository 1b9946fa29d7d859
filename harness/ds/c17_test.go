package ds_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/oarkflow/permission/ds"
)

// lists built by random histories of Empty, Append and Concat; every list made
// so far is compared with its model after every operation
func TestVerifC17(t *testing.T) {
	h := vhNew(t)
	type op struct{ k, a, b int }
	for h.more() {
		n := 1 + h.rng.Intn(10)
		var ops []op
		var sb strings.Builder
		for i := 0; i < n; i++ {
			o := op{h.rng.Intn(5), h.rng.Intn(i + 1), h.rng.Intn(i + 1)}
			ops = append(ops, o)
			switch o.k {
			case 0:
				fmt.Fprintf(&sb, "l%d=Empty; ", i+1)
			case 1, 2:
				fmt.Fprintf(&sb, "l%d=l%d.Append(%d); ", i+1, o.a, i)
			default:
				fmt.Fprintf(&sb, "l%d=l%d.Concat(l%d); ", i+1, o.a, o.b)
			}
		}
		h.run("l0=Empty; "+sb.String(), n > 2, func() string {
			ls := []ds.Link[int]{ds.Empty[int]()}
			ms := [][]int{{}}
			for i, o := range ops {
				switch o.k {
				case 0:
					ls, ms = append(ls, ds.Empty[int]()), append(ms, nil)
				case 1, 2:
					ls = append(ls, ls[o.a].Append(i))
					ms = append(ms, append(append([]int{}, ms[o.a]...), i))
				default:
					ls = append(ls, ls[o.a].Concat(ls[o.b]))
					ms = append(ms, append(append([]int{}, ms[o.a]...), ms[o.b]...))
				}
				var got [][]int
				for j, l := range ls {
					s := l.AsSlice()
					got = append(got, s)
					if fmt.Sprint(s) != fmt.Sprint(append([]int{}, ms[j]...)) {
						return fmt.Sprintf("after step %d list l%d is %v, want %v", i+1, j, s, ms[j])
					}
					if l.IsEmpty() != (len(ms[j]) == 0) {
						return fmt.Sprintf("l%d.IsEmpty()=%v with elements %v", j, l.IsEmpty(), ms[j])
					}
				}
				for _, s := range got { // what callers do with a result is theirs
					for x := range s {
						s[x] = -7
					}
					_ = append(s, -9)
				}
			}
			for j, l := range ls {
				if s := l.AsSlice(); fmt.Sprint(s) != fmt.Sprint(append([]int{}, ms[j]...)) {
					return fmt.Sprintf("finally list l%d is %v, want %v", j, s, ms[j])
				}
			}
			return ""
		})
	}
	h.done()
}
