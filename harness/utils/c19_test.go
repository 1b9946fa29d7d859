package utils_test

import (
	"fmt"
	"sort"
	"testing"

	"github.com/oarkflow/permission/utils"
)

type vrow struct{ a, b, c any }

func TestVerifC19(t *testing.T) {
	h := vhNew(t)
	vals := []any{nil, "", "a", "b", "1", 1, 2, int64(1), true, false, 'x', 1.5, struct{}{}}
	pickAny := func(n int) any { return vals[h.rng.Intn(n)] }
	for h.more() {
		nv := 2 + h.rng.Intn(len(vals)-1)
		xs := make([]any, h.rng.Intn(8))
		if h.rng.Intn(30) == 0 {
			xs = make([]any, 40+h.rng.Intn(30))
		}
		for i := range xs {
			xs[i] = pickAny(nv)
		}
		h.run(fmt.Sprintf("Compact %#v", xs), len(xs) > 1, func() string {
			in := append([]any{}, xs...)
			got := utils.Compact(in)
			seen := map[any]bool{}
			for _, x := range got {
				if seen[x] {
					return fmt.Sprintf("%#v occurs twice", x)
				}
				seen[x] = true
			}
			want := map[any]bool{}
			for i, x := range xs {
				want[x] = true
				if in[i] != x {
					return "the input was changed"
				}
			}
			if len(want) != len(seen) {
				return fmt.Sprintf("got %#v", got)
			}
			for x := range want {
				if !seen[x] {
					return fmt.Sprintf("%#v is missing", x)
				}
			}
			for _, x := range vals {
				if utils.Contains(xs, x) != want[x] {
					return fmt.Sprintf("Contains(%#v) = %v", x, !want[x])
				}
			}
			return ""
		})
		f := &vrow{pickAny(nv), pickAny(nv), pickAny(nv)}
		r := &vrow{pickAny(nv), pickAny(nv), pickAny(nv)}
		fields := []func(*vrow) any{func(r *vrow) any { return r.a }, func(r *vrow) any { return r.b }, func(r *vrow) any { return r.c }}
		var use []int
		for i := range fields {
			if h.rng.Intn(2) == 0 {
				use = append(use, i)
			}
		}
		h.run(fmt.Sprintf("FilterByFields filter=%#v row=%#v fields=%v", *f, *r, use), len(use) > 0, func() string {
			want := true
			var fs []func(*vrow) any
			for _, i := range use {
				fs = append(fs, fields[i])
				if fields[i](r) == nil || fields[i](r) != fields[i](f) {
					want = false
				}
			}
			if got := utils.FilterByFields(f, r, fs...); got != want {
				return fmt.Sprintf("got %v", got)
			}
			return ""
		})
		ls, rs := make([]int, h.rng.Intn(5)), make([]string, h.rng.Intn(5))
		for i := range ls {
			ls[i] = h.rng.Intn(3)
		}
		for i := range rs {
			rs[i] = h.pick("a", "bb", "ccc", "")
		}
		h.run(fmt.Sprintf("JoinSlices %v %q", ls, rs), len(ls)*len(rs) > 1, func() string {
			join := func(l int, r string) bool { return (l+len(r))%2 == 0 }
			var want []string
			for _, l := range ls {
				for _, r := range rs {
					if join(l, r) {
						want = append(want, fmt.Sprint(l, r))
					}
				}
			}
			got := utils.JoinSlices(ls, rs, join, func(l int, r string) string { return fmt.Sprint(l, r) })
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprintf("%q", append([]string{}, got...)) != fmt.Sprintf("%q", append([]string{}, want...)) {
				return fmt.Sprintf("got %q, want %q", got, want)
			}
			return ""
		})
	}
	h.done()
}
