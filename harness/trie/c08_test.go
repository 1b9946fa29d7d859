package trie_test

import (
	"fmt"
	"testing"

	"github.com/oarkflow/permission/trie"
)

type vrec struct {
	keys []any
	val  int
}

func vkey(ks []any) string { return fmt.Sprintf("%#v", ks) }

func TestVerifC08(t *testing.T) {
	h := vhNew(t)
	vals := []any{nil, "", "a", "b", "nil", true, false, 0, 1}
	for h.more() {
		width := h.rng.Intn(4) // 0: tuples of different lengths
		nops := 1 + h.rng.Intn(8)
		if h.rng.Intn(20) == 0 {
			nops = 30 + h.rng.Intn(40)
		}
		nv := 2 + h.rng.Intn(len(vals)-1)
		var ops [][]any
		for i := 0; i < nops; i++ {
			n := width
			if width == 0 {
				n = h.rng.Intn(4)
			}
			ks := make([]any, n)
			for j := range ks {
				ks[j] = vals[h.rng.Intn(nv)]
			}
			ops = append(ops, ks)
		}
		input := fmt.Sprintf("insert %#v", ops)
		h.run(input, nops > 1, func() string {
			match := func(f, r *vrec) bool { return f == nil || r.val%f.val == 0 }
			tr := trie.New[vrec](match, func(r *vrec) []any { return r.keys })
			tr2 := trie.New[vrec](match, func(r *vrec) []any { return r.keys })
			tr2.Insert(&vrec{keys: []any{"a"}, val: 1000})
			model := map[string]*vrec{}
			for i, ks := range ops {
				r := &vrec{keys: ks, val: i + 1}
				tr.Insert(r)
				tr.Insert(nil)
				model[vkey(ks)] = r
				if i != len(ops)-1 && h.rng.Intn(3) != 0 {
					continue
				}
				all := func(*vrec) bool { return true }
				if m := vcmp(fmt.Sprintf("Data after %d inserts", i+1), tr.Data(), model, all); m != "" {
					return m
				}
				for _, k := range []int{1, 2, 3, 97} {
					f := &vrec{val: k}
					acc := func(r *vrec) bool { return r.val%k == 0 }
					odd := func(r *vrec) bool { return r.val%k == 1 }
					cb := func(f, r *vrec) bool { return r.val%f.val == 1 }
					if m := vcmp(fmt.Sprintf("Search(%d)", k), tr.Search(f), model, acc); m != "" {
						return m
					}
					if m := vcmp(fmt.Sprintf("SearchFunc(%d)", k), tr.SearchFunc(f, cb), model, odd); m != "" {
						return m
					}
					if m := vone(fmt.Sprintf("First(%d)", k), tr.First(f), model, acc); m != "" {
						return m
					}
					if m := vone(fmt.Sprintf("FirstFunc(%d)", k), tr.FirstFunc(f, cb), model, odd); m != "" {
						return m
					}
				}
			}
			if d := tr2.Data(); len(d) != 1 || d[0].val != 1000 {
				return "inserting into one trie changed another"
			}
			return ""
		})
	}
	h.done()
}

func vcmp(what string, got []*vrec, model map[string]*vrec, acc func(*vrec) bool) string {
	seen := map[*vrec]bool{}
	for _, r := range got {
		if r == nil {
			return what + " returned a nil record"
		}
		if model[vkey(r.keys)] != r || !acc(r) {
			return fmt.Sprintf("%s returned %#v (insert %d), which is not held or does not match", what, r.keys, r.val)
		}
		if seen[r] {
			return fmt.Sprintf("%s returned %#v twice", what, r.keys)
		}
		seen[r] = true
	}
	for _, r := range model {
		if acc(r) && !seen[r] {
			return fmt.Sprintf("%s lacks %#v (insert %d)", what, r.keys, r.val)
		}
	}
	return ""
}

func vone(what string, got *vrec, model map[string]*vrec, acc func(*vrec) bool) string {
	if got != nil {
		if model[vkey(got.keys)] != got || !acc(got) {
			return fmt.Sprintf("%s returned %#v, which is not held or does not match", what, got.keys)
		}
		return ""
	}
	for _, r := range model {
		if acc(r) {
			return fmt.Sprintf("%s returned nil but %#v matches", what, r.keys)
		}
	}
	return ""
}
