{"id":"C08-growth-drops-oldest","property":"C08","dir":"trie",
"needs":"a search with more than ten matching records",
"breaks":"when the result buffer grows, the copy starts at the second result, so a matching record is missing and a nil is returned",
"edits":[("trie/trie.go","""				copy(newResults, results)""","""				copy(newResults, results[1:])""")],
"demo":'''package trie_test
import ("testing"; "github.com/oarkflow/permission/trie")
type rec struct{ k int }
func TestSeedDemo(t *testing.T) {
	x := trie.New[rec](func(a, b *rec) bool { return true }, func(r *rec) []any { return []any{r.k} })
	for i := 0; i < 12; i++ { x.Insert(&rec{i}) }
	seen := map[int]bool{}
	for _, r := range x.Search(&rec{}) { if r == nil { t.Fatal("nil result") }; seen[r.k] = true }
	if len(seen) != 12 { t.Fatal("record missing", len(seen)) }
}
'''}
