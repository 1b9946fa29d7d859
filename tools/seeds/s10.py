{"id":"C08-first-insert-wins","property":"C08","dir":"trie",
"needs":"two different records with the same key tuple inserted one after the other",
"breaks":"a record already stored under the key tuple is kept, so the later one is never visible",
"edits":[("trie/trie.go","""	node.isEnd = true
	node.data = data""","""	if !node.isEnd {
		node.isEnd = true
		node.data = data
	}""")],
"demo":'''package trie_test
import ("testing"; "github.com/oarkflow/permission/trie")
type rec struct{ k string; payload int }
func TestSeedDemo(t *testing.T) {
	x := trie.New[rec](func(a, b *rec) bool { return true }, func(r *rec) []any { return []any{r.k} })
	x.Insert(&rec{"a", 1}); x.Insert(&rec{"a", 2})
	d := x.Data()
	if len(d) != 1 || d[0].payload != 2 { t.Fatal("the record inserted last is not the one held") }
}
'''}
