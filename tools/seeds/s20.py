{"id":"C17-cached-slices-share-memory","property":"C17","dir":"ds",
"needs":"two links built on the same base of at least three elements, both turned into slices",
"breaks":"AsSlice caches its result, and the links built on a shared base append into the same memory, so one changes the elements of the other",
"edits":[("ds/ds.go","""type appendLink[A any] struct {
	element A
	next    Link[A]
}""","""type appendLink[A any] struct {
	element A
	next    Link[A]
	slice   []A
}"""),("ds/ds.go","""	slice := a.next.AsSlice()
	return append(slice, a.element)""","""	if a.slice == nil {
		a.slice = append(a.next.AsSlice(), a.element)
	}
	return a.slice""")],
"demo":'''package ds_test
import ("testing"; "github.com/oarkflow/permission/ds")
func TestSeedDemo(t *testing.T) {
	b := ds.Empty[int]().Append(1).Append(2).Append(3)
	b.AsSlice()
	x, y := b.Append(4), b.Append(5)
	x.AsSlice(); y.AsSlice()
	if x.AsSlice()[3] != 4 { t.Fatal("a link changed") }
}
'''}
