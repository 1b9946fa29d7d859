{"id":"C19-join-first-only","property":"C19","dir":"utils",
"needs":"a left element that is accepted with more than one right element",
"breaks":"JoinSlices stops at the first accepted right element of each left element",
"edits":[("utils/filters.go","""				result = append(result, combineFn(l, r))
""","""				result = append(result, combineFn(l, r))
				break
""")],
"demo":'''package utils_test
import ("testing"; "github.com/oarkflow/permission/utils")
func TestSeedDemo(t *testing.T) {
	r := utils.JoinSlices([]int{1}, []int{2, 3}, func(a, b int) bool { return true }, func(a, b int) int { return a*10 + b })
	if len(r) != 2 || r[0] != 12 || r[1] != 13 { t.Fatal(r) }
}
'''}
