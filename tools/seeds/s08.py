{"id":"C07-last-star-nonempty","property":"C07","dir":"utils",
"needs":"a pattern ending in '*' and a value that ends where the '*' begins",
"breaks":"a trailing '*' has to match at least one character",
"edits":[("utils/str.go","""			if pIndex == pLen-1 {
				return true
			}""","""			if pIndex == pLen-1 {
				return vIndex < vLen || vLen == 0
			}""")],
"demo":'''package utils_test
import ("testing"; "github.com/oarkflow/permission/utils")
func TestSeedDemo(t *testing.T) {
	if !utils.MatchResource("/a/", "/a/*") { t.Fatal("the star may match nothing") }
}
'''}
