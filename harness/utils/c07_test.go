package utils_test

import (
	"fmt"
	"testing"

	"github.com/oarkflow/permission/utils"
)

func c07sep(c byte) bool { return c == '/' || c == ' ' }

// oracle: a dynamic program over suffixes, written from the property text
func c07oracle(v, p string) bool {
	memo := map[[2]int]int{}
	var m func(i, j int) bool
	m = func(i, j int) bool {
		k := [2]int{i, j}
		if r, ok := memo[k]; ok {
			return r == 1
		}
		memo[k] = 0
		r := false
		switch {
		case j == len(p):
			r = i == len(v)
		case p[j] == '*':
			for k := i; k <= len(v) && !r; k++ {
				r = m(k, j+1)
			}
		case p[j] == ':':
			e := j + 1
			for e < len(p) && !c07sep(p[e]) {
				e++
			}
			for k := i + 1; k <= len(v) && !c07sep(v[k-1]) && !r; k++ {
				r = m(k, e)
			}
		default:
			r = i < len(v) && v[i] == p[j] && m(i+1, j+1)
		}
		if r {
			memo[k] = 1
		}
		return r
	}
	return m(0, 0)
}

func TestVerifC07(t *testing.T) {
	h := vhNew(t)
	try := func(v, p string) {
		h.run(fmt.Sprintf("MatchResource(%q, %q)", v, p), len(v) > 0 && len(p) > 0, func() string {
			got, want := utils.MatchResource(v, p), c07oracle(v, p)
			if got != want {
				return fmt.Sprintf("got %v, the pattern language says %v", got, want)
			}
			return ""
		})
	}
	var gen func(al string, n int) []string
	gen = func(al string, n int) []string {
		out := []string{""}
		last := []string{""}
		for i := 0; i < n; i++ {
			var nx []string
			for _, s := range last {
				for k := range al {
					nx = append(nx, s+al[k:k+1])
				}
			}
			out = append(out, nx...)
			last = nx
		}
		return out
	}
	// all short words
	for _, p := range gen("a*:/ ", 3) {
		for _, v := range gen("a:/ ", 3) {
			try(v, p)
		}
	}
	for _, p := range gen("ab*", 5) {
		for _, v := range gen("ab", 5) {
			if h.more() {
				try(v, p)
			}
		}
	}
	rnd := func(al string, n int) string {
		b := make([]byte, h.rng.Intn(n))
		for i := range b {
			b[i] = al[h.rng.Intn(len(al))]
		}
		return string(b)
	}
	// patterns together with values made from them
	inst := func(p string) string {
		out := ""
		for j := 0; j < len(p); j++ {
			switch p[j] {
			case '*':
				out += rnd("ab/ :", 4)
			case ':':
				for j+1 < len(p) && !c07sep(p[j+1]) {
					j++
				}
				out += rnd("ab:*", 4)
			default:
				out += p[j : j+1]
			}
		}
		if h.rng.Intn(3) == 0 && len(out) > 0 {
			i := h.rng.Intn(len(out))
			out = out[:i] + rnd("ab/ ", 2) + out[i+1:]
		}
		return out
	}
	for h.more() {
		p := rnd("aab***::/ ", 9)
		try(rnd("aab:/ ", 9), p)
		for k := 0; k < 3; k++ {
			try(inst(p), p)
		}
		w := []string{"/posts", "/posts/", ":id", "*", " GET", " *", "/comments", "a", ".json", "/", "**", "-", "é", "\x00", " ", ":"}
		p = ""
		for k := h.rng.Intn(6); k >= 0; k-- {
			p += w[h.rng.Intn(len(w))]
		}
		for k := 0; k < 3; k++ {
			try(inst(p), p)
		}
	}
	h.done()
}
