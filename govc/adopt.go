package main

// Contracts follow the code they describe: a private function that was renamed
// keeps its contract, and a recursive closure turned into a function of its own
// takes the closure's contract along. An adopted contract is an ordinary one: it
// is verified against the body it was adopted for.

import (
	"go/ast"
	"go/types"
	"strings"
)

func recvOf(fi *FuncInfo) string {
	p := strings.Split(fi.key, ".")
	if len(p) == 3 {
		return p[1]
	}
	return ""
}

func adopt(pr *Prog, sp *Specs) {
	for _, k := range append([]string{}, sp.order...) {
		con := sp.contracts[k]
		if con == nil || pr.byKey[k] != nil || con.trusted != "" || len(con.impls) > 0 {
			continue
		}
		parts := strings.Split(k, ".")
		name := parts[len(parts)-1]
		if name[0] >= 'A' && name[0] <= 'Z' {
			continue
		}
		var hit []*FuncInfo
		for _, k2 := range sortedKeys(pr.byKey) {
			fi := pr.byKey[k2]
			if sp.contracts[k2] != nil || fi.pkg.name != parts[0] || fi.obj.Exported() {
				continue
			}
			if len(parts) == 3 && recvOf(fi) != parts[1] || len(parts) == 2 && recvOf(fi) != "" {
				continue
			}
			ps := declParams(fi)
			same := len(ps) == len(con.params)
			for i := range ps {
				same = same && ps[i] != nil && ps[i].Name() == con.params[i]
			}
			if same {
				hit = append(hit, fi)
			}
		}
		if len(hit) == 1 {
			c := *con
			c.key = hit[0].key
			c.optional = true
			sp.contracts[c.key] = &c
			sp.order = append(sp.order, c.key)
		}
	}
	for _, k := range sortedKeys(pr.byKey) {
		fi := pr.byKey[k]
		if sp.contracts[k] != nil || !pr.calls(fi, fi) {
			continue
		}
		for _, ok := range append([]string{}, sp.order...) {
			outer := pr.byKey[ok]
			oc := sp.contracts[ok]
			if outer == nil || outer.pkg != fi.pkg || oc.trusted != "" || len(oc.closures) == 0 || !pr.calls(outer, fi) {
				continue
			}
			for _, cc := range oc.closures {
				if c := closureAsFn(fi, outer, oc, cc); c != nil && sp.contracts[k] == nil {
					sp.contracts[k] = c
					sp.order = append(sp.order, k)
				}
			}
		}
	}
}

// closureAsFn turns the contract of a closure of outer into one of fi, whose
// parameters take the place of the closure's parameters and captured variables.
func closureAsFn(fi, outer *FuncInfo, oc, cc *Contract) *Contract {
	ps := declParams(fi)
	spec := make([]string, len(ps)) // the name each parameter has in the contract
	used := map[string]bool{}
	qual := func(p *types.Package) string {
		if p == fi.pkg.types {
			return ""
		}
		return p.Name()
	}
	want := map[string]string{} // name -> type text, where known
	for _, q := range cc.captures {
		want[q.name] = q.typ
	}
	ops := declParams(outer)
	for i, n := range oc.params {
		if i < len(ops) && ops[i] != nil {
			want[n] = types.TypeString(ops[i].Type(), qual)
		}
	}
	for _, n := range cc.params {
		if _, ok := want[n]; !ok {
			want[n] = ""
		}
	}
	typ := func(i int) string { return types.TypeString(ps[i].Type(), qual) }
	for i, p := range ps {
		if p == nil {
			return nil
		}
		if t, ok := want[p.Name()]; ok && (t == "" || t == typ(i)) {
			spec[i] = p.Name()
			used[p.Name()] = true
		}
	}
	// the receiver stands for the outer receiver; other names by their types, in order
	for i := range ps {
		if spec[i] != "" {
			continue
		}
		for _, n := range append(append(append([]string{}, oc.params...), qnames(cc.captures)...), cc.params...) {
			if !used[n] && want[n] == typ(i) {
				spec[i] = n
				used[n] = true
				break
			}
		}
	}
	for i := range ps {
		if spec[i] != "" {
			continue
		}
		for _, n := range cc.params {
			if !used[n] && want[n] == "" {
				spec[i] = n
				used[n] = true
				break
			}
		}
		if spec[i] == "" {
			spec[i] = ps[i].Name()
		}
	}
	for _, n := range append(append([]string{}, cc.params...), qnames(cc.captures)...) {
		if !used[n] {
			return nil
		}
	}
	gone := map[string]bool{}
	for _, n := range oc.params {
		if !used[n] {
			gone[n] = true
		}
	}
	c := *cc
	c.key, c.pkg, c.params, c.captures, c.optional, c.props = fi.key, fi.pkg.name, spec, nil, true, nil
	c.requires = append(append([]*Clause{}, oc.requires...), cc.requires...)
	c.opaque = oc.opaque
	r := (&c).without(gone)
	return r
}

func qnames(qs []QVar) []string {
	var out []string
	for _, q := range qs {
		if !q.opt {
			out = append(out, q.name)
		}
	}
	return out
}

// calls: the body of f (closures included) calls g directly.
func (pr *Prog) calls(f, g *FuncInfo) bool {
	if f.decl.Body == nil {
		return false
	}
	hit := false
	ast.Inspect(f.decl.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o, ok := f.pkg.info.Uses[id].(*types.Func); ok && o.Origin() == g.obj {
				hit = true
			}
		}
		return !hit
	})
	return hit
}
