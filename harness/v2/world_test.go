package v2_test

import (
	"fmt"
	"sort"
	"strings"
	"time"

	v2 "github.com/oarkflow/permission/v2"
)

// A world is an authorizer built through the exported API, together with plain
// data recording what was done, from which the oracle answers.
type mTenant struct {
	id       string
	real     *v2.Tenant
	ns       map[string]map[string]bool
	def      string
	children map[string]*mTenant
}

type world struct {
	h       *vh
	a       *v2.Authorizer
	dag     *v2.RoleDAG
	ops     []string
	tenants map[string]*mTenant // registered
	all     map[string]*mTenant // created
	order   []string
	roles   map[string]*v2.Role
	perms   map[string]map[string]bool // role -> patterns (created roles)
	reg     map[string]bool
	edges   map[string][]string
	asg     []*v2.PrincipalRole
	defT    string
}

func newWorld(h *vh) *world {
	wTen, wNs, wSc, wPr, wRole = sTen, sNs, sSc, sPr, sRole
	wBig = false
	switch h.rng.Intn(8) {
	case 0: // names that differ little
		wTen = []string{"t1", "T1", "t", "t10"}
		wNs = []string{"n1", "N1", "n", "n1 "}
		wSc = []string{"s1", "S1", "s", "s10"}
		wPr = []string{"p1", "P1", "p10"}
		wRole = []string{"r1", "R1", "r", "r10", " r1"}
	case 1: // long chains
		wBig = true
		wTen = nums("t", 5+h.rng.Intn(9))
		wRole = nums("r", 5+h.rng.Intn(12))
		wNs, wSc = nums("n", 3), nums("s", 4)
		wPr = nums("p", 3)
	}
	return &world{h: h, a: v2.NewAuthorizer(), tenants: map[string]*mTenant{}, all: map[string]*mTenant{}, roles: map[string]*v2.Role{}, perms: map[string]map[string]bool{}, reg: map[string]bool{}, edges: map[string][]string{}}
}

func (w *world) log(f string, a ...any) { w.ops = append(w.ops, fmt.Sprintf(f, a...)) }
func (w *world) text() string           { return strings.Join(w.ops, "; ") }

func nums(p string, n int) []string {
	var out []string
	for i := 1; i <= n; i++ {
		out = append(out, fmt.Sprint(p, i))
	}
	return out
}

var wTen, wNs, wSc, wPr, wRole []string
var wBig bool
var (
	sTen  = []string{"t1", "t2", "t3", "t4"}
	sNs   = []string{"n1", "n2"}
	sSc   = []string{"s1", "s2"}
	sPr   = []string{"p1", "p2", "p3"}
	sRole = []string{"r1", "r2", "r3", "r4", "r5"}
	wRes  = []string{"/a", "/b", "/a/1"}
	wAct  = []string{"GET", "PUT"}
)

func (w *world) of(xs []string) string { return xs[w.h.rng.Intn(len(xs))] }
func (w *world) opt(xs []string) string {
	if w.h.rng.Intn(2) == 0 {
		return ""
	}
	return w.of(xs)
}
func (w *world) chance(n int) bool { return w.h.rng.Intn(n) == 0 }

func (w *world) mkTenant(id string) *mTenant {
	if t := w.all[id]; t != nil {
		return t
	}
	t := &mTenant{id: id, ns: map[string]map[string]bool{}, children: map[string]*mTenant{}}
	if !w.chance(3) {
		t.def = w.of(wNs)
		t.real = v2.NewTenant(id, t.def)
		t.ns[t.def] = map[string]bool{}
	} else {
		t.real = v2.NewTenant(id)
	}
	w.log("%s := NewTenant(%q, %q)", id, id, t.def)
	w.all[id] = t
	w.order = append(w.order, id)
	return t
}

func (w *world) mkRole(n string) *v2.Role {
	if r := w.roles[n]; r != nil {
		return r
	}
	r := v2.NewRole(n)
	w.roles[n] = r
	w.perms[n] = map[string]bool{}
	w.log("NewRole(%q)", n)
	return r
}

func (w *world) register(n string) {
	r := w.mkRole(n)
	if w.dag != nil {
		w.dag.AddRole(r)
	} else if w.chance(2) {
		w.a.AddRole(r)
	} else {
		w.a.AddRoles(r)
	}
	w.reg[n] = true
	w.log("AddRole(%q)", n)
}

func (w *world) permOp() {
	n := w.of(wRole)
	r := w.mkRole(n)
	rm := w.chance(4)
	var ps []*v2.Permission
	var names []string
	for i := 1 + w.h.rng.Intn(5)/2; i > 0; i-- {
		res, act := w.h.pick("/a", "/b", "/a/:id", "/*", "/a/1", "/:x", "/a/*/c", "*", ""), w.h.pick("GET", "PUT", "*", "GET", "PUT", "*", "get", "", ":any")
		ps = append(ps, v2.NewPermission("c", res, act))
		names = append(names, res+" "+act)
		if rm {
			delete(w.perms[n], res+" "+act)
		} else {
			w.perms[n][res+" "+act] = true
		}
	}
	if rm {
		r.RemovePermission(ps...)
		w.log("%s.RemovePermission(%q)", n, names)
		return
	}
	r.AddPermission(ps...)
	w.log("%s.AddPermission(%q)", n, names)
}

// edgeReach: b is a or a transitive child of a.
func (w *world) edgeReach(a, b string) bool {
	seen := map[string]bool{}
	var f func(string) bool
	f = func(x string) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range w.edges[x] {
			if f(y) {
				return true
			}
		}
		return false
	}
	return f(a)
}

func (w *world) edgeOp() string {
	p := w.of(wRole)
	n := 1 + w.h.rng.Intn(5)/2
	var cs []string
	want := false
	for i := 0; i < n; i++ {
		c := w.of(wRole)
		cs = append(cs, c)
		want = want || w.edgeReach(c, p)
	}
	var err error
	if w.dag != nil {
		err = w.dag.AddChildRole(p, cs...)
	} else {
		err = w.a.AddChildRole(p, cs...)
	}
	w.log("AddChildRole(%q, %q)", p, cs)
	if (err != nil) != want {
		return fmt.Sprintf("AddChildRole(%q, %q): error %v, but a cycle would arise: %v", p, cs, err, want)
	}
	if err == nil {
		w.edges[p] = append(w.edges[p], cs...)
	}
	return ""
}

// below: the registered roles a role stands for.
func (w *world) below(n string) map[string]bool {
	out, seen := map[string]bool{}, map[string]bool{}
	var f func(string)
	f = func(x string) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !w.reg[x] {
			return
		}
		out[x] = true
		for _, y := range w.edges[x] {
			f(y)
		}
	}
	f(n)
	return out
}

func (w *world) rolePerms(n string) map[string]bool {
	out := map[string]bool{}
	for r := range w.below(n) {
		for p := range w.perms[r] {
			out[p] = true
		}
	}
	return out
}

func (w *world) tenantOp() {
	t := w.mkTenant(w.of(wTen))
	switch w.h.rng.Intn(6) {
	case 0, 1:
		n := w.of(wNs)
		if w.chance(3) {
			t.real.AddNamespace(n, true)
			t.def = n
			w.log("%s.AddNamespace(%q, true)", t.id, n)
		} else {
			t.real.AddNamespace(n)
			w.log("%s.AddNamespace(%q)", t.id, n)
		}
		if t.ns[n] == nil {
			t.ns[n] = map[string]bool{}
		}
	case 2, 3:
		n, s := w.of(wNs), w.of(wSc)
		w.log("%s.AddScopeToNamespace(%q, %q)", t.id, n, s)
		ss := []*v2.Scope{v2.NewScope(s)}
		more := ""
		if w.chance(3) {
			more = w.of(wSc)
			ss = append(ss, v2.NewScope(more))
			w.log("... and %q", more)
		}
		err := t.real.AddScopeToNamespace(n, ss...)
		if (err == nil) != (t.ns[n] != nil) {
			panic(fmt.Sprintf("AddScopeToNamespace: error %v, namespace known: %v", err, t.ns[n] != nil))
		}
		if err == nil {
			t.ns[n][s] = true
			if more != "" {
				t.ns[n][more] = true
			}
		}
	case 4:
		c := w.mkTenant(w.of(wTen))
		t.real.AddChildTenant(c.real)
		t.children[c.id] = c
		w.log("%s.AddChildTenant(%s)", t.id, c.id)
	case 5:
		t.real.Status = v2.TenantStatus(w.h.rng.Intn(3))
		w.log("%s.Status = %d", t.id, t.real.Status)
	}
	if w.tenants[t.id] == nil && !w.chance(5) {
		w.a.AddTenant(t.real)
		w.tenants[t.id] = t
		w.log("AddTenant(%s)", t.id)
	}
}

func (w *world) assignOp(expiry bool) {
	pr := &v2.PrincipalRole{Principal: w.of(wPr[:len(wPr)-1]), Tenant: w.of(wTen[:len(wTen)-1]), Role: w.of(wRole[:len(wRole)-1]), Namespace: w.opt(wNs), Scope: w.opt(wSc), ManageChildTenant: w.chance(2)}
	ex := "no"
	if expiry && w.chance(3) {
		if w.chance(2) {
			p := time.Now().Add(-time.Duration(1+w.h.rng.Intn(1000)) * time.Second)
			pr.Expiry = &p
			ex = "past"
		} else {
			p := time.Now().Add(time.Hour)
			pr.Expiry = &p
			ex = "future"
		}
	}
	w.a.AddPrincipalRole(pr)
	w.asg = append(w.asg, pr)
	w.log("AddPrincipalRole{%s %s role=%s ns=%q scope=%q manage=%v expiry=%s}", pr.Principal, pr.Tenant, pr.Role, pr.Namespace, pr.Scope, pr.ManageChildTenant, ex)
}

func prAgrees(t v2.PrincipalRole, u *v2.PrincipalRole) bool {
	eq := func(a, b string) bool { return a == "" || a == b }
	return eq(t.Principal, u.Principal) && eq(t.Tenant, u.Tenant) && eq(t.Namespace, u.Namespace) && eq(t.Scope, u.Scope) && eq(t.Role, u.Role)
}

func (w *world) removeOp() string {
	t := v2.PrincipalRole{Principal: w.opt(wPr), Tenant: w.opt(wTen), Namespace: w.opt(wNs), Scope: w.opt(wSc), Role: w.opt(wRole)}
	var rest []*v2.PrincipalRole
	n := 0
	for _, u := range w.asg {
		if prAgrees(t, u) {
			n++
		} else {
			rest = append(rest, u)
		}
	}
	err := w.a.RemovePrincipalRole(t)
	w.log("RemovePrincipalRole{%s %s ns=%s scope=%s role=%s}", t.Principal, t.Tenant, t.Namespace, t.Scope, t.Role)
	if (err == nil) != (n > 0) {
		return fmt.Sprintf("RemovePrincipalRole: error %v, %d assignments agree", err, n)
	}
	w.asg = rest
	return ""
}

// ---- oracle --------------------------------------------------------------

func live(u *v2.PrincipalRole) bool { return u.Expiry == nil || !time.Now().After(*u.Expiry) }

func (w *world) targets(req v2.Request) []*mTenant {
	id := req.Tenant
	if id == "" {
		id = w.defT
	}
	if id != "" {
		if t := w.tenants[id]; t != nil {
			return []*mTenant{t}
		}
		return nil
	}
	var out []*mTenant
	for _, n := range wTen {
		t := w.tenants[n]
		if t == nil || t.real.Status != v2.TenantStatusActive {
			continue
		}
		for _, u := range w.asg {
			if u.Principal == req.Principal && u.Tenant == n {
				out = append(out, t)
				break
			}
		}
	}
	return out
}

func (t *mTenant) nsFor(req v2.Request) (string, bool) {
	n := req.Namespace
	if n == "" {
		n = t.def
	}
	if n == "" {
		if len(t.ns) != 1 {
			return "", false
		}
		for k := range t.ns {
			n = k
		}
	}
	s, ok := t.ns[n]
	return n, ok && (req.Scope == "" || s[req.Scope])
}

func (w *world) reach(p string, t *mTenant) []*mTenant {
	seen := map[string]bool{}
	var out []*mTenant
	var f func(*mTenant)
	f = func(t *mTenant) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		out = append(out, t)
		for _, u := range w.asg {
			if u.Principal == p && u.Tenant == t.id && u.ManageChildTenant && live(u) {
				for _, c := range t.children {
					f(c)
				}
				return
			}
		}
	}
	f(t)
	return out
}

func (w *world) effective(p string, t *mTenant, ns string) []*v2.PrincipalRole {
	var out []*v2.PrincipalRole
	for _, x := range w.reach(p, t) {
		for _, u := range w.asg {
			if u.Principal == p && u.Tenant == x.id && live(u) && (u.Namespace == "" || u.Namespace == ns) {
				out = append(out, u)
			}
		}
	}
	return out
}

// match: whole-string match of "*" and ":name" patterns (only those used here)
func wMatch(v, p string) bool {
	if p == "" {
		return v == ""
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(v); i++ {
			if wMatch(v[i:], p[1:]) {
				return true
			}
		}
		return false
	case ':':
		e := 1
		for e < len(p) && p[e] != '/' && p[e] != ' ' {
			e++
		}
		for i := 1; i <= len(v) && v[i-1] != '/' && v[i-1] != ' '; i++ {
			if wMatch(v[i:], p[e:]) {
				return true
			}
		}
		return false
	}
	return v != "" && v[0] == p[0] && wMatch(v[1:], p[1:])
}

func (w *world) authorize(req v2.Request) bool {
	for _, t := range w.targets(req) {
		ns, ok := t.nsFor(req)
		if !ok {
			continue
		}
		scoped, global := map[string]bool{}, map[string]bool{}
		for _, u := range w.effective(req.Principal, t, ns) {
			for p := range w.rolePerms(u.Role) {
				if u.Scope == req.Scope {
					scoped[p] = true
				} else if u.Scope == "" {
					global[p] = true
				}
			}
		}
		if len(scoped) == 0 {
			scoped = global
		}
		for p := range scoped {
			if (req.Resource != "" || req.Action != "") && wMatch(req.Resource+" "+req.Action, p) {
				return true
			}
		}
	}
	return false
}

func (w *world) can(req v2.Request, roles ...string) bool {
	for _, t := range w.targets(req) {
		ns, ok := t.nsFor(req)
		if !ok {
			continue
		}
		for _, u := range w.effective(req.Principal, t, ns) {
			if u.Role == "" {
				continue
			}
			b := w.below(u.Role)
			for _, r := range roles {
				if r == u.Role || b[r] {
					return true
				}
			}
		}
	}
	return false
}

func (w *world) request() v2.Request {
	r := v2.Request{Principal: w.of(wPr), Tenant: w.opt(append(append([]string{}, wTen...), "t9")), Namespace: w.opt(append(append([]string{}, wNs...), "n9")), Scope: w.opt(append(append([]string{}, wSc...), "s9")), Resource: w.of(wRes), Action: w.of(wAct)}
	switch w.h.rng.Intn(16) {
	case 0:
		r.Action = ""
	case 1:
		r.Resource = ""
	case 2:
		r.Resource, r.Action = w.h.pick("/A", "/a/", "/a/1/c", "a"), w.h.pick("get", "GET", "GE")
	}
	if len(w.asg) > 0 && !w.chance(3) {
		u := w.asg[w.h.rng.Intn(len(w.asg))]
		r.Principal = u.Principal
		if w.chance(2) {
			r.Tenant = u.Tenant
		}
		if w.chance(2) {
			r.Namespace = u.Namespace
		}
		if w.chance(2) {
			r.Scope = u.Scope
		}
	}
	if w.chance(20) {
		r.Resource, r.Action = "", ""
	}
	if w.chance(30) {
		r.Principal = ""
	}
	return r
}

func (w *world) askAuthorize() string {
	req := w.request()
	want := w.authorize(req)
	if got := w.a.Authorize(req); got != want {
		return fmt.Sprintf("Authorize(%+v) = %v, want %v", req, got, want)
	}
	return ""
}

func (w *world) askCan() string {
	req := w.request()
	var rs []string
	for n := w.h.rng.Intn(3); n > 0; n-- {
		rs = append(rs, w.of(append([]string{"", wPr[0], wTen[0]}, wRole...)))
	}
	want := w.can(req, rs...)
	if got := w.a.Can(req, rs...); got != want {
		return fmt.Sprintf("Can(%+v, %q) = %v, want %v", req, rs, got, want)
	}
	return ""
}

// setup makes a plausible starting point: registered tenants and roles.
func (w *world) setup() {
	for _, n := range wTen[:2+w.h.rng.Intn(3)] {
		t := w.mkTenant(n)
		if !w.chance(4) {
			w.a.AddTenant(t.real)
			w.tenants[n] = t
			w.log("AddTenant(%s)", n)
		}
	}
	for _, n := range wRole {
		if !w.chance(4) {
			w.register(n)
		}
	}
	for i := 0; i < 4; i++ {
		w.permOp()
	}
	if wBig { // a chain of roles and one of tenants, managed by one principal
		for i := 1; i < len(wRole) && !w.chance(8); i++ {
			if w.a.AddChildRole(wRole[i-1], wRole[i]) == nil {
				w.edges[wRole[i-1]] = append(w.edges[wRole[i-1]], wRole[i])
				w.log("AddChildRole(%q, %q)", wRole[i-1], wRole[i])
			}
		}
		for i := 1; i < len(wTen) && !w.chance(10); i++ {
			t, c := w.mkTenant(wTen[i-1]), w.mkTenant(wTen[i])
			t.real.AddChildTenant(c.real)
			t.children[c.id] = c
			w.log("%s.AddChildTenant(%s)", t.id, c.id)
			pr := &v2.PrincipalRole{Principal: wPr[0], Tenant: t.id, Role: w.of(wRole), ManageChildTenant: true}
			w.a.AddPrincipalRole(pr)
			w.asg = append(w.asg, pr)
			w.log("AddPrincipalRole{%s %s role=%s manage}", pr.Principal, pr.Tenant, pr.Role)
		}
	}
}

func (w *world) mutate(expiry bool) string {
	switch w.h.rng.Intn(12) {
	case 0, 1, 2:
		w.tenantOp()
	case 3, 4:
		w.permOp()
	case 5:
		return w.edgeOp()
	case 6:
		if w.chance(3) {
			return w.removeOp()
		}
		w.register(w.of(wRole))
	case 7:
		if w.chance(4) {
			w.defT = w.opt(wTen)
			w.a.SetDefaultTenant(w.defT)
			w.log("SetDefaultTenant(%q)", w.defT)
		}
	default:
		w.assignOp(expiry)
	}
	return ""
}

func keysOf(m map[string]struct{}) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func keysOfB(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
