package v2_test

import (
	"fmt"
	"strings"
	"testing"
	"time"

	v2 "github.com/oarkflow/permission/v2"
)

func ask(h *vh, expiry bool, what string, steps int, q func(w *world) string) {
	w := newWorld(h)
	var msg string
	body := func() string {
		w.setup()
		for i := 0; i < steps; i++ {
			if m := w.mutate(expiry); m != "" {
				return "" // reported by the property concerned
			}
			if h.rng.Intn(3) == 0 {
				if m := q(w); m != "" {
					return m
				}
			}
		}
		for i := 0; i < 6; i++ {
			if m := q(w); m != "" {
				return m
			}
		}
		return ""
	}
	seed := h.rng.Int63()
	_ = seed
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprintf("panic: %v", r)
			}
		}()
		h.started.Store(time.Now().UnixNano())
		h.cur.Store(what)
		msg = body()
		h.started.Store(0)
	}()
	h.run(w.text(), len(w.asg) > 0, func() string { return msg })
}

func TestVerifC01(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		if h.rng.Intn(6) == 0 {
			manyTenants(h, false)
		}
		ask(h, true, "Authorize history", 4+h.rng.Intn(24), (*world).askAuthorize)
	}
	h.done()
}

func TestVerifC02(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		if h.rng.Intn(6) == 0 {
			manyTenants(h, true)
		}
		ask(h, true, "Can history", 4+h.rng.Intn(24), (*world).askCan)
	}
	h.done()
}

func TestVerifC03(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		ask(h, true, "expiry history", 4+h.rng.Intn(16), func(w *world) string {
			if len(w.asg) > 0 {
				u := w.asg[h.rng.Intn(len(w.asg))]
				before := u.Expiry
				if u.IsExpired() != (u.Expiry != nil && time.Now().After(*u.Expiry)) {
					return fmt.Sprintf("IsExpired() = %v with expiry %v", u.IsExpired(), u.Expiry)
				}
				switch h.rng.Intn(8) {
				case 0:
					u.ClearExpiry()
					w.log("ClearExpiry")
					if u.Expiry != nil {
						return "ClearExpiry leaves an expiry"
					}
				case 1:
					when := time.Now().Add(time.Duration(h.rng.Intn(2000)-1000)*time.Second + 500*time.Millisecond)
					past := when.Before(time.Now())
					err := u.SetExpiry(when)
					w.log("SetExpiry(past=%v)", past)
					if past && (err == nil || u.Expiry != before) {
						return "SetExpiry accepts a past instant"
					}
					if !past && (err != nil || u.Expiry == nil || !u.Expiry.Equal(when)) {
						return fmt.Sprintf("SetExpiry(future): error %v, expiry %v", err, u.Expiry)
					}
				case 2, 3:
					var d any
					var want time.Duration
					bad := false
					switch h.rng.Intn(6) {
					case 0:
						d, want = time.Hour, time.Hour
					case 1:
						d, want = -time.Hour, -time.Hour
					case 2:
						d, want = "90m", 90*time.Minute
					case 3:
						d, bad = "soon", true
					case 4:
						d, bad = 42, true
					case 5:
						d, want = "-2h", -2*time.Hour
					}
					lo := time.Now()
					err := u.SetExpiryDuration(d)
					hi := time.Now()
					w.log("SetExpiryDuration(%v)", d)
					if bad && (err == nil || u.Expiry != before) {
						return fmt.Sprintf("SetExpiryDuration(%v): error %v, expiry changed: %v", d, err, u.Expiry != before)
					}
					if !bad && (err != nil || u.Expiry == nil || u.Expiry.Before(lo.Add(want)) || u.Expiry.After(hi.Add(want))) {
						return fmt.Sprintf("SetExpiryDuration(%v): error %v, expiry %v", d, err, u.Expiry)
					}
				}
			}
			if h.rng.Intn(2) == 0 {
				return w.askAuthorize()
			}
			return w.askCan()
		})
	}
	h.done()
}

func sub(a map[string]struct{}, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return false
		}
	}
	return true
}

func (w *world) checkResolve(n string) string {
	ps := w.dag.ResolvePermissions(n)
	if want := w.rolePerms(n); !sub(ps, want) {
		return fmt.Sprintf("ResolvePermissions(%q) = %q, want %q", n, keysOf(ps), keysOfB(want))
	}
	rs := w.dag.ResolveChildRoles(n)
	if want := w.below(n); !sub(rs, want) {
		return fmt.Sprintf("ResolveChildRoles(%q) = %q, want %q", n, keysOf(rs), keysOfB(want))
	}
	if w.chance(4) { // the results belong to the caller
		ps["junk"] = struct{}{}
		rs["junk"] = struct{}{}
		clear(rs)
	}
	return ""
}

func TestVerifC04(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		w := newWorld(h)
		w.dag = v2.NewRoleDAG()
		all := h.rng.Intn(2) == 0
		var fails []string
		n := 2 + h.rng.Intn(14)
		func() {
			defer func() {
				if r := recover(); r != nil {
					fails = append(fails, fmt.Sprintf("panic: %v", r))
				}
			}()
			h.started.Store(time.Now().UnixNano())
			if !all {
				w.dag = nil
			}
			for _, r := range wRole {
				w.register(r)
			}
			for i := 0; i < n; i++ {
				if m := w.edgeOp(); m != "" {
					fails = append(fails, m)
					return
				}
				if w.dag != nil {
					for _, r := range wRole {
						if got, want := w.dag.ResolveChildRoles(r), w.below(r); !sub(got, want) {
							fails = append(fails, fmt.Sprintf("after that, ResolveChildRoles(%q) = %q, want %q", r, keysOf(got), keysOfB(want)))
							return
						}
					}
				}
			}
			h.started.Store(0)
		}()
		h.run(w.text(), true, func() string { return strings.Join(fails, "; ") })
	}
	h.done()
}

func TestVerifC05(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		w := newWorld(h)
		w.dag = v2.NewRoleDAG()
		var fail string
		func() {
			defer func() {
				if r := recover(); r != nil {
					fail = fmt.Sprintf("panic: %v", r)
				}
			}()
			h.started.Store(time.Now().UnixNano())
			for i := 3 + h.rng.Intn(20); i > 0 && fail == ""; i-- {
				switch h.rng.Intn(5) {
				case 0:
					w.register(w.of(wRole))
				case 1, 2:
					w.permOp()
				case 3:
					if w.edgeOp() != "" {
						return
					}
				case 4:
					fail = w.checkResolve(w.of(wRole))
				}
			}
			for _, r := range wRole {
				if fail == "" {
					fail = w.checkResolve(r)
				}
			}
			h.started.Store(0)
		}()
		h.run(w.text(), len(w.reg) > 0, func() string { return fail })
	}
	h.done()
}

// Every assignment has a role and a permission of its own, so that Can and
// Authorize show whether it is there.
func TestVerifC06(t *testing.T) {
	h := vhNew(t)
	for h.more() {
		w := newWorld(h)
		var fail string
		func() {
			defer func() {
				if r := recover(); r != nil {
					fail = fmt.Sprintf("panic: %v", r)
				}
			}()
			h.started.Store(time.Now().UnixNano())
			for _, n := range wTen {
				t := w.mkTenant(n)
				for _, ns := range wNs {
					t.real.AddNamespace(ns)
					if t.ns[ns] == nil {
						t.ns[ns] = map[string]bool{}
					}
					for _, s := range wSc {
						t.real.AddScopeToNamespace(ns, v2.NewScope(s))
						t.ns[ns][s] = true
					}
				}
				w.a.AddTenant(t.real)
				w.tenants[n] = t
			}
			for _, r := range wRole {
				w.register(r)
				p := v2.NewPermission("c", "/"+r, "GET") // one of its own
				w.roles[r].AddPermission(p)
				w.perms[r]["/"+r+" GET"] = true
			}
			w.ops = nil
			for i := 2 + h.rng.Intn(10); i > 0 && fail == ""; i-- {
				if h.rng.Intn(3) == 0 {
					fail = w.removeOp()
				} else {
					n := len(w.asg)
					w.assignOp(false)
					if h.rng.Intn(5) == 0 {
						w.a.AddPrincipalRole(w.asg[n], w.asg[0])
						w.asg = append(w.asg, w.asg[n], w.asg[0])
						w.log("AddPrincipalRole(again, first)")
					}
				}
				for _, p := range wPr[:len(wPr)-1] {
					for _, t := range wTen[:len(wTen)-1] {
						for _, ns := range wNs {
							for _, sc := range append([]string{""}, wSc...) {
								if h.rng.Intn(5) != 0 || len(wTen) > 4 && h.rng.Intn(12) != 0 {
									continue
								}
								for _, r := range wRole {
									req := v2.Request{Principal: p, Tenant: t, Namespace: ns, Scope: sc, Resource: "/" + r, Action: "GET"}
									if fail == "" && w.a.Can(req, r) != w.can(req, r) {
										fail = fmt.Sprintf("then Can(%+v, %q) = %v", req, r, !w.can(req, r))
									}
									if fail == "" && w.a.Authorize(req) != w.authorize(req) {
										fail = fmt.Sprintf("then Authorize(%+v) = %v", req, !w.authorize(req))
									}
								}
							}
						}
					}
				}
			}
			h.started.Store(0)
		}()
		h.run(w.text(), len(w.ops) > 2, func() string { return fail })
	}
	h.done()
}

// manyTenants: a request without tenant by a principal of many tenants, one of which grants it.
func manyTenants(h *vh, can bool) {
	n := 1 + h.rng.Intn(30)
	w := h.rng.Intn(n + 1) // n: none
	h.run(fmt.Sprintf("%d tenants, the one granting it is %d (can=%v)", n, w, can), true, func() string {
		a := v2.NewAuthorizer()
		r := v2.NewRole("r")
		r.AddPermission(v2.NewPermission("c", "/a", "GET"))
		a.AddRoles(r, v2.NewRole("other"))
		for i := 0; i < n; i++ {
			id := fmt.Sprint("t", i)
			a.AddTenant(v2.NewTenant(id, "n"))
			role := "other"
			if i == w {
				role = "r"
			}
			a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: id, Role: role})
		}
		got := false
		req := v2.Request{Principal: "p", Resource: "/a", Action: "GET"}
		if can {
			got = a.Can(req, "r")
		} else {
			got = a.Authorize(req)
		}
		if got != (w < n) {
			return fmt.Sprintf("decided %v", got)
		}
		return ""
	})
}
