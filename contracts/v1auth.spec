package v1

// ---- authorization (C13) -------------------------------------------------------
// the option record after the first k options
rec optsOf(os []func(*Option), k int) Option = if k <= 0 then zero(Option) else after(os[k-1], optsOf(os, k-1))
pred optString(v any) = v == nil || typeis(v, string)
pred optStrings(o Option) = optString(o.tenant) && optString(o.namespace) && optString(o.scope) && optString(o.resourceGroup) && optString(o.activity)

fn WithTenant(tenant) {
	props C13
	ensures forall o Option: after(result, o).tenant == tenant && after(result, o).namespace == o.namespace && after(result, o).scope == o.scope && after(result, o).resourceGroup == o.resourceGroup && after(result, o).activity == o.activity
}
fn WithNamespace(namespace) {
	props C13
	ensures forall o Option: after(result, o).tenant == o.tenant && after(result, o).namespace == namespace && after(result, o).scope == o.scope && after(result, o).resourceGroup == o.resourceGroup && after(result, o).activity == o.activity
}
fn WithScope(scope) {
	props C13
	ensures forall o Option: after(result, o).tenant == o.tenant && after(result, o).namespace == o.namespace && after(result, o).scope == scope && after(result, o).resourceGroup == o.resourceGroup && after(result, o).activity == o.activity
}
fn WithResourceGroup(resourceGroup) {
	props C13
	ensures forall o Option: after(result, o).tenant == o.tenant && after(result, o).namespace == o.namespace && after(result, o).scope == o.scope && after(result, o).resourceGroup == resourceGroup && after(result, o).activity == o.activity
}
fn WithActivity(activity) {
	props C13
	ensures forall o Option: after(result, o).tenant == o.tenant && after(result, o).namespace == o.namespace && after(result, o).scope == o.scope && after(result, o).resourceGroup == o.resourceGroup && after(result, o).activity == activity
}

lemma hasAllowed(r *Role, g string, p string, allowed []string, none []string) {
	requires has(r, g, p, allowed) && len(none) == 0
	ensures has(r, g, p, none)
	trigger has(r, g, p, allowed), has(r, g, p, none)
	use induct has(x *Role, g, p, allowed) by has(x, g, p, none)
}
// the allowed roles of the assignments rows for namespace n and scope s of tenant t: those of the
// namespace, or where it has none those held for the whole tenant, and those held for exactly n and s
pred nsRole(t *Tenant, n string, x string) = n in dom(t.namespaces) && x in dom(t.namespaces[n].roles)
pred candidate(t *Tenant, rows []TenantPrincipal, n string, s string, x string) =
    (if exists y string: nsRole(t, n, y) then nsRole(t, n, x) else exists r in rows: r.NamespaceID == "" && r.ScopeID == "" && r.RoleID == x)
    || n != "" && s != "" && exists r in rows: r.NamespaceID == n && r.ScopeID == s && r.RoleID == x
pred noRoles(t *Tenant, rows []TenantPrincipal, n string, s string) =
    s != "" && !(s in dom(t.scopes)) || n != "" && !(n in dom(t.namespaces))
    || (forall r in rows: !(r.NamespaceID == "" && r.ScopeID == "") && !(r.ScopeID == s && s != ""))
    || n in dom(t.namespaces) && (exists y in dom(t.namespaces[n].scopes): true) && !(s in dom(t.namespaces[n].scopes))
    || (exists x string: candidate(t, rows, n, s, x) && !(x in dom(t.roles)))
pred allowedFor(t *Tenant, rows []TenantPrincipal, n string, s string, x string) = !noRoles(t, rows, n, s) && candidate(t, rows, n, s, x)
fn RoleManager.getAllowedRoleIDs(u, tenant, roles) {
	optional
	props C13
	requires tenant != nil && tenantOK(tenant)
	ensures exact: forall x string {x in result} {x in roles}: x in result <==> x in roles && x in dom(tenant.roles)
	inv any allowed []string: forall x string {x in allowed} {x in #seen}: x in allowed <==> x in roles && x in #seen
	inv any allowed []string, r *Role: (forall x string {x in allowed}: x in allowed ==> before(x in allowed) || x == r.id && x in #done) && (forall x string {before(x in allowed)}: before(x in allowed) ==> x in allowed) && (r.id in #done ==> r.id in allowed)
}
fn RoleManager.GetAllowedRoles(u, principalRoles, namespace, scope) {
	props C13
	requires managerOK(u) && tenantsOK() && namespacesOK()
	requires rows: !isnil(principalRoles) ==> len(principalRoles) > 0 && principalRoles[0].TenantID in dom(u.tenants)
	shows unknownScope: len(principalRoles) > 0 && scope != "" && !(scope in dom(u.tenants[principalRoles[0].TenantID].scopes)) ==> len(result) == 0
	shows unknownNamespace: len(principalRoles) > 0 && namespace != "" && !(namespace in dom(u.tenants[principalRoles[0].TenantID].namespaces)) ==> len(result) == 0
	shows notHeld: len(principalRoles) > 0 && (forall r in principalRoles: !(r.NamespaceID == "" && r.ScopeID == "") && !(r.ScopeID == scope && scope != "")) ==> len(result) == 0
	shows notOffered: len(principalRoles) > 0 && namespace in dom(u.tenants[principalRoles[0].TenantID].namespaces) && (exists y in dom(u.tenants[principalRoles[0].TenantID].namespaces[namespace].scopes): true) && !(scope in dom(u.tenants[principalRoles[0].TenantID].namespaces[namespace].scopes)) ==> len(result) == 0
	shows foreignRole: len(principalRoles) > 0 && (exists x string: candidate(u.tenants[principalRoles[0].TenantID], principalRoles, namespace, scope, x) && !(x in dom(u.tenants[principalRoles[0].TenantID].roles))) ==> len(result) == 0
	shows exactly: len(principalRoles) > 0 ==> forall x in result: candidate(u.tenants[principalRoles[0].TenantID], principalRoles, namespace, scope, x)
	ensures only: forall s in result: (exists r in principalRoles: r.RoleID == s) || namespace in dom(u.tenants[principalRoles[0].TenantID].namespaces) && s in dom(u.tenants[principalRoles[0].TenantID].namespaces[namespace].roles)
	ensures assigned: forall s in result: s in dom(u.tenants[principalRoles[0].TenantID].roles)
	shows all: len(principalRoles) > 0 && !noRoles(u.tenants[principalRoles[0].TenantID], principalRoles, namespace, scope) ==> forall x string: candidate(u.tenants[principalRoles[0].TenantID], principalRoles, namespace, scope, x) ==> x in result
	ensures allowed: len(principalRoles) > 0 ==> forall x string {x in result} {allowedFor(u.tenants[principalRoles[0].TenantID], principalRoles, namespace, scope, x)}: x in result <==> allowedFor(u.tenants[principalRoles[0].TenantID], principalRoles, namespace, scope, x)
	ensures whole: len(principalRoles) > 0 && namespace == "" && scope == "" && !("" in dom(u.tenants[principalRoles[0].TenantID].namespaces)) && (forall r in principalRoles: r.NamespaceID == "" && r.ScopeID == "" ==> r.RoleID in dom(u.tenants[principalRoles[0].TenantID].roles))
	    ==> forall r in principalRoles: r.NamespaceID == "" && r.ScopeID == "" ==> r.RoleID in result
	ensures none: isnil(principalRoles) ==> len(result) == 0
	use @exit any namespaceScopes []string: term namespaceScopes[0]
	use @exit any namespaceRoles []string: term namespaceRoles[0]
	use @exit any principalTenantRole []TenantPrincipal: term principalTenantRole[0]
	inv any namespaceScopes []string: forall s string {s in namespaceScopes} {s in #seen}: s in namespaceScopes <==> s in #seen
	inv any namespaceRoles []string: forall s string {s in namespaceRoles} {s in #seen}: s in namespaceRoles <==> s in #seen
	inv any principalTenantRole []TenantPrincipal: forall r TenantPrincipal {r in principalTenantRole} {r in #done}: r in principalTenantRole <==> r in #done && r.NamespaceID == "" && r.ScopeID == ""
	inv any principalNamespaceScopeRole []TenantPrincipal: forall r TenantPrincipal {r in principalNamespaceScopeRole} {r in #done}: r in principalNamespaceScopeRole <==> r in #done && r.NamespaceID != "" && r.ScopeID != ""
	inv any scopes []string: (forall s string {s in scopes}: s in scopes ==> s != "" && exists r in #done: r.ScopeID == s) && (forall r in #done: r.ScopeID != "" ==> r.ScopeID in scopes)
	inv any allowedRoles []string: forall s string {s in allowedRoles} {s in #done}: s in allowedRoles <==> s in #done
	inv any allowedRoles []string: (forall s string {s in allowedRoles}: s in allowedRoles ==> exists r in #done: r.RoleID == s) && (forall r in #done: r.RoleID in allowedRoles)
	inv any allowedRoles []string: (forall s string {s in allowedRoles}: s in allowedRoles ==> before(s in allowedRoles) || exists r in #done: r.NamespaceID == namespace && r.ScopeID == scope && r.RoleID == s) && (forall s string {before(s in allowedRoles)}: before(s in allowedRoles) ==> s in allowedRoles) && (forall r in #done: r.NamespaceID == namespace && r.ScopeID == scope ==> r.RoleID in allowedRoles)
	inv forall s in #done: s in dom(u.tenants[principalRoles[0].TenantID].roles)
}

// the rows of principal p in tenant t
pred holds(u *RoleManager, w TenantPrincipal, p string, t string) = w in dom(u.tenantPrincipals) && w.PrincipalID == p && w.TenantID == t
pred tenantOf(u *RoleManager, w TenantPrincipal, p string) = w in dom(u.tenantPrincipals) && w.PrincipalID == p
pred str(v any, s string) = s == (if v == nil then "" else as(v, string))
pred only(o Option, t bool, n bool, s bool) = (o.tenant != nil <==> t) && (o.namespace != nil <==> n) && (o.scope != nil <==> s) && o.resourceGroup == nil && o.activity == nil


pred grantTenant(u *RoleManager, p string, t string) = t in dom(u.tenants) && exists w TenantPrincipal: holds(u, w, p, t)
pred grantNamespace(u *RoleManager, p string, n string) = exists w TenantPrincipal: tenantOf(u, w, p) && w.TenantID in dom(u.tenants) && n in dom(u.tenants[w.TenantID].namespaces)
pred grantScope(u *RoleManager, p string, s string) = exists w TenantPrincipal: tenantOf(u, w, p) && w.TenantID in dom(u.tenants) && w.ScopeID == s && s in dom(u.tenants[w.TenantID].scopes)
pred grantTN(u *RoleManager, p string, t string, n string) = exists w TenantPrincipal: holds(u, w, p, t) && w.NamespaceID == n
pred grantTS(u *RoleManager, p string, t string, s string) = exists w TenantPrincipal: holds(u, w, p, t) && w.ScopeID == s
pred grantNS(u *RoleManager, p string, n string, s string) = exists w TenantPrincipal: tenantOf(u, w, p) && w.NamespaceID == n && w.ScopeID == s
// the tenant may offer a namespace's scope to all its principals (rows without a principal)
pred grantTNS(u *RoleManager, p string, t string, n string, s string) =
    (exists w TenantPrincipal: holds(u, w, p, t) && w.NamespaceID == n && w.ScopeID == s)
    || (exists w TenantPrincipal: holds(u, w, p, t)) && (exists x TenantPrincipal: holds(u, x, "", t) && x.NamespaceID == n && x.ScopeID == s)
// a registered role the principal holds in tenant t has activity a in group g
pred grantActivity(u *RoleManager, p string, t string, g string, a string) =
    t in dom(u.tenants) && exists w TenantPrincipal: holds(u, w, p, t) && w.RoleID in dom(u.roles) && has(u.roles[w.RoleID], g, a, zero([]string))
pred grantOwn(u *RoleManager, p string, t string, g string, a string) =
    t in dom(u.tenants) && exists w TenantPrincipal: holds(u, w, p, t) && w.RoleID in dom(u.roles) && carries(u.roles[w.RoleID], g) && ownPerm(u.roles[w.RoleID], g, a)
pred anyActivity(u *RoleManager, p string, a string) =
    exists w TenantPrincipal: tenantOf(u, w, p) && w.RoleID in dom(u.roles) && has(u.roles[w.RoleID], "", a, zero([]string))
// w assigns a role for its whole tenant, like all such assignments of p there one of the tenant's own
pred whole(w TenantPrincipal) = w.NamespaceID == "" && w.ScopeID == ""
pred wholeRow(u *RoleManager, p string, w TenantPrincipal) =
    tenantOf(u, w, p) && whole(w) && forall q TenantPrincipal: holds(u, q, p, w.TenantID) && whole(q) ==> q.RoleID in dom(u.tenants[w.TenantID].roles)
// the namespace and scope named besides a tenant exist in it
pred inTenant(u *RoleManager, t string, o Option) =
    (o.namespace != nil && as(o.namespace, string) != "" ==> as(o.namespace, string) in dom(u.tenants[t].namespaces))
    && (o.scope != nil && as(o.scope, string) != "" ==> as(o.scope, string) in dom(u.tenants[t].scopes))
pred strOf(v any, s string) = (v == nil && s == "") || (typeis(v, string) && s == as(v, string))

// not a request for some of tenant, namespace and scope alone, or for an activity alone
pred complex(o Option) =
    !(o.resourceGroup == nil && o.activity == nil && (o.tenant != nil || o.namespace != nil || o.scope != nil))
    && !(o.activity != nil && o.tenant == nil && o.namespace == nil && o.scope == nil && o.resourceGroup == nil)
// the same for all assignments of principal p in tenant t
pred candidateOf(u *RoleManager, p string, t string, n string, s string, x string) =
    (if exists y string: nsRole(u.tenants[t], n, y) then nsRole(u.tenants[t], n, x) else exists r TenantPrincipal: holds(u, r, p, t) && r.NamespaceID == "" && r.ScopeID == "" && r.RoleID == x)
    || n != "" && s != "" && exists r TenantPrincipal: holds(u, r, p, t) && r.NamespaceID == n && r.ScopeID == s && r.RoleID == x
pred noRolesOf(u *RoleManager, p string, t string, n string, s string) =
    s != "" && !(s in dom(u.tenants[t].scopes)) || n != "" && !(n in dom(u.tenants[t].namespaces))
    || (forall r TenantPrincipal: holds(u, r, p, t) ==> !(r.NamespaceID == "" && r.ScopeID == "") && !(r.ScopeID == s && s != ""))
    || n in dom(u.tenants[t].namespaces) && (exists y in dom(u.tenants[t].namespaces[n].scopes): true) && !(s in dom(u.tenants[t].namespaces[n].scopes))
    || (exists x string: candidateOf(u, p, t, n, s, x) && !(x in dom(u.tenants[t].roles)))
pred allowedOf(u *RoleManager, p string, t string, n string, s string, x string) = !noRolesOf(u, p, t, n, s) && candidateOf(u, p, t, n, s, x)
// role r has activity a in group g, itself or through inherited roles that are allowed
inductive hasVia(u *RoleManager, p string, t string, n string, s string, r *Role, g string, a string) =
    (carries(r, g) && ownPerm(r, g, a))
    || (exists d *Role: carries(r, g) && desc(r, d) && allowedOf(u, p, t, n, s, d.id) && hasVia(u, p, t, n, s, d, g, a))
pred allowedIs(u *RoleManager, p string, t string, n string, s string, allowed []string) = len(allowed) > 0 && forall x string: x in allowed <==> allowedOf(u, p, t, n, s, x)
lemma viaTo(u *RoleManager, p string, t string, n string, s string, r *Role, g string, a string, allowed []string) {
	requires u != nil && allowedIs(u, p, t, n, s, allowed) && hasVia(u, p, t, n, s, r, g, a)
	ensures has(r, g, a, allowed)
	trigger hasVia(u, p, t, n, s, r, g, a), has(r, g, a, allowed)
	use induct hasVia(u, p, t, n, s, x *Role, g, a) by has(x, g, a, allowed)
}
lemma viaFrom(u *RoleManager, p string, t string, n string, s string, r *Role, g string, a string, allowed []string) {
	requires u != nil && allowedIs(u, p, t, n, s, allowed) && has(r, g, a, allowed)
	ensures hasVia(u, p, t, n, s, r, g, a)
	trigger has(r, g, a, allowed), hasVia(u, p, t, n, s, r, g, a)
	use induct has(x *Role, g, a, allowed) by hasVia(u, p, t, n, s, x, g, a)
}
lemma viaNone(u *RoleManager, p string, t string, n string, s string, r *Role, g string, a string, allowed []string) {
	requires u != nil && len(allowed) == 0 && hasVia(u, p, t, n, s, r, g, a)
	ensures has(r, g, a, allowed)
	trigger hasVia(u, p, t, n, s, r, g, a), has(r, g, a, allowed)
	use induct hasVia(u, p, t, n, s, x *Role, g, a) by has(x, g, a, allowed)
}
pred rowsOf(u *RoleManager, p string, t string, rows []TenantPrincipal) = forall w TenantPrincipal: w in rows <==> holds(u, w, p, t)
lemma allowedSame(u *RoleManager, p string, t string, n string, s string, rows []TenantPrincipal, x string) {
	requires u != nil && rowsOf(u, p, t, rows)
	ensures allowedFor(u.tenants[t], rows, n, s, x) <==> allowedOf(u, p, t, n, s, x)
	trigger allowedOf(u, p, t, n, s, x)
}
fn RoleManager.authorizeComplex(u, svr, principalID) {
	props C13
	optional
	opaque allowedFor allowedOf
	requires managerOK(u) && rolesOK() && tenantsOK() && namespacesOK() && svr != nil
	requires rows: forall w in dom(u.tenantPrincipals): w.TenantID in dom(u.tenants)
	requires ids: forall t *Tenant: !("" in dom(t.namespaces))
	requires strings: optString(svr.tenant) && optString(svr.namespace) && optString(svr.scope) && optString(svr.resourceGroup) && optString(svr.activity)
	ensures activity: result ==> grantActivity(u, principalID, (if svr.tenant == nil then "" else as(svr.tenant, string)), (if svr.resourceGroup == nil then "" else as(svr.resourceGroup, string)), (if svr.activity == nil then "" else as(svr.activity, string)))
	ensures inside: result ==> ((if svr.namespace == nil then "" else as(svr.namespace, string)) != "" ==> (if svr.namespace == nil then "" else as(svr.namespace, string)) in dom(u.tenants[(if svr.tenant == nil then "" else as(svr.tenant, string))].namespaces)) && ((if svr.scope == nil then "" else as(svr.scope, string)) != "" ==> (if svr.scope == nil then "" else as(svr.scope, string)) in dom(u.tenants[(if svr.tenant == nil then "" else as(svr.tenant, string))].scopes))
	ensures via: result && (exists x string: allowedOf(u, principalID, (if svr.tenant == nil then "" else as(svr.tenant, string)), (if svr.namespace == nil then "" else as(svr.namespace, string)), (if svr.scope == nil then "" else as(svr.scope, string)), x))
	    ==> exists w TenantPrincipal: holds(u, w, principalID, (if svr.tenant == nil then "" else as(svr.tenant, string))) && w.RoleID in dom(u.roles) && hasVia(u, principalID, (if svr.tenant == nil then "" else as(svr.tenant, string)), (if svr.namespace == nil then "" else as(svr.namespace, string)), (if svr.scope == nil then "" else as(svr.scope, string)), u.roles[w.RoleID], (if svr.resourceGroup == nil then "" else as(svr.resourceGroup, string)), (if svr.activity == nil then "" else as(svr.activity, string)))
	ensures viaGrant: !result && (if svr.tenant == nil then "" else as(svr.tenant, string)) in dom(u.tenants) && ((if svr.namespace == nil then "" else as(svr.namespace, string)) != "" ==> (if svr.namespace == nil then "" else as(svr.namespace, string)) in dom(u.tenants[(if svr.tenant == nil then "" else as(svr.tenant, string))].namespaces)) && ((if svr.scope == nil then "" else as(svr.scope, string)) != "" ==> (if svr.scope == nil then "" else as(svr.scope, string)) in dom(u.tenants[(if svr.tenant == nil then "" else as(svr.tenant, string))].scopes))
	    ==> forall w TenantPrincipal: holds(u, w, principalID, (if svr.tenant == nil then "" else as(svr.tenant, string))) && w.RoleID in dom(u.roles) ==> !hasVia(u, principalID, (if svr.tenant == nil then "" else as(svr.tenant, string)), (if svr.namespace == nil then "" else as(svr.namespace, string)), (if svr.scope == nil then "" else as(svr.scope, string)), u.roles[w.RoleID], (if svr.resourceGroup == nil then "" else as(svr.resourceGroup, string)), (if svr.activity == nil then "" else as(svr.activity, string)))
	inv any roles map[string]*Role: forall k in dom(roles): k in dom(u.roles) && roles[k] == u.roles[k]
	inv any roles map[string]*Role: forall k in dom(roles): exists w in #done: w.RoleID == k
	inv any roles map[string]*Role: forall w in #done: w.RoleID in dom(u.roles) ==> w.RoleID in dom(roles)
	inv any resourceGroup string, activity string, allowed []string: forall w in #done: w.RoleID in dom(u.roles) ==> !has(u.roles[w.RoleID], resourceGroup, activity, allowed)
	inv any roles map[string]*Role, resourceGroup string, activity string, allowed []string: forall k in #seen: !has(u.roles[k], resourceGroup, activity, allowed)
	use @exit lemma forall p string, t string, n string, s string, r *Role, g string, a string, allowed []string: viaTo(u, p, t, n, s, r, g, a, allowed)
	use @exit lemma forall p string, t string, n string, s string, r *Role, g string, a string, allowed []string: viaFrom(u, p, t, n, s, r, g, a, allowed)
	use @exit lemma forall p string, t string, n string, s string, r *Role, g string, a string, allowed []string: viaNone(u, p, t, n, s, r, g, a, allowed)
	use @exit lemma forall r *Role, g string, p string, allowed []string, none []string: hasAllowed(r, g, p, allowed, none)
	use @exit any rows []TenantPrincipal: lemma forall t string, n string, s string, x string: allowedSame(u, principalID, t, n, s, rows, x)
}
fn RoleManager.Authorize(u, principalID, options) {
	props C13
	opaque allowedOf allowedFor
	requires managerOK(u) && rolesOK() && tenantsOK() && namespacesOK()
	requires rows: forall w in dom(u.tenantPrincipals): w.TenantID in dom(u.tenants)
	requires ids: forall t *Tenant: !("" in dom(t.namespaces))
	requires strings: optStrings(optsOf(options, len(options)))
	requires options: forall f in options: f != nil
	ensures principal: result ==> principalID in dom(u.principals)
	ensures tenant: principalID in dom(u.principals) && only(optsOf(options, len(options)), true, false, false) ==> (result <==> grantTenant(u, principalID, as(optsOf(options, len(options)).tenant, string)))
	ensures namespace: principalID in dom(u.principals) && only(optsOf(options, len(options)), false, true, false) ==> (result <==> grantNamespace(u, principalID, as(optsOf(options, len(options)).namespace, string)))
	ensures scope: principalID in dom(u.principals) && only(optsOf(options, len(options)), false, false, true) ==> (result <==> grantScope(u, principalID, as(optsOf(options, len(options)).scope, string)))
	ensures tn: principalID in dom(u.principals) && only(optsOf(options, len(options)), true, true, false) ==> (result <==> grantTN(u, principalID, as(optsOf(options, len(options)).tenant, string), as(optsOf(options, len(options)).namespace, string)))
	ensures ts: principalID in dom(u.principals) && only(optsOf(options, len(options)), true, false, true) ==> (result <==> grantTS(u, principalID, as(optsOf(options, len(options)).tenant, string), as(optsOf(options, len(options)).scope, string)))
	ensures ns: principalID in dom(u.principals) && only(optsOf(options, len(options)), false, true, true) ==> (result <==> grantNS(u, principalID, as(optsOf(options, len(options)).namespace, string), as(optsOf(options, len(options)).scope, string)))
	ensures tns: principalID in dom(u.principals) && only(optsOf(options, len(options)), true, true, true) ==> (result <==> grantTNS(u, principalID, as(optsOf(options, len(options)).tenant, string), as(optsOf(options, len(options)).namespace, string), as(optsOf(options, len(options)).scope, string)))
	ensures activity: forall t string, g string, a string: result && complex(optsOf(options, len(options))) && strOf(optsOf(options, len(options)).tenant, t) && strOf(optsOf(options, len(options)).resourceGroup, g) && strOf(optsOf(options, len(options)).activity, a) ==> grantActivity(u, principalID, t, g, a) && inTenant(u, t, optsOf(options, len(options)))
	ensures via: forall t string, n string, s string, g string, a string: result && complex(optsOf(options, len(options))) && strOf(optsOf(options, len(options)).tenant, t) && strOf(optsOf(options, len(options)).namespace, n) && strOf(optsOf(options, len(options)).scope, s) && strOf(optsOf(options, len(options)).resourceGroup, g) && strOf(optsOf(options, len(options)).activity, a) && (exists x string: allowedOf(u, principalID, t, n, s, x))
	    ==> exists w TenantPrincipal: holds(u, w, principalID, t) && w.RoleID in dom(u.roles) && hasVia(u, principalID, t, n, s, u.roles[w.RoleID], g, a)
	ensures viaGrant: forall t string, n string, s string, g string, a string: !result && principalID in dom(u.principals) && complex(optsOf(options, len(options))) && strOf(optsOf(options, len(options)).tenant, t) && strOf(optsOf(options, len(options)).namespace, n) && strOf(optsOf(options, len(options)).scope, s) && strOf(optsOf(options, len(options)).resourceGroup, g) && strOf(optsOf(options, len(options)).activity, a) && t in dom(u.tenants) && inTenant(u, t, optsOf(options, len(options)))
	    ==> forall w TenantPrincipal: holds(u, w, principalID, t) && w.RoleID in dom(u.roles) ==> !hasVia(u, principalID, t, n, s, u.roles[w.RoleID], g, a)
	ensures bare: result && optsOf(options, len(options)).activity != nil && optsOf(options, len(options)).tenant == nil && optsOf(options, len(options)).namespace == nil && optsOf(options, len(options)).scope == nil && optsOf(options, len(options)).resourceGroup == nil ==> anyActivity(u, principalID, as(optsOf(options, len(options)).activity, string))
	ensures bareOwn: principalID in dom(u.principals) && optsOf(options, len(options)).activity != nil && optsOf(options, len(options)).tenant == nil && optsOf(options, len(options)).namespace == nil && optsOf(options, len(options)).scope == nil && optsOf(options, len(options)).resourceGroup == nil
	    && (exists w TenantPrincipal: wholeRow(u, principalID, w) && w.RoleID in dom(u.roles) && carries(u.roles[w.RoleID], "") && ownPerm(u.roles[w.RoleID], "", as(optsOf(options, len(options)).activity, string))) ==> result
	inv any roleIDs []string: forall w TenantPrincipal: w.TenantID in #done && wholeRow(u, principalID, w) ==> w.RoleID in roleIDs
	inv any roles map[string]*Role: forall s in #done: s in dom(u.roles) ==> s in dom(roles)
	inv forall s in #done: s in dom(u.roles) ==> !(carries(u.roles[s], "") && ownPerm(u.roles[s], "", as(optsOf(options, len(options)).activity, string)))
	inv any roles map[string]*Role: forall k in #seen: !(carries(u.roles[k], "") && ownPerm(u.roles[k], "", as(optsOf(options, len(options)).activity, string)))
	inv any svr *Option: svr.tenant == optsOf(options, #k).tenant && svr.namespace == optsOf(options, #k).namespace && svr.scope == optsOf(options, #k).scope && svr.resourceGroup == optsOf(options, #k).resourceGroup && svr.activity == optsOf(options, #k).activity
	inv forall r in #done: r.NamespaceID != as(optsOf(options, len(options)).namespace, string)
	inv forall r in #done: r.ScopeID != as(optsOf(options, len(options)).scope, string)
	inv forall r in #done: !(r.NamespaceID == as(optsOf(options, len(options)).namespace, string) && r.ScopeID == as(optsOf(options, len(options)).scope, string))
	inv forall r in #done: !(r.PrincipalID == "" && r.NamespaceID == as(optsOf(options, len(options)).namespace, string) && r.ScopeID == as(optsOf(options, len(options)).scope, string))
	inv forall w TenantPrincipal: w.TenantID in #done && tenantOf(u, w, principalID) && w.TenantID in dom(u.tenants) ==> !(as(optsOf(options, len(options)).namespace, string) in dom(u.tenants[w.TenantID].namespaces))
	inv forall w TenantPrincipal: w.TenantID in #done && tenantOf(u, w, principalID) && w.TenantID in dom(u.tenants) && as(optsOf(options, len(options)).scope, string) in dom(u.tenants[w.TenantID].scopes) ==> w.ScopeID != as(optsOf(options, len(options)).scope, string)
	inv forall w TenantPrincipal: w.TenantID in #done && tenantOf(u, w, principalID) ==> !(w.NamespaceID == as(optsOf(options, len(options)).namespace, string) && w.ScopeID == as(optsOf(options, len(options)).scope, string))
	inv any roles map[string]*Role: forall k in dom(roles): k in dom(u.roles) && roles[k] == u.roles[k]
	inv any roles map[string]*Role: forall k in dom(roles): exists w in #done: w.RoleID == k
	inv any roles map[string]*Role: forall k in dom(roles): k in #done
	inv any roles map[string]*Role: forall w in #done: w.RoleID in dom(u.roles) ==> w.RoleID in dom(roles)
	inv any roles map[string]*Role, resourceGroup string, activity string: forall k in #seen: !(carries(u.roles[k], resourceGroup) && ownPerm(u.roles[k], resourceGroup, activity))
	inv any roleIDs []string: forall s in roleIDs: exists w TenantPrincipal: tenantOf(u, w, principalID) && w.RoleID == s
	use @exit lemma forall r *Role, g string, p string, allowed []string, none []string: hasAllowed(r, g, p, allowed, none)
}
