package permission

// ---- authorization (C09) -------------------------------------------------------
rec optsOf(os []func(*Option), k int) Option = if k <= 0 then zero(Option) else after(os[k-1], optsOf(os, k-1))
pred optStrings(o Option) = optString(o.tenant) && optString(o.namespace) && optString(o.scope) && optString(o.activityGroup) && optString(o.activity)

fn WithTenant(tenant) {
	props C09
	ensures forall o Option: after(result, o).tenant == tenant && after(result, o).namespace == o.namespace && after(result, o).scope == o.scope && after(result, o).activityGroup == o.activityGroup && after(result, o).activity == o.activity
}
fn WithNamespace(namespace) {
	props C09
	ensures forall o Option: after(result, o).tenant == o.tenant && after(result, o).namespace == namespace && after(result, o).scope == o.scope && after(result, o).activityGroup == o.activityGroup && after(result, o).activity == o.activity
}
fn WithScope(scope) {
	props C09
	ensures forall o Option: after(result, o).tenant == o.tenant && after(result, o).namespace == o.namespace && after(result, o).scope == scope && after(result, o).activityGroup == o.activityGroup && after(result, o).activity == o.activity
}
fn WithAttributeGroup(activityGroup) {
	props C09
	ensures forall o Option: after(result, o).tenant == o.tenant && after(result, o).namespace == o.namespace && after(result, o).scope == o.scope && after(result, o).activityGroup == activityGroup && after(result, o).activity == o.activity
}
fn WithActivity(activity) {
	props C09
	ensures forall o Option: after(result, o).tenant == o.tenant && after(result, o).namespace == o.namespace && after(result, o).scope == o.scope && after(result, o).activityGroup == o.activityGroup && after(result, o).activity == activity
}

// role id is recorded in tenant s (s nil: in a tenant where the principal has a record)
pred recorded(u *RoleManager, p string, s any, id string) = exists every e *Data: row(u, e) && e.Role == any(id) && (if s == nil then member(u, any(p), e.Tenant) else ofTenant(e, s))
// role r has activity a in group g, itself or through inherited roles recorded there
inductive hasIn(u *RoleManager, p string, s any, r *Role, g string, a string) =
    (carries(r, g) && ownPerm(r, g, a))
    || (exists d *Role: carries(r, g) && desc(r, d) && recorded(u, p, s, d.id) && hasIn(u, p, s, d, g, a))
pred allowedIn(u *RoleManager, p string, s any, allowed []string) = len(allowed) > 0 && forall x string: x in allowed <==> recorded(u, p, s, x)
lemma hasInTo(u *RoleManager, p string, s any, r *Role, g string, a string, allowed []string) {
	requires u != nil && allowedIn(u, p, s, allowed) && hasIn(u, p, s, r, g, a)
	ensures has(r, g, a, allowed)
	trigger hasIn(u, p, s, r, g, a), has(r, g, a, allowed)
	use induct hasIn(u, p, s, x *Role, g, a) by has(x, g, a, allowed)
}
lemma hasInFrom(u *RoleManager, p string, s any, r *Role, g string, a string, allowed []string) {
	requires u != nil && allowedIn(u, p, s, allowed) && has(r, g, a, allowed)
	ensures hasIn(u, p, s, r, g, a)
	trigger has(r, g, a, allowed), hasIn(u, p, s, r, g, a)
	use induct has(x *Role, g, a, allowed) by hasIn(u, p, s, x, g, a)
}
// the principal's role records that count for a request in tenant s (nil: any tenant
// of the principal) with namespace n and scope c, as far as those are named
pred roleRow(u *RoleManager, p string, s any, n any, c any, d *Data) = row(u, d) && d.Tenant != nil && (s == nil || d.Tenant == s) && ofPrincipal(d, any(p)) && (n == nil || forNamespace(d, n)) && (c == nil || forScope(d, c)) && d.Role != nil
pred grantActivity(u *RoleManager, p string, s any, n any, c any, g string, a string) =
    exists every d *Data: roleRow(u, p, s, n, c, d) && as(d.Role, string) in dom(u.roles) && hasIn(u, p, s, u.roles[as(d.Role, string)], g, a)
pred grantMember(u *RoleManager, p string, s any) = member(u, any(p), s)
pred grantNamespace(u *RoleManager, p string, s any, n any) = member(u, any(p), s) && exists every d *Data: row(u, d) && ofTenant(d, s) && forPrincipal(d, any(p)) && d.Namespace != nil && d.Namespace == n
pred grantScope(u *RoleManager, p string, s any, n any, c any) = exists every d *Data: row(u, d) && d.Tenant != nil && (s == nil || d.Tenant == s) && member(u, any(p), d.Tenant) && forPrincipal(d, any(p)) && (n == nil || forNamespace(d, n)) && d.Scope != nil && d.Scope == c
// what counts in tenant s for the named values
pred grantPlain(u *RoleManager, p string, s any, n any, c any) =
    (s != nil && n == nil && c == nil && grantMember(u, p, s))
    || (s != nil && n != nil && c == nil && grantNamespace(u, p, s, n))
    || (c != nil && (s != nil || n != nil) && grantScope(u, p, s, n, c))
pred grantIn(u *RoleManager, p string, s any, n any, c any, g any, a any) =
    if g == nil || a == nil then grantPlain(u, p, s, n, c) else (s != nil || n != nil && c != nil) && grantActivity(u, p, s, n, c, as(g, string), as(a, string))
// grants come from a tenant in which the principal has a record
lemma plainBelongs(u *RoleManager, p string, s any, n any, c any) {
	requires u != nil && grantPlain(u, p, s, n, c)
	ensures exists every d *Data: row(u, d) && ofPrincipal(d, any(p)) && d.Tenant != nil
	trigger grantPlain(u, p, s, n, c)
}
lemma activityBelongs(u *RoleManager, p string, s any, n any, c any, g string, a string) {
	requires u != nil && grantActivity(u, p, s, n, c, g, a)
	ensures exists every d *Data: row(u, d) && ofPrincipal(d, any(p)) && d.Tenant != nil
	trigger grantActivity(u, p, s, n, c, g, a)
}
// record d lets principal p act in tenant t, a descendant of d's tenant
pred manages(u *RoleManager, p string, d *Data, t any) = row(u, d) && ofPrincipal(d, any(p)) && d.Tenant != nil && d.ManageDescendants == any(true) && below(u, d.Tenant, t)
pred known(u *RoleManager, o Option) =
    (o.tenant == nil || as(o.tenant, string) in dom(u.tenants))
    && (o.namespace == nil || as(o.namespace, string) in dom(u.namespaces))
    && (o.scope == nil || as(o.scope, string) in dom(u.scopes))
pred flags(o *Option, t bool, tn bool, ts bool, tns bool, ns bool) =
    (t <==> o.tenant != nil && o.namespace == nil && o.scope == nil)
    && (tn <==> o.tenant != nil && o.namespace != nil && o.scope == nil)
    && (ts <==> o.tenant != nil && o.namespace == nil && o.scope != nil)
    && (tns <==> o.tenant != nil && o.namespace != nil && o.scope != nil)
    && (ns <==> o.tenant == nil && o.namespace != nil && o.scope != nil)

fn RoleManager.collectRoles(u, principalID, tenant) {
	props C09
	optional
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u) && tenant != nil
	ensures roles: forall x string: x in result0 <==> exists every d *Data: roleRow(u, principalID, tenant, nil, nil, d) && d.Role == any(x)
	ensures allowed: forall x string: x in result1 <==> recorded(u, principalID, tenant, x)
	inv any ss_ []string: forall x string: x in ss_ <==> exists d in #done: d.Role == any(x)
	inv any ss_ []string: forall x string: x in ss_ <==> exists d in #done: ofPrincipal(d, any(principalID)) && d.Role == any(x)
}
fn RoleManager.collectRolesByTenantAndNamespace(u, principalID, tenant, namespace) {
	props C09
	optional
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u) && tenant != nil && namespace != nil
	ensures roles: forall x string: x in result0 <==> exists every d *Data: roleRow(u, principalID, tenant, namespace, nil, d) && d.Role == any(x)
	ensures allowed: forall x string: x in result1 <==> recorded(u, principalID, tenant, x)
	inv any ss_ []string: forall x string: x in ss_ <==> exists d in #done: d.Role == any(x)
}
fn RoleManager.collectRolesByTenantAndScope(u, principalID, tenant, scope) {
	props C09
	optional
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u) && tenant != nil && scope != nil
	ensures roles: forall x string: x in result0 <==> exists every d *Data: roleRow(u, principalID, tenant, nil, scope, d) && d.Role == any(x)
	ensures allowed: forall x string: x in result1 <==> recorded(u, principalID, tenant, x)
	inv any ss_ []string: forall x string: x in ss_ <==> exists d in #done: d.Role == any(x)
}
fn RoleManager.collectRolesByTenantNamespaceAndScope(u, principalID, tenant, namespace, scope) {
	props C09
	optional
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u) && tenant != nil && namespace != nil && scope != nil
	ensures roles: forall x string: x in result0 <==> exists every d *Data: roleRow(u, principalID, tenant, namespace, scope, d) && d.Role == any(x)
	ensures allowed: forall x string: x in result1 <==> recorded(u, principalID, tenant, x)
	inv any ss_ []string: forall x string: x in ss_ <==> exists d in #done: d.Role == any(x)
}
fn RoleManager.collectRolesByNamespaceAndScope(u, principalID, namespace, scope) {
	props C09
	optional
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u) && namespace != nil && scope != nil
	ensures roles: forall x string: x in result0 <==> exists every d *Data: roleRow(u, principalID, nil, namespace, scope, d) && d.Role == any(x)
	ensures allowed: forall x string: x in result1 <==> recorded(u, principalID, nil, x)
	inv any ss_ []string: forall x string: x in ss_ <==> exists t in #done, every d *Data: roleRow(u, principalID, t.Tenant, namespace, scope, d) && d.Role == any(x)
	inv any ss_ []string: forall x string: x in ss_ <==> exists t in #done, every e *Data: row(u, e) && ofTenant(e, t.Tenant) && e.Role == any(x)
	inv any ss_ []string: forall x string: x in ss_ <==> x in before(ss_) || exists d in #done: d.Role == any(x)
}
fn RoleManager.checkNoActivity(u, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
	props C09
	optional
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u) && svr != nil && flags(svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided)
	ensures exact: result <==> grantPlain(u, principalID, svr.tenant, svr.namespace, svr.scope)
}
fn RoleManager.checkActivity(u, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
	props C09
	optional
	opaque trie.held trie.tries trie.keyed recorded
	requires managerOK(u) && rolesOK() && rowsOK(u) && svr != nil && flags(svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided)
	requires optString(svr.activityGroup) && optString(svr.activity)
	ensures exact: result <==> svr.activityGroup != nil && svr.activity != nil && (svr.tenant != nil || svr.namespace != nil && svr.scope != nil) && grantActivity(u, principalID, svr.tenant, svr.namespace, svr.scope, as(svr.activityGroup, string), as(svr.activity, string))
	inv forall k in #done: k in dom(u.roles) ==> !hasIn(u, principalID, svr.tenant, u.roles[k], as(svr.activityGroup, string), as(svr.activity, string))
	use @step lemma forall p string, s any, r *Role, g string, a string, allowed []string: hasInTo(u, p, s, r, g, a, allowed)
	use @step lemma forall p string, s any, r *Role, g string, a string, allowed []string: hasInFrom(u, p, s, r, g, a, allowed)
	use @exit lemma forall p string, s any, r *Role, g string, a string, allowed []string: hasInFrom(u, p, s, r, g, a, allowed)
}
fn RoleManager.Authorize(u, principalID, options) {
	props C09
	opaque trie.held trie.tries trie.keyed grantPlain grantActivity
	requires managerOK(u) && rolesOK() && tenantsOK() && rowsOK(u)
	requires strings: optStrings(optsOf(options, len(options)))
	requires options: forall f in options: f != nil
	ensures known: result ==> principalID in dom(u.principals) && known(u, optsOf(options, len(options)))
	ensures only: result ==> grantIn(u, principalID, optsOf(options, len(options)).tenant, optsOf(options, len(options)).namespace, optsOf(options, len(options)).scope, optsOf(options, len(options)).activityGroup, optsOf(options, len(options)).activity) || exists every d *Data: manages(u, principalID, d, optsOf(options, len(options)).tenant) && grantIn(u, principalID, d.Tenant, optsOf(options, len(options)).namespace, optsOf(options, len(options)).scope, optsOf(options, len(options)).activityGroup, optsOf(options, len(options)).activity)
	ensures granted: principalID in dom(u.principals) && known(u, optsOf(options, len(options))) && grantIn(u, principalID, optsOf(options, len(options)).tenant, optsOf(options, len(options)).namespace, optsOf(options, len(options)).scope, optsOf(options, len(options)).activityGroup, optsOf(options, len(options)).activity) ==> result
	ensures above: forall every d *Data: principalID in dom(u.principals) && known(u, optsOf(options, len(options))) && optsOf(options, len(options)).tenant != nil && manages(u, principalID, d, optsOf(options, len(options)).tenant) && grantIn(u, principalID, d.Tenant, optsOf(options, len(options)).namespace, optsOf(options, len(options)).scope, optsOf(options, len(options)).activityGroup, optsOf(options, len(options)).activity) ==> result
	use @exit lemma forall s any, n any, c any: plainBelongs(u, principalID, s, n, c)
	use @exit lemma forall s any, n any, c any, g string, a string: activityBelongs(u, principalID, s, n, c, g, a)
	inv any svr *Option: svr.tenant == optsOf(options, #k).tenant && svr.namespace == optsOf(options, #k).namespace && svr.scope == optsOf(options, #k).scope && svr.activityGroup == optsOf(options, #k).activityGroup && svr.activity == optsOf(options, #k).activity
	inv any svr *Option: svr.namespace == optsOf(options, len(options)).namespace && svr.scope == optsOf(options, len(options)).scope && svr.activityGroup == optsOf(options, len(options)).activityGroup && svr.activity == optsOf(options, len(options)).activity
	inv any svr *Option: svr.tenant != nil
	inv forall d in #done: d.ManageDescendants == any(true) && below(u, d.Tenant, optsOf(options, len(options)).tenant) ==> !grantIn(u, principalID, d.Tenant, optsOf(options, len(options)).namespace, optsOf(options, len(options)).scope, optsOf(options, len(options)).activityGroup, optsOf(options, len(options)).activity)
}
