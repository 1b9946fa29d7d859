package v1

// ---- assignments (C12) ---------------------------------------------------------
pred isRow(t TenantPrincipal, tenant string, principal string, role string, ns string, scope string, md bool) =
    t.TenantID == tenant && t.PrincipalID == principal && t.RoleID == role && t.NamespaceID == ns && t.ScopeID == scope && (t.CanManageDescendants <==> md)
pred nsID(n *Namespace, s string) = s == (if n == nil then "" else n.id)
pred scID(n *Scope, s string) = s == (if n == nil then "" else n.id)
pred linked(c *Tenant) = tenantOK(c) && c.manager != nil && c.manager.tenantPrincipals != nil

fn RoleManager.AddPrincipalRole(u, principalID, roleID, tenant, namespace, scope, canManageDescendants) {
	props C12
	requires u.tenantPrincipals != nil && tenant != nil
	modifies map(u.tenantPrincipals)
	ensures added: forall t TenantPrincipal: t in dom(u.tenantPrincipals) <==> old(t in dom(u.tenantPrincipals)) || t.TenantID == tenant.id && t.PrincipalID == principalID && t.RoleID == roleID && nsID(namespace, t.NamespaceID) && scID(scope, t.ScopeID) && (t.CanManageDescendants <==> len(canManageDescendants) == 0 || canManageDescendants[0])
}
fn Tenant.AddPrincipalRole(c, principalID, roleID, tenant, namespace, scope, canManageDescendants) {
	props C12
	requires c.manager != nil && c.manager.tenantPrincipals != nil && tenant != nil
	modifies map(c.manager.tenantPrincipals)
	ensures added: forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals)) || t.TenantID == tenant.id && t.PrincipalID == principalID && t.RoleID == roleID && nsID(namespace, t.NamespaceID) && scID(scope, t.ScopeID) && (t.CanManageDescendants <==> len(canManageDescendants) == 0 || canManageDescendants[0])
}
fn Tenant.AddPrincipal(c, principal, roles) {
	props C12
	requires linked(c)
	modifies map(c.manager.tenantPrincipals)
	ensures added: forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals)) || exists r in roles: r in dom(c.roles) && t.TenantID == c.id && t.PrincipalID == principal && t.RoleID == r && t.ScopeID == "" && t.CanManageDescendants && (t.NamespaceID == "" || c.defaultNamespace != nil && t.NamespaceID == c.defaultNamespace.id)
	inv forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals)) || exists r in #done: r in dom(c.roles) && t.TenantID == c.id && t.PrincipalID == principal && t.RoleID == r && t.ScopeID == "" && t.CanManageDescendants && (t.NamespaceID == "" || c.defaultNamespace != nil && t.NamespaceID == c.defaultNamespace.id)
}
fn Tenant.AddPrincipalInNamespace(c, principal, namespace, roles) {
	props C12
	requires linked(c)
	modifies map(c.manager.tenantPrincipals)
	ensures unknown: !(namespace in dom(c.namespaces)) ==> forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals))
	ensures roles: namespace in dom(c.namespaces) && len(roles) > 0 ==> forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals)) || exists r in roles: r in dom(c.roles) && isRow(t, c.id, principal, r, namespace, "", true)
	ensures noroles: namespace in dom(c.namespaces) && len(roles) == 0 ==> forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals)) || isRow(t, c.id, principal, "", namespace, "", true) || exists w TenantPrincipal: old(w in dom(c.manager.tenantPrincipals)) && w.TenantID == c.id && w.PrincipalID == principal && w.NamespaceID != "" && w.NamespaceID != namespace && isRow(t, c.id, principal, w.RoleID, namespace, "", true)
	inv len(roles) > 0 ==> forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals)) || exists r in #done: r in dom(c.roles) && isRow(t, c.id, principal, r, namespace, "", true)
	inv len(roles) == 0 ==> forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals)) || exists w in #done: w.TenantID == c.id && w.PrincipalID == principal && w.NamespaceID != "" && w.NamespaceID != namespace && isRow(t, c.id, principal, w.RoleID, namespace, "", true)
}
pred scopeRow(c *Tenant, t TenantPrincipal, principal string, role string, id string) =
    id in dom(c.scopes) && t.TenantID == c.id && t.PrincipalID == principal && t.RoleID == role && t.ScopeID == id && t.CanManageDescendants
    && (t.NamespaceID == "" || c.defaultNamespace != nil && t.NamespaceID == c.defaultNamespace.id)
fn Tenant.AssignScopesWithRole(c, principalID, roleId, scopes) {
	props C12
	requires linked(c)
	modifies map(c.manager.tenantPrincipals)
	ensures added: forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals))
	    || roleId in dom(c.roles) && old(exists w in dom(c.manager.tenantPrincipals): w.TenantID == c.id && w.PrincipalID == principalID) && exists id in scopes: scopeRow(c, t, principalID, roleId, id)
	inv forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals)) || exists id in #done: scopeRow(c, t, principalID, roleId, id)
}
fn Tenant.AssignScopesToPrincipal(c, principalID, scopes) {
	props C12
	requires linked(c)
	modifies map(c.manager.tenantPrincipals)
	ensures added: forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals))
	    || (exists id in scopes: old(exists w in dom(c.manager.tenantPrincipals): w.TenantID == c.id && w.PrincipalID == principalID) && id in dom(c.scopes) && isRow(t, c.id, principalID, "", "", id, true))
	    || (exists id in scopes: old(exists w in dom(c.manager.tenantPrincipals): w.TenantID == c.id && w.PrincipalID == principalID && scopeRow(c, t, principalID, w.RoleID, id)))
	inv forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals))
	    || (exists id in #done: id in dom(c.scopes) && isRow(t, c.id, principalID, "", "", id, true))
	    || (exists id in #done: old(exists w in dom(c.manager.tenantPrincipals): w.TenantID == c.id && w.PrincipalID == principalID && scopeRow(c, t, principalID, w.RoleID, id)))
	inv any id string: forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> before(t in dom(c.manager.tenantPrincipals)) || (exists w in #done: scopeRow(c, t, principalID, w.RoleID, id))
}
fn Tenant.AddScopesToNamespace(c, namespace, scopes) {
	props C12 C14
	requires linked(c) && tenantsOK() && namespacesOK()
	modifies map(c.manager.tenantPrincipals); map(c.namespaces[namespace].scopes)
	ensures added: forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals))
	    || namespace in dom(c.namespaces) && (exists i int {scopes[i]}: 0 <= i && i < len(scopes) && (forall j int {scopes[j]}: 0 <= j && j <= i ==> scopes[j] in dom(c.scopes)) && isRow(t, c.id, "", "", namespace, scopes[i], true))
	ensures scopes: namespace in dom(c.namespaces) ==> forall k string: k in dom(c.namespaces[namespace].scopes) <==> old(k in dom(c.namespaces[namespace].scopes))
	    || exists i int {scopes[i]}: 0 <= i && i < len(scopes) && scopes[i] == k && (forall j int {scopes[j]}: 0 <= j && j <= i ==> scopes[j] in dom(c.scopes))
	ensures kept: namespace in dom(c.namespaces) ==> forall k in old(dom(c.namespaces[namespace].scopes)): c.namespaces[namespace].scopes[k] == old(c.namespaces[namespace].scopes[k])
	ensures value: namespace in dom(c.namespaces) ==> forall k in dom(c.namespaces[namespace].scopes): old(k in dom(c.namespaces[namespace].scopes)) || c.namespaces[namespace].scopes[k] == c.scopes[k]
	inv namespace in dom(c.namespaces) ==> forall k string: k in dom(c.namespaces[namespace].scopes) <==> old(k in dom(c.namespaces[namespace].scopes)) || exists i int {scopes[i]}: 0 <= i && i < #k && scopes[i] == k
	inv namespace in dom(c.namespaces) ==> forall k in old(dom(c.namespaces[namespace].scopes)): c.namespaces[namespace].scopes[k] == old(c.namespaces[namespace].scopes[k])
	inv namespace in dom(c.namespaces) ==> forall k in dom(c.namespaces[namespace].scopes): old(k in dom(c.namespaces[namespace].scopes)) || c.namespaces[namespace].scopes[k] == c.scopes[k]
	inv forall j int {scopes[j]}: 0 <= j && j < #k ==> scopes[j] in dom(c.scopes)
	inv forall t TenantPrincipal: t in dom(c.manager.tenantPrincipals) <==> old(t in dom(c.manager.tenantPrincipals)) || namespace in dom(c.namespaces) && (exists i int {scopes[i]}: 0 <= i && i < #k && isRow(t, c.id, "", "", namespace, scopes[i], true))
}
pred namespacesOK() = (forall n *Namespace: n.roles != nil && n.scopes != nil)
    && (forall t *Tenant, n *Namespace {t.scopes, n.scopes}: t.scopes != n.scopes)
    && (forall t *Tenant, n *Namespace {t.roles, n.roles}: t.roles != n.roles)
    && (forall t *Tenant, n *RoleManager {t.scopes, n.scopes}: t.scopes != n.scopes)

fn RoleManager.GetTenantsForPrincipal(u, principalID) {
	props C12
	requires u.tenantPrincipals != nil
	ensures exact: forall s string: s in result0 <==> exists t in dom(u.tenantPrincipals): t.PrincipalID == principalID && t.TenantID == s
	ensures ok: result1 == nil
	inv any tenants []string: forall s string: s in tenants <==> exists t in #seen: t.PrincipalID == principalID && t.TenantID == s
}
fn RoleManager.GetPrincipalRoles(u, tenant, principalID) {
	props C12
	requires u.tenantPrincipals != nil
	ensures exact: forall t TenantPrincipal: t in result <==> t in dom(u.tenantPrincipals) && t.PrincipalID == principalID && t.TenantID == tenant
	ensures none: isnil(result) <==> len(result) == 0
	ensures some: len(result) > 0 <==> exists t in dom(u.tenantPrincipals): t.PrincipalID == principalID && t.TenantID == tenant
	inv any data []TenantPrincipal: forall t TenantPrincipal: t in data <==> t in #seen && t.PrincipalID == principalID && t.TenantID == tenant
	inv any data []TenantPrincipal: isnil(data) <==> len(data) == 0
}
fn RoleManager.GetTenantRoles(u, tenant) {
	props C12
	requires u.tenantPrincipals != nil
	ensures exact: forall t TenantPrincipal: t in result <==> t in dom(u.tenantPrincipals) && t.TenantID == tenant
	inv any data []TenantPrincipal: forall t TenantPrincipal: t in data <==> t in #seen && t.TenantID == tenant
}
fn RoleManager.GetPrincipalRolesByTenant(u, tenant) {
	props C12
	requires u.tenantPrincipals != nil
	ensures exact: forall t TenantPrincipal: t in result <==> t in dom(u.tenantPrincipals) && t.TenantID == tenant
	inv any data []TenantPrincipal: forall t TenantPrincipal: t in data <==> t in #seen && t.TenantID == tenant
}
fn RoleManager.GetScopesForPrincipal(u, principalID) {
	props C12
	requires managerOK(u)
	ensures refused: result1 != nil <==> !(principalID in dom(u.principals))
	ensures exact: result1 == nil ==> forall s string: s in result0 <==> exists t in dom(u.tenantPrincipals): t.PrincipalID == principalID && t.ScopeID == s && s != ""
	inv any scopes []string: forall s string: s in scopes <==> exists t in #seen: t.PrincipalID == principalID && t.ScopeID == s && s != ""
}
fn RoleManager.GetTenantScopesForPrincipal(u, tenantID, principalID) {
	props C12
	requires managerOK(u)
	ensures refused: result1 != nil <==> !(principalID in dom(u.principals)) || !(tenantID in dom(u.tenants))
	ensures exact: result1 == nil ==> forall s string: s in result0 <==> exists t in dom(u.tenantPrincipals): t.PrincipalID == principalID && t.TenantID == tenantID && t.ScopeID == s && s != ""
	inv any scopes []string: forall s string: s in scopes <==> exists t in #seen: t.PrincipalID == principalID && t.TenantID == tenantID && t.ScopeID == s && s != ""
}
fn RoleManager.GetImplicitPrincipalRoles(u, tenantID, principalID) {
	props C12
	requires managerOK(u) && tenantsOK()
	ensures exact: forall t TenantPrincipal: t in result <==> t in dom(u.tenantPrincipals) && t.PrincipalID == principalID && (t.TenantID == tenantID || tenantID in dom(u.tenants) && t.TenantID in dom(u.tenants[tenantID].descendants))
	inv any data []TenantPrincipal: forall t TenantPrincipal: t in data <==> t in before(data) || t in dom(u.tenantPrincipals) && t.PrincipalID == principalID && t.TenantID in #seen
	inv any data []TenantPrincipal, id string: forall t TenantPrincipal: t in data <==> t in before(data) || t in #seen && t.PrincipalID == principalID && t.TenantID == id
}
fn RoleManager.GetPermissionsForPrincipal(u, tenant, principalID) {
	props C12
	requires managerOK(u) && rolesOK() && groupsOK() && attrsOK() && forall r *Role, g string {r.permissions[g]}: g in dom(r.permissions) ==> r.permissions[g] != nil
	ensures exact: forall t TenantPrincipal: (exists d in result: d.TenantPrincipal == t) <==> t in dom(u.tenantPrincipals) && t.PrincipalID == principalID && t.TenantID == tenant && t.RoleID != "" && t.RoleID in dom(u.roles)
	ensures groups: forall d in result: forall g string: g in dom(d.Permissions) <==> g in dom(u.roles[d.RoleID].permissions)
	inv any data []PrincipalPermissions: forall t TenantPrincipal: (exists d in data: d.TenantPrincipal == t) <==> t in #seen && t.PrincipalID == principalID && t.TenantID == tenant && t.RoleID != "" && t.RoleID in dom(u.roles)
	inv any data []PrincipalPermissions: forall d in data: forall g string: g in dom(d.Permissions) <==> g in dom(u.roles[d.TenantPrincipal.RoleID].permissions)
}
pred groupList(g *AttributeGroup, l []Attribute) = forall a Attribute: a in l <==> exists k in dom(g.permissions): g.permissions[k].resource == a.resource && g.permissions[k].action == a.action
fn Role.GetPermissions(r) {
	props C12 C11
	requires rolesOK() && groupsOK() && attrsOK() && (forall g in dom(r.permissions): r.permissions[g] != nil)
	ensures fresh(result)
	ensures groups: forall g string: g in dom(result) <==> g in dom(r.permissions)
	ensures perms: forall g string, x *AttributeGroup {g in dom(result), x.permissions}: g in dom(r.permissions) && x == r.permissions[g] ==> groupList(x, result[g])
	inv any grpPermissions map[string][]Attribute: forall g string: g in dom(grpPermissions) <==> g in #seen
	inv any grpPermissions map[string][]Attribute: forall g string, x *AttributeGroup {g in dom(grpPermissions), x.permissions}: g in #seen && x == r.permissions[g] ==> groupList(x, grpPermissions[g])
	inv any grp *AttributeGroup, permissions []Attribute: forall a Attribute: a in permissions <==> exists k in #seen: grp.permissions[k].resource == a.resource && grp.permissions[k].action == a.action
}
pred attrsOK() = forall g *AttributeGroup, k string {g.permissions[k]}: k in dom(g.permissions) ==> g.permissions[k] != nil
