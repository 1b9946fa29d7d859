package v1

sweep C15/own

// ---- roles (C11, C20) --------------------------------------------------------
// every role object is well-formed, as established by NewRole
pred roleOK(r *Role) = r.permissions != nil && r.descendants != nil
    && (forall k in dom(r.descendants): r.descendants[k] != nil && r.descendants[k].id == k)
    && (forall g in dom(r.permissions): r.permissions[g] != nil ==> r.permissions[g].permissions != nil)
pred rolesOK() = (forall r *Role: roleOK(r))
    && (forall r *Role, s *Role {r.descendants, s.descendants}: r.descendants == s.descendants ==> r == s)

// x is inherited by r, directly or transitively
inductive desc(r *Role, x *Role) =
    (exists k string: k in dom(r.descendants) && x == r.descendants[k])
    || (exists m *Role, k string: desc(r, m) && k in dom(m.descendants) && x == m.descendants[k])
pred acyclicRoles() = forall r *Role: !desc(r, r)

lemma descFront(r *Role, k string, x *Role) {
	requires k in dom(r.descendants) && desc(r.descendants[k], x)
	ensures desc(r, x)
	trigger k in dom(r.descendants), desc(r.descendants[k], x)
	use induct desc(r.descendants[k], y *Role) by desc(r, y)
}
lemma descTrans(a *Role, b *Role, z *Role) {
	requires desc(a, b) && desc(b, z)
	ensures desc(a, z)
	trigger desc(a, b), desc(b, z)
	use induct desc(b, y *Role) by desc(a, y)
}

fn Role.GetDescendantRoles(r) {
	props C11 C20
	requires rolesOK()
	ensures all: forall x *Role: x in result <==> desc(r, x)
	ensures forall x in result: x != nil
	inv any descendants []*Role: forall x *Role: x in descendants <==> exists k in #seen: x == r.descendants[k] || desc(r.descendants[k], x)
	inv any descendants []*Role: forall x in descendants: x != nil
	use @exit lemma forall k string, x *Role: descFront(r, k, x)
	use @exit induct desc(r, x *Role) by exists k in dom(r.descendants): x == r.descendants[k] || desc(r.descendants[k], x)
}

pred carries(r *Role, g string) = g in dom(r.permissions) && r.permissions[g] != nil
pred ownPerm(r *Role, g string, p string) =
    p in dom(r.permissions[g].permissions) || exists q in dom(r.permissions[g].permissions): utils.matchFrom(p, 0, q, 0)
// r has permission p in group g, inherited ones restricted to the allowed roles if any are given
inductive has(r *Role, g string, p string, allowed []string) =
    (carries(r, g) && ownPerm(r, g, p))
    || (exists d *Role: carries(r, g) && desc(r, d) && (len(allowed) == 0 || d.id in allowed) && has(d, g, p, allowed))

fn Role.Has(r, resourceGroup, permissionName, allowedDescendants) {
	props C11
	requires rolesOK()
	ensures exact: result <==> has(r, resourceGroup, permissionName, allowedDescendants)
	use @exit induct has(x *Role, resourceGroup, permissionName, allowedDescendants) by carries(x, resourceGroup) && (ownPerm(x, resourceGroup, permissionName) || exists d *Role: desc(x, d) && (len(allowedDescendants) == 0 || d.id in allowedDescendants) && has(d, resourceGroup, permissionName, allowedDescendants))
	inv any matched bool: matched <==> exists q in #seen: utils.matchFrom(permissionName, 0, q, 0)
	inv any matched bool: !matched
	inv forall q in #seen: !utils.matchFrom(permissionName, 0, q, 0)
	inv forall d in #done: (len(allowedDescendants) == 0 || d.id in allowedDescendants) ==> !has(d, resourceGroup, permissionName, allowedDescendants)
}

fn Role.AddDescendent(r, descendants) {
	props C11 C20
	requires rolesOK() && forall d in descendants: d != nil
	modifies map(r.descendants)
	ensures refused: result != nil <==> r.lock || exists d in descendants: d == r || old(desc(d, r))
	ensures unchanged: result != nil ==> forall k string: (k in dom(r.descendants) <==> old(k in dom(r.descendants))) && r.descendants[k] == old(r.descendants[k])
	ensures added: result == nil ==> forall k string: k in dom(r.descendants) <==> old(k in dom(r.descendants)) || exists d in descendants: d.id == k
	ensures kept: forall k in old(dom(r.descendants)): r.descendants[k] == old(r.descendants[k])
	ensures given: forall k in dom(r.descendants): !old(k in dom(r.descendants)) ==> exists d in descendants: d.id == k && r.descendants[k] == d
	ensures rolesOK()
	ensures acyclic: old(acyclicRoles()) ==> acyclicRoles()
	inv forall d in #done: !(d == r) && !old(desc(d, r))
	inv forall k string: k in dom(r.descendants) <==> old(k in dom(r.descendants)) || exists d in #done: d.id == k
	inv forall k in old(dom(r.descendants)): r.descendants[k] == old(r.descendants[k])
	inv forall k in dom(r.descendants): !old(k in dom(r.descendants)) ==> exists d in #done: d.id == k && r.descendants[k] == d
	inv rolesOK()
	use @exit induct desc(x *Role, y *Role) by allocated(x) ==> old(desc(x, y)) || (x == r || old(desc(x, r))) && (exists d in descendants: d == y || old(desc(d, y)))
	use @exit old lemma forall a *Role, b *Role, z *Role: descTrans(a, b, z)
	use @exit old lemma forall x *Role, k string, y *Role: descFront(x, k, y)
}
fn Role.AddPermission(r, resourceGroup, permissions) {
	props C11
	requires rolesOK() && forall p in permissions: p != nil
	modifies map(r.permissions); map(r.permissions[resourceGroup].permissions)
	ensures refused: result != nil <==> r.lock
	ensures unchanged: result != nil ==> forall g string: (g in dom(r.permissions) <==> old(g in dom(r.permissions))) && r.permissions[g] == old(r.permissions[g])
	ensures groups: result == nil ==> forall g string: (g in dom(r.permissions) <==> g == resourceGroup || old(g in dom(r.permissions))) && (g != resourceGroup ==> r.permissions[g] == old(r.permissions[g]))
	ensures samegroup: old(carries(r, resourceGroup)) ==> r.permissions[resourceGroup] == old(r.permissions[resourceGroup])
	ensures added: result == nil ==> carries(r, resourceGroup) && forall s string: s in dom(r.permissions[resourceGroup].permissions) <==> old(carries(r, resourceGroup) && s in dom(r.permissions[resourceGroup].permissions)) || exists p in permissions: p.resource + " " + p.action == s
	ensures nothing: result != nil && old(carries(r, resourceGroup)) ==> forall s string: s in dom(r.permissions[resourceGroup].permissions) <==> old(s in dom(r.permissions[resourceGroup].permissions))
	ensures rolesOK()
	inv any perm map[string]*Attribute: forall s string: s in dom(perm) <==> s in before(dom(perm)) || exists p in #done: p.resource + " " + p.action == s
}
fn Role.AddPermissionResourceGroup(r, resourceGroup) {
	props C11
	requires rolesOK() && resourceGroup != nil && resourceGroup.permissions != nil
	modifies map(r.permissions)
	ensures refused: result != nil <==> r.lock
	ensures unchanged: result != nil ==> forall g string: (g in dom(r.permissions) <==> old(g in dom(r.permissions))) && r.permissions[g] == old(r.permissions[g])
	ensures groups: result == nil ==> forall g string: g in dom(r.permissions) <==> g == resourceGroup.id || old(g in dom(r.permissions))
	ensures kept: forall g in old(dom(r.permissions)): r.permissions[g] == old(r.permissions[g])
	ensures named: result == nil && !old(resourceGroup.id in dom(r.permissions)) ==> r.permissions[resourceGroup.id] == resourceGroup
	ensures rolesOK()
}
fn Role.Lock(r) {
	props C11
	modifies r.lock
	ensures r.lock
}
fn Role.Unlock(r) {
	props C11
	modifies r.lock
	ensures !r.lock
}
fn Attribute.String(a, delimiter) {
	props C11 C14
	ensures result == (if len(delimiter) == 0 then a.resource + " " + a.action else a.resource + delimiter[0] + a.action)
}
fn AttributeGroup.AddAttributes(a, attrs) {
	props C11
	requires a.permissions != nil && forall x in attrs: x != nil
	modifies map(a.permissions)
	ensures added: forall s string: s in dom(a.permissions) <==> old(s in dom(a.permissions)) || exists p in attrs: p.resource + " " + p.action == s
	inv forall s string: s in dom(a.permissions) <==> old(s in dom(a.permissions)) || exists p in #done: p.resource + " " + p.action == s
}
fn RoleManager.AddPermissionsToRole(u, roleID, attributeGroupID, attrs) {
	props C11
	requires managerOK(u) && rolesOK() && groupsOK() && forall x in attrs: x != nil
	modifies map(u.roles[roleID].permissions); map(u.roles[roleID].permissions[attributeGroupID].permissions)
	ensures refused: result != nil <==> !(roleID in dom(u.roles)) || !(attributeGroupID in dom(u.attributeGroups)) || u.roles[roleID].lock || exists x in attrs: !old(x.resource + " " + x.action in dom(u.attributeGroups[attributeGroupID].permissions))
	ensures unchanged: result != nil && roleID in dom(u.roles) ==> forall g string: (g in dom(u.roles[roleID].permissions) <==> old(g in dom(u.roles[roleID].permissions))) && u.roles[roleID].permissions[g] == old(u.roles[roleID].permissions[g])
	ensures added: result == nil ==> carries(u.roles[roleID], attributeGroupID) && forall s string: s in dom(u.roles[roleID].permissions[attributeGroupID].permissions) <==> old(carries(u.roles[roleID], attributeGroupID) && s in dom(u.roles[roleID].permissions[attributeGroupID].permissions)) || exists p in attrs: p.resource + " " + p.action == s
	ensures kept: result == nil ==> forall g string: g != attributeGroupID ==> (g in dom(u.roles[roleID].permissions) <==> old(g in dom(u.roles[roleID].permissions))) && u.roles[roleID].permissions[g] == old(u.roles[roleID].permissions[g])
	inv forall x in #done: x.resource + " " + x.action in dom(u.attributeGroups[attributeGroupID].permissions)
}

// ---- registries (C14) ----------------------------------------------------------
pred groupsOK() = forall g *AttributeGroup: g.permissions != nil
// the manager as built by New: its registries exist and hold no nil entries
pred managerOK(u *RoleManager) = u.tenants != nil && u.namespaces != nil && u.scopes != nil && u.principals != nil && u.roles != nil
    && u.attributes != nil && u.attributeGroups != nil && u.tenantPrincipals != nil
    && (forall k in dom(u.tenants): u.tenants[k] != nil && u.tenants[k].id == k)
    && (forall k in dom(u.namespaces): u.namespaces[k] != nil && u.namespaces[k].id == k)
    && (forall k in dom(u.scopes): u.scopes[k] != nil && u.scopes[k].id == k)
    && (forall k in dom(u.principals): u.principals[k] != nil && u.principals[k].id == k)
    && (forall k in dom(u.roles): u.roles[k] != nil && u.roles[k].id == k)
    && (forall k in dom(u.attributes): u.attributes[k] != nil)
    && (forall k in dom(u.attributeGroups): u.attributeGroups[k] != nil && u.attributeGroups[k].id == k)
fn New() {
	props C14
	ensures fresh(result) && managerOK(result)
	ensures empty: forall k string: !(k in dom(result.tenants)) && !(k in dom(result.namespaces)) && !(k in dom(result.scopes)) && !(k in dom(result.principals)) && !(k in dom(result.roles)) && !(k in dom(result.attributes)) && !(k in dom(result.attributeGroups))
	ensures norows: forall t TenantPrincipal: !(t in dom(result.tenantPrincipals))
	ensures fresh(result.tenants) && fresh(result.namespaces) && fresh(result.scopes) && fresh(result.principals) && fresh(result.roles) && fresh(result.attributes) && fresh(result.attributeGroups) && fresh(result.tenantPrincipals)
}
fn NewRole(id) {
	props C14
	ensures fresh(result) && result.id == id && roleOK(result) && fresh(result.permissions) && fresh(result.descendants) && !result.lock
	ensures empty: forall k string: !(k in dom(result.permissions)) && !(k in dom(result.descendants))
}
fn NewTenant(id) {
	props C14
	ensures fresh(result) && result.id == id && tenantOK(result) && result.defaultNamespace == nil
	ensures empty: forall k string: !(k in dom(result.namespaces)) && !(k in dom(result.roles)) && !(k in dom(result.scopes)) && !(k in dom(result.descendants))
	ensures fresh(result.namespaces) && fresh(result.roles) && fresh(result.scopes) && fresh(result.descendants)
}
fn NewNamespace(id) {
	props C14
	ensures fresh(result) && result.id == id && result.roles != nil && result.scopes != nil && fresh(result.roles) && fresh(result.scopes)
	ensures empty: forall k string: !(k in dom(result.roles)) && !(k in dom(result.scopes))
}
fn NewScope(id) {
	props C14
	ensures fresh(result) && result.id == id
}
fn NewPrincipal(id) {
	props C14
	ensures fresh(result) && result.id == id
}
fn NewAttributeGroup(id) {
	props C14
	ensures fresh(result) && result.id == id && result.permissions != nil && fresh(result.permissions)
	ensures empty: forall k string: !(k in dom(result.permissions))
}
fn NewAttribute(resource, action) {
	props C14
	ensures fresh(result) && result.resource == resource && result.action == action
}
fn NewAttributes(resource, actions) {
	props C14
	ensures len(result) == len(actions) && forall i int {result[i]}: 0 <= i && i < len(result) ==> result[i] != nil && result[i].resource == resource && result[i].action == actions[i]
	inv any attrs []*Attribute: len(attrs) == #k && forall i int {attrs[i]}: 0 <= i && i < len(attrs) ==> attrs[i] != nil && attrs[i].resource == resource && attrs[i].action == actions[i]
}

// ---- tenants (C20) -----------------------------------------------------------
pred tenantOK(t *Tenant) = t.namespaces != nil && t.roles != nil && t.scopes != nil && t.descendants != nil
    && (forall k in dom(t.descendants): t.descendants[k] != nil && t.descendants[k].id == k)
    && (forall k in dom(t.namespaces): t.namespaces[k] != nil && t.namespaces[k].id == k)
    && (forall k in dom(t.roles): t.roles[k] != nil && t.roles[k].id == k)
    && (forall k in dom(t.scopes): t.scopes[k] != nil && t.scopes[k].id == k)
pred tenantsOK() = (forall t *Tenant: tenantOK(t))
    && (forall r *Tenant, s *Tenant {r.descendants, s.descendants}: r.descendants == s.descendants ==> r == s)
inductive tdesc(r *Tenant, x *Tenant) =
    (exists k string: k in dom(r.descendants) && x == r.descendants[k])
    || (exists m *Tenant, k string: tdesc(r, m) && k in dom(m.descendants) && x == m.descendants[k])
pred acyclicTenants() = forall r *Tenant: !tdesc(r, r)
lemma tdescFront(r *Tenant, k string, x *Tenant) {
	requires k in dom(r.descendants) && tdesc(r.descendants[k], x)
	ensures tdesc(r, x)
	trigger k in dom(r.descendants), tdesc(r.descendants[k], x)
	use induct tdesc(r.descendants[k], y *Tenant) by tdesc(r, y)
}
lemma tdescTrans(a *Tenant, b *Tenant, z *Tenant) {
	requires tdesc(a, b) && tdesc(b, z)
	ensures tdesc(a, z)
	trigger tdesc(a, b), tdesc(b, z)
	use induct tdesc(b, y *Tenant) by tdesc(a, y)
}
fn Tenant.GetDescendantTenants(c) {
	props C20
	requires tenantsOK()
	ensures all: forall x *Tenant: x in result <==> tdesc(c, x)
	ensures forall x in result: x != nil
	inv any descendants []*Tenant: forall x *Tenant: x in descendants <==> exists k in #seen: x == c.descendants[k] || tdesc(c.descendants[k], x)
	inv any descendants []*Tenant: forall x in descendants: x != nil
	use @exit lemma forall k string, x *Tenant: tdescFront(c, k, x)
	use @exit induct tdesc(c, x *Tenant) by exists k in dom(c.descendants): x == c.descendants[k] || tdesc(c.descendants[k], x)
}
fn Tenant.AddDescendent(c, descendants) {
	props C20
	requires tenantsOK() && forall d in descendants: d != nil
	modifies map(c.descendants)
	ensures refused: result != nil <==> exists d in descendants: d == c || old(tdesc(d, c))
	ensures unchanged: result != nil ==> forall k string: (k in dom(c.descendants) <==> old(k in dom(c.descendants))) && c.descendants[k] == old(c.descendants[k])
	ensures added: result == nil ==> forall k string: k in dom(c.descendants) <==> old(k in dom(c.descendants)) || exists d in descendants: d.id == k
	ensures kept: forall k in old(dom(c.descendants)): c.descendants[k] == old(c.descendants[k])
	ensures given: forall k in dom(c.descendants): !old(k in dom(c.descendants)) ==> exists d in descendants: d.id == k && c.descendants[k] == d
	ensures tenantsOK()
	ensures acyclic: old(acyclicTenants()) ==> acyclicTenants()
	inv forall d in #done: !(d == c) && !old(tdesc(d, c))
	inv forall k string: k in dom(c.descendants) <==> old(k in dom(c.descendants)) || exists d in #done: d.id == k
	inv forall k in old(dom(c.descendants)): c.descendants[k] == old(c.descendants[k])
	inv forall k in dom(c.descendants): !old(k in dom(c.descendants)) ==> exists d in #done: d.id == k && c.descendants[k] == d
	inv tenantsOK()
	use @exit induct tdesc(x *Tenant, y *Tenant) by allocated(x) ==> old(tdesc(x, y)) || (x == c || old(tdesc(x, c))) && (exists d in descendants: d == y || old(tdesc(d, y)))
	use @exit old lemma forall a *Tenant, b *Tenant, z *Tenant: tdescTrans(a, b, z)
	use @exit old lemma forall x *Tenant, k string, y *Tenant: tdescFront(x, k, y)
}
