package permission

// ---- roles (C11, C20) --------------------------------------------------------
// every role object is well-formed, as established by NewRole
pred roleOK(r *Role) = r.permissions != nil && r.descendants != nil
    && (forall k in dom(r.descendants): r.descendants[k] != nil && r.descendants[k].id == k)
    && (forall g in dom(r.permissions): r.permissions[g] != nil ==> r.permissions[g].permissions != nil)
pred rolesOK() = (forall r *Role: roleOK(r))
    && (forall r *Role, s *Role {r.descendants, s.descendants}: r.descendants == s.descendants ==> r == s)

// x is inherited by r, directly or transitively
inductive desc(r *Role, x *Role) =
    (exists k string: k in dom(r.descendants) && x == r.descendants[k])
    || (exists m *Role, k string: desc(r, m) && k in dom(m.descendants) && x == m.descendants[k])
pred acyclicRoles() = forall r *Role: !desc(r, r)

lemma descFront(r *Role, k string, x *Role) {
	requires k in dom(r.descendants) && desc(r.descendants[k], x)
	ensures desc(r, x)
	trigger k in dom(r.descendants), desc(r.descendants[k], x)
	use induct desc(r.descendants[k], y *Role) by desc(r, y)
}
lemma descTrans(a *Role, b *Role, z *Role) {
	requires desc(a, b) && desc(b, z)
	ensures desc(a, z)
	trigger desc(a, b), desc(b, z)
	use induct desc(b, y *Role) by desc(a, y)
}

fn Role.GetDescendantRoles(r) {
	props C11 C20
	requires rolesOK()
	ensures all: forall x *Role: x in result <==> desc(r, x)
	ensures forall x in result: x != nil
	inv any descendants []*Role: forall x *Role: x in descendants <==> exists k in #seen: x == r.descendants[k] || desc(r.descendants[k], x)
	inv any descendants []*Role: forall x in descendants: x != nil
	use @exit lemma forall k string, x *Role: descFront(r, k, x)
	use @exit induct desc(r, x *Role) by exists k in dom(r.descendants): x == r.descendants[k] || desc(r.descendants[k], x)
}

pred carries(r *Role, g string) = g in dom(r.permissions) && r.permissions[g] != nil
pred ownPerm(r *Role, g string, p string) =
    p in dom(r.permissions[g].permissions) || exists q in dom(r.permissions[g].permissions): utils.matchFrom(p, 0, q, 0)
// r has permission p in group g, inherited ones restricted to the allowed roles if any are given
inductive has(r *Role, g string, p string, allowed []string) =
    (carries(r, g) && ownPerm(r, g, p))
    || (exists d *Role: carries(r, g) && desc(r, d) && (len(allowed) == 0 || d.id in allowed) && has(d, g, p, allowed))

fn Role.Has(r, resourceGroup, permissionName, allowedDescendants) {
	props C11
	requires rolesOK()
	ensures exact: result <==> has(r, resourceGroup, permissionName, allowedDescendants)
	use @exit induct has(x *Role, resourceGroup, permissionName, allowedDescendants) by carries(x, resourceGroup) && (ownPerm(x, resourceGroup, permissionName) || exists d *Role: desc(x, d) && (len(allowedDescendants) == 0 || d.id in allowedDescendants) && has(d, resourceGroup, permissionName, allowedDescendants))
	inv any matched bool: matched <==> exists q in #seen: utils.matchFrom(permissionName, 0, q, 0)
	inv any matched bool: !matched
	inv forall q in #seen: !utils.matchFrom(permissionName, 0, q, 0)
	inv forall d in #done: (len(allowedDescendants) == 0 || d.id in allowedDescendants) ==> !has(d, resourceGroup, permissionName, allowedDescendants)
}

fn Role.AddDescendant(r, descendants) {
	props C11 C20
	requires rolesOK() && forall d in descendants: d != nil
	modifies map(r.descendants)
	ensures refused: result != nil <==> r.lock || exists d in descendants: d == r || old(desc(d, r))
	ensures unchanged: result != nil ==> forall k string: (k in dom(r.descendants) <==> old(k in dom(r.descendants))) && r.descendants[k] == old(r.descendants[k])
	ensures added: result == nil ==> forall k string: k in dom(r.descendants) <==> old(k in dom(r.descendants)) || exists d in descendants: d.id == k
	ensures kept: forall k in old(dom(r.descendants)): r.descendants[k] == old(r.descendants[k])
	ensures given: forall k in dom(r.descendants): !old(k in dom(r.descendants)) ==> exists d in descendants: d.id == k && r.descendants[k] == d
	ensures rolesOK()
	ensures acyclic: old(acyclicRoles()) ==> acyclicRoles()
	inv forall d in #done: !(d == r) && !old(desc(d, r))
	inv forall k string: k in dom(r.descendants) <==> old(k in dom(r.descendants)) || exists d in #done: d.id == k
	inv forall k in old(dom(r.descendants)): r.descendants[k] == old(r.descendants[k])
	inv forall k in dom(r.descendants): !old(k in dom(r.descendants)) ==> exists d in #done: d.id == k && r.descendants[k] == d
	inv rolesOK()
	use @exit induct desc(x *Role, y *Role) by allocated(x) ==> old(desc(x, y)) || (x == r || old(desc(x, r))) && (exists d in descendants: d == y || old(desc(d, y)))
	use @exit old lemma forall a *Role, b *Role, z *Role: descTrans(a, b, z)
	use @exit old lemma forall x *Role, k string, y *Role: descFront(x, k, y)
}
fn Role.AddPermission(r, resourceGroup, permissions) {
	props C11
	requires rolesOK() && forall p in permissions: p != nil
	modifies map(r.permissions); map(r.permissions[resourceGroup].permissions)
	ensures refused: result != nil <==> r.lock
	ensures unchanged: result != nil ==> forall g string: (g in dom(r.permissions) <==> old(g in dom(r.permissions))) && r.permissions[g] == old(r.permissions[g])
	ensures groups: result == nil ==> forall g string: (g in dom(r.permissions) <==> g == resourceGroup || old(g in dom(r.permissions))) && (g != resourceGroup ==> r.permissions[g] == old(r.permissions[g]))
	ensures samegroup: old(carries(r, resourceGroup)) ==> r.permissions[resourceGroup] == old(r.permissions[resourceGroup])
	ensures added: result == nil ==> carries(r, resourceGroup) && forall s string: s in dom(r.permissions[resourceGroup].permissions) <==> old(carries(r, resourceGroup) && s in dom(r.permissions[resourceGroup].permissions)) || exists p in permissions: p.resource + " " + p.action == s
	ensures nothing: result != nil && old(carries(r, resourceGroup)) ==> forall s string: s in dom(r.permissions[resourceGroup].permissions) <==> old(s in dom(r.permissions[resourceGroup].permissions))
	ensures rolesOK()
	inv any perm map[string]*Attribute: forall s string: s in dom(perm) <==> s in before(dom(perm)) || exists p in #done: p.resource + " " + p.action == s
}
fn Role.AddPermissionResourceGroup(r, resourceGroup) {
	props C11
	requires rolesOK() && resourceGroup != nil && resourceGroup.permissions != nil
	modifies map(r.permissions)
	ensures refused: result != nil <==> r.lock
	ensures unchanged: result != nil ==> forall g string: (g in dom(r.permissions) <==> old(g in dom(r.permissions))) && r.permissions[g] == old(r.permissions[g])
	ensures groups: result == nil ==> forall g string: g in dom(r.permissions) <==> g == resourceGroup.id || old(g in dom(r.permissions))
	ensures kept: forall g in old(dom(r.permissions)): r.permissions[g] == old(r.permissions[g])
	ensures named: result == nil && !old(resourceGroup.id in dom(r.permissions)) ==> r.permissions[resourceGroup.id] == resourceGroup
	ensures rolesOK()
}
fn Role.Lock(r) {
	props C11
	modifies r.lock
	ensures r.lock
}
fn Role.Unlock(r) {
	props C11
	modifies r.lock
	ensures !r.lock
}
fn Attribute.String(a, delimiter) {
	props C11 C14
	ensures result == (if len(delimiter) == 0 then a.resource + " " + a.action else a.resource + delimiter[0] + a.action)
}
fn AttributeGroup.AddAttributes(a, attrs) {
	props C11
	requires a.permissions != nil && forall x in attrs: x != nil
	modifies map(a.permissions)
	ensures added: forall s string: s in dom(a.permissions) <==> old(s in dom(a.permissions)) || exists p in attrs: p.resource + " " + p.action == s
	inv forall s string: s in dom(a.permissions) <==> old(s in dom(a.permissions)) || exists p in #done: p.resource + " " + p.action == s
}
fn RoleManager.AddPermissionsToRole(u, roleID, attributeGroupID, attrs) {
	props C11
	requires managerOK(u) && rolesOK() && groupsOK() && forall x in attrs: x != nil
	modifies map(u.roles[roleID].permissions); map(u.roles[roleID].permissions[attributeGroupID].permissions)
	ensures refused: result != nil <==> !(roleID in dom(u.roles)) || !(attributeGroupID in dom(u.attributeGroups)) || u.roles[roleID].lock || exists x in attrs: !old(x.resource + " " + x.action in dom(u.attributeGroups[attributeGroupID].permissions))
	ensures unchanged: result != nil && roleID in dom(u.roles) ==> forall g string: (g in dom(u.roles[roleID].permissions) <==> old(g in dom(u.roles[roleID].permissions))) && u.roles[roleID].permissions[g] == old(u.roles[roleID].permissions[g])
	ensures added: result == nil ==> carries(u.roles[roleID], attributeGroupID) && forall s string: s in dom(u.roles[roleID].permissions[attributeGroupID].permissions) <==> old(carries(u.roles[roleID], attributeGroupID) && s in dom(u.roles[roleID].permissions[attributeGroupID].permissions)) || exists p in attrs: p.resource + " " + p.action == s
	ensures kept: result == nil ==> forall g string: g != attributeGroupID ==> (g in dom(u.roles[roleID].permissions) <==> old(g in dom(u.roles[roleID].permissions))) && u.roles[roleID].permissions[g] == old(u.roles[roleID].permissions[g])
	inv forall x in #done: x.resource + " " + x.action in dom(u.attributeGroups[attributeGroupID].permissions)
}

// ---- registries (C14) ----------------------------------------------------------
pred groupsOK() = forall g *AttributeGroup: g.permissions != nil
// the manager as built by New: its registries exist and hold no nil entries
pred managerOK(u *RoleManager) = u.tenants != nil && u.namespaces != nil && u.scopes != nil && u.principals != nil && u.roles != nil
    && u.attributes != nil && u.attributeGroups != nil
    && (forall k in dom(u.tenants): u.tenants[k] != nil && u.tenants[k].id == k)
    && (forall k in dom(u.namespaces): u.namespaces[k] != nil && u.namespaces[k].id == k)
    && (forall k in dom(u.scopes): u.scopes[k] != nil && u.scopes[k].id == k)
    && (forall k in dom(u.principals): u.principals[k] != nil && u.principals[k].id == k)
    && (forall k in dom(u.roles): u.roles[k] != nil && u.roles[k].id == k)
    && (forall k in dom(u.attributes): u.attributes[k] != nil)
    && (forall k in dom(u.attributeGroups): u.attributeGroups[k] != nil && u.attributeGroups[k].id == k)
// its records: every record is held for its own fields
pred rowsOK(u *RoleManager) = u.trie != nil && trie.tries(u.trie) && trie.keyed(u.trie) && u.trie.keyExtractor == DataKeyExtractor
    && forall every d *Data: trie.held(u.trie, d) ==> typed(d)
pred optString(v any) = v == nil || typeis(v, string)
pred typed(d *Data) = d != nil && optString(d.Tenant) && optString(d.Namespace) && optString(d.Scope) && optString(d.Principal) && optString(d.Role) && (d.ManageDescendants == nil || typeis(d.ManageDescendants, bool))
pred sameRow(d *Data, e *Data) = d.Tenant == e.Tenant && d.Namespace == e.Namespace && d.Scope == e.Scope && d.Principal == e.Principal && d.Role == e.Role && d.ManageDescendants == e.ManageDescendants
pred row(u *RoleManager, d *Data) = trie.held(u.trie, d)

fn New() {
	props C14 C10
	ensures fresh(result) && managerOK(result)
	ensures empty: forall k string: !(k in dom(result.tenants)) && !(k in dom(result.namespaces)) && !(k in dom(result.scopes)) && !(k in dom(result.principals)) && !(k in dom(result.roles)) && !(k in dom(result.attributes)) && !(k in dom(result.attributeGroups))
	ensures norows: forall every d *Data: !row(result, d)
	ensures fresh(result.tenants) && fresh(result.namespaces) && fresh(result.scopes) && fresh(result.principals) && fresh(result.roles) && fresh(result.attributes) && fresh(result.attributeGroups) && fresh(result.trie)
	ensures rows: old(trie.tries(result.trie)) ==> rowsOK(result)
	ensures matched: forall f *Data, d *Data {apply(result.trie.match, f, d)}: f != nil && d != nil ==> (apply(result.trie.match, f, d) <==> fits(f, d))
	use @exit meaning FilterFunc(f *Data, d *Data)
}
fn NewRole(id) {
	props C14
	ensures fresh(result) && result.id == id && roleOK(result) && fresh(result.permissions) && fresh(result.descendants) && !result.lock
	ensures empty: forall k string: !(k in dom(result.permissions)) && !(k in dom(result.descendants))
}
fn NewTenant(id) {
	props C14
	ensures fresh(result) && result.id == id && tenantOK(result) && result.defaultNamespace == nil && result.manager == nil
	ensures empty: forall k string: !(k in dom(result.descendants))
	ensures fresh(result.descendants)
}
fn NewNamespace(id) {
	props C14
	ensures fresh(result) && result.id == id
}
fn NewScope(id) {
	props C14
	ensures fresh(result) && result.id == id
}
fn NewPrincipal(id) {
	props C14
	ensures fresh(result) && result.id == id
}
fn NewAttributeGroup(id) {
	props C14
	ensures fresh(result) && result.id == id && result.permissions != nil && fresh(result.permissions)
	ensures empty: forall k string: !(k in dom(result.permissions))
}
fn NewAttribute(resource, action) {
	props C14
	ensures fresh(result) && result.resource == resource && result.action == action
}
fn NewAttributes(resource, actions) {
	props C14
	ensures len(result) == len(actions) && forall i int {result[i]}: 0 <= i && i < len(result) ==> result[i] != nil && result[i].resource == resource && result[i].action == actions[i]
	inv any attrs []*Attribute: len(attrs) == #k && forall i int {attrs[i]}: 0 <= i && i < len(attrs) ==> attrs[i] != nil && attrs[i].resource == resource && attrs[i].action == actions[i]
}

// ---- tenants (C20) -----------------------------------------------------------
pred tenantOK(t *Tenant) = t.descendants != nil && (forall k in dom(t.descendants): t.descendants[k] != nil && t.descendants[k].id == k)
pred tenantsOK() = (forall t *Tenant: tenantOK(t))
    && (forall r *Tenant, s *Tenant {r.descendants, s.descendants}: r.descendants == s.descendants ==> r == s)
inductive tdesc(r *Tenant, x *Tenant) =
    (exists k string: k in dom(r.descendants) && x == r.descendants[k])
    || (exists m *Tenant, k string: tdesc(r, m) && k in dom(m.descendants) && x == m.descendants[k])
pred acyclicTenants() = forall r *Tenant: !tdesc(r, r)
lemma tdescFront(r *Tenant, k string, x *Tenant) {
	requires k in dom(r.descendants) && tdesc(r.descendants[k], x)
	ensures tdesc(r, x)
	trigger k in dom(r.descendants), tdesc(r.descendants[k], x)
	use induct tdesc(r.descendants[k], y *Tenant) by tdesc(r, y)
}
lemma tdescTrans(a *Tenant, b *Tenant, z *Tenant) {
	requires tdesc(a, b) && tdesc(b, z)
	ensures tdesc(a, z)
	trigger tdesc(a, b), tdesc(b, z)
	use induct tdesc(b, y *Tenant) by tdesc(a, y)
}

fn Tenant.GetDescendants(c) {
	props C20 C10
	requires tenantsOK()
	ensures all: forall v any: v in result <==> exists x *Tenant: tdesc(c, x) && v == any(x.id)
	inv any data []any: forall v any: v in data <==> exists k in #seen: v == any(k) || exists x *Tenant: tdesc(c.descendants[k], x) && v == any(x.id)
	use @exit lemma forall k string, x *Tenant: tdescFront(c, k, x)
	use @exit induct tdesc(c, x *Tenant) by exists k in dom(c.descendants): x == c.descendants[k] || tdesc(c.descendants[k], x)
}
fn RoleManager.AddData(u, data) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u) && typed(data)
	modifies all maps u.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures rows: rowsOK(u)
	ensures held: forall d *Data: row(u, d) <==> d == data || old(allocated(d) && row(u, d)) && !sameRow(d, data)
	use @entry meaning DataKeyExtractor(d *Data)
	use @exit meaning DataKeyExtractor(d *Data)
}

// ---- recording (C10) -----------------------------------------------------------
pred isRow(d *Data, t any, n any, s any, p any, r any, m any) = d.Tenant == t && d.Namespace == n && d.Scope == s && d.Principal == p && d.Role == r && d.ManageDescendants == m
fn Tenant.AddNamespace(c, n) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && rowsOK(c.manager) && n != nil
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures stored: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(n.id), nil, nil, nil, nil)
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || isRow(d, any(c.id), any(n.id), nil, nil, nil, nil)
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
	ensures result == n
}
fn Tenant.AddScopesToNamespace(c, namespaceID, scopeID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && rowsOK(c.manager)
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures stored: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(namespaceID), any(scopeID), nil, nil, nil)
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || isRow(d, any(c.id), any(namespaceID), any(scopeID), nil, nil, nil)
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
}
fn Tenant.AddPrincipalInNamespace(c, userID, namespaceID, roleID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && rowsOK(c.manager)
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures stored: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(namespaceID), nil, any(userID), any(roleID), nil)
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || isRow(d, any(c.id), any(namespaceID), nil, any(userID), any(roleID), nil)
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
}
fn Tenant.AddRole(c, n) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && rowsOK(c.manager) && n != nil
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures stored: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, nil, nil, any(n.id), nil)
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || isRow(d, any(c.id), nil, nil, nil, any(n.id), nil)
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
	ensures result == n
}
fn Tenant.AddScope(c, n) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && rowsOK(c.manager) && n != nil
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures stored: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, any(n.id), nil, nil, nil)
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || isRow(d, any(c.id), nil, any(n.id), nil, nil, nil)
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
	ensures result == n
}
fn Tenant.AddNamespaces(c, nms) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && rowsOK(c.manager) && forall n in nms: n != nil
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures stored: forall x in nms: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(x.id), nil, nil, nil, nil)
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || exists x in nms: isRow(d, any(c.id), any(x.id), nil, nil, nil, nil)
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
	inv forall x in #done: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(x.id), nil, nil, nil, nil)
	inv forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || exists x in #done: isRow(d, any(c.id), any(x.id), nil, nil, nil, nil)
	inv forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	inv rowsOK(c.manager)
}
fn Tenant.AddRoles(c, nms) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && rowsOK(c.manager) && forall n in nms: n != nil
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures stored: forall x in nms: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, nil, nil, any(x.id), nil)
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || exists x in nms: isRow(d, any(c.id), nil, nil, nil, any(x.id), nil)
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
	inv forall x in #done: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, nil, nil, any(x.id), nil)
	inv forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || exists x in #done: isRow(d, any(c.id), nil, nil, nil, any(x.id), nil)
	inv forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	inv rowsOK(c.manager)
}
fn Tenant.AddScopes(c, nms) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && rowsOK(c.manager) && forall n in nms: n != nil
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures stored: forall x in nms: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, any(x.id), nil, nil, nil)
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || exists x in nms: isRow(d, any(c.id), nil, any(x.id), nil, nil, nil)
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
	inv forall x in #done: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, any(x.id), nil, nil, nil)
	inv forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || exists x in #done: isRow(d, any(c.id), nil, any(x.id), nil, nil, nil)
	inv forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	inv rowsOK(c.manager)
}
fn Tenant.AddPrincipalWithRole(c, principalID, roleID, manageDescendants) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && managerOK(c.manager) && rowsOK(c.manager)
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures refused: result != nil <==> !(principalID in dom(c.manager.principals)) || !(roleID in dom(c.manager.roles))
	ensures unchanged: result != nil ==> forall d *Data: row(c.manager, d) <==> old(allocated(d) && row(c.manager, d))
	ensures stored: result == nil ==> exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, nil, any(principalID), any(roleID), any(manageDescendants))
	ensures default: result == nil && c.defaultNamespace != nil ==> exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(c.defaultNamespace.id), nil, any(principalID), any(roleID), any(manageDescendants))
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || isRow(d, any(c.id), nil, nil, any(principalID), any(roleID), any(manageDescendants)) || c.defaultNamespace != nil && isRow(d, any(c.id), any(c.defaultNamespace.id), nil, any(principalID), any(roleID), any(manageDescendants))
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
}
fn Tenant.AddPrincipal(c, principalID, manageDescendants, nms) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && managerOK(c.manager) && rowsOK(c.manager)
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures refused: result != nil <==> exists x in nms: !(principalID in dom(c.manager.principals)) || !(x in dom(c.manager.roles))
	ensures stored: result == nil ==> forall x in nms: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, nil, any(principalID), any(x), any(manageDescendants))
	ensures default: result == nil && c.defaultNamespace != nil ==> forall x in nms: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(c.defaultNamespace.id), nil, any(principalID), any(x), any(manageDescendants))
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || exists x in nms: isRow(d, any(c.id), nil, nil, any(principalID), any(x), any(manageDescendants)) || c.defaultNamespace != nil && isRow(d, any(c.id), any(c.defaultNamespace.id), nil, any(principalID), any(x), any(manageDescendants))
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
	inv forall x in #done: principalID in dom(c.manager.principals) && x in dom(c.manager.roles)
	inv forall x in #done: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, nil, any(principalID), any(x), any(manageDescendants))
	inv c.defaultNamespace != nil ==> forall x in #done: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(c.defaultNamespace.id), nil, any(principalID), any(x), any(manageDescendants))
	inv forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || exists x in #done: isRow(d, any(c.id), nil, nil, any(principalID), any(x), any(manageDescendants)) || c.defaultNamespace != nil && isRow(d, any(c.id), any(c.defaultNamespace.id), nil, any(principalID), any(x), any(manageDescendants))
	inv forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	inv rowsOK(c.manager)
}
fn Tenant.AddScopeToPrincipal(c, principalID, scopeID, manageDescendants) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && managerOK(c.manager) && rowsOK(c.manager)
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures refused: result != nil <==> !(principalID in dom(c.manager.principals)) || !(scopeID in dom(c.manager.scopes))
	ensures unchanged: result != nil ==> forall d *Data: row(c.manager, d) <==> old(allocated(d) && row(c.manager, d))
	ensures stored: result == nil ==> exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, any(scopeID), any(principalID), nil, any(manageDescendants))
	ensures default: result == nil && c.defaultNamespace != nil ==> exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(c.defaultNamespace.id), any(scopeID), any(principalID), nil, any(manageDescendants))
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || isRow(d, any(c.id), nil, any(scopeID), any(principalID), nil, any(manageDescendants)) || c.defaultNamespace != nil && isRow(d, any(c.id), any(c.defaultNamespace.id), any(scopeID), any(principalID), nil, any(manageDescendants))
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
}
fn Tenant.AssignScopesToPrincipal(c, principalID, manageDescendants, nms) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && managerOK(c.manager) && rowsOK(c.manager)
	modifies all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures refused: result != nil <==> exists x in nms: !(principalID in dom(c.manager.principals)) || !(x in dom(c.manager.scopes))
	ensures stored: result == nil ==> forall x in nms: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, any(x), any(principalID), nil, any(manageDescendants))
	ensures default: result == nil && c.defaultNamespace != nil ==> forall x in nms: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(c.defaultNamespace.id), any(x), any(principalID), nil, any(manageDescendants))
	ensures only: forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || exists x in nms: isRow(d, any(c.id), nil, any(x), any(principalID), nil, any(manageDescendants)) || c.defaultNamespace != nil && isRow(d, any(c.id), any(c.defaultNamespace.id), any(x), any(principalID), nil, any(manageDescendants))
	ensures kept: forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	ensures rowsOK(c.manager)
	inv forall x in #done: principalID in dom(c.manager.principals) && x in dom(c.manager.scopes)
	inv forall x in #done: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), nil, any(x), any(principalID), nil, any(manageDescendants))
	inv c.defaultNamespace != nil ==> forall x in #done: exists d *Data: row(c.manager, d) && isRow(d, any(c.id), any(c.defaultNamespace.id), any(x), any(principalID), nil, any(manageDescendants))
	inv forall d *Data: row(c.manager, d) ==> old(allocated(d) && row(c.manager, d)) || exists x in #done: isRow(d, any(c.id), nil, any(x), any(principalID), nil, any(manageDescendants)) || c.defaultNamespace != nil && isRow(d, any(c.id), any(c.defaultNamespace.id), any(x), any(principalID), nil, any(manageDescendants))
	inv forall d *Data: old(allocated(d) && row(c.manager, d)) ==> exists e *Data: row(c.manager, e) && sameRow(d, e)
	inv rowsOK(c.manager)
}
fn Tenant.SetDefaultNamespace(c, nms) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires c.manager != nil && managerOK(c.manager)
	modifies c.defaultNamespace
	ensures c.defaultNamespace == (if nms in dom(c.manager.namespaces) then c.manager.namespaces[nms] else old(c.defaultNamespace))
}
fn Tenant.isOrHasDescendant(c, t) {
	props C20
	optional
	requires tenantsOK() && t != nil
	ensures result <==> c == t || tdesc(c, t)
	inv any found bool: found <==> c == t || exists k in #seen: c.descendants[k] == t || tdesc(c.descendants[k], t)
	use @exit lemma forall k string, x *Tenant: tdescFront(c, k, x)
	use @exit induct tdesc(c, x *Tenant) by exists k in dom(c.descendants): x == c.descendants[k] || tdesc(c.descendants[k], x)
}
fn Tenant.AddDescendant(c, descendants) {
	props C20 C10
	opaque trie.held trie.tries trie.keyed
	requires tenantsOK() && forall d in descendants: d != nil
	requires c.defaultNamespace != nil ==> c.manager != nil && managerOK(c.manager) && rowsOK(c.manager) && forall d in descendants: d.manager == c.manager
	modifies map(c.descendants); all Tenant.defaultNamespace; all maps c.manager.trie.root.child; all trie.Node[Data].isEnd; all trie.Node[Data].data
	ensures refused: result != nil <==> exists d in descendants: d == c || old(tdesc(d, c))
	ensures unchanged: result != nil ==> forall k string: (k in dom(c.descendants) <==> old(k in dom(c.descendants))) && c.descendants[k] == old(c.descendants[k])
	ensures added: result == nil ==> forall k string: k in dom(c.descendants) <==> old(k in dom(c.descendants)) || exists d in descendants: d.id == k
	ensures kept: forall k in old(dom(c.descendants)): c.descendants[k] == old(c.descendants[k])
	ensures given: forall k in dom(c.descendants): !old(k in dom(c.descendants)) ==> exists d in descendants: d.id == k && c.descendants[k] == d
	ensures tenantsOK()
	ensures acyclic: old(acyclicTenants()) ==> acyclicTenants()
	inv forall d in #done: !(d == c) && !old(tdesc(d, c))
	inv forall k string: k in dom(c.descendants) <==> old(k in dom(c.descendants)) || exists d in #done: d.id == k
	inv forall k in old(dom(c.descendants)): c.descendants[k] == old(c.descendants[k])
	inv forall k in dom(c.descendants): !old(k in dom(c.descendants)) ==> exists d in #done: d.id == k && c.descendants[k] == d
	inv tenantsOK()
	inv c.defaultNamespace == old(c.defaultNamespace)
	inv c.defaultNamespace != nil ==> rowsOK(c.manager)
	use @exit induct tdesc(x *Tenant, y *Tenant) by allocated(x) ==> old(tdesc(x, y)) || (x == c || old(tdesc(x, c))) && (exists d in descendants: d == y || old(tdesc(d, y)))
	use @exit old lemma forall a *Tenant, b *Tenant, z *Tenant: tdescTrans(a, b, z)
	use @exit old lemma forall x *Tenant, k string, y *Tenant: tdescFront(x, k, y)
}

// ---- queries (C10) -------------------------------------------------------------
pred ofPrincipal(d *Data, p any) = d.Principal != nil && d.Principal == p
pred ofTenant(d *Data, t any) = d.Tenant != nil && d.Tenant == t
// a record without a principal (namespace, scope) holds for every one
pred forPrincipal(d *Data, p any) = d.Principal == nil || d.Principal == p
pred forNamespace(d *Data, n any) = d.Namespace == nil || d.Namespace == n
pred forScope(d *Data, s any) = d.Scope == nil || d.Scope == s
pred member(u *RoleManager, p any, t any) = exists every d *Data: row(u, d) && ofPrincipal(d, p) && ofTenant(d, t)
// tenant t is a descendant of tenant s
pred below(u *RoleManager, s any, t any) = exists k in dom(u.tenants), x *Tenant: s == any(k) && tdesc(u.tenants[k], x) && t == any(x.id)
fn RoleManager.GetTenantsByPrincipal(u, principalID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall t any: t in result <==> member(u, principalID, t)
	inv any vs_ []any: forall v any: v in vs_ <==> exists r in #done: v == r.Tenant
}
fn RoleManager.GetTenants(u, principalID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofPrincipal(d, principalID) && d.Tenant != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetScopesByPrincipal(u, principalID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofPrincipal(d, principalID) && d.Scope != nil && d.Tenant != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetRolesByTenant(u, tenantID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && d.Role != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetNamespacesByTenant(u, tenantID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && d.Namespace != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetNamespaceByTenant(u, tenantID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && d.Namespace != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetScopesByTenant(u, tenantID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && d.Scope != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetNamespacesForPrincipalByTenant(u, principalID, tenantID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && forPrincipal(d, principalID) && d.Namespace != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetNamespaceForPrincipalByTenant(u, principalID, tenantID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && forPrincipal(d, principalID) && d.Namespace != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetScopesForPrincipalByTenant(u, principalID, tenantID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && forPrincipal(d, principalID) && d.Scope != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetScopesForPrincipalByTenantAndNamespace(u, principalID, tenantID, namespaceID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && forPrincipal(d, principalID) && forNamespace(d, namespaceID) && d.Scope != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetRolesForPrincipalByTenantNamespaceAndScope(u, principalID, tenantID, namespaceID, scope) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && ofPrincipal(d, principalID) && forNamespace(d, namespaceID) && forScope(d, scope) && d.Role != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetRolesForPrincipalByTenantAndNamespace(u, principalID, tenantID, namespaceID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && ofPrincipal(d, principalID) && forNamespace(d, namespaceID) && d.Role != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetRolesForPrincipalByTenantAndScope(u, principalID, tenantID, scopeID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && ofTenant(d, tenantID) && ofPrincipal(d, principalID) && forScope(d, scopeID) && d.Role != nil
	ensures present: forall d in result: d != nil && row(u, d)
}
fn RoleManager.GetNamespacesByPrincipal(u, principalID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && member(u, principalID, d.Tenant) && forPrincipal(d, principalID) && d.Namespace != nil
	ensures present: forall d in result: d != nil && row(u, d)
	inv any ds_ []*Data: forall every d *Data: d in ds_ <==> row(u, d) && d.Tenant in #done && d.Tenant != nil && forPrincipal(d, principalID) && d.Namespace != nil
	inv any ds_ []*Data: forall d in ds_: d != nil && row(u, d)
}
fn RoleManager.GetScopeForPrincipalByNamespace(u, principalID, namespaceID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires rowsOK(u)
	ensures exact: forall every d *Data: d in result <==> row(u, d) && member(u, principalID, d.Tenant) && forPrincipal(d, principalID) && forNamespace(d, namespaceID) && d.Scope != nil
	ensures present: forall d in result: d != nil && row(u, d)
	inv any ds_ []*Data: forall every d *Data: d in ds_ <==> row(u, d) && d.Tenant in #done && d.Tenant != nil && forPrincipal(d, principalID) && forNamespace(d, namespaceID) && d.Scope != nil
	inv any ds_ []*Data: forall d in ds_: d != nil && row(u, d)
}
fn RoleManager.TenantChildren(u, t) {
	props C10
	requires managerOK(u) && tenantsOK()
	ensures exact: forall v any: v in result <==> below(u, any(t), v)
}
fn RoleManager.GetDescendantTenant(u, desc) {
	props C10
	requires managerOK(u) && tenantsOK() && typeis(desc, string)
	ensures exact: forall v any: v in result <==> below(u, desc, v)
}
fn RoleManager.GetImplicitTenants(u, principalID) {
	props C10
	opaque trie.held trie.tries trie.keyed
	requires managerOK(u) && tenantsOK() && rowsOK(u)
	ensures exact: forall k string: k in dom(result) <==> exists every d *Data: row(u, d) && ofPrincipal(d, any(principalID)) && d.Tenant != nil && (d.Tenant == any(k) || d.ManageDescendants == any(true) && below(u, d.Tenant, any(k)))
	ensures own: forall every d *Data: row(u, d) && ofPrincipal(d, any(principalID)) && d.Tenant != nil ==> as(d.Tenant, string) in dom(result)
	inv any m_ map[string]struct{}: forall k string: k in dom(m_) <==> exists d in #done: d.Tenant == any(k) || d.ManageDescendants == any(true) && below(u, d.Tenant, any(k))
	inv any m_ map[string]struct{}: forall k string: k in dom(m_) <==> k in before(dom(m_)) || any(k) in #done
}
fn GetTenantIDs(rs) {
	props C10
	requires forall r in rs: r != nil
	ensures exact: forall v any: v in result <==> exists r in rs: v == r.Tenant
	ensures once: forall i int, j int {result[i], result[j]}: 0 <= i && i < j && j < len(result) ==> result[i] != result[j]
	inv any data []any: forall v any: v in data <==> exists r in #done: v == r.Tenant
	inv any seen map[any]struct{}: forall v any: v in dom(seen) <==> exists r in #done: v == r.Tenant
	inv any data []any: forall i int, j int {data[i], data[j]}: 0 <= i && i < j && j < len(data) ==> data[i] != data[j]
}
fn GetPrincipalIDs(rs) {
	props C10
	requires forall r in rs: r != nil
	ensures exact: forall v any: v in result <==> exists r in rs: v == r.Principal
	ensures once: forall i int, j int {result[i], result[j]}: 0 <= i && i < j && j < len(result) ==> result[i] != result[j]
	inv any data []any: forall v any: v in data <==> exists r in #done: v == r.Principal
	inv any seen map[any]struct{}: forall v any: v in dom(seen) <==> exists r in #done: v == r.Principal
	inv any data []any: forall i int, j int {data[i], data[j]}: 0 <= i && i < j && j < len(data) ==> data[i] != data[j]
}
fn GetRoleIDs(rs) {
	props C10
	requires forall r in rs: r != nil
	ensures exact: forall v any: v in result <==> exists r in rs: v == r.Role
	ensures once: forall i int, j int {result[i], result[j]}: 0 <= i && i < j && j < len(result) ==> result[i] != result[j]
	inv any data []any: forall v any: v in data <==> exists r in #done: v == r.Role
	inv any seen map[any]struct{}: forall v any: v in dom(seen) <==> exists r in #done: v == r.Role
	inv any data []any: forall i int, j int {data[i], data[j]}: 0 <= i && i < j && j < len(data) ==> data[i] != data[j]
}
fn GetNamespaceIDs(rs) {
	props C10
	requires forall r in rs: r != nil
	ensures exact: forall v any: v in result <==> exists r in rs: v == r.Namespace
	ensures once: forall i int, j int {result[i], result[j]}: 0 <= i && i < j && j < len(result) ==> result[i] != result[j]
	inv any data []any: forall v any: v in data <==> exists r in #done: v == r.Namespace
	inv any seen map[any]struct{}: forall v any: v in dom(seen) <==> exists r in #done: v == r.Namespace
	inv any data []any: forall i int, j int {data[i], data[j]}: 0 <= i && i < j && j < len(data) ==> data[i] != data[j]
}
fn GetScopeIDs(rs) {
	props C10
	requires forall r in rs: r != nil
	ensures exact: forall v any: v in result <==> exists r in rs: v == r.Scope
	ensures once: forall i int, j int {result[i], result[j]}: 0 <= i && i < j && j < len(result) ==> result[i] != result[j]
	inv any data []any: forall v any: v in data <==> exists r in #done: v == r.Scope
	inv any seen map[any]struct{}: forall v any: v in dom(seen) <==> exists r in #done: v == r.Scope
	inv any data []any: forall i int, j int {data[i], data[j]}: 0 <= i && i < j && j < len(data) ==> data[i] != data[j]
}
// ---- the manager's own match function (C10): every given field has to be equal ----
pred fieldFits(f any, v any) = f == nil || f == v
pred fits(f *Data, d *Data) = fieldFits(f.Tenant, d.Tenant) && fieldFits(f.Namespace, d.Namespace) && fieldFits(f.Scope, d.Scope) && fieldFits(f.Principal, d.Principal) && fieldFits(f.Role, d.Role) && fieldFits(f.ManageDescendants, d.ManageDescendants)
fn FilterFunc(filter, row) {
	props C10
	requires filter != nil && row != nil
	ensures exact: result <==> fits(filter, row)
}
fn RoleManager.Data(u) {
	props C10
	ensures result == u.trie
}
fn RoleManager.Source(u) {
	props C10
	ensures result == u.trie
}
fn RoleManager.Summary(u) {
	props C14
	requires managerOK(u)
	ensures result.Tenants == len(u.tenants) && result.Namespaces == len(u.namespaces) && result.Scopes == len(u.scopes) && result.Principals == len(u.principals) && result.Roles == len(u.roles) && result.AttributeGroups == len(u.attributeGroups) && result.Attributes == len(u.attributes)
}
