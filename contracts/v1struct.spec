package v1

// ---- a tenant's own namespaces, roles and scopes (C14) ---------------------------
fn Tenant.AddNamespace(c, namespaces) {
	props C14
	requires tenantsOK() && namespacesOK() && forall d in namespaces: d != nil
	modifies map(c.namespaces)
	ensures added: forall k string: k in dom(c.namespaces) <==> old(k in dom(c.namespaces)) || exists d in namespaces: d.id == k
	ensures kept: forall k in old(dom(c.namespaces)): c.namespaces[k] == old(c.namespaces[k])
	ensures first: forall i int {namespaces[i]}: 0 <= i && i < len(namespaces) && !old(namespaces[i].id in dom(c.namespaces)) && (forall j int {namespaces[j]}: 0 <= j && j < i ==> namespaces[j].id != namespaces[i].id) ==> c.namespaces[namespaces[i].id] == namespaces[i]
	ensures tenantOK(c)
	inv tenantOK(c)
	inv forall k string: k in dom(c.namespaces) <==> old(k in dom(c.namespaces)) || exists d in #done: d.id == k
	inv forall k in old(dom(c.namespaces)): c.namespaces[k] == old(c.namespaces[k])
	inv forall i int {namespaces[i]}: 0 <= i && i < #k && !old(namespaces[i].id in dom(c.namespaces)) && (forall j int {namespaces[j]}: 0 <= j && j < i ==> namespaces[j].id != namespaces[i].id) ==> c.namespaces[namespaces[i].id] == namespaces[i]
}
fn Tenant.AddRole(c, roles) {
	props C14
	requires tenantsOK() && namespacesOK() && forall d in roles: d != nil
	modifies map(c.roles)
	ensures added: forall k string: k in dom(c.roles) <==> old(k in dom(c.roles)) || exists d in roles: d.id == k
	ensures kept: forall k in old(dom(c.roles)): c.roles[k] == old(c.roles[k])
	ensures first: forall i int {roles[i]}: 0 <= i && i < len(roles) && !old(roles[i].id in dom(c.roles)) && (forall j int {roles[j]}: 0 <= j && j < i ==> roles[j].id != roles[i].id) ==> c.roles[roles[i].id] == roles[i]
	ensures tenantOK(c)
	inv tenantOK(c)
	inv forall k string: k in dom(c.roles) <==> old(k in dom(c.roles)) || exists d in #done: d.id == k
	inv forall k in old(dom(c.roles)): c.roles[k] == old(c.roles[k])
	inv forall i int {roles[i]}: 0 <= i && i < #k && !old(roles[i].id in dom(c.roles)) && (forall j int {roles[j]}: 0 <= j && j < i ==> roles[j].id != roles[i].id) ==> c.roles[roles[i].id] == roles[i]
}
fn Tenant.AddScopes(c, scopes) {
	props C14
	requires tenantsOK() && namespacesOK() && forall d in scopes: d != nil
	modifies map(c.scopes); map(c.defaultNamespace.scopes)
	ensures added: forall k string: k in dom(c.scopes) <==> old(k in dom(c.scopes)) || exists d in scopes: d.id == k
	ensures kept: forall k in old(dom(c.scopes)): c.scopes[k] == old(c.scopes[k])
	ensures first: forall i int {scopes[i]}: 0 <= i && i < len(scopes) && !old(scopes[i].id in dom(c.scopes)) && (forall j int {scopes[j]}: 0 <= j && j < i ==> scopes[j].id != scopes[i].id) ==> c.scopes[scopes[i].id] == scopes[i]
	ensures tenantOK(c)
	inv tenantOK(c)
	inv forall k string: k in dom(c.scopes) <==> old(k in dom(c.scopes)) || exists d in #done: d.id == k
	inv forall k in old(dom(c.scopes)): c.scopes[k] == old(c.scopes[k])
	inv forall i int {scopes[i]}: 0 <= i && i < #k && !old(scopes[i].id in dom(c.scopes)) && (forall j int {scopes[j]}: 0 <= j && j < i ==> scopes[j].id != scopes[i].id) ==> c.scopes[scopes[i].id] == scopes[i]
	ensures default: c.defaultNamespace != nil ==> forall k string: k in dom(c.defaultNamespace.scopes) <==> old(k in dom(c.defaultNamespace.scopes)) || exists d in scopes: d.id == k
	ensures defaultKept: c.defaultNamespace != nil ==> forall k in old(dom(c.defaultNamespace.scopes)): c.defaultNamespace.scopes[k] == old(c.defaultNamespace.scopes[k])
	inv c.defaultNamespace != nil ==> forall k string: k in dom(c.defaultNamespace.scopes) <==> old(k in dom(c.defaultNamespace.scopes)) || exists d in #done: d.id == k
	inv c.defaultNamespace != nil ==> forall k in old(dom(c.defaultNamespace.scopes)): c.defaultNamespace.scopes[k] == old(c.defaultNamespace.scopes[k])
}
fn Tenant.SetDefaultNamespace(c, namespace) {
	props C14
	requires tenantOK(c)
	modifies c.defaultNamespace
	ensures known: namespace in dom(c.namespaces) ==> c.defaultNamespace == c.namespaces[namespace]
	ensures unknown: !(namespace in dom(c.namespaces)) ==> c.defaultNamespace == old(c.defaultNamespace)
}
fn Tenant.AddRolesToNamespace(c, namespace, roles) {
	props C14
	requires tenantsOK() && namespacesOK()
	modifies map(c.namespaces[namespace].roles)
	ensures added: namespace in dom(c.namespaces) ==> forall k string: k in dom(c.namespaces[namespace].roles) <==> old(k in dom(c.namespaces[namespace].roles))
	    || exists i int {roles[i]}: 0 <= i && i < len(roles) && roles[i] == k && (forall j int {roles[j]}: 0 <= j && j <= i ==> roles[j] in dom(c.roles))
	ensures kept: namespace in dom(c.namespaces) ==> forall k in old(dom(c.namespaces[namespace].roles)): c.namespaces[namespace].roles[k] == old(c.namespaces[namespace].roles[k])
	ensures value: namespace in dom(c.namespaces) ==> forall k in dom(c.namespaces[namespace].roles): old(k in dom(c.namespaces[namespace].roles)) || c.namespaces[namespace].roles[k] == c.roles[k]
	inv forall j int {roles[j]}: 0 <= j && j < #k ==> roles[j] in dom(c.roles)
	inv #k > 0 ==> namespace in dom(c.namespaces)
	inv namespace in dom(c.namespaces) ==> forall k string: k in dom(c.namespaces[namespace].roles) <==> old(k in dom(c.namespaces[namespace].roles)) || exists i int {roles[i]}: 0 <= i && i < #k && roles[i] == k
	inv namespace in dom(c.namespaces) ==> forall k in old(dom(c.namespaces[namespace].roles)): c.namespaces[namespace].roles[k] == old(c.namespaces[namespace].roles[k])
	inv namespace in dom(c.namespaces) ==> forall k in dom(c.namespaces[namespace].roles): old(k in dom(c.namespaces[namespace].roles)) || c.namespaces[namespace].roles[k] == c.roles[k]
}
fn Namespace.AddRoles(n, roles) {
	props C14
	requires n.roles != nil && forall d in roles: d != nil
	modifies map(n.roles)
	ensures added: forall k string: k in dom(n.roles) <==> old(k in dom(n.roles)) || exists d in roles: d.id == k
	ensures others: forall k string: !(exists d in roles: d.id == k) ==> n.roles[k] == old(n.roles[k])
	ensures last: forall i int {roles[i]}: 0 <= i && i < len(roles) && (forall j int {roles[j]}: i < j && j < len(roles) ==> roles[j].id != roles[i].id) ==> n.roles[roles[i].id] == roles[i]
	inv forall k string: k in dom(n.roles) <==> old(k in dom(n.roles)) || exists d in #done: d.id == k
	inv forall k string: !(exists d in #done: d.id == k) ==> n.roles[k] == old(n.roles[k])
	inv forall i int {roles[i]}: 0 <= i && i < #k && (forall j int {roles[j]}: i < j && j < #k ==> roles[j].id != roles[i].id) ==> n.roles[roles[i].id] == roles[i]
}
fn Namespace.AddScopes(n, scopes) {
	props C14
	requires n.scopes != nil && forall d in scopes: d != nil
	modifies map(n.scopes)
	ensures added: forall k string: k in dom(n.scopes) <==> old(k in dom(n.scopes)) || exists d in scopes: d.id == k
	ensures others: forall k string: !(exists d in scopes: d.id == k) ==> n.scopes[k] == old(n.scopes[k])
	ensures last: forall i int {scopes[i]}: 0 <= i && i < len(scopes) && (forall j int {scopes[j]}: i < j && j < len(scopes) ==> scopes[j].id != scopes[i].id) ==> n.scopes[scopes[i].id] == scopes[i]
	inv forall k string: k in dom(n.scopes) <==> old(k in dom(n.scopes)) || exists d in #done: d.id == k
	inv forall k string: !(exists d in #done: d.id == k) ==> n.scopes[k] == old(n.scopes[k])
	inv forall i int {scopes[i]}: 0 <= i && i < #k && (forall j int {scopes[j]}: i < j && j < #k ==> scopes[j].id != scopes[i].id) ==> n.scopes[scopes[i].id] == scopes[i]
}
