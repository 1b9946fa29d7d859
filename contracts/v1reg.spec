package v1

// written by tools/mkregspec.py

fn RoleManager.AddTenant(u, data) {
	props C14
	requires managerOK(u) && data != nil
	modifies map(u.tenants); data.manager
	ensures used: old(data.id in dom(u.tenants)) ==> result == old(u.tenants[data.id])
	ensures unused: !old(data.id in dom(u.tenants)) ==> result == data
	ensures lookup: data.id in dom(u.tenants) && u.tenants[data.id] == result
	ensures others: forall k string: k != data.id ==> (k in dom(u.tenants) <==> old(k in dom(u.tenants))) && u.tenants[k] == old(u.tenants[k])
	ensures managerOK(u)
}
fn RoleManager.AddTenants(u, tenants) {
	props C14
	requires managerOK(u) && forall d in tenants: d != nil
	modifies map(u.tenants); all Tenant.manager
	ensures added: forall k string: k in dom(u.tenants) <==> old(k in dom(u.tenants)) || exists d in tenants: d.id == k
	ensures kept: forall k in old(dom(u.tenants)): u.tenants[k] == old(u.tenants[k])
	ensures first: forall i int {tenants[i]}: 0 <= i && i < len(tenants) && !old(tenants[i].id in dom(u.tenants)) && (forall j int {tenants[j]}: 0 <= j && j < i ==> tenants[j].id != tenants[i].id) ==> u.tenants[tenants[i].id] == tenants[i]
	ensures managerOK(u)
	inv managerOK(u)
	inv forall k string: k in dom(u.tenants) <==> old(k in dom(u.tenants)) || exists d in #done: d.id == k
	inv forall k in old(dom(u.tenants)): u.tenants[k] == old(u.tenants[k])
	inv forall i int {tenants[i]}: 0 <= i && i < #k && !old(tenants[i].id in dom(u.tenants)) && (forall j int {tenants[j]}: 0 <= j && j < i ==> tenants[j].id != tenants[i].id) ==> u.tenants[tenants[i].id] == tenants[i]
}
fn RoleManager.GetTenant(u, id) {
	props C14
	requires managerOK(u)
	ensures found: result1 <==> id in dom(u.tenants)
	ensures value: result1 ==> result0 == u.tenants[id]
	ensures none: !result1 ==> result0 == nil
}
fn RoleManager.TotalTenants(u) {
	props C14
	requires managerOK(u)
	ensures result == len(u.tenants)
}

fn RoleManager.Tenants(u) {
	props C14
	requires managerOK(u)
	ensures all: forall k string: k in result <==> k in dom(u.tenants)
	inv any data []string: forall k string: k in data <==> k in #seen
}

fn Tenant.ID(x) {
	ensures result == x.id
}

fn RoleManager.AddNamespace(u, data) {
	props C14
	requires managerOK(u) && data != nil
	modifies map(u.namespaces)
	ensures used: old(data.id in dom(u.namespaces)) ==> result == old(u.namespaces[data.id])
	ensures unused: !old(data.id in dom(u.namespaces)) ==> result == data
	ensures lookup: data.id in dom(u.namespaces) && u.namespaces[data.id] == result
	ensures others: forall k string: k != data.id ==> (k in dom(u.namespaces) <==> old(k in dom(u.namespaces))) && u.namespaces[k] == old(u.namespaces[k])
	ensures managerOK(u)
}
fn RoleManager.AddNamespaces(u, nms) {
	props C14
	requires managerOK(u) && forall d in nms: d != nil
	modifies map(u.namespaces)
	ensures added: forall k string: k in dom(u.namespaces) <==> old(k in dom(u.namespaces)) || exists d in nms: d.id == k
	ensures kept: forall k in old(dom(u.namespaces)): u.namespaces[k] == old(u.namespaces[k])
	ensures first: forall i int {nms[i]}: 0 <= i && i < len(nms) && !old(nms[i].id in dom(u.namespaces)) && (forall j int {nms[j]}: 0 <= j && j < i ==> nms[j].id != nms[i].id) ==> u.namespaces[nms[i].id] == nms[i]
	ensures managerOK(u)
	inv managerOK(u)
	inv forall k string: k in dom(u.namespaces) <==> old(k in dom(u.namespaces)) || exists d in #done: d.id == k
	inv forall k in old(dom(u.namespaces)): u.namespaces[k] == old(u.namespaces[k])
	inv forall i int {nms[i]}: 0 <= i && i < #k && !old(nms[i].id in dom(u.namespaces)) && (forall j int {nms[j]}: 0 <= j && j < i ==> nms[j].id != nms[i].id) ==> u.namespaces[nms[i].id] == nms[i]
}
fn RoleManager.GetNamespace(u, id) {
	props C14
	requires managerOK(u)
	ensures found: result1 <==> id in dom(u.namespaces)
	ensures value: result1 ==> result0 == u.namespaces[id]
	ensures none: !result1 ==> result0 == nil
}
fn RoleManager.TotalNamespaces(u) {
	props C14
	requires managerOK(u)
	ensures result == len(u.namespaces)
}

fn RoleManager.Namespaces(u) {
	props C14
	requires managerOK(u)
	ensures all: forall k string: k in result <==> k in dom(u.namespaces)
	inv any data []string: forall k string: k in data <==> k in #seen
}

fn Namespace.ID(x) {
	ensures result == x.id
}

fn RoleManager.AddScope(u, data) {
	props C14
	requires managerOK(u) && data != nil
	modifies map(u.scopes)
	ensures used: old(data.id in dom(u.scopes)) ==> result == old(u.scopes[data.id])
	ensures unused: !old(data.id in dom(u.scopes)) ==> result == data
	ensures lookup: data.id in dom(u.scopes) && u.scopes[data.id] == result
	ensures others: forall k string: k != data.id ==> (k in dom(u.scopes) <==> old(k in dom(u.scopes))) && u.scopes[k] == old(u.scopes[k])
	ensures managerOK(u)
}
fn RoleManager.AddScopes(u, scopes) {
	props C14
	requires managerOK(u) && forall d in scopes: d != nil
	modifies map(u.scopes)
	ensures added: forall k string: k in dom(u.scopes) <==> old(k in dom(u.scopes)) || exists d in scopes: d.id == k
	ensures kept: forall k in old(dom(u.scopes)): u.scopes[k] == old(u.scopes[k])
	ensures first: forall i int {scopes[i]}: 0 <= i && i < len(scopes) && !old(scopes[i].id in dom(u.scopes)) && (forall j int {scopes[j]}: 0 <= j && j < i ==> scopes[j].id != scopes[i].id) ==> u.scopes[scopes[i].id] == scopes[i]
	ensures managerOK(u)
	inv managerOK(u)
	inv forall k string: k in dom(u.scopes) <==> old(k in dom(u.scopes)) || exists d in #done: d.id == k
	inv forall k in old(dom(u.scopes)): u.scopes[k] == old(u.scopes[k])
	inv forall i int {scopes[i]}: 0 <= i && i < #k && !old(scopes[i].id in dom(u.scopes)) && (forall j int {scopes[j]}: 0 <= j && j < i ==> scopes[j].id != scopes[i].id) ==> u.scopes[scopes[i].id] == scopes[i]
}
fn RoleManager.GetScope(u, id) {
	props C14
	requires managerOK(u)
	ensures found: result1 <==> id in dom(u.scopes)
	ensures value: result1 ==> result0 == u.scopes[id]
	ensures none: !result1 ==> result0 == nil
}
fn RoleManager.TotalScopes(u) {
	props C14
	requires managerOK(u)
	ensures result == len(u.scopes)
}

fn RoleManager.Scopes(u) {
	props C14
	requires managerOK(u)
	ensures all: forall k string: k in result <==> k in dom(u.scopes)
	inv any data []string: forall k string: k in data <==> k in #seen
}

fn Scope.ID(x) {
	ensures result == x.id
}

fn RoleManager.AddPrincipal(u, data) {
	props C14
	requires managerOK(u) && data != nil
	modifies map(u.principals)
	ensures used: old(data.id in dom(u.principals)) ==> result == old(u.principals[data.id])
	ensures unused: !old(data.id in dom(u.principals)) ==> result == data
	ensures lookup: data.id in dom(u.principals) && u.principals[data.id] == result
	ensures others: forall k string: k != data.id ==> (k in dom(u.principals) <==> old(k in dom(u.principals))) && u.principals[k] == old(u.principals[k])
	ensures managerOK(u)
}
fn RoleManager.AddPrincipals(u, principals) {
	props C14
	requires managerOK(u) && forall d in principals: d != nil
	modifies map(u.principals)
	ensures added: forall k string: k in dom(u.principals) <==> old(k in dom(u.principals)) || exists d in principals: d.id == k
	ensures kept: forall k in old(dom(u.principals)): u.principals[k] == old(u.principals[k])
	ensures first: forall i int {principals[i]}: 0 <= i && i < len(principals) && !old(principals[i].id in dom(u.principals)) && (forall j int {principals[j]}: 0 <= j && j < i ==> principals[j].id != principals[i].id) ==> u.principals[principals[i].id] == principals[i]
	ensures managerOK(u)
	inv managerOK(u)
	inv forall k string: k in dom(u.principals) <==> old(k in dom(u.principals)) || exists d in #done: d.id == k
	inv forall k in old(dom(u.principals)): u.principals[k] == old(u.principals[k])
	inv forall i int {principals[i]}: 0 <= i && i < #k && !old(principals[i].id in dom(u.principals)) && (forall j int {principals[j]}: 0 <= j && j < i ==> principals[j].id != principals[i].id) ==> u.principals[principals[i].id] == principals[i]
}
fn RoleManager.GetPrincipal(u, id) {
	props C14
	requires managerOK(u)
	ensures found: result1 <==> id in dom(u.principals)
	ensures value: result1 ==> result0 == u.principals[id]
	ensures none: !result1 ==> result0 == nil
}
fn RoleManager.TotalPrincipals(u) {
	props C14
	requires managerOK(u)
	ensures result == len(u.principals)
}

fn RoleManager.Principals(u) {
	props C14
	requires managerOK(u)
	ensures all: forall k string: k in result <==> k in dom(u.principals)
	inv any data []string: forall k string: k in data <==> k in #seen
}

fn Principal.ID(x) {
	ensures result == x.id
}

fn RoleManager.AddRole(u, role) {
	props C14
	requires managerOK(u) && role != nil
	modifies map(u.roles)
	ensures used: old(role.id in dom(u.roles)) ==> result == old(u.roles[role.id])
	ensures unused: !old(role.id in dom(u.roles)) ==> result == role
	ensures lookup: role.id in dom(u.roles) && u.roles[role.id] == result
	ensures others: forall k string: k != role.id ==> (k in dom(u.roles) <==> old(k in dom(u.roles))) && u.roles[k] == old(u.roles[k])
	ensures managerOK(u)
}
fn RoleManager.AddRoles(u, roles) {
	props C14
	requires managerOK(u) && forall d in roles: d != nil
	modifies map(u.roles)
	ensures added: forall k string: k in dom(u.roles) <==> old(k in dom(u.roles)) || exists d in roles: d.id == k
	ensures kept: forall k in old(dom(u.roles)): u.roles[k] == old(u.roles[k])
	ensures first: forall i int {roles[i]}: 0 <= i && i < len(roles) && !old(roles[i].id in dom(u.roles)) && (forall j int {roles[j]}: 0 <= j && j < i ==> roles[j].id != roles[i].id) ==> u.roles[roles[i].id] == roles[i]
	ensures managerOK(u)
	inv managerOK(u)
	inv forall k string: k in dom(u.roles) <==> old(k in dom(u.roles)) || exists d in #done: d.id == k
	inv forall k in old(dom(u.roles)): u.roles[k] == old(u.roles[k])
	inv forall i int {roles[i]}: 0 <= i && i < #k && !old(roles[i].id in dom(u.roles)) && (forall j int {roles[j]}: 0 <= j && j < i ==> roles[j].id != roles[i].id) ==> u.roles[roles[i].id] == roles[i]
}
fn RoleManager.GetRole(u, role) {
	props C14
	requires managerOK(u)
	ensures found: result1 <==> role in dom(u.roles)
	ensures value: result1 ==> result0 == u.roles[role]
	ensures none: !result1 ==> result0 == nil
}
fn RoleManager.TotalRoles(u) {
	props C14
	requires managerOK(u)
	ensures result == len(u.roles)
}

fn RoleManager.Roles(u) {
	props C14
	requires managerOK(u)
	ensures all: forall k string: k in result <==> k in dom(u.roles)
	inv any data []string: forall k string: k in data <==> k in #seen
}

fn Role.ID(x) {
	ensures result == x.id
}

fn RoleManager.AddAttributeGroup(u, attr) {
	props C14
	requires managerOK(u) && attr != nil
	modifies map(u.attributeGroups)
	ensures used: old(attr.id in dom(u.attributeGroups)) ==> result == old(u.attributeGroups[attr.id])
	ensures unused: !old(attr.id in dom(u.attributeGroups)) ==> result == attr
	ensures lookup: attr.id in dom(u.attributeGroups) && u.attributeGroups[attr.id] == result
	ensures others: forall k string: k != attr.id ==> (k in dom(u.attributeGroups) <==> old(k in dom(u.attributeGroups))) && u.attributeGroups[k] == old(u.attributeGroups[k])
	ensures managerOK(u)
}
fn RoleManager.AddAttributeGroups(u, attrs) {
	props C14
	requires managerOK(u) && forall d in attrs: d != nil
	modifies map(u.attributeGroups)
	ensures added: forall k string: k in dom(u.attributeGroups) <==> old(k in dom(u.attributeGroups)) || exists d in attrs: d.id == k
	ensures kept: forall k in old(dom(u.attributeGroups)): u.attributeGroups[k] == old(u.attributeGroups[k])
	ensures first: forall i int {attrs[i]}: 0 <= i && i < len(attrs) && !old(attrs[i].id in dom(u.attributeGroups)) && (forall j int {attrs[j]}: 0 <= j && j < i ==> attrs[j].id != attrs[i].id) ==> u.attributeGroups[attrs[i].id] == attrs[i]
	ensures managerOK(u)
	inv managerOK(u)
	inv forall k string: k in dom(u.attributeGroups) <==> old(k in dom(u.attributeGroups)) || exists d in #done: d.id == k
	inv forall k in old(dom(u.attributeGroups)): u.attributeGroups[k] == old(u.attributeGroups[k])
	inv forall i int {attrs[i]}: 0 <= i && i < #k && !old(attrs[i].id in dom(u.attributeGroups)) && (forall j int {attrs[j]}: 0 <= j && j < i ==> attrs[j].id != attrs[i].id) ==> u.attributeGroups[attrs[i].id] == attrs[i]
}
fn RoleManager.GetAttributeGroup(u, id) {
	props C14
	requires managerOK(u)
	ensures found: result1 <==> id in dom(u.attributeGroups)
	ensures value: result1 ==> result0 == u.attributeGroups[id]
	ensures none: !result1 ==> result0 == nil
}
fn RoleManager.TotalAttributeGroups(u) {
	props C14
	requires managerOK(u)
	ensures result == len(u.attributeGroups)
}

fn RoleManager.AddAttribute(u, attr) {
	props C14
	requires managerOK(u) && attr != nil
	modifies map(u.attributes)
	ensures used: old(attr.resource + " " + attr.action in dom(u.attributes)) ==> result == old(u.attributes[attr.resource + " " + attr.action])
	ensures unused: !old(attr.resource + " " + attr.action in dom(u.attributes)) ==> result == attr
	ensures lookup: attr.resource + " " + attr.action in dom(u.attributes) && u.attributes[attr.resource + " " + attr.action] == result
	ensures others: forall k string: k != attr.resource + " " + attr.action ==> (k in dom(u.attributes) <==> old(k in dom(u.attributes))) && u.attributes[k] == old(u.attributes[k])
	ensures managerOK(u)
}
fn RoleManager.AddAttributes(u, attrs) {
	props C14
	requires managerOK(u) && forall d in attrs: d != nil
	modifies map(u.attributes)
	ensures added: forall k string: k in dom(u.attributes) <==> old(k in dom(u.attributes)) || exists d in attrs: d.resource + " " + d.action == k
	ensures kept: forall k in old(dom(u.attributes)): u.attributes[k] == old(u.attributes[k])
	ensures first: forall i int {attrs[i]}: 0 <= i && i < len(attrs) && !old(attrs[i].resource + " " + attrs[i].action in dom(u.attributes)) && (forall j int {attrs[j]}: 0 <= j && j < i ==> attrs[j].resource + " " + attrs[j].action != attrs[i].resource + " " + attrs[i].action) ==> u.attributes[attrs[i].resource + " " + attrs[i].action] == attrs[i]
	ensures managerOK(u)
	inv managerOK(u)
	inv forall k string: k in dom(u.attributes) <==> old(k in dom(u.attributes)) || exists d in #done: d.resource + " " + d.action == k
	inv forall k in old(dom(u.attributes)): u.attributes[k] == old(u.attributes[k])
	inv forall i int {attrs[i]}: 0 <= i && i < #k && !old(attrs[i].resource + " " + attrs[i].action in dom(u.attributes)) && (forall j int {attrs[j]}: 0 <= j && j < i ==> attrs[j].resource + " " + attrs[j].action != attrs[i].resource + " " + attrs[i].action) ==> u.attributes[attrs[i].resource + " " + attrs[i].action] == attrs[i]
}
fn RoleManager.GetAttribute(u, attr) {
	props C14
	requires managerOK(u)
	ensures found: result1 <==> attr in dom(u.attributes)
	ensures value: result1 ==> result0 == u.attributes[attr]
	ensures none: !result1 ==> result0 == nil
}
fn RoleManager.TotalAttributes(u) {
	props C14
	requires managerOK(u)
	ensures result == len(u.attributes)
}

fn RoleManager.Attributes(u) {
	props C14
	requires managerOK(u)
	ensures all: forall k string: k in result <==> k in dom(u.attributes)
	inv any data []string: forall k string: k in data <==> k in #seen
}
