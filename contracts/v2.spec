package v2

sweep C16/lock
sweep C15/own


// ---- role graph ------------------------------------------------------------
// reach: b is a or inherited from a through registered roles
inductive reach(dag *RoleDAG, a string, b string) =
    b == a || (exists m string: reach(dag, a, m) && m in dom(dag.roles) && b in dag.edges[m])
// edgeReach: b is a or a (transitive) child of a, registered or not
inductive edgeReach(dag *RoleDAG, a string, b string) =
    b == a || (exists m string: edgeReach(dag, a, m) && b in dag.edges[m])
pred dagOK(dag *RoleDAG) = dag.roles != nil && dag.edges != nil && (forall k in dom(dag.roles): dag.roles[k] != nil)
pred rolePerm(dag *RoleDAG, role string, p string) =
    exists r string: reach(dag, role, r) && r in dom(dag.roles) && p in dom(dag.roles[r].Permissions)
pred roleName(dag *RoleDAG, role string, n string) =
    exists r string: reach(dag, role, r) && r in dom(dag.roles) && dag.roles[r].Name == n
pred acyclic(dag *RoleDAG) = forall x string, y string {y in dag.edges[x]}: y in dag.edges[x] ==> !edgeReach(dag, y, x)

fn RoleDAG.ResolvePermissions(dag, roleName) {
	props C05
	requires dagOK(dag)
	ensures fresh(result)
	ensures union: forall p string: p in dom(result) <==> rolePerm(dag, roleName, p)
	inv any visited map[string]bool: forall x string: visited[x] ==> reach(dag, roleName, x)
	inv any queue []string: forall x in queue: reach(dag, roleName, x)
	inv any visited map[string]bool, queue []string: visited[roleName] || roleName in queue
	inv any visited map[string]bool, queue []string: forall x string, y string {y in dag.edges[x]}: visited[x] && x in dom(dag.roles) && y in dag.edges[x] ==> visited[y] || y in queue
	inv any visited map[string]bool, result map[string]struct{}:
	    forall p string: p in dom(result) <==> exists x string: visited[x] && x in dom(dag.roles) && p in dom(dag.roles[x].Permissions)
	inv any result map[string]struct{}: forall p string: p in dom(result) <==> p in before(dom(result)) || p in #seen
	use @exit any visited map[string]bool: induct reach(dag, roleName, x string) by visited[x]
}

fn RoleDAG.ResolveChildRoles(dag, roleName) {
	props C05
	requires dagOK(dag)
	ensures fresh(result)
	ensures names: forall p string: p in dom(result) <==> roleName(dag, roleName, p)
	inv any visited map[string]bool: forall x string: visited[x] ==> reach(dag, roleName, x)
	inv any queue []string: forall x in queue: reach(dag, roleName, x)
	inv any visited map[string]bool, queue []string: visited[roleName] || roleName in queue
	inv any visited map[string]bool, queue []string: forall x string, y string {y in dag.edges[x]}: visited[x] && x in dom(dag.roles) && y in dag.edges[x] ==> visited[y] || y in queue
	inv any visited map[string]bool, result map[string]struct{}:
	    forall p string: p in dom(result) <==> exists x string: visited[x] && x in dom(dag.roles) && p == dag.roles[x].Name
	use @exit any visited map[string]bool: induct reach(dag, roleName, x string) by visited[x]
}

// ---- C04 -------------------------------------------------------------------
lemma edgeFront(dag *RoleDAG, r string, c string, x string) {
	requires c in dag.edges[r] && edgeReach(dag, c, x)
	ensures edgeReach(dag, r, x)
	trigger c in dag.edges[r], edgeReach(dag, c, x)
	use induct edgeReach(dag, c, y string) by edgeReach(dag, r, y)
}
lemma edgeTrans(dag *RoleDAG, a string, b string, z string) {
	requires edgeReach(dag, a, b) && edgeReach(dag, b, z)
	ensures edgeReach(dag, a, z)
	trigger edgeReach(dag, a, b), edgeReach(dag, b, z)
	use induct edgeReach(dag, b, y string) by edgeReach(dag, a, y)
}
fn RoleDAG.checkCircularDependency(dag, parent, children) {
	requires dag.edges != nil
	ensures cycle: result != nil <==> exists c in children: edgeReach(dag, c, parent)
	closure dfs(role) {
		captures visited map[string]bool
		requires !visited[parent] && visited != nil
		modifies map(visited)
		ensures !visited[parent]
		ensures forall x string: old(visited[x]) ==> visited[x]
		ensures forall x string: visited[x] && !old(visited[x]) ==> edgeReach(dag, role, x)
		ensures result ==> edgeReach(dag, role, parent)
		ensures !result ==> visited[role]
		ensures !result ==> forall x string, y string {y in dag.edges[x]}: visited[x] && !old(visited[x]) && y in dag.edges[x] ==> visited[y]
		inv !visited[parent]
		inv visited[role]
		inv forall x string: old(visited[x]) ==> visited[x]
		inv forall x string: visited[x] && !old(visited[x]) ==> edgeReach(dag, role, x)
		inv forall x string, y string {y in dag.edges[x]}: visited[x] && !old(visited[x]) && x != role && y in dag.edges[x] ==> visited[y]
		inv forall y in #done: visited[y]
		use @loop lemma forall r string, c string, x string: edgeFront(dag, r, c, x)
		use @exit lemma forall r string, c string, x string: edgeFront(dag, r, c, x)
	}
	inv any visited map[string]bool: !visited[parent]
	inv any visited map[string]bool: forall x in #done: visited[x]
	inv any visited map[string]bool: forall x string, y string {y in dag.edges[x]}: visited[x] && y in dag.edges[x] ==> visited[y]
	use @exit any visited map[string]bool: induct edgeReach(dag, a string, b string) by visited[a] ==> visited[b]
}

fn RoleDAG.AddChildRole(dag, parent, child) {
	props C04
	requires dag.edges != nil
	modifies map(dag.edges)
	ensures refused: result != nil <==> exists c in child: old(edgeReach(dag, c, parent))
	ensures unchanged: result != nil ==> forall k string: dag.edges[k] == old(dag.edges[k])
	ensures added: result == nil ==> dag.edges[parent] == cat(old(dag.edges[parent]), child)
	ensures others: result == nil ==> forall k string: k != parent ==> dag.edges[k] == old(dag.edges[k])
	ensures acyclic: old(acyclic(dag)) ==> acyclic(dag)
	use induct edgeReach(dag, a string, b string) by old(edgeReach(dag, a, b)) || old(edgeReach(dag, a, parent)) && (exists c in child: old(edgeReach(dag, c, b)))
	use old lemma forall x string, y string, z string: edgeTrans(dag, x, y, z)
	use old lemma forall r string, c string, x string: edgeFront(dag, r, c, x)
}
fn Authorizer.AddChildRole(a, parent, child) {
	props C04
	requires a.roleDAG != nil && a.roleDAG.edges != nil
	modifies map(a.roleDAG.edges)
	ensures refused: result != nil <==> exists c in child: old(edgeReach(a.roleDAG, c, parent))
	ensures unchanged: result != nil ==> forall k string: a.roleDAG.edges[k] == old(a.roleDAG.edges[k])
	ensures added: result == nil ==> a.roleDAG.edges[parent] == cat(old(a.roleDAG.edges[parent]), child)
	ensures others: result == nil ==> forall k string: k != parent ==> a.roleDAG.edges[k] == old(a.roleDAG.edges[k])
	ensures acyclic: old(acyclic(a.roleDAG)) ==> acyclic(a.roleDAG)
}

// ---- authorizer: well-formedness, as established by the constructors ---------
pred urmOK(a *Authorizer) = forall k in dom(a.userRoleMap): a.userRoleMap[k] != nil && (forall t in dom(a.userRoleMap[k]): forall r in a.userRoleMap[k][t]: r != nil)
pred authOK(a *Authorizer) = a.roleDAG != nil && dagOK(a.roleDAG) && a.tenants != nil && a.userRoleMap != nil && a.parentCache != nil
    && (forall r in a.userRoles: r != nil)
    && urmOK(a)
    && (forall k in dom(a.tenants): a.tenants[k] != nil && a.tenants[k].ID == k)
pred tenantOK(t *Tenant) = t.Namespaces != nil && t.ChildTenants != nil
    && (forall k in dom(t.Namespaces): t.Namespaces[k] != nil && t.Namespaces[k].Scopes != nil)
    && (forall k in dom(t.ChildTenants): t.ChildTenants[k] != nil)
// every tenant object is well-formed and tenant identifiers are unique
pred tenantsOK(a *Authorizer) = (forall t *Tenant: tenantOK(t)) && (forall t *Tenant, s *Tenant {t.ID, s.ID}: t.ID == s.ID ==> t == s)

// ---- C06 ---------------------------------------------------------------------
pred prMatch(t PrincipalRole, u *PrincipalRole) =
    (t.Principal == "" || u.Principal == t.Principal) && (t.Tenant == "" || u.Tenant == t.Tenant)
    && (t.Namespace == "" || u.Namespace == t.Namespace) && (t.Scope == "" || u.Scope == t.Scope)
    && (t.Role == "" || u.Role == t.Role)

fn Authorizer.AddPrincipalRole(a, userRole) {
	props C06
	requires authOK(a) && forall r in userRole: r != nil
	modifies a.userRoles; map(a.userRoleMap); all map[string][]*PrincipalRole
	ensures added: forall r *PrincipalRole: r in a.userRoles <==> old(r in a.userRoles) || r in userRole
	ensures authOK(a)
	inv forall r *PrincipalRole: r in a.userRoles <==> old(r in a.userRoles) || r in #done
	inv a.userRoleMap == old(a.userRoleMap)
	inv forall r in a.userRoles: r != nil
	inv urmOK(a)
}

fn Authorizer.RemovePrincipalRole(a, target) {
	props C06
	requires authOK(a)
	modifies a.userRoles; map(a.userRoleMap); all map[string][]*PrincipalRole
	ensures error: result == nil <==> exists r in old(a.userRoles): prMatch(target, r)
	ensures removed: result == nil ==> forall r *PrincipalRole: r in a.userRoles <==> old(r in a.userRoles) && !prMatch(target, r)
	ensures unchanged: result != nil ==> a.userRoles == old(a.userRoles)
	ensures authOK(a)
	inv any removed bool: removed <==> exists r in #done: prMatch(target, r)
	inv any out []*PrincipalRole, j int: forall r *PrincipalRole: r in out[:j] <==> r in #done && !prMatch(target, r)
	inv any out []*PrincipalRole: forall r *PrincipalRole: r in out <==> r in #done && !prMatch(target, r)
	inv any j int: 0 <= j && j <= #k
	inv any out []*PrincipalRole: len(out) == before(len(out))
	inv any out []*PrincipalRole: forall r in out: r != nil
	inv any out []*PrincipalRole, j int: forall r in out[:j]: r != nil
	inv urmOK(a)
}

// ---- C03 ---------------------------------------------------------------------
pred expired(r *PrincipalRole) = r.Expiry != nil && *r.Expiry < now

fn PrincipalRole.IsExpired(pr) {
	props C03
	ensures result <==> expired(pr)
}
fn PrincipalRole.SetExpiry(pr, expiry) {
	props C03
	modifies pr.Expiry
	ensures past: expiry < now ==> result != nil && pr.Expiry == old(pr.Expiry)
	ensures set: !(expiry < now) ==> result == nil && pr.Expiry != nil && *pr.Expiry == expiry
}
fn PrincipalRole.SetExpiryDuration(pr, dur) {
	props C03
	modifies pr.Expiry
	ensures error: result != nil <==> !(typeis(dur, time.Duration) || typeis(dur, string) && parseerr(as(dur, string)) == nil)
	ensures unchanged: result != nil ==> pr.Expiry == old(pr.Expiry)
	ensures set: result == nil ==> pr.Expiry != nil && *pr.Expiry == now + (if typeis(dur, string) then parsedur(as(dur, string)) else as(dur, time.Duration))
}
fn PrincipalRole.ClearExpiry(pr) {
	props C03
	modifies pr.Expiry
	ensures pr.Expiry == nil
}

// ---- C01, C02: effective assignments -------------------------------------------
// an unexpired assignment of the principal in that tenant that opens its child tenants
pred manages(a *Authorizer, user string, tid string) =
    exists r in a.userRoles: r.Principal == user && r.Tenant == tid && r.ManageChildTenant && !expired(r)
pred childOf(t *Tenant, c *Tenant) = exists k in dom(t.ChildTenants): t.ChildTenants[k] == c
inductive treach(a *Authorizer, user string, t *Tenant, x *Tenant) =
    x == t || (exists m *Tenant, k string: treach(a, user, t, m) && manages(a, user, m.ID) && k in dom(m.ChildTenants) && m.ChildTenants[k] == x)
lemma treachFront(a *Authorizer, user string, t *Tenant, k string, x *Tenant) {
	requires t != nil && manages(a, user, t.ID) && k in dom(t.ChildTenants) && treach(a, user, t.ChildTenants[k], x)
	ensures treach(a, user, t, x)
	trigger k in dom(t.ChildTenants), treach(a, user, t.ChildTenants[k], x)
	use induct treach(a, user, t.ChildTenants[k], y *Tenant) by treach(a, user, t, y)
}
// the assignment counts for that principal, tenant and namespace
pred effective(r *PrincipalRole, user string, tid string, ns string) =
    r.Principal == user && r.Tenant == tid && !expired(r) && (r.Namespace == "" || r.Namespace == ns)
pred confers(a *Authorizer, user string, tid string, ns string, sc string, p string) =
    exists r in a.userRoles: effective(r, user, tid, ns) && r.Scope == sc && rolePerm(a.roleDAG, r.Role, p)
pred permIn(a *Authorizer, user string, t *Tenant, ns string, sc string, p string) =
    exists x *Tenant: treach(a, user, t, x) && confers(a, user, x.ID, ns, sc, p)
pred granted(a *Authorizer, user string, t *Tenant, ns string, sc string, p string) =
    permIn(a, user, t, ns, sc, p) || permIn(a, user, t, ns, "", p) && (forall q string: !permIn(a, user, t, ns, sc, q))

fn Authorizer.resolvePrincipalPermissions(a, userID, tenantID, namespace, scopeName) {
	props C01 C03
	requires authOK(a) && tenantsOK(a)
	ensures found: result1 == nil ==> tenantID in dom(a.tenants) && forall p string: p in dom(result0) <==> granted(a, userID, a.tenants[tenantID], namespace, scopeName, p)
	ensures none: result1 != nil ==> tenantID in dom(a.tenants) ==> forall p string: !granted(a, userID, a.tenants[tenantID], namespace, scopeName, p)
	closure traverse(current) {
		captures checkedTenants map[string]bool, scopedPermissions map[string]struct{}, globalPermissions map[string]struct{}
		requires current != nil
		requires checkedTenants != nil && scopedPermissions != nil && globalPermissions != nil && scopedPermissions != globalPermissions
		modifies map(checkedTenants); map(scopedPermissions); map(globalPermissions)
		ensures result == nil
		ensures checkedTenants[current.ID]
		ensures forall x string: old(checkedTenants[x]) ==> checkedTenants[x]
		ensures forall t *Tenant: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) ==> treach(a, userID, current, t)
		ensures forall t *Tenant, k string {k in dom(t.ChildTenants)}: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) && manages(a, userID, t.ID) && k in dom(t.ChildTenants) ==> checkedTenants[t.ChildTenants[k].ID]
		ensures forall p string: p in dom(scopedPermissions) <==> old(p in dom(scopedPermissions)) || exists t *Tenant: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) && confers(a, userID, t.ID, namespace, scopeName, p)
		ensures scopeName != "" ==> forall p string: p in dom(globalPermissions) <==> old(p in dom(globalPermissions)) || exists t *Tenant: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) && confers(a, userID, t.ID, namespace, "", p)
		ensures scopeName == "" ==> forall p string: p in dom(globalPermissions) ==> old(p in dom(globalPermissions))
		inv checkedTenants[current.ID]
		inv forall x string: old(checkedTenants[x]) ==> checkedTenants[x]
		inv forall p string: p in dom(scopedPermissions) <==> old(p in dom(scopedPermissions)) || exists r in #done: effective(r, userID, current.ID, namespace) && r.Scope == scopeName && rolePerm(a.roleDAG, r.Role, p)
		inv scopeName != "" ==> forall p string: p in dom(globalPermissions) <==> old(p in dom(globalPermissions)) || exists r in #done: effective(r, userID, current.ID, namespace) && r.Scope == "" && rolePerm(a.roleDAG, r.Role, p)
		inv scopeName == "" ==> forall p string: p in dom(globalPermissions) ==> old(p in dom(globalPermissions))
		inv any result map[string]struct{}: forall p string: p in dom(result) <==> p in before(dom(result)) || p in #seen
		inv forall t *Tenant: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) ==> treach(a, userID, current, t)
		inv forall t *Tenant, k string {k in dom(t.ChildTenants)}: t != current && checkedTenants[t.ID] && !old(checkedTenants[t.ID]) && manages(a, userID, t.ID) && k in dom(t.ChildTenants) ==> checkedTenants[t.ChildTenants[k].ID]
		inv forall p string: p in dom(scopedPermissions) <==> old(p in dom(scopedPermissions)) || exists t *Tenant: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) && confers(a, userID, t.ID, namespace, scopeName, p)
		inv scopeName != "" ==> forall p string: p in dom(globalPermissions) <==> old(p in dom(globalPermissions)) || exists t *Tenant: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) && confers(a, userID, t.ID, namespace, "", p)
		inv (exists r in #done: r.Principal == userID && r.Tenant == current.ID && r.ManageChildTenant && !expired(r)) ==> forall k in dom(current.ChildTenants): checkedTenants[current.ChildTenants[k].ID]
		inv forall k in #seen: checkedTenants[current.ChildTenants[k].ID]
		use @loop lemma forall t *Tenant, k string, x *Tenant: treachFront(a, userID, t, k, x)
		use @exit lemma forall t *Tenant, k string, x *Tenant: treachFront(a, userID, t, k, x)
	}
	use @exit any checkedTenants map[string]bool: induct treach(a, userID, a.tenants[tenantID], x *Tenant) by checkedTenants[x.ID]
}

pred holdsRole(a *Authorizer, user string, tid string, ns string, n string) =
    exists r in a.userRoles: effective(r, user, tid, ns) && r.Role != "" && (n == r.Role || roleName(a.roleDAG, r.Role, n))
pred roleIn(a *Authorizer, user string, t *Tenant, ns string, n string) =
    exists x *Tenant: treach(a, user, t, x) && holdsRole(a, user, x.ID, ns, n)

fn Authorizer.resolvePrincipalRoles(a, userID, tenantID, namespace) {
	props C02 C03
	opaque roleName
	requires authOK(a) && tenantsOK(a)
	ensures found: result1 == nil ==> tenantID in dom(a.tenants) && forall p string: p in dom(result0) <==> roleIn(a, userID, a.tenants[tenantID], namespace, p)
	ensures none: result1 != nil ==> tenantID in dom(a.tenants) ==> forall p string: !roleIn(a, userID, a.tenants[tenantID], namespace, p)
	closure traverse(current) {
		captures checkedTenants map[string]bool, scopedRoles map[string]struct{}
		requires current != nil
		requires checkedTenants != nil && scopedRoles != nil
		modifies map(checkedTenants); map(scopedRoles)
		ensures result == nil
		ensures checkedTenants[current.ID]
		ensures forall x string: old(checkedTenants[x]) ==> checkedTenants[x]
		ensures forall t *Tenant: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) ==> treach(a, userID, current, t)
		ensures forall t *Tenant, k string {k in dom(t.ChildTenants)}: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) && manages(a, userID, t.ID) && k in dom(t.ChildTenants) ==> checkedTenants[t.ChildTenants[k].ID]
		ensures forall p string: p in dom(scopedRoles) <==> old(p in dom(scopedRoles)) || exists t *Tenant: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) && holdsRole(a, userID, t.ID, namespace, p)
		inv checkedTenants[current.ID]
		inv forall x string: old(checkedTenants[x]) ==> checkedTenants[x]
		inv forall p string: p in dom(scopedRoles) <==> old(p in dom(scopedRoles)) || exists r in #done: effective(r, userID, current.ID, namespace) && r.Role != "" && (p == r.Role || roleName(a.roleDAG, r.Role, p))
		inv any result map[string]struct{}: forall p string: p in dom(result) <==> p in before(dom(result)) || p in #seen
		inv forall t *Tenant: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) ==> treach(a, userID, current, t)
		inv forall t *Tenant, k string {k in dom(t.ChildTenants)}: t != current && checkedTenants[t.ID] && !old(checkedTenants[t.ID]) && manages(a, userID, t.ID) && k in dom(t.ChildTenants) ==> checkedTenants[t.ChildTenants[k].ID]
		inv forall p string: p in dom(scopedRoles) <==> old(p in dom(scopedRoles)) || exists t *Tenant: checkedTenants[t.ID] && !old(checkedTenants[t.ID]) && holdsRole(a, userID, t.ID, namespace, p)
		inv (exists r in #done: r.Principal == userID && r.Tenant == current.ID && r.ManageChildTenant && !expired(r)) ==> forall k in dom(current.ChildTenants): checkedTenants[current.ChildTenants[k].ID]
		inv forall k in #seen: checkedTenants[current.ChildTenants[k].ID]
		use @loop lemma forall t *Tenant, k string, x *Tenant: treachFront(a, userID, t, k, x)
		use @exit lemma forall t *Tenant, k string, x *Tenant: treachFront(a, userID, t, k, x)
	}
	use @exit any checkedTenants map[string]bool: induct treach(a, userID, a.tenants[tenantID], x *Tenant) by checkedTenants[x.ID]
}

// writes to the audit logger only
fn Authorizer.Log(a, level, request, msg) {
}

// ---- request resolution ---------------------------------------------------------
pred activeTenantOf(a *Authorizer, user string, t *Tenant) =
    exists r in a.userRoles: r.Principal == user && r.Tenant != "" && r.Tenant in dom(a.tenants) && a.tenants[r.Tenant] == t && t.Status == TenantStatusActive
pred target(a *Authorizer, req Request, t *Tenant) =
    if req.Tenant != "" then req.Tenant in dom(a.tenants) && a.tenants[req.Tenant] == t
    else if a.defaultTenant != "" then a.defaultTenant in dom(a.tenants) && a.tenants[a.defaultTenant] == t
    else activeTenantOf(a, req.Principal, t)
// n is the namespace of t the request refers to, and it has the requested scope
pred nsFor(t *Tenant, req Request, n string) =
    (if req.Namespace != "" then n == req.Namespace else if t.DefaultNS != "" then n == t.DefaultNS else len(t.Namespaces) == 1)
    && n in dom(t.Namespaces) && (req.Scope == "" || req.Scope in dom(t.Namespaces[n].Scopes))

fn Authorizer.findPrincipalTenants(a, userID) {
	requires authOK(a)
	ensures forall t *Tenant: t in result <==> activeTenantOf(a, userID, t)
	ensures forall t in result: t != nil
	inv any list []*Tenant: forall t in list: t != nil
	inv any list []*Tenant, i int: forall t in list[:i]: t != nil
	inv any ts map[string]*Tenant: forall k in dom(ts): k in dom(a.tenants) && ts[k] == a.tenants[k] && ts[k].Status == TenantStatusActive
	inv any ts map[string]*Tenant: forall k in dom(ts): exists r in #done: r.Principal == userID && r.Tenant == k && k != ""
	inv any ts map[string]*Tenant: forall r in #done: r.Principal == userID && r.Tenant != "" && r.Tenant in dom(a.tenants) && a.tenants[r.Tenant].Status == TenantStatusActive ==> r.Tenant in dom(ts)
	inv any ts map[string]*Tenant: forall k in dom(ts): ts[k] != nil
	inv any list []*Tenant: len(list) == before(len(list))
	inv any i int: i == card(#seen)
	inv any list []*Tenant, i int: forall t *Tenant: t in list[:i] <==> exists k in #seen: #m[k] == t
	inv any list []*Tenant: forall t *Tenant: t in list <==> exists k in #seen: #m[k] == t
}
fn Authorizer.findTargetTenants(a, request) {
	requires authOK(a)
	ensures found: result1 ==> forall t *Tenant: t in result0 <==> target(a, request, t)
	ensures none: !result1 ==> forall t *Tenant: !target(a, request, t)
	ensures forall t in result0: t != nil && t.ID in dom(a.tenants) && a.tenants[t.ID] == t
}
fn Authorizer.findNamespace(a, tenant, request) {
	requires tenant != nil && tenantOK(tenant)
	ensures found: result1 ==> forall n string: nsFor(tenant, request, n) <==> n == result0
	ensures none: !result1 ==> forall n string: !nsFor(tenant, request, n)
	inv any s string: forall k in #seen: s in #seen
}
pred permits(p string, req Request) =
    !(req.Resource == "" && req.Action == "") && utils.matchFrom(req.Resource + " " + req.Action, 0, p, 0)
fn matchPermission(permission, request) {
	ensures result <==> permits(permission, request)
}
pred mayAccess(a *Authorizer, req Request, t *Tenant) =
    exists n string, p string: nsFor(t, req, n) && granted(a, req.Principal, t, n, req.Scope, p) && permits(p, req)
fn Authorizer.Authorize(a, request) {
	props C01
	opaque granted nsFor permits
	requires authOK(a) && tenantsOK(a)
	ensures granted: result <==> exists t *Tenant: target(a, request, t) && mayAccess(a, request, t)
	inv forall t in #done: !mayAccess(a, request, t)
	inv forall p in #seen: !permits(p, request)
}
pred mayAct(a *Authorizer, req Request, roles []string, t *Tenant) =
    exists n string, r in roles: nsFor(t, req, n) && roleIn(a, req.Principal, t, n, r)
fn Authorizer.Can(a, request, roles) {
	props C02
	opaque roleIn nsFor
	requires authOK(a) && tenantsOK(a)
	ensures held: result <==> exists t *Tenant: target(a, request, t) && mayAct(a, request, roles, t)
	inv forall t in #done: !mayAct(a, request, roles, t)
	inv forall p in #seen: !(p in roles)
}

// ---- C18: tenants, namespaces, scopes, registration -----------------------------
fn NewNamespace(name) {
	props C18
	ensures fresh(result) && result.ID == name && result.Scopes != nil && fresh(result.Scopes)
	ensures empty: forall k string: !(k in dom(result.Scopes))
}
fn NewTenant(id, defaultNamespace) {
	props C18
	ensures fresh(result) && result.ID == id && result.Status == TenantStatusActive && tenantOK(result)
	ensures fresh(result.Namespaces) && fresh(result.ChildTenants)
	ensures nochildren: forall k string: !(k in dom(result.ChildTenants))
	ensures nodefault: len(defaultNamespace) == 0 ==> result.DefaultNS == "" && forall k string: !(k in dom(result.Namespaces))
	ensures default: len(defaultNamespace) > 0 ==> result.DefaultNS == defaultNamespace[0] && forall k string: k in dom(result.Namespaces) <==> k == defaultNamespace[0]
	ensures noscopes: forall k in dom(result.Namespaces): forall s string: !(s in dom(result.Namespaces[k].Scopes))
}
fn Tenant.AddNamespace(t, namespace, isDefault) {
	props C18
	requires tenantOK(t)
	modifies map(t.Namespaces); t.DefaultNS
	ensures present: namespace in dom(t.Namespaces)
	ensures others: forall k string: k in dom(t.Namespaces) <==> k == namespace || old(k in dom(t.Namespaces))
	ensures kept: forall k in old(dom(t.Namespaces)): t.Namespaces[k] == old(t.Namespaces[k])
	ensures empty: !old(namespace in dom(t.Namespaces)) ==> forall s string: !(s in dom(t.Namespaces[namespace].Scopes))
	ensures default: t.DefaultNS == (if len(isDefault) > 0 && isDefault[0] then namespace else old(t.DefaultNS))
	ensures tenantOK(t)
}
fn Tenant.AddScopeToNamespace(t, namespace, scopes) {
	props C18
	requires tenantOK(t) && forall s in scopes: s != nil
	modifies map(t.Namespaces); map(t.Namespaces[namespace].Scopes)
	ensures error: result != nil <==> !old(namespace in dom(t.Namespaces))
	ensures namespaces: forall k string: (k in dom(t.Namespaces) <==> old(k in dom(t.Namespaces))) && t.Namespaces[k] == old(t.Namespaces[k])
	ensures unchanged: result != nil ==> forall k in dom(t.Namespaces): forall s string: (s in dom(t.Namespaces[k].Scopes) <==> old(s in dom(t.Namespaces[k].Scopes)))
	ensures added: result == nil ==> forall s string: s in dom(t.Namespaces[namespace].Scopes) <==> old(s in dom(t.Namespaces[namespace].Scopes)) || exists x in scopes: x.ID == s
	ensures tenantOK(t)
	inv forall s string: s in dom(t.Namespaces[namespace].Scopes) <==> old(s in dom(t.Namespaces[namespace].Scopes)) || exists x in #done: x.ID == s
}
fn Tenant.AddChildTenant(t, tenants) {
	props C18
	requires tenantOK(t) && forall c in tenants: c != nil
	modifies map(t.ChildTenants)
	ensures added: forall k string: k in dom(t.ChildTenants) <==> old(k in dom(t.ChildTenants)) || exists c in tenants: c.ID == k
	ensures kept: forall k in old(dom(t.ChildTenants)): (forall c in tenants: c.ID != k) ==> t.ChildTenants[k] == old(t.ChildTenants[k])
	ensures named: forall k in dom(t.ChildTenants): (exists c in tenants: c.ID == k) ==> exists c in tenants: c.ID == k && t.ChildTenants[k] == c
	ensures tenantOK(t)
	inv forall k string: k in dom(t.ChildTenants) <==> old(k in dom(t.ChildTenants)) || exists c in #done: c.ID == k
	inv forall k in old(dom(t.ChildTenants)): (forall c in #done: c.ID != k) ==> t.ChildTenants[k] == old(t.ChildTenants[k])
	inv forall k in dom(t.ChildTenants): (exists c in #done: c.ID == k) ==> exists c in #done: c.ID == k && t.ChildTenants[k] == c
	inv forall k in dom(t.ChildTenants): t.ChildTenants[k] != nil
}
fn Authorizer.AddTenant(a, tenant) {
	props C18
	requires authOK(a) && tenant != nil && tenantOK(tenant) && tenant.ChildTenants != a.tenants && tenant.ChildTenants != a.parentCache && a.tenants != a.parentCache
	modifies map(a.tenants); map(a.parentCache)
	ensures result == tenant
	ensures added: forall k string: k in dom(a.tenants) <==> old(k in dom(a.tenants)) || k == tenant.ID
	ensures named: a.tenants[tenant.ID] == tenant
	ensures kept: forall k in old(dom(a.tenants)): k != tenant.ID ==> a.tenants[k] == old(a.tenants[k])
	ensures authOK(a)
	inv forall k string: k in dom(a.tenants) <==> old(k in dom(a.tenants)) || k == tenant.ID
	inv a.tenants[tenant.ID] == tenant
	inv forall k in old(dom(a.tenants)): k != tenant.ID ==> a.tenants[k] == old(a.tenants[k])
}
fn Authorizer.AddTenants(a, tenants) {
	props C18
	requires authOK(a) && a.tenants != a.parentCache && forall t in tenants: t != nil && tenantOK(t) && t.ChildTenants != a.tenants && t.ChildTenants != a.parentCache
	modifies map(a.tenants); map(a.parentCache)
	ensures added: forall k string: k in dom(a.tenants) <==> old(k in dom(a.tenants)) || exists t in tenants: t.ID == k
	ensures named: forall k in dom(a.tenants): (exists t in tenants: t.ID == k) ==> exists t in tenants: t.ID == k && a.tenants[k] == t
	ensures kept: forall k in old(dom(a.tenants)): (forall t in tenants: t.ID != k) ==> a.tenants[k] == old(a.tenants[k])
	ensures authOK(a)
	inv authOK(a)
	inv forall k string: k in dom(a.tenants) <==> old(k in dom(a.tenants)) || exists t in #done: t.ID == k
	inv forall k in dom(a.tenants): (exists t in #done: t.ID == k) ==> exists t in #done: t.ID == k && a.tenants[k] == t
	inv forall k in old(dom(a.tenants)): (forall t in #done: t.ID != k) ==> a.tenants[k] == old(a.tenants[k])
	inv forall t in tenants: tenantOK(t)
}
fn Authorizer.GetTenant(a, id) {
	props C18
	requires authOK(a)
	ensures result1 <==> id in dom(a.tenants)
	ensures result1 ==> result0 == a.tenants[id]
}
fn Authorizer.SetDefaultTenant(a, tenant) {
	props C18
	modifies a.defaultTenant
	ensures a.defaultTenant == tenant
}
fn Authorizer.GetDefaultTenant(a) {
	props C18
	requires authOK(a)
	ensures result1 <==> a.defaultTenant != "" && a.defaultTenant in dom(a.tenants)
	ensures result1 ==> result0 == a.tenants[a.defaultTenant]
}
fn NewRole(name) {
	props C18
	ensures fresh(result) && result.Name == name && result.Permissions != nil && fresh(result.Permissions)
	ensures forall p string: !(p in dom(result.Permissions))
}
fn NewRoleDAG() {
	props C18
	ensures fresh(result) && dagOK(result) && fresh(result.roles) && fresh(result.edges)
	ensures forall k string: !(k in dom(result.roles)) && !(k in dom(result.edges))
}
fn RoleDAG.AddRole(dag, roles) {
	props C05 C18
	requires dagOK(dag) && forall r in roles: r != nil
	modifies map(dag.roles)
	ensures added: forall k string: k in dom(dag.roles) <==> old(k in dom(dag.roles)) || exists r in roles: r.Name == k
	ensures named: forall k in dom(dag.roles): (exists r in roles: r.Name == k) ==> exists r in roles: r.Name == k && dag.roles[k] == r
	ensures kept: forall k in old(dom(dag.roles)): (forall r in roles: r.Name != k) ==> dag.roles[k] == old(dag.roles[k])
	ensures dagOK(dag)
	inv dagOK(dag)
	inv forall k string: k in dom(dag.roles) <==> old(k in dom(dag.roles)) || exists r in #done: r.Name == k
	inv forall k in dom(dag.roles): (exists r in #done: r.Name == k) ==> exists r in #done: r.Name == k && dag.roles[k] == r
	inv forall k in old(dom(dag.roles)): (forall r in #done: r.Name != k) ==> dag.roles[k] == old(dag.roles[k])
}
fn Authorizer.AddRoles(a, role) {
	props C18
	requires authOK(a) && forall r in role: r != nil
	modifies map(a.roleDAG.roles)
	ensures added: forall k string: k in dom(a.roleDAG.roles) <==> old(k in dom(a.roleDAG.roles)) || exists r in role: r.Name == k
	ensures named: forall k in dom(a.roleDAG.roles): (exists r in role: r.Name == k) ==> exists r in role: r.Name == k && a.roleDAG.roles[k] == r
	ensures kept: forall k in old(dom(a.roleDAG.roles)): (forall r in role: r.Name != k) ==> a.roleDAG.roles[k] == old(a.roleDAG.roles[k])
	ensures authOK(a)
}
fn Authorizer.AddRole(a, role) {
	props C18
	requires authOK(a) && role != nil
	modifies map(a.roleDAG.roles)
	ensures result == role
	ensures added: forall k string: k in dom(a.roleDAG.roles) <==> old(k in dom(a.roleDAG.roles)) || role.Name == k
	ensures named: a.roleDAG.roles[role.Name] == role
	ensures kept: forall k in old(dom(a.roleDAG.roles)): role.Name != k ==> a.roleDAG.roles[k] == old(a.roleDAG.roles[k])
	ensures authOK(a)
}
fn Authorizer.GetRole(a, val) {
	props C18
	requires authOK(a)
	ensures result1 <==> val in dom(a.roleDAG.roles)
	ensures result1 ==> result0 == a.roleDAG.roles[val]
}
fn Role.AddPermission(r, permissions) {
	props C05
	requires r.Permissions != nil && forall p in permissions: p != nil
	modifies map(r.Permissions)
	ensures added: forall s string: s in dom(r.Permissions) <==> old(s in dom(r.Permissions)) || exists p in permissions: p.Resource + " " + p.Action == s
	inv forall s string: s in dom(r.Permissions) <==> old(s in dom(r.Permissions)) || exists p in #done: p.Resource + " " + p.Action == s
}
fn Role.RemovePermission(r, permissions) {
	props C05
	requires forall p in permissions: p != nil
	modifies map(r.Permissions)
	ensures removed: forall s string: s in dom(r.Permissions) <==> old(s in dom(r.Permissions)) && forall p in permissions: p.Resource + " " + p.Action != s
	inv forall s string: s in dom(r.Permissions) <==> old(s in dom(r.Permissions)) && forall p in #done: p.Resource + " " + p.Action != s
}
fn NewAuthorizer(auditLog) {
	props C18
	ensures fresh(result) && authOK(result) && result.defaultTenant == "" && result.tenants != result.parentCache
	ensures forall t string: !(t in dom(result.tenants)) && !(t in dom(result.roleDAG.roles)) && !(t in dom(result.roleDAG.edges))
	ensures len(result.userRoles) == 0
}
