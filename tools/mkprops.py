#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","v2: Authorize grants exactly what the principal's current assignments confer",
"In package v2, Authorize returns true if and only if, for some target tenant (the named one; else the default tenant; else every active tenant in which the principal holds an assignment), the tenant has the requested namespace (else its default one, else its only one), that namespace has the requested scope when one is given, and some permission of the principal's effective assignments matches \"<resource> <action>\". Effective assignments are the principal's unexpired ones with an empty or equal namespace in that tenant, or in child tenants reached downwards through tenants where the principal holds an unexpired assignment with child-tenant management; those whose scope equals the requested scope decide, and scope-less ones count only when the former yield no permission at all. Unknown tenants, namespaces or scopes, other principals' or other tenants' assignments, and requests with empty resource and action never lead to a grant.",
["inputs","histories","configurations"],"every authorizer state built through the API and every request",
"Seven sampled requests against one role and one tenant; no child tenants, no scoped assignment, no expiry, no second principal.",
["v2/v2.go","v2/role.go","utils/str.go"],
[("Authorizer.Authorize","v2/v2.go"),("Authorizer.resolvePrincipalPermissions","v2/v2.go"),("Authorizer.findTargetTenants","v2/v2.go"),("RoleDAG.ResolvePermissions","v2/role.go"),("MatchResource","utils/str.go")],
[("userRoles","all assignments","v2/v2.go Authorizer"),("tenants","registered tenants","v2/v2.go Authorizer")],["return value of Authorizer.Authorize"])

p("C02","v2: Can is true exactly when the principal holds one of the given roles",
"In package v2, Can(request, roles...) returns true if and only if, for some target tenant chosen as for Authorize whose requested (or default, or only) namespace exists and contains the requested scope if one is given, one of the given role names is a role of an unexpired assignment of that principal (with empty or equal namespace, in that tenant or in child tenants reached through child-tenant management) or a registered role inherited from such a role. Assignments of other principals, other tenants, other namespaces or expired ones never make it true.",
["inputs","histories","configurations"],"every authorizer state, request and role list",
"No existing test calls Can.",
["v2/v2.go","v2/role.go"],
[("Authorizer.Can","v2/v2.go"),("Authorizer.resolvePrincipalRoles","v2/v2.go"),("RoleDAG.ResolveChildRoles","v2/role.go")],None,["return value of Authorizer.Can"])

p("C03","v2: an expired assignment confers nothing and expiry is set faithfully",
"In package v2 an assignment is expired exactly when it has an expiry instant and the current time is after it; an expired assignment never contributes a permission, a role, or access to child tenants in Authorize or Can. SetExpiry refuses past instants with an error and changes nothing, otherwise stores exactly that instant; SetExpiryDuration either returns an error and changes nothing or sets now plus the duration; ClearExpiry removes the expiry.",
["inputs","histories"],"every assignment, instant, duration value and request",
"No existing test sets an expiry.",
["v2/v2.go"],
[("PrincipalRole.IsExpired","v2/v2.go"),("PrincipalRole.SetExpiry","v2/v2.go"),("PrincipalRole.SetExpiryDuration","v2/v2.go"),("resolvePrincipalPermissions","v2/v2.go"),("resolvePrincipalRoles","v2/v2.go")],
[("Expiry","expiry instant or nil","v2/v2.go PrincipalRole")])

p("C04","v2: role inheritance stays acyclic and only cycles are refused",
"In package v2, AddChildRole(parent, children...) returns an error if and only if adding those edges would create an inheritance cycle (a child is the parent itself or already inherits, directly or transitively, from a role leading back to the parent); on error the hierarchy is unchanged, on success exactly those edges are added. Consequently the role hierarchy is acyclic after every sequence of calls.",
["histories","inputs"],"every sequence of AddChildRole calls on any role graph",
"The only 'circular' test builds an empty authorizer and never calls AddChildRole.",
["v2/role.go","v2/init.go"],
[("RoleDAG.AddChildRole","v2/role.go"),("RoleDAG.checkCircularDependency","v2/role.go")],
[("edges","direct inheritance","v2/role.go RoleDAG")])

p("C05","v2: role resolution always reflects the current roles and edges",
"In package v2, ResolvePermissions(role) returns exactly the union of the current permissions of every registered role reachable from that role by inheritance through registered roles, and ResolveChildRoles(role) exactly the names of those roles, whatever calls were made before. In particular a permission added to or removed from a role, a role registered later, or an inheritance edge added later is visible in the next resolution, and the two kinds of resolution never influence each other.",
["histories","inputs"],"every history of role, permission and edge changes interleaved with resolutions",
"Tests resolve once per authorizer and never change a role afterwards.",
["v2/role.go"],
[("RoleDAG.ResolvePermissions","v2/role.go"),("RoleDAG.ResolveChildRoles","v2/role.go"),("Role.AddPermission/RemovePermission","v2/role.go"),("RoleDAG.AddRole","v2/role.go")],
[("roles","registered roles","v2/role.go RoleDAG"),("Permissions","patterns of a role","v2/entities.go Role")])

p("C06","v2: adding and removing assignments affects exactly the named assignments",
"In package v2, AddPrincipalRole records every given assignment and leaves all earlier ones in place. RemovePrincipalRole(target) removes every assignment that agrees with all non-empty fields (principal, tenant, namespace, scope, role) of target and no other; if none agrees it returns an error and changes nothing.",
["histories","inputs"],"every list of assignments and every removal target",
"No existing test removes an assignment.",
["v2/v2.go"],
[("Authorizer.AddPrincipalRole","v2/v2.go"),("Authorizer.RemovePrincipalRole","v2/v2.go")],
[("userRoles","all assignments","v2/v2.go Authorizer")])

p("C07","Resource patterns match exactly the strings they denote, and matching terminates",
"MatchResource(value, pattern) terminates for every pair of strings and returns true if and only if the whole value is generated by the pattern, where '*' stands for any (possibly empty) text, ':' together with the characters following it up to the next '/' or ' ' stands for a non-empty text containing neither '/' nor ' ', and every other character stands for itself. In particular a parameter never spans a path segment or the action that follows the resource.",
["inputs"],"every value string and every pattern string",
"Tests use one literal pattern; no wildcard or parameter pattern is ever matched.",
["utils/str.go"],[("MatchResource","utils/str.go")],None,["return value of utils.MatchResource"])

p("C08","Trie stores every distinct record and search returns exactly the matching ones",
"After any sequence of inserts, the trie holds for every distinct key tuple (absent keys included as such) exactly the record inserted last with that tuple; records with different tuples never displace each other. Data returns all held records, Search/SearchFunc exactly those accepted by the match function, and First/FirstFunc one of them, or nil if and only if there is none.",
["histories","inputs"],"every sequence of inserts and every filter",
"The trie has only a benchmark and no assertion.",
["trie/trie.go","filters.go"],[("Trie.Insert","trie/trie.go"),("Trie.search","trie/trie.go"),("DataKeyExtractor","filters.go")],
[("root/child/isEnd/data","stored records","trie/trie.go Node")])

p("C09","Root package: Authorize never crosses principal or tenant boundaries",
"In the root package, with string identifiers, Authorize grants nothing to unregistered principals or for unregistered tenant, namespace or scope values. A request naming a tenant is decided from the principal's records in that tenant and in those tenants in which the principal holds a record with descendant management and of which the named tenant is a (transitive) descendant, and from no other tenant; it is granted if and only if one of them grants it. Without an activity and group a tenant grants if the principal has a record in it and, where a namespace or scope is named, if a record of that tenant belonging to the principal or to nobody carries it (a scope only with no other namespace than the named one); with an activity and group it grants if and only if a registered role the principal holds in it, recorded with no other namespace or scope than the named ones, has a matching permission in that group, itself or through inherited roles recorded in that tenant. A request without a tenant needs a namespace and a scope and is decided in the same way over the tenants in which the principal has records.",
["histories","inputs","configurations"],"every role manager state built through the API and every option combination",
"No existing test asserts anything about the root package (only a benchmark).",
["authorize.go","query.go","filters.go","role.go"],
[("RoleManager.Authorize","authorize.go"),("RoleManager.checkActivity","authorize.go"),("RoleManager.checkNoActivity","authorize.go"),("RoleManager.GetImplicitTenants","query.go"),("filterRoleForPrincipal*","filters.go")])

p("C10","Root package: record queries return exactly the records they name",
"In the root package every query by principal, tenant, namespace or scope returns exactly the stored records whose corresponding fields equal the queried values (scope/namespace queries for a principal also include tenant-level records without a principal), always computed from the current records: assignments, descendants or scopes added later are visible in the next query.",
["histories","inputs"],"every record history and every query argument",
"No existing test calls a root-package query.",
["query.go","filters.go","role_manager.go"],
[("RoleManager.search","query.go"),("filter functions","filters.go"),("GetImplicitTenants","query.go"),("TenantChildren","role_manager.go")])

p("C11","Root and v1 roles: permission checks and locking are exact",
"In the root package and in v1, a role has a permission in an attribute group if and only if it carries that group and either one of its permission patterns in the group equals or matches the request, or one of its (transitive) inherited roles, restricted to the allowed roles when any are given, has it. Adding permissions, groups or inherited roles to a locked role returns an error and changes nothing; on an unlocked role it adds exactly the given ones and removes none. Listing a role's permissions returns exactly the attributes it carries in each of its groups, and the implicit listing those of the role and of all its inherited roles.",
["inputs","histories"],"every role hierarchy, pattern set, request and allowed-role list",
"Only v1 permission registration is exercised once; no permission check is asserted.",
["role.go","v1/role.go"],[("Role.Has","role.go, v1/role.go"),("Role.AddPermission","role.go, v1/role.go"),("Role.AddDescendant/AddDescendent","role.go, v1/role.go"),("GetDescendantRoles","role.go, v1/role.go"),("Role.GetPermissions/GetResourceGroupPermissions/GetAllImplicitPermissions","role.go, v1/role.go")])

p("C12","v1: assignments are stored and read back faithfully for all identifiers",
"In package v1, after any sequence of assignment calls the queries by tenant and/or principal return exactly the assignments recorded for those identifiers, with unchanged principal, role, tenant, namespace, scope and descendant-management values, whatever characters the identifiers contain. Distinct assignments never collide and none is ever attributed to another principal or tenant.",
["inputs","histories"],"every sequence of assignments with arbitrary identifier strings",
"Tests use identifiers made of letters only and one tenant.",
["v1/role_manager.go","v1/tenant.go"],[("RoleManager.AddPrincipalRole","v1/role_manager.go"),("RoleManager.GetPrincipalRoles","v1/role_manager.go"),("RoleManager.GetTenantRoles","v1/role_manager.go"),("RoleManager.GetTenantsForPrincipal","v1/role_manager.go")],
[("tenantPrincipals","set of assignments","v1/role_manager.go RoleManager")])

p("C13","v1: Authorize grants only through the principal's own assignments",
"In package v1, with string identifiers, Authorize grants nothing to unregistered principals. Without an activity or group it grants exactly: a tenant if it is registered and the principal holds an assignment in it; a namespace if a registered tenant in which the principal holds an assignment has it; a scope if the principal holds an assignment with that scope in a registered tenant that has it; a combination of tenant, namespace and scope if one of the principal's own assignments carries all named values (tenant, namespace and scope together also if the tenant assigned that scope to that namespace and the principal holds any assignment in the tenant). With an activity or group and a tenant it grants only if the tenant is registered, the named namespace and scope exist in it and a registered role the principal holds in that tenant has the activity in the group, itself or by inheritance, where inherited roles count only if they are among the principal's allowed roles for that tenant, namespace and scope (see below) if there are any; and it does grant whenever such a held role carries a matching permission itself or inherits it through allowed roles. A request that names an activity or group but no tenant (other than an activity alone), or names nothing, is decided as one for the tenant with the empty identifier. With only an activity it grants only through a registered role of one of the principal's assignments, and it does grant when a role assigned for a whole tenant (no namespace or scope), where all roles so assigned to the principal are the tenant's own, carries it itself. The allowed roles of a principal's assignments in a tenant for a namespace and scope are exactly the roles of the namespace, or where it has none those assigned for the whole tenant, and those assigned for exactly that namespace and scope; there are none if the tenant lacks the namespace or the scope, if the namespace has scopes but not this one, if no assignment is for the whole tenant or that scope, or if one of these roles is not the tenant's. Another principal's assignment never leads to a grant.",
["inputs","histories","configurations"],"every role manager state and option combination",
"One positive authorization by tenant is asserted; no denial is.",
["v1/role_manager.go","v1/role.go"],[("RoleManager.Authorize","v1/role_manager.go"),("RoleManager.GetAllowedRoles","v1/role_manager.go"),("authorizeFor*","v1/role_manager.go"),("authorizeComplex","v1/role_manager.go")])

p("C14","Registries: first registration wins, lookups are exact, nothing else changes",
"In the root package and in v1, registering a tenant, namespace, scope, principal, role, attribute or attribute group under an unused identifier makes lookup by that identifier return it; registering under a used identifier returns the earlier one and changes nothing. No registration affects any other entry or any other registry. A v1 tenant's own namespaces, roles and scopes behave the same way; scopes added to a tenant also enter its default namespace, and roles or scopes handed to one of its namespaces enter that namespace only, up to the first the tenant does not have.",
["histories","inputs"],"every sequence of registrations",
"Tests register one entity of each kind once.",
["activity.go","activity_group.go","namespace.go","permission.go","principal.go","scope.go","tenant.go","v1/role_manager.go","v1/tenant.go"],
[("RoleManager.Add*/Get*","root and v1"),("Tenant.Add*, SetDefaultNamespace, Namespace.Add*","v1/tenant.go")])

p("C15","Buffers taken from shared pools are never handed out or used after return",
"A map or slice that a call has put back into a shared pool is neither read, written nor returned by that call afterwards, so no result given to a caller can be changed by a later or concurrent call; slices come out of a pool empty, so no result depends on what earlier calls left in a buffer. This holds for the v2 authorization paths and for the v1 allowed-role computation.",
["inputs","schedules"],"every request and every interleaving with other requests",
"Single-threaded tests never reuse a returned buffer while another call runs.",
["v2/v2.go","v1/role_manager.go","utils/pool.go"],[("resolvePrincipalPermissions","v2/v2.go"),("resolvePrincipalRoles","v2/v2.go"),("GetAllowedRoles","v1/role_manager.go")])

p("C16","v2: shared state is only accessed under the lock that guards it",
"In package v2, every read of the authorizer's assignments, tenants and default tenant, of the role graph, of a role's permissions and of a tenant's namespaces and children by an exported operation happens while holding the guarding lock for reading or writing, and every modification while holding it for writing; every acquired lock is released on return. Exported operations may therefore be called concurrently without data races.",
["schedules"],"every interleaving of exported v2 operations",
"Tests are single-threaded.",
["v2/v2.go","v2/role.go","v2/init.go","v2/entities.go"],[("Authorizer.m","v2/v2.go"),("RoleDAG.mu","v2/role.go"),("Role.m, Tenant.m","v2/entities.go")])

p("C17","ds: persistent lists behave as lists",
"For every Link value, AsSlice returns the elements in order: the empty link gives none, Append(x) the old elements followed by x, Concat(other) the receiver's elements followed by other's; IsEmpty is true exactly when it was built without elements, and no operation changes an existing link.",
["inputs","histories"],"every list built from Empty, Append and Concat",
"The package has no tests.",
["ds/ds.go"],[("Link implementations","ds/ds.go")])

p("C18","v2: tenant structure operations change exactly what they name",
"In package v2, creating a tenant, adding namespaces, scopes, child tenants and registering tenants or roles makes exactly the named entity visible and keeps every existing one (re-adding a namespace keeps its scopes); the default namespace changes only when explicitly requested. Adding scopes to an unknown namespace returns an error and changes nothing.",
["histories","inputs"],"every sequence of structure operations",
"Tests create one tenant with one namespace and one scope.",
["v2/role.go","v2/entities.go","v2/init.go"],[("Tenant.AddNamespace","v2/role.go"),("Tenant.AddScopeToNamespace","v2/role.go"),("Tenant.AddChildTenant","v2/role.go"),("NewTenant","v2/entities.go"),("Authorizer.AddTenant","v2/init.go")])

p("C19","utils: collection helpers compute the sets they name",
"Compact keeps exactly the distinct values of its input, each once; Contains is membership; JoinSlices returns exactly the combinations of accepted pairs; FilterByFields accepts exactly rows whose every given field is non-nil and equal to the filter's.",
["inputs"],"every input slice",
"The package has no tests.",
["utils/str.go","utils/filters.go"],[("Compact","utils/str.go"),("Contains","utils/str.go"),("JoinSlices","utils/filters.go"),("FilterByFields","utils/filters.go")])

p("C20","Root and v1: role and tenant hierarchies stay acyclic, so checks terminate",
"In the root package and in v1, adding an inherited role or a descendant tenant that would make a role or tenant its own (transitive) descendant returns an error and leaves the hierarchy unchanged; every other addition succeeds (unless the role is locked). Hence permission checks and descendant listings terminate after every sequence of additions.",
["histories","inputs"],"every sequence of AddDescendant/AddDescendent calls",
"No existing test adds a descendant.",
["role.go","tenant.go","v1/role.go","v1/tenant.go"],[("Role.AddDescendant","role.go"),("Tenant.AddDescendant","tenant.go"),("Role.AddDescendent","v1/role.go"),("Tenant.AddDescendent","v1/tenant.go")])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
