#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo: the obligations have to be discharged on each.
usage: refactorings.py [name ...]   (works on copies under /tmp, leaves /repo alone)"""
import os, re, shutil, subprocess, sys
GOVC = os.environ.get("GOVC", "/verif/bin/govc")
R = {}
def r(name, props, *edits): R[name] = (props.split(), edits)

r("v2-find-tenants-helper", "C01 C03 C15 C16",
  ("v2/v2.go", '''		tenantBuffer[0] = tenant
		tenantCount = 1
		targetTenants = tenantBuffer[:tenantCount]
	}
	return targetTenants, true
}
''', '''		targetTenants = singleTenant(tenant)
	}
	return targetTenants, true
}

func singleTenant(tenant *Tenant) []*Tenant {
	return []*Tenant{tenant}
}
'''))
r("v2-find-tenants-plain", "C01 C03",
  ("v2/v2.go", '''	var tenantBuffer [10]*Tenant
	var targetTenants []*Tenant
	tenantCount := 0
	if request.Tenant == "" {
		tenants := a.findPrincipalTenants(request.Principal)
		tenantCount = len(tenants)
		if tenantCount <= len(tenantBuffer) {
			copy(tenantBuffer[:], tenants)
			targetTenants = tenantBuffer[:tenantCount]
		} else {
			targetTenants = tenants
		}
	} else {
		tenant, exists := a.tenants[request.Tenant]
		if !exists {
			return nil, false
		}
		tenantBuffer[0] = tenant
		tenantCount = 1
		targetTenants = tenantBuffer[:tenantCount]
	}
	return targetTenants, true
''', '''	if request.Tenant == "" {
		return a.findPrincipalTenants(request.Principal), true
	}
	tenant, exists := a.tenants[request.Tenant]
	if !exists {
		return nil, false
	}
	return []*Tenant{tenant}, true
'''))
r("v2-grant-helper", "C01 C02 C03 C15 C16",
  ("v2/v2.go", '''		for permission := range permissions {
			if matchPermission(permission, request) {
				a.Log(slog.LevelWarn, request, "Authorization granted")
				return true
			}
		}
''', '''		if anyMatch(permissions, request) {
			a.Log(slog.LevelWarn, request, "Authorization granted")
			return true
		}
'''),
  ("v2/v2.go", '''func matchPermission(''', '''func anyMatch(permissions map[string]struct{}, request Request) bool {
	for permission := range permissions {
		if matchPermission(permission, request) {
			return true
		}
	}
	return false
}

func matchPermission('''))
r("v2-applies-helper", "C01 C02 C03 C15 C16",
  ("v2/v2.go", '''			if userRole.Principal != userID || userRole.Tenant != current.ID {
				continue
			}
			if userRole.IsExpired() {
				continue
			}
			if userRole.Namespace == "" || userRole.Namespace == namespace {
				permissions''', '''			if !appliesTo(userRole, userID, current.ID) {
				continue
			}
			if userRole.Namespace == "" || userRole.Namespace == namespace {
				permissions'''),
  ("v2/v2.go", '''func matchPermission(''', '''func appliesTo(ur *PrincipalRole, userID, tenantID string) bool {
	return ur.Principal == userID && ur.Tenant == tenantID && !ur.IsExpired()
}

func matchPermission('''))
r("v2-scope-switch", "C01 C02",
  ("v2/v2.go", '''				if userRole.Scope == scopeName {
					for perm := range permissions {
						scopedPermissions[perm] = struct{}{}
					}
				} else if userRole.Scope == "" {
					for perm := range permissions {
						globalPermissions[perm] = struct{}{}
					}
				}
''', '''				var target map[string]struct{}
				switch userRole.Scope {
				case scopeName:
					target = scopedPermissions
				case "":
					target = globalPermissions
				default:
					continue
				}
				for perm := range permissions {
					target[perm] = struct{}{}
				}
'''))
r("v2-child-early", "C01 C02",
  ("v2/v2.go", '''		for _, userRole := range a.userRoles {
			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
				for _, child := range current.ChildTenants {
					if err := traverse(child); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}
	if err := traverse(tenant); err != nil {
		return nil, err
	}
	if len(scopedPermissions)''', '''		manages := false
		for _, userRole := range a.userRoles {
			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
				manages = true
				break
			}
		}
		if !manages {
			return nil
		}
		for _, child := range current.ChildTenants {
			if err := traverse(child); err != nil {
				return err
			}
		}
		return nil
	}
	if err := traverse(tenant); err != nil {
		return nil, err
	}
	if len(scopedPermissions)'''))
r("v2-remove-helper", "C05",
  ("v2/v2.go", '''	updatedRoles := make([]*PrincipalRole, len(a.userRoles))
''', ''''''),
  ("v2/v2.go", '''	j := 0
	for _, ur := range a.userRoles {
		if matches(ur) {
			rolesRemoved = true
			continue
		}
		updatedRoles[j] = ur
		j++
	}
	updatedRoles = updatedRoles[:j]
''', '''	updatedRoles := make([]*PrincipalRole, 0, len(a.userRoles))
	for i := 0; i < len(a.userRoles); i++ {
		ur := a.userRoles[i]
		if matches(ur) {
			rolesRemoved = true
		} else {
			updatedRoles = append(updatedRoles, ur)
		}
	}
'''))
r("v2-matches-fn", "C05",
  ("v2/v2.go", '''		if target.Principal != "" && pr.Principal != target.Principal {
			return false
		}
		if target.Tenant != "" && pr.Tenant != target.Tenant {
			return false
		}
		if target.Namespace != "" && pr.Namespace != target.Namespace {
			return false
		}
		if target.Scope != "" && pr.Scope != target.Scope {
			return false
		}
		if target.Role != "" && pr.Role != target.Role {
			return false
		}
		return true
''', '''		return matchesField(target.Principal, pr.Principal) &&
			matchesField(target.Tenant, pr.Tenant) &&
			matchesField(target.Namespace, pr.Namespace) &&
			matchesField(target.Scope, pr.Scope) &&
			matchesField(target.Role, pr.Role)
'''),
  ("v2/v2.go", '''func matchPermission(''', '''func matchesField(want, got string) bool { return want == "" || want == got }

func matchPermission('''))
r("v2-dag-rename", "C02 C04 C16",
  ("v2/role.go", '''checkCircularDependency(parent, child...); err''', '''wouldCycle(parent, child); err'''),
  ("v2/role.go", '''checkCircularDependency(parent string, children ...string) error''', '''wouldCycle(parent string, children []string) error'''))
r("v2-dag-method", "C04 C16",
  ("v2/role.go", '''	visited := make(map[string]bool)
	var dfs func(string) bool
	dfs = func(role string) bool {
		if role == parent {
			return true
		}
		if visited[role] {
			return false
		}
		visited[role] = true
		for _, child := range dag.edges[role] {
			if dfs(child) {
				return true
			}
		}
		return false
	}
	for _, child := range children {
		if dfs(child) {
''', '''	visited := make(map[string]bool)
	for _, child := range children {
		if dag.reaches(child, parent, visited) {
'''),
  ("v2/role.go", '''// ResolvePermissions to''', '''func (dag *RoleDAG) reaches(role, parent string, visited map[string]bool) bool {
	if role == parent {
		return true
	}
	if visited[role] {
		return false
	}
	visited[role] = true
	for _, child := range dag.edges[role] {
		if dag.reaches(child, parent, visited) {
			return true
		}
	}
	return false
}

// ResolvePermissions to'''))
r("v2-resolve-helper", "C02 C16",
  ("v2/role.go", '''		role.m.RLock()
		for perm := range role.Permissions {
			result[perm] = struct{}{}
		}
		role.m.RUnlock()
''', '''		role.collect(result)
'''),
  ("v2/role.go", '''func (r *Role) RemovePermission''', '''func (r *Role) collect(into map[string]struct{}) {
	r.m.RLock()
	defer r.m.RUnlock()
	for perm := range r.Permissions {
		into[perm] = struct{}{}
	}
}

func (r *Role) RemovePermission'''))
r("v2-resolve-nested", "C02",
  ("v2/role.go", '''		role, exists := dag.roles[current]
		if !exists {
			continue
		}
		role.m.RLock()
		for perm := range role.Permissions {
			result[perm] = struct{}{}
		}
		role.m.RUnlock()
		queue = append(queue, dag.edges[current]...)
''', '''		if role, exists := dag.roles[current]; exists {
			role.m.RLock()
			for perm := range role.Permissions {
				result[perm] = struct{}{}
			}
			role.m.RUnlock()
			queue = append(queue, dag.edges[current]...)
		}
'''))
r("v2-namespace-flip", "C01 C03 C06",
  ("v2/v2.go", '''	if namespace == "" {
		if tenant.DefaultNS != "" {
			namespace = tenant.DefaultNS
		} else if len(tenant.Namespaces) == 1 {
			for ns := range tenant.Namespaces {
				namespace = ns
				break
			}
		} else {
			return "", false
		}
	}
	ns, exists''', '''	if namespace == "" {
		switch {
		case tenant.DefaultNS != "":
			namespace = tenant.DefaultNS
		case len(tenant.Namespaces) != 1:
			return "", false
		default:
			for ns := range tenant.Namespaces {
				namespace = ns
			}
		}
	}
	ns, exists'''))
r("match-cursor", "C07",
  ("utils/str.go", '''				for endIndex < pLen && pattern[endIndex] != '/' && pattern[endIndex] != ' ' {
					endIndex++
				}
				// Skip the parameter segment in the value
				for vIndex < vLen && value[vIndex] != '/' && value[vIndex] != ' ' {
					vIndex++
				}
''', '''				endIndex = segmentEnd(pattern, endIndex)
				// Skip the parameter segment in the value
				vIndex = segmentEnd(value, vIndex)
'''),
  ("utils/str.go", '''func MatchResource(''', '''// segmentEnd returns the index of the first '/' or ' ' at or after from
func segmentEnd(s string, from int) int {
	for from < len(s) && s[from] != '/' && s[from] != ' ' {
		from++
	}
	return from
}

func MatchResource('''))
r("match-rename", "C07",
  ("utils/str.go", "re:\\bvIndex\\b", "vi"), ("utils/str.go", "re:\\bpIndex\\b", "pi"), ("utils/str.go", "re:\\bretryIndex\\b", "retry"), ("utils/str.go", "re:\\bstarIndex\\b", "star"))
r("utils-contains-index", "C19 C09",
  ("utils/str.go", '''	for _, v := range slice {
		if v == elem {
			return true
		}
	}
	return false
}''', '''	for i := 0; i < len(slice); i++ {
		if slice[i] == elem {
			return true
		}
	}
	return false
}'''))
r("utils-compact", "C19 C10",
  ("utils/str.go", '''		if _, exists := keys[item]; !exists {
			keys[item] = struct{}{}
			result = append(result, item)
		}
''', '''		if _, seen := keys[item]; seen {
			continue
		}
		keys[item] = struct{}{}
		result = append(result, item)
'''))
r("utils-filter", "C19 C10",
  ("utils/filters.go", '''		if IsNil(field(row)) || !Match(field(row), field(filter)) {
			return false
		}
''', '''		value := field(row)
		if value == nil || value != field(filter) {
			return false
		}
'''))
r("trie-first", "C08 C10",
  ("trie/trie.go", '''	results := make([]*T, 0, 10)
''', '''	var results []*T
'''),
  ("trie/trie.go", '''	resultCount := 0
''', ''''''),
  ("trie/trie.go", '''			resultCount++
			if len(results) == cap(results) {
				newResults := make([]*T, len(results), 2*cap(results))
				copy(newResults, results)
				results = newResults
			}
''', ''''''),
  ("trie/trie.go", '''results[:resultCount]''', '''results'''))
r("trie-insert-helper", "C08 C10",
  ("trie/trie.go", '''	for _, key := range keys {
		if key == nil {
			key = absent{}
		}
		child, _ := node.addChild(key)
		node = child
	}
''', '''	for _, key := range keys {
		node, _ = node.addChild(pathKey(key))
	}
'''),
  ("trie/trie.go", '''func (t *Trie[T]) Insert''', '''func pathKey(key any) any {
	if key == nil {
		return absent{}
	}
	return key
}

func (t *Trie[T]) Insert'''))
r("trie-dfs-foreach", "C08 C10",
  ("trie/trie.go", '''		for _, child := range node.child.Values() {
			if dfs(child) {
				return true
			}
		}
		return false
	}
	dfs(t.root)''', '''		found := false
		node.child.ForEach(func(_ any, child *Node[T]) bool {
			found = dfs(child)
			return !found
		})
		return found
	}
	dfs(t.root)'''))
r("root-has-helper", "C11 C09 C20",
  ("role.go", '''	if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
		return true
	}
	matched := false
	resourceGroupPermissions.permissions.ForEach(func(perm string, _ *Attribute) bool {
		if utils.MatchResource(permissionName, perm) {
			matched = true
			return false
		}
		return true
	})
	if matched {
		return true
	}
	totalD := len(allowedDescendants)
	// Check inherited permissions recursively
	for _, descendant := range r.GetDescendantRoles() {
		if totalD > 0 {
			if slices.Contains(allowedDescendants, descendant.id) {
				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
					return true
				}
			}
		} else {
			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
				return true
			}
		}
	}
	return false
''', '''	if resourceGroupPermissions.allows(permissionName) {
		return true
	}
	// Check inherited permissions recursively
	for _, descendant := range r.GetDescendantRoles() {
		if len(allowedDescendants) > 0 && !slices.Contains(allowedDescendants, descendant.id) {
			continue
		}
		if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
			return true
		}
	}
	return false
'''),
  ("role.go", '''// Role represents''', '''func (a *AttributeGroup) allows(permissionName string) bool {
	if _, ok := a.permissions.Get(permissionName); ok {
		return true
	}
	matched := false
	a.permissions.ForEach(func(perm string, _ *Attribute) bool {
		matched = utils.MatchResource(permissionName, perm)
		return !matched
	})
	return matched
}

// Role represents'''))
r("root-auth-flags", "C09",
  ("authorize.go", '''	if len(userRoles) == 0 {
		return false
	}
	if !u.validateResources(svr) {
		return false
	}
''', '''	if len(userRoles) == 0 || !u.validateResources(svr) {
		return false
	}
'''),
  ("authorize.go", '''		if canManage, ok := rs.ManageDescendants.(bool); !ok || !canManage {
			continue
		}
		if !utils.Contains(u.TenantChildren(rs.Tenant.(string)), requested) {
			continue
		}
		svr.tenant = rs.Tenant
''', '''		if !u.managesTenant(rs, requested) {
			continue
		}
		svr.tenant = rs.Tenant
'''),
  ("authorize.go", '''func (u *RoleManager) authorize(''', '''func (u *RoleManager) managesTenant(d *Data, tenant any) bool {
	canManage, ok := d.ManageDescendants.(bool)
	return ok && canManage && utils.Contains(u.TenantChildren(d.Tenant.(string)), tenant)
}

func (u *RoleManager) authorize('''))
r("root-auth-inline", "C09",
  ("authorize.go", '''	if noActivity {
		return u.checkNoActivity(principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided)
	}
	return u.checkActivity(principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided)
''', '''	if !noActivity {
		return u.checkActivity(principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided)
	}
	return u.checkNoActivity(principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided)
'''),
  ("authorize.go", '''	if svr.activityGroup == nil {
		return false
	}

	if svr.activity == nil {
		return false
	}

	if tFlagProvided {
		roles, allowedRoles = u.collectRoles(principalID, svr.tenant)
	}
	if tnFlagProvided {
		roles, allowedRoles = u.collectRolesByTenantAndNamespace(principalID, svr.tenant, svr.namespace)
	}
	if tsFlagProvided {
		roles, allowedRoles = u.collectRolesByTenantAndScope(principalID, svr.tenant, svr.scope)
	}
	if nsFlagProvided {
		roles, allowedRoles = u.collectRolesByNamespaceAndScope(principalID, svr.namespace, svr.scope)
	}
	if tnsFlagProvided {
''', '''	if svr.activityGroup == nil || svr.activity == nil {
		return false
	}

	switch {
	case tFlagProvided:
		roles, allowedRoles = u.collectRoles(principalID, svr.tenant)
	case tnFlagProvided:
		roles, allowedRoles = u.collectRolesByTenantAndNamespace(principalID, svr.tenant, svr.namespace)
	case tsFlagProvided:
		roles, allowedRoles = u.collectRolesByTenantAndScope(principalID, svr.tenant, svr.scope)
	case nsFlagProvided:
		roles, allowedRoles = u.collectRolesByNamespaceAndScope(principalID, svr.namespace, svr.scope)
	case tnsFlagProvided:
'''))
r("root-collect-helper", "C09",
  ("authorize.go", '''	for _, d := range u.GetRolesByTenant(tenant) {
		if d.Role != nil {
			allowedRoles = append(allowedRoles, d.Role.(string))
		}
	}
	for _, d := range u.GetRolesForPrincipalByTenantAndNamespace(''', '''	allowedRoles = u.tenantRoleIDs(tenant)
	for _, d := range u.GetRolesForPrincipalByTenantAndNamespace('''),
  ("authorize.go", '''	for _, d := range u.GetRolesByTenant(tenant) {
		if d.Role != nil {
			allowedRoles = append(allowedRoles, d.Role.(string))
		}
	}
	for _, d := range u.GetRolesForPrincipalByTenantAndScope(''', '''	allowedRoles = u.tenantRoleIDs(tenant)
	for _, d := range u.GetRolesForPrincipalByTenantAndScope('''),
  ("authorize.go", '''func (u *RoleManager) collectRoles(''', '''func (u *RoleManager) tenantRoleIDs(tenant any) (ids []string) {
	for _, d := range u.GetRolesByTenant(tenant) {
		if d.Role != nil {
			ids = append(ids, d.Role.(string))
		}
	}
	return
}

func (u *RoleManager) collectRoles('''))
r("root-query-wrapper", "C10",
  ("query.go", '''	results := u.search(filter, filterFunc)
	for _, result := range results {
		data = append(data, extractFunc(result))
	}
	return utils.Compact(data)
''', '''	results := u.search(filter, filterFunc)
	values := make([]any, 0, len(results))
	for i := range results {
		values = append(values, extractFunc(results[i]))
	}
	return utils.Compact(values)
'''),
  ("query.go", '''		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {
			for _, desc := range u.TenantChildren(tenantID) {
				if desc != nil {
					existingTenant[desc.(string)] = struct{}{}
				}
			}
		}
''', '''		canManage, ok := rs.ManageDescendants.(bool)
		if !ok || !canManage {
			continue
		}
		for _, desc := range u.TenantChildren(tenantID) {
			if desc == nil {
				continue
			}
			existingTenant[desc.(string)] = struct{}{}
		}
'''))
r("root-tenant-cycle", "C20 C10",
  ("tenant.go", '''	found := c == t
	c.descendants.ForEach(func(_ string, child *Tenant) bool {
		found = found || child.isOrHasDescendant(t)
		return !found
	})
	return found
''', '''	if c == t {
		return true
	}
	found := false
	c.descendants.ForEach(func(_ string, child *Tenant) bool {
		if child.isOrHasDescendant(t) {
			found = true
			return false
		}
		return true
	})
	return found
'''))
r("root-record-helper", "C10",
  ("tenant.go", '''	c.manager.AddData(&Data{Tenant: c.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
	if c.defaultNamespace != nil {
		c.manager.AddData(&Data{Tenant: c.id, Namespace: c.defaultNamespace.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
	}
	return nil
''', '''	c.record(Data{Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
	return nil
'''),
  ("tenant.go", '''func (c *Tenant) AddPrincipal(''', '''// record stores d for the tenant and, if it has one, for its default namespace
func (c *Tenant) record(d Data) {
	d.Tenant = c.id
	row := d
	c.manager.AddData(&row)
	if c.defaultNamespace == nil {
		return
	}
	inNamespace := d
	inNamespace.Namespace = c.defaultNamespace.id
	c.manager.AddData(&inNamespace)
}

func (c *Tenant) AddPrincipal('''))
r("root-register-generic", "C14",
  ("tenant.go", '''	data.manager = u
	if d, ok := u.tenants.Get(data.id); ok {
		return d
	}
	u.tenants.Set(data.id, data)
	return data
''', '''	data.manager = u
	existing, ok := u.tenants.Get(data.id)
	if !ok {
		u.tenants.Set(data.id, data)
		return data
	}
	return existing
'''))
r("v1-roles-helper", "C12 C13",
  ("v1/role_manager.go", '''func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []TenantPrincipal) {
	for unmarshalled := range u.tenantPrincipals {
		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
			data = append(data, unmarshalled)
		}
	}
	return
}
''', '''func (u *RoleManager) selectRoles(keep func(TenantPrincipal) bool) (data []TenantPrincipal) {
	for tp := range u.tenantPrincipals {
		if keep(tp) {
			data = append(data, tp)
		}
	}
	return
}

func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []TenantPrincipal) {
	return u.selectRoles(func(tp TenantPrincipal) bool {
		return tp.PrincipalID == principalID && tp.TenantID == tenant
	})
}
'''))
r("v1-auth-merge", "C13",
  ("v1/role_manager.go", '''	roles := make(map[string]*Role)
	for _, r := range roleIDs {
		if role, ex := u.roles.Get(r); ex {
			roles[r] = role
		}
	}
	for _, role := range roles {
		if role.Has("", activity, roleIDs...) {
			return true
		}
	}

	return false
''', '''	for _, r := range roleIDs {
		role, ok := u.roles.Get(r)
		if ok && role.Has("", activity, roleIDs...) {
			return true
		}
	}
	return false
'''))
r("v1-complex-merge", "C13",
  ("v1/role_manager.go", """	roles := make(map[string]*Role)
	for _, r := range principalRoles {
		if role, ex := u.roles.Get(r.RoleID); ex {
			roles[r.RoleID] = role
		}
	}
	allowedRoles := u.GetAllowedRoles(principalRoles, namespace, scope)
	allowedRoleIDs := u.getAllowedRoleIDs(tenant, allowedRoles)
	for _, role := range roles {
		if role.Has(resourceGroup, activity, allowedRoleIDs...) {
			return true
		}
	}
""", """	allowedRoles := u.getAllowedRoleIDs(tenant, u.GetAllowedRoles(principalRoles, namespace, scope))
	for _, r := range principalRoles {
		role, ok := u.roles.Get(r.RoleID)
		if ok && role.Has(resourceGroup, activity, allowedRoles...) {
			return true
		}
	}
"""))
r("v1-scope-helper", "C13",
  ("v1/role_manager.go", '''				principalRoles := u.GetPrincipalRoles(tenant.id, principalID)
				for _, t := range principalRoles {
					if t.ScopeID == scope {
						return true
					}
				}
''', '''				if u.holdsScope(tenant.id, principalID, scope) {
					return true
				}
'''),
  ("v1/role_manager.go", '''func (u *RoleManager) authorizeForActivity''', '''func (u *RoleManager) holdsScope(tenantID, principalID, scope string) bool {
	for _, r := range u.GetPrincipalRoles(tenantID, principalID) {
		if r.ScopeID == scope {
			return true
		}
	}
	return false
}

func (u *RoleManager) authorizeForActivity'''))
r("v1-allowed-noloop", "C13 C15",
  ("v1/role_manager.go", '''		for _, modRole := range namespaceRoles {
			allowedRoles = append(allowedRoles, modRole)
		}
''', '''		allowedRoles = append(allowedRoles, namespaceRoles...)
'''))
r("v1-tenant-default", "C12",
  ("v1/tenant.go", '''	for _, role := range roles {
		if _, ok := c.roles.Get(role); ok {
			c.AddPrincipalRole(principal, role, c, nil, nil)
			if c.defaultNamespace != nil {
				c.AddPrincipalRole(principal, role, c, c.defaultNamespace, nil)
			}
		}
	}
''', '''	for _, role := range roles {
		if _, ok := c.roles.Get(role); !ok {
			continue
		}
		c.AddPrincipalRole(principal, role, c, nil, nil)
		if c.defaultNamespace == nil {
			continue
		}
		c.AddPrincipalRole(principal, role, c, c.defaultNamespace, nil)
	}
'''))
r("ds-append", "C17",
  ("ds/ds.go", '''	slice := a.next.AsSlice()
	return append(slice, a.element)
''', '''	return append(a.next.AsSlice(), a.element)
'''),
  ("ds/ds.go", '''	slice := c.left.AsSlice()
	return append(slice, c.right.AsSlice()...)
''', '''	left, right := c.left.AsSlice(), c.right.AsSlice()
	out := make([]A, 0, len(left)+len(right))
	out = append(out, left...)
	out = append(out, right...)
	return out
'''))
r("ds-append-loop", "C17",
  ("ds/ds.go", '''	slice := c.left.AsSlice()
	return append(slice, c.right.AsSlice()...)
''', '''	slice := c.left.AsSlice()
	for _, element := range c.right.AsSlice() {
		slice = append(slice, element)
	}
	return slice
'''))
r("v2-ns-nested", "C18 C16",
  ("v2/role.go", '''	ns, exists := t.Namespaces[namespace]
	if !exists {
		return fmt.Errorf("namespace %s does not exist in tenant %s", namespace, t.ID)
	}
	for _, scope := range scopes {
		ns.Scopes[scope.ID] = scope
	}
	t.Namespaces[namespace] = ns
	return nil
''', '''	if ns, exists := t.Namespaces[namespace]; exists {
		for i := range scopes {
			ns.Scopes[scopes[i].ID] = scopes[i]
		}
		return nil
	}
	return fmt.Errorf("namespace %s does not exist in tenant %s", namespace, t.ID)
'''))
r("v2-user-role-helper", "C05 C16 C03",
  ("v2/v2.go", '''		a.userRoles = append(a.userRoles, ur)
		if a.userRoleMap[ur.Principal] == nil {
			a.userRoleMap[ur.Principal] = make(map[string][]*PrincipalRole)
		}
		a.userRoleMap[ur.Principal][ur.Tenant] = append(a.userRoleMap[ur.Principal][ur.Tenant], ur)
	}
''', '''		a.userRoles = append(a.userRoles, ur)
		a.index(ur)
	}
'''),
  ("v2/v2.go", '''func (a *Authorizer) RemovePrincipalRole''', '''func (a *Authorizer) index(ur *PrincipalRole) {
	byTenant, ok := a.userRoleMap[ur.Principal]
	if !ok {
		byTenant = make(map[string][]*PrincipalRole)
		a.userRoleMap[ur.Principal] = byTenant
	}
	byTenant[ur.Tenant] = append(byTenant[ur.Tenant], ur)
}

func (a *Authorizer) RemovePrincipalRole'''))

def run(name):
    props, edits = R[name]
    d = "/tmp/rf-" + name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    for f, old, new in edits:
        p = d + "/" + f
        s = open(p).read()
        if old.startswith("re:"):
            assert re.search(old[3:], s), (name, f)
            s = re.sub(old[3:], new, s)
        else:
            assert old in s, (name, f, old)
            s = s.replace(old, new)
        open(p, "w").write(s)
    b = subprocess.run("go vet . ./v1 ./v2 ./trie ./utils ./ds && go test ./... 2>&1", shell=True, cwd=d, capture_output=True, text=True)
    out = []
    if b.returncode:
        out.append("BUILD/TEST: " + b.stdout[-600:] + b.stderr[-600:])
    else:
        for p in props:
            g = subprocess.run([GOVC, "-repo", d, "-prop", p], capture_output=True, text=True)
            last = g.stdout.strip().split("\n")[-1]
            out.append("%-26s %s" % (name, last))
            if g.returncode:
                unit = ""
                for l in g.stdout.split("\n"):
                    if re.match(r"^(function|lemma|interface) ", l): unit = l
                    if "   FAIL" in l:
                        out.append("      " + unit.split(":")[0][:90] + " | " + l.strip()[:230])
    if not os.environ.get("KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    print("\n".join(out), flush=True)

for n in (sys.argv[1:] or list(R)):
    run(n)
