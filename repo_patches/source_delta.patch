From 3056f13da80b0604e1011fdd8746927ffad9e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:55 +0000
Subject: [PATCH 01/27] fix: MatchResource loops forever or misses matches when
 '*' is not the last pattern character

---
 utils/str.go | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index fc3aced..7bfed75 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -34,32 +34,20 @@ func MatchResource(value, pattern string) bool {
 	vIndex, pIndex := 0, 0
 	vLen, pLen := len(value), len(pattern)
 
-	for pIndex < pLen {
-		if pattern[pIndex] == '*' {
+	// Where to resume after the last '*': the pattern index following it and
+	// the value index up to which it currently matches
+	starIndex, retryIndex := -1, 0
+
+	for pIndex < pLen || vIndex < vLen {
+		if pIndex < pLen && pattern[pIndex] == '*' {
 			// If '*' is the last character in the pattern, it matches everything
 			if pIndex == pLen-1 {
 				return true
 			}
 
-			// Find the next character in pattern after '*'
-			nextChar := pattern[pIndex+1]
-
-			// If the next character is '*', skip it
-			if nextChar == '*' {
-				pIndex++
-				continue
-			}
-
-			// Find the next occurrence of the character after '*' in the value
-			nextIndex := strings.IndexByte(value[vIndex:], nextChar)
-
-			// If the character is not found, no match
-			if nextIndex == -1 {
-				return false
-			}
-
-			// Move the value index to the next occurrence of the character
-			vIndex += nextIndex
+			// Let '*' match nothing first, it is extended on a later mismatch
+			pIndex++
+			starIndex, retryIndex = pIndex, vIndex
 		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
 			// If pattern part matches value part or is a parameter, move to the next parts
 			vIndex++
@@ -78,6 +66,10 @@ func MatchResource(value, pattern string) bool {
 				// Move pattern index to the end of the parameter segment
 				pIndex = endIndex
 			}
+		} else if starIndex >= 0 && retryIndex < vLen {
+			// Let the last '*' match one more character and try again
+			retryIndex++
+			pIndex, vIndex = starIndex, retryIndex
 		} else {
 			return false
 		}
-- 
2.43.0


From 9f45c678fc4d1fa37da994d5ae8312e7173ceb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:56 +0000
Subject: [PATCH 02/27] fix: MatchResource ':' parameters swallow the action
 and cross path segments

---
 utils/str.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index 7bfed75..c526972 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -48,7 +48,7 @@ func MatchResource(value, pattern string) bool {
 			// Let '*' match nothing first, it is extended on a later mismatch
 			pIndex++
 			starIndex, retryIndex = pIndex, vIndex
-		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
+		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':' && value[vIndex] != '/' && value[vIndex] != ' ') {
 			// If pattern part matches value part or is a parameter, move to the next parts
 			vIndex++
 			pIndex++
@@ -56,11 +56,11 @@ func MatchResource(value, pattern string) bool {
 			if pattern[pIndex-1] == ':' {
 				// Find the end of the parameter segment
 				endIndex := pIndex
-				for endIndex < pLen && pattern[endIndex] != '/' {
+				for endIndex < pLen && pattern[endIndex] != '/' && pattern[endIndex] != ' ' {
 					endIndex++
 				}
 				// Skip the parameter segment in the value
-				for vIndex < vLen && value[vIndex] != '/' {
+				for vIndex < vLen && value[vIndex] != '/' && value[vIndex] != ' ' {
 					vIndex++
 				}
 				// Move pattern index to the end of the parameter segment
-- 
2.43.0


From 2c3d3e530b9298999a819063619dae09101f37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:16 +0000
Subject: [PATCH 03/27] fix: v2 RemovePrincipalRole drops remaining assignments
 and leaves nil ones

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 3533705..6957169 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -133,13 +133,13 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 		return true
 	}
 	j := 0
-	for i, ur := range a.userRoles {
+	for _, ur := range a.userRoles {
 		if matches(ur) {
 			rolesRemoved = true
 			continue
 		}
+		updatedRoles[j] = ur
 		j++
-		updatedRoles[i] = ur
 	}
 	updatedRoles = updatedRoles[:j]
 	if !rolesRemoved {
-- 
2.43.0


From 97076c1e66362881b094459da1340b147ccf1e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:18 +0000
Subject: [PATCH 04/27] fix: v2 role resolution serves stale results and mixes
 permissions with role names

---
 v2/role.go | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 05b01ba..53c296b 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -59,17 +59,15 @@ func (t *Tenant) AddChildTenant(tenants ...*Tenant) {
 }
 
 type RoleDAG struct {
-	mu       sync.RWMutex
-	roles    map[string]*Role
-	edges    map[string][]string
-	resolved map[string]map[string]struct{}
+	mu    sync.RWMutex
+	roles map[string]*Role
+	edges map[string][]string
 }
 
 func NewRoleDAG() *RoleDAG {
 	return &RoleDAG{
-		roles:    make(map[string]*Role),
-		edges:    make(map[string][]string),
-		resolved: make(map[string]map[string]struct{}),
+		roles: make(map[string]*Role),
+		edges: make(map[string][]string),
 	}
 }
 
@@ -117,13 +115,7 @@ func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) e
 // ResolvePermissions to account for role expiry
 func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
-		dag.mu.RUnlock()
-		return permissions
-	}
-	dag.mu.RUnlock()
-	dag.mu.Lock()
-	defer dag.mu.Unlock()
+	defer dag.mu.RUnlock()
 	visited := make(map[string]bool)
 	queue := []string{roleName}
 	result := make(map[string]struct{})
@@ -143,20 +135,13 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		}
 		queue = append(queue, dag.edges[current]...)
 	}
-	dag.resolved[roleName] = result
 	return result
 }
 
 // ResolveChildRoles to account for role expiry
 func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
-		dag.mu.RUnlock()
-		return permissions
-	}
-	dag.mu.RUnlock()
-	dag.mu.Lock()
-	defer dag.mu.Unlock()
+	defer dag.mu.RUnlock()
 	visited := make(map[string]bool)
 	queue := []string{roleName}
 	result := make(map[string]struct{})
@@ -174,6 +159,5 @@ func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 		result[role.Name] = struct{}{}
 		queue = append(queue, dag.edges[current]...)
 	}
-	dag.resolved[roleName] = result
 	return result
 }
-- 
2.43.0


From 732c404875452d0ed231f8b79d3056719e11f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:19 +0000
Subject: [PATCH 05/27] fix: v2 expired assignments still open child tenants

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 6957169..d275b43 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -224,7 +224,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
@@ -280,7 +280,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
-- 
2.43.0


From 472a3176e39e7cae2dca3e5baf61841ce9b1e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:20 +0000
Subject: [PATCH 06/27] fix: v2 SetExpiryDuration swallows invalid durations

---
 v2/v2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/v2.go b/v2/v2.go
index d275b43..18e42c3 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -43,7 +43,7 @@ func (pr *PrincipalRole) SetExpiryDuration(dur any) error {
 	case string:
 		duration, err = time.ParseDuration(dur)
 		if err != nil {
-			return nil
+			return err
 		}
 	case time.Duration:
 		duration = dur
-- 
2.43.0


From 72e648ec21df8c65a9f4a7f8721b874ba8b574ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 07/27] fix: v2 SetExpiryDuration expires the assignment at
 once for unsupported types

---
 v2/v2.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v2/v2.go b/v2/v2.go
index 18e42c3..94de0eb 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -47,6 +47,8 @@ func (pr *PrincipalRole) SetExpiryDuration(dur any) error {
 		}
 	case time.Duration:
 		duration = dur
+	default:
+		return fmt.Errorf("unsupported expiry duration: %v", dur)
 	}
 	expiry := time.Now().Add(duration)
 	pr.Expiry = &expiry
-- 
2.43.0


From a1f1a3991667a07eb5f75e1be51c3c93960e0522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:43 +0000
Subject: [PATCH 08/27] fix: v2 AddChildRole refuses shared descendants that
 form no cycle

---
 v2/role.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 53c296b..30e584d 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -90,12 +90,15 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 }
 
 func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) error {
-	visited := map[string]bool{parent: true}
+	visited := make(map[string]bool)
 	var dfs func(string) bool
 	dfs = func(role string) bool {
-		if visited[role] {
+		if role == parent {
 			return true
 		}
+		if visited[role] {
+			return false
+		}
 		visited[role] = true
 		for _, child := range dag.edges[role] {
 			if dfs(child) {
-- 
2.43.0


From 9013b26babd586e4e9a393adaf7c9e2e7f7658a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:45 +0000
Subject: [PATCH 09/27] fix: v2 authorization returns permission and role maps
 already put back into a pool

---
 v2/v2.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 94de0eb..663cd29 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -171,9 +171,7 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 }
 
 var (
-	scopedPermissionsPool = utils.New(func() map[string]struct{} { return make(map[string]struct{}) })
-	globalPermissionsPool = utils.New(func() map[string]struct{} { return make(map[string]struct{}) })
-	checkedTenantsPool    = utils.New(func() map[string]bool { return make(map[string]bool) })
+	checkedTenantsPool = utils.New(func() map[string]bool { return make(map[string]bool) })
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
@@ -188,15 +186,12 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
 	}
-	globalPermissions := globalPermissionsPool.Get()
-	scopedPermissions := scopedPermissionsPool.Get()
+	// The permission maps are returned to the caller, so they are not pooled
+	globalPermissions := make(map[string]struct{})
+	scopedPermissions := make(map[string]struct{})
 	checkedTenants := checkedTenantsPool.Get()
-	clear(scopedPermissions)
-	clear(globalPermissions)
 	clear(checkedTenants)
 	defer func() {
-		scopedPermissionsPool.Put(scopedPermissions)
-		globalPermissionsPool.Put(globalPermissions)
 		checkedTenantsPool.Put(checkedTenants)
 	}()
 	var traverse func(current *Tenant) error
@@ -253,12 +248,11 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
 	}
-	scopedRoles := scopedPermissionsPool.Get()
+	// The role map is returned to the caller, so it is not pooled
+	scopedRoles := make(map[string]struct{})
 	checkedTenants := checkedTenantsPool.Get()
-	clear(scopedRoles)
 	clear(checkedTenants)
 	defer func() {
-		scopedPermissionsPool.Put(scopedRoles)
 		checkedTenantsPool.Put(checkedTenants)
 	}()
 	var traverse func(current *Tenant) error
-- 
2.43.0


From 4b0c2a48b9ac5299dc104180365cc5230c5ed238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:14 +0000
Subject: [PATCH 10/27] fix: v2 reads shared state without holding the lock
 that guards it

---
 v2/init.go |  4 +++
 v2/role.go |  2 ++
 v2/v2.go   | 87 ++++++++++++++++++++++++++++++------------------------
 3 files changed, 55 insertions(+), 38 deletions(-)

diff --git a/v2/init.go b/v2/init.go
index 19fbe51..08152a0 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -10,6 +10,8 @@ func (a *Authorizer) AddRole(role *Role) *Role {
 }
 
 func (a *Authorizer) GetRole(val string) (*Role, bool) {
+	a.roleDAG.mu.RLock()
+	defer a.roleDAG.mu.RUnlock()
 	role, ok := a.roleDAG.roles[val]
 	return role, ok
 }
@@ -28,6 +30,8 @@ func (a *Authorizer) AddTenant(tenant *Tenant) *Tenant {
 	a.m.Lock()
 	defer a.m.Unlock()
 	a.tenants[tenant.ID] = tenant
+	tenant.m.RLock()
+	defer tenant.m.RUnlock()
 	for _, child := range tenant.ChildTenants {
 		a.parentCache[child.ID] = tenant
 	}
diff --git a/v2/role.go b/v2/role.go
index 30e584d..31c28e6 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -133,9 +133,11 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		if !exists {
 			continue
 		}
+		role.m.RLock()
 		for perm := range role.Permissions {
 			result[perm] = struct{}{}
 		}
+		role.m.RUnlock()
 		queue = append(queue, dag.edges[current]...)
 	}
 	return result
diff --git a/v2/v2.go b/v2/v2.go
index 663cd29..7f8a847 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -98,6 +98,8 @@ func NewAuthorizer(auditLog ...*slog.Logger) *Authorizer {
 }
 
 func (a *Authorizer) SetDefaultTenant(tenant string) {
+	a.m.Lock()
+	defer a.m.Unlock()
 	a.defaultTenant = tenant
 }
 
@@ -114,6 +116,8 @@ func (a *Authorizer) AddPrincipalRole(userRole ...*PrincipalRole) {
 }
 
 func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
+	a.m.Lock()
+	defer a.m.Unlock()
 	updatedRoles := make([]*PrincipalRole, len(a.userRoles))
 	var rolesRemoved bool
 	matches := func(pr *PrincipalRole) bool {
@@ -175,8 +179,11 @@ var (
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
-	if a.defaultTenant != "" {
-		return a.GetTenant(a.defaultTenant)
+	a.m.RLock()
+	defaultTenant := a.defaultTenant
+	a.m.RUnlock()
+	if defaultTenant != "" {
+		return a.GetTenant(defaultTenant)
 	}
 	return nil, false
 }
@@ -200,6 +207,8 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 			return nil
 		}
 		checkedTenants[current.ID] = true
+		current.m.RLock()
+		defer current.m.RUnlock()
 		for _, userRole := range a.userRoles {
 			if userRole.Principal != userID || userRole.Tenant != current.ID {
 				continue
@@ -261,6 +270,8 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			return nil
 		}
 		checkedTenants[current.ID] = true
+		current.m.RLock()
+		defer current.m.RUnlock()
 		for _, userRole := range a.userRoles {
 			if userRole.Principal != userID || userRole.Tenant != current.ID {
 				continue
@@ -349,30 +360,16 @@ func (a *Authorizer) findTargetTenants(request Request) ([]*Tenant, bool) {
 }
 
 func (a *Authorizer) Can(request Request, roles ...string) bool {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
 		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, valid := a.findNamespace(tenant, request)
+		if !valid {
 			continue
 		}
 		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace)
@@ -392,30 +389,16 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 }
 
 func (a *Authorizer) Authorize(request Request) bool {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
 		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, valid := a.findNamespace(tenant, request)
+		if !valid {
 			continue
 		}
 		permissions, err := a.resolvePrincipalPermissions(request.Principal, tenant.ID, namespace, request.Scope)
@@ -434,6 +417,34 @@ func (a *Authorizer) Authorize(request Request) bool {
 	return false
 }
 
+// findNamespace returns the namespace of the tenant a request refers to and
+// whether it exists and has the requested scope.
+func (a *Authorizer) findNamespace(tenant *Tenant, request Request) (string, bool) {
+	tenant.m.RLock()
+	defer tenant.m.RUnlock()
+	namespace := request.Namespace
+	if namespace == "" {
+		if tenant.DefaultNS != "" {
+			namespace = tenant.DefaultNS
+		} else if len(tenant.Namespaces) == 1 {
+			for ns := range tenant.Namespaces {
+				namespace = ns
+				break
+			}
+		} else {
+			return "", false
+		}
+	}
+	ns, exists := tenant.Namespaces[namespace]
+	if !exists {
+		return "", false
+	}
+	if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		return "", false
+	}
+	return namespace, true
+}
+
 func (a *Authorizer) isScopeValidForNamespace(ns *Namespace, scopeName string) bool {
 	_, exists := ns.Scopes[scopeName]
 	return exists
-- 
2.43.0


From 57c9bc6f60487656cdf841f091136a6b0dbcf68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:22 +0000
Subject: [PATCH 11/27] fix: v1 assignments with '_' in an identifier are read
 back wrongly or panic

---
 v1/role_manager.go | 57 +++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 3a9a260..77896ee 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"slices"
-	"strings"
 
 	"github.com/oarkflow/maps"
 
@@ -38,7 +37,7 @@ type RoleManager struct {
 	roles            maps.IMap[string, *Role]
 	attributes       maps.IMap[string, *Attribute]
 	attributeGroups  maps.IMap[string, *AttributeGroup]
-	tenantPrincipals map[string]struct{}
+	tenantPrincipals map[TenantPrincipal]struct{}
 }
 
 func New() *RoleManager {
@@ -50,7 +49,7 @@ func New() *RoleManager {
 		roles:            maps.New[string, *Role](),
 		attributes:       maps.New[string, *Attribute](),
 		attributeGroups:  maps.New[string, *AttributeGroup](),
-		tenantPrincipals: make(map[string]struct{}),
+		tenantPrincipals: make(map[TenantPrincipal]struct{}),
 	}
 }
 
@@ -271,36 +270,23 @@ func getScopeID(n *Scope) string {
 	return n.ID()
 }
 
-func getTenantPrincipals(hash string) TenantPrincipal {
-	parts := strings.Split(hash, "_")
-	m := false
-	if parts[5] == "true" {
-		m = true
-	}
-	return TenantPrincipal{
-		TenantID:             parts[2],
-		PrincipalID:          parts[0],
-		RoleID:               parts[1],
-		NamespaceID:          parts[3],
-		ScopeID:              parts[4],
-		CanManageDescendants: m,
-	}
-}
-
 func (u *RoleManager) AddPrincipalRole(principalID string, roleID string, tenant *Tenant, namespace *Namespace, scope *Scope, canManageDescendants ...bool) {
 	manageDescendants := true
 	if len(canManageDescendants) > 0 {
 		manageDescendants = canManageDescendants[0]
 	}
-	h := fmt.Sprintf("%s_%s_%s_%s_%s_%v", principalID, roleID, tenant.ID(), getNamespaceID(namespace), getScopeID(scope), manageDescendants)
-	if _, exists := u.tenantPrincipals[h]; !exists {
-		u.tenantPrincipals[h] = struct{}{}
-	}
+	u.tenantPrincipals[TenantPrincipal{
+		TenantID:             tenant.ID(),
+		PrincipalID:          principalID,
+		RoleID:               roleID,
+		NamespaceID:          getNamespaceID(namespace),
+		ScopeID:              getScopeID(scope),
+		CanManageDescendants: manageDescendants,
+	}] = struct{}{}
 }
 
 func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []string, err error) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID {
 			tenants = append(tenants, unmarshalled.TenantID)
 		}
@@ -315,8 +301,7 @@ type PrincipalPermissions struct {
 }
 
 func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -325,8 +310,7 @@ func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []Tena
 }
 
 func (u *RoleManager) GetTenantRoles(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -339,8 +323,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 	if tenant, ok := u.tenants.Get(tenantID); ok {
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
-				for tenantPrincipal := range u.tenantPrincipals {
-					unmarshalled := getTenantPrincipals(tenantPrincipal)
+				for unmarshalled := range u.tenantPrincipals {
 					if unmarshalled.TenantID == id {
 						data = append(data, unmarshalled)
 					}
@@ -353,8 +336,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 }
 
 func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (data []PrincipalPermissions) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
 			if unmarshalled.RoleID != "" {
 				if r, ok := u.roles.Get(unmarshalled.RoleID); ok {
@@ -371,8 +353,7 @@ func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (da
 }
 
 func (u *RoleManager) GetPrincipalRolesByTenant(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -411,8 +392,7 @@ func (u *RoleManager) GetScopesForPrincipal(principalID string) ([]string, error
 		return nil, errors.New("no principal available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" {
 			scopes = append(scopes, unmarshalled.ScopeID)
 		}
@@ -430,8 +410,7 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 		return nil, errors.New("no tenant available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" && unmarshalled.TenantID == tenantID {
 			scopes = append(scopes, unmarshalled.ScopeID)
 		}
-- 
2.43.0


From 7a8390cef625d8d042a84368b829655b2805fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:40 +0000
Subject: [PATCH 12/27] fix: v1 Authorize grants a tenant to principals without
 an assignment in it

---
 v1/role_manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 77896ee..df197ad 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -506,7 +506,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 
 	// Check if only tenant is provided
 	if svr.tenant != nil && svr.namespace == nil && svr.scope == nil && svr.resourceGroup == nil && svr.activity == nil {
-		return u.authorizeForTenant(utils.ToString(svr.tenant))
+		return u.authorizeForTenant(principalID, utils.ToString(svr.tenant))
 	}
 
 	// Check if only namespace is provided
@@ -599,9 +599,9 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 	return false
 }
 
-func (u *RoleManager) authorizeForTenant(tenantID string) bool {
+func (u *RoleManager) authorizeForTenant(principalID, tenantID string) bool {
 	_, exists := u.GetTenant(tenantID)
-	return exists
+	return exists && len(u.GetPrincipalRoles(tenantID, principalID)) > 0
 }
 
 func (u *RoleManager) authorizeForNamespace(principalID, namespace string) bool {
-- 
2.43.0


From 6af3fd66e430ced5717c3eecfe6ce81016be4b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:42 +0000
Subject: [PATCH 13/27] fix: v1 Authorize grants namespace and scope through
 other principals' assignments

---
 v1/role_manager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index df197ad..7c17044 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -590,9 +590,13 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 			return true
 		}
 	}
+	if len(userRoles) == 0 {
+		return false
+	}
+	// Scopes the tenant assigned to the namespace, for all its principals
 	tenantRoles := u.GetTenantRoles(tenantID)
 	for _, r := range tenantRoles {
-		if r.NamespaceID == namespaceID && r.ScopeID == scopeID {
+		if r.PrincipalID == "" && r.NamespaceID == namespaceID && r.ScopeID == scopeID {
 			return true
 		}
 	}
-- 
2.43.0


From 2e2dfdec5dc06459b829c746bec98155f17034c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:44 +0000
Subject: [PATCH 14/27] fix: v1 GetAllowedRoles returns a slice already put
 back into a pool

---
 v1/role_manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 7c17044..b5d64b1 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -493,7 +493,8 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 			return nil
 		}
 	}
-	return slices.Compact(allowedRoles)
+	// allowedRoles goes back into the pool, so the caller gets a copy
+	return slices.Clone(slices.Compact(allowedRoles))
 }
 func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bool {
 	svr := &Option{}
-- 
2.43.0


From 84bdbefafefa271d607deb02efa5f9c40514b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:45 +0000
Subject: [PATCH 15/27] fix: v1 AddDescendent accepts role cycles, checks then
 never return

---
 v1/role.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v1/role.go b/v1/role.go
index b4ab22a..78f540e 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -105,6 +105,11 @@ func (r *Role) AddDescendent(descendants ...*Role) error {
 	if r.lock {
 		return errors.New("changes not allowed")
 	}
+	for _, descendant := range descendants {
+		if descendant == r || slices.Contains(descendant.GetDescendantRoles(), r) {
+			return errors.New("circular role hierarchy not allowed")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := r.descendants.Get(descendant.id); !ok {
 			r.descendants.Set(descendant.id, descendant)
-- 
2.43.0


From 25d943f2c4e98b7e9f22858e5fab073518f800c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:47 +0000
Subject: [PATCH 16/27] fix: v1 AddDescendent accepts tenant cycles, listing
 descendants then never returns

---
 v1/tenant.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v1/tenant.go b/v1/tenant.go
index 56e345d..1e574ac 100644
--- a/v1/tenant.go
+++ b/v1/tenant.go
@@ -1,6 +1,9 @@
 package v1
 
 import (
+	"errors"
+	"slices"
+
 	"github.com/oarkflow/maps"
 )
 
@@ -30,6 +33,11 @@ func (c *Tenant) GetDescendantTenants() []*Tenant {
 
 // AddDescendent adds a new permission to the role
 func (c *Tenant) AddDescendent(descendants ...*Tenant) error {
+	for _, descendant := range descendants {
+		if descendant == c || slices.Contains(descendant.GetDescendantTenants(), c) {
+			return errors.New("circular tenant hierarchy not allowed")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := c.descendants.Get(descendant.id); !ok {
 			c.descendants.Set(descendant.id, descendant)
-- 
2.43.0


From 30bc27dec45820599400a3715fbf0ee15d9a0fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:56 +0000
Subject: [PATCH 17/27] fix: v1 GetImplicitPrincipalRoles returns only the
 principal's own assignments

---
 v1/role_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index b5d64b1..0200af0 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -324,7 +324,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
 				for unmarshalled := range u.tenantPrincipals {
-					if unmarshalled.TenantID == id {
+					if unmarshalled.TenantID == id && unmarshalled.PrincipalID == principalID {
 						data = append(data, unmarshalled)
 					}
 				}
-- 
2.43.0


From ec888a9814c394667095cbe020f2e86efc460adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 18/27] fix: trie keeps records apart that differ only in which
 keys are nil

---
 trie/trie.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 6cbe2aa..6db7015 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -10,6 +10,10 @@ type SearchFunc[T DataProps] func(filter *T, row *T) bool
 
 type KeyExtractor[T DataProps] func(data *T) []any
 
+// absent stands for a nil key: records that differ only in which of their keys
+// are nil have different paths
+type absent struct{}
+
 type Node[T DataProps] struct {
 	child maps.IMap[any, *Node[T]]
 	isEnd bool
@@ -69,7 +73,7 @@ func (t *Trie[T]) Insert(data *T) {
 
 	for _, key := range keys {
 		if key == nil {
-			continue
+			key = absent{}
 		}
 		child, _ := node.addChild(key)
 		node = child
-- 
2.43.0


From a639b05574cd5dbfaf9c486700640dfbf5adfec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:16 +0000
Subject: [PATCH 19/27] fix: GetRolesByTenant returns the roles of the tenant

---
 filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters.go b/filters.go
index 3b79b4d..2809bb1 100644
--- a/filters.go
+++ b/filters.go
@@ -62,7 +62,7 @@ func filterScopeByPrincipal(filter *Data, row *Data) bool {
 }
 
 func filterRoleByTenant(filter *Data, row *Data) bool {
-	return MatchTenant(row, filter) && MatchRole(row, filter)
+	return MatchTenant(row, filter) && !utils.IsNil(row.Role)
 }
 
 func filterNamespaceByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From 02a634e5457db4ec34f4fecae40342d764784aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:17 +0000
Subject: [PATCH 20/27] fix: role queries for a principal stay within its
 tenant, namespace and scope

---
 filters.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/filters.go b/filters.go
index 2809bb1..c50973d 100644
--- a/filters.go
+++ b/filters.go
@@ -108,24 +108,25 @@ func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bo
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchNamespace(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchScope(row, filter) && MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) &&
+		(utils.IsNil(row.Scope) || MatchScope(row, filter))
 }
 
 func filterRoleForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		MatchNamespace(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter))
 }
 
 func filterRoleForPrincipalByTenantAndScope(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) || MatchScope(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Scope) || MatchScope(row, filter))
 }
 
 func filterNamespaceForPrincipalByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From f93c37f6d11c130d9bdd556670fd8664907785e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 21/27] fix: scopes of a principal in a namespace exclude those
 of other namespaces

---
 filters.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filters.go b/filters.go
index c50973d..06bc1c1 100644
--- a/filters.go
+++ b/filters.go
@@ -99,9 +99,9 @@ func filterScopeForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Scope) {
 		return false
 	}
-	return MatchTenant(row, filter) && (utils.IsNil(row.Namespace) && utils.IsNil(row.Principal) ||
-		MatchNamespace(row, filter) && utils.IsNil(row.Principal) ||
-		MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) &&
+		(utils.IsNil(row.Principal) || MatchPrincipal(row, filter))
 }
 
 func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bool {
-- 
2.43.0


From 38f36d1c31cac60d0b4ed05f8e9816fbb8e83c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 22/27] fix: implicit tenants and descendants are computed from
 the current records

---
 query.go        |  5 -----
 role_manager.go | 11 +----------
 2 files changed, 1 insertion(+), 15 deletions(-)

diff --git a/query.go b/query.go
index 7f6b636..0c4b459 100644
--- a/query.go
+++ b/query.go
@@ -37,10 +37,6 @@ func (u *RoleManager) GetDescendantTenant(desc any) []any {
 }
 
 func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{} {
-	principalTenant, exists := u.principalCache.Get(principalID)
-	if exists {
-		return principalTenant
-	}
 	tenantPrincipal := u.search(Data{Principal: principalID}, filterTenantsByPrincipal)
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
@@ -57,7 +53,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 			}
 		}
 	}
-	u.principalCache.Set(principalID, existingTenant)
 	return existingTenant
 }
 
diff --git a/role_manager.go b/role_manager.go
index 9c7353d..436627b 100644
--- a/role_manager.go
+++ b/role_manager.go
@@ -18,8 +18,6 @@ type RoleManager struct {
 	attributes      maps.IMap[string, *Attribute]
 	attributeGroups maps.IMap[string, *AttributeGroup]
 	trie            *trie.Trie[Data]
-	hierarchy       maps.IMap[string, []any]
-	principalCache  maps.IMap[string, map[string]struct{}]
 }
 
 func New() *RoleManager {
@@ -32,8 +30,6 @@ func New() *RoleManager {
 		attributes:      maps.NewMap[string, *Attribute](),
 		attributeGroups: maps.NewMap[string, *AttributeGroup](),
 		trie:            trie.New[Data](FilterFunc, DataKeyExtractor),
-		hierarchy:       maps.NewMap[string, []any](),
-		principalCache:  maps.NewMap[string, map[string]struct{}](),
 	}
 }
 
@@ -122,16 +118,11 @@ func (u *RoleManager) TotalScopes() int {
 }
 
 func (u *RoleManager) TenantChildren(t string) []any {
-	if hierarchy, exists := u.hierarchy.Get(t); exists {
-		return hierarchy
-	}
 	tenant, exists := u.GetTenant(t)
 	if !exists {
 		return nil
 	}
-	hierarchy := tenant.GetDescendants()
-	u.hierarchy.Set(t, utils.Compact(hierarchy))
-	return hierarchy
+	return utils.Compact(tenant.GetDescendants())
 }
 
 func (u *RoleManager) TotalTenants() int {
-- 
2.43.0


From 424e6d4306199f6dee8fecdd7b61bdee3bf641b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:21 +0000
Subject: [PATCH 23/27] fix: implicit tenants consider every record of the
 principal

---
 query.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/query.go b/query.go
index 0c4b459..1ddae40 100644
--- a/query.go
+++ b/query.go
@@ -41,9 +41,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
 		tenantID := rs.Tenant.(string)
-		if _, alreadyProcessed := existingTenant[tenantID]; alreadyProcessed {
-			continue
-		}
 		existingTenant[tenantID] = struct{}{}
 		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {
 			for _, desc := range u.TenantChildren(tenantID) {
-- 
2.43.0


From 089d93b356c01258226b9da9fcda094384f62b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:23 +0000
Subject: [PATCH 24/27] fix: Authorize decides only from tenants the principal
 belongs to

---
 authorize.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/authorize.go b/authorize.go
index 9b79c4e..00aad61 100644
--- a/authorize.go
+++ b/authorize.go
@@ -31,11 +31,19 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 		return true
 	}
-	for tenant := range userRoles {
-		if svr.tenant == tenant && svr.tenant != nil {
+	// The tenants above the requested one, where the principal manages descendants
+	requested := svr.tenant
+	if requested == nil {
+		return false
+	}
+	for _, rs := range u.GetTenants(principalID) {
+		if canManage, ok := rs.ManageDescendants.(bool); !ok || !canManage {
+			continue
+		}
+		if !utils.Contains(u.TenantChildren(rs.Tenant.(string)), requested) {
 			continue
 		}
-		svr.tenant = tenant
+		svr.tenant = rs.Tenant
 		if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 			return true
 		}
@@ -70,8 +78,11 @@ func (u *RoleManager) validateResources(svr *Option) bool {
 }
 
 func (u *RoleManager) checkNoActivity(principalID string, svr *Option, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided bool) bool {
+	if svr.tenant != nil && !utils.Contains(u.GetTenantsByPrincipal(principalID), svr.tenant) {
+		return false
+	}
 	if tFlagProvided {
-		return utils.Contains(u.GetTenantsByPrincipal(principalID), svr.tenant)
+		return true
 	}
 	if tnFlagProvided {
 		return utils.Contains(GetNamespaceIDs(u.GetNamespaceForPrincipalByTenant(principalID, svr.tenant)), svr.namespace)
-- 
2.43.0


From 6194faff08654c7f681143562b2c87051f403740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:24 +0000
Subject: [PATCH 25/27] fix: allowed roles are compacted once

---
 authorize.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index 00aad61..76f5fe0 100644
--- a/authorize.go
+++ b/authorize.go
@@ -130,8 +130,9 @@ func (u *RoleManager) checkActivity(principalID string, svr *Option, tFlagProvid
 		return false
 	}
 
+	allowedRoles = slices.Compact(allowedRoles)
 	for _, role := range slices.Compact(roles) {
-		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), slices.Compact(allowedRoles)...) {
+		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), allowedRoles...) {
 			return true
 		}
 	}
-- 
2.43.0


From e8c000a95d6df7793982b7df53da103b71ba90d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:26 +0000
Subject: [PATCH 26/27] fix: Role.AddDescendant refuses cycles

---
 role.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/role.go b/role.go
index 7f3f8f2..85746ca 100644
--- a/role.go
+++ b/role.go
@@ -106,6 +106,11 @@ func (r *Role) AddDescendant(descendants ...*Role) error {
 	if r.lock {
 		return errors.New("changes not allowed")
 	}
+	for _, descendant := range descendants {
+		if descendant == r || slices.Contains(descendant.GetDescendantRoles(), r) {
+			return errors.New("circular role hierarchy not allowed")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := r.descendants.Get(descendant.id); !ok {
 			r.descendants.Set(descendant.id, descendant)
-- 
2.43.0


From 60e7a4366f4ff7c3a817d11c36687e17b75a434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 27/27] fix: Tenant.AddDescendant refuses cycles

---
 tenant.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tenant.go b/tenant.go
index 6ff7ad6..654e47c 100644
--- a/tenant.go
+++ b/tenant.go
@@ -37,7 +37,21 @@ func (c *Tenant) GetDescendants() (data []any) {
 	return
 }
 
+func (c *Tenant) isOrHasDescendant(t *Tenant) bool {
+	found := c == t
+	c.descendants.ForEach(func(_ string, child *Tenant) bool {
+		found = found || child.isOrHasDescendant(t)
+		return !found
+	})
+	return found
+}
+
 func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
+	for _, descendant := range descendants {
+		if descendant.isOrHasDescendant(c) {
+			return errors.New("circular tenant hierarchy not allowed")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := c.descendants.Get(descendant.id); !ok {
 			c.descendants.Set(descendant.id, descendant)
-- 
2.43.0

