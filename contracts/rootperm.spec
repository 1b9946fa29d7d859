package permission

// ---- listing permissions (C11) ------------------------------------------------
pred attrsOK() = forall g *AttributeGroup, k string {g.permissions[k]}: k in dom(g.permissions) ==> g.permissions[k] != nil
pred groupList(g *AttributeGroup, l []Attribute) = forall a Attribute: a in l <==> exists k in dom(g.permissions): g.permissions[k].resource == a.resource && g.permissions[k].action == a.action
fn Role.GetPermissions(r) {
	props C11
	requires rolesOK() && groupsOK() && attrsOK() && (forall g in dom(r.permissions): r.permissions[g] != nil)
	ensures fresh(result)
	ensures groups: forall g string: g in dom(result) <==> g in dom(r.permissions)
	ensures perms: forall g string, x *AttributeGroup {g in dom(result), x.permissions}: g in dom(r.permissions) && x == r.permissions[g] ==> groupList(x, result[g])
	inv any grpPermissions map[string][]Attribute: forall g string: g in dom(grpPermissions) <==> g in #seen
	inv any grpPermissions map[string][]Attribute: forall g string, x *AttributeGroup {g in dom(grpPermissions), x.permissions}: g in #seen && x == r.permissions[g] ==> groupList(x, grpPermissions[g])
	inv any grp *AttributeGroup, permissions []Attribute: forall a Attribute: a in permissions <==> exists k in #seen: grp.permissions[k].resource == a.resource && grp.permissions[k].action == a.action
}

fn Role.GetResourceGroupPermissions(r, resourceGroup) {
	props C11
	requires rolesOK() && groupsOK() && attrsOK() && (forall g in dom(r.permissions): r.permissions[g] != nil)
	ensures exact: forall a *Attribute: a in result <==> resourceGroup in dom(r.permissions) && exists k in dom(r.permissions[resourceGroup].permissions): r.permissions[resourceGroup].permissions[k] == a
	inv any permissions []*Attribute, grp *AttributeGroup: forall a *Attribute: a in permissions <==> exists k in #seen: grp.permissions[k] == a
	inv any permissions []*Attribute: forall a *Attribute: a in permissions <==> exists k in #seen: r.permissions[resourceGroup].permissions[k] == a
}
// attribute value a is one of role x's own in group g
pred owns(x *Role, g string, a Attribute) = carries(x, g) && exists k in dom(x.permissions[g].permissions): x.permissions[g].permissions[k].resource == a.resource && x.permissions[g].permissions[k].action == a.action
pred groupsSet() = forall r *Role, g string {r.permissions[g]}: g in dom(r.permissions) ==> r.permissions[g] != nil
// r or a role it inherits carries group g; attribute value a in group g
inductive carriesAny(r *Role, g string) =
    (g in dom(r.permissions))
    || (exists d *Role: desc(r, d) && carriesAny(d, g))
inductive ownsAny(r *Role, g string, a Attribute) =
    (owns(r, g, a))
    || (exists d *Role: desc(r, d) && ownsAny(d, g, a))
fn Role.GetAllImplicitPermissions(r, perm) {
	props C11
	requires rolesOK() && groupsOK() && attrsOK() && groupsSet() && (len(perm) > 0 ==> perm[0] != nil)
	modifies map(perm[0])
	ensures same: if len(perm) > 0 then result == perm[0] else fresh(result)
	ensures groups: forall g string: g in dom(result) <==> len(perm) > 0 && old(g in dom(perm[0])) || carriesAny(r, g)
	ensures perms: forall g string, a Attribute: a in result[g] <==> len(perm) > 0 && old(a in perm[0][g]) || ownsAny(r, g, a)
	use @exit induct carriesAny(x *Role, g string) by g in dom(x.permissions) || exists d *Role: desc(x, d) && carriesAny(d, g)
	use @exit induct ownsAny(x *Role, g string, a Attribute) by owns(x, g, a) || exists d *Role: desc(x, d) && ownsAny(d, g, a)
	inv any m_ map[string][]Attribute: forall g string: g in dom(m_) <==> before(g in dom(m_)) || g in #seen
	inv any m_ map[string][]Attribute: forall g string, a Attribute: a in m_[g] <==> before(a in m_[g]) || g in #seen && owns(r, g, a)
	inv any m_ map[string][]Attribute: forall g string: g in dom(m_) <==> before(g in dom(m_)) || exists d in #done: carriesAny(d, g)
	inv any m_ map[string][]Attribute: forall g string, a Attribute: a in m_[g] <==> before(a in m_[g]) || exists d in #done: ownsAny(d, g, a)
	inv any grp *AttributeGroup, permissions []Attribute: forall a Attribute: a in permissions <==> exists k in #seen: grp.permissions[k].resource == a.resource && grp.permissions[k].action == a.action
}
