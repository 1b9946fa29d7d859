#!/usr/bin/env python3
"""Writes contracts/v1reg.spec and contracts/rootreg.spec: the contracts of the
registries (C14), which are the same text for every kind of entry."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ATTR = '%s.resource + " " + %s.action'
def gen(pkg, out):
    kinds = [("Tenant", "tenants", "Tenants", "data", "tenants", "id"),
             ("Namespace", "namespaces", "Namespaces", "data", "nms", "id"),
             ("Scope", "scopes", "Scopes", "data", "scopes", "id"),
             ("Principal", "principals", "Principals", "data", "principals", "id"),
             ("Role", "roles", "Roles", "role", "roles", "role"),
             ("AttributeGroup", "attributeGroups", None, "attr", "attrs", "id"),
             ("Attribute", "attributes", "Attributes", "attr", "attrs", "attr")]
    o = ["package " + pkg, "", "// written by tools/mkregspec.py", ""]
    for T, m, lst, p, ps, idp in kinds:
        key = (lambda v: ATTR % (v, v)) if T == "Attribute" else (lambda v: v + ".id")
        mod = f"map(u.{m})" + (f"; {p}.manager" if T == "Tenant" else "")
        mods = f"map(u.{m})" + ("; all Tenant.manager" if T == "Tenant" else "")
        k = key(p)
        o.append(f"""fn RoleManager.Add{T}(u, {p}) {{
	props C14
	requires managerOK(u) && {p} != nil
	modifies {mod}
	ensures used: old({k} in dom(u.{m})) ==> result == old(u.{m}[{k}])
	ensures unused: !old({k} in dom(u.{m})) ==> result == {p}
	ensures lookup: {k} in dom(u.{m}) && u.{m}[{k}] == result
	ensures others: forall k string: k != {k} ==> (k in dom(u.{m}) <==> old(k in dom(u.{m}))) && u.{m}[k] == old(u.{m}[k])
	ensures managerOK(u)
}}
fn RoleManager.Add{T}s(u, {ps}) {{
	props C14
	requires managerOK(u) && forall d in {ps}: d != nil
	modifies {mods}
	ensures added: forall k string: k in dom(u.{m}) <==> old(k in dom(u.{m})) || exists d in {ps}: {key('d')} == k
	ensures kept: forall k in old(dom(u.{m})): u.{m}[k] == old(u.{m}[k])
	ensures first: forall i int {{{ps}[i]}}: 0 <= i && i < len({ps}) && !old({key(ps+'[i]')} in dom(u.{m})) && (forall j int {{{ps}[j]}}: 0 <= j && j < i ==> {key(ps+'[j]')} != {key(ps+'[i]')}) ==> u.{m}[{key(ps+'[i]')}] == {ps}[i]
	ensures managerOK(u)
	inv managerOK(u)
	inv forall k string: k in dom(u.{m}) <==> old(k in dom(u.{m})) || exists d in #done: {key('d')} == k
	inv forall k in old(dom(u.{m})): u.{m}[k] == old(u.{m}[k])
	inv forall i int {{{ps}[i]}}: 0 <= i && i < #k && !old({key(ps+'[i]')} in dom(u.{m})) && (forall j int {{{ps}[j]}}: 0 <= j && j < i ==> {key(ps+'[j]')} != {key(ps+'[i]')}) ==> u.{m}[{key(ps+'[i]')}] == {ps}[i]
}}
fn RoleManager.Get{T}(u, {idp}) {{
	props C14
	requires managerOK(u)
	ensures found: result1 <==> {idp} in dom(u.{m})
	ensures value: result1 ==> result0 == u.{m}[{idp}]
	ensures none: !result1 ==> result0 == nil
}}
fn RoleManager.Total{T}s(u) {{
	props C14
	requires managerOK(u)
	ensures result == len(u.{m})
}}
""")
        if lst:
            o.append(f"""fn RoleManager.{lst}(u) {{
	props C14
	requires managerOK(u)
	ensures all: forall k string: k in result <==> k in dom(u.{m})
	inv any data []string: forall k string: k in data <==> k in #seen
}}
""")
        if T not in ("AttributeGroup", "Attribute"):
            o.append(f"""fn {T}.ID(x) {{
	ensures result == x.id
}}
""")
    open(os.path.join(HERE, "contracts", out), "w").write("\n".join(o))
gen("v1", "v1reg.spec")
gen("permission", "rootreg.spec")
