package trie

// ---- the tree (C08) ------------------------------------------------------------
// every node has its own child map; no two edges lead to the same node and none to
// the root of a trie; end nodes hold a record
pred tries(t *Trie[T]) =
    (forall s *Trie[T]: s.root != nil && s.match != nil && s.keyExtractor != nil)
    && (forall n *Node[T]: n.child != nil && (n.isEnd ==> n.data != nil))
    && (forall n *Node[T], m *Node[T] {n.child, m.child}: n.child == m.child ==> n == m)
    && (forall n *Node[T], k any {k in dom(n.child)}: k in dom(n.child) ==> n.child[k] != nil)
    && (forall n *Node[T], k any, s *Trie[T] {k in dom(n.child), s.root}: k in dom(n.child) ==> n.child[k] != s.root)
    && (forall n *Node[T], m *Node[T], k any, l any {k in dom(n.child), l in dom(m.child)}: k in dom(n.child) && l in dom(m.child) && n.child[k] == m.child[l] ==> n == m && k == l)

// the node x lies in the subtree of n
inductive nreach(n *Node[T], x *Node[T]) =
    x == n || (exists m *Node[T], k any: nreach(n, m) && k in dom(m.child) && x == m.child[k])
// a nil key has its own place
pred nk(k any) = if k == nil then any(zero(absent)) else k
// following the first i keys of ks from n leads to x
inductive at(n *Node[T], ks []any, i int, x *Node[T]) =
    (i == 0 && x == n)
    || (exists m *Node[T], j int: at(n, ks, j, m) && i == j + 1 && 0 <= j && j < len(ks) && nk(ks[j]) in dom(m.child) && x == m.child[nk(ks[j])])
pred same(ks []any, js []any) = len(ks) == len(js) && forall i int {ks[i]} {js[i]}: 0 <= i && i < len(ks) ==> nk(ks[i]) == nk(js[i])

pred held(t *Trie[T], d *T) = exists x *Node[T]: nreach(t.root, x) && x.isEnd && x.data == d
// the record held for the key tuple ks is d
pred slot(t *Trie[T], ks []any, d *T) = exists x *Node[T]: at(t.root, ks, len(ks), x) && x.isEnd && x.data == d
// every record is held for its own key tuple
pred keyed(t *Trie[T]) = forall x *Node[T] {nreach(t.root, x)}: nreach(t.root, x) && x.isEnd ==> at(t.root, apply(t.keyExtractor, x.data), len(apply(t.keyExtractor, x.data)), x)

lemma reachFront(n *Node[T], k any, x *Node[T]) {
	requires k in dom(n.child) && nreach(n.child[k], x)
	ensures nreach(n, x)
	trigger k in dom(n.child), nreach(n.child[k], x)
	use induct nreach(n.child[k], y *Node[T]) by nreach(n, y)
}
lemma atReach(n *Node[T], ks []any, i int, x *Node[T]) {
	requires at(n, ks, i, x)
	ensures nreach(n, x)
	trigger at(n, ks, i, x)
	use induct at(n, ks, j int, y *Node[T]) by nreach(n, y)
}
lemma atIndex(n *Node[T], ks []any, i int, x *Node[T]) {
	requires at(n, ks, i, x)
	ensures 0 <= i && i <= len(ks)
	trigger at(n, ks, i, x)
	use induct at(n, ks, j int, y *Node[T]) by 0 <= j && j <= len(ks)
}

lemma atInv(n *Node[T], ks []any, i int, x *Node[T]) {
	requires at(n, ks, i, x)
	ensures (i == 0 && x == n) || (exists m *Node[T], j int: at(n, ks, j, m) && i == j + 1 && 0 <= j && j < len(ks) && nk(ks[j]) in dom(m.child) && x == m.child[nk(ks[j])])
	trigger at(n, ks, i, x)
	use induct at(n, ks, i2 int, y *Node[T]) by at(n, ks, i2, y) && ((i2 == 0 && y == n) || (exists m *Node[T], j int: at(n, ks, j, m) && i2 == j + 1 && 0 <= j && j < len(ks) && nk(ks[j]) in dom(m.child) && y == m.child[nk(ks[j])]))
}
// different key tuples lead to different nodes
lemma atInj(t *Trie[T], ks []any, i int, js []any, j int, x *Node[T]) {
	requires t != nil && tries(t) && at(t.root, ks, i, x) && at(t.root, js, j, x)
	ensures i == j && forall l int {ks[l]} {js[l]}: 0 <= l && l < i ==> nk(ks[l]) == nk(js[l])
	trigger at(t.root, ks, i, x), at(t.root, js, j, x)
	use lemma forall ls []any, l int, y *Node[T]: atInv(t.root, ls, l, y)
	use induct at(t.root, ks, i2 int, y *Node[T]) by 0 <= i2 && y != nil && forall ls []any, j2 int {at(t.root, ls, j2, y)}: at(t.root, ls, j2, y) ==> i2 == j2 && forall l int {ks[l]} {ls[l]}: 0 <= l && l < i2 ==> nk(ks[l]) == nk(ls[l])
}
// the same key tuple leads to the same node
lemma atFun(t *Trie[T], ks []any, i int, x *Node[T], js []any, y *Node[T]) {
	requires t != nil && tries(t) && x != nil && y != nil && at(t.root, ks, i, x) && at(t.root, js, i, y) && forall l int {ks[l]} {js[l]}: 0 <= l && l < i ==> nk(ks[l]) == nk(js[l])
	ensures x == y
	trigger at(t.root, ks, i, x), at(t.root, js, i, y)
	use lemma forall ls []any, l int, z *Node[T]: atInv(t.root, ls, l, z)
	use induct at(t.root, ks, i2 int, z *Node[T]) by 0 <= i2 && z != nil && forall ls []any, w *Node[T] {at(t.root, ls, i2, w)}: at(t.root, ls, i2, w) && (forall l int {ks[l]} {ls[l]}: 0 <= l && l < i2 ==> nk(ks[l]) == nk(ls[l])) ==> w == z
}
fn New(match, keyExtractor) {
	props C08
	requires match != nil && keyExtractor != nil
	ensures fresh(result) && result.match == match && result.keyExtractor == keyExtractor && fresh(result.root)
	ensures empty: forall every d *T: !held(result, d)
	ensures keyed: keyed(result)
	ensures tree: old(tries(result)) ==> tries(result)
	use @exit induct nreach(result.root, x *Node[T]) by x == result.root
}
fn Trie.Insert(t, data) {
	props C08
	requires tries(t) && (data != nil ==> !isnil(apply(t.keyExtractor, data)))
	modifies all maps t.root.child; all Node[T].isEnd; all Node[T].data
	ensures nothing: data == nil ==> forall d *T: held(t, d) <==> old(held(t, d))
	ensures stored: data != nil ==> forall d *T: slot(t, apply(t.keyExtractor, data), d) <==> d == data
	ensures others: data != nil ==> forall ks []any, d *T: !same(ks, apply(t.keyExtractor, data)) ==> (slot(t, ks, d) <==> old(slot(t, ks, d)))
	ensures tree: tries(t)
	ensures keyed: old(keyed(t)) ==> keyed(t)
	ensures held: data != nil && old(keyed(t)) ==> forall d *T: held(t, d) <==> d == data || old(allocated(d) && held(t, d)) && !same(apply(t.keyExtractor, d), apply(t.keyExtractor, data))
	inv any node *Node[T]: node != nil
	inv any node *Node[T]: at(t.root, apply(t.keyExtractor, data), #k, node)
	inv tries(t)
	inv forall n *Node[T], k any {k in dom(n.child)}: old(allocated(n)) && old(k in dom(n.child)) ==> k in dom(n.child) && n.child[k] == old(n.child[k])
	inv forall n *Node[T], k any, c *Node[T] {k in dom(n.child), n.child[k] == c}: k in dom(n.child) && n.child[k] == c && old(allocated(c)) ==> old(allocated(n)) && old(k in dom(n.child))
	inv forall n *Node[T]: !old(allocated(n)) ==> !n.isEnd
	use @step old induct at(t.root, ks []any, i int, x *Node[T]) by at(t.root, ks, i, x)
	use @exit old induct at(t.root, ks []any, i int, x *Node[T]) by at(t.root, ks, i, x)
	use @exit induct at(t.root, ks []any, i int, x *Node[T]) by old(allocated(x)) ==> old(at(t.root, ks, i, x))
	use @exit old induct nreach(t.root, x *Node[T]) by nreach(t.root, x)
	use @exit induct nreach(t.root, x *Node[T]) by old(allocated(x)) ==> old(nreach(t.root, x))
	use @exit lemma forall s *Trie[T], ks []any, i int, js []any, j int, x *Node[T]: atInj(s, ks, i, js, j, x)
	use @exit lemma forall n *Node[T], ks []any, i int, x *Node[T]: atReach(n, ks, i, x)
	use @exit lemma forall s *Trie[T], ks []any, i int, x *Node[T], js []any, y *Node[T]: atFun(s, ks, i, x, js, y)
}
fn Trie.Search(t, filter) {
	props C08
	requires tries(t)
	ensures exact: forall every d *T: d in result <==> held(t, d) && apply(t.match, filter, d)
	ensures present: forall d in result: d != nil
	closure dfs(node) {
		captures results []*T
		maycapture resultCount int
		requires resultCount == len(results)
		requires node != nil
		modifies var results; var resultCount
		ensures resultCount == len(results)
		ensures !result
		ensures (forall d in old(results): d != nil) ==> (forall d in results: d != nil)
		inv (forall d in old(results): d != nil) ==> (forall d in results: d != nil)
		ensures forall d *T: d in results <==> d in old(results) || exists x *Node[T]: nreach(node, x) && x.isEnd && x.data == d && apply(t.match, filter, d)
		inv resultCount == len(results)
		inv any found bool: !found
		inv forall d *T: d in results <==> d in old(results) || node.isEnd && node.data == d && apply(t.match, filter, d) || exists c in #done, x *Node[T]: nreach(c, x) && x.isEnd && x.data == d && apply(t.match, filter, d)
		inv forall d *T: d in results <==> d in old(results) || node.isEnd && node.data == d && apply(t.match, filter, d) || exists k in dom(node.child), x *Node[T]: k in #seen && nreach(node.child[k], x) && x.isEnd && x.data == d && apply(t.match, filter, d)
		use @exit lemma forall n *Node[T], k any, x *Node[T]: reachFront(n, k, x)
		use @exit induct nreach(node, x *Node[T]) by x == node || exists k in dom(node.child): nreach(node.child[k], x)
	}
}
fn Trie.SearchFunc(t, filter, callback) {
	props C08
	requires tries(t) && callback != nil
	ensures exact: forall every d *T: d in result <==> held(t, d) && apply(callback, filter, d)
	ensures present: forall d in result: d != nil
	closure dfs(node) {
		captures results []*T
		maycapture resultCount int
		requires resultCount == len(results)
		requires node != nil
		modifies var results; var resultCount
		ensures resultCount == len(results)
		ensures !result
		ensures (forall d in old(results): d != nil) ==> (forall d in results: d != nil)
		inv (forall d in old(results): d != nil) ==> (forall d in results: d != nil)
		ensures forall d *T: d in results <==> d in old(results) || exists x *Node[T]: nreach(node, x) && x.isEnd && x.data == d && apply(callback, filter, d)
		inv resultCount == len(results)
		inv any found bool: !found
		inv forall d *T: d in results <==> d in old(results) || node.isEnd && node.data == d && apply(callback, filter, d) || exists c in #done, x *Node[T]: nreach(c, x) && x.isEnd && x.data == d && apply(callback, filter, d)
		inv forall d *T: d in results <==> d in old(results) || node.isEnd && node.data == d && apply(callback, filter, d) || exists k in dom(node.child), x *Node[T]: k in #seen && nreach(node.child[k], x) && x.isEnd && x.data == d && apply(callback, filter, d)
		use @exit lemma forall n *Node[T], k any, x *Node[T]: reachFront(n, k, x)
		use @exit induct nreach(node, x *Node[T]) by x == node || exists k in dom(node.child): nreach(node.child[k], x)
	}
}
fn Trie.Data(t) {
	props C08
	requires tries(t)
	ensures exact: forall every d *T: d in result <==> held(t, d)
	ensures present: forall d in result: d != nil
	closure dfs(node) {
		captures results []*T
		maycapture resultCount int
		requires resultCount == len(results)
		requires node != nil
		modifies var results; var resultCount
		ensures resultCount == len(results)
		ensures !result
		ensures (forall d in old(results): d != nil) ==> (forall d in results: d != nil)
		inv (forall d in old(results): d != nil) ==> (forall d in results: d != nil)
		ensures forall d *T: d in results <==> d in old(results) || exists x *Node[T]: nreach(node, x) && x.isEnd && x.data == d
		inv resultCount == len(results)
		inv any found bool: !found
		inv forall d *T: d in results <==> d in old(results) || node.isEnd && node.data == d || exists c in #done, x *Node[T]: nreach(c, x) && x.isEnd && x.data == d
		inv forall d *T: d in results <==> d in old(results) || node.isEnd && node.data == d || exists k in dom(node.child), x *Node[T]: k in #seen && nreach(node.child[k], x) && x.isEnd && x.data == d
		use @exit lemma forall n *Node[T], k any, x *Node[T]: reachFront(n, k, x)
		use @exit induct nreach(node, x *Node[T]) by x == node || exists k in dom(node.child): nreach(node.child[k], x)
	}
}
fn Trie.First(t, filter) {
	props C08
	requires tries(t)
	ensures one: result != nil ==> held(t, result) && apply(t.match, filter, result)
	ensures none: result == nil <==> !(exists every d *T: held(t, d) && apply(t.match, filter, d))
	closure dfs(node) {
		captures results []*T
		maycapture resultCount int
		requires resultCount == len(results)
		requires node != nil
		modifies var results; var resultCount
		ensures resultCount == len(results)
		ensures result ==> len(results) > 0
		ensures forall d in results: d in old(results) || exists x *Node[T]: nreach(node, x) && x.isEnd && x.data == d && apply(t.match, filter, d)
		ensures !result ==> forall x *Node[T]: nreach(node, x) && x.isEnd ==> !(apply(t.match, filter, x.data))
		inv resultCount == len(results)
		inv any found bool: !found
		inv forall d in results: d in old(results) || node.isEnd && node.data == d && apply(t.match, filter, d) || exists c in #done, x *Node[T]: nreach(c, x) && x.isEnd && x.data == d && apply(t.match, filter, d)
		inv forall d in results: d in old(results) || node.isEnd && node.data == d && apply(t.match, filter, d) || exists k in dom(node.child), x *Node[T]: k in #seen && nreach(node.child[k], x) && x.isEnd && x.data == d && apply(t.match, filter, d)
		inv node.isEnd ==> !(apply(t.match, filter, node.data))
		inv forall c in #done, x *Node[T]: nreach(c, x) && x.isEnd ==> !(apply(t.match, filter, x.data))
		inv forall k in dom(node.child), x *Node[T]: k in #seen && nreach(node.child[k], x) && x.isEnd ==> !(apply(t.match, filter, x.data))
		use @exit lemma forall n *Node[T], k any, x *Node[T]: reachFront(n, k, x)
		use @exit induct nreach(node, x *Node[T]) by x == node || exists k in dom(node.child): nreach(node.child[k], x)
	}
}
fn Trie.FirstFunc(t, filter, callback) {
	props C08
	requires tries(t) && callback != nil
	ensures one: result != nil ==> held(t, result) && apply(callback, filter, result)
	ensures none: result == nil <==> !(exists every d *T: held(t, d) && apply(callback, filter, d))
	closure dfs(node) {
		captures results []*T
		maycapture resultCount int
		requires resultCount == len(results)
		requires node != nil
		modifies var results; var resultCount
		ensures resultCount == len(results)
		ensures result ==> len(results) > 0
		ensures forall d in results: d in old(results) || exists x *Node[T]: nreach(node, x) && x.isEnd && x.data == d && apply(callback, filter, d)
		ensures !result ==> forall x *Node[T]: nreach(node, x) && x.isEnd ==> !(apply(callback, filter, x.data))
		inv resultCount == len(results)
		inv any found bool: !found
		inv forall d in results: d in old(results) || node.isEnd && node.data == d && apply(callback, filter, d) || exists c in #done, x *Node[T]: nreach(c, x) && x.isEnd && x.data == d && apply(callback, filter, d)
		inv forall d in results: d in old(results) || node.isEnd && node.data == d && apply(callback, filter, d) || exists k in dom(node.child), x *Node[T]: k in #seen && nreach(node.child[k], x) && x.isEnd && x.data == d && apply(callback, filter, d)
		inv node.isEnd ==> !(apply(callback, filter, node.data))
		inv forall c in #done, x *Node[T]: nreach(c, x) && x.isEnd ==> !(apply(callback, filter, x.data))
		inv forall k in dom(node.child), x *Node[T]: k in #seen && nreach(node.child[k], x) && x.isEnd ==> !(apply(callback, filter, x.data))
		use @exit lemma forall n *Node[T], k any, x *Node[T]: reachFront(n, k, x)
		use @exit induct nreach(node, x *Node[T]) by x == node || exists k in dom(node.child): nreach(node.child[k], x)
	}
}
