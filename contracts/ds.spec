package ds

// ---- C17: lists ------------------------------------------------------------
// the elements of a list, in order
rec elems(l Link[A]) []A =
    if typeis(l, *appendLink[A]) then build(elems(as(l, *appendLink[A]).next), as(l, *appendLink[A]).element)
    else if typeis(l, *concatLink[A]) then cat(elems(as(l, *concatLink[A]).left), elems(as(l, *concatLink[A]).right))
    else zero([]A)
pred links(l Link[A]) = (forall a *appendLink[A]: a.next != nil)
    && (forall c *concatLink[A]: c.left != nil && c.right != nil && len(elems(c.left)) > 0)

fn Empty() {
	props C17
	ensures empty: result != nil && len(elems(result)) == 0
}
fn Link.IsEmpty(l) {
	props C17
	requires links(l)
	ensures exact: result <==> len(elems(l)) == 0
}
fn Link.Append(l, element) {
	props C17
	requires links(l)
	ensures appended: result != nil && sameseq(elems(result), build(elems(l), element))
	ensures links(l)
}
fn Link.Concat(l, other) {
	props C17
	requires links(l) && other != nil
	ensures joined: result != nil && sameseq(elems(result), cat(elems(l), elems(other)))
	ensures links(l)
}
fn Link.AsSlice(l) {
	props C17
	requires links(l)
	ensures elements: sameseq(result, elems(l))
	inv any slice []A: sameseq(slice, cat(before(slice), #done))
}
