package utils

// ---- C07: the language of a pattern --------------------------------------
// matchFrom(v, i, p, j): the rest of v from i is generated by the rest of the
// pattern p from j.
pred sep(c byte) = c == '/' || c == ' '
rec segEnd(s string, i int) int = if i < len(s) && !sep(s[i]) then segEnd(s, i+1) else i
rec matchFrom(v string, i int, p string, j int) bool =
    if j >= len(p) then i >= len(v)
    else if p[j] == '*' then matchFrom(v, i, p, j+1) || i < len(v) && matchFrom(v, i+1, p, j)
    else if p[j] == ':' then i < len(v) && !sep(v[i]) && matchFrom(v, segEnd(v, i+1), p, segEnd(p, j+1))
    else i < len(v) && v[i] == p[j] && matchFrom(v, i+1, p, j+1)

lemma segEndBound(s string, i int) {
	requires 0 <= i && i <= len(s)
	ensures i <= segEnd(s, i) && segEnd(s, i) <= len(s)
	measure len(s) - i
	trigger segEnd(s, i)
}

lemma segEndStop(s string, i int) {
	requires 0 <= i && i <= len(s)
	ensures segEnd(s, i) < len(s) ==> sep(s[segEnd(s, i)])
	measure len(s) - i
	trigger segEnd(s, i)
	use lemma forall s string, i int: segEndBound(s, i)
}

lemma segEndMono(s string, i int, k int) {
	requires 0 <= i && i <= k && k <= len(s)
	ensures segEnd(s, i) <= segEnd(s, k)
	measure len(s) - i
	trigger segEnd(s, i), segEnd(s, k)
	use lemma forall s string, i int: segEndBound(s, i)
}

// '*' at j: matching from i means matching the rest from some later position
lemma starMono(v string, i int, k int, p string, j int) {
	requires 0 <= j && j < len(p) && p[j] == '*' && 0 <= i && i <= k && k <= len(v) && matchFrom(v, k, p, j)
	ensures matchFrom(v, i, p, j)
	measure k - i
	trigger matchFrom(v, i, p, j), matchFrom(v, k, p, j)
}

lemma starSome(v string, i int, p string, j int) {
	requires 0 <= j && j < len(p) && p[j] == '*' && 0 <= i && i <= len(v) && matchFrom(v, i, p, j)
	ensures exists k int: i <= k && k <= len(v) && matchFrom(v, k, p, j+1)
	measure len(v) - i
	trigger matchFrom(v, i, p, j)
}

lemma starIntro(v string, i int, k int, p string, j int, q int) {
	requires 0 <= j && j < len(p) && p[j] == '*' && q == j+1 && 0 <= i && i <= k && k <= len(v) && matchFrom(v, k, p, q)
	ensures matchFrom(v, i, p, j)
	measure k - i
	trigger matchFrom(v, i, p, j), matchFrom(v, k, p, q)
}

// a last '*' matches every rest
lemma starEnd(v string, i int, p string, j int) {
	requires 0 <= j && j == len(p) - 1 && p[j] == '*' && 0 <= i && i <= len(v)
	ensures matchFrom(v, i, p, j)
	measure len(v) - i
	trigger matchFrom(v, i, p, j)
}

fn MatchResource(value, pattern) {
	props C07/term
	ensures exact: result <==> matchFrom(value, 0, pattern, 0)
	inv any vIndex int: 0 <= vIndex && vIndex <= len(value)
	inv any pIndex int: 0 <= pIndex && pIndex <= len(pattern)
	inv any vIndex int, pIndex int, starIndex int, retryIndex int:
	    retryIndex >= 0 && retryIndex <= vIndex && retryIndex <= len(value) && starIndex <= pIndex && starIndex >= 0-1
	inv any vIndex int, pIndex int, starIndex int, retryIndex int:
	    matchFrom(value, 0, pattern, 0) <==> matchFrom(value, vIndex, pattern, pIndex) || starIndex >= 0 && (exists k int {matchFrom(value, k, pattern, starIndex)}: retryIndex < k && k <= len(value) && matchFrom(value, k, pattern, starIndex))
	inv any vIndex int, pIndex int, starIndex int, retryIndex int:
	    starIndex >= 0 ==> forall k int {matchFrom(value, k, pattern, starIndex)}: retryIndex <= k && k <= len(value) && matchFrom(value, k, pattern, starIndex) ==> exists i int {matchFrom(value, i, pattern, pIndex)}: vIndex <= i && i <= len(value) && matchFrom(value, i, pattern, pIndex)
	inv any vIndex int: segEnd(value, vIndex) == segEnd(value, before(vIndex)) 
	inv any endIndex int: segEnd(pattern, endIndex) == segEnd(pattern, before(endIndex)) && endIndex <= len(pattern)
	variant any vIndex int, pIndex int, starIndex int, retryIndex int: len(pattern) - starIndex, len(value) - retryIndex, len(pattern) - pIndex
	use @loop lemma forall s string, i int: segEndBound(s, i)
	use @loop lemma forall s string, i int: segEndStop(s, i)
	use @loop lemma forall s string, i int, k int: segEndMono(s, i, k)
	use @loop lemma forall v string, i int, k int, p string, j int: starMono(v, i, k, p, j)
	use @loop lemma forall v string, i int, p string, j int: starSome(v, i, p, j)
	use @loop lemma forall v string, i int, k int, p string, j int, q int: starIntro(v, i, k, p, j, q)
	use @loop lemma forall v string, i int, p string, j int: starEnd(v, i, p, j)
}

fn ToString(val) {
	props C13
	requires val == nil || typeis(val, string)
	ensures string: typeis(val, string) ==> result == as(val, string)
	ensures none: val == nil ==> result == ""
}
fn FromByte(b) {
	trusted "unsafe conversion; only reached for []byte identifiers, which the contracts exclude"
}

// ---- C19: collections ----------------------------------------------------
fn Contains(slice, elem) {
	props C19
	ensures exact: result <==> elem in slice
	inv !(elem in #done)
}
fn Compact(slice) {
	props C19
	ensures values: forall v any: v in result <==> v in slice
	ensures once: forall i int, j int {result[i], result[j]}: 0 <= i && i < j && j < len(result) ==> result[i] != result[j]
	inv any rs []any: forall v any: v in rs <==> v in #done
	inv any keys map[any]struct{}: forall v any: v in dom(keys) <==> v in #done
	inv any rs []any: forall i int, j int {rs[i], rs[j]}: 0 <= i && i < j && j < len(rs) ==> rs[i] != rs[j]
}
fn FilterByFields(filter, row, fields) {
	props C19
	requires forall f in fields: f != nil
	ensures exact: result <==> forall f in fields: apply(f, row) != nil && apply(f, row) == apply(f, filter)
	inv forall f in #done: apply(f, row) != nil && apply(f, row) == apply(f, filter)
}
fn JoinSlices(left, right, joinFn, combineFn) {
	props C19
	requires joinFn != nil && combineFn != nil
	ensures pairs: forall v V: v in result <==> exists l in left, r in right: apply(joinFn, l, r) && v == apply(combineFn, l, r)
	inv any rs []V: forall v V: v in rs <==> exists l in #done, r in right: apply(joinFn, l, r) && v == apply(combineFn, l, r)
	inv any rs []V, l T: forall v V: v in rs <==> v in before(rs) || exists r in #done: apply(joinFn, l, r) && v == apply(combineFn, l, r)
}
fn IsNil(value) {
	props C19
	ensures result <==> value == nil
}
fn Match(value, filter) {
	props C19
	ensures result <==> value == filter
}

// ---- C15: the wrappers around sync.Pool -------------------------------------
fn NewSlicePool(size) {
	props C15, C15/own
	requires size >= 0
}
fn SlicePool.Get(p) {
	props C15, C15/own
	requires p != nil
	ensures empty: len(result) == 0
}
fn SlicePool.Put(p, s) {
	props C15, C15/own
	requires p != nil
}
fn New(fn) {
	props C15, C15/own
	requires fn != nil
}
fn Pool.Get(p) {
	props C15, C15/own
	requires p != nil
}
fn Pool.Put(p, x) {
	props C15, C15/own
	requires p != nil
}
