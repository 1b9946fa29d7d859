package main

// Go types -> SMT sorts, program state, heap model.

import (
	"fmt"
	"go/types"
	"strings"
)

type setT struct{ elem types.Type }

func (s *setT) Underlying() types.Type { return s }
func (s *setT) String() string         { return "set[" + s.elem.String() + "]" }

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func qual(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string {
	return san(strings.ReplaceAll(strings.ReplaceAll(types.TypeString(t, qual), "interface{}", "any"), "*", "ptr."))
}

// ---- substitution of type parameters ----

func substT(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	if len(m) == 0 {
		return t
	}
	switch t := t.(type) {
	case *types.TypeParam:
		if r, ok := m[t]; ok {
			return r
		}
		return t
	case *types.Alias:
		return substT(types.Unalias(t), m)
	case *types.Pointer:
		return types.NewPointer(substT(t.Elem(), m))
	case *types.Slice:
		return types.NewSlice(substT(t.Elem(), m))
	case *types.Array:
		return types.NewArray(substT(t.Elem(), m), t.Len())
	case *types.Map:
		return types.NewMap(substT(t.Key(), m), substT(t.Elem(), m))
	case *types.Named:
		ta := t.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return t
		}
		var as []types.Type
		for i := 0; i < ta.Len(); i++ {
			as = append(as, substT(ta.At(i), m))
		}
		r, err := types.Instantiate(nil, t.Origin(), as, false)
		if err != nil {
			unsup("instantiate %v: %v", t, err)
		}
		return r
	case *types.Signature:
		tup := func(x *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < x.Len(); i++ {
				v := x.At(i)
				vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substT(v.Type(), m)))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(t.Params()), tup(t.Results()), t.Variadic())
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			v := t.At(i)
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substT(v.Type(), m)))
		}
		return types.NewTuple(vs...)
	}
	return t
}

func isIMap(t types.Type) (k, v types.Type, ok bool) {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok { // the container behind the interface
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.TypeArgs() != nil && n.TypeArgs().Len() == 2 {
			pp := n.Obj().Pkg().Path()
			if n.Obj().Name() == "Map" && strings.HasSuffix(pp, "oarkflow/maps") || n.Obj().Name() == "MapOf" && strings.HasSuffix(pp, "oarkflow/xsync") {
				return n.TypeArgs().At(0), n.TypeArgs().At(1), true
			}
		}
		return nil, nil, false
	}
	n, isN := t.(*types.Named)
	if !isN || n.Obj().Name() != "IMap" || n.TypeArgs() == nil || n.TypeArgs().Len() != 2 {
		return nil, nil, false
	}
	return n.TypeArgs().At(0), n.TypeArgs().At(1), true
}

// mapParts recognises Go maps and the external IMap containers.
func mapParts(t types.Type) (k, v types.Type, ok bool) {
	if k, v, ok := isIMap(t); ok {
		return k, v, true
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Key(), m.Elem(), true
	}
	return nil, nil, false
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isNamedIn(t types.Type, pkgpath string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgpath
}

func isMutex(t types.Type) bool { return isNamedIn(t, "sync") }

func elemOf(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Array:
		return x.Elem()
	}
	return nil
}

func isFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func isStruct(t types.Type) (*types.Struct, bool) {
	if isTime(t) || isMutex(t) {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (u *Unit) sortOf(t types.Type) string {
	if s, ok := t.(*setT); ok {
		return ArrSort(u.sortOf(s.elem), SBool)
	}
	t = types.Unalias(t)
	if isTime(t) {
		return SInt
	}
	if _, _, ok := mapParts(t); ok {
		return SInt
	}
	if tp, ok := t.(*types.TypeParam); ok {
		s := "TP_" + san(tp.Obj().Name())
		u.usort(s)
		return s
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsString != 0:
			return SStr
		case x.Info()&types.IsBoolean != 0:
			return SBool
		case x.Info()&types.IsInteger != 0:
			return SInt
		case x.Kind() == types.UntypedNil:
			return SAny
		default:
			u.usort("Other")
			return "Other"
		}
	case *types.Pointer:
		return SInt
	case *types.Slice:
		return u.seqSort(u.sortOf(x.Elem()))
	case *types.Array:
		return u.seqSort(u.sortOf(x.Elem()))
	case *types.Signature:
		return SFn
	case *types.Interface:
		return SAny
	case *types.Struct:
		if isMutex(t) {
			return SUnit
		}
		if x.NumFields() == 0 {
			return SUnit
		}
		return u.structSort(t, x)
	case *types.Chan:
		u.usort("Other")
		return "Other"
	}
	unsup("type %v", t)
	return ""
}

func (u *Unit) usort(s string) { u.usorts[s] = true }

func mangle(s string) string {
	r := strings.NewReplacer("(", "", ")", "", " ", "_")
	return r.Replace(s)
}

func (u *Unit) seqSort(es string) string {
	s := "Seq_" + mangle(es)
	u.seqs[s] = es
	return s
}

type structInfo struct {
	sort   string
	fields []*types.Var
	sorts  []string
	typ    types.Type
}

func (u *Unit) structSort(t types.Type, s *types.Struct) string {
	name := "S_" + typeKey(t)
	if si, ok := u.structs[name]; ok {
		if si.sorts == nil && s.NumFields() > 0 && si.busy() {
			unsup("recursive struct value %v", t)
		}
		return name
	}
	si := &structInfo{sort: name, typ: t}
	u.structs[name] = si
	for i := 0; i < s.NumFields(); i++ {
		si.fields = append(si.fields, s.Field(i))
		si.sorts = append(si.sorts, u.sortOf(s.Field(i).Type()))
	}
	u.structOrder = append(u.structOrder, name)
	return name
}
func (si *structInfo) busy() bool { return false }

func (u *Unit) mkStruct(t types.Type, vals []*Term) *Term {
	s := u.sortOf(t)
	if s == SUnit {
		return u.c.mk("unit", SUnit)
	}
	return u.c.mk("mk."+s, s, vals...)
}

func (u *Unit) structFields(t types.Type) []*types.Var {
	st, ok := isStruct(t)
	if !ok {
		unsup("not a struct: %v", t)
	}
	var fs []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, st.Field(i))
	}
	return fs
}

// fieldOf selects field i of a struct value.
func (u *Unit) fieldOf(v *Term, t types.Type, i int) *Term {
	if v.sort == SUnit {
		unsup("field of unit")
	}
	if strings.HasPrefix(v.op, "mk.") && len(v.args) > i {
		return v.args[i]
	}
	f := u.structFields(t)[i]
	if v.op == "ite" {
		return u.c.Ite(v.args[0], u.fieldOf(v.args[1], t, i), u.fieldOf(v.args[2], t, i))
	}
	return u.c.mk(fmt.Sprintf("%s.%s.%d", v.sort, san(f.Name()), i), u.sortOf(f.Type()), v)
}

func (u *Unit) setFieldOf(v *Term, t types.Type, i int, x *Term) *Term {
	fs := u.structFields(t)
	vals := make([]*Term, len(fs))
	for k := range fs {
		if k == i {
			vals[k] = x
		} else {
			vals[k] = u.fieldOf(v, t, k)
		}
	}
	return u.mkStruct(t, vals)
}

func (u *Unit) zero(t types.Type) *Term {
	c := u.c
	if isTime(t) {
		return c.Const("time.zero", SInt)
	}
	if _, _, ok := mapParts(t); ok {
		return c.Int(0)
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return c.Const("zero!"+u.sortOf(t), u.sortOf(t))
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch u.sortOf(t) {
		case SStr:
			return u.strLit("")
		case SBool:
			return c.False()
		case SInt:
			return c.Int(0)
		}
	case *types.Pointer:
		return c.Int(0)
	case *types.Slice:
		return u.seqNil(u.sortOf(t))
	case *types.Array:
		s := c.Fresh("arr", u.sortOf(t))
		u.fact(c.Eq(u.seqLen(s), c.Int(x.Len())))
		i := c.BVar("i", SInt)
		at := u.seqAt(s, i)
		u.fact(c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(x.Len()))), c.Eq(at, u.zero(x.Elem()))), []*Term{at}))
		return s
	case *types.Signature:
		return c.Const("fn.nil", SFn)
	case *types.Interface:
		return u.anyNil()
	case *types.Struct:
		if u.sortOf(t) == SUnit {
			return c.mk("unit", SUnit)
		}
		var vs []*Term
		for _, f := range u.structFields(t) {
			vs = append(vs, u.zero(f.Type()))
		}
		return u.mkStruct(t, vs)
	}
	s := u.sortOf(t)
	return c.Const("zero!"+mangle(s), s)
}

// ---- strings ----

func (u *Unit) strLit(s string) *Term {
	if t, ok := u.lits[s]; ok {
		return t
	}
	t := u.c.Const(fmt.Sprintf("lit!%d", len(u.lits)), SStr)
	u.lits[s] = t
	u.litOrder = append(u.litOrder, s)
	return t
}
func (u *Unit) slen(s *Term) *Term   { return u.c.App("str.length", SInt, s) }
func (u *Unit) sat(s, i *Term) *Term { return u.c.App("str.byte", SInt, s, i) }
func (u *Unit) scat(a, b *Term) *Term {
	if a == u.strLit("") {
		return b
	}
	if b == u.strLit("") {
		return a
	}
	if a.op == "str.cat" { // right-associate
		return u.scat(a.args[0], u.scat(a.args[1], b))
	}
	return u.c.App("str.cat", SStr, a, b)
}
func (u *Unit) ssub(s, i, j *Term) *Term { return u.c.App("str.sub", SStr, s, i, j) }

// ---- sequences ----

func (u *Unit) es(s string) string {
	es, ok := u.seqs[s]
	if !ok {
		panic("not a seq sort: " + s)
	}
	return es
}
func fnm(f, s string) string { return f + "." + s }
func (u *Unit) seqLen(s *Term) *Term {
	switch {
	case strings.HasPrefix(s.op, "seq.nil."), strings.HasPrefix(s.op, "seq.empty."):
		return u.c.Int(0)
	case strings.HasPrefix(s.op, "seq.build."):
		return u.c.Add(u.seqLen(s.args[0]), u.c.Int(1))
	}
	return u.c.App(fnm("seq.len", s.sort), SInt, s)
}
func (u *Unit) seqAt(s, i *Term) *Term {
	return u.c.App(fnm("seq.at", s.sort), u.es(s.sort), s, i)
}
func (u *Unit) seqMem(s, x *Term) *Term {
	if strings.HasPrefix(s.op, "seq.nil.") || strings.HasPrefix(s.op, "seq.empty.") {
		return u.c.False()
	}
	return u.c.App(fnm("seq.mem", s.sort), SBool, s, x)
}
func (u *Unit) seqNil(sort string) *Term   { return u.c.Const(fnm("seq.nil", sort), sort) }
func (u *Unit) seqEmpty(sort string) *Term { return u.c.Const(fnm("seq.empty", sort), sort) }
func (u *Unit) seqBuild(s, x *Term) *Term {
	return u.c.App(fnm("seq.build", s.sort), s.sort, s, x)
}
func (u *Unit) seqCat(a, b *Term) *Term {
	return u.c.App(fnm("seq.cat", a.sort), a.sort, a, b)
}
func (u *Unit) seqSlice(s, i, j *Term) *Term {
	return u.c.App(fnm("seq.slice", s.sort), s.sort, s, i, j)
}
func (u *Unit) seqUpd(s, i, x *Term) *Term {
	return u.c.App(fnm("seq.upd", s.sort), s.sort, s, i, x)
}
func (u *Unit) seqIsNil(s *Term) *Term {
	return u.c.App(fnm("seq.isnil", s.sort), SBool, s)
}

// take emits the ground facts that make prefixes usable.
func (u *Unit) take(s, k *Term) *Term {
	t := u.seqSlice(s, u.c.Int(0), k)
	return t
}

// ---- interface values ----

func (u *Unit) anyNil() *Term { return u.c.Const("any.nil", SAny) }

func (u *Unit) box(v *Term, t types.Type) *Term {
	if v.sort == SAny {
		return v
	}
	k := u.boxKey(t)
	u.boxes[k] = v.sort
	return u.c.App("box."+k, SAny, v)
}
func (u *Unit) boxKey(t types.Type) string {
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		t = types.Default(t)
	}
	return typeKey(t)
}
func (u *Unit) unbox(v *Term, t types.Type) *Term {
	k := u.boxKey(t)
	s := u.sortOf(t)
	u.boxes[k] = s
	if v.op == "box."+k {
		return v.args[0]
	}
	return u.c.App("unbox."+k, s, v)
}
func (u *Unit) hasType(v *Term, t types.Type) *Term {
	k := u.boxKey(t)
	u.boxes[k] = u.sortOf(t)
	if v.op == "box."+k {
		return u.c.True()
	}
	if strings.HasPrefix(v.op, "box.") || v.op == "any.nil" {
		return u.c.False()
	}
	return u.c.Eq(u.c.App("any.tag", SInt, v), u.c.Const("tag."+k, SInt))
}

// ---- heap ----

type State struct {
	pc     *Term
	vars   map[vkey]*Term
	heap   map[string]*Term
	defers []deferred
}

type vkey struct {
	f *Frame
	v types.Object
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, vars: make(map[vkey]*Term, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), defers: append([]deferred(nil), s.defers...)}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

// compInfo describes a heap component.
type compInfo struct {
	name  string
	sort  string
	kind  string // F field, D dom, V val, N next, C cell, G global, X ghost
	owner string // ref key owning the index (F,C: pointer; D,V: map)
	vtyp  types.Type
	ktyp  types.Type
}

func refKey(t types.Type) string {
	if k, v, ok := mapParts(t); ok {
		if _, _, im := isIMap(t); im {
			return "imap." + typeKey(k) + "." + typeKey(v)
		}
		return "map." + typeKey(k) + "." + typeKey(v)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return "ptr." + typeKey(p.Elem())
	}
	return ""
}

func (u *Unit) comp(ci *compInfo) *compInfo {
	if o, ok := u.comps[ci.name]; ok {
		return o
	}
	u.comps[ci.name] = ci
	return ci
}

func (u *Unit) nextComp(rk string) *compInfo {
	return u.comp(&compInfo{name: "N!" + rk, sort: SInt, kind: "N"})
}
func (u *Unit) fieldComp(structT types.Type, f *types.Var) *compInfo {
	return u.comp(&compInfo{name: "F!" + typeKey(structT) + "!" + f.Name(), sort: ArrSort(SInt, u.sortOf(f.Type())), kind: "F", owner: "ptr." + typeKey(structT), vtyp: f.Type()})
}
func (u *Unit) cellComp(t types.Type) *compInfo {
	return u.comp(&compInfo{name: "C!" + typeKey(t), sort: ArrSort(SInt, u.sortOf(t)), kind: "C", owner: "ptr." + typeKey(t), vtyp: t})
}
func (u *Unit) domComp(mt types.Type) *compInfo {
	k, _, _ := mapParts(mt)
	rk := refKey(mt)
	return u.comp(&compInfo{name: "D!" + rk, sort: ArrSort(SInt, ArrSort(u.sortOf(k), SBool)), kind: "D", owner: rk, ktyp: k})
}
func (u *Unit) valComp(mt types.Type) *compInfo {
	k, v, _ := mapParts(mt)
	rk := refKey(mt)
	return u.comp(&compInfo{name: "V!" + rk, sort: ArrSort(SInt, ArrSort(u.sortOf(k), u.sortOf(v))), kind: "V", owner: rk, ktyp: k, vtyp: v})
}
func (u *Unit) globalComp(v *types.Var) *compInfo {
	return u.comp(&compInfo{name: "G!" + v.Pkg().Name() + "." + v.Name(), sort: u.sortOf(v.Type()), kind: "G", vtyp: v.Type()})
}

// H reads the current value of a heap component (lazily creating its initial value).
func (u *Unit) H(st *State, ci *compInfo) *Term {
	if u.readLog != nil {
		u.readLog(ci)
	}
	if t, ok := st.heap[ci.name]; ok {
		return t
	}
	return u.H0(ci)
}
func (u *Unit) H0(ci *compInfo) *Term {
	t := u.c.Const(ci.name+"@0", ci.sort)
	if !u.wf0[ci.name] {
		u.wf0[ci.name] = true
		u.globals = append(u.globals, u.wfComp(&State{pc: u.c.True(), heap: map[string]*Term{}}, ci, t)...)
		if strings.HasPrefix(ci.name, "X!released.") || strings.HasPrefix(ci.name, "X!putval.") || strings.HasPrefix(ci.name, "X!taken.") {
			is, _ := arrParts(ci.sort)
			r := u.c.BVar("r", is)
			u.globals = append(u.globals, u.c.Forall([]*Term{r}, u.c.Not(u.c.Select(t, r)), []*Term{u.c.Select(t, r)}))
		}
	}
	return t
}

func (u *Unit) setH(st *State, ci *compInfo, t *Term) {
	st.heap[ci.name] = u.name(ci.name, t)
}

// name introduces a constant for a big term so that terms stay small.
func (u *Unit) name(hint string, t *Term) *Term {
	if t.size < 6 {
		return t
	}
	n := u.c.Fresh(hint, t.sort)
	u.fact(u.c.Eq(n, t))
	u.defs[n] = t
	return n
}

func (u *Unit) next(st *State, rk string) *Term { return u.H(st, u.nextComp(rk)) }

// wfVal: facts every value of Go type t satisfies in st.
func (u *Unit) wfVal(st *State, v *Term, t types.Type) []*Term {
	c := u.c
	if _, ok := t.(*setT); ok {
		return nil
	}
	if rk := refKey(t); rk != "" {
		return []*Term{c.Le(c.Int(0), v), c.Lt(v, u.next(st, rk))}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Kind() == types.Uint8 {
			return []*Term{c.Le(c.Int(0), v), c.Lt(v, c.Int(256))}
		}
		if b.Info()&types.IsUnsigned != 0 {
			return []*Term{c.Le(c.Int(0), v)}
		}
		return nil
	}
	if et := elemOf(t); et != nil {
		i := c.BVar("i", SInt)
		at := u.seqAt(v, i)
		var out []*Term
		for _, f := range u.wfVal(st, at, et) {
			out = append(out, c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, u.seqLen(v))), f), []*Term{at}))
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			out = append(out, c.Eq(u.seqLen(v), c.Int(a.Len())))
		}
		return out
	}
	if _, ok := isStruct(t); ok && v.sort != SUnit {
		var out []*Term
		for i, f := range u.structFields(t) {
			out = append(out, u.wfVal(st, u.fieldOf(v, t, i), f.Type())...)
		}
		return out
	}
	return nil
}

// wfComp: well-formedness of a heap component value h in st.
func (u *Unit) wfComp(st *State, ci *compInfo, h *Term) []*Term {
	c := u.c
	switch ci.kind {
	case "N":
		return []*Term{c.Le(c.Int(1), h)}
	case "F", "C":
		r := c.BVar("r", SInt)
		sel := c.Select(h, r)
		var out []*Term
		for _, f := range u.wfVal(st, sel, ci.vtyp) {
			out = append(out, u.closeRef(st, ci, r, sel, f))
		}
		return out
	case "D":
		e := c.ConstArr(ArrSort(u.sortOf(ci.ktyp), SBool), c.False())
		return []*Term{c.Eq(c.Select(h, c.Int(0)), e)}
	case "V":
		r := c.BVar("r", SInt)
		k := c.BVar("k", u.sortOf(ci.ktyp))
		dn := &compInfo{name: "D!" + ci.owner, sort: ArrSort(SInt, ArrSort(u.sortOf(ci.ktyp), SBool)), kind: "D", owner: ci.owner, ktyp: ci.ktyp}
		dom := u.H(st, u.comp(dn))
		sel := c.Select(c.Select(h, r), k)
		var out []*Term
		for _, f := range u.wfVal(st, sel, ci.vtyp) {
			g := c.And(c.Lt(c.Int(0), r), c.Lt(r, u.next(st, ci.owner)), c.Select(c.Select(dom, r), k))
			if f.op == "forall" { // nested (slice elements)
				body := f.args[0]
				vars := append([]*Term{r, k}, f.vars...)
				out = append(out, c.Forall(vars, c.Implies(g, body), f.pats[0]))
			} else {
				out = append(out, c.Forall([]*Term{r, k}, c.Implies(g, f), []*Term{sel}))
			}
		}
		return out
	case "G":
		return u.wfVal(st, h, ci.vtyp)
	}
	return nil
}

func (u *Unit) closeRef(st *State, ci *compInfo, r, sel, f *Term) *Term {
	c := u.c
	g := c.And(c.Lt(c.Int(0), r), c.Lt(r, u.next(st, ci.owner)))
	if f.op == "forall" {
		vars := append([]*Term{r}, f.vars...)
		return c.Forall(vars, c.Implies(g, f.args[0]), f.pats[0])
	}
	return c.Forall([]*Term{r}, c.Implies(g, f), []*Term{sel})
}

// ---- structured heap access ----

func (u *Unit) readField(st *State, ref *Term, structT types.Type, i int) *Term {
	f := u.structFields(structT)[i]
	return u.c.Select(u.H(st, u.fieldComp(structT, f)), ref)
}
func (u *Unit) writeField(st *State, ref *Term, structT types.Type, i int, v *Term) {
	f := u.structFields(structT)[i]
	ci := u.fieldComp(structT, f)
	u.logWrite(ci, ref)
	u.setH(st, ci, u.c.Store(u.H(st, ci), ref, v))
}
func (u *Unit) mapDom(st *State, m *Term, mt types.Type) *Term {
	return u.c.Select(u.H(st, u.domComp(mt)), m)
}
func (u *Unit) mapHas(st *State, m *Term, mt types.Type, k *Term) *Term {
	return u.c.Select(u.mapDom(st, m, mt), k)
}
func (u *Unit) mapRaw(st *State, m *Term, mt types.Type, k *Term) *Term {
	return u.c.Select(u.c.Select(u.H(st, u.valComp(mt)), m), k)
}
func (u *Unit) mapGet(st *State, m *Term, mt types.Type, k *Term) *Term {
	_, vt, _ := mapParts(mt)
	if u.sortOf(vt) == SUnit {
		return u.c.mk("unit", SUnit)
	}
	return u.c.Ite(u.mapHas(st, m, mt, k), u.mapRaw(st, m, mt, k), u.zero(vt))
}
func (u *Unit) mapSet(st *State, m *Term, mt types.Type, k, v *Term) {
	c := u.c
	d := u.domComp(mt)
	hd := u.H(st, d)
	u.logWrite(d, m)
	nd := c.Store(c.Select(hd, m), k, c.True())
	u.setH(st, d, c.Store(hd, m, nd))
	_, vt, _ := mapParts(mt)
	if u.sortOf(vt) != SUnit {
		vc := u.valComp(mt)
		u.logWrite(vc, m)
		hv := u.H(st, vc)
		u.setH(st, vc, c.Store(hv, m, c.Store(c.Select(hv, m), k, v)))
	}
}
func (u *Unit) mapDel(st *State, m *Term, mt types.Type, k *Term) {
	c := u.c
	d := u.domComp(mt)
	u.logWrite(d, m)
	hd := u.H(st, d)
	u.setH(st, d, c.Store(hd, m, c.Store(c.Select(hd, m), k, c.False())))
}
func (u *Unit) mapClear(st *State, m *Term, mt types.Type) {
	c := u.c
	d := u.domComp(mt)
	u.logWrite(d, m)
	hd := u.H(st, d)
	_, ds := arrParts(d.sort)
	u.setH(st, d, c.Store(hd, m, c.ConstArr(ds, c.False())))
}
func (u *Unit) card(set *Term) *Term {
	if strings.HasPrefix(set.op, "(as const") && isFalse(set.args[0]) {
		return u.c.Int(0)
	}
	u.sets[set.sort] = true
	return u.c.App("card."+mangle(set.sort), SInt, set)
}

// alloc returns a fresh reference of ref type t.
func (u *Unit) alloc(st *State, t types.Type) *Term {
	rk := refKey(t)
	nc := u.nextComp(rk)
	r := u.H(st, nc)
	u.logWrite(nc, nil)
	st.heap[nc.name] = u.c.Add(r, u.c.Int(1))
	return r
}

// newMap allocates an empty map (contents stated on the current heap: the cell
// was unallocated so far, so nothing else is known about it).
func (u *Unit) newMap(st *State, t types.Type) *Term {
	r := u.alloc(st, t)
	_, ds := arrParts(u.domComp(t).sort)
	u.assume(st, u.c.Eq(u.mapDom(st, r, t), u.c.ConstArr(ds, u.c.False())))
	u.onAlloc(st, r, t)
	return r
}

func (u *Unit) newStruct(st *State, structT types.Type, vals []*Term) *Term {
	pt := types.NewPointer(structT)
	r := u.alloc(st, pt)
	for i, f := range u.structFields(structT) {
		if isMutex(f.Type()) {
			u.onNewMutex(st, r, structT, i)
			continue
		}
		u.assume(st, u.c.Eq(u.readField(st, r, structT, i), vals[i]))
	}
	u.onAlloc(st, r, pt)
	return r
}
func (u *Unit) newCell(st *State, t types.Type, v *Term) *Term {
	pt := types.NewPointer(t)
	r := u.alloc(st, pt)
	u.assume(st, u.c.Eq(u.c.Select(u.H(st, u.cellComp(t)), r), v))
	return r
}

func (u *Unit) loadPtr(st *State, r *Term, elem types.Type) *Term {
	if _, ok := isStruct(elem); ok {
		var vs []*Term
		for i, f := range u.structFields(elem) {
			if isMutex(f.Type()) {
				vs = append(vs, u.c.mk("unit", SUnit))
				continue
			}
			vs = append(vs, u.readField(st, r, elem, i))
		}
		return u.mkStruct(elem, vs)
	}
	return u.c.Select(u.H(st, u.cellComp(elem)), r)
}
func (u *Unit) storePtr(st *State, r *Term, elem types.Type, v *Term) {
	if _, ok := isStruct(elem); ok {
		for i, f := range u.structFields(elem) {
			if isMutex(f.Type()) {
				continue
			}
			u.writeField(st, r, elem, i, u.fieldOf(v, elem, i))
		}
		return
	}
	ci := u.cellComp(elem)
	u.logWrite(ci, r)
	u.setH(st, ci, u.c.Store(u.H(st, ci), r, v))
}
