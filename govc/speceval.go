package main

// Evaluation of specification expressions to SMT terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

type SVal struct {
	t   *Term
	typ types.Type
}

type SEnv struct {
	u        *Unit
	pkg      *Pkg
	tp       map[string]types.Type
	names    map[string]SVal
	metavars map[string]vkey
	lookup   func(e *SEnv, name string) (SVal, bool)
	st       *State
	old      *State
	before   *State
	ghosts   []*loopGhost
	indSub   map[string]func(args []SVal) *Term
	depth    int
	recFuel  int
	baseFuel int // 2 - fuel of applications outside definitions
	recSelf  string
	known    []*Term // facts under which the current subexpression is evaluated
}

// assuming adds the conjuncts of t to the known facts.
func (e *SEnv) assuming(t *Term) *SEnv {
	n := *e
	n.known = append(append([]*Term{}, e.known...), flatAnd(t)...)
	return &n
}

func (e *SEnv) knows(t *Term) bool {
	for _, k := range e.known {
		if k == t {
			return true
		}
	}
	return false
}

func (e *SEnv) fail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (u *Unit) newEnv(pkg *Pkg, st, old *State) *SEnv {
	return &SEnv{u: u, pkg: pkg, names: map[string]SVal{}, st: st, old: old}
}

func (e *SEnv) with(names map[string]SVal) *SEnv {
	n := *e
	n.names = map[string]SVal{}
	for k, v := range e.names {
		n.names[k] = v
	}
	for k, v := range names {
		n.names[k] = v
	}
	return &n
}

func (e *SEnv) tryBool(x *Ex) (t *Term, err error) {
	v, err := e.tryTerm(x)
	if err != nil {
		return nil, err
	}
	if v.t.sort != SBool {
		return nil, fmt.Errorf("not a boolean")
	}
	return v.t, nil
}

func (e *SEnv) tryTerm(x *Ex) (v SVal, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case specErr:
				err = r
			case unsupported:
				err = fmt.Errorf("%s", r.msg)
			case string:
				err = fmt.Errorf("%s", r)
			default:
				panic(r)
			}
		}
	}()
	e.u.inSpec++
	defer func() { e.u.inSpec-- }()
	return e.ev(x), nil
}

// mustBool evaluates a clause that has to be well-formed.
func (e *SEnv) mustBool(x *Ex, what string) *Term {
	t, err := e.tryBool(x)
	if err != nil {
		panic(unsupported{what + ": " + err.Error()})
	}
	return t
}

// ---------- types ----------

func (e *SEnv) tryType(s string) (t types.Type, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	p := mkParser(s)
	return e.typ(p), nil
}
func (e *SEnv) mustType(s string) types.Type {
	t, err := e.tryType(s)
	if err != nil {
		e.fail("type %s: %v", s, err)
	}
	return t
}

func (e *SEnv) typ(p *parser_) types.Type {
	t := p.next()
	switch {
	case t.k == "op" && t.s == "*":
		return types.NewPointer(e.typ(p))
	case t.k == "op" && t.s == "[":
		if p.isOp("]") {
			p.next()
			return types.NewSlice(e.typ(p))
		}
		n := atoi(p.next().s)
		p.expect("]")
		return types.NewArray(e.typ(p), int64(n))
	case t.k == "id" && (t.s == "map" || t.s == "set"):
		p.expect("[")
		k := e.typ(p)
		p.expect("]")
		if t.s == "set" {
			return &setT{k}
		}
		return types.NewMap(k, e.typ(p))
	case t.k == "id" && t.s == "func":
		p.expect("(")
		var ps, rs []*types.Var
		for !p.isOp(")") {
			ps = append(ps, types.NewVar(0, nil, "", e.typ(p)))
			if p.isOp(",") {
				p.next()
			}
		}
		p.expect(")")
		if p.peek().k == "id" || p.isOp("*") || p.isOp("[") {
			rs = append(rs, types.NewVar(0, nil, "", e.typ(p)))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), false)
	case t.k == "id" && t.s == "struct":
		p.expect("{")
		p.expect("}")
		return types.NewStruct(nil, nil)
	case t.k == "id":
		if r, ok := e.tp[t.s]; ok {
			return r
		}
		var obj types.Object
		if p.isOp(".") {
			p.next()
			n := p.next().s
			var tp *types.Package
			if q := e.u.pr.pkgByName(t.s); q != nil {
				tp = q.types
			} else {
				for _, im := range e.pkg.types.Imports() {
					if im.Name() == t.s {
						tp = im
					}
				}
			}
			if tp == nil {
				e.fail("unknown package %s", t.s)
			}
			obj = tp.Scope().Lookup(n)
		} else {
			if e.pkg != nil {
				obj = e.pkg.types.Scope().Lookup(t.s)
			}
			if obj == nil {
				obj = types.Universe.Lookup(t.s)
			}
		}
		tn, ok := obj.(*types.TypeName)
		if !ok {
			e.fail("unknown type %s", t.s)
		}
		r := tn.Type()
		if p.isOp("[") {
			p.next()
			var as []types.Type
			for !p.isOp("]") {
				as = append(as, e.typ(p))
				if p.isOp(",") {
					p.next()
				}
			}
			p.next()
			in, err := types.Instantiate(nil, types.Unalias(r).(*types.Named).Origin(), as, false)
			if err != nil {
				e.fail("%v", err)
			}
			return in
		}
		return r
	}
	e.fail("bad type")
	return nil
}

// ---------- expressions ----------

var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tNil = types.Typ[types.UntypedNil]

func (e *SEnv) b(t *Term) SVal { return SVal{t, tBool} }

func (e *SEnv) ev(x *Ex) SVal {
	u := e.u
	c := u.c
	switch x.k {
	case "int":
		return SVal{c.Int(int64(atoi(x.s))), tInt}
	case "char":
		r := []byte(x.s)
		if len(r) == 2 && r[0] == '\\' {
			switch r[1] {
			case 'n':
				r = []byte{10}
			default:
				r = r[1:]
			}
		}
		return SVal{c.Int(int64(r[0])), types.Typ[types.Uint8]}
	case "str":
		return SVal{u.strLit(x.s), types.Typ[types.String]}
	case "ident":
		return e.ident(x.s)
	case "old":
		if e.old == nil {
			e.fail("old() not available")
		}
		n := *e
		n.st = e.old
		return n.ev(x.a[0])
	case "let":
		v := e.ev(x.a[0])
		return e.with(map[string]SVal{x.s: v}).ev(x.a[1])
	case "ite":
		cd := e.ev(x.a[0])
		a, b := e.ev(x.a[1]), e.ev(x.a[2])
		a, b = e.unify(a, b)
		return SVal{c.Ite(cd.t, a.t, b.t), a.typ}
	case "sel":
		return e.sel(x)
	case "index":
		a := e.ev(x.a[0])
		i := e.ev(x.a[1])
		if s, ok := a.typ.(*setT); ok {
			i = e.conv(i, s.elem)
			return e.b(c.Select(a.t, i.t))
		}
		if kt, vt, ok := mapParts(a.typ); ok {
			i = e.conv(i, kt)
			t := u.mapGet(e.st, a.t, a.typ, i.t)
			if t.op == "ite" && e.knows(t.args[0]) {
				t = t.args[1]
			}
			return SVal{t, vt}
		}
		if a.t.sort == SStr {
			return SVal{u.sat(a.t, i.t), types.Typ[types.Uint8]}
		}
		if et := elemOf(a.typ); et != nil {
			return SVal{u.seqAt(a.t, i.t), et}
		}
		e.fail("cannot index %v", a.typ)
	case "slice":
		a := e.ev(x.a[0])
		lo := c.Int(0)
		if x.a[1] != nil {
			lo = e.ev(x.a[1]).t
		}
		if a.t.sort == SStr {
			hi := u.slen(a.t)
			if x.a[2] != nil {
				hi = e.ev(x.a[2]).t
			}
			return SVal{u.ssub(a.t, lo, hi), a.typ}
		}
		hi := u.seqLen(a.t)
		if x.a[2] != nil {
			hi = e.ev(x.a[2]).t
		}
		return SVal{u.seqSlice(a.t, lo, hi), a.typ}
	case "un":
		v := e.ev(x.a[0])
		switch x.s {
		case "!":
			return e.b(c.Not(v.t))
		case "-":
			return SVal{c.Sub(c.Int(0), v.t), v.typ}
		case "*":
			p, ok := v.typ.Underlying().(*types.Pointer)
			if !ok {
				e.fail("deref of %v", v.typ)
			}
			return SVal{u.loadPtr(e.st, v.t, p.Elem()), p.Elem()}
		}
	case "bin":
		return e.bin(x)
	case "quant":
		return e.b(e.quant(x))
	case "call":
		return e.call(x)
	}
	e.fail("cannot evaluate %s", x.k)
	return SVal{}
}

func (e *SEnv) ghost(name string) (SVal, bool) {
	n := strings.TrimLeft(name, "#")
	lvl := 1
	if len(n) > 0 && n[len(n)-1] >= '2' && n[len(n)-1] <= '9' {
		lvl = int(n[len(n)-1] - '0')
		n = n[:len(n)-1]
	}
	if lvl > len(e.ghosts) {
		return SVal{}, false
	}
	g := e.ghosts[len(e.ghosts)-lvl]
	u := e.u
	switch n {
	case "k":
		if g.kObj != nil {
			if v, ok := e.st.vars[vkey{g.f, g.kObj}]; ok {
				return SVal{v, tInt}, true
			}
		}
	case "s":
		if g.s != nil {
			return SVal{g.s, types.NewSlice(g.elem)}, true
		}
	case "done":
		if g.s != nil && g.kObj != nil {
			if v, ok := e.st.vars[vkey{g.f, g.kObj}]; ok {
				return SVal{u.take(g.s, v), types.NewSlice(g.elem)}, true
			}
		}
	case "seen":
		if g.seenObj != nil {
			if v, ok := e.st.vars[vkey{g.f, g.seenObj}]; ok {
				return SVal{v, &setT{g.keyT}}, true
			}
		}
	case "m":
		if g.m != nil {
			return SVal{g.m, g.mt}, true
		}
	}
	return SVal{}, false
}

func (e *SEnv) ident(s string) SVal {
	u := e.u
	if v, ok := e.names[s]; ok {
		return v
	}
	switch s {
	case "true":
		return e.b(u.c.True())
	case "false":
		return e.b(u.c.False())
	case "nil":
		return SVal{u.anyNil(), tNil}
	case "now":
		return SVal{u.c.Const("time.now", SInt), tInt}
	}
	if strings.HasPrefix(s, "#") {
		if v, ok := e.ghost(s); ok {
			return v
		}
		e.fail("no ghost %s here", s)
	}
	if e.lookup != nil {
		if v, ok := e.lookup(e, s); ok {
			return v
		}
	}
	if e.pkg != nil {
		if o := e.pkg.types.Scope().Lookup(s); o != nil {
			switch o := o.(type) {
			case *types.Const:
				return SVal{u.constTerm(o.Val(), o.Type()), o.Type()}
			case *types.Var:
				return SVal{u.H(e.st, u.globalComp(o)), o.Type()}
			case *types.Func:
				return SVal{u.fnVal(&FuncVal{obj: o, fi: u.pr.funcs[o.Origin()]}), o.Type()}
			}
		}
	}
	e.fail("unknown name %s", s)
	return SVal{}
}

func (e *SEnv) sel(x *Ex) SVal {
	u := e.u
	if x.a[0].k == "ident" {
		if _, bound := e.names[x.a[0].s]; !bound {
			if q := u.pr.pkgByName(x.a[0].s); q != nil && q != e.pkg {
				if o := q.types.Scope().Lookup(x.s); o != nil {
					switch o := o.(type) {
					case *types.Const:
						return SVal{u.constTerm(o.Val(), o.Type()), o.Type()}
					case *types.Var:
						return SVal{u.H(e.st, u.globalComp(o)), o.Type()}
					}
				}
			}
		}
	}
	v := e.ev(x.a[0])
	t := v.typ
	obj, path, _ := types.LookupFieldOrMethod(t, true, e.pkg.types, x.s)
	if _, ok := obj.(*types.Var); !ok {
		// field of another package's struct
		if n, isN := derefBase(t); isN && n.Obj().Pkg() != nil {
			obj, path, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), x.s)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		e.fail("no field %s in %v", x.s, t)
	}
	r := v.t
	for _, i := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			r = u.readField(e.st, r, t, i)
		} else {
			r = u.fieldOf(r, t, i)
		}
		t = u.structFields(t)[i].Type()
	}
	return SVal{r, t}
}

func derefBase(t types.Type) (*types.Named, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return n, ok
}

// conv converts v to type t (nil literals, boxing).
func (e *SEnv) conv(v SVal, t types.Type) SVal {
	u := e.u
	if _, ok := t.(*setT); ok {
		return v
	}
	if isNilT(v.typ) {
		return SVal{u.zero(t), t}
	}
	s := u.sortOf(t)
	if s == SAny && v.t.sort != SAny {
		return SVal{u.box(v.t, v.typ), t}
	}
	if s != v.t.sort {
		e.fail("sort mismatch: %v (%s) vs %v (%s)", v.typ, v.t.sort, t, s)
	}
	return v
}

func (e *SEnv) unify(a, b SVal) (SVal, SVal) {
	if isNilT(a.typ) && !isNilT(b.typ) {
		return e.conv(a, b.typ), b
	}
	if isNilT(b.typ) && !isNilT(a.typ) {
		return a, e.conv(b, a.typ)
	}
	if a.t.sort == SAny && b.t.sort != SAny {
		return a, e.conv(b, a.typ)
	}
	if b.t.sort == SAny && a.t.sort != SAny {
		return e.conv(a, b.typ), b
	}
	if a.t.sort != b.t.sort {
		e.fail("sort mismatch %s vs %s", a.t.sort, b.t.sort)
	}
	return a, b
}

// memOf: x in s, distributing over if-then-else.
func (u *Unit) memOf(s, x *Term) *Term {
	c := u.c
	if s.op == "ite" {
		return c.Ite(s.args[0], u.memOf(s.args[1], x), u.memOf(s.args[2], x))
	}
	return u.seqMem(s, x)
}

func (e *SEnv) in(x, s SVal) *Term {
	u := e.u
	c := u.c
	if st, ok := s.typ.(*setT); ok {
		return c.Select(s.t, e.conv(x, st.elem).t)
	}
	if kt, _, ok := mapParts(s.typ); ok {
		k := e.conv(x, kt).t
		if s.t.op == "ite" {
			return c.Ite(s.t.args[0], u.mapHas(e.st, s.t.args[1], s.typ, k), u.mapHas(e.st, s.t.args[2], s.typ, k))
		}
		return u.mapHas(e.st, s.t, s.typ, k)
	}
	if et := elemOf(s.typ); et != nil {
		return u.memOf(s.t, e.conv(x, et).t)
	}
	e.fail("'in' on %v", s.typ)
	return nil
}

func (e *SEnv) bin(x *Ex) SVal {
	u := e.u
	c := u.c
	switch x.s {
	case "&&":
		l := e.boolOf(x.a[0])
		return e.b(c.And(l, e.assuming(l).boolOf(x.a[1])))
	case "||":
		return e.b(c.Or(e.boolOf(x.a[0]), e.boolOf(x.a[1])))
	case "==>":
		l := e.boolOf(x.a[0])
		return e.b(c.Implies(l, e.assuming(l).boolOf(x.a[1])))
	case "<==>":
		return e.b(c.Eq(e.boolOf(x.a[0]), e.boolOf(x.a[1])))
	case "in":
		return e.b(e.in(e.ev(x.a[0]), e.ev(x.a[1])))
	}
	a, b := e.ev(x.a[0]), e.ev(x.a[1])
	switch x.s {
	case "==", "!=":
		var r *Term
		if isNilT(b.typ) && elemOf(a.typ) != nil {
			r = u.seqIsNil(a.t)
		} else if isNilT(a.typ) && elemOf(b.typ) != nil {
			r = u.seqIsNil(b.t)
		} else {
			a, b = e.unify(a, b)
			if a.t.sort == SUnit {
				r = c.True()
			} else {
				r = c.Eq(a.t, b.t)
			}
		}
		if x.s == "!=" {
			r = c.Not(r)
		}
		return e.b(r)
	case "<", "<=", ">", ">=":
		if a.t.sort != SInt || b.t.sort != SInt {
			e.fail("comparison of non-integers")
		}
		return e.b(c.Cmp(x.s, a.t, b.t))
	case "+":
		if a.t.sort == SStr {
			return SVal{u.scat(a.t, b.t), a.typ}
		}
		if a.t.sort != SInt || b.t.sort != SInt {
			e.fail("+ on %s", a.t.sort)
		}
		return SVal{c.Add(a.t, b.t), tInt}
	case "-":
		if a.t.sort != SInt || b.t.sort != SInt {
			e.fail("- on %s", a.t.sort)
		}
		return SVal{c.Sub(a.t, b.t), tInt}
	case "*":
		return SVal{c.mk("*", SInt, a.t, b.t), tInt}
	}
	e.fail("operator %s", x.s)
	return SVal{}
}

func (e *SEnv) boolOf(x *Ex) *Term {
	v := e.ev(x)
	if v.t.sort != SBool {
		e.fail("boolean expected")
	}
	return v.t
}

func (e *SEnv) refGuard(v *Term, t types.Type) *Term {
	u := e.u
	c := u.c
	if _, ok := t.(*setT); ok {
		return nil
	}
	if rk := refKey(t); rk != "" {
		n := u.next(e.st, rk)
		if u.guardLog != nil {
			u.guardLog["N!"+rk] = true
		}
		return c.And(c.Lt(c.Int(0), v), c.Lt(v, n))
	}
	return nil
}

func (e *SEnv) quant(x *Ex) *Term {
	if len(x.vars) == 1 && x.vars[0].in != nil && len(x.pats) == 0 {
		// over S + {k}: the old part and the new element separately
		s := e.ev(x.vars[0].in)
		if st, ok := s.typ.(*setT); ok && s.t.op == "store" && s.t.args[2].op == "true" {
			rest := e.quantOver(x, &SVal{s.t.args[0], s.typ})
			one := e.assuming(e.u.c.Select(s.t, s.t.args[1])).with(map[string]SVal{x.vars[0].name: {s.t.args[1], st.elem}}).boolOf(x.a[0])
			if x.s == "forall" {
				return e.u.c.And(rest, one)
			}
			return e.u.c.Or(rest, one)
		}
	}
	return e.quantOver(x, nil)
}

func (e *SEnv) quantOver(x *Ex, over *SVal) *Term {
	u := e.u
	c := u.c
	n := e
	var vars []*Term
	var guards []*Term
	var gpats []*Term
	allIn := true
	for _, q := range x.vars {
		if q.in != nil {
			var s SVal
			if over != nil {
				s = *over
			} else {
				s = n.ev(q.in)
			}
			var et types.Type
			if st, ok := s.typ.(*setT); ok {
				et = st.elem
			} else if kt, _, ok := mapParts(s.typ); ok {
				et = kt
			} else if el := elemOf(s.typ); el != nil {
				et = el
			} else {
				e.fail("quantification over %v", s.typ)
			}
			v := c.BVar(q.name, u.sortOf(et))
			vars = append(vars, v)
			g := n.in(SVal{v, et}, s)
			guards = append(guards, g)
			n = n.assuming(g)
			if p := patOf(g, v); p != nil {
				gpats = append(gpats, p)
			} else {
				allIn = false
			}
			n = n.with(map[string]SVal{q.name: {v, et}})
			continue
		}
		t := n.mustType(q.typ)
		v := c.BVar(q.name, u.sortOf(t))
		vars = append(vars, v)
		if q.every {
		} else if g := n.refGuard(v, t); g != nil {
			guards = append(guards, g)
		} else if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			guards = append(guards, c.And(c.Le(c.Int(0), v), c.Lt(v, c.Int(256))))
		}
		allIn = false
		n = n.with(map[string]SVal{q.name: {v, t}})
	}
	body := n.boolOf(x.a[0])
	var pats [][]*Term
	for _, ps := range x.pats {
		var p []*Term
		pn := n.with(nil)
		pn.baseFuel = 2
		for _, pe := range ps {
			t := pn.ev(pe).t
			if t.sort == SBool {
				pn = pn.assuming(t)
			}
			if pt := patTerm(t); pt != nil {
				t = pt
			}
			p = append(p, t)
		}
		pats = append(pats, p)
	}
	if len(pats) == 0 && allIn {
		pats = [][]*Term{gpats}
	}
	g := c.And(guards...)
	if x.s == "forall" {
		return c.Forall(vars, c.Implies(g, body), pats...)
	}
	return c.Exists(vars, c.And(g, body), pats...)
}

// patOf finds the membership atom for v inside guard g.
func patOf(g, v *Term) *Term {
	if g.op == "and" {
		for _, a := range g.args {
			if p := patOf(a, v); p != nil {
				return p
			}
		}
		return nil
	}
	if strings.HasPrefix(g.op, "seq.mem.") || g.op == "select" {
		if hasBadOp(g) {
			return nil
		}
		return g
	}
	return nil
}

func patTerm(t *Term) *Term {
	switch t.op {
	case "and":
		for i := len(t.args) - 1; i >= 0; i-- {
			if p := patTerm(t.args[i]); p != nil {
				return p
			}
		}
		return nil
	case "ite":
		return patTerm(t.args[1])
	case "not":
		return patTerm(t.args[0])
	case "=", "<", "<=", "=>", "or":
		return nil
	}
	return t
}

func patOr(t *Term) *Term {
	if p := patTerm(t); p != nil {
		return p
	}
	return t
}

func hasBadOp(t *Term) bool {
	bad := false
	collect(t, map[*Term]bool{}, func(x *Term) {
		switch x.op {
		case "ite", "and", "or", "not", "=", "=>", "<", "<=", "forall", "exists":
			bad = true
		}
	})
	return bad
}

func (e *SEnv) args(xs []*Ex) []SVal {
	var out []SVal
	for _, x := range xs {
		out = append(out, e.ev(x))
	}
	return out
}

func exTypeText(x *Ex) string {
	switch x.k {
	case "ident", "type":
		return x.s
	case "un":
		if x.s == "*" {
			return "*" + exTypeText(x.a[0])
		}
	case "sel":
		return exTypeText(x.a[0]) + "." + x.s
	case "index":
		return exTypeText(x.a[0]) + "[" + exTypeText(x.a[1]) + "]"
	}
	panic(specErr{"type expected"})
}

func (e *SEnv) call(x *Ex) SVal {
	u := e.u
	c := u.c
	fn := x.a[0]
	name := ""
	pkg := e.pkg
	if fn.k == "ident" {
		name = fn.s
	} else if fn.k == "sel" && fn.a[0].k == "ident" {
		name = fn.s
		pkg = u.pr.pkgByName(fn.a[0].s)
		if pkg == nil {
			e.fail("unknown package %s", fn.a[0].s)
		}
	} else {
		e.fail("bad call")
	}
	if fn.k == "ident" {
		switch name {
		case "len", "card":
			v := e.ev(x.a[1])
			if v.t.sort == SStr {
				return SVal{u.slen(v.t), tInt}
			}
			if _, ok := v.typ.(*setT); ok {
				return SVal{u.card(v.t), tInt}
			}
			if _, _, ok := mapParts(v.typ); ok {
				return SVal{u.card(u.mapDom(e.st, v.t, v.typ)), tInt}
			}
			if elemOf(v.typ) != nil {
				return SVal{u.seqLen(v.t), tInt}
			}
			e.fail("len of %v", v.typ)
		case "dom":
			v := e.ev(x.a[1])
			kt, _, ok := mapParts(v.typ)
			if !ok {
				e.fail("dom of %v", v.typ)
			}
			return SVal{u.mapDom(e.st, v.t, v.typ), &setT{kt}}
		case "vals": // raw value array of a map (for framing)
			v := e.ev(x.a[1])
			_, _, ok := mapParts(v.typ)
			if !ok {
				e.fail("vals of %v", v.typ)
			}
			return SVal{c.Select(u.H(e.st, u.valComp(v.typ)), v.t), &setT{tInt}}
		case "before":
			if e.before == nil {
				e.fail("before() not available")
			}
			n := e.with(nil)
			n.st = e.before
			for nm, k := range e.metavars {
				if v, ok := e.before.vars[k]; ok {
					n.names[nm] = SVal{v, u.varType(k)}
				}
			}
			return n.ev(x.a[1])
		case "fresh":
			v := e.ev(x.a[1])
			rk := refKey(v.typ)
			if rk == "" || e.old == nil {
				e.fail("fresh()")
			}
			return e.b(c.And(c.Le(u.next(e.old, rk), v.t), c.Lt(c.Int(0), v.t)))
		case "allocated":
			v := e.ev(x.a[1])
			return e.b(c.And(e.refGuard(v.t, v.typ)))
		case "isnil":
			v := e.ev(x.a[1])
			return e.b(u.seqIsNil(v.t))
		case "typeis":
			v := e.ev(x.a[1])
			return e.b(u.hasType(v.t, e.mustType(exTypeText(x.a[2]))))
		case "as":
			v := e.ev(x.a[1])
			t := e.mustType(exTypeText(x.a[2]))
			return SVal{u.unbox(v.t, t), t}
		case "any":
			v := e.ev(x.a[1])
			return SVal{u.box(v.t, v.typ), types.Universe.Lookup("any").Type()}
		case "apply":
			f := e.ev(x.a[1])
			sig, ok := f.typ.Underlying().(*types.Signature)
			if !ok {
				e.fail("apply of non-function")
			}
			var as []*Term
			for i, a := range x.a[2:] {
				as = append(as, e.conv(e.ev(a), sig.Params().At(i).Type()).t)
			}
			rt := sig.Results().At(0).Type()
			if len(e.tp) > 0 {
				rt = e.substTP(rt)
			}
			if fv := u.fnOf(f.t); fv != nil {
				fr := u.frame0
				return SVal{u.pureCall(fr, e.st, f.t, as...), rt}
			}
			return SVal{u.applyFn(f.t, 0, u.sortOf(rt), as), rt}
		case "after": // the record an option callback makes of the given one
			f := e.ev(x.a[1])
			v := e.ev(x.a[2])
			return SVal{u.optAfter(u.frame0, e.st, f.t, v.t, v.typ), v.typ}
		case "parsedur":
			return SVal{c.App("parsedur", SInt, e.ev(x.a[1]).t), tInt}
		case "parseerr":
			return SVal{c.App("parsedur.err", SAny, e.ev(x.a[1]).t), types.Universe.Lookup("error").Type()}
		case "zero":
			t := e.mustType(exTypeText(x.a[1]))
			return SVal{u.zero(t), t}
		case "mk":
			t := e.mustType(exTypeText(x.a[1]))
			var vs []*Term
			fs := u.structFields(t)
			for i, a := range x.a[2:] {
				vs = append(vs, e.conv(e.ev(a), fs[i].Type()).t)
			}
			return SVal{u.mkStruct(t, vs), t}
		case "build":
			a := e.ev(x.a[1])
			b := e.conv(e.ev(x.a[2]), elemOf(a.typ))
			return SVal{u.seqBuild(a.t, b.t), a.typ}
		case "cat":
			a := e.ev(x.a[1])
			b := e.ev(x.a[2])
			return SVal{u.seqCat(a.t, b.t), a.typ}
		case "addset":
			a := e.ev(x.a[1])
			b := e.conv(e.ev(x.a[2]), a.typ.(*setT).elem)
			return SVal{c.Store(a.t, b.t, c.True()), a.typ}
		case "emptyset":
			t := e.mustType(exTypeText(x.a[1]))
			return SVal{c.ConstArr(ArrSort(u.sortOf(t), SBool), c.False()), &setT{t}}
		case "sameseq":
			a, b := e.ev(x.a[1]), e.ev(x.a[2])
			i := c.BVar("i", SInt)
			return e.b(c.And(c.Eq(u.seqLen(a.t), u.seqLen(b.t)), c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, u.seqLen(a.t))), c.Eq(u.seqAt(a.t, i), u.seqAt(b.t, i))), []*Term{u.seqAt(a.t, i)}, []*Term{u.seqAt(b.t, i)})))
		case "released":
			v := e.ev(x.a[1])
			if rk := refKey(v.typ); rk != "" {
				return e.b(c.Select(u.H(e.st, u.releasedComp(rk)), v.t))
			}
			return e.b(c.Select(u.H(e.st, u.releasedComp("slices")), u.buf(v.t)))
		case "locked":
			v := e.ev(x.a[1])
			return SVal{u.lockState(e.st, v.t, v.typ), tInt}
		}
	}
	d := u.sp.preds[pkg.name+"."+name]
	if d == nil {
		// try the conversion of a named type
		if fn.k == "ident" {
			if t, err := e.tryType(name); err == nil && len(x.a) == 2 {
				v := e.ev(x.a[1])
				if u.sortOf(t) == v.t.sort {
					return SVal{v.t, t}
				}
			}
		}
		e.fail("unknown predicate %s", name)
	}
	args := e.args(x.a[1:])
	return e.applyPred(d, pkg, args)
}

func (e *SEnv) substTP(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		if r, ok := e.tp[tp.Obj().Name()]; ok {
			return r
		}
	}
	return t
}

// inferTP: the type arguments of a definition about generic types, from the
// types of its arguments.
func (e *SEnv) inferTP(d *PredDef, pkg *Pkg, args []SVal) map[string]types.Type {
	names, ok := e.u.tpn[pkg]
	if !ok {
		names = e.u.pr.typeParamNames(pkg)
		e.u.tpn[pkg] = names
	}
	if len(names) == 0 {
		if e.pkg == pkg {
			return e.tp
		}
		return nil
	}
	tp := map[string]types.Type{}
	for k, v := range names {
		tp[k] = v
	}
	if e.pkg == pkg {
		for k, v := range e.tp {
			tp[k] = v
		}
	}
	pe := &SEnv{u: e.u, pkg: pkg, tp: names}
	for i, p := range d.params {
		if i < len(args) && args[i].typ != nil {
			unifyTP(pe.mustType(p.typ), args[i].typ, tp)
		}
	}
	return tp
}

func unifyTP(pt, at types.Type, tp map[string]types.Type) {
	pt, at = types.Unalias(pt), types.Unalias(at)
	switch p := pt.(type) {
	case *types.TypeParam:
		if !isNilT(at) {
			tp[p.Obj().Name()] = at
		}
	case *types.Pointer:
		if a, ok := at.(*types.Pointer); ok {
			unifyTP(p.Elem(), a.Elem(), tp)
		}
	case *types.Slice:
		if a, ok := at.(*types.Slice); ok {
			unifyTP(p.Elem(), a.Elem(), tp)
		}
	case *types.Named:
		if a, ok := at.(*types.Named); ok && a.Origin() == p.Origin() {
			for i := 0; i < p.TypeArgs().Len() && i < a.TypeArgs().Len(); i++ {
				unifyTP(p.TypeArgs().At(i), a.TypeArgs().At(i), tp)
			}
		}
	}
}

// typeParamNames: the type parameters of the generic types of a package, by name.
func (pr *Prog) typeParamNames(pkg *Pkg) map[string]types.Type {
	if pkg == nil {
		return nil
	}
	m := map[string]types.Type{}
	sc := pkg.types.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
			if nt, ok := tn.Type().(*types.Named); ok {
				for i := 0; i < nt.TypeParams().Len(); i++ {
					if t := nt.TypeParams().At(i); m[t.Obj().Name()] == nil {
						m[t.Obj().Name()] = t
					}
				}
			}
		}
	}

	return m
}

func (e *SEnv) tpKey() string {
	var s []string
	for k, t := range e.tp {
		if tp, ok := t.(*types.TypeParam); ok && tp.Obj().Name() == k {
			continue
		}
		s = append(s, k+"="+types.TypeString(t, nil))
	}
	if len(s) == 0 {
		return ""
	}
	sort.Strings(s)
	return "[" + strings.Join(s, ",") + "]"
}

func (e *SEnv) applyPred(d *PredDef, pkg *Pkg, args []SVal) SVal {
	u := e.u
	if len(args) != len(d.params) {
		e.fail("%s: %d arguments", d.name, len(args))
	}
	if e.depth > 40 {
		e.fail("predicate nesting too deep: %s", d.name)
	}
	pe := &SEnv{u: u, pkg: pkg, tp: e.inferTP(d, pkg, args), names: map[string]SVal{}, st: e.st, old: e.old, before: e.before, ghosts: nil, indSub: e.indSub, depth: e.depth + 1, recFuel: e.recFuel, recSelf: e.recSelf, baseFuel: e.baseFuel, known: e.known}
	var as []SVal
	for i, p := range d.params {
		t := pe.mustType(p.typ)
		v := e.conv(args[i], t)
		v.typ = t
		as = append(as, v)
		pe.names[p.name] = v
	}
	switch d.kind {
	case "pred":
		if u.opaque[d.pkg+"."+d.name] {
			return e.b(u.applyOpaque(pe, d, pkg, as))
		}
		return pe.ev(d.body)
	case "inductive":
		if f, ok := e.indSub[d.pkg+"."+d.name]; ok {
			if t := f(as); t != nil {
				return e.b(t)
			}
		}
		return e.b(u.applyInd(e, pe, d, pkg, as))
	case "rec":
		rt := pe.mustType(d.res)
		return SVal{u.applyRec(e, pe, d, pkg, as, rt), rt}
	case "uninterp":
		rt := pe.mustType(d.res)
		var ts []*Term
		for _, a := range as {
			ts = append(ts, a.t)
		}
		return SVal{u.c.App("un."+san(d.pkg+"."+d.name), u.sortOf(rt), ts...), rt}
	}
	e.fail("%s is a %s", d.name, d.kind)
	return SVal{}
}

// ---------- inductive predicates ----------

type indInst struct {
	d     *PredDef
	comps []string
	nexts []string
	busy  bool
	done  map[string]bool
}

type condAxiom struct {
	sym string
	hs  []*Term
	t   *Term
}

func (u *Unit) footprint(key string, pe *SEnv, d *PredDef, pkg *Pkg) *indInst {
	if in, ok := u.inds[key]; ok {
		return in
	}
	in := &indInst{d: d, busy: true, done: map[string]bool{}}
	u.inds[key] = in
	set := map[string]bool{}
	save := u.readLog
	u.readLog = func(ci *compInfo) {
		if ci.kind != "N" || true {
			set[ci.name] = true
		}
		if save != nil {
			save(ci)
		}
	}
	// evaluate on bound parameters
	be := *pe
	be.names = map[string]SVal{}
	for _, p := range d.params {
		t := pe.mustType(p.typ)
		be.names[p.name] = SVal{u.c.BVar(p.name, u.sortOf(t)), t}
	}
	be.indSub = nil
	gsave := u.guardLog
	u.guardLog = map[string]bool{}
	be.ev(d.body)
	guards := u.guardLog
	u.guardLog = gsave
	for k := range guards {
		if gsave != nil {
			gsave[k] = true
		}
	}
	u.readLog = save
	for _, k := range sortedKeys(set) {
		if !strings.HasPrefix(k, "N!") {
			in.comps = append(in.comps, k)
		} else if guards[k] {
			in.nexts = append(in.nexts, k)
		}
	}
	in.busy = false
	in.done = map[string]bool{}
	return in
}

func (u *Unit) applyInd(e, pe *SEnv, d *PredDef, pkg *Pkg, as []SVal) *Term {
	c := u.c
	key := d.pkg + "." + d.name + pe.tpKey()
	in := u.footprint(key, pe, d, pkg)
	if in.busy {
		return c.Fresh("busy", SBool)
	}
	var hs []*Term
	id := ""
	for _, k := range in.comps {
		h := u.H(pe.st, u.comps[k])
		hs = append(hs, h)
		id += itoa(h.id) + ","
	}
	var ts []*Term
	for _, a := range as {
		ts = append(ts, a.t)
	}
	sym := "ind." + san(key)
	app := c.App(sym, SBool, append(append([]*Term{}, hs...), ts...)...)
	if !in.done[id] {
		in.done[id] = true
		for _, ax := range u.introAxioms(pe, d, sym, hs) {
			u.condAx = append(u.condAx, condAxiom{sym, hs, ax})
		}
	}
	return app
}

// applyOpaque leaves a predicate folded: an uninterpreted relation on the
// state its body reads and its arguments.
func (u *Unit) applyOpaque(pe *SEnv, d *PredDef, pkg *Pkg, as []SVal) *Term {
	key := d.pkg + "." + d.name + pe.tpKey()
	in := u.footprint("opaque:"+key, pe, d, pkg)
	if in.busy {
		return u.c.Fresh("busy", SBool)
	}
	var ts []*Term
	for _, k := range append(append([]string{}, in.comps...), in.nexts...) {
		ts = append(ts, u.H(pe.st, u.comps[k]))
	}
	for _, a := range as {
		ts = append(ts, a.t)
	}
	return u.c.App("opq."+san(key), SBool, ts...)
}

func splitOr(x *Ex) []*Ex {
	if x.k == "bin" && x.s == "||" {
		return append(splitOr(x.a[0]), splitOr(x.a[1])...)
	}
	return []*Ex{x}
}

// introAxioms: one closure rule per disjunct of the body.
func (u *Unit) introAxioms(pe *SEnv, d *PredDef, sym string, hs []*Term) []*Term {
	c := u.c
	var out []*Term
	for _, dj := range splitOr(d.body) {
		be := *pe
		be.names = map[string]SVal{}
		be.indSub = nil
		var vars []*Term
		var ps []*Term
		for _, p := range d.params {
			t := pe.mustType(p.typ)
			v := c.BVar(p.name, u.sortOf(t))
			be.names[p.name] = SVal{v, t}
			vars = append(vars, v)
			ps = append(ps, v)
		}
		ne := &be
		var guards []*Term
		x := dj
		for x.k == "quant" && x.s == "exists" {
			for _, q := range x.vars {
				var t types.Type
				if q.in != nil {
					s := ne.ev(q.in)
					switch {
					case isSetT(s.typ):
						t = s.typ.(*setT).elem
					case elemOf(s.typ) != nil:
						t = elemOf(s.typ)
					default:
						kt, _, ok := mapParts(s.typ)
						if !ok {
							ne.fail("quantification over %v", s.typ)
						}
						t = kt
					}
					v := c.BVar(q.name, u.sortOf(t))
					vars = append(vars, v)
					guards = append(guards, ne.in(SVal{v, t}, s))
					ne = ne.with(map[string]SVal{q.name: {v, t}})
				} else {
					t = ne.mustType(q.typ)
					v := c.BVar(q.name, u.sortOf(t))
					vars = append(vars, v)
					ne = ne.with(map[string]SVal{q.name: {v, t}})
				}
			}
			x = x.a[0]
		}
		prem := c.And(append(guards, ne.boolOf(x))...)
		head := c.App(sym, SBool, append(append([]*Term{}, hs...), ps...)...)
		out = append(out, u.ruleAxiom(vars, prem, head))
	}
	return out
}

func isSetT(t types.Type) bool { _, ok := t.(*setT); return ok }

// ruleAxiom: forall vars. prem => head with triggers from prem covering vars.
func (u *Unit) ruleAxiom(vars []*Term, prem, head *Term) *Term {
	c := u.c
	var inds, mems []*Term
	for _, a := range flatAnd(prem) {
		if strings.HasPrefix(a.op, "ind.") {
			inds = append(inds, a)
		} else if strings.HasPrefix(a.op, "seq.mem.") || a.op == "select" {
			if !hasBadOp(a) {
				mems = append(mems, a)
			}
		}
	}
	cover := func(ts []*Term) bool {
		for _, v := range vars {
			if !anyContains(ts, v) {
				return false
			}
		}
		return true
	}
	if len(inds) == 0 {
		// base rule
		if cover([]*Term{head}) {
			return c.Forall(vars, c.Implies(prem, head), []*Term{head})
		}
		return c.Forall(vars, c.Implies(prem, head), append(mems, head))
	}
	pat := append([]*Term{}, inds...)
	for _, m := range mems {
		if cover(pat) {
			break
		}
		// add only when it covers something new
		for _, v := range vars {
			if !anyContains(pat, v) && anyContains([]*Term{m}, v) {
				pat = append(pat, m)
				break
			}
		}
	}
	if !cover(pat) {
		pat = append(pat, head)
	}
	return c.Forall(vars, c.Implies(prem, head), pat)
}

func flatAnd(t *Term) []*Term {
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, flatAnd(a)...)
		}
		return out
	}
	return []*Term{t}
}

func anyContains(ts []*Term, v *Term) bool {
	for _, t := range ts {
		if containsAny(t, map[*Term]bool{v: true}) {
			return true
		}
	}
	return false
}

// inductFact: leastness instance for  induct R(args with binders) by P.
func (u *Unit) inductFact(e *SEnv, us *UseClause) *Term {
	c := u.c
	d, pkg := u.named(e, us.name)
	if d == nil || d.kind != "inductive" {
		e.fail("no inductive %s", us.name)
	}
	if len(us.args) != len(d.params) {
		e.fail("induct arity")
	}
	var iargs []SVal
	for i := range d.params {
		if us.bind[i] {
			iargs = append(iargs, SVal{nil, e.mustType(us.argv[i].typ)})
		} else {
			iargs = append(iargs, e.ev(us.args[i]))
		}
	}
	pe := &SEnv{u: u, pkg: pkg, tp: e.inferTP(d, pkg, iargs), names: map[string]SVal{}, st: e.st, old: e.old}
	if us.old && e.old != nil {
		pe.st = e.old
	}
	// binders
	var bvs []*Term
	be := e
	fixed := make([]*Term, len(d.params))
	args := make([]SVal, len(d.params))
	for i, p := range d.params {
		t := pe.mustType(p.typ)
		if us.bind[i] {
			v := c.BVar(us.argv[i].name, u.sortOf(t))
			bvs = append(bvs, v)
			args[i] = SVal{v, t}
			be = be.with(map[string]SVal{us.argv[i].name: {v, t}})
		} else {
			v := e.conv(e.ev(us.args[i]), t)
			if hasBadOp(v.t) {
				v.t = u.name("ind", v.t)
			}
			fixed[i] = v.t
			args[i] = SVal{v.t, t}
		}
	}
	P := func(as []SVal) *Term {
		names := map[string]SVal{}
		for i := range d.params {
			if us.bind[i] {
				names[us.argv[i].name] = as[i]
			} else if as[i].t != fixed[i] {
				return nil
			}
		}
		return e.with(names).boolOf(us.by)
	}
	// premise: body[P/R](args) => P(args)
	ne := *pe
	ne.names = map[string]SVal{}
	for i, p := range d.params {
		ne.names[p.name] = args[i]
	}
	ne.indSub = map[string]func([]SVal) *Term{d.pkg + "." + d.name: P}
	var prem []*Term
	for _, dj := range splitOr(d.body) {
		b := ne.boolOf(dj)
		prem = append(prem, c.Forall(bvs, c.Implies(b, P(args))))
	}
	app := pe.applyPred(d, pkg, args).t
	pats := []*Term{app}
	return c.Implies(c.And(prem...), c.Forall(bvs, c.Implies(app, P(args)), pats))
}

// ---------- recursive functions ----------

func (u *Unit) applyRec(e, pe *SEnv, d *PredDef, pkg *Pkg, as []SVal, rt types.Type) *Term {
	c := u.c
	key := d.pkg + "." + d.name + pe.tpKey()
	in := u.footprint(key, pe, d, pkg)
	rs := u.sortOf(rt)
	if in.busy {
		return c.Fresh("busy", rs)
	}
	var hs []*Term
	id := ""
	for _, k := range in.comps {
		h := u.H(pe.st, u.comps[k])
		hs = append(hs, h)
		id += itoa(h.id) + ","
	}
	var ts []*Term
	for _, a := range as {
		ts = append(ts, a.t)
	}
	sym := "rec." + san(key)
	fuel := 2 - e.baseFuel
	if e.recSelf == key {
		fuel = e.recFuel
	}
	mk := func(fl int, ts []*Term) *Term {
		return c.App(sym+"."+itoa(fl), rs, append(append([]*Term{}, hs...), ts...)...)
	}
	app := mk(fuel, ts)
	if !in.done[id] {
		in.done[id] = true
		for fl := 2; fl >= 1; fl-- {
			be := *pe
			be.names = map[string]SVal{}
			be.recSelf = key
			be.baseFuel = 0
			be.recFuel = fl - 1
			var vars []*Term
			for _, p := range d.params {
				t := pe.mustType(p.typ)
				v := c.BVar(p.name, u.sortOf(t))
				be.names[p.name] = SVal{v, t}
				vars = append(vars, v)
			}
			body := be.conv(be.ev(d.body), rt).t
			h := mk(fl, vars)
			u.condAx = append(u.condAx, condAxiom{sym, hs, c.Forall(vars, c.Eq(h, body), []*Term{h})})
			u.condAx = append(u.condAx, condAxiom{sym, hs, c.Forall(vars, c.Eq(h, mk(fl-1, vars)), []*Term{h})})
		}
	}
	return app
}

// ---------- environments ----------

// paramNames maps contract header names to parameter objects of a declaration.
func declParams(fi *FuncInfo) []types.Object {
	var out []types.Object
	info := fi.pkg.info
	if fi.decl.Recv != nil && len(fi.decl.Recv.List) > 0 {
		if ns := fi.decl.Recv.List[0].Names; len(ns) > 0 {
			out = append(out, info.Defs[ns[0]])
		} else {
			out = append(out, nil)
		}
	}
	for _, fl := range fi.decl.Type.Params.List {
		if len(fl.Names) == 0 {
			out = append(out, nil)
		}
		for _, n := range fl.Names {
			out = append(out, info.Defs[n])
		}
	}
	return out
}

// loopEnv: environment for loop invariants and in-body uses.
func (u *Unit) loopEnv(f *Frame, st *State, pos token.Pos) *SEnv {
	e := u.newEnv(u.pkg, st, u.entry)
	e.tp = u.tparams
	e.ghosts = u.loops
	if n := len(u.loops); n > 0 {
		e.before = u.loops[n-1].before
	}
	e.lookup = func(e *SEnv, name string) (SVal, bool) {
		// header names first
		if k, ok := u.hdr[name]; ok {
			if v, ok := e.st.vars[k]; ok {
				return SVal{v, u.varType(k)}, true
			}
		}
		if k, ok := u.scopeLookup(f, e.st, name, pos); ok {
			return SVal{e.st.vars[k], u.varType(k)}, true
		}
		return SVal{}, false
	}
	return e
}

func (u *Unit) scopeLookup(f *Frame, st *State, name string, pos token.Pos) (vkey, bool) {
	for _, k := range u.scopeVars(f, st, pos) {
		if k.v.Name() == name {
			return k, true
		}
	}
	return vkey{}, false
}

// useAt emits the facts requested by 'use' clauses.
func (u *Unit) useAt(at string, f *Frame, st *State, pos token.Pos) {
	for _, con := range u.hintCons {
		for _, us := range con.uses {
			if us.at != at {
				continue
			}
			e0 := u.loopEnv(f, st, pos)
			for _, b := range u.bindings(e0, us.any, f, st, pos) {
				e := u.loopEnv(f, st, pos)
				if at == "step" { // old: the start of the iteration
					e.old = u.stepFrom
				}
				if at == "exit" || at == "entry" {
					for n, v := range u.entryNames {
						e.names[n] = v
					}
					for n, v := range u.resultNames {
						e.names[n] = v
					}
				}
				for n, k := range b {
					e.names[n] = SVal{st.vars[k], u.varType(k)}
				}
				t, err := u.useFact(e, us)
				if err != nil {
					u.hintErrs[at+": "+us.src] = err.Error()
					continue
				}
				if us.kind == "lemma" && len(us.binders) > 0 {
					// a proved lemma holds everywhere
					if u.dry == 0 {
						k := bvarRe.ReplaceAllString(t.String(), "?$1")
						if !u.lemmaSeen[k] {
							u.lemmaSeen[k] = true
							u.globals = append(u.globals, t)
						}
					}
					continue
				}
				u.assume(st, t)
			}
		}
	}
}

var bvarRe = regexp.MustCompile(`\?(\w+)!\d+`)

func (u *Unit) useFact(e *SEnv, us *UseClause) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case specErr:
				err = r
			case unsupported:
				err = fmt.Errorf("%s", r.msg)
			default:
				panic(r)
			}
		}
	}()
	u.inSpec++
	defer func() { u.inSpec-- }()
	switch us.kind {
	case "induct":
		return u.inductFact(e, us), nil
	case "lemma":
		return u.lemmaFact(e, us), nil
	case "meaning":
		return u.meaningFact(e, us), nil
	case "term":
		// introduce a term for triggering: harmless tautology
		v := e.ev(us.by)
		n := "mentioned." + v.t.sort
		u.c.Decl(n, []string{v.t.sort}, "Bool")
		return u.c.App(n, "Bool", v.t), nil
	}
	e.fail("use %s", us.kind)
	return nil, nil
}

// meaningFact relates calls of a declared function through a function value to
// what its body computes in the current state.
func (u *Unit) meaningFact(e *SEnv, us *UseClause) *Term {
	c := u.c
	f := e.ev(&Ex{k: "ident", s: us.name})
	if u.fnOf(f.t) == nil {
		e.fail("%s is not a declared function", us.name)
	}
	sig := f.typ.Underlying().(*types.Signature)
	var vars, guards, as []*Term
	for i, q := range us.argv {
		if !us.bind[i] {
			as = append(as, e.conv(e.ev(us.args[i]), sig.Params().At(i).Type()).t)
			continue
		}
		t := e.mustType(q.typ)
		v := c.BVar(q.name, u.sortOf(t))
		vars = append(vars, v)
		as = append(as, v)
		if g := e.refGuard(v, t); g != nil {
			guards = append(guards, g)
		}
	}
	rt := sig.Results().At(0).Type()
	ap := u.applyFn(f.t, 0, u.sortOf(rt), as)
	v := u.pureCall(u.frame0, e.st, f.t, as...)
	fs := []*Term{c.Eq(ap, v)}
	var each func(v, g *Term)
	each = func(v, g *Term) { // the elements of a literal list
		if v.op == "ite" {
			each(v.args[1], c.And(g, v.args[0]))
			each(v.args[2], c.And(g, c.Not(v.args[0])))
			return
		}
		var es []*Term
		for strings.HasPrefix(v.op, "seq.build.") {
			es = append([]*Term{v.args[1]}, es...)
			v = v.args[0]
		}
		if !strings.HasPrefix(v.op, "seq.empty.") && !strings.HasPrefix(v.op, "seq.nil.") {
			return
		}
		fs = append(fs, c.Implies(g, c.Eq(u.seqLen(ap), c.Int(int64(len(es))))))
		for i, x := range es {
			fs = append(fs, c.Implies(g, c.Eq(u.seqAt(ap, c.Int(int64(i))), x)))
		}
	}
	if strings.HasPrefix(ap.sort, "Seq_") {
		each(v, c.True())
	}
	return c.Forall(vars, c.Implies(c.And(guards...), c.And(fs...)), []*Term{ap})
}

// named resolves a definition's name, qualified or of the current package.
func (u *Unit) named(e *SEnv, name string) (*PredDef, *Pkg) {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		return u.sp.preds[name], u.pr.pkgByName(name[:i])
	}
	return u.sp.preds[e.pkg.name+"."+name], e.pkg
}

func (u *Unit) lemmaFact(e *SEnv, us *UseClause) *Term {
	if len(us.binders) == 0 {
		return u.lemmaFact1(e, us, 0)
	}
	return u.c.And(u.lemmaFact1(e, us, 0), u.lemmaFact1(e, us, 1), u.lemmaFact1(e, us, 2))
}

func (u *Unit) lemmaFact1(e *SEnv, us *UseClause, drop int) *Term {
	c := u.c
	d, pkg := u.named(e, us.name)
	if d == nil || d.kind != "lemma" {
		e.fail("no lemma %s", us.name)
	}
	u.lemmas[d.pkg+"."+d.name] = true
	ne := e.with(nil)
	ne.baseFuel = drop
	var vars, guards []*Term
	for _, q := range us.binders {
		t := e.mustType(q.typ)
		v := c.BVar(q.name, u.sortOf(t))
		vars = append(vars, v)
		if g := e.refGuard(v, t); g != nil {
			guards = append(guards, g)
		}
		ne = ne.with(map[string]SVal{q.name: {v, t}})
	}
	var largs []SVal
	for _, a := range us.args {
		largs = append(largs, ne.ev(a))
	}
	pe := &SEnv{u: u, pkg: pkg, tp: e.inferTP(d, pkg, largs), names: map[string]SVal{}, st: e.st, old: e.old, baseFuel: drop}
	if us.old && e.old != nil {
		pe.st = e.old
	}
	for i, p := range d.params {
		t := pe.mustType(p.typ)
		v := ne.conv(ne.ev(us.args[i]), t)
		pe.names[p.name] = SVal{v.t, t}
	}
	var req, ens []*Term
	for _, r := range d.req {
		req = append(req, pe.boolOf(r.e))
	}
	for _, r := range d.ens {
		ens = append(ens, pe.boolOf(r.e))
	}
	f := c.Implies(c.And(append(guards, req...)...), c.And(ens...))
	if len(vars) == 0 {
		return f
	}
	var pats [][]*Term
	for _, ps := range d.pats {
		var p []*Term
		te := pe
		for _, x := range ps {
			t := te.ev(x).t
			if t.sort == SBool {
				te = te.assuming(t)
			}
			p = append(p, patOr(t))
		}
		pats = append(pats, p)
	}
	return c.Forall(vars, f, pats...)
}

var _ = constant.Int
