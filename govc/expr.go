package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
)

func (u *Unit) constTerm(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return u.c.Bool(constant.BoolVal(v))
	case constant.String:
		return u.strLit(constant.StringVal(v))
	case constant.Int:
		i, ok := constant.Int64Val(v)
		if !ok {
			unsup("big constant")
		}
		return u.c.Int(i)
	}
	s := u.sortOf(t)
	return u.c.Const("const!"+san(v.ExactString())+"!"+mangle(s), s)
}

// convert: assignability conversion (boxing into interfaces, nil).
func (u *Unit) convert(st *State, v *Term, from, to types.Type) *Term {
	if to == nil || from == nil {
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return u.zero(to)
	}
	ts := u.sortOf(to)
	if ts == SAny && v.sort != SAny {
		return u.box(v, from)
	}
	return v
}

func (u *Unit) ev(f *Frame, st *State, e ast.Expr) (*Term, *State) {
	c := u.c
	if tv, ok := f.pkg.info.Types[e]; ok && tv.Value != nil {
		return u.constTerm(tv.Value, substT(tv.Type, f.tsub)), st
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return u.ev(f, st, e.X)
	case *ast.Ident:
		if e.Name == "nil" {
			if _, ok := f.pkg.info.Uses[e].(*types.Nil); ok {
				return u.anyNil(), st
			}
		}
		o := f.pkg.info.ObjectOf(e)
		if k, ok := u.lookupVar(f, st, o); ok {
			return st.vars[k], st
		}
		switch o := o.(type) {
		case *types.Func:
			return u.fnVal(&FuncVal{obj: o, fi: u.pr.funcs[o.Origin()]}), st
		case *types.Var:
			if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				return u.H(st, u.globalComp(o)), st
			}
		}
		unsup("identifier %s", e.Name)
	case *ast.FuncLit:
		return u.fnVal(&FuncVal{lit: e, frame: f}), st
	case *ast.CompositeLit:
		return u.compLit(f, st, e, u.typeOf(f, e))
	case *ast.SelectorExpr:
		return u.selector(f, st, e)
	case *ast.IndexExpr:
		// generic instantiation?
		if id, ok := ast.Unparen(e.X).(*ast.Ident); ok {
			if fn, ok := f.pkg.info.Uses[id].(*types.Func); ok {
				return u.fnVal(&FuncVal{obj: fn, fi: u.pr.funcs[fn.Origin()]}), st
			}
		}
		xt := u.typeOf(f, e.X)
		x, st := u.ev(f, st, e.X)
		i, st := u.ev(f, st, e.Index)
		if kt, _, ok := mapParts(xt); ok {
			i = u.convert(st, i, u.typeOf(f, e.Index), kt)
			u.useMap(st, x, xt, false)
			return u.mapGet(st, x, xt, i), st
		}
		if x.sort == SStr {
			u.check(st, "safety", "string index out of range", c.And(c.Le(c.Int(0), i), c.Lt(i, u.slen(x))))
			return u.sat(x, i), st
		}
		if p, ok := xt.Underlying().(*types.Pointer); ok {
			x = u.loadPtr(st, x, p.Elem())
		}
		u.check(st, "safety", "index out of range", c.And(c.Le(c.Int(0), i), c.Lt(i, u.seqLen(x))))
		return u.seqAt(x, i), st
	case *ast.SliceExpr:
		xt := u.typeOf(f, e.X)
		x, st := u.ev(f, st, e.X)
		if p, ok := xt.Underlying().(*types.Pointer); ok {
			x = u.loadPtr(st, x, p.Elem())
		}
		lo := c.Int(0)
		if e.Low != nil {
			lo, st = u.ev(f, st, e.Low)
		}
		if x.sort == SStr {
			hi := u.slen(x)
			if e.High != nil {
				hi, st = u.ev(f, st, e.High)
			}
			u.check(st, "safety", "string slice out of range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, u.slen(x))))
			return u.ssub(x, lo, hi), st
		}
		hi := u.seqLen(x)
		if e.High != nil {
			hi, st = u.ev(f, st, e.High)
		}
		// hi may go up to cap in Go; we require len (stronger, documented)
		u.check(st, "safety", "slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, u.seqLen(x))))
		if e.Slice3 {
			var mx *Term
			mx, st = u.ev(f, st, e.Max)
			u.check(st, "safety", "slice bounds", c.And(c.Le(hi, mx), c.Le(mx, u.seqLen(x))))
			if l, ok := isLit(mx); ok && l == 0 { // no capacity: shares no memory with x
				return c.Ite(u.seqIsNil(x), u.seqNil(x.sort), u.seqEmpty(x.sort)), st
			}
		}
		return u.slice(st, x, lo, hi), st
	case *ast.StarExpr:
		p, st := u.ev(f, st, e.X)
		u.nonNil(st, p)
		pt := u.typeOf(f, e.X).Underlying().(*types.Pointer)
		return u.loadPtr(st, p, pt.Elem()), st
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			switch x := ast.Unparen(e.X).(type) {
			case *ast.CompositeLit:
				t := u.typeOf(f, x)
				v, st := u.compLit(f, st, x, t)
				if _, ok := isStruct(t); ok {
					var vals []*Term
					if v.sort != SUnit {
						for i := range u.structFields(t) {
							vals = append(vals, u.fieldOf(v, t, i))
						}
					}
					return u.newStruct(st, t, vals), st
				}
				return u.newCell(st, t, v), st
			case *ast.Ident:
				o := f.pkg.info.ObjectOf(x)
				if u.assignedOnce(f, o) || u.addrStable(f, o, x.Pos()) {
					v, st := u.ev(f, st, x)
					t := u.typeOf(f, x)
					if _, ok := isStruct(t); ok {
						var vals []*Term
						for i := range u.structFields(t) {
							vals = append(vals, u.fieldOf(v, t, i))
						}
						return u.newStruct(st, t, vals), st
					}
					return u.newCell(st, t, v), st
				}
			}
			unsup("address-of at %s", u.pr.pos(e.Pos()))
		case token.NOT:
			v, st := u.ev(f, st, e.X)
			return c.Not(v), st
		case token.SUB:
			v, st := u.ev(f, st, e.X)
			return c.Sub(c.Int(0), v), st
		case token.ADD:
			return u.ev(f, st, e.X)
		}
		unsup("unary %v", e.Op)
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND, token.LOR:
			a, st := u.ev(f, st, e.X)
			cond := a
			if e.Op == token.LOR {
				cond = c.Not(a)
			}
			if isFalse(cond) {
				return a, st
			}
			b, other := u.branch(st, cond)
			v, b2 := u.ev(f, b, e.Y)
			if !live(b2) {
				unsup("diverging operand")
			}
			m := u.merge(b2, other)
			m.pc = st.pc // both sides rejoin
			if e.Op == token.LAND {
				return c.And(a, v), m
			}
			return c.Or(a, v), m
		}
		a, st := u.ev(f, st, e.X)
		b, st := u.ev(f, st, e.Y)
		ta, tb := u.typeOf(f, e.X), u.typeOf(f, e.Y)
		switch e.Op {
		case token.EQL:
			return u.equal(st, a, ta, b, tb), st
		case token.NEQ:
			return c.Not(u.equal(st, a, ta, b, tb)), st
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			op := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[e.Op]
			if a.sort == SInt {
				return c.Cmp(op, a, b), st
			}
			if a.sort == SStr {
				switch op {
				case "<":
					return c.App("str.lt", SBool, a, b), st
				case ">":
					return c.App("str.lt", SBool, b, a), st
				case "<=":
					return c.Not(c.App("str.lt", SBool, b, a)), st
				default:
					return c.Not(c.App("str.lt", SBool, a, b)), st
				}
			}
			unsup("comparison")
		}
		return u.arith(st, e.Op, a, b, u.typeOf(f, e)), st
	case *ast.CallExpr:
		vs, st := u.call(f, st, e)
		if len(vs) != 1 {
			if len(vs) == 0 {
				return c.mk("unit", SUnit), st
			}
			unsup("multi-value call in single-value context")
		}
		return vs[0], st
	case *ast.TypeAssertExpr:
		v, st := u.ev(f, st, e.X)
		t := u.typeOf(f, e.Type)
		_, isTP := types.Unalias(t).(*types.TypeParam)
		if _, isI := t.Underlying().(*types.Interface); isI && !isTP {
			unsup("interface assertion")
		}
		u.check(st, "safety", "type assertion to "+types.TypeString(t, qual), u.hasType(v, t))
		r := u.unbox(v, t)
		for _, w := range u.wfVal(st, r, t) {
			u.assume(st, w)
		}
		return r, st
	case *ast.IndexListExpr:
		if id, ok := ast.Unparen(e.X).(*ast.Ident); ok {
			if fn, ok := f.pkg.info.Uses[id].(*types.Func); ok {
				return u.fnVal(&FuncVal{obj: fn, fi: u.pr.funcs[fn.Origin()]}), st
			}
		}
	}
	unsup("expression %s at %s", describe(e), u.pr.pos(e.Pos()))
	return nil, nil
}

// slice x[lo:hi] with the ground facts that make it usable.
func (u *Unit) slice(st *State, x, lo, hi *Term) *Term {
	c := u.c
	if l, ok := isLit(lo); ok && l == 0 && hi == u.seqLen(x) {
		return x
	}
	r := u.seqSlice(x, lo, hi)
	if l, ok := isLit(lo); ok && l == 0 {
		rest := u.seqSlice(x, hi, u.seqLen(x))
		u.assume(st, c.Eq(x, u.seqCat(r, rest)))
	} else if hi == u.seqLen(x) {
		pre := u.seqSlice(x, c.Int(0), lo)
		u.assume(st, c.Eq(x, u.seqCat(pre, r)))
		if l, ok := isLit(lo); ok && l == 1 {
			u.assume(st, c.Eq(pre, u.seqBuild(u.seqEmpty(x.sort), u.seqAt(x, c.Int(0)))))
		}
	}
	return r
}

func (u *Unit) assignedOnce(f *Frame, o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok {
		return false
	}
	n := 0
	var body ast.Node
	if f.lit != nil {
		body = f.lit.Body
	} else if f.fi != nil {
		body = f.fi.decl.Body
	}
	if body == nil {
		return false
	}
	ast.Inspect(body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := ast.Unparen(l).(*ast.Ident); ok && f.pkg.info.ObjectOf(id) == o {
					n++
				}
				if se, ok := ast.Unparen(l).(*ast.SelectorExpr); ok {
					if id, ok := ast.Unparen(se.X).(*ast.Ident); ok && f.pkg.info.ObjectOf(id) == o {
						n += 2
					}
				}
			}
		case *ast.IncDecStmt:
			if id, ok := ast.Unparen(x.X).(*ast.Ident); ok && f.pkg.info.ObjectOf(id) == o {
				n++
			}
		}
		return true
	})
	isParam := false
	if f.sig != nil {
		for i := 0; i < f.sig.Params().Len(); i++ {
			if f.sig.Params().At(i) == v {
				isParam = true
			}
		}
	}
	if isParam {
		return n == 0
	}
	return n <= 1
}

func (u *Unit) arith(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	c := u.c
	if a.sort == SStr && op == token.ADD {
		return u.scat(a, b)
	}
	if a.sort == SInt && b.sort == SInt {
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.mk("*", SInt, a, b)
		case token.QUO:
			u.check(st, "safety", "division by zero", c.Not(c.Eq(b, c.Int(0))))
			return c.App("go.div", SInt, a, b)
		case token.REM:
			u.check(st, "safety", "division by zero", c.Not(c.Eq(b, c.Int(0))))
			return c.App("go.mod", SInt, a, b)
		}
	}
	unsup("operator %v on %s", op, a.sort)
	return nil
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (u *Unit) equal(st *State, a *Term, ta types.Type, b *Term, tb types.Type) *Term {
	c := u.c
	if isNilT(ta) && isNilT(tb) {
		return c.True()
	}
	if isNilT(ta) {
		a, b, ta, tb = b, a, tb, ta
	}
	if isNilT(tb) {
		switch {
		case a.sort == SAny:
			return c.Eq(a, u.anyNil())
		case a.sort == SFn:
			if u.fnOf(a) != nil {
				return c.False()
			}
			return c.Eq(a, c.Const("fn.nil", SFn))
		case a.sort == SInt:
			return c.Eq(a, c.Int(0))
		default:
			return u.seqIsNil(a)
		}
	}
	if a.sort == SAny && b.sort != SAny {
		b = u.box(b, tb)
	} else if b.sort == SAny && a.sort != SAny {
		a = u.box(a, ta)
	}
	if a.sort == SUnit {
		return c.True()
	}
	return c.Eq(a, b)
}

func (u *Unit) compLit(f *Frame, st *State, e *ast.CompositeLit, t types.Type) (*Term, *State) {
	c := u.c
	if p, ok := t.Underlying().(*types.Pointer); ok { // elided &T in nested literals
		v, st := u.compLit(f, st, e, p.Elem())
		var vals []*Term
		if v.sort != SUnit {
			for i := range u.structFields(p.Elem()) {
				vals = append(vals, u.fieldOf(v, p.Elem(), i))
			}
		}
		return u.newStruct(st, p.Elem(), vals), st
	}
	elem := func(x ast.Expr, et types.Type, st *State) (*Term, *State) {
		if cl, ok := x.(*ast.CompositeLit); ok && cl.Type == nil {
			return u.compLit(f, st, cl, et)
		}
		v, st := u.ev(f, st, x)
		return u.convert(st, v, u.typeOf(f, x), et), st
	}
	if _, ok := isStruct(t); ok {
		fs := u.structFields(t)
		if len(fs) == 0 {
			return c.mk("unit", SUnit), st
		}
		vals := make([]*Term, len(fs))
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if cl, ok := ast.Unparen(kv.Value).(*ast.CompositeLit); ok && isSyncPool(u.typeOf(f, kv.Value)) {
					st = u.poolInit(f, st, cl, t)
					continue
				}
				name := kv.Key.(*ast.Ident).Name
				for j, fd := range fs {
					if fd.Name() == name {
						vals[j], st = elem(kv.Value, fd.Type(), st)
					}
				}
			} else {
				vals[i], st = elem(el, fs[i].Type(), st)
			}
		}
		for i, fd := range fs {
			if vals[i] == nil {
				vals[i] = u.zero(fd.Type())
			}
		}
		return u.mkStruct(t, vals), st
	}
	if et := elemOf(t); et != nil {
		s := u.seqEmpty(u.sortOf(t))
		if arr, ok := t.Underlying().(*types.Array); ok && int(arr.Len()) != len(e.Elts) {
			unsup("partial array literal")
		}
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				unsup("keyed slice literal")
			}
			var v *Term
			v, st = elem(el, et, st)
			s = u.seqBuild(s, v)
		}
		return s, st
	}
	if kt, vt, ok := mapParts(t); ok {
		m := u.newMap(st, t)
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			var k, v *Term
			k, st = elem(kv.Key, kt, st)
			v, st = elem(kv.Value, vt, st)
			u.mapSet(st, m, t, k, v)
		}
		return m, st
	}
	unsup("composite literal of %v", t)
	return nil, nil
}

func (u *Unit) selector(f *Frame, st *State, e *ast.SelectorExpr) (*Term, *State) {
	sel := f.pkg.info.Selections[e]
	if sel == nil {
		o := f.pkg.info.Uses[e.Sel]
		switch o := o.(type) {
		case *types.Var:
			return u.H(st, u.globalComp(o)), st
		case *types.Func:
			return u.fnVal(&FuncVal{obj: o, fi: u.pr.funcs[o.Origin()]}), st
		}
		unsup("qualified identifier %s", exprText(e))
	}
	switch sel.Kind() {
	case types.FieldVal:
		v, st := u.ev(f, st, e.X)
		return u.readPath(st, v, u.typeOf(f, e.X), sel.Index()), st
	case types.MethodVal:
		v, st := u.ev(f, st, e.X)
		fn := sel.Obj().(*types.Func)
		rt := u.typeOf(f, e.X)
		if len(sel.Index()) > 1 {
			v = u.readPath(st, v, rt, sel.Index()[:len(sel.Index())-1])
			unsup("promoted method value")
		}
		return u.fnVal(&FuncVal{obj: fn, fi: u.pr.funcs[fn.Origin()], recv: v, recvT: rt}), st
	}
	unsup("selector kind")
	return nil, nil
}

func (u *Unit) readPath(st *State, v *Term, t types.Type, path []int) *Term {
	for _, i := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			u.nonNil(st, v)
			t = p.Elem()
			u.lockUse(st, v, t, i, false)
			v = u.readField(st, v, t, i)
		} else {
			v = u.fieldOf(v, t, i)
		}
		t = u.structFields(t)[i].Type()
	}
	return v
}

func (u *Unit) fnVal(fv *FuncVal) *Term {
	if fv.obj != nil && fv.recv == nil && fv.frame == nil && fv.lit == nil {
		for i, o := range u.fns { // a declared function is one value
			if o.obj == fv.obj && o.recv == nil {
				return u.c.Const("fn.n"+itoa(i), SFn)
			}
		}
	}
	u.fns = append(u.fns, fv)
	return u.c.Const("fn.n"+itoa(len(u.fns)-1), SFn)
}

func (u *Unit) fnOf(t *Term) *FuncVal {
	for i := 0; i < 5; i++ {
		if len(t.op) > 4 && t.op[:4] == "fn.n" && t.op[4] >= 48 && t.op[4] <= 57 {
			return u.fns[atoi(t.op[4:])]
		}
		d, ok := u.defs[t]
		if !ok {
			return nil
		}
		t = d
	}
	return nil
}

// addrStable: the address of the local o is taken once, at pos, and o is not
// assigned afterwards; then its cell can be created there with its value.
func (u *Unit) addrStable(f *Frame, o types.Object, pos token.Pos) bool {
	var body ast.Node
	if f.lit != nil {
		body = f.lit
	} else if f.fi != nil {
		body = f.fi.decl
	}
	if body == nil || o == nil || o.Pos() < body.Pos() || o.Pos() >= body.End() {
		return false
	}
	ok := true
	addrs := 0
	is := func(e ast.Expr) bool {
		for {
			switch x := ast.Unparen(e).(type) {
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.Ident:
				return f.pkg.info.ObjectOf(x) == o
			}
			return false
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if is(l) && n.End() > pos {
					ok = false
				}
			}
		case *ast.IncDecStmt:
			if is(n.X) && n.Pos() > pos {
				ok = false
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND && is(n.X) {
				addrs++
			}
		case *ast.ForStmt:
			if n.Pos() <= pos && pos < n.End() && o.Pos() < n.Body.Pos() {
				ok = false
			}
		case *ast.RangeStmt:
			if n.Pos() <= pos && pos < n.End() && o.Pos() < n.Body.Pos() {
				ok = false
			}
		case *ast.FuncLit:
			if n != body && n.Pos() <= pos && pos < n.End() && o.Pos() < n.Pos() {
				ok = false
			}
		}
		return true
	})
	return ok && addrs == 1
}
