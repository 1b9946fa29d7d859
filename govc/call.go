package main

import (
	"go/ast"
	"go/types"
	"strconv"
	"strings"
)

func itoa(i int) string { return strconv.Itoa(i) }
func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func (u *Unit) note(s string) { u.assumptions[s] = true }

func (u *Unit) call(f *Frame, st *State, e *ast.CallExpr) ([]*Term, *State) {
	save := u.curPos
	u.curPos = e.Pos()
	defer func() { u.curPos = save }()
	fun := ast.Unparen(e.Fun)
	// conversion
	if tv, ok := f.pkg.info.Types[fun]; ok && tv.IsType() {
		return u.conversion(f, st, e, substT(tv.Type, f.tsub))
	}
	// builtin
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := f.pkg.info.Uses[id].(*types.Builtin); ok {
			return u.builtin(f, st, e, b.Name())
		}
	}
	// strip explicit instantiation
	inst := fun
	switch x := fun.(type) {
	case *ast.IndexExpr:
		if tv, ok := f.pkg.info.Types[x.X]; ok {
			if _, isSig := tv.Type.Underlying().(*types.Signature); isSig {
				inst = ast.Unparen(x.X)
			}
		} else {
			inst = ast.Unparen(x.X)
		}
	case *ast.IndexListExpr:
		inst = ast.Unparen(x.X)
	}
	var idn *ast.Ident
	switch x := inst.(type) {
	case *ast.Ident:
		idn = x
	case *ast.SelectorExpr:
		idn = x.Sel
	}
	if idn != nil {
		if fn, ok := f.pkg.info.Uses[idn].(*types.Func); ok {
			if se, ok := inst.(*ast.SelectorExpr); ok {
				if sel := f.pkg.info.Selections[se]; sel != nil {
					return u.methodCall(f, st, e, se, sel, fn)
				}
			}
			// package-level function
			args, st := u.args(f, st, e, substT(f.pkg.info.Types[e.Fun].Type, f.tsub).Underlying().(*types.Signature))
			if !live(st) {
				return nil, nil
			}
			return u.staticCall(f, st, e, fn, u.instSub(f, idn, fn), nil, nil, args)
		}
	}
	// func value
	fv, st := u.ev(f, st, fun)
	sig := u.typeOf(f, fun).Underlying().(*types.Signature)
	args, st := u.args(f, st, e, sig)
	if !live(st) {
		return nil, nil
	}
	return u.callFnVal(f, st, fv, sig, args)
}

func (u *Unit) instSub(f *Frame, id *ast.Ident, fn *types.Func) map[*types.TypeParam]types.Type {
	inst, ok := f.pkg.info.Instances[id]
	if !ok {
		return nil
	}
	tps := fn.Origin().Type().(*types.Signature).TypeParams()
	m := map[*types.TypeParam]types.Type{}
	for i := 0; i < tps.Len(); i++ {
		m[tps.At(i)] = substT(inst.TypeArgs.At(i), f.tsub)
	}
	return m
}

// args evaluates and packs arguments according to sig.
func (u *Unit) args(f *Frame, st *State, e *ast.CallExpr, sig *types.Signature) ([]*Term, *State) {
	n := sig.Params().Len()
	var vals []*Term
	var tys []types.Type
	if len(e.Args) == 1 && n > 1 || (len(e.Args) == 1 && isTuple(u, f, e.Args[0])) {
		if call, ok := ast.Unparen(e.Args[0]).(*ast.CallExpr); ok {
			if tp, ok := u.typeOf(f, call).(*types.Tuple); ok {
				vals, st = u.call(f, st, call)
				for i := 0; i < tp.Len(); i++ {
					tys = append(tys, tp.At(i).Type())
				}
			}
		}
	}
	if vals == nil {
		for _, a := range e.Args {
			var v *Term
			v, st = u.ev(f, st, a)
			if !live(st) {
				return nil, nil
			}
			vals = append(vals, v)
			tys = append(tys, u.typeOf(f, a))
		}
	}
	var out []*Term
	for i := 0; i < n; i++ {
		pt := substT(sig.Params().At(i).Type(), f.tsub)
		if sig.Variadic() && i == n-1 {
			if e.Ellipsis.IsValid() {
				out = append(out, u.convert(st, vals[i], tys[i], pt))
			} else if len(vals) <= i {
				out = append(out, u.seqNil(u.sortOf(pt)))
			} else {
				s := u.seqEmpty(u.sortOf(pt))
				et := elemOf(pt)
				for j := i; j < len(vals); j++ {
					s = u.seqBuild(s, u.convert(st, vals[j], tys[j], et))
				}
				out = append(out, u.name("args", s))
			}
			continue
		}
		out = append(out, u.convert(st, vals[i], tys[i], pt))
	}
	return out, st
}

func isTuple(u *Unit, f *Frame, e ast.Expr) bool {
	if _, ok := ast.Unparen(e).(*ast.CallExpr); !ok {
		return false
	}
	_, ok := u.typeOf(f, e).(*types.Tuple)
	return ok
}

func (u *Unit) conversion(f *Frame, st *State, e *ast.CallExpr, to types.Type) ([]*Term, *State) {
	v, st := u.ev(f, st, e.Args[0])
	from := u.typeOf(f, e.Args[0])
	ts := u.sortOf(to)
	if isNilT(from) {
		return []*Term{u.zero(to)}, st
	}
	if v.sort == ts {
		return []*Term{v}, st
	}
	if ts == SAny {
		return []*Term{u.box(v, from)}, st
	}
	r := u.c.App("conv."+mangle(v.sort)+"."+mangle(ts), ts, v)
	return []*Term{r}, st
}

func (u *Unit) builtin(f *Frame, st *State, e *ast.CallExpr, name string) ([]*Term, *State) {
	c := u.c
	one := func(t *Term, st *State) ([]*Term, *State) { return []*Term{t}, st }
	switch name {
	case "len", "cap":
		v, st := u.ev(f, st, e.Args[0])
		t := u.typeOf(f, e.Args[0])
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			v = u.loadPtr(st, v, t)
		}
		if name == "cap" {
			r := c.Fresh("cap", SInt)
			u.assume(st, c.Le(u.seqLen(v), r))
			return one(r, st)
		}
		if v.sort == SStr {
			return one(u.slen(v), st)
		}
		if _, _, ok := mapParts(t); ok {
			u.useMap(st, v, t, false)
			return one(u.card(u.mapDom(st, v, t)), st)
		}
		return one(u.seqLen(v), st)
	case "append":
		s, st := u.ev(f, st, e.Args[0])
		t := u.typeOf(f, e)
		et := elemOf(t)
		if isNilT(u.typeOf(f, e.Args[0])) {
			s = u.seqNil(u.sortOf(t))
		}
		if e.Ellipsis.IsValid() {
			var x *Term
			x, st = u.ev(f, st, e.Args[1])
			if x.sort == SStr {
				unsup("append of string")
			}
			if isNilT(u.typeOf(f, e.Args[1])) {
				return one(s, st)
			}
			r := u.seqCat(s, x)
			return one(r, st)
		}
		for _, a := range e.Args[1:] {
			var x *Term
			x, st = u.ev(f, st, a)
			s = u.seqBuild(s, u.convert(st, x, u.typeOf(f, a), et))
		}
		return one(s, st)
	case "make":
		t := u.typeOf(f, e)
		for _, a := range e.Args[1:] { // sizes: evaluate for effects / safety
			_, st = u.ev(f, st, a)
		}
		if _, _, ok := mapParts(t); ok {
			return one(u.newMap(st, t), st)
		}
		if et := elemOf(t); et != nil {
			n, st := u.ev(f, st, e.Args[1])
			if l, ok := isLit(n); ok && l == 0 {
				return one(u.seqEmpty(u.sortOf(t)), st)
			}
			u.check(st, "safety", "make with negative length", c.Le(c.Int(0), n))
			s := c.Fresh("mk", u.sortOf(t))
			u.assume(st, c.Eq(u.seqLen(s), n))
			i := c.BVar("i", SInt)
			at := u.seqAt(s, i)
			u.assume(st, c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.Eq(at, u.zero(et))), []*Term{at}))
			u.assume(st, c.Not(u.seqIsNil(s)))
			return one(s, st)
		}
		unsup("make %v", t)
	case "new":
		t := u.typeOf(f, e.Args[0])
		z := u.zero(t)
		if _, ok := isStruct(t); ok {
			var vals []*Term
			if z.sort != SUnit {
				for i := range u.structFields(t) {
					vals = append(vals, u.fieldOf(z, t, i))
				}
			}
			return one(u.newStruct(st, t, vals), st)
		}
		return one(u.newCell(st, t, z), st)
	case "delete":
		mt := u.typeOf(f, e.Args[0])
		m, st := u.ev(f, st, e.Args[0])
		k, st := u.ev(f, st, e.Args[1])
		kt, _, _ := mapParts(mt)
		k = u.convert(st, k, u.typeOf(f, e.Args[1]), kt)
		u.useMap(st, m, mt, true)
		// delete on nil map is a no-op; dom[0] is empty so the store keeps it empty
		u.mapDel(st, m, mt, k)
		return nil, st
	case "clear":
		mt := u.typeOf(f, e.Args[0])
		if _, _, ok := mapParts(mt); !ok {
			unsup("clear of slice")
		}
		m, st := u.ev(f, st, e.Args[0])
		u.useMap(st, m, mt, true)
		u.mapClear(st, m, mt)
		return nil, st
	case "copy":
		return u.copyBuiltin(f, st, e)
	case "panic":
		for _, a := range e.Args {
			_, st = u.ev(f, st, a)
		}
		u.oblige(st, "safety", "panic reachable", c.False())
		return nil, nil
	case "min", "max":
		a, st := u.ev(f, st, e.Args[0])
		for _, x := range e.Args[1:] {
			var b *Term
			b, st = u.ev(f, st, x)
			if a.sort != SInt {
				unsup("min/max")
			}
			if name == "min" {
				a = c.Ite(c.Le(a, b), a, b)
			} else {
				a = c.Ite(c.Le(a, b), b, a)
			}
		}
		return one(a, st)
	case "print", "println":
		for _, a := range e.Args {
			_, st = u.ev(f, st, a)
		}
		return nil, st
	}
	unsup("builtin %s", name)
	return nil, nil
}

func (u *Unit) copyBuiltin(f *Frame, st *State, e *ast.CallExpr) ([]*Term, *State) {
	c := u.c
	dst := ast.Unparen(e.Args[0])
	if se, ok := dst.(*ast.SliceExpr); ok && se.Low == nil && se.High == nil {
		dst = ast.Unparen(se.X)
	}
	if sh, _ := u.sharedSlice(f, dst); sh {
		unsup("copy into shared slice")
	}
	d, st := u.ev(f, st, dst)
	s, st := u.ev(f, st, e.Args[1])
	if s.sort != d.sort {
		unsup("copy sorts")
	}
	n := c.Fresh("copied", SInt)
	ld, ls := u.seqLen(d), u.seqLen(s)
	u.assume(st, c.Eq(n, c.Ite(c.Le(ls, ld), ls, ld)))
	r := c.Fresh("copy", d.sort)
	u.assume(st, c.Eq(u.seqLen(r), ld))
	i := c.BVar("i", SInt)
	at := u.seqAt(r, i)
	u.assume(st, c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, ld)), c.Eq(at, c.Ite(c.Lt(i, n), u.seqAt(s, i), u.seqAt(d, i)))), []*Term{at}))
	u.assume(st, c.Eq(u.take(r, n), u.take(s, n)))
	u.assume(st, c.Eq(u.take(s, ls), s))
	u.assume(st, c.Eq(u.take(r, ld), r))
	st = u.assign(f, st, dst, r)
	return []*Term{n}, st
}

func derefNamed(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := types.Unalias(t).(*types.Named); !isNamed {
			return p.Elem(), true
		}
	}
	return t, false
}

func (u *Unit) methodCall(f *Frame, st *State, e *ast.CallExpr, se *ast.SelectorExpr, sel *types.Selection, fn *types.Func) ([]*Term, *State) {
	xt := u.typeOf(f, se.X)
	path := sel.Index()
	// type of the direct receiver after embedded path
	rt := xt
	for _, i := range path[:len(path)-1] {
		if p, ok := rt.Underlying().(*types.Pointer); ok {
			rt = p.Elem()
		}
		rt = u.structFields(rt)[i].Type()
	}
	base, _ := derefNamed(rt)
	if n, ok := types.Unalias(base).(*types.Named); ok && n.Obj().Pkg() != nil {
		pp := n.Obj().Pkg().Path()
		if pp == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex") {
			return u.mutexCall(f, st, se, path, fn.Name())
		}
		if pp == "sync" && n.Obj().Name() == "Pool" && f.pkg.name == "utils" {
			return u.syncPoolCall(f, st, e, se, fn)
		}
		if n.Obj().Name() == "Pool" && (strings.HasSuffix(pp, "/utils") || pp == "sync") || n.Obj().Name() == "SlicePool" && strings.HasSuffix(pp, "/utils") {
			if f.pkg.name != "utils" {
				return u.poolCall(f, st, e, base, fn)
			}
		}
	}
	sig := substT(f.pkg.info.Types[e.Fun].Type, f.tsub).Underlying().(*types.Signature)
	if _, _, ok := isIMap(rt); ok && len(path) == 1 {
		return u.imapCall(f, st, e, se, rt, fn.Name(), sig)
	}
	recv, st := u.ev(f, st, se.X)
	if len(path) > 1 {
		recv = u.readPath(st, recv, xt, path[:len(path)-1])
	}
	// receiver adjustment
	msig := fn.Type().(*types.Signature)
	rtv := rt
	if msig.Recv() != nil {
		_, wantPtr := msig.Recv().Type().Underlying().(*types.Pointer)
		_, isIface := msig.Recv().Type().Underlying().(*types.Interface)
		_, havePtr := rt.Underlying().(*types.Pointer)
		switch {
		case isIface:
		case wantPtr && !havePtr:
			if u.pr.funcs[fn.Origin()] == nil { // external, no repo state
				args, st := u.args(f, st, e, sig)
				return u.externalCall(f, st, e, fn, recv, args, sig)
			}
			unsup("address of receiver value at %s", u.pr.pos(e.Pos()))
		case !wantPtr && havePtr:
			u.nonNil(st, recv)
			rtv = rt.Underlying().(*types.Pointer).Elem()
			if u.pr.funcs[fn.Origin()] != nil {
				if _, ok := isStruct(rtv); ok || isTime(rtv) {
					recv = u.loadPtr(st, recv, rtv)
				} else {
					recv = u.loadPtr(st, recv, rtv)
				}
			} else {
				recv = u.loadPtr(st, recv, rtv)
			}
		}
	}
	args, st := u.args(f, st, e, sig)
	if !live(st) {
		return nil, nil
	}
	return u.staticCall(f, st, e, fn, u.recvSub(rtv), recv, rtv, args)
}

// recvSub: type-parameter substitution from an instantiated receiver type.
func (u *Unit) recvSub(rt types.Type) map[*types.TypeParam]types.Type {
	b, _ := derefNamed(rt)
	n, ok := types.Unalias(b).(*types.Named)
	if !ok || n.TypeArgs() == nil || n.TypeArgs().Len() == 0 {
		return nil
	}
	return map[*types.TypeParam]types.Type{nil: n} // resolved per method in bindRecv
}

// methodSub maps the method's own receiver type parameters.
func methodSub(fn *types.Func, m map[*types.TypeParam]types.Type) map[*types.TypeParam]types.Type {
	n, ok := m[nil]
	if !ok {
		return m
	}
	named := n.(*types.Named)
	out := map[*types.TypeParam]types.Type{}
	rtp := fn.Origin().Type().(*types.Signature).RecvTypeParams()
	if rtp == nil {
		return nil
	}
	for i := 0; i < rtp.Len(); i++ {
		out[rtp.At(i)] = named.TypeArgs().At(i)
	}
	return out
}

func (u *Unit) staticCall(f *Frame, st *State, e *ast.CallExpr, fn *types.Func, tsub map[*types.TypeParam]types.Type, recv *Term, recvT types.Type, args []*Term) ([]*Term, *State) {
	fi := u.pr.funcs[fn.Origin()]
	tsub = methodSub(fn, tsub)
	// drop identity substitutions
	for k, v := range tsub {
		if v == types.Type(k) {
			delete(tsub, k)
		}
	}
	if fi == nil {
		// interface method with a contract?
		if fn.Pkg() != nil {
			if p := u.pr.byPth[fn.Pkg().Path()]; p != nil {
				key := funcKey(p, fn)
				if con := u.sp.contracts[key]; con != nil {
					sig := fn.Type().(*types.Signature)
					return u.callContract(f, st, con, nil, p, fn, sig, tsub, recv, recvT, args)
				}
			}
		}
		sig := fn.Type().(*types.Signature)
		if tv, ok := f.pkg.info.Types[e.Fun]; ok {
			sig = substT(tv.Type, f.tsub).Underlying().(*types.Signature)
		}
		return u.externalCall(f, st, e, fn, recv, args, sig)
	}
	u.callPos = e.Pos()
	return u.callRepo(f, st, fi, tsub, recv, recvT, args)
}

func (u *Unit) callRepo(f *Frame, st *State, fi *FuncInfo, tsub map[*types.TypeParam]types.Type, recv *Term, recvT types.Type, args []*Term) ([]*Term, *State) {
	if con := u.sp.contracts[fi.key]; con != nil && !u.forceInline(con) {
		return u.callContract(f, st, con, fi, fi.pkg, fi.obj, fi.obj.Type().(*types.Signature), tsub, recv, recvT, args)
	}
	return u.inlineFn(st, fi, tsub, recv, args)
}

func (u *Unit) forceInline(con *Contract) bool { return u.inlineAll && con.trusted == "" }

func (u *Unit) inlineFn(st *State, fi *FuncInfo, tsub map[*types.TypeParam]types.Type, recv *Term, args []*Term) ([]*Term, *State) {
	for _, s := range u.stack {
		if s == fi.key {
			if u.track && !u.pr.usesPool(fi, map[*FuncInfo]bool{}) {
				return u.poolFreeCall(st, fi, tsub, args)
			}
			if u.locks && !u.track && !u.pr.usesNamed(fi, []string{"Mutex"}, map[*FuncInfo]bool{}) && u.sameOwners(fi, tsub, recv, args) {
				return u.poolFreeCall(st, fi, tsub, args) // neither takes nor releases a lock, and reads the same objects
			}
			unsup("recursive call of %s without a contract", fi.key)
		}
	}
	if len(u.stack) > 12 {
		unsup("inlining too deep")
	}
	u.stack = append(u.stack, fi.key)
	u.sites = append(u.sites, itoa(int(u.callPos)))
	if u.entryArgs == nil {
		u.entryArgs = map[string][]*Term{}
	}
	u.entryArgs[fi.key] = append([]*Term{recv}, args...)
	defer func() { u.stack, u.sites = u.stack[:len(u.stack)-1], u.sites[:len(u.sites)-1] }()
	u.inlined[fi.key] = true
	sig := fi.obj.Type().(*types.Signature)
	f := u.newFrame(nil, fi, fi.pkg, sig)
	f.tsub = tsub
	f.depth = len(u.stack)
	u.bindParams(f, st, fi.decl.Recv, fi.decl.Type, recv, args)
	if fi.decl.Body == nil {
		unsup("no body: %s", fi.key)
	}
	out := u.block(f, st, fi.decl.Body.List)
	return u.finish(f, out)
}

func (u *Unit) bindParams(f *Frame, st *State, recvl *ast.FieldList, ft *ast.FuncType, recv *Term, args []*Term) {
	info := f.pkg.info
	if recvl != nil && len(recvl.List) > 0 && len(recvl.List[0].Names) > 0 {
		n := recvl.List[0].Names[0]
		if n.Name != "_" {
			st.vars[vkey{f, info.Defs[n]}] = recv
		}
	}
	i := 0
	for _, fl := range ft.Params.List {
		if len(fl.Names) == 0 {
			i++
			continue
		}
		for _, n := range fl.Names {
			if n.Name != "_" {
				o := info.Defs[n]
				st.vars[vkey{f, o}] = args[i]
				if elemOf(o.Type()) != nil {
					u.taint[o] = true
				}
			}
			i++
		}
	}
	if ft.Results != nil {
		for _, fl := range ft.Results.List {
			for _, n := range fl.Names {
				if o, ok := info.Defs[n].(*types.Var); ok {
					f.results = append(f.results, o)
					st.vars[vkey{f, o}] = u.zero(substT(o.Type(), f.tsub))
				}
			}
		}
	}
}

// finish merges the return states of a frame.
func (u *Unit) finish(f *Frame, out *State) ([]*Term, *State) {
	if live(out) {
		if f.sig.Results().Len() > 0 && len(f.results) == 0 {
			// fallthrough of a non-void function: unreachable in valid Go (terminating statement)
			out = nil
		} else {
			out = u.runDefers(f, out)
			if live(out) {
				var vals []*Term
				for _, r := range f.results {
					k, _ := u.lookupVar(f, out, r)
					vals = append(vals, out.vars[k])
				}
				f.returns = append(f.returns, &retState{out, vals})
			}
		}
	}
	var sts []*State
	var rs []*retState
	for _, r := range f.returns {
		if live(r.st) {
			sts = append(sts, r.st)
			rs = append(rs, r)
		}
	}
	if len(sts) == 0 {
		return nil, nil
	}
	if len(sts) == 1 {
		u.dropFrame(sts[0], f)
		return rs[0].vals, sts[0]
	}
	n := len(rs[0].vals)
	vals := make([]*Term, n)
	for i := 0; i < n; i++ {
		same := true
		for _, r := range rs[1:] {
			if r.vals[i] != rs[0].vals[i] {
				same = false
			}
		}
		if same {
			vals[i] = rs[0].vals[i]
			continue
		}
		if u.pure > 0 {
			v := rs[len(rs)-1].vals[i]
			for j := len(rs) - 2; j >= 0; j-- {
				v = u.c.Ite(rs[j].st.pc, rs[j].vals[i], v)
			}
			vals[i] = v
			continue
		}
		m := u.c.Fresh("ret", rs[0].vals[i].sort)
		for _, r := range rs {
			u.fact(u.c.Implies(r.st.pc, u.c.Eq(m, r.vals[i])))
		}
		vals[i] = m
	}
	for _, s := range sts {
		u.dropFrame(s, f)
	}
	return vals, u.merge(sts...)
}

// dropFrame forgets the locals of a finished frame unless a closure may still use them.
func (u *Unit) dropFrame(st *State, f *Frame) {
	if f.keep() {
		return
	}
	for k := range st.vars {
		if k.f == f {
			delete(st.vars, k)
		}
	}
}
func (f *Frame) keep() bool {
	// keep when the function builds closures that can outlive it
	var body ast.Node
	if f.lit != nil {
		body = f.lit.Body
	} else if f.fi != nil && f.fi.decl.Body != nil {
		body = f.fi.decl.Body
	}
	if body == nil {
		return true
	}
	has := false
	ast.Inspect(body, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			has = true
		}
		return !has
	})
	return has
}

func (u *Unit) inlineLit(st *State, fv *FuncVal, args []*Term) ([]*Term, *State) {
	key := "lit@" + itoa(int(fv.lit.Pos()))
	for _, s := range u.stack {
		if s == key {
			unsup("recursive closure without a contract")
		}
	}
	u.stack = append(u.stack, key)
	defer func() { u.stack = u.stack[:len(u.stack)-1] }()
	sig := fv.frame.pkg.info.Types[fv.lit].Type.Underlying().(*types.Signature)
	f := u.newFrame(fv.frame, fv.frame.fi, fv.frame.pkg, sig)
	f.tsub = fv.frame.tsub
	f.lit = fv.lit
	f.depth = len(u.stack)
	u.bindParams(f, st, nil, fv.lit.Type, nil, args)
	out := u.block(f, st, fv.lit.Body.List)
	return u.finish(f, out)
}

func (u *Unit) callFnVal(f *Frame, st *State, fv *Term, sig *types.Signature, args []*Term) ([]*Term, *State) {
	if v := u.fnOf(fv); v != nil {
		switch {
		case v.lit != nil:
			if con := u.closureCon[v.lit]; con != nil {
				return u.callClosureContract(f, st, con, v, args)
			}
			return u.inlineLit(st, v, args)
		case v.fi != nil:
			rt := v.recvT
			recv := v.recv
			return u.callRepo(f, st, v.fi, methodSub(v.obj, u.recvSubMaybe(rt)), recv, rt, args)
		case v.obj != nil:
			return u.externalCall(f, st, nil, v.obj, v.recv, args, sig)
		}
	}
	// unknown function value: a deterministic, side-effect free function of its arguments
	u.note("function values passed in by callers are deterministic and have no side effects")
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rt := substT(sig.Results().At(i).Type(), f.tsub)
		r := u.applyFn(fv, i, u.sortOf(rt), args)
		for _, w := range u.wfVal(st, r, rt) {
			u.assume(st, w)
		}
		rs = append(rs, r)
	}
	u.check(st, "safety", "call of nil function", u.c.Not(u.c.Eq(fv, u.c.Const("fn.nil", SFn))))
	if sig.Results().Len() == 0 {
		u.note("callbacks without results (options) only modify the option record they are given")
		// an opaque callback may write the structs it is handed
		for i := 0; i < sig.Params().Len(); i++ {
			pt := substT(sig.Params().At(i).Type(), f.tsub)
			if p, ok := pt.Underlying().(*types.Pointer); ok {
				if _, ok := isStruct(p.Elem()); ok {
					fds := u.structFields(p.Elem())
					var cur []*Term
					for j := range fds {
						cur = append(cur, u.readField(st, args[i], p.Elem(), j))
					}
					for j, fd := range fds {
						nv := u.optField(fv, p.Elem(), j, cur)
						for _, w := range u.wfVal(st, nv, fd.Type()) {
							u.assume(st, w)
						}
						u.writeField(st, args[i], p.Elem(), j, nv)
					}
				}
			}
		}
	}
	return rs, st
}

// optField is field j of the record an unknown option callback leaves behind,
// as a function of the callback and the record it was given.
func (u *Unit) optField(fv *Term, t types.Type, j int, cur []*Term) *Term {
	fd := u.structFields(t)[j]
	return u.c.App("opt."+u.sortOf(t)+"."+fd.Name(), u.sortOf(fd.Type()), append([]*Term{fv}, cur...)...)
}

// optAfter is the record option callback fn makes of record v (specifications).
func (u *Unit) optAfter(f *Frame, st *State, fn, v *Term, t types.Type) *Term {
	fds := u.structFields(t)
	var cur, out []*Term
	for j := range fds {
		cur = append(cur, u.fieldOf(v, t, j))
	}
	if u.fnOf(fn) == nil {
		for j := range fds {
			out = append(out, u.optField(fn, t, j, cur))
		}
		return u.mkStruct(t, out)
	}
	n0 := len(u.facts)
	id0 := u.c.Fresh("mark", SBool).id
	s2 := st.clone()
	s2.pc = u.c.True()
	u.inSpec++
	u.pure++
	r := u.alloc(s2, types.NewPointer(t))
	for j := range fds {
		u.writeField(s2, r, t, j, cur[j])
	}
	_, s2 = u.callFnVal(f, s2, fn, types.NewSignatureType(nil, nil, nil, nil, nil, false), []*Term{r})
	u.inSpec--
	u.pure--
	if s2 == nil {
		unsup("option callback does not return")
	}
	for j := range fds {
		out = append(out, u.expandDefs(u.readField(s2, r, t, j), n0, id0))
	}
	u.facts = u.facts[:n0]
	for _, o := range out {
		if k := freshConst(o, id0, map[*Term]bool{}); k != nil {
			unsup("option callback depends on %s", k.op)
		}
	}
	return u.mkStruct(t, out)
}

func (u *Unit) recvSubMaybe(rt types.Type) map[*types.TypeParam]types.Type {
	if rt == nil {
		return nil
	}
	return u.recvSub(rt)
}

func (u *Unit) applyFn(fv *Term, i int, rs string, args []*Term) *Term {
	nm := "apply" + itoa(i)
	for _, a := range args {
		nm += "." + mangle(a.sort)
	}
	nm += "." + mangle(rs)
	return u.c.App(nm, rs, append([]*Term{fv}, args...)...)
}

// ---------- external models ----------

func (u *Unit) now(st *State) *Term {
	u.note("time.Now() is constant during one call")
	return u.c.Const("time.now", SInt)
}

func (u *Unit) externalCall(f *Frame, st *State, e *ast.CallExpr, fn *types.Func, recv *Term, args []*Term, sig *types.Signature) ([]*Term, *State) {
	c := u.c
	pp := ""
	if fn.Pkg() != nil {
		pp = fn.Pkg().Path()
	}
	rn := recvName(fn)
	name := pp + "." + fn.Name()
	if rn != "" {
		name = pp + "." + rn + "." + fn.Name()
	}
	one := func(t *Term) ([]*Term, *State) { return []*Term{t}, st }
	switch name {
	case "time.Now":
		return one(u.now(st))
	case "time.Time.After":
		return one(c.Lt(args[0], recv))
	case "time.Time.Before":
		return one(c.Lt(recv, args[0]))
	case "time.Time.Equal":
		return one(c.Eq(recv, args[0]))
	case "time.Time.Compare":
		return one(c.Ite(c.Lt(recv, args[0]), c.Int(-1), c.Ite(c.Eq(recv, args[0]), c.Int(0), c.Int(1))))
	case "time.Time.Add":
		return one(c.Add(recv, args[0]))
	case "time.Time.Sub":
		return one(c.Sub(recv, args[0]))
	case "time.Time.IsZero":
		return one(c.Eq(recv, c.Const("time.zero", SInt)))
	case "time.Until":
		return one(c.Sub(args[0], u.now(st)))
	case "time.Since":
		return one(c.Sub(u.now(st), args[0]))
	case "time.ParseDuration":
		return []*Term{c.App("parsedur", SInt, args[0]), c.App("parsedur.err", SAny, args[0])}, st
	case "errors.New", "fmt.Errorf":
		r := c.Fresh("err", SAny)
		u.assume(st, c.Not(c.Eq(r, u.anyNil())))
		return one(r)
	case "strings.IndexByte":
		r := c.Fresh("idx", SInt)
		s, b := args[0], args[1]
		k := c.BVar("k", SInt)
		u.assume(st, c.And(c.Le(c.Int(-1), r), c.Lt(r, u.slen(s)),
			c.Implies(c.Le(c.Int(0), r), c.Eq(u.sat(s, r), b)),
			c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, u.slen(s)), c.Or(c.Lt(k, r), c.Lt(r, c.Int(0)))), c.Not(c.Eq(u.sat(s, k), b))), []*Term{u.sat(s, k)})))
		return one(r)
	case "strings.HasPrefix":
		p := args[1]
		return one(c.And(c.Le(u.slen(p), u.slen(args[0])), c.Eq(u.ssub(args[0], c.Int(0), u.slen(p)), p)))
	case "slices.Contains":
		return one(u.seqMem(args[0], args[1]))
	case "slices.Clone":
		if u.track { // same contents in a buffer of its own
			s := args[0]
			r := c.Fresh("clone", s.sort)
			i := c.BVar("i", SInt)
			x := c.BVar("x", u.es(s.sort))
			u.assume(st, c.And(c.Eq(u.seqLen(r), u.seqLen(s)), c.Eq(u.seqIsNil(r), u.seqIsNil(s)), c.Eq(u.buf(r), c.Int(0))))
			u.assume(st, c.Forall([]*Term{i}, c.Eq(u.seqAt(r, i), u.seqAt(s, i)), []*Term{u.seqAt(r, i)}))
			u.assume(st, c.Forall([]*Term{x}, c.Eq(u.seqMem(r, x), u.seqMem(s, x)), []*Term{u.seqMem(r, x)}))
			return one(r)
		}
		return one(args[0])
	case "slices.Compact":
		return u.compact(f, st, e, args[0])
	case "slices.ContainsFunc", "slices.IndexFunc":
		return u.seqSearchFunc(f, st, fn.Name(), args[0], args[1], elemOf(u.typeOf(f, e.Args[0])))
	case "slices.Index":
		s, x := args[0], args[1]
		r := c.Fresh("idx", SInt)
		k := c.BVar("k", SInt)
		u.assume(st, c.And(c.Le(c.Int(-1), r), c.Lt(r, u.seqLen(s)),
			c.Implies(c.Le(c.Int(0), r), c.Eq(u.seqAt(s, r), x)),
			c.Implies(c.Lt(r, c.Int(0)), c.Not(u.seqMem(s, x))),
			c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, r)), c.Not(c.Eq(u.seqAt(s, k), x))), []*Term{u.seqAt(s, k)})))
		return one(r)
	case "maps.Keys", "maps.Values":
		unsup("iterator %s", name)
	case "maps.Copy":
		return u.mapsCopy(f, st, e, args)
	}
	if strings.HasSuffix(pp, "oarkflow/xsync") || strings.HasSuffix(pp, "oarkflow/maps") {
		if fn.Name() == "NewMap" || fn.Name() == "New" {
			rt := substT(sig.Results().At(0).Type(), f.tsub)
			if _, _, ok := isIMap(rt); ok {
				return one(u.newMap(st, rt))
			}
		}
		unsup("external %s", name)
	}
	pure := map[string]bool{"fmt": true, "log/slog": true, "strings": true, "strconv": true, "encoding/json": true, "context": true, "errors": true, "time": true, "hash/fnv": true, "reflect": true, "sort": true, "math": true, "unicode": true, "bytes": true, "path": true, "log": true}
	if !pure[pp] {
		unsup("external function %s", name)
	}
	if pp == "sort" {
		unsup("external %s", name)
	}
	u.note("external " + name + " has no effect on the authorization state")
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rt := substT(sig.Results().At(i).Type(), f.tsub)
		r := c.Fresh("ext."+fn.Name(), u.sortOf(rt))
		for _, w := range u.wfVal(st, r, rt) {
			u.assume(st, w)
		}
		rs = append(rs, r)
	}
	return rs, st
}

// compact models slices.Compact including its in-place effect on its argument.
func (u *Unit) compact(f *Frame, st *State, e *ast.CallExpr, s *Term) ([]*Term, *State) {
	c := u.c
	r := c.Fresh("compact", s.sort)
	es := u.es(s.sort)
	x := c.BVar("x", es)
	ms, mr := u.seqMem(s, x), u.seqMem(r, x)
	u.assume(st, c.Forall([]*Term{x}, c.Eq(ms, mr), []*Term{mr}, []*Term{ms}))
	u.assume(st, c.And(c.Le(u.seqLen(r), u.seqLen(s)), c.Implies(c.Lt(c.Int(0), u.seqLen(s)), c.Lt(c.Int(0), u.seqLen(r)))))
	u.assume(st, c.Implies(c.Eq(u.seqLen(r), u.seqLen(s)), c.Eq(r, s)))
	u.assume(st, c.Eq(u.seqIsNil(r), u.seqIsNil(s)))
	u.assume(st, c.Eq(c.App(fnm("seq.buf", s.sort), SInt, r), c.App(fnm("seq.buf", s.sort), SInt, s)))
	// elements are adjacent-distinct; the tail of the argument is zeroed in place
	if e != nil {
		a := ast.Unparen(e.Args[0])
		et := elemOf(u.typeOf(f, a))
		switch a.(type) {
		case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr:
			t := c.Fresh("tail", s.sort)
			i := c.BVar("i", SInt)
			at := u.seqAt(t, i)
			u.assume(st, c.And(c.Eq(u.seqLen(t), c.Sub(u.seqLen(s), u.seqLen(r))), c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, u.seqLen(t))), c.Eq(at, u.zero(et))), []*Term{at})))
			mt := u.seqMem(t, x)
			u.assume(st, c.Forall([]*Term{x}, c.Implies(mt, c.Eq(x, u.zero(et))), []*Term{mt}))
			st = u.assign(f, st, a, u.seqCat(r, t))
		}
	}
	return []*Term{r}, st
}

func (u *Unit) seqSearchFunc(f *Frame, st *State, name string, s, fn *Term, et types.Type) ([]*Term, *State) {
	c := u.c
	fv := u.fnOf(fn)
	if fv == nil {
		unsup("%s with unknown callback", name)
	}
	// predicate as a pure function of the element: evaluate on a bound element
	pred := func(x *Term) *Term {
		return u.pureCall(f, st, fn, x)
	}
	x := c.BVar("e", u.es(s.sort))
	p := pred(x)
	m := u.seqMem(s, x)
	ex := c.Fresh("found", SBool)
	w := c.Fresh("wit", u.es(s.sort))
	u.assume(st, c.Implies(ex, c.And(u.seqMem(s, w), c.Subst(p, map[*Term]*Term{x: w}))))
	u.assume(st, c.Implies(c.Not(ex), c.Forall([]*Term{x}, c.Implies(m, c.Not(p)), []*Term{m})))
	if name == "ContainsFunc" {
		return []*Term{ex}, st
	}
	r := c.Fresh("idx", SInt)
	u.assume(st, c.And(c.Le(c.Int(-1), r), c.Lt(r, u.seqLen(s)), c.Eq(ex, c.Le(c.Int(0), r)), c.Implies(ex, c.Eq(u.seqAt(s, r), w))))
	return []*Term{r}, st
}

// pureCall evaluates a callback on a symbolic argument without effects; the
// resulting term must not depend on constants introduced during evaluation
// other than by definition.
func (u *Unit) pureCall(f *Frame, st *State, fn *Term, args ...*Term) *Term {
	n0 := len(u.facts)
	id0 := u.c.Fresh("mark", SBool).id
	s2 := st.clone()
	s2.pc = u.c.True()
	u.inSpec++
	u.pure++
	sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	rs, _ := u.callFnVal(f, s2, fn, sig, args)
	u.inSpec--
	u.pure--
	if len(rs) != 1 {
		unsup("callback result")
	}
	// inline definitions introduced meanwhile
	r := u.expandDefs(rs[0], n0, id0)
	u.facts = u.facts[:n0]
	if k := freshConst(r, id0, map[*Term]bool{}); k != nil {
		unsup("callback result depends on %s", k.op)
	}
	return r
}

// freshConst finds a constant of t that was introduced at or after id0.
func freshConst(t *Term, id0 int, seen map[*Term]bool) *Term {
	if seen[t] || t.id < id0 {
		return nil
	}
	seen[t] = true
	if len(t.args) == 0 && strings.Contains(t.op, "!") && t.op[0] != '?' && !strings.HasSuffix(t.op, "@0") && !strings.HasPrefix(t.op, "lit!") {
		return t
	}
	for _, a := range t.args {
		if r := freshConst(a, id0, seen); r != nil {
			return r
		}
	}
	return nil
}

// expandDefs rewrites constants defined by facts[n0:] (name()/merge equalities).
func (u *Unit) expandDefs(t *Term, n0, id0 int) *Term {
	c := u.c
	for iter := 0; iter < 50; iter++ {
		m := map[*Term]*Term{}
		for _, fct := range u.facts[n0:] {
			if fct.op == "=" && len(fct.args) == 2 {
				for k := 0; k < 2; k++ {
					a, b := fct.args[k], fct.args[1-k]
					if strings.Contains(a.op, "!") && len(a.args) == 0 && !containsAny(b, map[*Term]bool{a: true}) {
						if _, ok := m[a]; !ok && a.id >= id0 && (len(b.args) > 0 || a.id > b.id) {
							m[a] = b
						}
					}
				}
			}
			if k := fct; len(k.args) == 0 && k.id >= id0 && strings.Contains(k.op, "!") {
				m[k] = c.True()
			} else if fct.op == "not" && len(fct.args[0].args) == 0 && fct.args[0].id >= id0 && strings.Contains(fct.args[0].op, "!") {
				m[fct.args[0]] = c.False()
			}
		}
		n := c.Subst(t, m)
		if n == t {
			return t
		}
		t = n
	}
	unsup("callback too complex")
	return nil
}

func (u *Unit) mapsCopy(f *Frame, st *State, e *ast.CallExpr, args []*Term) ([]*Term, *State) {
	dt, sT := u.typeOf(f, e.Args[0]), u.typeOf(f, e.Args[1])
	if refKey(dt) != refKey(sT) {
		unsup("maps.Copy types")
	}
	c := u.c
	d := u.domComp(dt)
	hd := u.H(st, d)
	nd := c.Fresh("domcopy", ArrSort(u.sortOf(d.ktyp), SBool))
	k := c.BVar("k", u.sortOf(d.ktyp))
	od, sd := c.Select(hd, args[0]), c.Select(hd, args[1])
	u.assume(st, c.Forall([]*Term{k}, c.Eq(c.Select(nd, k), c.Or(c.Select(od, k), c.Select(sd, k))), []*Term{c.Select(nd, k)}))
	u.check(st, "safety", "copy into nil map", c.Not(c.Eq(args[0], c.Int(0))))
	_, vt, _ := mapParts(dt)
	if u.sortOf(vt) != SUnit {
		vc := u.valComp(dt)
		hv := u.H(st, vc)
		nv := c.Fresh("valcopy", ArrSort(u.sortOf(d.ktyp), u.sortOf(vt)))
		u.assume(st, c.Forall([]*Term{k}, c.Eq(c.Select(nv, k), c.Ite(c.Select(sd, k), c.Select(c.Select(hv, args[1]), k), c.Select(c.Select(hv, args[0]), k))), []*Term{c.Select(nv, k)}))
		u.logWrite(vc, args[0])
		u.setH(st, vc, c.Store(hv, args[0], nv))
	}
	u.logWrite(d, args[0])
	u.setH(st, d, c.Store(hd, args[0], nd))
	return nil, st
}

func (u *Unit) imapCall(f *Frame, st *State, e *ast.CallExpr, se *ast.SelectorExpr, mt types.Type, name string, sig *types.Signature) ([]*Term, *State) {
	c := u.c
	m, st := u.ev(f, st, se.X)
	kt, vt, _ := isIMap(mt)
	u.note("external map container (IMap) behaves as a finite map")
	u.check(st, "safety", "nil map interface", c.Not(c.Eq(m, c.Int(0))))
	if name == "ForEach" {
		lit := ast.Unparen(e.Args[0])
		cb, st := u.ev(f, st, lit)
		return u.mapForEach(f, st, e, m, mt, cb)
	}
	args, st := u.args(f, st, e, sig)
	switch name {
	case "Get":
		return []*Term{u.mapGet(st, m, mt, args[0]), u.mapHas(st, m, mt, args[0])}, st
	case "Set":
		u.mapSet(st, m, mt, args[0], args[1])
		return nil, st
	case "Del", "Delete":
		if sig.Variadic() {
			unsup("variadic Del")
		}
		u.mapDel(st, m, mt, args[0])
		var rs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, c.Fresh("del", u.sortOf(sig.Results().At(i).Type())))
		}
		return rs, st
	case "Clear":
		u.mapClear(st, m, mt)
		return nil, st
	case "Size", "Len":
		return []*Term{u.card(u.mapDom(st, m, mt))}, st
	case "Values", "Keys":
		et := vt
		if name == "Keys" {
			et = kt
		}
		ss := u.seqSort(u.sortOf(et))
		s := c.Fresh("vals", ss)
		k := c.BVar("k", u.sortOf(kt))
		dom := u.mapDom(st, m, mt)
		val := func(k *Term) *Term {
			if name == "Keys" {
				return k
			}
			return u.mapRaw(st, m, mt, k)
		}
		u.assume(st, c.Forall([]*Term{k}, c.Implies(c.Select(dom, k), u.seqMem(s, val(k))), []*Term{c.Select(dom, k)}))
		x := c.BVar("x", u.sortOf(et))
		kk := c.App("valkey."+mangle(ss), u.sortOf(kt), s, x)
		u.assume(st, c.Forall([]*Term{x}, c.Implies(u.seqMem(s, x), c.And(c.Select(dom, kk), c.Eq(val(kk), x))), []*Term{u.seqMem(s, x)}))
		for _, w := range u.wfVal(st, s, types.NewSlice(et)) {
			u.assume(st, w)
		}
		return []*Term{s}, st
	}
	unsup("IMap.%s", name)
	return nil, nil
}

// ---------- pools ----------

func (u *Unit) poolCall(f *Frame, st *State, e *ast.CallExpr, base types.Type, fn *types.Func) ([]*Term, *State) {
	c := u.c
	n := types.Unalias(base).(*types.Named)
	var et types.Type
	slice := n.Obj().Name() == "SlicePool"
	if n.TypeArgs() == nil || n.TypeArgs().Len() != 1 {
		unsup("sync.Pool")
	}
	et = substT(n.TypeArgs().At(0), f.tsub)
	if slice {
		et = types.NewSlice(et)
	}
	u.note("pool Get returns a buffer owned by nobody else, with arbitrary contents (slices: empty)")
	switch fn.Name() {
	case "Get":
		if rk := refKey(et); rk != "" {
			r := u.alloc(st, et)
			return []*Term{r}, st
		}
		s := c.Fresh("pooled", u.sortOf(et))
		u.assume(st, c.Eq(u.seqLen(s), c.Int(0)))
		if u.track {
			b := u.H(st, u.comp(&compInfo{name: "X!bufs", sort: SInt, kind: "X"}))
			u.assume(st, c.Eq(u.buf(s), b))
			u.assume(st, c.Lt(c.Int(0), b))
			st.heap["X!bufs"] = c.Add(b, c.Int(1))
			u.logWrite(u.comps["X!bufs"], nil)
		}
		return []*Term{s}, st
	case "Put":
		v, st := u.ev(f, st, e.Args[0])
		if u.track {
			if rk := refKey(et); rk != "" {
				ci := u.releasedComp(rk)
				h := u.H(st, ci)
				u.check(st, "own", "buffer returned to the pool twice", c.Not(c.Select(h, v)))
				u.logWrite(ci, nil)
				u.setH(st, ci, c.Store(h, v, c.True()))
			} else {
				ci := u.releasedComp("slices")
				h := u.H(st, ci)
				u.logWrite(ci, nil)
				u.setH(st, ci, c.Store(h, u.buf(v), c.True()))
			}
		}
		return nil, st
	}
	unsup("pool method %s", fn.Name())
	return nil, nil
}

func (u *Unit) buf(s *Term) *Term { return u.c.App(fnm("seq.buf", s.sort), SInt, s) }

// releasedComp: the buffers this call has put back (none at entry).
func (u *Unit) releasedComp(rk string) *compInfo {
	n := "X!released." + rk
	if ci, ok := u.comps[n]; ok {
		return ci
	}
	return u.comp(&compInfo{name: n, sort: ArrSort(SInt, SBool), kind: "X"})
}

// useMap: ownership (and lock) obligations for a map access.
func (u *Unit) useMap(st *State, m *Term, mt types.Type, write bool) {
	if u.inSpec > 0 {
		return
	}
	if u.track {
		rk := refKey(mt)
		if ci, ok := u.comps["X!released."+rk]; ok {
			u.check(st, "own", "use of a buffer after it was returned to the pool", u.c.Not(u.c.Select(u.H(st, ci), m)))
		}
	}
	if u.locks {
		u.lockMapUse(st, m, mt, write)
	}
}

// ownReturn: a returned value must not be a released buffer.
func (u *Unit) ownReturn(st *State, v *Term, t types.Type) {
	if !u.track {
		return
	}
	if rk := refKey(t); rk != "" {
		if ci, ok := u.comps["X!released."+rk]; ok {
			u.oblige(st, "own", "result is a buffer that was returned to the pool", u.c.Not(u.c.Select(u.H(st, ci), v)))
		}
		return
	}
	if elemOf(t) != nil {
		if ci, ok := u.comps["X!released.slices"]; ok {
			u.oblige(st, "own", "result is a buffer that was returned to the pool", u.c.Not(u.c.Select(u.H(st, ci), u.buf(v))))
		}
	}
}

// ownHeap: nothing reachable through fields written by this call is a released buffer,
// and only buffers taken by this call were put back.
func (u *Unit) ownHeap(st *State) {
	if !u.track {
		return
	}
	c := u.c
	for _, k := range sortedKeys(u.comps) {
		ci := u.comps[k]
		if strings.HasPrefix(k, "X!released.") && k != "X!released.slices" {
			if h := u.H(st, ci); h != u.H0(ci) {
				x := c.Fresh("rel", SInt)
				u.oblige(st, "own", "only buffers taken by this call are put back", c.Implies(c.Select(h, x), c.Le(u.next(u.entry, strings.TrimPrefix(k, "X!released.")), x)))
			}
			continue
		}
		if ci.kind != "F" || ci.vtyp == nil {
			continue
		}
		if elemOf(ci.vtyp) != nil {
			if rel, ok := u.comps["X!released.slices"]; ok {
				h0, h1 := u.H(u.entry, ci), u.H(st, ci)
				if h0 != h1 {
					x := c.Fresh("own", SInt)
					g := c.And(c.Lt(c.Int(0), x), c.Lt(x, u.next(st, ci.owner)), c.Not(c.Eq(c.Select(h0, x), c.Select(h1, x))))
					u.oblige(st, "own", "a buffer returned to the pool stays reachable through "+k[2:], c.Implies(g, c.Not(c.Select(u.H(st, rel), u.buf(c.Select(h1, x))))))
				}
			}
			continue
		}
		rel, ok := u.comps["X!released."+refKey(ci.vtyp)]
		if refKey(ci.vtyp) == "" || !ok {
			continue
		}
		h0, h1 := u.H(u.entry, ci), u.H(st, ci)
		if h0 == h1 {
			continue
		}
		x := c.Fresh("own", SInt)
		g := c.And(c.Lt(c.Int(0), x), c.Lt(x, u.next(st, ci.owner)), c.Not(c.Eq(c.Select(h0, x), c.Select(h1, x))))
		u.oblige(st, "own", "a buffer returned to the pool stays reachable through "+k[2:], c.Implies(g, c.Not(c.Select(u.H(st, rel), c.Select(h1, x)))))
	}
}

// usesPool: the function or something it mentions takes from or puts into a pool.
// sameOwners: a recursive call passes the objects of the call it is made from.
func (u *Unit) sameOwners(fi *FuncInfo, tsub map[*types.TypeParam]types.Type, recv *Term, args []*Term) bool {
	old := u.entryArgs[fi.key]
	now := append([]*Term{recv}, args...)
	if len(old) != len(now) {
		return false
	}
	sig := fi.obj.Type().(*types.Signature)
	for i := range now {
		if old[i] == now[i] {
			continue
		}
		if i == 0 {
			return false
		}
		if i-1 >= sig.Params().Len() {
			return false
		}
		if _, ok := substT(sig.Params().At(i-1).Type(), tsub).Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

func (pr *Prog) usesPool(fi *FuncInfo, seen map[*FuncInfo]bool) bool {
	return pr.usesNamed(fi, []string{"Pool"}, seen)
}

// usesNamed: the function, or one it calls, uses a method of a type so named.
func (pr *Prog) usesNamed(fi *FuncInfo, names []string, seen map[*FuncInfo]bool) bool {
	if seen[fi] || fi.decl.Body == nil {
		return false
	}
	seen[fi] = true
	uses := false
	ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || uses {
			return !uses
		}
		fn, ok := fi.pkg.info.Uses[id].(*types.Func)
		if !ok {
			return true
		}
		if r := fn.Type().(*types.Signature).Recv(); r != nil {
			if nm, ok := derefBase(r.Type()); ok {
				for _, n := range names {
					uses = uses || strings.HasSuffix(nm.Obj().Name(), n)
				}
				if uses {
					return false
				}
			}
		}
		if g := pr.funcs[fn.Origin()]; g != nil && pr.usesNamed(g, names, seen) {
			uses = true
		}
		return !uses
	})
	return uses
}

// poolFreeCall abstracts a recursive call in ownership units: it may change the
// heap in any way, but neither takes from nor puts into a pool.
func (u *Unit) poolFreeCall(st *State, fi *FuncInfo, tsub map[*types.TypeParam]types.Type, args []*Term) ([]*Term, *State) {
	c := u.c
	pure := u.pr.heapPure(fi, map[*FuncInfo]bool{})
	for _, k := range sortedKeys(u.comps) {
		ci := u.comps[k]
		if ci.kind == "X" || ci.kind == "L" || pure && ci.kind != "N" {
			continue
		}
		nv := c.Fresh("h."+k, ci.sort)
		if ci.kind == "N" {
			u.assume(st, c.Le(u.H(st, ci), nv))
		}
		u.logWrite(ci, nil)
		u.setH(st, ci, nv)
	}
	var rs []*Term
	sig := fi.obj.Type().(*types.Signature)
	for i := 0; i < sig.Results().Len(); i++ {
		rt := substT(sig.Results().At(i).Type(), tsub)
		r := c.Fresh(shortName(fi.key), u.sortOf(rt))
		for _, w := range u.wfVal(st, r, rt) {
			u.assume(st, w)
		}
		var ok []*Term
		if rk := refKey(rt); rk != "" {
			if ci, in := u.comps["X!released."+rk]; in {
				ok = append(ok, c.Not(c.Select(u.H(st, ci), r)))
				for _, a := range args {
					if a.sort == r.sort {
						ok = append(ok, c.Eq(a, r))
					}
				}
			}
		} else if elemOf(rt) != nil {
			ok = append(ok, c.Eq(u.buf(r), c.Int(0)))
			for _, a := range args {
				if a.sort == r.sort {
					ok = append(ok, c.Eq(u.buf(a), u.buf(r)))
				}
			}
		}
		if len(ok) > 0 {
			u.assume(st, c.Or(ok...))
		}
		rs = append(rs, r)
	}
	return rs, st
}

// heapPure: nothing in the function or what it mentions writes a field, an
// element or a map (syntactic, conservative).
func (pr *Prog) heapPure(fi *FuncInfo, seen map[*FuncInfo]bool) bool {
	if seen[fi] {
		return true
	}
	if fi.decl.Body == nil {
		return false
	}
	seen[fi] = true
	ok := true
	lhs := func(e ast.Expr) {
		if _, id := ast.Unparen(e).(*ast.Ident); !id {
			ok = false
		}
	}
	ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				lhs(l)
			}
		case *ast.IncDecStmt:
			lhs(x.X)
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{x.Key, x.Value} {
				if l != nil {
					lhs(l)
				}
			}
		case *ast.GoStmt, *ast.SendStmt:
			ok = false
		case *ast.Ident:
			switch o := fi.pkg.info.Uses[x].(type) {
			case *types.Builtin:
				switch o.Name() {
				case "len", "cap", "append", "make", "new", "panic", "min", "max":
				default:
					ok = false
				}
			case *types.Var:
				if o.Parent() == fi.pkg.types.Scope() { // package variable
					ok = false
				}
			case *types.Func:
				if g := pr.funcs[o.Origin()]; g != nil {
					if !pr.heapPure(g, seen) {
						ok = false
					}
				} else if o.Type().(*types.Signature).Recv() != nil {
					switch o.Name() {
					case "Get", "ForEach", "Len", "Size", "Values", "Keys", "String", "Error":
					default:
						ok = false
					}
				} else if p := o.Pkg().Path(); p != "slices" && p != "strings" && p != "errors" && p != "fmt" && p != "strconv" {
					ok = false
				}
			}
		}
		return ok
	})
	return ok
}
