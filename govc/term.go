package main

// Hash-consed SMT terms.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	id   int
	op   string
	args []*Term
	sort string
	// quantifiers: op == "forall"/"exists"
	vars []*Term
	pats [][]*Term
	size int
}

// Ctx owns terms and declared symbols for one verification unit.
type Ctx struct {
	tab   map[string]*Term
	n     int
	fresh int
	decls map[string]*Decl
}

type Decl struct {
	name string
	args []string
	res  string
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, decls: map[string]*Decl{}}
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SAny  = "Any"
	SFn   = "Fn"
	SUnit = "Unit"
)

func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// arrParts splits "(Array K V)".
func arrParts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func (c *Ctx) mk(op, sort string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sort)
	sz := 1
	for _, a := range args {
		if a == nil {
			panic("nil arg to " + op)
		}
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		sz += a.size
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	if sz > 1<<30 {
		sz = 1 << 30
	}
	c.n++
	t := &Term{id: c.n, op: op, args: args, sort: sort, size: sz}
	c.tab[k] = t
	return t
}

func (c *Ctx) Decl(name string, args []string, res string) {
	if d, ok := c.decls[name]; ok {
		if d.res != res || strings.Join(d.args, ",") != strings.Join(args, ",") {
			panic(fmt.Sprintf("redeclared %s: %v->%s vs %v->%s", name, d.args, d.res, args, res))
		}
		return
	}
	c.decls[name] = &Decl{name, args, res}
}

// App applies (and declares) an uninterpreted symbol.
func (c *Ctx) App(name, res string, args ...*Term) *Term {
	var ss []string
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	c.Decl(name, ss, res)
	return c.mk(name, res, args...)
}

func (c *Ctx) Const(name, sort string) *Term { return c.App(name, sort) }

func san(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *Ctx) Fresh(hint, sort string) *Term {
	c.fresh++
	return c.Const(fmt.Sprintf("%s!%d", san(hint), c.fresh), sort)
}

// BVar makes a bound variable (no declaration).
func (c *Ctx) BVar(hint, sort string) *Term {
	c.fresh++
	return c.mk(fmt.Sprintf("?%s!%d", san(hint), c.fresh), sort)
}

func (c *Ctx) True() *Term  { return c.mk("true", SBool) }
func (c *Ctx) False() *Term { return c.mk("false", SBool) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func (c *Ctx) Int(i int64) *Term {
	return c.mk(strconv.FormatInt(i, 10), SInt)
}
func isLit(t *Term) (int64, bool) {
	if t.sort != SInt || len(t.args) != 0 {
		return 0, false
	}
	v, err := strconv.ParseInt(t.op, 10, 64)
	return v, err == nil
}
func isTrue(t *Term) bool  { return t.op == "true" && len(t.args) == 0 }
func isFalse(t *Term) bool { return t.op == "false" && len(t.args) == 0 }

func (c *Ctx) Not(a *Term) *Term {
	if isTrue(a) {
		return c.False()
	}
	if isFalse(a) {
		return c.True()
	}
	if a.op == "not" {
		return a.args[0]
	}
	return c.mk("not", SBool, a)
}

func (c *Ctx) nary(op string, unit, zero func(*Term) bool, mkUnit, mkZero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if unit(a) {
			return true
		}
		if zero(a) {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if a.sort != SBool {
			panic(op + " of non-bool " + a.String())
		}
		if !add(a) {
			return mkZero
		}
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return mkZero
		}
	}
	if len(out) == 0 {
		return mkUnit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(op, SBool, out...)
}
func (c *Ctx) And(as ...*Term) *Term {
	return c.nary("and", isTrue, isFalse, c.True(), c.False(), as)
}
func (c *Ctx) Or(as ...*Term) *Term {
	return c.nary("or", isFalse, isTrue, c.False(), c.True(), as)
}
func (c *Ctx) Implies(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return c.True()
	}
	if isFalse(b) {
		return c.Not(a)
	}
	if a == b {
		return c.True()
	}
	if b.op == "=>" {
		return c.Implies(c.And(a, b.args[0]), b.args[1])
	}
	return c.mk("=>", SBool, a, b)
}
func (c *Ctx) Iff(a, b *Term) *Term { return c.Eq(a, b) }
func (c *Ctx) Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq of different sorts: %s:%s = %s:%s", a, a.sort, b, b.sort))
	}
	if a == b {
		return c.True()
	}
	if a.sort == SBool {
		if isTrue(a) {
			return b
		}
		if isTrue(b) {
			return a
		}
		if isFalse(a) {
			return c.Not(b)
		}
		if isFalse(b) {
			return c.Not(a)
		}
	}
	if x, ok := isLit(a); ok {
		if y, ok := isLit(b); ok {
			return c.Bool(x == y)
		}
	}
	if a.sort == SStr && strings.HasPrefix(a.op, "lit!") && strings.HasPrefix(b.op, "lit!") {
		return c.False()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}
func (c *Ctx) Ite(x, a, b *Term) *Term {
	if isTrue(x) {
		return a
	}
	if isFalse(x) {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts: %s:%s %s:%s", a, a.sort, b, b.sort))
	}
	if a.sort == SBool {
		if isTrue(a) {
			return c.Or(x, b)
		}
		if isFalse(a) {
			return c.And(c.Not(x), b)
		}
		if isTrue(b) {
			return c.Or(c.Not(x), a)
		}
		if isFalse(b) {
			return c.And(x, a)
		}
	}
	return c.mk("ite", a.sort, x, a, b)
}
func (c *Ctx) Add(a, b *Term) *Term {
	x, ok1 := isLit(a)
	y, ok2 := isLit(b)
	if ok1 && ok2 {
		return c.Int(x + y)
	}
	if ok1 && x == 0 {
		return b
	}
	if ok2 && y == 0 {
		return a
	}
	// (t + k1) + k2
	if ok2 && a.op == "+" && len(a.args) == 2 {
		if z, ok := isLit(a.args[1]); ok {
			return c.Add(a.args[0], c.Int(z+y))
		}
	}
	if ok1 {
		return c.Add(b, a)
	}
	return c.mk("+", SInt, a, b)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if y, ok := isLit(b); ok {
		return c.Add(a, c.Int(-y))
	}
	if a == b {
		return c.Int(0)
	}
	return c.mk("-", SInt, a, b)
}
func (c *Ctx) Cmp(op string, a, b *Term) *Term {
	if a.sort != SInt || b.sort != SInt {
		panic("cmp of non-int: " + a.String() + " " + b.String())
	}
	if x, ok := isLit(a); ok {
		if y, ok := isLit(b); ok {
			switch op {
			case "<":
				return c.Bool(x < y)
			case "<=":
				return c.Bool(x <= y)
			case ">":
				return c.Bool(x > y)
			case ">=":
				return c.Bool(x >= y)
			}
		}
	}
	switch op {
	case ">":
		return c.mk("<", SBool, b, a)
	case ">=":
		return c.mk("<=", SBool, b, a)
	}
	return c.mk(op, SBool, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Cmp("<", a, b) }
func (c *Ctx) Le(a, b *Term) *Term { return c.Cmp("<=", a, b) }

func (c *Ctx) Select(a, i *Term) *Term {
	k, v := arrParts(a.sort)
	if i.sort != k {
		panic(fmt.Sprintf("select index sort %s on %s (%s)", i.sort, a.sort, a))
	}
	if a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if isFalse(c.Eq(a.args[1], i)) {
			return c.Select(a.args[0], i)
		}
	}
	if strings.HasPrefix(a.op, "(as const") {
		return a.args[0]
	}
	return c.mk("select", v, a, i)
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	k, vs := arrParts(a.sort)
	if i.sort != k || v.sort != vs {
		panic(fmt.Sprintf("store sorts %s: %s %s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk("store", a.sort, a, i, v)
}
func (c *Ctx) ConstArr(sort string, v *Term) *Term {
	return c.mk("(as const "+sort+")", sort, v)
}

func (c *Ctx) Quant(q string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if isTrue(body) || isFalse(body) {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	var b strings.Builder
	b.WriteString(q)
	for _, v := range vars {
		fmt.Fprintf(&b, ",%d", v.id)
	}
	fmt.Fprintf(&b, ":%d", body.id)
	for _, p := range pats {
		b.WriteByte(';')
		for _, t := range p {
			fmt.Fprintf(&b, ",%d", t.id)
		}
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: q, args: []*Term{body}, vars: vars, pats: pats, sort: SBool, size: body.size + len(vars)}
	c.tab[k] = t
	return t
}
func (c *Ctx) Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.Quant("forall", vars, body, pats...)
}
func (c *Ctx) Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.Quant("exists", vars, body, pats...)
}

// Subst replaces terms (by identity) in t.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var go_ func(t *Term) *Term
	go_ = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == "forall" || t.op == "exists" {
			b := go_(t.args[0])
			var ps [][]*Term
			ch := b != t.args[0]
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					y := go_(x)
					if y != x {
						ch = true
					}
					q = append(q, y)
				}
				ps = append(ps, q)
			}
			if ch {
				r = c.Quant(t.op, t.vars, b, ps...)
			} else {
				r = t
			}
		} else if len(t.args) == 0 {
			r = t
		} else {
			ch := false
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = go_(a)
				if as[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				r = c.rebuild(t, as)
			}
		}
		memo[t] = r
		return r
	}
	return go_(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "not":
		return c.Not(as[0])
	case "=>":
		return c.Implies(as[0], as[1])
	case "=":
		return c.Eq(as[0], as[1])
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	case "+":
		if len(as) == 2 {
			return c.Add(as[0], as[1])
		}
	case "-":
		if len(as) == 2 {
			return c.Sub(as[0], as[1])
		}
	case "<", "<=":
		return c.Cmp(t.op, as[0], as[1])
	}
	return c.mk(t.op, t.sort, as...)
}

func (t *Term) String() string {
	var b strings.Builder
	writeTerm(&b, t, nil)
	return b.String()
}

func writeTerm(b *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	if t.op == "forall" || t.op == "exists" {
		b.WriteString("(" + t.op + " (")
		for i, v := range t.vars {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("(" + v.op + " " + v.sort + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		writeTerm(b, t.args[0], names)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					writeTerm(b, x, names)
				}
				b.WriteByte(')')
			}
			b.WriteByte(')')
		}
		b.WriteByte(')')
		return
	}
	if len(t.args) == 0 {
		if v, ok := isLit(t); ok && v < 0 {
			fmt.Fprintf(b, "(- %d)", -v)
			return
		}
		b.WriteString(t.op)
		return
	}
	b.WriteByte('(')
	b.WriteString(t.op)
	for _, a := range t.args {
		b.WriteByte(' ')
		writeTerm(b, a, names)
	}
	b.WriteByte(')')
}

// collect visits all subterms.
func collect(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		collect(a, seen, f)
	}
	for _, p := range t.pats {
		for _, x := range p {
			collect(x, seen, f)
		}
	}
}

func containsAny(t *Term, set map[*Term]bool) bool {
	found := false
	collect(t, map[*Term]bool{}, func(x *Term) {
		if set[x] {
			found = true
		}
	})
	return found
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
