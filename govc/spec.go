package main

// Contract files: parser for clauses and the specification expression language.

import (
	"fmt"
	"os"
	"strings"
)

type Ex struct {
	k    string // ident int str char call sel index slice un bin quant old ite let
	s    string // name / operator
	a    []*Ex
	vars []QVar
	pats [][]*Ex
	line string
}

type QVar struct {
	name  string
	typ   string // Go type text, or ""
	in    *Ex    // collection
	opt   bool   // captures: may be missing
	every bool   // references: also ones not (yet) allocated
}

type Clause struct {
	label string
	e     *Ex
	src   string
	any   []QVar
	at    string
	when  *Ex
	shown bool
}

type Contract struct {
	pkg, key  string
	params    []string
	props     []string
	requires  []*Clause
	ensures   []*Clause
	assumes   []*Clause // assumed at entry but not checked at call sites (documented assumptions)
	modifies  []string
	modEx     []*ModClause
	allocs    []string
	invs      []*Clause
	uses      []*UseClause
	closures  []*Contract
	decreases []*Ex
	trusted   string
	pure      bool
	optional  bool
	src       string
	file      string
	noInv     bool
	timeout   int
	variants  []*Variant
	captures  []QVar
	modes     []string
	opaque    []string
	impls     []string // the methods implementing an interface method
}

type Variant struct {
	any []QVar
	es  []*Ex
}

type ModClause struct {
	kind string // "field" expr.f | "map" expr | "allfield" T.f | "allmap" type | "var" name | "released"
	e    *Ex
	typ  string
	fld  string
}

type UseClause struct {
	old     bool   // evaluated in the entry state
	at      string // exit | entry | loop
	kind    string // induct | lemma | fact
	name    string
	args    []*Ex
	argv    []QVar // typed binders (induct)
	bind    []bool
	by      *Ex
	any     []QVar
	src     string
	binders []QVar // forall binders for lemma uses
}

type PredDef struct {
	pkg    string
	name   string
	kind   string // pred | inductive | rec | lemma | uninterp
	params []QVar
	res    string
	body   *Ex
	req    []*Clause
	ens    []*Clause
	dec    *Ex
	uses   []*UseClause
	auto   bool
	pats   [][]*Ex
	props  []string
	src    string
}

type Specs struct {
	sweeps    [][2]string
	contracts map[string]*Contract
	order     []string
	preds     map[string]*PredDef // pkg.name
	predOrder []string
}

// ---------- lexer ----------

type tok struct{ k, s string } // k: id int str char op eof

func lex(src string) ([]tok, error) {
	var ts []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '#':
			j := i + 1
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9' || src[j] == '_') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			ts = append(ts, tok{"int", src[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			ts = append(ts, tok{"str", src[i+1 : j]})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				j++
			}
			ts = append(ts, tok{"char", src[i+1 : j]})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "->", "+", "-", "*", "/", "%", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "=", "?", "&", ";", "|"}
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("bad character %q in spec: %s", c, src)
			}
		}
	}
	ts = append(ts, tok{"eof", ""})
	return ts, nil
}

type parser_ struct {
	ts  []tok
	i   int
	src string
}

func (p *parser_) peek() tok { return p.ts[p.i] }
func (p *parser_) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *parser_) isOp(s string) bool {
	t := p.ts[p.i]
	return t.k == "op" && t.s == s
}
func (p *parser_) isId(s string) bool {
	t := p.ts[p.i]
	return t.k == "id" && t.s == s
}
func (p *parser_) fail(f string, a ...any) {
	panic(specErr{fmt.Sprintf(f, a...) + fmt.Sprintf(" (at token %d %q) in: %s", p.i, p.peek().s, p.src)})
}
func (p *parser_) expect(s string) {
	if !p.isOp(s) {
		p.fail("expected %q", s)
	}
	p.i++
}

type specErr struct{ s string }

func (e specErr) Error() string { return e.s }

func parseEx(src string) *Ex {
	ts, err := lex(src)
	if err != nil {
		panic(specErr{err.Error()})
	}
	p := &parser_{ts: ts, src: src}
	e := p.expr(0)
	if p.peek().k != "eof" {
		p.fail("trailing tokens")
	}
	return e
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser_) expr(min int) *Ex {
	var l *Ex
	t := p.peek()
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		return p.quant()
	}
	if t.k == "id" && t.s == "let" {
		p.next()
		n := p.next().s
		p.expect("=")
		v := p.expr(0)
		p.expect(";")
		b := p.expr(0)
		return &Ex{k: "let", s: n, a: []*Ex{v, b}}
	}
	if t.k == "id" && t.s == "if" {
		p.next()
		c := p.expr(0)
		if !p.isId("then") {
			p.fail("expected then")
		}
		p.next()
		a := p.expr(0)
		if !p.isId("else") {
			p.fail("expected else")
		}
		p.next()
		b := p.expr(0)
		return &Ex{k: "ite", a: []*Ex{c, a, b}}
	}
	l = p.unary()
	for {
		t := p.peek()
		op := t.s
		if !(t.k == "op" || t.k == "id" && t.s == "in" || t.k == "id" && t.s == "notin") {
			break
		}
		neg := false
		if t.k == "id" && op == "notin" {
			op = "in"
			neg = true
		}
		pr, ok := prec[op]
		if !ok || pr < min {
			break
		}
		p.next()
		var r *Ex
		if op == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Ex{k: "bin", s: op, a: []*Ex{l, r}}
		if neg {
			l = &Ex{k: "un", s: "!", a: []*Ex{l}}
		}
	}
	return l
}

// typeText parses a Go type in the token stream and returns its text.
func (p *parser_) typeText() string {
	t := p.peek()
	switch {
	case t.k == "op" && t.s == "*":
		p.next()
		return "*" + p.typeText()
	case t.k == "op" && t.s == "[":
		p.next()
		if p.isOp("]") {
			p.next()
			return "[]" + p.typeText()
		}
		n := p.next().s
		p.expect("]")
		return "[" + n + "]" + p.typeText()
	case t.k == "id" && t.s == "map":
		p.next()
		p.expect("[")
		k := p.typeText()
		p.expect("]")
		return "map[" + k + "]" + p.typeText()
	case t.k == "id" && t.s == "set":
		p.next()
		p.expect("[")
		k := p.typeText()
		p.expect("]")
		return "set[" + k + "]"
	case t.k == "id" && t.s == "struct":
		p.next()
		p.expect("{")
		p.expect("}")
		return "struct{}"
	case t.k == "id" && t.s == "func":
		p.next()
		p.expect("(")
		s := "func("
		for !p.isOp(")") {
			s += p.typeText()
			if p.isOp(",") {
				p.next()
				s += ","
			}
		}
		p.next()
		s += ")"
		if t := p.peek(); t.k == "id" && t.s != "by" && t.s != "in" {
			s += " " + p.typeText()
		}
		return s
	case t.k == "id":
		p.next()
		s := t.s
		if p.isOp(".") {
			p.next()
			s += "." + p.next().s
		}
		if p.isOp("[") {
			p.next()
			s += "["
			for !p.isOp("]") {
				s += p.typeText()
				if p.isOp(",") {
					p.next()
					s += ","
				}
			}
			p.next()
			s += "]"
		}
		return s
	}
	p.fail("type expected")
	return ""
}

func (p *parser_) quant() *Ex {
	q := p.next().s
	e := &Ex{k: "quant", s: q}
	e.vars = p.binders()
	for p.isOp("{") {
		p.next()
		var ps []*Ex
		for !p.isOp("}") {
			ps = append(ps, p.expr(0))
			if p.isOp(",") {
				p.next()
			}
		}
		p.next()
		e.pats = append(e.pats, ps)
	}
	p.expect(":")
	e.a = []*Ex{p.expr(0)}
	return e
}

// binders: x, y T, z in E, ...
func (p *parser_) binders() []QVar {
	var out []QVar
	for {
		var names []string
		every := p.isId("every")
		if every {
			p.next()
		}
		names = append(names, p.next().s)
		for p.isOp(",") {
			p.next()
			names = append(names, p.next().s)
		}
		if p.isId("in") {
			p.next()
			c := p.expr(6)
			for _, n := range names {
				out = append(out, QVar{name: n, in: c})
			}
		} else {
			t := p.typeText()
			for _, n := range names {
				out = append(out, QVar{name: n, typ: t, every: every})
			}
		}
		if p.isOp(",") {
			p.next()
			continue
		}
		return out
	}
}

func (p *parser_) unary() *Ex {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*") {
		p.next()
		x := p.unary()
		return &Ex{k: "un", s: t.s, a: []*Ex{x}}
	}
	return p.postfix(p.primary())
}

func (p *parser_) postfix(l *Ex) *Ex {
	for {
		switch {
		case p.isOp("."):
			p.next()
			l = &Ex{k: "sel", s: p.next().s, a: []*Ex{l}}
		case p.isOp("["):
			p.next()
			if p.isOp(":") {
				p.next()
				hi := p.expr(0)
				p.expect("]")
				l = &Ex{k: "slice", a: []*Ex{l, nil, hi}}
				continue
			}
			ix := p.expr(0)
			if p.isOp(":") {
				p.next()
				var hi *Ex
				if !p.isOp("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				l = &Ex{k: "slice", a: []*Ex{l, ix, hi}}
				continue
			}
			p.expect("]")
			l = &Ex{k: "index", a: []*Ex{l, ix}}
		case p.isOp("("):
			p.next()
			e := &Ex{k: "call", a: []*Ex{l}}
			for !p.isOp(")") {
				e.a = append(e.a, p.expr(0))
				if p.isOp(",") {
					p.next()
				}
			}
			p.next()
			if l.k == "ident" && l.s == "old" {
				l = &Ex{k: "old", a: e.a[1:]}
			} else {
				l = e
			}
		default:
			return l
		}
	}
}

func (p *parser_) primary() *Ex {
	t := p.next()
	switch t.k {
	case "id":
		if t.s == "map" || t.s == "set" {
			p.i--
			tt := p.typeText()
			return &Ex{k: "type", s: tt}
		}
		return &Ex{k: "ident", s: t.s}
	case "int":
		return &Ex{k: "int", s: t.s}
	case "str":
		return &Ex{k: "str", s: t.s}
	case "char":
		return &Ex{k: "char", s: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
		if t.s == "[" && p.isOp("]") {
			p.i--
			return &Ex{k: "type", s: p.typeText()}
		}
	}
	p.i--
	p.fail("expression expected")
	return nil
}

// ---------- clause files ----------

var clauseKw = map[string]bool{"props": true, "requires": true, "ensures": true, "shows": true, "assumes": true, "modifies": true, "allocates": true, "inv": true, "use": true, "closure": true, "decreases": true, "trusted": true, "optional": true, "measure": true, "trigger": true, "auto": true, "timeout": true, "variant": true, "captures": true, "maycapture": true, "mode": true, "opaque": true}

func LoadSpecs(files []string) (sp *Specs, err error) {
	sp = &Specs{contracts: map[string]*Contract{}, preds: map[string]*PredDef{}}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		sp.parseFile(f, string(b))
	}
	return sp, nil
}

func stripComment(l string) string {
	// '//' outside string literals
	in := false
	for i := 0; i+1 < len(l); i++ {
		if l[i] == '"' && (i == 0 || l[i-1] != '\\') {
			in = !in
		}
		if !in && l[i] == '/' && l[i+1] == '/' && !(i > 0 && l[i-1] == '\'') {
			return l[:i]
		}
	}
	return l
}

func firstWord(s string) string {
	s = strings.TrimSpace(s)
	i := strings.IndexAny(s, " \t(:@{")
	if i < 0 {
		return s
	}
	return s[:i]
}

func (sp *Specs) parseFile(file, src string) {
	lines := strings.Split(src, "\n")
	pkg := ""
	i := 0
	for i < len(lines) {
		l := strings.TrimSpace(stripComment(lines[i]))
		if l == "" {
			i++
			continue
		}
		w := firstWord(l)
		switch w {
		case "package":
			pkg = strings.TrimSpace(l[7:])
			i++
		case "sweep": // sweep PROP/mode: every exported operation of the package
			sp.sweeps = append(sp.sweeps, [2]string{pkg, strings.TrimSpace(l[5:])})
			i++
		case "pred", "inductive", "rec", "uninterp":
			// until blank-terminated or next top-level keyword
			txt := l
			i++
			for i < len(lines) {
				n := strings.TrimSpace(stripComment(lines[i]))
				fw := firstWord(n)
				if n == "" || fw == "pred" || fw == "inductive" || fw == "rec" || fw == "fn" || fw == "lemma" || fw == "package" || fw == "uninterp" {
					break
				}
				txt += "\n" + n
				i++
			}
			sp.parsePred(pkg, w, strings.TrimSpace(txt[len(w):]))
		case "fn", "lemma":
			// block until matching "}" line at depth 0
			hdr := l
			i++
			var body []string
			if strings.HasSuffix(hdr, "{") {
				hdr = strings.TrimSpace(hdr[:len(hdr)-1])
				depth := 1
				for i < len(lines) {
					n := strings.TrimSpace(stripComment(lines[i]))
					i++
					if n == "}" {
						depth--
						if depth == 0 {
							break
						}
					} else if firstWord(n) == "closure" {
						depth++
					}
					body = append(body, n)
				}
			} else {
				panic(specErr{file + ": missing { after " + hdr})
			}
			if w == "fn" {
				c := sp.parseContract(pkg, strings.TrimSpace(hdr[2:]), body)
				c.file = file
				sp.contracts[c.key] = c
				sp.order = append(sp.order, c.key)
			} else {
				sp.parseLemma(pkg, strings.TrimSpace(hdr[5:]), body)
			}
		default:
			panic(specErr{fmt.Sprintf("%s:%d: unexpected %q", file, i+1, l)})
		}
	}
}

func parseParams(p *parser_) []QVar {
	p.expect("(")
	var out []QVar
	for !p.isOp(")") {
		var names []string
		names = append(names, p.next().s)
		for p.isOp(",") {
			p.next()
			names = append(names, p.next().s)
		}
		t := p.typeText()
		for _, n := range names {
			out = append(out, QVar{name: n, typ: t})
		}
		if p.isOp(",") {
			p.next()
		}
	}
	p.next()
	return out
}

func (sp *Specs) parsePred(pkg, kind, txt string) {
	ts, err := lex(txt)
	if err != nil {
		panic(specErr{err.Error()})
	}
	p := &parser_{ts: ts, src: txt}
	d := &PredDef{pkg: pkg, kind: kind, src: txt, res: "bool"}
	d.name = p.next().s
	d.params = parseParams(p)
	if !p.isOp("=") && p.peek().k != "eof" {
		d.res = p.typeText()
	}
	if p.isOp("=") {
		p.next()
		d.body = p.expr(0)
	}
	if p.peek().k != "eof" {
		p.fail("trailing")
	}
	k := pkg + "." + d.name
	if _, dup := sp.preds[k]; dup {
		panic(specErr{"duplicate predicate " + k})
	}
	sp.preds[k] = d
	sp.predOrder = append(sp.predOrder, k)
}

// splitClauses joins continuation lines.
func splitClauses(body []string) []string {
	var out []string
	depth := 0
	for _, l := range body {
		if l == "" {
			continue
		}
		if l == "}" {
			out = append(out, "}")
			continue
		}
		if clauseKw[firstWord(l)] && depth == 0 {
			out = append(out, l)
		} else if len(out) > 0 {
			out[len(out)-1] += "\n" + l
		} else {
			panic(specErr{"stray line in contract: " + l})
		}
	}
	return out
}

func parseAny(p *parser_) []QVar {
	// any v T, q T :
	if p.isId("any") {
		p.next()
		vs := p.binders()
		p.expect(":")
		return vs
	}
	return nil
}

func mkParser(txt string) *parser_ {
	ts, err := lex(txt)
	if err != nil {
		panic(specErr{err.Error()})
	}
	return &parser_{ts: ts, src: txt}
}

// parseLabelled parses "label: expr" or "expr".
func parseLabelled(txt string) *Clause {
	p := mkParser(txt)
	c := &Clause{src: strings.Join(strings.Fields(txt), " ")}
	if p.peek().k == "id" && p.ts[p.i+1].k == "op" && p.ts[p.i+1].s == ":" {
		c.label = p.next().s
		p.next()
	}
	c.e = p.expr(0)
	if p.peek().k != "eof" {
		p.fail("trailing tokens")
	}
	return c
}

func (sp *Specs) parseContract(pkg, hdr string, body []string) *Contract {
	c := &Contract{pkg: pkg, src: hdr}
	name := hdr
	if i := strings.Index(hdr, "("); i >= 0 {
		name = strings.TrimSpace(hdr[:i])
		ps := strings.TrimSuffix(strings.TrimSpace(hdr[i+1:]), ")")
		for _, x := range strings.Split(ps, ",") {
			if x = strings.TrimSpace(x); x != "" {
				c.params = append(c.params, x)
			}
		}
	}
	c.key = pkg + "." + name
	cl := splitClauses(body)
	c.parseBody(cl, 0)
	return c
}

func (c *Contract) parseBody(cl []string, i int) int {
	for i < len(cl) {
		t := cl[i]
		if t == "}" {
			return i + 1
		}
		w := firstWord(t)
		rest := strings.TrimSpace(t[len(w):])
		i++
		switch w {
		case "props":
			c.props = append(c.props, strings.Fields(rest)...)
		case "requires":
			c.requires = append(c.requires, parseLabelled(rest))
		case "assumes":
			c.assumes = append(c.assumes, parseLabelled(rest))
		case "ensures":
			c.ensures = append(c.ensures, parseLabelled(rest))
		case "shows": // a postcondition that callers do not need
			cl := parseLabelled(rest)
			cl.shown = true
			c.ensures = append(c.ensures, cl)
		case "trusted":
			c.trusted = rest
			if rest == "" {
				c.trusted = "trusted"
			}
		case "optional":
			c.optional = true
		case "timeout":
			fmt.Sscanf(rest, "%d", &c.timeout)
		case "allocates":
			for _, x := range strings.Split(rest, ";") {
				if x = strings.TrimSpace(x); x != "" {
					c.allocs = append(c.allocs, x)
				}
			}
		case "modifies":
			for _, x := range strings.Split(rest, ";") {
				if x = strings.TrimSpace(x); x != "" {
					c.modEx = append(c.modEx, parseMod(x))
				}
			}
		case "inv":
			p := mkParser(rest)
			cls := &Clause{src: strings.Join(strings.Fields(rest), " ")}
			cls.any = parseAny(p)
			if p.peek().k == "id" && p.ts[p.i+1].k == "op" && p.ts[p.i+1].s == ":" {
				cls.label = p.next().s
				p.next()
			}
			cls.e = p.expr(0)
			if p.peek().k != "eof" {
				p.fail("trailing tokens")
			}
			c.invs = append(c.invs, cls)
		case "captures":
			c.captures = append(c.captures, mkParser(rest).binders()...)
		case "maycapture":
			for _, q := range mkParser(rest).binders() {
				q.opt = true
				c.captures = append(c.captures, q)
			}
		case "opaque":
			c.opaque = append(c.opaque, strings.Fields(rest)...)
		case "mode":
			c.modes = append(c.modes, strings.Fields(rest)...)
		case "use":
			c.uses = append(c.uses, parseUse(rest))
		case "decreases":
			p := mkParser(rest)
			for {
				c.decreases = append(c.decreases, p.expr(0))
				if !p.isOp(",") {
					break
				}
				p.next()
			}
		case "variant":
			p := mkParser(rest)
			v := &Variant{any: parseAny(p)}
			for {
				v.es = append(v.es, p.expr(0))
				if !p.isOp(",") {
					break
				}
				p.next()
			}
			c.variants = append(c.variants, v)
		case "closure":
			rest = strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(rest), "{"))
			cc := &Contract{pkg: c.pkg, src: rest}
			name := rest
			if k := strings.Index(rest, "("); k >= 0 {
				name = strings.TrimSpace(rest[:k])
				for _, x := range strings.Split(strings.TrimSuffix(strings.TrimSpace(rest[k+1:]), ")"), ",") {
					if x = strings.TrimSpace(x); x != "" {
						cc.params = append(cc.params, x)
					}
				}
			}
			cc.key = name
			i = cc.parseBody(cl, i)
			c.closures = append(c.closures, cc)
		default:
			panic(specErr{"bad clause: " + t})
		}
	}
	return i
}

func parseMod(x string) *ModClause {
	m := &ModClause{}
	if strings.HasPrefix(x, "all ") {
		t := strings.TrimSpace(x[4:])
		if strings.HasPrefix(t, "maps ") {
			m.kind = "allmaplike"
			m.e = parseEx(t[5:])
			return m
		}
		if strings.HasPrefix(t, "map[") || strings.HasPrefix(t, "imap[") {
			m.kind = "allmap"
			m.typ = t
			return m
		}
		k := strings.LastIndex(t, ".")
		m.kind = "allfield"
		m.typ, m.fld = t[:k], t[k+1:]
		return m
	}
	if strings.HasPrefix(x, "map(") {
		m.kind = "map"
		m.e = parseEx(strings.TrimSuffix(x[4:], ")"))
		return m
	}
	if strings.HasPrefix(x, "var ") {
		m.kind = "var"
		m.fld = strings.TrimSpace(x[4:])
		return m
	}
	e := parseEx(x)
	if e.k != "sel" {
		panic(specErr{"bad modifies: " + x})
	}
	m.kind = "field"
	m.e = e.a[0]
	m.fld = e.s
	return m
}

func parseUse(rest string) *UseClause {
	u := &UseClause{at: "exit", src: strings.Join(strings.Fields(rest), " ")}
	if strings.HasPrefix(rest, "@") {
		k := strings.IndexAny(rest, " \t\n")
		u.at = rest[1:k]
		rest = strings.TrimSpace(rest[k:])
	}
	p := mkParser(rest)
	u.any = parseAny(p)
	u.kind = p.next().s
	if u.kind == "old" {
		u.old = true
		u.kind = p.next().s
	}
	if u.kind == "fact" || u.kind == "term" {
		u.by = p.expr(0)
		return u
	}
	if u.kind == "lemma" && p.isId("forall") {
		p.next()
		u.binders = p.binders()
		p.expect(":")
	}
	u.name = p.next().s
	if p.isOp(".") {
		p.next()
		u.name += "." + p.next().s
	}
	p.expect("(")
	for !p.isOp(")") {
		// typed binder?  ident followed by a type-start token
		t0, t1 := p.ts[p.i], p.ts[p.i+1]
		if t0.k == "id" && (t1.k == "id" && t1.s != "in" || t1.k == "op" && (t1.s == "*" || t1.s == "[" && p.ts[p.i+2].s == "]")) && (u.kind == "induct" || u.kind == "meaning") {
			p.next()
			ty := p.typeText()
			u.args = append(u.args, nil)
			u.argv = append(u.argv, QVar{name: t0.s, typ: ty})
			u.bind = append(u.bind, true)
		} else {
			u.args = append(u.args, p.expr(0))
			u.argv = append(u.argv, QVar{})
			u.bind = append(u.bind, false)
		}
		if p.isOp(",") {
			p.next()
		}
	}
	p.next()
	if u.kind == "induct" {
		if !p.isId("by") {
			p.fail("expected by")
		}
		p.next()
		u.by = p.expr(0)
	}
	if p.peek().k != "eof" {
		p.fail("trailing")
	}
	return u
}

func (sp *Specs) parseLemma(pkg, hdr string, body []string) {
	p := mkParser(hdr)
	d := &PredDef{pkg: pkg, kind: "lemma", src: hdr}
	d.name = p.next().s
	d.params = parseParams(p)
	for _, t := range splitClauses(body) {
		w := firstWord(t)
		rest := strings.TrimSpace(t[len(w):])
		switch w {
		case "props":
			d.props = strings.Fields(rest)
		case "requires":
			d.req = append(d.req, parseLabelled(rest))
		case "ensures":
			d.ens = append(d.ens, parseLabelled(rest))
		case "measure":
			d.dec = parseEx(rest)
		case "use":
			d.uses = append(d.uses, parseUse(rest))
		case "auto":
			d.auto = true
		case "trigger":
			pp := mkParser(rest)
			var ps []*Ex
			for {
				ps = append(ps, pp.expr(0))
				if !pp.isOp(",") {
					break
				}
				pp.next()
			}
			d.pats = append(d.pats, ps)
		default:
			panic(specErr{"bad lemma clause: " + t})
		}
	}
	k := pkg + "." + d.name
	sp.preds[k] = d
	sp.predOrder = append(sp.predOrder, k)
}

func (x *Ex) mentions(names map[string]bool) bool {
	if x == nil {
		return false
	}
	if x.k == "ident" && names[x.s] {
		return true
	}
	for _, a := range x.a {
		if a.mentions(names) {
			return true
		}
	}
	return false
}

// without drops what a closure contract says about captured variables that do
// not exist.
func (c *Contract) without(names map[string]bool) *Contract {
	n := *c
	filter := func(cs []*Clause) (out []*Clause) {
		for _, x := range cs {
			if !x.e.mentions(names) {
				out = append(out, x)
			}
		}
		return
	}
	n.requires, n.ensures, n.invs = filter(c.requires), filter(c.ensures), filter(c.invs)
	n.modEx = nil
	for _, m := range c.modEx {
		if !(m.kind == "var" && names[m.fld]) && !m.e.mentions(names) {
			n.modEx = append(n.modEx, m)
		}
	}
	return &n
}
