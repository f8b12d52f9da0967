package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Generated code (C17, C19, C20).  Everything the generators write is read by an abstract scanner of Go
// source that runs along with the interpretation: constants are read character by character, other
// texts by what they are made of.  C17: text of the document is only ever written inside string
// literals, quoted, and a literal that holds it holds exactly it.  C20: at every closing parenthesis a
// call of the collection is open, and at the end none is.

const netHTML = "golang.org/x/net/html"

// docText: the text comes from the document.
func docText(v *V) bool {
	switch v.k {
	case KSym:
		return docType(v.typ)
	case KApp:
		switch {
		case v.op == "lookup" || v.op == "in" || v.op == "len" || strings.HasPrefix(v.op, "ext:(*runtime.Func)"):
			return false
		case strings.HasPrefix(v.op, "field:"+netHTML+".") || strings.HasPrefix(v.op, "fa:"+netHTML+"."):
			return true
		case v.op == "substr" || v.op == "slice":
			return docText(v.args[0])
		}
		for _, a := range v.args {
			if docText(a) {
				return true
			}
		}
	case KTuple, KStruct, KIface, KSlice:
		for _, a := range v.args {
			if docText(a) {
				return true
			}
		}
	}
	return false
}

func docType(t types.Type) bool {
	if t == nil {
		return false
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == netHTML && (n.Obj().Name() == "Token" || n.Obj().Name() == "Attribute")
}

// docField: v is exactly one of the texts of the document; the field, and what it is a field of.
func docField(v *V) (field string, of *V) {
	if v.k != KApp {
		return "", nil
	}
	op := v.op
	a := v
	if op == "*" && v.args[0].k == KApp {
		a = v.args[0]
		op = a.op
	}
	for _, p := range []string{"field:", "fa:"} {
		if strings.HasPrefix(op, p+netHTML+".") {
			f := op[strings.LastIndex(op, ".")+1:]
			if f == "Data" || f == "Key" || f == "Val" {
				b := a.args[0]
				if b.k == KApp && b.op == "*" { // the field of a copy
					b = b.args[0]
				}
				return f, b
			}
		}
	}
	return "", nil
}

// lowered is v without a change of its case.
func lowered(v *V) *V {
	for v.k == KApp && (v.op == "ext:strings.ToLower" || v.op == "ext:bytes.ToLower") {
		v = v.args[0]
	}
	return v
}

// quotedOf: v is the inside of the quoted form of a text.
func (x *Exec) quotedOf(st *State, v *V) *V {
	if v.k != KApp || v.op != "substr" && v.op != "slice" {
		return nil
	}
	q := v.args[0]
	lo, hi := v.args[1], v.args[2]
	if q.k == KApp && q.op == "bytes" {
		q = q.args[0]
	}
	// an end taken off, then the other
	if q.k == KApp && (q.op == "substr" || q.op == "slice") {
		in := q.args[0]
		if in.k == KApp && in.op == "quote" && hi.isNilConst() && q.args[1].isNilConst() && x.isEnd(st, in, q.args[2], 1) {
			if c, ok := lo.intConst(); ok && c == 1 {
				return in.args[0]
			}
		}
		if in.k == KApp && in.op == "quote" && lo.isNilConst() && q.args[2].isNilConst() {
			if c, ok := q.args[1].intConst(); ok && c == 1 && (x.isEnd(st, q, hi, 1) || x.isEnd(st, in, hi, 2)) {
				return in.args[0]
			}
		}
		return nil
	}
	if q.k != KApp || q.op != "quote" {
		return nil
	}
	if c, ok := lo.intConst(); !ok || c != 1 || !x.isEnd(st, q, hi, 1) {
		return nil
	}
	return q.args[0]
}

// isEnd: hi is d before the end of v.
func (x *Exec) isEnd(st *State, v, hi *V, d int64) bool {
	if hi.isNilConst() {
		return false
	}
	b, o := splitOff(hi)
	lb, lo := splitOff(x.length(st, v))
	return b == lb && o == lo-d
}

// callTarget: the function name that is written is the one a table of the generator has for a key.
func callTarget(v *V) (table, key *V) {
	if v == nil || v.k != KApp {
		return nil, nil
	}
	if v.op == "lookup" {
		return v.args[0], v.args[1]
	}
	for _, a := range v.args {
		if t, k := callTarget(a); t != nil {
			return t, k
		}
		if a.k == KIface || a.k == KTuple {
			for _, b := range a.args {
				if t, k := callTarget(b); t != nil {
					return t, k
				}
			}
		}
	}
	return nil, nil
}

type genScan struct {
	x    *Exec
	st   *State
	rep  *Report
	prop string
	pos  string

	kinds map[string]string // what the tables hold: element, attribute, set
	sets  bool              // there are tables of names
}

// tableKinds tells what the tables of a generator hold.
func tableKinds(p *Prog, voc map[*ssa.Function]*vocabFn, pk *ssa.Package) (kinds map[string]string, anySet bool) {
	kinds = map[string]string{}
	fns, sets := p.tables(pk)
	name := func(v ssa.Value) string {
		if g, ok := v.(*ssa.Global); ok {
			return g.Name()
		}
		return v.Parent().Name() + "." + v.Name()
	}
	attrs := map[string]bool{}
	for m, es := range fns {
		n := map[string]int{}
		for _, e := range es {
			if v := voc[e.fn]; v != nil {
				for _, t := range v.terms {
					if d, ok := decodeNode(t, 0); ok {
						n[d.kindName()]++
						if d.kindName() == "attribute" {
							attrs[e.key] = true
						}
					}
				}
			}
		}
		switch {
		case n["attribute"] > n["element"]:
			kinds[name(m)] = "attribute"
		case n["element"] > 0:
			kinds[name(m)] = "element"
		}
	}
	for m, s := range sets {
		in := 0
		for k := range s {
			if attrs[k] {
				in++
			}
		}
		if in*2 > len(s) {
			kinds[name(m)] = "set"
			anySet = true
		}
	}
	return
}

func (g *genScan) get(k string) string {
	if v := g.st.mon["g:"+k]; v != nil {
		s, _ := v.strConst()
		return s
	}
	return ""
}

func (g *genScan) set(k string, v *V) {
	if k == "depth" && g.prop != "C20" || k != "depth" && k != "lex" && k != "began" && g.prop == "C20" {
		return
	}
	if v == nil {
		delete(g.st.mon, "g:"+k)
	} else {
		g.st.mon["g:"+k] = v
	}
}

func (g *genScan) check(prop string, ok bool, what, msg string) {
	if g.prop == prop && !ok && g.st.mon["g:unsure"] != nil {
		g.undecided("something is written before that is not known: " + msg)
		return
	}
	if g.prop == prop {
		g.rep.check(ok, what+" "+g.pos+" in "+g.x.root, g.pos, g.x.root, msg)
	}
}

func (g *genScan) undecided(msg string) {
	g.rep.undecided(g.x.root, g.pos, msg)
}

// unknown: p is written, and what it is is not known.
func (g *genScan) unknown(p *V) {
	g.undecided(fmt.Sprintf("what is written is not known: %s", p))
	g.st.mon["g:unsure"] = mkBool(true)
}

func (g *genScan) depth() *V {
	if d := g.st.mon["g:depth"]; d != nil {
		return d
	}
	return mkInt(0)
}

func (g *genScan) open(prop string, what, msg string) {
	if g.prop != prop {
		return
	}
	d := g.x.simplify(g.st, less(g.depth(), mkInt(1)))
	b, ok := d.boolConst()
	if !ok && g.lost() || !(ok && !b) && g.st.mon["g:related"] != nil {
		g.undecided("how many calls are open is not known")
		return
	}
	g.check(prop, ok && !b, what, msg)
}

// lost: the count of open calls is not related to anything the generator keeps.
func (g *genScan) lost() bool {
	b, _ := splitOff(g.depth())
	return b != nil && b.k == KSym && b.op == "g:depth#lost"
}

func (g *genScan) constant(s string) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch g.get("lex") {
		case "str":
			switch c {
			case '"':
				g.literal()
				g.set("lex", nil)
			case '\\':
				g.set("lex", mkStr("esc"))
			case '\n':
				g.check("C17", false, "literal", "a string literal is broken by a line end")
				g.set("lex", nil)
			default:
				g.part(mkStr(string(c)))
			}
		case "esc":
			g.set("lex", mkStr("str"))
			g.part(mkStr("\\" + string(c)))
		case "raw":
			if c == '`' {
				g.literal()
				g.set("lex", nil)
			} else {
				g.part(mkStr(string(c)))
			}
		default:
			switch {
			case c == '"' || c == '`':
				g.set("word", nil)
				g.set("lit", mkStr(""))
				g.set("lex", mkStr(map[byte]string{'"': "str", '`': "raw"}[c]))
			case c == '(' || c == '{' || c == '[':
				if g.st.mon["g:began"] != nil {
					g.open("C20", "call opened at", fmt.Sprintf("a call is opened where the collection may be closed already (%s open)", g.depth()))
				}
				g.set("began", mkBool(true))
				g.set("depth", g.x.simplify(g.st, addc(g.depth(), 1)))
				g.set("callee", g.st.mon["g:word"])
				g.set("word", nil)
				g.set("n", mkStr("0"))
				g.set("first", nil)
			case c == ')' || c == '}' || c == ']':
				g.closed()
				g.open("C20", "call closed at", fmt.Sprintf("a call is closed where none may be open (%s open)", g.depth()))
				g.set("depth", g.x.simplify(g.st, addc(g.depth(), -1)))
				for _, k := range []string{"callee", "word", "n", "first"} {
					g.set(k, nil)
				}
			case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c >= 0x80:
				g.word(mkStr(string(c)))
			default:
				g.set("word", nil)
			}
		}
	}
}

func (g *genScan) word(p *V) {
	if w := g.st.mon["g:word"]; w != nil {
		p = mkCat(w, p)
	}
	g.set("word", p)
}

func (g *genScan) part(p *V) {
	if w := g.st.mon["g:lit"]; w != nil {
		p = mkCat(w, p)
	}
	g.set("lit", p)
}

// closed judges a finished call of a function that a table names (C19).
func (g *genScan) closed() {
	callee := g.st.mon["g:callee"]
	if g.prop != "C19" || callee == nil {
		return
	}
	table, key := callTarget(callee)
	if table == nil {
		return
	}
	kind := g.kinds[tableName(table)]
	f, of := docField(lowered(key))
	if kind == "" || f == "" && !docText(key) {
		g.undecided(fmt.Sprintf("the table %s or the origin of its key %s is not known", table, key))
		return
	}
	want := "Data"
	if kind == "attribute" {
		want = "Key"
	}
	g.check("C19", f == want, kind+" function", fmt.Sprintf("the function that is emitted for the %s is looked up by %s", kind, key))
	if kind != "attribute" || f != want || !g.sets {
		return
	}
	n, _ := strconv.Atoi(g.get("n"))
	is, known := false, false
	for k, s := range g.st.facts {
		if k.k == KApp && (k.op == "lookup" || k.op == "in") && s.B != 0 && g.kinds[tableName(k.args[0])] == "set" {
			if kf, kof := docField(lowered(k.args[1])); kf == f && kof == of {
				is, known = s.B == 1, true
			}
		}
	}
	g.check("C19", known && is == (n == 0), "arguments of attribute function", fmt.Sprintf("it is emitted with %d values, but whether it is boolean is %s", n, map[bool]string{true: fmt.Sprint(is), false: "not asked"}[known]))
}

// tableName identifies the place a map is made at.
func tableName(v *V) string {
	switch {
	case v.k == KMap:
		s := v.args[0].op
		return s[strings.LastIndex(s, "/")+1:]
	case v.k == KApp && v.op == "*" && v.args[0].k == KGlobal:
		return v.args[0].gl.Name()
	}
	return ""
}

// literal judges a finished string literal.
func (g *genScan) literal() {
	lit := g.st.mon["g:lit"]
	g.set("lit", nil)
	callee := g.st.mon["g:callee"]
	n, _ := strconv.Atoi(g.get("n"))
	if g.st.mon["g:n"] != nil {
		g.set("n", mkStr(strconv.Itoa(n+1)))
	}
	if lit == nil {
		return
	}
	parts := textParts(lit)
	var doc []*V
	for _, p := range parts {
		if p.k == KApp && p.op == "literal" {
			doc = append(doc, p.args[0])
		}
	}
	if len(doc) == 0 {
		return
	}
	name := ""
	if callee != nil {
		name, _ = callee.strConst()
		name = name[strings.LastIndex(name, ".")+1:]
	}
	if len(parts) > 1 {
		g.check("C17", false, "literal", fmt.Sprintf("the literal is not exactly a text of the document but %s", lit))
		return
	}
	s := doc[0]
	if f, _ := docField(lowered(s)); f != "" && (f == "Key" || f == "Data" && strings.HasSuffix(name, "Element")) {
		s = lowered(s) // the tokenizer gives names in lower case
	}
	f, of := docField(s)
	if f == "" && !docText(s) {
		g.undecided(fmt.Sprintf("the origin of the quoted text %s is not known", s))
		return
	}
	g.check("C17", f != "", "literal", fmt.Sprintf("the literal is not exactly a text of the document but %s", s))
	if f == "" {
		return
	}
	table, key := callTarget(callee)
	what := fmt.Sprintf("argument %d of %s", n, name)
	switch {
	case table != nil:
		kf, kof := docField(lowered(key))
		if kf == "Key" {
			g.check("C17", f == "Val" && of == kof, "value", fmt.Sprintf("the function for attribute %s is given the %s of %s", kof, f, of))
		}
	case name == "Attribute" || name == "DelimitedAttribute" || name == "BooleanAttribute":
		if n == 0 {
			g.check("C17", f == "Key", what, "the name of an attribute is the document's "+f)
			g.set("first", of)
		} else if first := g.st.mon["g:first"]; first != nil {
			g.check("C17", f == "Val" && of == first, what, fmt.Sprintf("the value of attribute %s is the %s of %s", first, f, of))
		}
	case strings.HasSuffix(name, "Element"), name == "Text", name == "Comment", name == "PI", name == "Fragment":
		g.check("C17", f == "Data", what, "it is the document's "+f)
	}
}

func (g *genScan) text(v *V) {
	for _, p := range textParts(v) {
		if s, ok := p.strConst(); ok {
			g.constant(s)
			continue
		}
		if p.k == KApp && (p.op == "gbytes" || p.op == "bytes" || p.op == "string") && len(p.args) == 1 && p.args[0] != v {
			g.text(p.args[0])
			continue
		}
		lex := g.get("lex")
		doc := docText(p)
		raw := g.x.textRaw(g.st, p) & (rawGo | charMask(`"`))
		g.check("C17", true, "text", "")
		if p.k == KApp && p.op == "quote" && (lex == "" || lex == "code") {
			g.set("lit", mkStr(""))
			g.part(mkApp("literal", types.Typ[types.String], p.args[0]))
			g.literal()
			continue
		}
		if q := g.x.quotedOf(g.st, p); q != nil {
			if lex == "str" {
				g.part(mkApp("literal", types.Typ[types.String], q))
				continue
			}
			g.check("C17", !docText(q), "text", fmt.Sprintf("text of the document is written outside a string literal: %s", p))
			continue
		}
		switch {
		case doc:
			where := "inside a string literal without being quoted"
			if lex == "" || lex == "code" {
				where = "outside a string literal"
			}
			g.check("C17", false, "text", fmt.Sprintf("text of the document is written %s: %s", where, p))
		case raw&rawGo == 0 && raw != 0 || raw != 0 && lex != "":
			g.unknown(p)
		case raw != 0:
			if p.k == KSym && strings.Contains(p.op, "#") {
				g.check("C17", false, "text", fmt.Sprintf("text that may be of the document is written outside a string literal: %s", p))
			} else {
				g.unknown(p)
			}
		case lex == "":
			if w := g.st.mon["g:word"]; w != nil || p.k != KSym {
				g.word(p)
			}
		}
	}
}

func genChecks(p *Prog, rep *Report, prop string) error {
	a := newAnalysis(p)
	a.only = func(r Root) bool { return isGenerator(r.fn) }
	if err := a.solve(ModeFail, false); err != nil {
		return err
	}
	kinds, sets := map[*ssa.Package]map[string]string{}, map[*ssa.Package]bool{}
	if prop == "C19" {
		voc, err := vocabulary(p, newReport(prop))
		if err != nil {
			return err
		}
		for _, pk := range p.generatorPkgs() {
			kinds[pk], sets[pk] = tableKinds(p, voc, pk)
		}
	}
	h := &Hooks{Mode: ModeFail, PreciseLen: true, LongText: true}
	h.OnRaw = func(x *Exec, st *State, w, data *V, in ssa.Instruction) {
		if st.failed() {
			for k := range st.mon {
				if strings.HasPrefix(k, "g:") {
					delete(st.mon, k)
				}
			}
			return
		}
		pos := x.p.instrPos(in)
		for i := len(st.frames) - 1; i > 0; i-- {
			if st.frames[i].call != nil && st.frames[i-1].fn.Parent() != nil || i == 1 {
				pos = x.p.instrPos(st.frames[i].call)
				break
			}
		}
		g := &genScan{x: x, st: st, rep: rep, prop: prop, pos: pos, kinds: kinds[st.frames[0].fn.Package()], sets: sets[st.frames[0].fn.Package()]}
		t, ok := x.text(st, data)
		if !ok {
			t = data
		}
		g.text(t)
	}
	c := &Check{h: h, filter: func(r Root) bool { return isGenerator(r.fn) }}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic || e.st.failed() {
			return
		}
		g := &genScan{x: x, st: e.st, rep: rep, prop: prop, pos: x.p.pos(r.fn.Pos())}
		g.check("C17", g.get("lex") == "", "end of", "the generated code can end inside a string literal")
		if g.st.mon["g:began"] == nil { // the writer is replaced by one that is not followed
			return
		}
		d := g.x.simplify(g.st, g.depth())
		z := g.x.simplify(g.st, equal(d, mkInt(0)))
		b, ok := z.boolConst()
		if !ok && g.lost() || !(ok && b) && g.st.mon["g:related"] != nil {
			g.undecided("how many calls are open is not known")
			return
		}
		g.check("C20", ok && b, "end of", fmt.Sprintf("at the end of the generated code %s calls can be open", d))
	}
	return a.run(c, rep)
}

func (h *Hooks) maxParts() int {
	if h.LongText {
		return 60
	}
	return 5
}
