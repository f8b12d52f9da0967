package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"regexp"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The vocabulary (C16, C19, C23): what every exported constructor of the html, svg, htmx and css
// packages hands to the constructors of the root package, as terms over its parameters.

type vocabFn struct {
	fn    *ssa.Function
	doc   string
	pos   string
	terms []*V // results over all executions: call:F(args...)
	why   string
}

// vocabulary analyses the exported functions of every package but the root one.
func vocabulary(p *Prog, rep *Report) (map[*ssa.Function]*vocabFn, error) {
	a := newAnalysis(p)
	a.zeroValues()
	docs := p.funcDocs()
	out := map[*ssa.Function]*vocabFn{}
	h := &Hooks{Mode: ModeOK, Seq: true}
	h.OnCall = func(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
		if !x.modular(fn) {
			return false, nil
		}
		res := fn.Signature.Results()
		if res.Len() != 1 {
			return false, nil
		}
		return true, []Exit{{st: st, ret: []*V{x.ctorTerm(st, fn, args)}}}
	}
	for _, r := range p.baseRoots() {
		pk := r.fn.Package()
		if r.kind != "func" || pk == nil || pk.Pkg.Path() == p.mod || pk.Pkg.Path() == p.mod+"/context" || isGenerator(r.fn) {
			continue
		}
		res := r.fn.Signature.Results()
		if res.Len() != 1 {
			continue
		}
		v := &vocabFn{fn: r.fn, doc: docs[r.fn.Object()], pos: p.pos(r.fn.Pos())}
		out[r.fn] = v
		seen := map[*V]bool{}
		c := &Check{h: h}
		c.exit = func(x *Exec, r Root, e Exit) {
			if e.panic || len(e.ret) != 1 {
				return
			}
			t := x.seqTerm(e.st, e.ret[0])
			if !seen[t] {
				seen[t] = true
				v.terms = append(v.terms, t)
			}
		}
		if err := a.runRoot(r, c, rep); err != nil {
			v.why = err.Error()
			v.terms = nil
		}
	}
	return out, nil
}

// ctorTerm is call:F(args) where slices are replaced by what they hold.
func (x *Exec) ctorTerm(st *State, fn *ssa.Function, args []*V) *V {
	var as []*V
	for _, a := range args {
		as = append(as, x.seqTerm(st, a))
	}
	t := mk(V{k: KApp, op: "call:" + fn.String(), fn: fn, typ: fn.Signature.Results().At(0).Type(), args: as})
	f := topShape(t.typ, 1)
	f.Nil = 2
	st.facts[t] = f
	return t
}

func (x *Exec) seqTerm(st *State, a *V) *V {
	if isByteSlice(a.typ) {
		if t, ok := x.text(st, a); ok {
			return t
		}
		return a
	}
	if a.k == KIface {
		in := x.seqTerm(st, a.args[0])
		if in != a.args[0] {
			return mk(V{k: KIface, typ: a.typ, args: []*V{in}})
		}
		return a
	}
	_, isSlice := typUnder(a.typ).(*types.Slice)
	if isSlice {
		if s := x.seqOf(st, a); s != nil {
			var ps []*V
			for _, p := range s.args {
				if p.op == "e" {
					p = mkApp("e", p.typ, x.seqTerm(st, p.args[0]))
				}
				ps = append(ps, p)
			}
			return mkSeq(ps...)
		}
	}
	return a
}

func typUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// funcDocs are the doc comments of the functions.
func (p *Prog) funcDocs() map[types.Object]string {
	r := map[types.Object]string{}
	for _, pk := range p.pkgs {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
					r[pk.TypesInfo.Defs[fd.Name]] = fd.Doc.Text()
				}
			}
		}
	}
	return r
}

// node is the node a constructor term builds: kind, name, delimiter and values.
type nodeTerm struct {
	ctor   string // NewElement ...
	kind   string // element, void, attribute, boolean, delimited
	name   *V
	delim  *V
	values *V
}

func decodeNode(t *V, depth int) (nodeTerm, bool) {
	var n nodeTerm
	if t == nil || t.k != KApp || !strings.HasPrefix(t.op, "call:") || t.fn == nil {
		return n, false
	}
	n.ctor = t.fn.Name()
	a := t.args
	switch n.ctor {
	case "NewElement", "Element":
		n.kind = "element"
	case "NewVoidElement", "VoidElement":
		n.kind = "void"
	case "NewAttribute", "Attribute":
		n.kind = "attribute"
	case "NewBooleanAttribute", "BooleanAttribute":
		n.kind = "boolean"
	case "NewDelimitedAttribute", "DelimitedAttribute":
		n.kind = "delimited"
		if len(a) > 1 {
			n.delim = a[1]
		}
	default:
		return n, false
	}
	if len(a) == 0 {
		return n, false
	}
	n.name = a[0]
	if n.kind != "boolean" {
		n.values = a[len(a)-1]
	}
	return n, true
}

var (
	docElem = regexp.MustCompile("<([A-Za-z][A-Za-z0-9-]*)>")
	docQuot = regexp.MustCompile("\"([^\"\\s]+)\"")
	docTick = regexp.MustCompile("`([a-z-]+)`")
	nameOK  = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9._:-]*$`)
)

// documented is the markup name a doc comment gives.
func documented(doc, kind string) (string, bool) {
	re := docQuot
	switch kind {
	case "element", "void":
		re = docElem
	case "css":
		re = docTick
	}
	m := re.FindStringSubmatch(doc)
	if m == nil {
		return "", false
	}
	return m[1], true
}

// flatten lists the leaves of a value term in order.
func flatten(v *V, f func(kind string, v *V)) {
	switch {
	case v.k == KTuple && v.op == "seq":
		for _, p := range v.args {
			flatten(p, f)
		}
	case v.k == KApp && v.op == "e":
		flatten(v.args[0], f)
	case v.k == KApp && v.op == "spread":
		f("spread", v.args[0])
	case v.k == KIface:
		flatten(v.args[0], f)
	case v.k == KApp && strings.HasPrefix(v.op, "call:") && v.fn != nil && (v.fn.Name() == "NewConcatValue" || v.fn.Name() == "NewValue"):
		for _, a := range v.args {
			flatten(a, f)
		}
	case v.k == KConst:
		f("const", v)
	case v.k == KApp && v.op == "cat":
		for _, p := range textParts(v) {
			flatten(p, f)
		}
	case v.k == KApp && (v.op == "bytes" || v.op == "string" || v.op == "gbytes"):
		flatten(v.args[0], f)
	default:
		f("value", v)
	}
}

// params of fn as they appear in terms.
func paramTerms(fn *ssa.Function) []*V {
	var r []*V
	for i, p := range fn.Params {
		r = append(r, mkSym(fmt.Sprintf("$p:%s#%d", fn, i), p.Type()))
	}
	return r
}

func (p *Prog) isNodeResult(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	return res.Len() == 1 && p.isNodeIface(res.At(0).Type())
}

func vocabChecks(p *Prog, rep *Report) error {
	voc, err := vocabulary(p, rep)
	if err != nil {
		return err
	}
	var fns []*vocabFn
	for _, v := range voc {
		fns = append(fns, v)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].fn.String() < fns[j].fn.String() })
	type decl struct {
		v *vocabFn
		n nodeTerm
	}
	byName := map[string][]decl{}
	for _, v := range fns {
		root := v.fn.String()
		if v.why != "" {
			rep.undecided(root, v.pos, v.why)
			continue
		}
		if !p.isNodeResult(v.fn) {
			valueFnChecks(p, rep, v)
			continue
		}
		for _, t := range v.terms {
			if t.isNilConst() {
				rep.check(false, "result of "+root, v.pos, root, "it can return nil")
				continue
			}
			n, ok := decodeNode(t, 0)
			if !ok {
				continue
			}
			prm := paramTerms(v.fn)
			name, rest := nameText(n.name)
			if rest != nil && !(len(prm) > 1 && rest == prm[0]) {
				rep.undecided(root, v.pos, "the name of the node is not a constant: "+n.name.String())
				continue
			}
			rep.check(true, "name of "+root, v.pos, root, "")
			if rest == nil {
				rep.check(nameOK.MatchString(name), "valid name of "+root, v.pos, root, fmt.Sprintf("%q is not a valid name", name))
				byName[n.kindName()+" "+name] = append(byName[n.kindName()+" "+name], decl{v, n})
			} else {
				rep.check(strings.HasSuffix(name, "-") || strings.HasSuffix(name, ":") && nameOK.MatchString(name[:max(0, len(name)-1)]), "valid name of "+root, v.pos, root, fmt.Sprintf("%q is not a valid start of a name", name))
			}
			// the name it documents
			vals := []string{}
			var lead string
			var order []*V
			opaque := false
			if n.values != nil {
				flatten(n.values, func(k string, x *V) {
					opaque = opaque || k != "const" && !isParam(x, prm)
					switch k {
					case "const":
						if s, ok := x.strConst(); ok && len(order) == 0 {
							lead += s
						}
					default:
						order = append(order, x)
					}
					vals = append(vals, x.String())
				})
			}
			if strings.HasSuffix(v.fn.Pkg.Pkg.Path(), "/css") && n.kind == "delimited" {
				want, ok := documented(v.doc, "css")
				if ok && !opaque {
					rep.check(name == "style" && strings.TrimSpace(lead) == want+":", "documented property of "+root, v.pos, root, fmt.Sprintf("it documents the property %q but declares %q in attribute %q (%v)", want, lead, name, n.values))
				}
			} else if want, ok := documented(v.doc, n.kind); ok {
				if rest != nil {
					rep.check(strings.TrimSuffix(want, "*") == name, "documented name of "+root, v.pos, root, fmt.Sprintf("it documents %q but builds names that start with %q", want, name))
				} else {
					rep.check(want == name, "documented name of "+root, v.pos, root, fmt.Sprintf("it documents %q but builds %q", want, name))
				}
			}
			if n.kind == "boolean" {
				rep.check(len(prm) == 0, "values of "+root, v.pos, root, "the values it is given are dropped: a boolean attribute has none")
				continue
			}
			want := prm
			if rest != nil {
				want = prm[1:]
			}
			valuesChecks(rep, v, order, want)
		}
	}
	// packages agree on merging
	var names []string
	for n := range byName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ds := byName[n]
		for _, d := range ds[1:] {
			f := ds[0]
			if f.v.fn.Pkg == d.v.fn.Pkg && f.n.kind == d.n.kind && f.n.delim == d.n.delim {
				continue
			}
			if f.n.kind == "boolean" || d.n.kind == "boolean" || strings.HasPrefix(n, "element") {
				continue
			}
			rep.check(f.n.kind == d.n.kind && f.n.delim == d.n.delim, "merging of "+n+" by "+d.v.fn.String(), d.v.pos, d.v.fn.String(),
				fmt.Sprintf("repeated values are treated differently by %s (%s %v) and %s (%s %v)", f.v.fn, f.n.kind, f.n.delim, d.v.fn, d.n.kind, d.n.delim))
		}
	}
	return nil
}

func (n nodeTerm) kindName() string {
	if n.kind == "element" || n.kind == "void" {
		return "element"
	}
	return "attribute"
}

// nameText splits a name into its constant start and what follows.
func nameText(v *V) (string, *V) {
	ps := textParts(v)
	s, ok := ps[0].strConst()
	if !ok {
		return "", v
	}
	if len(ps) == 1 {
		return s, nil
	}
	if len(ps) == 2 {
		return s, ps[1]
	}
	return s, v
}

// valuesChecks: the caller's values are passed on completely, once and in order.
func valuesChecks(rep *Report, v *vocabFn, order, want []*V) {
	root := v.fn.String()
	for _, o := range order {
		known := false
		for _, w := range want {
			if o == w {
				known = true
			}
		}
		if !known {
			// computed from the values: only completeness can be decided
			for _, w := range want {
				if o.hasLeaf(w) || !termKnown(o) {
					rep.check(true, "values of "+root, v.pos, root, "")
				}
			}
			if part := partOf(o); part != nil {
				n := 0
				for _, u := range order {
					if u.hasLeaf(part) {
						n++
					}
				}
				if n == 1 {
					rep.check(false, "values of "+root, v.pos, root, "it passes on only a part of what it is given: "+o.String())
					return
				}
			}
			for _, w := range want {
				if !o.hasLeaf(w) && termKnown(o) {
					rep.undecided(root, v.pos, "how the values are passed on is not known: "+o.String())
				}
			}
			return
		}
	}
	ok := len(order) == len(want)
	if ok {
		for i := range order {
			ok = ok && order[i] == want[i]
		}
	}
	var a, b []string
	for _, o := range order {
		a = append(a, shortP(o))
	}
	for _, o := range want {
		b = append(b, shortP(o))
	}
	rep.check(ok, "values of "+root, v.pos, root, fmt.Sprintf("it is given (%s) but passes on (%s)", strings.Join(b, ", "), strings.Join(a, ", ")))
}

// partOf: v is a part of a parameter.
func partOf(v *V) *V {
	for v.k == KApp && (v.op == "clip" || v.op == "data") {
		v = v.args[0]
	}
	if v.k != KApp || v.op != "slice" || len(v.args) < 3 || !strings.HasPrefix(v.args[0].op, "$p:") {
		return nil
	}
	lo, hi := v.args[1], v.args[2]
	if c, ok := lo.intConst(); ok && c > 0 {
		return v.args[0]
	}
	if _, ok := hi.intConst(); ok {
		return v.args[0]
	}
	// with five values
	if n, ok := evalInt(hi, v.args[0], 5); ok && n < 5 {
		return v.args[0]
	}
	return nil
}

// evalInt evaluates an integer term when sl has n elements.
func evalInt(v, sl *V, n int64) (int64, bool) {
	if c, ok := v.intConst(); ok {
		return c, true
	}
	if v.k != KApp {
		return 0, false
	}
	if v.op == "len" && v.args[0] == sl {
		return n, true
	}
	var as []int64
	for _, a := range v.args {
		c, ok := evalInt(a, sl, n)
		if !ok {
			return 0, false
		}
		as = append(as, c)
	}
	switch {
	case v.op == "min":
		return slices.Min(as), true
	case v.op == "max":
		return slices.Max(as), true
	case v.op == "+" && len(as) == 2:
		return as[0] + as[1], true
	case v.op == "-" && len(as) == 2:
		return as[0] - as[1], true
	case v.op == "/" && len(as) == 2 && as[1] != 0:
		return as[0] / as[1], true
	}
	return 0, false
}

func isParam(x *V, ps []*V) bool {
	for _, p := range ps {
		if x == p {
			return true
		}
	}
	return false
}

func shortP(v *V) string {
	s := v.String()
	if i := strings.LastIndex(s, "#"); i >= 0 {
		return "parameter " + s[i+1:]
	}
	return s
}

// termKnown reports whether the term is built from parameters only.
func termKnown(v *V) bool {
	for _, l := range v.leaves {
		if !strings.HasPrefix(l.op, "$p:") {
			return false
		}
	}
	return true
}

// valueFnChecks: functions that build a Value (css units and the like).
func valueFnChecks(p *Prog, rep *Report, v *vocabFn) {
	root := v.fn.String()
	for _, t := range v.terms {
		if t.k != KApp || !strings.HasPrefix(t.op, "call:") || t.fn == nil || (t.fn.Name() != "NewConcatValue" && t.fn.Name() != "NewValue") {
			continue
		}
		var order []*V
		tail, ok := "", true
		flatten(t, func(k string, x *V) {
			ok = ok && (k == "const" || isParam(x, paramTerms(v.fn)))
			if k == "const" {
				s, _ := x.strConst()
				tail += s
				return
			}
			tail = ""
			order = append(order, x)
		})
		if want, found := documented(v.doc, "value"); found && ok && strings.HasSuffix(v.fn.Pkg.Pkg.Path(), "/css") {
			rep.check(tail == want, "documented unit of "+root, v.pos, root, fmt.Sprintf("it documents %q but writes %q", want, tail))
		}
		valuesChecks(rep, v, order, paramTerms(v.fn))
	}
}

// ---------- C19 ----------

type tableEntry struct {
	key string
	fn  *ssa.Function
	pos string
}

// tables collects the name tables of a package: maps from constant names to functions, and sets of
// constant names.
func (p *Prog) tables(pk *ssa.Package) (fns map[ssa.Value][]tableEntry, sets map[ssa.Value]map[string]bool) {
	fns, sets = map[ssa.Value][]tableEntry{}, map[ssa.Value]map[string]bool{}
	scan := func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok := mu.Key.(*ssa.Const)
				mm := mu.Map
				if u, ok := mm.(*ssa.UnOp); ok {
					mm = u.X
				}
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				key := constant.StringVal(k.Value)
				val := mu.Value
				if mi, ok := val.(*ssa.MakeInterface); ok {
					val = mi.X
				}
				switch v := val.(type) {
				case *ssa.Function:
					fns[mm] = append(fns[mm], tableEntry{key, v, p.instrPos(in)})
				case *ssa.Const:
					if sets[mm] == nil {
						sets[mm] = map[string]bool{}
					}
					if v.Value == nil || v.Value.Kind() == constant.Bool && constant.BoolVal(v.Value) {
						sets[mm][key] = true
					}
				default:
					if _, ok := val.Type().Underlying().(*types.Struct); ok {
						if sets[mm] == nil {
							sets[mm] = map[string]bool{}
						}
						sets[mm][key] = true
					}
				}
			}
		}
	}
	for _, fn := range p.allFuncs {
		if fn.Package() == pk {
			scan(fn)
		}
	}
	if i := pk.Func("init"); i != nil {
		found := false
		for _, fn := range p.allFuncs {
			if fn == i {
				found = true
			}
		}
		if !found {
			scan(i)
		}
	}
	return
}

func (p *Prog) generatorPkgs() []*ssa.Package {
	var r []*ssa.Package
	for _, pk := range p.pkgs {
		sp := p.byPath[pk.PkgPath]
		if f := sp.Func("GenerateCode"); f != nil {
			r = append(r, sp)
		}
	}
	return r
}

func tableChecks(p *Prog, rep *Report) error {
	voc, err := vocabulary(p, rep)
	if err != nil {
		return err
	}
	for _, pk := range p.generatorPkgs() {
		fns, sets := p.tables(pk)
		attrKeys, attrParamless := map[string]bool{}, map[string]tableEntry{}
		attrEntries := []tableEntry{}
		elemKeys := map[string]bool{}
		for _, es := range fns {
			kinds := map[string]int{}
			for _, e := range es {
				v := voc[e.fn]
				key := pk.Pkg.Name() + " entry " + e.key
				if v == nil || v.why != "" || len(v.terms) == 0 {
					if e.fn.Pkg != nil && p.inRepo(e.fn) && e.fn.Object() != nil {
						rep.check(e.fn.Object().Exported() && e.fn.Parent() == nil, key, e.pos, e.fn.String(), "the table names a function that generated code cannot call")
					}
					rep.undecided(pk.Pkg.Name()+" entry "+e.key, e.pos, "what "+e.fn.String()+" builds is not known")
					continue
				}
				for _, t := range v.terms {
					n, ok := decodeNode(t, 0)
					if !ok {
						rep.undecided(key, e.pos, "what "+e.fn.String()+" builds is not known")
						continue
					}
					kinds[n.kindName()]++
					name, rest := nameText(n.name)
					rep.check(rest == nil && name == e.key, key, e.pos, e.fn.String(), fmt.Sprintf("the generator emits %s for %q, which builds %q", e.fn.Name(), e.key, name))
					if n.kindName() == "attribute" {
						attrKeys[e.key] = true
						attrEntries = append(attrEntries, e)
						if len(e.fn.Params) == 0 {
							attrParamless[e.key] = e
						}
					} else {
						elemKeys[e.key] = true
						rep.check(len(e.fn.Params) == 1 && e.fn.Signature.Variadic(), "signature for "+key, e.pos, e.fn.String(), "an element constructor is emitted with its contents as arguments, but this one does not take them")
					}
				}
			}
			if len(kinds) > 1 {
				for _, e := range es {
					if v := voc[e.fn]; v != nil && len(v.terms) == 1 {
						if n, ok := decodeNode(v.terms[0], 0); ok {
							maj := "element"
							if kinds["attribute"] > kinds["element"] {
								maj = "attribute"
							}
							rep.check(n.kindName() == maj, "kind of "+pk.Pkg.Name()+" entry "+e.key, e.pos, e.fn.String(), "the table of "+maj+"s names a constructor of another kind")
						}
					}
				}
			}
		}
		// which attributes are emitted without arguments
		var bools map[string]bool
		for _, s := range sets {
			in := 0
			for k := range s {
				if attrKeys[k] {
					in++
				}
			}
			el := 0
			for k := range s {
				if elemKeys[k] {
					el++
				}
			}
			if in > el && in*2 > len(s) {
				if bools == nil {
					bools = map[string]bool{}
				}
				for k := range s {
					bools[k] = true
				}
			}
		}
		if bools == nil && len(attrParamless) > 0 {
			rep.undecided(pk.Pkg.Name(), "", "how arguments of boolean attributes are decided is not known")
			continue
		}
		for _, e := range attrEntries {
			_, pl := attrParamless[e.key]
			what := "with a value although it takes none"
			if !pl {
				what = "without its value"
			}
			rep.check(pl == bools[e.key], "arguments for "+pk.Pkg.Name()+" entry "+e.key, e.pos, e.fn.String(), e.fn.Name()+" is emitted "+what)
			if !pl {
				sig := e.fn.Signature
				pt := sig.Params().At(sig.Params().Len() - 1).Type()
				if sl, ok := pt.(*types.Slice); ok && sig.Variadic() {
					pt = sl.Elem()
				}
				if strings.HasSuffix(e.key, "-") || strings.HasSuffix(e.key, ":") {
					// the start of a name: the rest is the first argument
					rep.check(sig.Params().Len() == 2 && types.AssignableTo(types.Typ[types.String], sig.Params().At(0).Type()) && types.AssignableTo(types.Typ[types.String], pt), "signature for "+pk.Pkg.Name()+" entry "+e.key, e.pos, e.fn.String(), "it cannot be called with the rest of the name and one string")
					continue
				}
				rep.check(sig.Params().Len() == 1 && types.AssignableTo(types.Typ[types.String], pt), "signature for "+pk.Pkg.Name()+" entry "+e.key, e.pos, e.fn.String(), "it cannot be called with one string")
			}
		}
	}
	return nil
}

// ---------- C16 ----------

var htmlVoid = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true, "input": true,
	"link": true, "meta": true, "param": true, "source": true, "track": true, "wbr": true}
