package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: which names make void elements.

// closing counts whether an end tag is written: the text "</" reaches the writer.
func closingHook(h *Hooks) {
	h.OnRaw = func(x *Exec, st *State, w, data *V, in ssa.Instruction) {
		t, ok := x.text(st, data)
		if !ok {
			t = data
		}
		tail := "?"
		if m := st.mon["$tail"]; m != nil {
			tail, _ = m.strConst()
		}
		for _, p := range textParts(t) {
			for p.k == KApp && (p.op == "gbytes" || p.op == "bytes" || p.op == "string") {
				p = p.args[0]
			}
			s, ok := p.strConst()
			if !ok {
				tail = "?"
				continue
			}
			if strings.Contains(tail+s, "</") {
				st.mon["closed"] = mkBool(true)
			}
			if s != "" {
				tail = s[len(s)-1:]
			}
		}
		st.mon["$tail"] = mkStr(tail)
	}
}

// rendered runs Render on node v and reports whether end tags are written: some paths do, some do not.
func (x *Exec) rendered(st *State, v *V) (c voidClass) {
	v = x.simplify(st, v)
	if v.k != KIface {
		return voidClass{why: "the node it builds is not known: " + v.String()}
	}
	t := v.args[0].typ
	fn := x.p.methodOf(t, "Render")
	if fn == nil {
		return voidClass{why: "its node has no Render method"}
	}
	st = st.clone()
	delete(st.mon, "closed")
	st.mon["$tail"] = mkStr("?")
	ctx := mkPtr(x.ctxObject(st), "", types.NewPointer(x.p.ctxT))
	for _, e := range x.run(st, fn, []*V{v.args[0], ctx}, nil, nil, "render:"+fn.String()) {
		if e.panic {
			continue
		}
		if e.st.mon["closed"] != nil {
			c.some = true
			c.sureSome = c.sureSome || e.st.mon["doubt"] == nil
		} else {
			c.none = true
			c.sureNone = c.sureNone || e.st.mon["doubt"] == nil
		}
	}
	return c
}

// doubtHook marks paths that depend on something about the name that the analysis does not know.
func doubtHook(h *Hooks, name string) {
	if name == "" {
		return
	}
	h.OnBranch = func(x *Exec, st *State, c *V, taken bool, in ssa.Instruction) {
		var walk func(v *V) bool
		walk = func(v *V) bool {
			switch v.k {
			case KConst:
				s, ok := v.strConst()
				return ok && s == name
			case KGlobal:
				return true
			case KSym:
				b, ok := v.typ.(*types.Basic)
				return ok && (b.Kind() == types.Bool || strings.Contains(v.op, "#"))
			}
			for _, a := range v.args {
				if walk(a) {
					return true
				}
			}
			return false
		}
		if walk(c) {
			st.mon["doubt"] = mkBool(true)
		}
	}
}

// elementCtor: exported functions of the root package that build an element from a name.
func (p *Prog) elementCtor(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != p.mod || fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Object() == nil {
		return false
	}
	if !fn.Object().Exported() || !p.isNodeResult(fn) || len(fn.Params) != 2 || !fn.Signature.Variadic() {
		return false
	}
	t := fn.Params[0].Type()
	return (isStringType(t) || isByteSlice(t)) && strings.Contains(fn.Name(), "Element")
}

type voidClass struct {
	some, none         bool // an end tag is written: on some paths it is, on some it is not
	sureSome, sureNone bool // on paths that depend on nothing that is not known
	why                string
	via                *ssa.Function
}

func (c voidClass) String() string {
	switch {
	case c.some && c.none:
		return "sometimes with and sometimes without an end tag"
	case c.some:
		return "with an end tag"
	case c.none:
		return "without an end tag"
	}
	return "in an unknown way"
}

func voidChecks(p *Prog, rep *Report) error {
	voc, err := vocabulary(p, rep)
	if err != nil {
		return err
	}
	names := map[string]bool{}
	for n := range htmlVoid {
		names[n] = true
	}
	for _, n := range []string{"x-custom", "keygen", "command", "menuitem", "basefont", "bgsound", "frame", "isindex", "brx", "b"} {
		if !htmlVoid[n] {
			names[n] = true
		}
	}
	type use struct {
		v    *vocabFn
		fn   *ssa.Function
		name string
	}
	var uses []use
	for _, v := range voc {
		for _, t := range v.terms {
			n, ok := decodeNode(t, 0)
			if !ok || n.kindName() != "element" {
				continue
			}
			s, rest := nameText(n.name)
			if rest != nil {
				rep.undecided(v.fn.String(), v.pos, "the name of the element is not known")
				continue
			}
			names[s] = true
			uses = append(uses, use{v, t.fn, s})
		}
	}
	sort.Slice(uses, func(i, j int) bool { return uses[i].v.fn.String() < uses[j].v.fn.String() })
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	a.inv.frozen = true
	// classify says how fn builds an element; name may be empty (any name).
	memo := map[string][]voidClass{}
	var classify func(fn *ssa.Function, name string, top bool) []voidClass
	classify = func(fn *ssa.Function, name string, top bool) []voidClass {
		key := fn.String() + " " + name
		if r, ok := memo[key]; ok {
			return r
		}
		memo[key] = nil
		var out []voidClass
		h := &Hooks{Mode: ModeOK}
		closingHook(h)
		doubtHook(h, name)
		h.OnCall = func(x *Exec, st *State, f *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
			if f == fn || !p.elementCtor(f) {
				return false, nil
			}
			return true, []Exit{{st: st, ret: []*V{x.ctorTerm(st, f, args)}}}
		}
		c := &Check{h: h}
		c.begin = func(x *Exec, r Root, st *State, args []*V) {
			if name == "" || len(args) == 0 {
				return
			}
			if isStringType(args[0].typ) {
				args[0] = mkStr(name)
			} else {
				args[0] = mkApp("gbytes", args[0].typ, mkStr(name))
			}
		}
		c.exit = func(x *Exec, r Root, e Exit) {
			if e.panic || len(e.ret) != 1 {
				return
			}
			v := x.simplify(e.st, e.ret[0])
			if v.isNilConst() {
				return
			}
			if v.k == KApp && strings.HasPrefix(v.op, "call:") && v.fn != nil {
				n := ""
				if len(v.args) > 0 {
					n, _ = nameText(v.args[0])
				}
				if n == "" {
					n = name
				}
				cs := classify(v.fn, "", false)
				if len(cs) != 1 || cs[0].some && cs[0].none {
					cs = classify(v.fn, n, false)
				}
				for _, k := range cs {
					if e.st.mon["doubt"] != nil {
						k.sureSome, k.sureNone = false, false
					}
					out = append(out, k)
				}
				return
			}
			cl := x.rendered(e.st, v)
			cl.via = fn
			out = append(out, cl)
		}
		r := Root{fn, "func"}
		if err := a.runRoot(r, c, rep); err != nil {
			out = append(out, voidClass{why: err.Error(), via: fn})
		}
		memo[key] = uniqueClasses(out)
		return memo[key]
	}
	verdict := func(key, pos, root, name string, cs []voidClass) {
		if len(cs) == 0 {
			rep.undecided(root, pos, "no way to build the element was found")
			return
		}
		for _, c := range cs {
			if c.why != "" || !c.some && !c.none {
				rep.undecided(root, pos, "what is rendered is not known: "+c.why)
				return
			}
			void := htmlVoid[name]
			is := "is"
			if !void {
				is = "is not"
			}
			ok := void && !c.some || !void && !c.none
			if sure := void && c.sureSome || !void && c.sureNone; !ok && !sure {
				rep.undecided(root, pos, fmt.Sprintf("whether %q is a void element depends on something that is not known", name))
				continue
			}
			rep.check(ok, key, pos, root,
				fmt.Sprintf("%q %s a void element, but %s renders it %s", name, is, root, c))
		}
	}
	// by name
	var sorted []string
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	byName := []*ssa.Function{}
	if f := p.byPath[p.mod].Func("Element"); f != nil {
		byName = append(byName, f)
	} else {
		rep.undecided("Element", "", "there is no constructor from a name")
	}
	for _, f := range byName {
		for _, n := range sorted {
			verdict("element named "+n+" from "+f.Name(), p.pos(f.Pos()), f.String(), n, classify(f, n, true))
		}
	}
	for _, u := range uses {
		verdict("element built by "+u.v.fn.String(), u.v.pos, u.v.fn.String(), u.name, classify(u.fn, "", false))
	}
	// the constructors that say so
	for _, n := range []string{"NewElement", "NewVoidElement", "VoidElement"} {
		f := p.byPath[p.mod].Func(n)
		if f == nil {
			continue
		}
		for _, c := range classify(f, "", false) {
			if c.why != "" {
				rep.undecided(f.String(), p.pos(f.Pos()), c.why)
				continue
			}
			void := strings.Contains(n, "Void")
			rep.check(void && c.none && !c.some || !void && c.some && !c.none, "form of "+n, p.pos(f.Pos()), f.String(), "it renders elements "+c.String())
		}
	}
	// the set of the code generators
	for _, pk := range p.generatorPkgs() {
		_, sets := p.tables(pk)
		found := false
		for _, s := range sets {
			in := 0
			for k := range s {
				if htmlVoid[k] {
					in++
				}
			}
			if in*2 <= len(s) || in < 3 {
				continue
			}
			found = true
			for n := range htmlVoid {
				rep.check(s[n], "void set of the "+pk.Pkg.Name()+" generator: "+n, p.pos(pk.Func("GenerateCode").Pos()), pk.Pkg.Name()+".GenerateCode", fmt.Sprintf("%q is not in the set of void elements", n))
			}
			for n := range s {
				rep.check(htmlVoid[n], "void set of the "+pk.Pkg.Name()+" generator: "+n, p.pos(pk.Func("GenerateCode").Pos()), pk.Pkg.Name()+".GenerateCode", fmt.Sprintf("%q is in the set of void elements", n))
			}
		}
		if !found && pk.Pkg.Name() == "html" {
			rep.undecided(pk.Pkg.Name()+".GenerateCode", "", "its set of void elements was not found")
		}
	}
	return nil
}

func uniqueClasses(cs []voidClass) []voidClass {
	var r []voidClass
	for _, c := range cs {
		dup := false
		for _, d := range r {
			if d.some == c.some && d.none == c.none && d.sureSome == c.sureSome && d.sureNone == c.sureNone && d.why == c.why {
				dup = true
			}
		}
		if !dup {
			r = append(r, c)
		}
	}
	return r
}
