package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: names are checked.

const nameSpec = `\A[a-zA-Z][a-zA-Z0-9._:-]*\z`

var badNames = []string{"", " ", "1", "1a", "-a", ":a", ".a", "_a", "a b", "a\n", "a\nb", " a", "a ", "a\"b", "a'b", "a<b", "<a", "a>b", "a&b", "a/b", "a=b", "é", "aé", "a\x00", "a,b", "a@b", "\na", "longer name that is invalid", "br ", "area\t"}
var goodNames = []string{"a", "Z", "z9", "a1", "br", "x-y", "x:y", "a.b", "a_b", "A-", "a:", "data-x", "longer-name-that-is.valid_and:accepted", "input", "aa", "Aa.b-c"}

// pathCond collects the conditions over the values in leaves.
func pathCond(h *Hooks, about func(x *Exec, v *V) bool) {
	h.OnBranch = func(x *Exec, st *State, c *V, taken bool, in ssa.Instruction) {
		if c.isConst() || !about(x, c) {
			return
		}
		old := st.mon["$pc"]
		var l []*V
		if old != nil {
			l = old.args
		}
		n := mkApp("is", nil, c, mkBool(taken))
		for _, o := range l {
			if o == n {
				return
			}
		}
		st.mon["$pc"] = mk(V{k: KTuple, op: "pc", args: append(append([]*V{}, l...), n)})
	}
}

func pathConds(st *State) []*V {
	if p := st.mon["$pc"]; p != nil {
		return p.args
	}
	return nil
}

// evalStr evaluates a text term when text sym is s.
func evalStr(v, sym *V, s string) (string, bool) {
	if v == sym {
		return s, true
	}
	if c, ok := v.strConst(); ok {
		return c, true
	}
	if v.k != KApp {
		return "", false
	}
	one := func() (string, bool) { return evalStr(v.args[0], sym, s) }
	switch v.op {
	case "bytes", "string", "gbytes", "clip":
		return one()
	case "cat":
		r := ""
		for _, p := range textParts(v) {
			t, ok := evalStr(p, sym, s)
			if !ok {
				return "", false
			}
			r += t
		}
		return r, true
	case "ext:strings.TrimSpace", "ext:bytes.TrimSpace":
		t, ok := one()
		return strings.TrimSpace(t), ok
	case "ext:strings.ToLower", "ext:bytes.ToLower":
		t, ok := one()
		return strings.ToLower(t), ok
	case "ext:strings.ToUpper", "ext:bytes.ToUpper":
		t, ok := one()
		return strings.ToUpper(t), ok
	case "ext:strings.Trim", "ext:strings.TrimLeft", "ext:strings.TrimRight", "ext:strings.TrimPrefix", "ext:strings.TrimSuffix":
		t, ok1 := one()
		u, ok2 := evalStr(v.args[1], sym, s)
		if !ok1 || !ok2 {
			return "", false
		}
		f := map[string]func(string, string) string{"Trim": strings.Trim, "TrimLeft": strings.TrimLeft, "TrimRight": strings.TrimRight, "TrimPrefix": strings.TrimPrefix, "TrimSuffix": strings.TrimSuffix}
		return f[strings.TrimPrefix(v.op, "ext:strings.")](t, u), true
	case "substr":
		t, ok := one()
		if !ok {
			return "", false
		}
		lo, hi := 0, len(t)
		if !v.args[1].isNilConst() {
			n, ok := evalNum(v.args[1], sym, s)
			if !ok {
				return "", false
			}
			lo = int(n)
		}
		if !v.args[2].isNilConst() {
			n, ok := evalNum(v.args[2], sym, s)
			if !ok {
				return "", false
			}
			hi = int(n)
		}
		if lo < 0 || hi > len(t) || lo > hi {
			return "", false
		}
		return t[lo:hi], true
	}
	return "", false
}

func evalNum(v, sym *V, s string) (int64, bool) {
	if c, ok := v.intConst(); ok {
		return c, true
	}
	if v.k != KApp {
		return 0, false
	}
	two := func(f func(a, b int64) int64) (int64, bool) {
		a, ok1 := evalNum(v.args[0], sym, s)
		b, ok2 := evalNum(v.args[1], sym, s)
		if !ok1 || !ok2 {
			return 0, false
		}
		return f(a, b), true
	}
	switch v.op {
	case "len":
		t, ok := evalStr(v.args[0], sym, s)
		return int64(len(t)), ok
	case "+":
		return two(func(a, b int64) int64 { return a + b })
	case "-":
		return two(func(a, b int64) int64 { return a - b })
	case "idx":
		t, ok1 := evalStr(v.args[0], sym, s)
		i, ok2 := evalNum(v.args[1], sym, s)
		if !ok1 || !ok2 || i < 0 || int(i) >= len(t) {
			return 0, false
		}
		return int64(t[i]), true
	case "ext:strings.Index", "ext:strings.IndexByte", "ext:strings.IndexAny", "ext:strings.LastIndex":
		t, ok1 := evalStr(v.args[0], sym, s)
		u, ok2 := evalStr(v.args[1], sym, s)
		if !ok1 || !ok2 {
			return 0, false
		}
		f := map[string]func(string, string) int{"Index": strings.Index, "IndexAny": strings.IndexAny, "LastIndex": strings.LastIndex}[strings.TrimPrefix(v.op, "ext:strings.")]
		if f == nil {
			return 0, false
		}
		return int64(f(t, u)), true
	}
	return 0, false
}

// evalBool evaluates a condition when text sym is s.
func (x *Exec) evalBool(v, sym *V, s string) (val, ok bool) {
	if b, ok := v.boolConst(); ok {
		return b, true
	}
	if v.k != KApp {
		return false, false
	}
	switch v.op {
	case "!":
		b, ok := x.evalBool(v.args[0], sym, s)
		return !b, ok
	case "match":
		pat, ok1 := v.args[0].strConst()
		t, ok2 := evalStr(v.args[1], sym, s)
		if !ok1 || !ok2 {
			return false, false
		}
		l, err := compileLang(pat, false)
		if err != nil {
			return false, false
		}
		st, prev := reState{}, rune(-1)
		for _, r := range t {
			st = l.step(st, prev, r)
			prev = r
		}
		return l.accepts(st, prev), true
	case "==", "!=", "<", "<=", ">", ">=":
		var c int
		if a, ok := evalStr(v.args[0], sym, s); ok {
			b, ok := evalStr(v.args[1], sym, s)
			if !ok {
				return false, false
			}
			c = strings.Compare(a, b)
		} else {
			a, ok1 := evalNum(v.args[0], sym, s)
			b, ok2 := evalNum(v.args[1], sym, s)
			if !ok1 || !ok2 {
				return false, false
			}
			switch {
			case a < b:
				c = -1
			case a > b:
				c = 1
			}
		}
		switch v.op {
		case "==":
			return c == 0, true
		case "!=":
			return c != 0, true
		case "<":
			return c < 0, true
		case "<=":
			return c <= 0, true
		case ">":
			return c > 0, true
		}
		return c >= 0, true
	case "in":
		g := x.gmapOf(v.args[0])
		k, ok := evalStr(v.args[1], sym, s)
		if g == nil || !g.known || !ok {
			return false, false
		}
		_, found := g.vals[k]
		return found, true
	case "containsany":
		t, ok1 := evalStr(v.args[0], sym, s)
		u, ok2 := evalStr(v.args[1], sym, s)
		return strings.ContainsAny(t, u), ok1 && ok2
	case "ext:strings.HasPrefix", "ext:strings.HasSuffix", "ext:strings.Contains", "ext:strings.EqualFold":
		t, ok1 := evalStr(v.args[0], sym, s)
		u, ok2 := evalStr(v.args[1], sym, s)
		if !ok1 || !ok2 {
			return false, false
		}
		f := map[string]func(string, string) bool{"HasPrefix": strings.HasPrefix, "HasSuffix": strings.HasSuffix, "Contains": strings.Contains, "EqualFold": strings.EqualFold}
		return f[strings.TrimPrefix(v.op, "ext:strings.")](t, u), true
	}
	return false, false
}

// feasible looks for a text s outside (or inside) the specification for which the path is taken.
// verdict: 1 there is one, 0 there is none, -1 unknown.
func (x *Exec) feasible(st *State, sym *V, inside bool) (int, string) {
	spec, err := compileLang(nameSpec, !inside)
	if err != nil {
		return -1, ""
	}
	langs := []*reLang{spec}
	var rest []*V
	for _, c := range pathConds(st) {
		cond, taken := c.args[0], false
		taken, _ = c.args[1].boolConst()
		for cond.k == KApp && cond.op == "!" {
			cond, taken = cond.args[0], !taken
		}
		if cond.k == KApp && cond.op == "match" && stripText(cond.args[1]) == sym {
			if pat, ok := cond.args[0].strConst(); ok {
				if l, err := compileLang(pat, !taken); err == nil {
					langs = append(langs, l)
					continue
				}
			}
		}
		rest = append(rest, c)
	}
	cands := witnesses(langs, 200000, 12)
	if len(cands) == 0 {
		return 0, ""
	}
	samples := goodNames
	if !inside {
		samples = badNames
	}
	unknown := false
	for i, s := range append(cands, samples...) {
		all, known := true, true
		cs := rest
		if i >= len(cands) {
			cs = pathConds(st)
		}
		for _, c := range cs {
			want, _ := c.args[1].boolConst()
			b, ok := x.evalBool(c.args[0], sym, s)
			if !ok {
				known = false
			} else if b != want {
				all = false
			}
		}
		if all && known {
			return 1, s
		}
		if all {
			unknown = true
		}
	}
	if unknown {
		return -1, ""
	}
	return -1, ""
}

func stripText(v *V) *V {
	for v.k == KApp && (v.op == "bytes" || v.op == "string") {
		v = v.args[0]
	}
	return v
}

func nameChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	a.inv.frozen = true
	n := 0
	for _, name := range []string{"Element", "VoidElement", "Attribute", "BooleanAttribute", "DelimitedAttribute"} {
		fn := p.byPath[p.mod].Func(name)
		if fn == nil || len(fn.Params) == 0 || !isStringType(fn.Params[0].Type()) {
			rep.undecided(name, "", "there is no such function")
			continue
		}
		n++
		sym := paramTerms(fn)[0]
		h := &Hooks{Mode: ModeOK}
		pathCond(h, func(x *Exec, v *V) bool { return v.hasLeaf(sym) })
		h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			if _, ok := in.(*ssa.Panic); ok && in.Pos().IsValid() {
				pos := p.instrPos(in)
				if f, s := x.feasible(st, sym, true); f == 1 {
					rep.check(false, "panic of "+name, pos, name, fmt.Sprintf("the valid name %q is rejected with a panic", s))
				} else if f == 0 {
					rep.check(true, "panic of "+name, pos, name, "")
				}
			}
		}
		h.OnCall = func(x *Exec, st *State, f *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
			// constructors from bytes never return nil (checked as roots of their own)
			if f == fn || !strings.HasPrefix(f.Name(), "New") || !p.rootCtor(f) {
				return false, nil
			}
			return true, []Exit{{st: st, ret: []*V{x.ctorTerm(st, f, args)}}}
		}
		c := &Check{h: h}
		c.exit = func(x *Exec, r Root, e Exit) {
			pos := p.pos(fn.Pos())
			var v *V
			isNil := e.panic
			if !e.panic {
				v = x.simplify(e.st, e.ret[0])
				sh := x.shape(e.st, v)
				switch {
				case v.isNilConst() || sh.Nil == 1:
					isNil = true
				case v.k != KIface && v.k != KPtr && sh.Nil != 2:
					rep.undecided(name, pos, "whether the result is nil is not known")
					return
				}
			}
			what := "result of " + name
			if isNil {
				switch f, s := x.feasible(e.st, sym, true); f {
				case 1:
					rep.check(false, "rejection by "+name, pos, name, fmt.Sprintf("the valid name %q is rejected", s))
				case 0:
					rep.check(true, "rejection by "+name, pos, name, "")
				default:
					rep.undecided(name, pos, "whether valid names are rejected is not known")
				}
				return
			}
			switch f, s := x.feasible(e.st, sym, false); f {
			case 1:
				rep.check(false, what, pos, name, fmt.Sprintf("a node is built for the invalid name %q", s))
			case 0:
				rep.check(true, what, pos, name, "")
			default:
				rep.undecided(name, pos, "whether a node is built for invalid names is not known")
			}
			// the name of the node is the name that was checked
			if v.k == KApp && strings.HasPrefix(v.op, "call:") && len(v.args) > 0 {
				rep.check(stripText(v.args[0]) == sym || stripText(v.args[0]).k != KApp || !strings.HasPrefix(stripText(v.args[0]).op, "ext:"), "name built by "+name, pos, name, fmt.Sprintf("the node is built with another name than the one that was checked (%s)", v.args[0]))
			}
		}
		if err := a.runRoot(Root{fn, "func"}, c, rep); err != nil {
			rep.undecided(name, p.pos(fn.Pos()), err.Error())
		}
	}
	// what they delegate to
	for _, name := range []string{"NewElement", "NewVoidElement", "NewAttribute", "NewBooleanAttribute", "NewDelimitedAttribute"} {
		fn := p.byPath[p.mod].Func(name)
		if fn == nil {
			continue
		}
		c := &Check{h: &Hooks{Mode: ModeOK}}
		c.exit = func(x *Exec, r Root, e Exit) {
			if e.panic {
				return
			}
			v := x.simplify(e.st, e.ret[0])
			rep.check(v.k == KIface || x.shape(e.st, v).Nil == 2, "result of "+name, p.pos(fn.Pos()), name, "it can return nil")
		}
		if err := a.runRoot(Root{fn, "func"}, c, rep); err != nil {
			rep.undecided(name, p.pos(fn.Pos()), err.Error())
		}
	}
	return nil
}

func (p *Prog) rootCtor(fn *ssa.Function) bool {
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == p.mod && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Object() != nil && fn.Object().Exported() && p.isNodeResult(fn)
}
