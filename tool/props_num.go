package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: values of every documented type are rendered, exactly.

// docTypes are the value types that are documented to be rendered.
func (p *Prog) docTypes() []types.Type {
	var l []types.Type
	for _, k := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64,
		types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String} {
		l = append(l, types.Typ[k])
	}
	l = append(l, types.NewSlice(types.Typ[types.Uint8]))
	if f := p.ssaProg.ImportedPackage("fmt"); f != nil {
		l = append(l, f.Type("Stringer").Type())
	}
	return l
}

// payloads are the values held by interfaces that occur in v.
func payloads(v *V, want func(*V) bool, seen map[*V]bool, out *[]*V) {
	if seen[v] {
		return
	}
	seen[v] = true
	if want(v) {
		*out = append(*out, v)
		return
	}
	for _, a := range v.args {
		payloads(a, want, seen, out)
	}
}

func peel(v *V) *V {
	for v.k == KApp && (v.op == "bytes" || v.op == "string" || v.op == "gbytes" || v.op == "clip") {
		v = v.args[0]
	}
	return v
}

// exactText says whether text part v is the exact rendering of payload d of type t.
// verdict: 1 exact, 0 not exact, -1 not known.
func exactText(v, d *V, t types.Type) (int, string) {
	v = peel(v)
	isT := func(a *V) bool { return a == d }
	switch {
	case isByteSlice(t):
		if v == d {
			return 1, ""
		}
	case isStringType(t):
		if v == d {
			return 1, ""
		}
		if v.k == KApp && (strings.HasPrefix(v.op, "pure:") || v.op == "htmlescape" || v.op == "replace" || v.op == "call:strings") {
			if peel(v.args[0]) == d {
				return 1, ""
			}
			if v.op == "replace" || v.op == "htmlescape" {
				return exactText(v.args[0], d, t)
			}
		}
	case basicKind(t) == types.Bool:
		if v.k == KApp && v.op == "ext:strconv.FormatBool" && isT(v.args[0]) {
			return 1, ""
		}
	case isIntType(t):
		if v.k != KApp {
			return -1, v.String()
		}
		switch v.op {
		case "decimal":
			if isT(v.args[0]) {
				return 1, ""
			}
			return exactInt(v.args[0], d, t, basicInfo(t)&types.IsUnsigned == 0)
		case "ext:strconv.Itoa":
			return exactInt(v.args[0], d, t, true)
		case "ext:strconv.FormatInt", "ext:strconv.FormatUint":
			if b, ok := v.args[1].intConst(); !ok || b != 10 {
				return 0, "it is not written in decimal"
			}
			return exactInt(v.args[0], d, t, v.op == "ext:strconv.FormatInt")
		case "ext:strconv.FormatFloat":
			if f, ok := v.args[1].intConst(); ok && hasPart(v.args[0], d) {
				small := kinds16[basicKind(t)]
				prec, _ := v.args[2].intConst()
				if small && prec == -1 || f == 'f' && (small || basicKind(t) == types.Int32 || basicKind(t) == types.Uint32) && prec <= 0 {
					return 1, ""
				}
				return 0, "an integer is written as a floating point number"
			}
		}
	case basicInfo(t)&types.IsFloat != 0:
		if v.k != KApp {
			return -1, v.String()
		}
		if v.op == "ext:strconv.FormatFloat" {
			bits := int64(64)
			if basicKind(t) == types.Float32 {
				bits = 32
			}
			a := v.args[0]
			if a.k == KApp && strings.HasPrefix(a.op, "conv:float64") {
				a = a.args[0]
			}
			if !isT(a) {
				return 0, "the number is changed before it is written: " + a.String()
			}
			f, ok1 := v.args[1].intConst()
			prec, ok2 := v.args[2].intConst()
			sz, ok3 := v.args[3].intConst()
			if !ok1 || !ok2 || !ok3 {
				return -1, v.String()
			}
			if strings.IndexByte("gGeEf", byte(f)) < 0 {
				return 0, "it is not written in decimal"
			}
			if prec != -1 {
				return 0, fmt.Sprintf("digits are lost (precision %d)", prec)
			}
			if sz != bits {
				return 0, fmt.Sprintf("a %d bit number is written as a %d bit one", bits, sz)
			}
			return 1, ""
		}
	}
	return -1, v.String()
}

var kinds16 = map[types.BasicKind]bool{types.Int8: true, types.Int16: true, types.Uint8: true, types.Uint16: true}

func basicInfo(t types.Type) types.BasicInfo {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

// exactInt: a is d in a type that holds every value of t.
func exactInt(a, d *V, t types.Type, signed bool) (int, string) {
	for a.k == KApp && a.op == "widen" {
		a = a.args[0]
	}
	if a == d {
		return 1, ""
	}
	if a.k == KApp && strings.HasPrefix(a.op, "conv:") {
		return 0, fmt.Sprintf("a %s does not always fit the %s it is converted to", t, strings.TrimPrefix(a.op, "conv:"))
	}
	if a.hasLeaf(d) || hasPart(a, d) {
		return 0, "the number is changed before it is written: " + a.String()
	}
	return -1, a.String()
}

// hasPart reports whether d occurs in v.
func hasPart(v, d *V) bool {
	var l []*V
	payloads(v, func(w *V) bool { return w == d }, map[*V]bool{}, &l)
	return len(l) > 0
}

// judgeText decides whether the text out, on one path, is the exact rendering of the payload d of type t.
func (x *Exec) judgeText(st *State, out, d *V, t types.Type) (int, string) {
	var parts []*V
	for _, p := range textParts(out) {
		if s, ok := p.strConst(); ok && s == "" {
			continue
		}
		parts = append(parts, p)
	}
	if len(parts) == 0 {
		if s, ok := x.simplify(st, mkLen(d)).intConst(); ok && s == 0 && (isStringType(t) || isByteSlice(t)) {
			return 1, ""
		}
		if isStringType(t) || isByteSlice(t) {
			if x.shape(st, mkLen(d)).Hi == 0 || x.shape(st, d).Nil == 1 {
				return 1, ""
			}
		}
		return 0, "nothing is written"
	}
	if types.IsInterface(t) {
		if st.mon["$strung"] == nil {
			return 0, "its String method is not called"
		}
		for _, p := range parts {
			if len(p.leaves) > 0 {
				return 1, ""
			}
		}
		return 0, out.String() + " is written whatever it is"
	}
	if len(parts) > 1 {
		for _, p := range parts {
			if p.isConst() {
				s, _ := p.strConst()
				return 0, fmt.Sprintf("%q is written with it", s)
			}
		}
		return -1, out.String()
	}
	if s, ok := parts[0].strConst(); ok {
		if basicKind(t) == types.Bool {
			if v, known := x.simplify(st, d).boolConst(); known {
				if s == fmt.Sprint(v) {
					return 1, ""
				}
				return 0, fmt.Sprintf("%v is written as %q", v, s)
			}
		}
		return 0, fmt.Sprintf("%q is written whatever it is", s)
	}
	return exactText(parts[0], d, t)
}

func outHook(h *Hooks) {
	h.OnRaw = func(x *Exec, st *State, w, data *V, in ssa.Instruction) {
		t, ok := x.text(st, data)
		if !ok {
			t = data
		}
		old := st.mon["$out"]
		if old == nil {
			old = mkStr("")
		}
		st.mon["$out"] = mkCat(old, t)
	}
}

// ctxMethods are the methods of t that render it.
func (p *Prog) ctxMethods(t types.Type) []*ssa.Function {
	var l []*ssa.Function
	ms := p.ssaProg.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := p.ssaProg.MethodValue(ms.At(i))
		if f != nil && f.Signature.Params().Len() == 1 && p.isCtxPtr(f.Signature.Params().At(0).Type()) {
			l = append(l, f)
		}
	}
	return l
}

func valueChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	a.inv.frozen = true
	// entry points: exported functions that turn one value of any type into a value to render
	var entries []*ssa.Function
	var keyT types.Type
	root := p.byPath[p.mod]
	for _, m := range root.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || len(f.Params) != 1 || f.Signature.Variadic() || f.Signature.Results().Len() != 1 {
			continue
		}
		if i, ok := f.Params[0].Type().Underlying().(*types.Interface); !ok || i.NumMethods() != 0 {
			continue
		}
		if len(p.ctxMethods(f.Signature.Results().At(0).Type())) == 1 {
			entries = append(entries, f)
		}
	}
	if o := root.Pkg.Scope().Lookup("DynamicValueKey"); o != nil {
		keyT = o.Type()
	}
	if len(entries) == 0 {
		rep.undecided("NewValue", "", "no function that makes a value to render was found")
	}
	ifaceT := types.NewInterfaceType(nil, nil)
	type route struct {
		name string
		arg  func(x *Exec, st *State, t types.Type) *V
		skip func(st *State) bool
	}
	paySym := func(t types.Type) *V { return mkSym("$value:"+t.String(), t) }
	setup := func(x *Exec, st *State, t types.Type) *V {
		d := paySym(t)
		sh := topShape(t, 3)
		if types.IsInterface(t) {
			sh.Nil = 2
			sh.Is = []types.Type{t}
			sh.NotDyn = append(sh.NotDyn, p.nodeT)
			for _, m := range root.Members {
				if mt, ok := m.(*ssa.Type); ok && types.IsInterface(mt.Type()) {
					sh.NotDyn = append(sh.NotDyn, mt.Type())
				}
			}
		}
		st.facts[d] = sh
		x.pins = append(x.pins, d)
		return d
	}
	held := func(t types.Type, d *V) *V {
		if types.IsInterface(t) {
			return d
		}
		return mk(V{k: KIface, typ: t, args: []*V{d}})
	}
	routes := []route{
		{"given directly", func(x *Exec, st *State, t types.Type) *V {
			d := setup(x, st, t)
			return held(t, d)
		}, nil},
	}
	if keyT != nil {
		routes = append(routes, route{"held under a key of the data", func(x *Exec, st *State, t types.Type) *V {
			x.ctxObject(st)
			d := setup(x, st, t)
			ov := mkObj("$data")
			st.heap[ov] = &Obj{typ: ifaceT, kind: "own", cells: map[string]*V{"[k]": held(t, d)}}
			x.pins = append(x.pins, ov)
			st.heap[symCTX].cells[".Data"] = mk(V{k: KMap, args: []*V{ov}, typ: p.ctxField("Data")})
			return mk(V{k: KIface, typ: keyT, args: []*V{mkConst(mkStr("k").c, keyT)}})
		}, func(st *State) bool {
			// the key is not there
			return st.mon["$miss"] != nil
		}}, route{"held as the cargo", func(x *Exec, st *State, t types.Type) *V {
			x.ctxObject(st)
			d := setup(x, st, t)
			st.heap[symCTX].cells[".Cargo"] = held(t, d)
			return mk(V{k: KIface, typ: keyT, args: []*V{mkConst(mkStr(".").c, keyT)}})
		}, nil})
	} else {
		rep.undecided("DynamicValueKey", "", "the type of dynamic keys was not found")
	}
	for _, f := range entries {
		for _, rt := range routes {
			for _, t := range p.docTypes() {
				key := fmt.Sprintf("%s of type %s %s", f.Name(), t, rt.name)
				pos := p.pos(f.Pos())
				h := &Hooks{Mode: ModeOK, Unfold: 2}
				outHook(h)
				h.OnBranch = func(x *Exec, st *State, c *V, taken bool, in ssa.Instruction) {
					if !taken && c.k == KApp && c.op == "in" {
						st.mon["$miss"] = mkBool(true)
					}
				}
				h.OnExt = func(x *Exec, st *State, name string, args []*V, in ssa.Instruction) {
					if strings.HasPrefix(name, "invoke:") && strings.HasSuffix(name, ".String") {
						st.mon["$strung"] = mkBool(true)
					}
				}
				c := &Check{h: h}
				c.begin = func(x *Exec, r Root, st *State, args []*V) {
					args[0] = rt.arg(x, st, t)
				}
				n := 0
				c.exit = func(x *Exec, r Root, e Exit) {
					if e.panic || len(e.ret) != 1 {
						return
					}
					m := p.ctxMethods(f.Signature.Results().At(0).Type())[0]
					st := e.st.clone()
					ctx := mkPtr(x.ctxObject(st), "", types.NewPointer(p.ctxT))
					delete(st.mon, "$out")
					delete(st.mon, "$miss")
					for _, e2 := range x.run(st, m, []*V{e.ret[0], ctx}, nil, nil, "render:"+m.String()) {
						if e2.panic || rt.skip != nil && rt.skip(e2.st) {
							continue
						}
						n++
						out := e2.st.mon["$out"]
						if out == nil {
							out = mkStr("")
						}
						d := paySym(t)
						verdict, why := x.judgeText(e2.st, out, d, t)
						if verdict < 0 {
							rep.undecided(f.String(), pos, fmt.Sprintf("%s: what is written is not understood: %s", key, why))
							continue
						}
						rep.check(verdict == 1, key, pos, f.String(), fmt.Sprintf("a value of type %s %s is not rendered exactly: %s", t, rt.name, why))
					}
				}
				if err := a.runRoot(Root{f, "func"}, c, rep); err != nil {
					rep.undecided(f.String(), pos, err.Error())
					continue
				}
				if n == 0 {
					rep.undecided(f.String(), pos, key+": no execution renders it")
				}
			}
		}
	}
	return nil
}

func (p *Prog) ctxField(name string) types.Type {
	s := p.ctxT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}
