package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Delimited values (C25).  A function that renders a value tells whether it wrote something; that report
// is checked against what it writes.  With the report as the meaning of each value, every rendering of a
// delimited attribute is followed: a delimiter is written between two values that may both be non-empty,
// and none before the first.  A delimited attribute made from another keeps the delimiter.

type delimSpec struct {
	p     *Prog
	value types.Type // the type of a value
	attr  *types.Named
	delim int // field of attr
	vals  int
	units map[*ssa.Function]bool
}

func isFuncOfBytes(p *Prog, t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 1 && p.isCtxPtr(s.Params().At(0).Type()) && s.Results().Len() == 1 && isByteSlice(s.Results().At(0).Type())
}

// delimSpecOf finds the types by what they are made for.
func delimSpecOf(p *Prog) (*delimSpec, string) {
	d := &delimSpec{p: p, units: map[*ssa.Function]bool{}, delim: -1, vals: -1}
	for _, t := range p.namedTypes() {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || p.isCtxNamed(t) || types.Implements(types.NewPointer(t), p.node) {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if isFuncOfBytes(p, s.Field(i).Type()) {
				d.value = t
			}
		}
	}
	if d.value == nil {
		return nil, "no type of values is found"
	}
	pk := p.byPath[p.mod]
	ctor := pk.Func("NewDelimitedAttribute")
	if ctor == nil {
		return nil, "no constructor of delimited attributes is found"
	}
	a := newAnalysis(p)
	h := &Hooks{Mode: ModeOK}
	c := &Check{h: h}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic || len(e.ret) != 1 {
			return
		}
		v := e.ret[0]
		if v.k == KIface {
			v = v.args[0]
		}
		if v.k != KPtr || e.st.heap[v.args[0]] == nil {
			return
		}
		o := e.st.heap[v.args[0]]
		n, _ := types.Unalias(o.typ).(*types.Named)
		if n == nil {
			return
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			c := o.cells["."+s.Field(i).Name()]
			if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), d.value) {
				d.vals = i
			}
			if c != nil && c.k == KSym && strings.HasSuffix(c.op, "NewDelimitedAttribute#1") {
				d.delim, d.attr = i, n
			}
		}
	}
	if err := a.runRoot(Root{ctor, "func"}, c, newReport("")); err != nil {
		return nil, err.Error()
	}
	if d.attr == nil || d.vals < 0 {
		return nil, "where delimited attributes keep their delimiter and values is not known"
	}
	for _, fn := range p.allFuncs {
		if d.isUnit(fn) {
			d.units[fn] = true
		}
	}
	if len(d.units) == 0 {
		return nil, "no function renders a value and tells whether it wrote something"
	}
	return d, ""
}

// isUnit: fn renders one value and reports whether something was written.
func (d *delimSpec) isUnit(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	if fn.Blocks == nil || !d.p.inRepo(fn) || fn.Synthetic != "" || r.Len() == 0 {
		return false
	}
	if b, ok := r.At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&(types.IsBoolean|types.IsInteger) == 0 {
		return false
	}
	val, ctx := false, false
	for _, prm := range fn.Params {
		t := prm.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		val = val || types.Identical(t, d.value)
		ctx = ctx || d.p.isCtxPtr(prm.Type())
	}
	return val && ctx
}

// inAttr: a method of the delimited attribute is being executed.
func (d *delimSpec) inAttr(st *State) bool {
	for _, f := range st.frames {
		if r := f.fn.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if types.Identical(t, d.attr) {
				return true
			}
		}
	}
	return false
}

// isDelim: v is the delimiter of a delimited attribute.
func (d *delimSpec) isDelim(v *V) bool {
	if v.k == KSym && (strings.HasSuffix(v.op, "NewDelimitedAttribute#1") || strings.HasPrefix(v.op, "$own."+typeName(d.attr)+"."+d.fieldName())) {
		return true
	}
	if v.k != KApp {
		return false
	}
	op := v.op
	if op == "*" && v.args[0].k == KApp {
		op = v.args[0].op
	}
	return strings.HasPrefix(op, "fa:") && strings.HasSuffix(op, typeName(d.attr)+"."+d.fieldName()) ||
		strings.HasPrefix(op, "field:") && strings.HasSuffix(op, typeName(d.attr)+"."+d.fieldName())
}

func (d *delimSpec) fieldName() string {
	return d.attr.Underlying().(*types.Struct).Field(d.delim).Name()
}

// wrote: the report says that something was written.
func wroteTerm(r *V) *V {
	if isIntType(r.typ) {
		return less(mkInt(0), r)
	}
	return r
}

// intercept makes the rendering of a value one step with an unknown report.
func (d *delimSpec) intercept(x *Exec, st *State, fn *ssa.Function, in ssa.Instruction) (*V, []Exit) {
	var ret []*V
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		if isErrType(t) {
			ret = append(ret, mkNil(errT))
			continue
		}
		sh := topShape(t, 0)
		if i == 0 && isIntType(t) {
			sh.Lo = 0
		}
		ret = append(ret, x.newSym(st, in, fmt.Sprintf("#wrote%d", i), t, sh))
	}
	return wroteTerm(ret[0]), []Exit{{st: st, ret: ret}}
}

func (d *delimSpec) isValueArg(fn *ssa.Function) bool { return d.units[fn] }

func delimChecks(p *Prog, rep *Report) error {
	d, msg := delimSpecOf(p)
	if d == nil {
		rep.undecided("delimited attributes", "", msg)
		return nil
	}
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	if err := d.reports(a, rep); err != nil {
		return err
	}
	if err := d.renders(a, rep); err != nil {
		return err
	}
	d.merges(rep)
	return nil
}

// reports checks what functions that render a value say about it.
func (d *delimSpec) reports(a *Analysis, rep *Report) error {
	h := &Hooks{Mode: ModeOK}
	// fold settles earlier writes by what is known about them by now
	fold := func(x *Exec, st *State) {
		for _, k := range []string{"u:a", "u:b"} {
			t := st.mon[k]
			if t == nil {
				continue
			}
			if b, ok := x.simplify(st, t).boolConst(); ok {
				delete(st.mon, k)
				if b {
					st.mon["u:some"] = mkBool(true)
				}
			}
		}
	}
	add := func(x *Exec, st *State, t *V) {
		fold(x, st)
		if b, ok := x.simplify(st, t).boolConst(); ok {
			if b {
				st.mon["u:some"] = mkBool(true)
			}
			return
		}
		for _, k := range []string{"u:a", "u:b"} {
			if o := st.mon[k]; o == nil || o == t {
				st.mon[k] = t
				return
			}
		}
		st.mon["u:many"] = mkBool(true)
	}
	h.OnCall = func(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
		if !d.units[fn] {
			return false, nil
		}
		// it wrote something, or it did not
		var out []Exit
		for _, b := range []bool{true, false} {
			ns := st.clone()
			t, ex := d.intercept(x, ns, fn, in)
			if b {
				ns.mon["u:some"] = mkBool(true)
			}
			if !isIntType(ex[0].ret[0].typ) {
				ex[0].ret[0] = mkBool(b)
			} else {
				x.assume(ns, t, b)
			}
			out = append(out, ex...)
		}
		return true, out
	}
	h.OnRaw = func(x *Exec, st *State, w, data *V, in ssa.Instruction) {
		add(x, st, less(mkInt(0), x.length(st, data)))
	}
	h.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) { st.mon["u:many"] = mkBool(true) }
	c := &Check{h: h}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic {
			return
		}
		st := e.st
		fold(x, st)
		pos := x.p.pos(r.fn.Pos())
		some := st.mon["u:some"] != nil
		var open []*V
		for _, k := range []string{"u:a", "u:b"} {
			if t := st.mon[k]; t != nil {
				open = append(open, t)
			}
		}
		r0 := x.simplify(st, wroteTerm(e.ret[0]))
		says, ok := r0.boolConst()
		key := "report of " + r.fn.String()
		if !some && st.mon["u:many"] != nil {
			rep.undecided(x.root, pos, "how much is written is not known")
			return
		}
		switch {
		case some:
			rep.check(ok && says, key, pos, x.root, fmt.Sprintf("something is written but the report is %s", r0))
		case len(open) == 0:
			rep.check(ok && !says, key, pos, x.root, fmt.Sprintf("nothing is written but the report is %s", r0))
		case ok && says && len(open) == 1:
			rep.check(false, key, pos, x.root, fmt.Sprintf("it reports that something is written although it may be empty (%s)", open[0]))
		case ok && !says:
			rep.check(false, key, pos, x.root, fmt.Sprintf("it reports that nothing is written although something may be (%s)", open[0]))
		case len(open) == 1:
			rep.check(r0 == x.simplify(st, open[0]), key, pos, x.root, fmt.Sprintf("it reports %s, but what is written depends on %s", r0, open[0]))
		default:
			rep.undecided(x.root, pos, "how much is written is not known")
		}
	}
	for fn := range d.units {
		if err := a.runRoot(Root{fn, "rec"}, c, rep); err != nil {
			if tooLate() {
				return err
			}
			rep.undecided(fn.String(), a.p.pos(fn.Pos()), err.Error())
		}
	}
	return nil
}

// renders follows the rendering of delimited attributes.
func (d *delimSpec) renders(a *Analysis, rep *Report) error {
	h := &Hooks{Mode: ModeOK}
	base := func(st *State) string {
		if v := st.mon["d:base"]; v != nil {
			s, _ := v.strConst()
			return s
		}
		return "start"
	}
	set := func(st *State, s string) {
		if s == "start" {
			delete(st.mon, "d:base")
			return
		}
		st.mon["d:base"] = mkStr(s)
	}
	fold := func(x *Exec, st *State) {
		r := st.mon["d:r"]
		if r == nil {
			return
		}
		delete(st.mon, "d:r")
		b, ok := x.simplify(st, r).boolConst()
		switch {
		case ok && b:
			set(st, "value")
		case ok:
		case base(st) == "start":
			set(st, "start or value")
		case base(st) == "delimiter":
			set(st, "delimiter or value")
		}
	}
	rendering := func(st *State) bool { return d.inAttr(st) || st.mon["d:on"] != nil }
	h.OnCall = func(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
		if !d.units[fn] {
			return false, nil
		}
		pos := x.p.instrPos(in)
		for _, arg := range args {
			if x.p.isCtxPtr(arg.typ) && (arg.k != KPtr || arg.args[0] != symCTX) && rendering(st) {
				rep.undecided(x.root, pos, "a value of a delimited attribute is rendered with another context")
			}
		}
		fold(x, st)
		if rendering(st) {
			b := base(st)
			rep.check(b == "start" || b == "delimiter", "value rendered at "+pos+" in "+x.root, pos, x.root, "a value is written right after another one, without a delimiter (so far: "+b+")")
		}
		t, ex := d.intercept(x, st, fn, in)
		st.mon["d:r"] = t
		return true, ex
	}
	h.OnRaw = func(x *Exec, st *State, w, data *V, in ssa.Instruction) {
		pos := x.p.instrPos(in)
		if len(st.frames) > 1 && st.top().call != nil {
			pos = x.p.instrPos(st.top().call)
		}
		t, ok := x.text(st, data)
		if !ok {
			t = data
		}
		if s, ok := t.strConst(); ok {
			if strings.Contains(s, `"`) {
				delete(st.mon, "d:base")
				delete(st.mon, "d:r")
				delete(st.mon, "d:on")
				if strings.Contains(s, `=`) {
					st.mon["d:q"] = mkBool(true)
				} else {
					delete(st.mon, "d:q")
				}
			}
			return
		}
		for t.k == KApp && (t.op == "string" || t.op == "bytes" || t.op == "gbytes") && len(t.args) == 1 {
			t = t.args[0]
		}
		if !d.isDelim(t) {
			return
		}
		st.mon["d:on"] = mkBool(true)
		fold(x, st)
		b := base(st)
		rep.check(b != "start" && b != "start or value", "delimiter written at "+pos+" in "+x.root, pos, x.root, "a delimiter can be written before the first value (so far: "+b+")")
		set(st, "delimiter")
	}
	h.OnHeader = func(x *Exec, st *State, b *ssa.BasicBlock, back bool) {
		if back { // what is known by now may be forgotten
			if r := st.mon["d:r"]; r != nil {
				if _, ok := x.simplify(st, r).boolConst(); ok {
					fold(x, st)
				}
			}
		}
	}
	h.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) {
		if node.k == KIface {
			node = node.args[0]
		}
		if node.k != KPtr || st.heap[node.args[0]] == nil || !types.Identical(st.heap[node.args[0]].typ, d.attr) {
			return
		}
		// an attribute made while rendering has the name and the delimiter of the same attribute
		pos := x.p.instrPos(in)
		o := st.heap[node.args[0]]
		from := func(f int) *V {
			v := o.cells["."+d.attr.Underlying().(*types.Struct).Field(f).Name()]
			if v != nil && v.k == KApp && v.op == "*" && v.args[0].k == KApp && strings.HasPrefix(v.args[0].op, "fa:") {
				return v.args[0].args[0]
			}
			return nil
		}
		var of, by *V
		s := d.attr.Underlying().(*types.Struct)
		for f := 0; f < s.NumFields(); f++ {
			if f == d.delim {
				by = from(f)
			} else if isByteSlice(s.Field(f).Type()) {
				of = from(f)
			}
		}
		if of == nil || by == nil {
			rep.undecided(x.root, pos, "what a merged attribute is made from is not known")
			return
		}
		rep.check(of == by, "merged attribute rendered at "+pos+" in "+x.root, pos, x.root, fmt.Sprintf("the attribute with the name of %s has the delimiter of %s", of, by))
	}
	c := &Check{h: h, filter: func(r Root) bool {
		return (r.kind == "render" || r.kind == "impctx" || r.kind == "closure" || r.kind == "rec") && !isGenerator(r.fn) && !d.units[r.fn]
	}}
	return a.run(c, rep)
}

// merges: a delimited attribute that is made with values has the delimiter of another one, or the one
// its maker is given.
func (d *delimSpec) merges(rep *Report) {
	for _, fn := range d.p.allFuncs {
		if !d.p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), d.value) {
						pos := d.p.instrPos(s)
						if d.fromDelim(s.Val, 0) {
							rep.check(false, "delimiter used as a value at "+pos, pos, fn.String(), "a delimiter becomes a value, so it is written whatever is written around it")
						}
						if d.fromValues(s.Val, 0) {
							rep.check(false, "values joined at "+pos, pos, fn.String(), "the values of an attribute become one value, so no delimiter is written between them")
						}
					}
				}
				al, ok := in.(*ssa.Alloc)
				if !ok || !types.Identical(al.Type().(*types.Pointer).Elem(), d.attr) {
					continue
				}
				vals, whole := false, false
				var delims []ssa.Value
				for _, r := range *al.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						whole = whole || r.Addr == al
					case *ssa.FieldAddr:
						for _, u := range *r.Referrers() {
							if s, ok := u.(*ssa.Store); ok && s.Addr == r {
								if r.Field == d.vals {
									vals = true
								}
								if r.Field == d.delim {
									delims = append(delims, s.Val)
								}
							}
						}
					}
				}
				if !vals || whole {
					continue
				}
				pos := d.p.instrPos(al)
				if pos == "" || pos == "-" {
					pos = d.p.pos(fn.Pos())
				}
				key := "delimited attribute made at " + pos
				rep.check(len(delims) > 0, key, pos, fn.String(), "a delimited attribute is made with values but no delimiter")
				for _, v := range delims {
					rep.check(d.delimSource(v, 0), key, pos, fn.String(), fmt.Sprintf("a delimited attribute is made with a delimiter (%s) that is not the one of what it is made from", v))
				}
			}
		}
	}
}

// fromDelim: v is the delimiter of a delimited attribute.
func (d *delimSpec) fromDelim(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return fa.Field == d.delim && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), d.attr)
		}
	case *ssa.Field:
		return v.Field == d.delim && types.Identical(v.X.Type(), d.attr)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if d.fromDelim(e, depth+1) {
				return true
			}
		}
	}
	return false
}

// fromValues: v is the list of values of an attribute.
func (d *delimSpec) fromValues(v ssa.Value, depth int) bool {
	if sl, ok := v.Type().Underlying().(*types.Slice); !ok || !types.Identical(sl.Elem(), d.value) || depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return fa.Field == d.vals && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), d.attr)
		}
	case *ssa.Field:
		return v.Field == d.vals && types.Identical(v.X.Type(), d.attr)
	case *ssa.Call:
		if v.Call.IsInvoke() {
			return len(v.Call.Args) == 0
		}
		f := v.Call.StaticCallee()
		return f != nil && f.Signature.Recv() != nil && len(v.Call.Args) == 1
	case *ssa.Phi:
		for _, e := range v.Edges {
			if d.fromValues(e, depth+1) {
				return true
			}
		}
	}
	return false
}

func (d *delimSpec) delimSource(v ssa.Value, depth int) bool {
	if depth > 6 {
		return true
	}
	switch v := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			t := fa.X.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if types.Identical(t, d.attr) {
				return fa.Field == d.delim
			}
		}
		return true
	case *ssa.Field:
		if types.Identical(v.X.Type(), d.attr) {
			return v.Field == d.delim
		}
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !d.delimSource(e, depth+1) {
				return false
			}
		}
	case *ssa.Convert:
		return d.delimSource(v.X, depth+1)
	case *ssa.ChangeType:
		return d.delimSource(v.X, depth+1)
	case *ssa.Slice:
		return d.delimSource(v.X, depth+1)
	}
	return true
}
