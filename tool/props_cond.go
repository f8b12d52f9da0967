package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Conditions (C10).
//
// While rendering: a node kept next to a condition is rendered only where that condition returned true
// before, on this path; an attribute kept next to a list of conditions leaves its place only where every
// condition of the list returned true.
//
// While building: the list of conditions an attribute is kept with is the list of the conditions that
// enclose it: the one its surroundings have, extended by the condition of each conditional it is in.

type condSpec struct {
	p *Prog
}

// isCond: a function of the context that returns a bool.
func (d *condSpec) isCond(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Recv() == nil && s.Params().Len() == 1 && d.p.isCtxPtr(s.Params().At(0).Type()) && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type().Underlying(), types.Typ[types.Bool])
}

func (d *condSpec) isConds(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && d.isCond(s.Elem())
}

func (d *condSpec) isNodes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.IsInterface(s.Elem()) && types.Implements(s.Elem(), d.p.node)
}

func (d *condSpec) isNode(t types.Type) bool {
	return types.IsInterface(t) && types.Implements(t, d.p.node)
}

// condField is the field of t that holds a condition (or a list of them).
func (d *condSpec) condField(t types.Type, list bool) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if list && d.isConds(s.Field(i).Type()) || !list && d.isCond(s.Field(i).Type()) {
			return i
		}
	}
	return -1
}

// guarded: a node kept next to a list of conditions.
func (d *condSpec) guarded(t types.Type) (node, conds int) {
	node, conds = -1, d.condField(t, true)
	if conds < 0 {
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if d.isNode(s.Field(i).Type()) {
			node = i
		}
	}
	return
}

// part splits a field of something kept in memory: its type and place, and the name of the field.
func part(v *V) (typ, field string, place *V) {
	op := ""
	var a *V
	switch {
	case v.k == KApp && v.op == "*" && v.args[0].k == KApp && strings.HasPrefix(v.args[0].op, "fa:"):
		op, a = v.args[0].op[3:], v.args[0].args[0]
	case v.k == KApp && strings.HasPrefix(v.op, "field:"):
		op, a = v.op[6:], v.args[0]
		if a.k == KApp && a.op == "*" {
			a = a.args[0]
		}
	default:
		return "", "", nil
	}
	i := strings.LastIndex(op, ".")
	return op[:i], op[i+1:], a
}

// element splits an element of a list.
func element(v *V) (list, idx *V) {
	if v.k == KApp && v.op == "*" {
		v = v.args[0]
	}
	if v.k == KApp && v.op == "[]" && len(v.args) == 2 {
		return v.args[0], v.args[1]
	}
	return nil, nil
}

func bare(v *V) *V {
	for {
		switch {
		case v.k == KApp && (v.op == "data" || v.op == "clip"):
			v = v.args[0]
		case v.k == KIface && len(v.args) == 1:
			v = v.args[0]
		default:
			return v
		}
	}
}

func (d *condSpec) structNamed(name string) types.Type {
	for _, t := range d.p.namedTypes() {
		if typeName(t) == name {
			return t
		}
	}
	return nil
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func condChecks(p *Prog, rep *Report) error {
	d := &condSpec{p}
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	if err := d.renders(a, rep); err != nil {
		return err
	}
	if err := d.builds(a, rep); err != nil {
		return err
	}
	if err := d.when(a, rep); err != nil {
		return err
	}
	return groupChecks(p, a, rep)
}

// renders checks what is rendered under conditions.
func (d *condSpec) renders(a *Analysis, rep *Report) error {
	h := &Hooks{Mode: ModeOK}
	// settle takes in what is known about the last condition of a list by now
	settle := func(x *Exec, st *State) {
		r := st.mon["k:result"]
		if r == nil {
			return
		}
		b, ok := x.simplify(st, r).boolConst()
		if !ok {
			return
		}
		if b {
			if at := st.mon["i:at"]; at != nil && st.mon["i:next"] == at {
				st.mon["i:next"] = addc(at, 1)
			}
		}
		delete(st.mon, "k:result")
		delete(st.mon, "i:at")
	}
	h.OnDynRet = func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) {
		v, ok := in.(ssa.Value)
		if fn.typ == nil && sig == nil || !ok || !d.isCond(sig) {
			return
		}
		r := st.top().env[v]
		if r == nil {
			return
		}
		if list, idx := element(fn); list != nil {
			settle(x, st)
			if st.mon["k:list"] != list {
				st.mon["k:list"] = list
				st.mon["i:next"] = mkInt(0)
			}
			st.mon["k:result"] = r
			st.mon["i:at"] = idx
			return
		}
		st.mon["k:fn"] = fn
		st.mon["k:ret"] = r
	}
	h.OnHeader = func(x *Exec, st *State, b *ssa.BasicBlock, back bool) { settle(x, st) }
	// a list of conditions that is used in ways that are not followed
	used := func(x *Exec, st *State, args []*V) {
		for _, v := range args {
			if v.typ != nil && d.isConds(v.typ) {
				st.mon["k:lost"] = mkBool(true)
			}
		}
	}
	h.OnExt = func(x *Exec, st *State, name string, args []*V, in ssa.Instruction) { used(x, st, args) }
	// leaves judges an attribute that is taken from its place
	leaves := func(x *Exec, st *State, v *V, in ssa.Instruction) {
		v = bare(v)
		typ, f, place := part(v)
		if place == nil {
			return
		}
		t := d.structNamed(typ)
		if t == nil {
			return
		}
		n, c := d.guarded(t)
		if n < 0 || c < 0 || fieldName(t, n) != f {
			return
		}
		pos := x.p.instrPos(in)
		key := "attribute under conditions used at " + pos + " in " + x.root
		settle(x, st)
		list := st.mon["k:list"]
		ok := false
		if list != nil {
			lt, lf, lp := part(list)
			if lp == place && lt == typ && lf == fieldName(t, c) {
				b, known := x.simplify(st, less(st.mon["i:next"], mkLen(list))).boolConst()
				ok = known && !b
			}
		}
		if !ok {
			// a list without conditions
			for _, l := range []*V{mkApp("field:"+typ+"."+fieldName(t, c), nil, place), mkApp("*", nil, mkApp("fa:"+typ+"."+fieldName(t, c), nil, place))} {
				if k, known := x.simplify(st, less(mkInt(0), mkLen(l))).boolConst(); known && !k {
					ok = true
				}
			}
		}
		if !ok && st.mon["k:lost"] != nil {
			rep.undecided(x.root, pos, "the conditions are tested in a way that is not followed")
			return
		}
		if !ok {
			for _, l := range place.leaves {
				if l.k == KObj || strings.HasSuffix(l.op, "#any") {
					rep.undecided(x.root, pos, "what the conditions are is not known")
					return
				}
			}
		}
		rep.check(ok, key, pos, x.root, "an attribute is used although not all of its conditions are known to be true")
	}
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		if x.rootKind == "func" || val == nil {
			return
		}
		switch what {
		case "append", "map":
			if val.k == KSlice {
				if o := st.heap[val.args[0]]; o != nil {
					for _, c := range o.cells {
						leaves(x, st, c, in)
					}
				}
			}
			leaves(x, st, val, in)
		case "store":
			if target.k == KApp && target.op == "[]" {
				leaves(x, st, val, in)
			}
		}
	}
	h.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) {
		leaves(x, st, node, in)
		// content next to a condition
		v := bare(node)
		list, _ := element(v)
		if list == nil {
			list = v
		}
		typ, _, place := part(list)
		if place == nil {
			return
		}
		t := d.structNamed(typ)
		if t == nil {
			return
		}
		c := d.condField(t, false)
		if c < 0 {
			return
		}
		pos := x.p.instrPos(in)
		key := "content under a condition rendered at " + pos + " in " + x.root
		fn, ret := st.mon["k:fn"], st.mon["k:ret"]
		if fn != nil && ret != nil {
			if ft, ff, fp := part(fn); fp == place && ft == typ && ff == fieldName(t, c) {
				b, ok := x.simplify(st, ret).boolConst()
				rep.check(ok && b, key, pos, x.root, fmt.Sprintf("content is rendered where the condition returned %s", x.simplify(st, ret)))
				return
			}
		}
		rep.check(false, key, pos, x.root, "content is rendered although its condition was not tested")
	}
	c := &Check{h: h, filter: func(r Root) bool {
		return r.kind != "func" && !isGenerator(r.fn) && !d.walker(r.fn)
	}}
	return a.run(c, rep)
}

// walker: fn gets nodes and the conditions they are under.
func (d *condSpec) walker(fn *ssa.Function) bool {
	c, n := d.walkerParams(fn)
	return c >= 0 && n >= 0
}

func (d *condSpec) walkerParams(fn *ssa.Function) (conds, nodes int) {
	conds, nodes = -1, -1
	for i, prm := range fn.Params {
		if d.isConds(prm.Type()) {
			conds = i
		}
		if d.isNodes(prm.Type()) {
			nodes = i
		}
	}
	return
}

// builds checks which conditions attributes are kept with.
func (d *condSpec) builds(a *Analysis, rep *Report) error {
	var walkers []*ssa.Function
	for _, fn := range d.p.allFuncs {
		if d.walker(fn) && fn.Synthetic == "" {
			walkers = append(walkers, fn)
		}
	}
	if len(walkers) == 0 {
		rep.undecided("conditional attributes", "", "no function collects the attributes under conditions")
		return nil
	}
	for _, w := range walkers {
		if err := d.walk(a, rep, w); err != nil {
			if tooLate() {
				return err
			}
			rep.undecided(w.String(), d.p.pos(w.Pos()), err.Error())
		}
	}
	// the first call starts without conditions
	h := &Hooks{Mode: ModeOK}
	h.OnCall = func(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
		if d.walker(fn) {
			ci, _ := d.walkerParams(fn)
			inside := false
			for i := range st.frames {
				inside = inside || d.walker(st.frames[i].fn)
			}
			if !inside {
				pos := x.p.instrPos(in)
				n, ok := x.length(st, args[ci]).intConst()
				rep.check(ok && n == 0, "conditions of all content at "+pos, pos, x.root, "content starts with conditions that it is not under")
			}
		}
		return false, nil
	}
	c := &Check{h: h, filter: func(r Root) bool {
		return (r.kind == "func" || r.kind == "impctx") && r.fn.Pkg != nil && r.fn.Pkg.Pkg.Path() == d.p.mod
	}}
	return a.run(c, rep)
}

func (d *condSpec) walk(a *Analysis, rep *Report, w *ssa.Function) error {
	ci, ni := d.walkerParams(w)
	var conds, nodes *V
	h := &Hooks{Mode: ModeOK, Seq: true, SeqType: d.isConds}
	// surroundings is the list of conditions a node (or a list of nodes) is under.
	var surroundings func(v *V, depth int) ([]*V, bool)
	surroundings = func(v *V, depth int) ([]*V, bool) {
		v = bare(v)
		if v == nodes {
			return []*V{conds}, true
		}
		if depth > 8 {
			return nil, false
		}
		if list, _ := element(v); list != nil {
			return surroundings(list, depth+1)
		}
		typ, _, place := part(v)
		if place == nil {
			return nil, false
		}
		t := d.structNamed(typ)
		if t == nil {
			return nil, false
		}
		cs, ok := surroundings(place, depth+1)
		if !ok {
			return nil, false
		}
		if c := d.condField(t, false); c >= 0 {
			f := mkApp("cond", nil, mkStr(typ+"."+fieldName(t, c)), place)
			cs = append(append([]*V{}, cs...), f)
		}
		return cs, true
	}
	// are tells whether l holds exactly the conditions cs.
	are := func(x *Exec, st *State, l *V, cs []*V) (ok, known bool, got string) {
		if l.k == KApp && l.op == "clip" {
			l = l.args[0]
		}
		if l == conds && len(cs) == 1 {
			return true, true, ""
		}
		s := x.seqOf(st, l)
		if s == nil {
			return false, false, ""
		}
		var parts []*V
		for _, q := range s.args {
			e := q.args[0]
			if q.op == "spread" {
				if e.k == KApp && e.op == "clip" {
					e = e.args[0]
				}
				if n, ok := x.length(st, e).intConst(); ok && n == 0 {
					continue
				}
				parts = append(parts, e)
				continue
			}
			if t, f, pl := part(e); pl != nil {
				parts = append(parts, mkApp("cond", nil, mkStr(t+"."+f), pl))
				continue
			}
			parts = append(parts, e)
		}
		want := cs
		if n, ok := x.length(st, conds).intConst(); ok && n == 0 {
			want = cs[1:]
		}
		if len(parts) != len(want) {
			return false, true, fmt.Sprint(parts)
		}
		for i := range want {
			if parts[i] != want[i] {
				return false, true, fmt.Sprint(parts)
			}
		}
		return true, true, ""
	}
	verify := func(x *Exec, st *State, what string, l, of *V, pos string) {
		cs, ok := surroundings(of, 0)
		if !ok {
			rep.undecided(x.root, pos, fmt.Sprintf("where %s comes from is not known", of))
			return
		}
		ok, known, got := are(x, st, l, cs)
		if !known {
			rep.undecided(x.root, pos, "the list of conditions is not known")
			return
		}
		rep.check(ok, what+" at "+pos+" in "+x.root, pos, x.root, fmt.Sprintf("%s is kept with the conditions %s but is under %s", of, got, cs))
	}
	h.OnCall = func(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
		if d.walker(fn) && fn == w {
			verify(x, st, "conditions handed on", args[ci], args[ni], x.p.instrPos(in))
		}
		return false, nil
	}
	pair := func(x *Exec, st *State, o *Obj, prefix string, t types.Type, pos string) {
		n, c := d.guarded(t)
		if n < 0 || c < 0 {
			return
		}
		at, l := o.cells[prefix+"."+fieldName(t, n)], o.cells[prefix+"."+fieldName(t, c)]
		if s := o.cells[prefix]; s != nil && s.k == KStruct && at == nil {
			at, l = s.args[n], s.args[c]
		}
		if at == nil || l == nil {
			if at != nil && o.zero {
				l = mkNil(nil)
			} else {
				return
			}
		}
		verify(x, st, "attribute kept with its conditions", l, at, pos)
	}
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		if what != "append" || val == nil {
			return
		}
		pos := x.p.instrPos(in)
		if target.typ != nil && d.isConds(target.typ) {
			b := target
			rep.check(x.exactCap(st, b) || x.owner(st, b) == "fresh" && b.k == KSlice, "conditions extended at "+pos+" in "+x.root, pos, x.root, "a list of conditions is extended in place, so it may be shared by conditionals that are next to each other")
			return
		}
		if val.k != KSlice || st.heap[val.args[0]] == nil {
			return
		}
		o := st.heap[val.args[0]]
		et := elemType(val.typ)
		n, ok := o.lengthConst()
		if !ok || et == nil || n > 8 {
			return
		}
		for i := int64(0); i < n; i++ {
			k := fmt.Sprintf("[%d]", i)
			if isStructT(et) {
				pair(x, st, o, k, et, pos)
				continue
			}
			if !d.isNode(et) {
				continue
			}
			v := o.cells[k]
			if v == nil {
				continue
			}
			v = bare(v)
			if x.shape(st, v).Kind == 2 {
				continue // content is under its own conditions
			}
			// an attribute that is kept without conditions
			cs, ok := surroundings(v, 0)
			if !ok {
				rep.undecided(x.root, pos, fmt.Sprintf("where %s comes from is not known", v))
				continue
			}
			none := len(cs) == 1
			if none {
				b, known := x.simplify(st, less(mkInt(0), mkLen(conds))).boolConst()
				none = known && !b
			}
			rep.check(none, "attribute kept without conditions at "+pos+" in "+x.root, pos, x.root, fmt.Sprintf("%s is kept without conditions but is under %s", v, cs))
		}
	}
	c := &Check{h: h}
	c.begin = func(x *Exec, r Root, st *State, args []*V) { conds, nodes = args[ci], args[ni] }
	return a.runRoot(Root{w, "rec"}, c, rep)
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// when checks the truth table of When.
func (d *condSpec) when(a *Analysis, rep *Report) error {
	fn := d.p.byPath[d.p.mod].Func("When")
	if fn == nil || len(fn.Params) < 1 {
		rep.undecided("When", "", "there is no When")
		return nil
	}
	h := &Hooks{Mode: ModeOK, Unfold: 1}
	key := mkSym(fmt.Sprintf("$p:%s#0", fn), fn.Params[0].Type())
	cases := 0
	c := &Check{h: h}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic || len(e.ret) != 1 {
			return
		}
		pos := x.p.pos(fn.Pos())
		v := bare(e.ret[0])
		if v.k != KPtr || e.st.heap[v.args[0]] == nil {
			rep.undecided(x.root, pos, "what When builds is not known")
			return
		}
		o := e.st.heap[v.args[0]]
		ci := d.condField(o.typ, false)
		if ci < 0 {
			rep.check(false, "condition of When", pos, x.root, "When builds something without a condition")
			return
		}
		f := o.cells["."+fieldName(o.typ, ci)]
		if f == nil || f.k != KFunc {
			rep.undecided(x.root, pos, "the condition When builds is not known")
			return
		}
		st := e.st.clone()
		ctx := mkPtr(x.ctxObject(st), "", types.NewPointer(x.p.ctxT))
		for _, ex := range x.run(st, f.fn, []*V{ctx}, f.args, nil, "when:"+f.fn.String()) {
			if ex.panic || len(ex.ret) != 1 {
				continue
			}
			cases++
			d.judge(x, rep, ex, key, x.p.pos(f.fn.Pos()))
		}
	}
	if err := a.runRoot(Root{fn, "func"}, c, rep); err != nil {
		if tooLate() {
			return err
		}
		rep.undecided(fn.String(), d.p.pos(fn.Pos()), err.Error())
		return nil
	}
	if cases == 0 {
		rep.undecided(fn.String(), d.p.pos(fn.Pos()), "the condition of When was not found")
	}
	return nil
}

// judge compares one outcome of the condition with what it has to be.
func (d *condSpec) judge(x *Exec, rep *Report, e Exit, key *V, pos string) {
	st := e.st
	neg, negKnown := false, false
	in, inKnown := false, false
	var where, val *V
	for k, s := range st.facts {
		if k.k != KApp {
			continue
		}
		switch {
		case strings.HasSuffix(k.op, "strings.HasPrefix") && s.B != 0 && stripConv(k.args[0]) == key:
			if t, ok := k.args[1].strConst(); ok && t == "!" {
				neg, negKnown = s.B == 1, true
			}
		case k.op == "in" && s.B != 0 && strings.Contains(k.args[0].String(), "$ctx.Data"):
			in, inKnown, where = s.B == 1, true, k.args[1]
			val = mkApp("lookup", k.args[0].typ.Underlying().(*types.Map).Elem(), k.args[0], k.args[1])
		}
	}
	if !negKnown || !inKnown {
		rep.undecided(x.root, pos, "what the condition depends on is not known")
		return
	}
	w := stripConv(where)
	okKey := w == key
	if neg {
		okKey = w.k == KApp && w.op == "substr" && stripConv(w.args[0]) == key && isInt(w.args[1], 1) && (w.args[2].isNilConst() || w.args[2] == mkLen(key))
	}
	kind := map[bool]string{true: "negated", false: "plain"}[neg]
	rep.check(okKey, "key tested by the "+kind+" form of When", pos, x.root, fmt.Sprintf("the condition looks at %s", where))
	r := x.simplify(st, e.ret[0])
	got, known := r.boolConst()
	switch {
	case !in:
		rep.check(known && got == neg, kind+" form of When for a missing value", pos, x.root, fmt.Sprintf("it returns %s", r))
	default:
		sh := x.shape(st, val)
		if sh.Dyn != nil && types.Identical(sh.Dyn, types.Typ[types.Bool]) {
			b := mkApp("data", types.Typ[types.Bool], val)
			want := x.simplify(st, b)
			if neg {
				want = x.simplify(st, not(b))
			}
			rep.check(r == want, kind+" form of When for a boolean value", pos, x.root, fmt.Sprintf("it returns %s", r))
			return
		}
		if hasType(sh.NotDyn, types.Typ[types.Bool]) || sh.Nil == 1 {
			rep.check(known && got == !neg, kind+" form of When for another value", pos, x.root, fmt.Sprintf("it returns %s", r))
			return
		}
		rep.check(false, kind+" form of When for a boolean value", pos, x.root, fmt.Sprintf("it returns %s without looking whether the value is a boolean", r))
	}
}

func isInt(v *V, n int64) bool {
	c, ok := v.intConst()
	return ok && c == n
}

func stripConv(v *V) *V {
	for v.k == KApp && (v.op == "conv" || v.op == "string" || strings.HasPrefix(v.op, "conv:")) && len(v.args) == 1 {
		v = v.args[0]
	}
	return v
}
