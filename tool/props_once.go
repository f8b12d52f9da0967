package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A start tag never repeats an attribute name (C09).
//
// A list of attributes that is kept next to an index from names to positions never holds two attributes of
// one name: every append is reached only where the index is known not to have the name, and the index
// gets the name with the position of the appended attribute.  A function that groups attributes by name
// notes each name once.  While rendering, each position of such a list, and each name of such groups, is
// rendered at most once, and names only where the index is known not to have them.  No other list of
// attributes is rendered into a start tag.  Every attribute writes the name it is known by, once.

type onceSpec struct {
	p       *Prog
	w       *wholeSpec
	rep     *Report
	delim   *types.Named
	kept    map[string]string // by type: the field with the attributes that are indexed
	index   map[string]string // and the one with the index
	names   map[string]string // by type of attribute: the field with its name
	appends map[ssa.Instruction]bool
	outside []ssa.Instruction // where lists come from that are not built here
	param   bool              // what failed depends on what the callers do
}

func isIndex(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k, ok := m.Key().Underlying().(*types.Basic)
	return ok && k.Kind() == types.String && isIntType(m.Elem())
}

func onceChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	o := &onceSpec{p: p, rep: rep, kept: map[string]string{}, index: map[string]string{}, names: map[string]string{}}
	o.w = newWhole(p, newReport(rep.prop))
	o.delim = o.w.delim
	if err := o.attributes(a); err != nil {
		return err
	}
	o.lists(a)
	for _, r := range a.allRoots() {
		if r.kind != "render" && r.kind != "impctx" || p.kindOf(recvType(r.fn)) == 1 {
			continue
		}
		if err := o.try(r.fn, o.renders(a, r)); err != nil {
			return err
		}
	}
	for _, fn := range p.allFuncs {
		if o.w.grouper(fn) {
			if err := o.try(fn, o.groups(a, fn)); err != nil {
				return err
			}
		}
	}
	if err := o.builders(a); err != nil {
		return err
	}
	return groupChecks(p, a, rep)
}

func (o *onceSpec) try(fn *ssa.Function, err error) error {
	if err != nil && !tooLate() {
		o.rep.undecided(fn.String(), o.p.pos(fn.Pos()), err.Error())
		return nil
	}
	return err
}

func recvType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

// attributes checks that every attribute writes, once, the name it is known by.
func (o *onceSpec) attributes(a *Analysis) error {
	for _, t := range o.p.namedTypes() {
		pt := types.NewPointer(t)
		if !types.Implements(pt, o.p.node) || o.p.kindOf(pt) != 1 && o.p.kindOf(t) != 1 {
			continue
		}
		rt := types.Type(pt)
		if types.Implements(t, o.p.node) {
			rt = t
		}
		name, render := o.p.methodOf(rt, "Name"), o.p.methodOf(rt, "Render")
		if name == nil || render == nil {
			continue
		}
		key := "name of " + typeName(t)
		c := &Check{h: &Hooks{Mode: ModeOK}}
		field := ""
		c.exit = func(x *Exec, r Root, e Exit) {
			if e.panic || len(e.ret) != 1 {
				return
			}
			v := e.ret[0]
			if v.k == KApp && v.op == "string" {
				v = v.args[0]
			}
			if tn, f, pl := part(bare(v)); pl != nil && tn == typeName(t) {
				field = f
			}
		}
		if err := o.try(name, a.runRoot(Root{name, "method"}, c, newReport(""))); err != nil {
			return err
		}
		if field == "" {
			o.rep.undecided(name.String(), o.p.pos(name.Pos()), "what the name is made from is not known")
			continue
		}
		o.names[typeName(t)] = field
		c = &Check{h: &Hooks{Mode: ModeOK}}
		c.h.OnRaw = func(x *Exec, st *State, w, data *V, in ssa.Instruction) {
			txt, ok := x.text(st, data)
			if !ok {
				txt = data
			}
			for _, v := range textParts(txt) {
				for v.k == KApp && (v.op == "string" || v.op == "bytes" || v.op == "clip") {
					v = v.args[0]
				}
				tn, f, pl := part(v)
				switch {
				case pl != nil && tn == typeName(t) && f == field:
					if st.mon["n:written"] != nil {
						st.mon["n:twice"] = mkStr(x.p.instrPos(in))
					}
					st.mon["n:written"] = mkBool(true)
				case pl == nil:
					if _, ok := v.strConst(); !ok && st.mon["n:written"] == nil {
						st.mon["n:other"] = mkBool(true)
					}
				}
			}
		}
		c.exit = func(x *Exec, r Root, e Exit) {
			if e.panic {
				return
			}
			pos := o.p.pos(r.fn.Pos())
			switch st := e.st; {
			case st.mon["n:twice"] != nil:
				pos, _ := st.mon["n:twice"].strConst()
				o.rep.check(false, key, pos, x.root, "the name of the attribute is written more than once")
			case st.mon["n:written"] == nil && st.mon["n:other"] != nil:
				o.rep.undecided(x.root, pos, "whether the name is written is not known")
			case st.mon["n:written"] == nil:
				o.rep.check(false, key, pos, x.root, "what is written is not the name that the attribute is known by ("+typeName(t)+"."+field+")")
			default:
				o.rep.check(true, key, pos, x.root, "")
			}
		}
		if err := o.try(render, a.runRoot(Root{render, "render"}, c, o.rep)); err != nil {
			return err
		}
	}
	return nil
}

// lists finds the lists of attributes that are kept next to an index.
func (o *onceSpec) lists(a *Analysis) {
	for _, t := range o.p.namedTypes() {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		idx, list := "", ""
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if isIndex(f.Type()) {
				idx = f.Name()
			}
			if o.w.cond.isNodes(f.Type()) {
				if sh := a.inv.field(typeName(t)+"."+f.Name(), f.Type(), true); sh.Elem != nil && sh.Elem.Kind == 1 {
					list = f.Name()
				}
			}
		}
		if idx != "" && list != "" {
			o.kept[typeName(t)], o.index[typeName(t)] = list, idx
		}
	}
}

// source is where an attribute comes from: the element of a list.
type source struct{ list, idx, elem *V }

// sources lists what an attribute, or its name, is taken from.
func (o *onceSpec) sources(x *Exec, st *State, v *V) []source {
	var out []source
	seen := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.k == KApp && v.op == "*" && len(v.args) == 1 && v.args[0].k == KApp && v.args[0].op == "[]" {
			l, idx := v.args[0].args[0], v.args[0].args[1]
			for l.k == KApp && l.op == "clip" {
				l = l.args[0]
			}
			if isGroup(l) {
				walk(l.args[1]) // the name of the group
				return
			}
			if l.k == KApp && l.op == "slice" && isInt(l.args[1], 0) {
				l = l.args[0]
			}
			out = append(out, source{l, idx, v})
			return
		}
		for _, a := range v.args {
			walk(a)
		}
	}
	if b := bare(v); b.k == KPtr {
		if ob := st.heap[b.args[0]]; ob != nil {
			if f := o.names[typeName(ob.typ)]; f != "" {
				walk(ob.cells["."+f])
			}
		}
		return out
	}
	walk(v)
	return out
}

func (o *onceSpec) isAttr(x *Exec, st *State, n *V) bool {
	if l, _ := element(n); l != nil && isGroup(l) {
		return true
	}
	if x.shape(st, n).Kind == 1 {
		return true
	}
	if b := bare(n); b.k == KPtr {
		if ob := st.heap[b.args[0]]; ob != nil {
			return o.p.kindOf(types.NewPointer(ob.typ)) == 1
		}
	}
	return false
}

const onceSlots = 4

func (o *onceSpec) slot(st *State, l *V, make bool) int {
	free := -1
	for i := 0; i < onceSlots; i++ {
		v := st.mon[slotKey("n:list", i)]
		if v == l {
			return i
		}
		if v == nil && free < 0 {
			free = i
		}
	}
	if make && free >= 0 {
		st.mon[slotKey("n:list", free)] = l
		st.mon[slotKey("i:once", free)] = mkInt(0)
	}
	return free
}

// renders checks what attributes one function renders.
func (o *onceSpec) renders(a *Analysis, r Root) error {
	h := &Hooks{Mode: ModeOK}
	kept := func(l *V) bool {
		t, f, pl := part(l)
		return pl != nil && o.kept[t] == f
	}
	h.Related = func(x *Exec, st *State, key string, ph *ssa.Phi) bool {
		l := st.mon["n:list"+key[len(key)-1:]]
		if l == nil || l.typ == nil {
			return true
		}
		return indexes(ph, func(lv ssa.Value) bool {
			if !types.Identical(lv.Type().Underlying(), l.typ.Underlying()) {
				return false
			}
			v := st.top().env[lv]
			return v == nil || v == l
		})
	}
	h.OnElem = func(x *Exec, st *State, list, idx, val *V, in ssa.Instruction) {
		if !kept(list) && !isNames(list) {
			return
		}
		i := o.slot(st, list, true)
		if i < 0 {
			return
		}
		next := st.mon[slotKey("i:once", i)]
		if b, ok := x.simplify(st, less(idx, next)).boolConst(); ok && !b {
			st.mon[slotKey("i:once", i)] = idx
		}
	}
	h.OnCall = func(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
		if o.w.grouper(fn) {
			return o.w.grouped(x, st, fn, in)
		}
		return false, nil
	}
	h.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) {
		if !o.isAttr(x, st, node) {
			return
		}
		pos := x.p.instrPos(in)
		if len(st.frames) > 1 && st.top().call != nil && len(st.top().fn.Blocks) < 6 {
			pos = x.p.instrPos(st.top().call)
		}
		key := "attribute rendered at " + pos + " in " + x.root
		for _, s := range o.sources(x, st, node) {
			switch {
			case isNames(s.list):
				o.named(x, st, s, key, pos)
			case kept(s.list):
			case s.list.k == KSym && strings.HasPrefix(s.list.op, "$p:") && o.w.cond.isNodes(s.list.typ):
				o.rep.check(false, key, pos, x.root, fmt.Sprintf("attributes of %s are rendered as they are given: two of them may have the same name", s.list))
				return
			default:
				if n, _ := o.w.cond.guarded(deref(listElem(s.list.typ))); n >= 0 {
					o.rep.check(false, key, pos, x.root, fmt.Sprintf("attributes of %s are rendered one by one: two of them, or those of the element, may have the same name", s.list))
					return
				}
				o.rep.undecided(x.root, pos, fmt.Sprintf("whether %s has attributes of different names is not known", s.list))
				return
			}
			i := o.slot(st, s.list, true)
			if i < 0 {
				o.rep.undecided(x.root, pos, "too many lists")
				return
			}
			next := st.mon[slotKey("i:once", i)]
			b, ok := x.simplify(st, less(s.idx, next)).boolConst()
			switch {
			case !ok:
				o.rep.undecided(x.root, pos, fmt.Sprintf("whether position %s of %s was rendered before is not known (next is %s)", s.idx, s.list, next))
			case b:
				o.rep.check(false, key, pos, x.root, fmt.Sprintf("an attribute with the name of position %s of %s was rendered before", s.idx, s.list))
			default:
				o.rep.check(true, key, pos, x.root, "")
				st.mon[slotKey("i:once", i)] = addc(s.idx, 1)
			}
		}
	}
	return a.runRoot(r, &Check{h: h}, o.rep)
}

func listElem(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Invalid]
}

// named: a group of attributes is rendered under a name of its own.
func (o *onceSpec) named(x *Exec, st *State, s source, key, pos string) {
	others := false
	for f, sh := range st.facts {
		if f.k != KApp || !mentions(f, s.elem) {
			continue
		}
		if f.op == "in" && f.args[1] == s.elem {
			if t, fld, pl := part(f.args[0]); pl != nil && o.index[t] == fld {
				switch sh.B {
				case 2:
					o.rep.check(true, key, pos, x.root, "")
					return
				case 1:
					o.rep.check(false, key, pos, x.root, "the element has an attribute of this name of its own")
					return
				}
				continue
			}
		}
		if len(f.args) > 0 && (f.op == "in" || f.op == "lookup") && symSuffix(f.args[0], "#groups") || f.op == "len" || f.op == "*" || f == s.elem {
			continue // what is in the group
		}
		others = true
	}
	if others || len(o.kept) == 0 {
		o.rep.undecided(x.root, pos, fmt.Sprintf("whether the element has an attribute named %s of its own is not known", s.elem))
		return
	}
	o.rep.check(false, key, pos, x.root, fmt.Sprintf("the element may have an attribute named %s of its own", s.elem))
}

func mentions(v, e *V) bool {
	if v == e {
		return true
	}
	for _, a := range v.args {
		if mentions(a, e) {
			return true
		}
	}
	return false
}

// nameOf tells what node a name is the name of, and whether it is exactly that.
func (o *onceSpec) nameOf(v *V) (node *V, exact bool) {
	exact = true
	for {
		switch {
		case v.k == KApp && v.op == "Name" && len(v.args) == 1:
			return v.args[0], exact
		case v.k == KApp && (v.op == "string" || v.op == "bytes" || v.op == "clip" || strings.HasPrefix(v.op, "ext:strings.Clone")) && len(v.args) > 0:
			v = v.args[0]
		case v.k == KApp && len(v.args) > 0 && (v.op == "substr" || strings.HasPrefix(v.op, "ext:")):
			exact = false
			v = v.args[0]
		default:
			if t, f, pl := part(v); pl != nil && o.names[t] == f {
				return bare(pl), exact
			}
			return nil, false
		}
	}
}

// same tells whether k is the name of node n.
func (o *onceSpec) same(x *Exec, st *State, k, n *V) (yes, known bool) {
	if k == x.nodeName(st, n) {
		return true, true
	}
	e, exact := o.nameOf(k)
	if e == nil {
		return false, false
	}
	if e, n = bare(e), bare(n); e != n {
		t1, f1, p1 := part(e)
		t2, f2, p2 := part(n)
		if p1 == nil || p1 != p2 || t1 != t2 || f1 != f2 {
			return false, true
		}
	}
	return exact, true
}

// groups checks a function that groups attributes: each name is noted once, and groups hold attributes of
// their name.
func (o *onceSpec) groups(a *Analysis, fn *ssa.Function) error {
	h := &Hooks{Mode: ModeOK, Seq: true, SeqType: o.w.cond.isNodes}
	key := "names noted in " + fn.String()
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		pos := x.p.instrPos(in)
		switch {
		case what == "append" && val != nil && target.typ != nil && isStrings(target.typ):
			el := x.elemsOf(st, val)
			if len(el) != 1 {
				o.rep.undecided(x.root, pos, "which name is noted is not known")
				return
			}
			k := el[0]
			absent, known, others := false, false, false
			for f, sh := range st.facts {
				if f.k == KApp && f.op == "in" && f.args[1] == k && sh.B != 0 {
					absent, known = sh.B == 2, true
				} else if f.k == KApp && mentions(f, k) && f != k && f.op != "len" && f.op != "*" {
					others = true
				}
			}
			if b := st.mon["n:new"]; b == k {
				absent, known = true, true
			}
			if !known {
				for _, fr := range st.frames {
					for v, m := range fr.env {
						if m.k == KMap && o.w.isGroups(v.Type()) {
							if ab, ok := o.w.absent(x, st, m, k); ok {
								absent, known = ab, true
							}
						}
						if l, ok := v.(*ssa.Lookup); ok && o.w.isGroups(l.X.Type()) {
							m := x.evalIn(st, fr, l.X)
							if m == nil || x.evalIn(st, fr, l.Index) != k {
								continue
							}
							if ab, ok := o.w.absent(x, st, m, k); ok {
								absent, known = ab, true
							}
							others = true
						}
					}
				}
			}
			switch {
			case known:
				o.rep.check(absent, key, pos, x.root, "a name that is noted already is noted again")
			case others:
				o.rep.undecided(x.root, pos, "whether the name was noted before is not known")
			default:
				o.rep.check(false, key, pos, x.root, "a name is noted that may be noted already")
			}
		case what == "map" && o.w.isGroups(target.typ):
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			k := x.eval(st, mu.Key)
			if b, ok := x.simplify(st, mkApp("in", types.Typ[types.Bool], target, k)).boolConst(); ok && !b {
				st.mon["n:new"] = k
			}
			s := x.seqOf(st, val)
			if s == nil {
				return
			}
			for _, q := range s.args {
				if q.op == "spread" {
					continue
				}
				gk := "groups of one name in " + fn.String()
				if q.op == "e" && len(q.args) == 1 {
					q = q.args[0]
				}
				yes, known := o.same(x, st, k, q)
				if !known {
					o.rep.undecided(x.root, pos, "whether the group is that of the attribute's name is not known")
					continue
				}
				o.rep.check(yes, gk, pos, x.root, fmt.Sprintf("an attribute is put into the group of %s, which is not its name", k))
			}
		}
	}
	h.OnHeader = func(x *Exec, st *State, b *ssa.BasicBlock, back bool) {
		if back {
			delete(st.mon, "n:new")
		}
	}
	return a.runRoot(Root{fn, "rec"}, &Check{h: h}, o.rep)
}

// builders checks every function that adds to a list that is kept next to an index.
func (o *onceSpec) builders(a *Analysis) error {
	if len(o.kept) == 0 {
		o.rep.undecided("attributes of elements", "", "no list of attributes is kept with an index of names")
		return nil
	}
	done := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, fn := range o.p.allFuncs {
		if o.p.inRepo(fn) && fn.Blocks != nil && fn.Synthetic == "" && o.adds(fn) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		if err := o.builder(a, fn, done, 0); err != nil {
			return err
		}
	}
	return nil
}

// field tells which kept list an address is that of.
func (o *onceSpec) field(v ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	t := deref(fa.X.Type())
	return o.kept[typeName(t)] == fieldName(t, fa.Field) && o.kept[typeName(t)] != ""
}

// adds: fn puts something into a kept list.
func (o *onceSpec) adds(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if o.field(s.Addr) {
				switch v := s.Val.(type) {
				case *ssa.Const, *ssa.MakeSlice:
					continue
				case *ssa.Slice:
					if al, ok := v.X.(*ssa.Alloc); ok && emptyArray(al) {
						continue
					}
				}
				return true
			}
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
				if l, ok := ia.X.(*ssa.UnOp); ok && o.field(l.X) {
					return true
				}
			}
		}
	}
	return false
}

func emptyArray(al *ssa.Alloc) bool {
	if al.Comment == "makeslice" {
		return true
	}
	a, ok := deref(al.Type()).Underlying().(*types.Array)
	return ok && a.Len() == 0
}

// flows finds the appends, and other sources, of what fn keeps.
func (o *onceSpec) flows(fn *ssa.Function) {
	o.appends, o.outside = map[ssa.Instruction]bool{}, nil
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, from ssa.Instruction)
	walk = func(v ssa.Value, from ssa.Instruction) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const, *ssa.MakeSlice:
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e, from)
			}
		case *ssa.ChangeType:
			walk(v.X, from)
		case *ssa.Slice:
			if al, ok := v.X.(*ssa.Alloc); ok && emptyArray(al) {
				return
			}
			walk(v.X, from)
		case *ssa.UnOp:
			if o.field(v.X) {
				return
			}
			if al, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						walk(s.Val, from)
					}
				}
				return
			}
			o.outside = append(o.outside, from)
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok {
				o.returned(c, v.Index, from, walk)
				return
			}
			o.outside = append(o.outside, from)
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				o.appends[v] = true
				walk(v.Call.Args[0], from)
				return
			}
			o.returned(v, 0, from, walk)
		case *ssa.Parameter:
			if v.Parent() != fn {
				// what the helper is given
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == v.Parent() {
							for i, p := range v.Parent().Params {
								if p == v && i < len(c.Call.Args) {
									walk(c.Call.Args[i], from)
								}
							}
						}
					}
				}
				return
			}
			o.outside = append(o.outside, from)
		default:
			o.outside = append(o.outside, from)
		}
	}
	// helpers of the same package may do the keeping
	var visit func(f *ssa.Function, depth int)
	visited := map[*ssa.Function]bool{}
	visit = func(f *ssa.Function, depth int) {
		if visited[f] || depth > 3 || !o.p.inRepo(f) {
			return
		}
		visited[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && o.field(s.Addr) {
					walk(s.Val, s)
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						visit(g, depth+1)
					}
				}
			}
		}
	}
	visit(fn, 0)
}

func (o *onceSpec) returned(c *ssa.Call, i int, from ssa.Instruction, walk func(v ssa.Value, from ssa.Instruction)) {
	g := c.Call.StaticCallee()
	if g == nil || g.Blocks == nil || !o.p.inRepo(g) {
		o.outside = append(o.outside, nil)
		return
	}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			walk(r.Results[i], from)
		}
	}
}

// builder checks one function that keeps attributes; what it does not settle itself, its callers have to.
func (o *onceSpec) builder(a *Analysis, fn *ssa.Function, done map[*ssa.Function]bool, depth int) error {
	if done[fn] {
		return nil
	}
	done[fn] = true
	rep := o.rep
	sub := newReport(rep.prop)
	o.rep, o.param = sub, false
	err := o.build(a, fn)
	o.rep = rep
	if o.param && depth < 3 {
		callers := map[*ssa.Function]bool{}
		for _, f := range o.p.allFuncs {
			if f == fn || !o.p.inRepo(f) || f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
						callers[f] = true
					}
				}
			}
		}
		if len(callers) > 0 {
			rep.states += sub.states
			var l []*ssa.Function
			for f := range callers {
				l = append(l, f)
			}
			sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
			for _, f := range l {
				if err := o.builder(a, f, done, depth+1); err != nil {
					return err
				}
			}
			return nil
		}
	}
	for k, ob := range sub.obl {
		rep.obl[k] = ob
	}
	for k, u := range sub.und {
		rep.und[k] = u
	}
	rep.states += sub.states
	return o.try(fn, err)
}

func (o *onceSpec) build(a *Analysis, fn *ssa.Function) error {
	o.flows(fn)
	pos := o.p.pos(fn.Pos())
	akey := "attributes added in " + fn.String()
	for _, from := range o.outside {
		at := pos
		if from != nil {
			at = o.p.instrPos(from)
		}
		s, ok := from.(*ssa.Store)
		if !ok {
			o.rep.undecided(fn.String(), at, "where the attributes that are kept come from is not known")
			continue
		}
		_ = s
		o.rep.check(false, akey, at, fn.String(), "a list is kept as it is, in which two attributes may have the same name")
	}
	ikey := "index of names in " + fn.String()
	rkey := "repeated attributes in " + fn.String()
	h := &Hooks{Mode: ModeOK}
	// absent: nothing has the name of x yet
	absent := func(x *Exec, st *State, n *V) (yes, known, others bool) {
		if b, ok := o.same(x, st, orNil(st.mon["n:new"]), n); st.mon["n:new"] != nil && ok && b {
			return true, true, false
		}
		for f, sh := range st.facts {
			if f.k != KApp || f.op == "len" {
				continue
			}
			if f.op == "in" && isIndex(f.args[0].typ) {
				if b, ok := o.same(x, st, f.args[1], n); ok && b && sh.B != 0 {
					return sh.B == 2, true, false
				} else if ok && !b && mentions(f.args[1], n) {
					continue // a name that is not quite that
				}
			}
			if f.op == "Name" || f.op == "Type" || f.op == "*" || f.op == "data" {
				continue
			}
			if mentions(f, n) && f != n {
				others = true
			}
		}
		return false, false, others
	}
	dependsOn := func(n *V) bool {
		b := bare(n)
		return b.k == KSym && strings.HasPrefix(b.op, "$p:"+fn.String()+"#")
	}
	pair := func(x *Exec, st *State, at string) {
		k, n := st.mon["n:key"], st.mon["n:att"]
		if k == nil || n == nil {
			return
		}
		p, l := st.mon["n:pos"], st.mon["n:at"]
		yes, known := o.same(x, st, k, n)
		if !known {
			o.rep.undecided(x.root, at, "whether the index gets the name of the attribute is not known")
		} else if o.rep.check(yes, ikey, at, x.root, fmt.Sprintf("the index does not get the name of the attribute that is added, but %s", k)) {
			pb, po := splitOff(x.simplify(st, p))
			lb, lo := splitOff(x.simplify(st, l))
			if pb == lb {
				o.rep.check(po == lo, ikey, at, x.root, "the index does not get the position of the attribute that is added")
			} else if pc, ok := x.simplify(st, p).intConst(); ok && lb != nil {
				o.rep.check(false, ikey, at, x.root, fmt.Sprintf("the index gets position %d, which is not that of the attribute that is added", pc))
			} else if off, ok := o.after(x, st, pb); ok {
				o.rep.check(po == off-1, ikey, at, x.root, "the index does not get the position of the attribute that is added")
			} else {
				o.rep.undecided(x.root, at, "whether the index gets the position of the attribute is not known")
			}
		}
		for _, m := range []string{"n:key", "n:pos", "n:att", "n:at"} {
			delete(st.mon, m)
		}
	}
	end := func(x *Exec, st *State, at string) {
		pair(x, st, at)
		if n := st.mon["n:att"]; n != nil {
			if dependsOn(n) {
				o.param = true
			}
			o.rep.check(false, ikey, at, x.root, "an attribute is added whose name the index does not get")
		}
		if e := st.mon["n:elem"]; e != nil && st.mon["n:did"] == nil && x.shape(st, e).Nil != 1 && x.shape(st, e).Kind != 2 {
			if yes, known, _ := absent(x, st, e); known && !yes {
				o.rep.check(false, rkey, at, x.root, "a repeated attribute neither replaces the one before nor is merged with it")
			}
		}
		for _, m := range []string{"n:key", "n:pos", "n:att", "n:at", "n:elem", "n:did", "n:new"} {
			delete(st.mon, m)
		}
	}
	h.OnElem = func(x *Exec, st *State, list, idx, val *V, in ssa.Instruction) {
		if !o.w.cond.isNodes(list.typ) || list.k != KSym || !strings.HasPrefix(list.op, "$p:"+fn.String()) {
			return
		}
		if st.mon["n:elem"] != val {
			end(x, st, x.p.instrPos(in))
			st.mon["n:elem"] = val
		}
	}
	h.OnHeader = func(x *Exec, st *State, b *ssa.BasicBlock, back bool) {
		if back && len(st.frames) == 1 {
			end(x, st, x.p.pos(fn.Pos()))
		}
	}
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		at := x.p.instrPos(in)
		switch what {
		case "append":
			if !o.appends[in] || val == nil {
				return
			}
			el := x.elemsOf(st, val)
			if len(el) == 0 {
				if n, ok := x.length(st, val).intConst(); ok && n == 0 {
					return
				}
				if val.k == KSym && strings.HasPrefix(val.op, "$p:") {
					o.rep.check(false, akey, at, x.root, "all of a list is added, in which two attributes may have the same name")
					return
				}
				o.rep.undecided(x.root, at, "which attributes are added is not known")
				return
			}
			for _, n := range el {
				st.mon["n:did"] = mkBool(true)
				if st.mon["n:att"] != nil {
					pair(x, st, at)
				}
				yes, known, others := absent(x, st, n)
				switch {
				case st.mon["n:att"] == n:
					o.rep.check(false, akey, at, x.root, "an attribute is added twice")
				case known:
					o.rep.check(yes, akey, at, x.root, "an attribute is added although there is one with its name")
				case dependsOn(n):
					o.param = true
					o.rep.undecided(x.root, at, "whether there is an attribute of that name depends on the caller")
				case others:
					o.rep.undecided(x.root, at, "whether there is an attribute of that name is not known")
				default:
					o.rep.check(false, akey, at, x.root, "an attribute is added without looking whether there is one with its name")
				}
				st.mon["n:att"], st.mon["n:at"] = n, x.length(st, target)
			}
			pair(x, st, at)
		case "map":
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || target.typ == nil || !isIndex(target.typ) {
				return
			}
			k := x.eval(st, mu.Key)
			b, known := x.simplify(st, mkApp("in", types.Typ[types.Bool], target, k)).boolConst()
			if known && b {
				return // known already
			}
			if known {
				st.mon["n:new"] = k
			}
			st.mon["n:key"], st.mon["n:pos"] = k, val
			pair(x, st, at)
		case "store":
			o.replaced(x, st, target, val, rkey, at)
		}
	}
	c := &Check{h: h}
	c.begin = func(x *Exec, r Root, st *State, args []*V) {
		for i, v := range args {
			if v.typ == nil || v.k != KSym {
				continue
			}
			if p, ok := v.typ.Underlying().(*types.Pointer); ok && o.kept[typeName(p.Elem())] != "" {
				args[i] = x.ownObject(st, p.Elem(), v.typ)
			}
		}
	}
	c.exit = func(x *Exec, r Root, e Exit) {
		if !e.panic {
			end(x, e.st, pos)
		}
	}
	kind := "rec"
	if isRoot(a, fn, "func") {
		kind = "func"
	}
	return a.runRoot(Root{fn, kind}, c, o.rep)
}

// after tells whether base is what the length of a kept list is counted from.
func (o *onceSpec) after(x *Exec, st *State, base *V) (int64, bool) {
	for _, ob := range st.heap {
		f := o.kept[typeName(ob.typ)]
		if f == "" || ob.cells["."+f] == nil || base == nil {
			continue
		}
		if b, off := splitOff(x.simplify(st, x.length(st, ob.cells["."+f]))); b == base {
			return off, true
		}
	}
	return 0, false
}

func isRoot(a *Analysis, fn *ssa.Function, kind string) bool {
	for _, r := range a.allRoots() {
		if r.fn == fn && r.kind == kind {
			return true
		}
	}
	return false
}

func orNil(v *V) *V {
	if v == nil {
		return mkStr("")
	}
	return v
}

// replaced: an attribute takes the place of another.
func (o *onceSpec) replaced(x *Exec, st *State, target, val *V, key, at string) {
	if target.k != KApp || target.op != "[]" || val == nil {
		return
	}
	list, idx := target.args[0], target.args[1]
	for list.k == KApp && (list.op == "clip" || list.op == "slice") {
		list = list.args[0]
	}
	kept := false
	for t, f := range o.kept {
		kept = kept || list.k == KSym && strings.HasPrefix(list.op, "$own."+t+"."+f)
		if tn, fl, pl := part(list); pl != nil && tn == t && fl == f {
			kept = true
		}
	}
	for _, ob := range st.heap {
		f := o.kept[typeName(ob.typ)]
		if f == "" {
			continue
		}
		c := ob.cells["."+f]
		for c != nil && c.k == KApp && (c.op == "clip" || c.op == "slice") {
			c = c.args[0]
		}
		if c != nil && (c == list || c.k == KSlice && list.k == KSlice && c.args[0] == list.args[0]) {
			kept = true
		}
	}
	if !kept {
		return
	}
	st.mon["n:did"] = mkBool(true)
	// the position is that of the name
	name := x.nodeName(st, val)
	if b := bare(val); b.k == KPtr {
		ob := st.heap[b.args[0]]
		name = nil
		if ob != nil {
			name = ob.cells["."+o.names[typeName(ob.typ)]]
		}
	}
	if idx.k == KApp && idx.op == "lookup" && name != nil {
		k := idx.args[1]
		e, exact := o.nameOf(name)
		f, exact2 := o.nameOf(k)
		_, ei := (*V)(nil), (*V)(nil)
		if e != nil {
			_, ei = element(e)
		}
		switch {
		case k == name || e != nil && f != nil && bare(e) == bare(f) && exact && exact2 || ei == idx:
			o.rep.check(true, key, at, x.root, "")
		case e == nil || f == nil:
			o.rep.undecided(x.root, at, "whether the attribute has the name of the one it replaces is not known")
		default:
			o.rep.check(false, key, at, x.root, "an attribute replaces one of another name")
		}
	}
	// two that are joined are merged
	if o.delim == nil || bare(val).k == KPtr {
		return
	}
	t := types.NewPointer(o.delim)
	kind := func(v *V) int { // 1: joined, 2: not, 0: not known
		sh := x.shape(st, v)
		switch {
		case sh.Dyn != nil && types.Identical(sh.Dyn, t):
			return 1
		case sh.Dyn != nil || hasType(sh.NotDyn, t):
			return 2
		}
		return 0
	}
	old, seen := 0, false
	for f := range st.facts {
		if l, i := element(f); l != nil && i == idx && o.w.cond.isNode(orInvalid(f.typ)) {
			for l.k == KApp && (l.op == "clip" || l.op == "slice") {
				l = l.args[0]
			}
			if l == list {
				seen = true
				if k := kind(f); k != 0 {
					old = k
				}
			}
		}
	}
	_ = seen
	switch nw := kind(val); {
	case old == 2 || nw == 2:
		o.rep.check(true, key, at, x.root, "")
	case old == 1 && nw == 1:
		o.rep.check(false, key, at, x.root, "an attribute replaces the one before although both are joined")
	default:
		o.rep.check(false, key, at, x.root, "an attribute replaces the one before although both may be joined")
	}
}

func orInvalid(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}
