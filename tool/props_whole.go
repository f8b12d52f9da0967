package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Nothing is lost (C26).  The lists of nodes, values and items that a function is given, or that its
// receiver keeps, are followed: position by position, every element is used (rendered, kept, handed on) in
// order, or is known to be of a kind that is left out there.  A list is finished before the function
// succeeds.  Where attributes are collected, lists nested in an item are followed in the same way.

type wholeSpec struct {
	p     *Prog
	cond  *condSpec
	rep   *Report
	value types.Type
	// what the roots are about
	kind     string
	recv     *V
	params   []*V
	nested   bool // lists inside elements are followed, too
	walker   *ssa.Function
	conds    *V
	contents map[*ssa.Function]map[int]bool // results of walkers that hold content
	without  map[int]bool                   // results of walkers that are empty where there are conditions
	self     map[string]bool                // lists of attributes that are rendered by what they are kept in
	from     map[string]bool                // results of user functions
	started  map[string]bool                // lists that are used on some path
	late     []lateCheck                    // lists that are not used at all on a path
	// the function builds something that has a place for attributes
	keepsAttrs bool
	// attributes whose repetitions are joined
	delim *types.Named
}

type lateCheck struct {
	list, key, pos, root, msg string
	attrs                     bool
}

const slots = 6

func wholeChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	w := newWhole(p, rep)
	roots := a.allRoots()
	for _, fn := range p.allFuncs {
		if w.grouper(fn) {
			roots = append(roots, Root{fn, "rec"})
		}
	}
	sort.SliceStable(roots, func(i, j int) bool { return roots[i].kind == "render" && roots[j].kind != "render" })
	walked := false
	for _, r := range roots {
		if r.kind != "render" && !walked {
			walked = true
			if err := w.walkers(a); err != nil {
				return err
			}
		}
		if isGenerator(r.fn) || w.cond.walker(r.fn) {
			continue
		}
		switch r.kind {
		case "render", "impctx", "rec", "closure", "func", "method":
		default:
			continue
		}
		if o := os.Getenv("AITCH_ROOT"); o != "" && !strings.Contains(r.fn.String(), o) {
			continue
		}
		if err := w.follow(a, r); err != nil {
			if tooLate() {
				return err
			}
			rep.undecided(r.fn.String(), p.pos(r.fn.Pos()), err.Error())
		}
	}
	return nil
}

// newWhole finds out what the library keeps nodes and values in.
func newWhole(p *Prog, rep *Report) *wholeSpec {
	w := &wholeSpec{p: p, cond: &condSpec{p}, rep: rep}
	for _, t := range p.namedTypes() {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || p.isCtxNamed(t) || types.Implements(types.NewPointer(t), p.node) {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if isFuncOfBytes(p, s.Field(i).Type()) {
				w.value = t
			}
		}
	}
	if d, _ := delimSpecOf(p); d != nil {
		w.delim = d.attr
	}
	w.contents, w.self = map[*ssa.Function]map[int]bool{}, map[string]bool{}
	return w
}

// isList: lists whose elements count.
func (w *wholeSpec) isList(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if w.cond.isNodes(t) || w.value != nil && types.Identical(s.Elem(), w.value) {
		return true
	}
	if n, c := w.cond.guarded(s.Elem()); n >= 0 && c >= 0 {
		return true
	}
	if _, ok := s.Elem().(*types.TypeParam); ok {
		return false
	}
	i, ok := s.Elem().Underlying().(*types.Interface)
	return ok && i.Empty()
}

// tracked: a list that comes from outside of the function.
func (w *wholeSpec) tracked(l *V) bool {
	if l.k == KApp && l.op == "clip" {
		return w.tracked(l.args[0])
	}
	if isGroup(l) || isNames(l) {
		return true
	}
	if !w.isList(l.typ) {
		return false
	}
	if l.k == KSym {
		return strings.HasPrefix(l.op, "$") || w.from[strings.TrimRight(l.op, "~")] || strings.Contains(l.op, "#collected")
	}
	_, _, place := part(l)
	if place == nil {
		return false
	}
	for place.k == KApp && place.op == "data" {
		place = place.args[0]
	}
	return place.k == KSym || w.nested
}

// elems lists the elements of lists that v is made from.
func (w *wholeSpec) elems(x *Exec, st *State, v *V, f func(list, idx *V)) {
	seen := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.k == KApp && v.op == "[]" && len(v.args) == 2 && w.tracked(v.args[0]) {
			f(v.args[0], v.args[1])
		}
		if isGroup(v) && v.args[1].k == KApp && v.args[1].op == "Name" && !w.single(x, st, v) {
			return // the attribute the group is joined with is used on its own
		}
		if v.k == KApp && v.op == "slice" && w.isList(v.args[0].typ) && !w.tracked(v.args[0]) && !w.allOf(x, st, v) {
			return // not all of what is in an element
		}
		for _, a := range v.args {
			if a.k == KObj {
				if o := st.heap[a]; o != nil && o.kind != "ctx" {
					for _, c := range o.cells {
						walk(c)
					}
				}
				continue
			}
			walk(a)
		}
		if v.k == KTuple && v.op == "seq" {
			return
		}
	}
	walk(v)
}

// allOf: a slice from the first to the last element.
func (w *wholeSpec) allOf(x *Exec, st *State, v *V) bool {
	l, lo, hi := v.args[0], v.args[1], v.args[2]
	return (lo.isNilConst() || isInt(lo, 0)) && (hi.isNilConst() || x.simplify(st, hi) == x.length(st, l))
}

// wholes lists the lists that v is all of.
func (w *wholeSpec) wholes(x *Exec, v *V, f func(list, lo, hi *V)) {
	if v == nil {
		return
	}
	for v.k == KApp && (v.op == "clip" || strings.HasPrefix(v.op, "ext:slices.Clone")) {
		v = v.args[0]
	}
	if w.tracked(v) {
		f(v, nil, nil)
		return
	}
	if v.k == KApp && v.op == "slice" && w.tracked(v.args[0]) {
		f(v.args[0], v.args[1], v.args[2])
	}
}

func slotKey(name string, i int) string { return fmt.Sprintf("%s%d", name, i) }

// slot finds (or makes) the record of a list.
func (w *wholeSpec) slot(x *Exec, st *State, l *V, make bool) int {
	for l.k == KApp && l.op == "clip" {
		l = l.args[0]
	}
	free := -1
	for i := 0; i < slots; i++ {
		o := st.mon[slotKey("a:list", i)]
		if o == l {
			return i
		}
		if o == nil && free < 0 {
			free = i
		}
	}
	if !make || free < 0 {
		if make {
			st.mon["a:lost"] = mkBool(true)
		}
		return -1
	}
	st.mon[slotKey("a:list", free)] = l
	st.mon[slotKey("i:next", free)] = mkInt(0)
	return free
}

func (w *wholeSpec) drop(st *State, i int) {
	for _, k := range []string{"a:list", "i:next", "a:elem", "i:at", "a:used", "a:part", "a:done", "a:lost", "a:ret", "a:need", "a:wait", "a:last", "a:walked", "a:multi"} {
		delete(st.mon, slotKey(k, i))
	}
}

// advance: the element at idx has been used.
func (w *wholeSpec) advance(x *Exec, st *State, i int, idx *V, in ssa.Instruction, render bool) {
	st.mon[slotKey("a:used", i)] = mkBool(true)
	delete(st.mon, slotKey("a:part", i))
	delete(st.mon, slotKey("a:ret", i))
	next := st.mon[slotKey("i:next", i)]
	if st.mon[slotKey("a:done", i)] != nil {
		if isGroup(st.mon[slotKey("a:list", i)]) {
			return
		}
		// from the start again
		if n, ok := idx.intConst(); ok && n == 0 {
			delete(st.mon, slotKey("a:done", i))
			st.mon[slotKey("i:next", i)] = mkInt(1)
			return
		}
		st.mon[slotKey("a:lost", i)] = mkBool(true)
		return
	}
	if l := st.mon[slotKey("a:list", i)]; isGroup(l) && x.simplify(st, idx) == x.simplify(st, addc(x.length(st, l), -1)) && x.simplify(st, idx) != x.simplify(st, next) {
		// of those that are not joined, only the last one counts
		if w.single(x, st, l) {
			st.mon[slotKey("a:done", i)] = mkBool(true)
		} else {
			st.mon[slotKey("a:last", i)] = mkBool(true)
		}
		return
	}
	if x.simplify(st, idx) == x.simplify(st, next) {
		st.mon[slotKey("i:next", i)] = addc(idx, 1)
		w.finished(x, st, i)
		return
	}
	// used again
	if addc(idx, 1) == next {
		return
	}
	st.mon[slotKey("a:lost", i)] = mkBool(true)
}

// finished notes that a list has come to its end.
func (w *wholeSpec) finished(x *Exec, st *State, i int) bool {
	l := st.mon[slotKey("a:list", i)]
	if st.mon[slotKey("a:done", i)] != nil {
		return true
	}
	b, ok := x.simplify(st, less(st.mon[slotKey("i:next", i)], x.length(st, l))).boolConst()
	if ok && !b {
		st.mon[slotKey("a:done", i)] = mkBool(true)
		st.mon[slotKey("i:next", i)] = mkInt(0)
		delete(st.mon, slotKey("a:elem", i))
		delete(st.mon, slotKey("i:at", i))
		return true
	}
	return false
}

// settle takes in what is known about the current elements by now.
func (w *wholeSpec) settle(x *Exec, st *State) {
	w.noteUnder(x, st)
	for i := 0; i < slots; i++ {
		if st.mon[slotKey("a:list", i)] == nil {
			continue
		}
		e, at := st.mon[slotKey("a:elem", i)], st.mon[slotKey("i:at", i)]
		if e != nil && st.mon[slotKey("a:done", i)] == nil && at == st.mon[slotKey("i:next", i)] && w.leftOut(x, st, i, e) {
			st.mon[slotKey("i:next", i)] = addc(at, 1)
			delete(st.mon, slotKey("a:elem", i))
			delete(st.mon, slotKey("i:at", i))
		}
		w.finished(x, st, i)
	}
}

// noteUnder keeps in mind whether there are conditions.
func (w *wholeSpec) noteUnder(x *Exec, st *State) {
	if w.conds == nil || st.mon["w:under"] != nil {
		return
	}
	if b, ok := x.simplify(st, less(mkInt(0), x.length(st, w.conds))).boolConst(); ok {
		st.mon["w:under"] = mkBool(b)
	}
}

// leftOut: the element takes no part.
func (w *wholeSpec) leftOut(x *Exec, st *State, i int, e *V) bool {
	sh := x.shape(st, e)
	if sh.Nil == 1 {
		return true
	}
	if c := st.mon[slotKey("a:ret", i)]; c != nil {
		if b, ok := x.simplify(st, c).boolConst(); ok {
			delete(st.mon, slotKey("a:ret", i))
			if !b {
				return true
			}
		}
	}
	l := st.mon[slotKey("a:list", i)]
	if isNames(l) {
		return w.indexed(x, st, e)
	}
	if isGroup(l) {
		for _, t := range sh.NotDyn {
			if types.IsInterface(t) {
				return true // it has no values
			}
		}
		return false
	}
	switch {
	case sh.Kind == 1 && w.nested:
	case sh.Kind == 1: // an attribute
		return !w.isStart(x) && !w.keepsAttrs
	case sh.Kind == 2:
		return x.rootKind == "impctx" && w.isStart(x)
	}
	return false
}

// isStart: the operation of imperative contexts that writes a start tag.
func (w *wholeSpec) isStart(x *Exec) bool {
	return x.rootKind == "impctx" && strings.HasSuffix(x.root, ").Start")
}

// use: v leaves its list.
func (w *wholeSpec) use(x *Exec, st *State, v *V, in ssa.Instruction, render bool) {
	w.elems(x, st, v, func(l, idx *V) {
		if i := w.slot(x, st, l, true); i >= 0 {
			w.advance(x, st, i, idx, in, render)
		}
	})
}

// gather: v is taken in by something that will be used.
func (w *wholeSpec) gather(x *Exec, st *State, v *V, in ssa.Instruction) {
	w.elems(x, st, v, func(l, idx *V) {
		if i := w.slot(x, st, l, true); i >= 0 {
			if isGroup(l) {
				w.advance(x, st, i, idx, in, false)
				if k := slotKey("a:wait", i); st.mon[k] == nil {
					st.mon[k] = mkStr(iname(in))
				}
				return
			}
			if idx == st.mon[slotKey("i:next", i)] {
				st.mon[slotKey("a:part", i)] = mkBool(true)
			}
		}
	})
}

// useGathered: what was taken in is used.
func (w *wholeSpec) useGathered(x *Exec, st *State, in ssa.Instruction) {
	for i := 0; i < slots; i++ {
		delete(st.mon, slotKey("a:wait", i))
		if st.mon[slotKey("a:part", i)] != nil {
			w.advance(x, st, i, st.mon[slotKey("i:next", i)], in, false)
		}
	}
}

func (w *wholeSpec) useWhole(x *Exec, st *State, v *V, in ssa.Instruction) {
	w.wholes(x, v, func(l, lo, hi *V) {
		i := w.slot(x, st, l, true)
		if i < 0 {
			return
		}
		st.mon[slotKey("a:used", i)] = mkBool(true)
		next := st.mon[slotKey("i:next", i)]
		if lo == nil {
			if st.mon[slotKey("a:done", i)] != nil || isInt(next, 0) {
				st.mon[slotKey("a:done", i)] = mkBool(true)
				return
			}
			st.mon[slotKey("a:lost", i)] = mkBool(true)
			return
		}
		if lo == next && st.mon[slotKey("a:done", i)] == nil {
			if hi.isNilConst() || hi == x.length(st, l) {
				st.mon[slotKey("a:done", i)] = mkBool(true)
				return
			}
			st.mon[slotKey("i:next", i)] = hi
			w.finished(x, st, i)
			return
		}
		st.mon[slotKey("a:lost", i)] = mkBool(true)
	})
}

func (w *wholeSpec) isOwn(v *V) bool {
	v = bare(v)
	return v.k == KPtr || v.k == KStruct
}

func (w *wholeSpec) hooks() *Hooks {
	h := &Hooks{Mode: ModeOK}
	h.Related = func(x *Exec, st *State, key string, ph *ssa.Phi) bool {
		l := st.mon["a:list"+key[len(key)-1:]]
		if l == nil || l.typ == nil {
			return true
		}
		return indexes(ph, func(lv ssa.Value) bool {
			if !types.Identical(lv.Type().Underlying(), l.typ.Underlying()) {
				return false
			}
			v := st.top().env[lv]
			for v != nil && v != l && v.k == KApp && (v.op == "slice" || v.op == "clip") {
				v = v.args[0]
			}
			return v == nil || v == l
		})
	}
	h.OnElem = func(x *Exec, st *State, list, idx, val *V, in ssa.Instruction) {
		if !w.tracked(list) {
			return
		}
		w.groupElem(x, st, list, idx, val, in)
		i := w.slot(x, st, list, true)
		if i < 0 {
			return
		}
		if n, ok := taking(in); ok && isInt(idx, 0) {
			// what one loop leaves out may be what another takes
			at := mkStr(fmt.Sprintf("%s@%d", st.top().ctx, n))
			if was := st.mon[slotKey("a:walked", i)]; was == nil {
				st.mon[slotKey("a:walked", i)] = at
			} else if was != at {
				st.mon[slotKey("a:multi", i)] = mkBool(true)
			}
		}
		if st.mon[slotKey("a:done", i)] != nil && isInt(idx, 0) {
			delete(st.mon, slotKey("a:done", i))
			st.mon[slotKey("i:next", i)] = mkInt(0)
		}
		if st.mon[slotKey("i:next", i)] == idx {
			st.mon[slotKey("a:elem", i)] = val
			st.mon[slotKey("i:at", i)] = idx
		}
		w.settle(x, st)
	}
	h.OnBranch = func(x *Exec, st *State, cond *V, taken bool, in ssa.Instruction) { w.settle(x, st) }
	h.OnHeader = func(x *Exec, st *State, b *ssa.BasicBlock, back bool) {
		w.settle(x, st)
		if n := st.mon["g:block"]; n != nil && back && st.mon["g:fn"] == mkStr(b.Parent().String()) {
			k, _ := n.intConst()
			if b.Dominates(b.Parent().Blocks[k]) {
				w.judgeGroups(x, st, x.p.pos(b.Parent().Pos()))
			}
		}
	}
	h.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) {
		w.settle(x, st)
		if x.shape(st, node).Kind != 2 {
			w.elems(x, st, node, func(l, idx *V) {
				if t, f, p := part(l); p != nil {
					w.self[t+"."+f] = true
				}
			})
		}
		if w.isOwn(node) {
			w.useGathered(x, st, in)
		}
		w.use(x, st, node, in, true)
	}
	h.OnDyn = func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) {
		w.settle(x, st)
		st.mon["a:user"] = mkBool(true)
	}
	h.OnDynRet = func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) {
		// an element whose condition does not hold is left out
		v, ok := in.(ssa.Value)
		if ok && st.top().env[v] != nil && st.top().env[v].k == KSym {
			w.from[st.top().env[v].op] = true
		}
		if !ok || !w.cond.isCond(sig) || st.top().env[v] == nil {
			return
		}
		w.elems(x, st, fn, func(l, idx *V) {
			if i := w.slot(x, st, l, false); i >= 0 && st.mon[slotKey("i:next", i)] == idx {
				st.mon[slotKey("a:ret", i)] = st.top().env[v]
			}
		})
	}
	h.OnCall = func(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
		w.settle(x, st)
		if x.isNodeRender(fn) || !x.p.inRepo(fn) {
			return false, nil
		}
		if w.grouper(fn) {
			for _, a := range args {
				w.useWhole(x, st, a, in)
			}
			return w.grouped(x, st, fn, in)
		}
		rec := x.p.recFns[fn] || x.depthOf(fn) > 0 || w.cond.walker(fn)
		if !rec && !x.modular(fn) {
			return false, nil
		}
		ctx := false
		for _, a := range args {
			if a.typ != nil && x.p.isCtxPtr(a.typ) {
				ctx = true
			}
		}
		for _, a := range args {
			w.useWhole(x, st, a, in)
			if rec && ctx {
				w.use(x, st, a, in, true)
			} else {
				w.gather(x, st, a, in)
			}
		}
		if !rec {
			return false, nil
		}
		if w.cond.walker(fn) {
			return w.collected(x, st, fn, args, in)
		}
		return w.unknown(x, st, fn, in)
	}
	h.OnExt = func(x *Exec, st *State, name string, args []*V, in ssa.Instruction) {
		for _, a := range args {
			w.gather(x, st, a, in)
			if name == "slices.Clone" || name == "slices.Concat" {
				w.useWhole(x, st, a, in)
			} else if strings.HasPrefix(name, "slices.") && !inertSlices[name[7:]] {
				if w.isList(a.typ) {
					st.mon["a:filtered"] = mkBool(true)
				}
				w.wholes(x, a, func(l, lo, hi *V) {
					if i := w.slot(x, st, l, true); i >= 0 {
						st.mon[slotKey("a:lost", i)] = mkBool(true)
						st.mon[slotKey("a:used", i)] = mkBool(true)
					}
				})
			}
		}
	}
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		w.settle(x, st)
		switch what {
		case "store":
			if val == nil {
				return
			}
			if w.cargo(x, st, target, in) {
				w.use(x, st, val, in, true)
				return
			}
			if target.k == KApp && target.op == "[]" {
				w.useGathered(x, st, in)
				w.use(x, st, val, in, false)
				return
			}
			w.overwritten(x, st, target, val, in)
			if target.k == KPtr && strings.Contains(target.op, "[") {
				if w.tempArg(in) {
					return
				}
				w.useGathered(x, st, in)
				w.use(x, st, val, in, false)
				return
			}
			w.useWhole(x, st, val, in)
		case "append":
			if val == nil {
				return
			}
			if x.rootKind == "render" && !w.keeps(target) {
				w.gather(x, st, val, in)
				return
			}
			if c, ok := in.(*ssa.Call); ok && len(c.Call.Args) > 0 {
				w.cut(x, st, c.Call.Args[0], in)
			}
			w.useGathered(x, st, in)
			w.useWhole(x, st, target, in)
			w.useWhole(x, st, val, in)
			w.use(x, st, val, in, false)
		case "map":
			w.useGathered(x, st, in)
			w.use(x, st, val, in, false)
		case "copy":
			w.useWhole(x, st, val, in)
		}
	}
	return h
}

// inertSlices only look at a list.
var inertSlices = map[string]bool{"Contains": true, "ContainsFunc": true, "Index": true, "IndexFunc": true, "Equal": true, "EqualFunc": true, "Grow": true, "Clip": true}

// cut: a list that is being built loses what was put into it before.
func (w *wholeSpec) cut(x *Exec, st *State, v ssa.Value, in ssa.Instruction) {
	sl, ok := v.(*ssa.Slice)
	if !ok || !w.isList(sl.Type()) || x.rootKind != "func" && x.rootKind != "method" {
		return
	}
	l := x.eval(st, sl.X)
	if l.k != KSlice || sl.High == nil {
		return
	}
	hi := x.eval(st, sl.High)
	ln := x.length(st, l)
	if b, ok := x.simplify(st, less(hi, ln)).boolConst(); ok && !b {
		return
	}
	pos := x.p.instrPos(in)
	if isInt(hi, 0) || hi == x.simplify(st, addc(ln, -1)) {
		w.rep.check(false, "what is kept before "+pos+" in "+x.root, pos, x.root, "what was put into the list before is dropped")
		return
	}
	st.mon["a:lost"] = mkBool(true)
}

func (w *wholeSpec) keeps(target *V) bool { return false }

func (w *wholeSpec) tempArg(in ssa.Instruction) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	ia, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	return ok && (al.Comment == "varargs" || al.Comment == "slicelit")
}

// cargo: an item is put into a context.
func (w *wholeSpec) cargo(x *Exec, st *State, target *V, in ssa.Instruction) bool {
	if target.k != KPtr || target.op != ".Cargo" {
		return false
	}
	o := st.heap[target.args[0]]
	if o == nil || !x.p.isCtxNamed(o.typ) {
		return false
	}
	// what was to be rendered for the item before is finished
	if st.mon["a:item"] != nil {
		w.complete(x, st, x.p.instrPos(in), "the next item", true, nil)
	}
	st.mon["a:item"] = mkBool(true)
	for i := 0; i < slots; i++ {
		l := st.mon[slotKey("a:list", i)]
		if l != nil && w.mine(l) {
			w.drop(st, i)
		}
	}
	return true
}

// mine: a list the receiver keeps.
func (w *wholeSpec) mine(l *V) bool {
	_, _, pl := part(l)
	return pl != nil && w.recv != nil && pl == w.recv
}

// unknown makes the results of a call unknown.
func (w *wholeSpec) unknown(x *Exec, st *State, fn *ssa.Function, in ssa.Instruction) (bool, []Exit) {
	var ret []*V
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		sh, ok := x.inv.ret(fmt.Sprintf("ret:%s#%d", fn, i))
		if !ok {
			sh = topShape(t, 0)
		}
		if isErrType(t) {
			ret = append(ret, mkNil(errT))
			continue
		}
		ret = append(ret, x.newSym(st, in, fmt.Sprintf("#result%d", i), t, sh))
	}
	return true, []Exit{{st: st, ret: ret}}
}

// ownLists are the lists the receiver keeps.
func (w *wholeSpec) ownLists(x *Exec, r Root, st *State) []*V {
	var out []*V
	if w.recv == nil {
		return nil
	}
	t := r.fn.Signature.Recv().Type()
	ptr := false
	if p, ok := t.(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !w.isList(f.Type()) {
			continue
		}
		if ptr {
			out = append(out, mkApp("*", f.Type(), mkApp("fa:"+typeName(t)+"."+f.Name(), types.NewPointer(f.Type()), w.recv)))
		} else {
			out = append(out, mkApp("field:"+typeName(t)+"."+f.Name(), f.Type(), w.recv))
		}
	}
	return out
}

// complete judges all lists at the end of a run (or of an item).
func (w *wholeSpec) complete(x *Exec, st *State, pos, what string, item bool, e *Exit) {
	w.settle(x, st)
	w.judgeGroups(x, st, pos)
	for i := 0; i < slots; i++ {
		l := st.mon[slotKey("a:list", i)]
		if l == nil || item && !w.mine(l) {
			continue
		}
		used := st.mon[slotKey("a:used", i)] != nil
		if used {
			w.started[l.String()] = true
		}
		if st.mon["a:filtered"] != nil {
			w.rep.undecided(x.root, pos, fmt.Sprintf("how much of %s is used is not known", l))
			continue
		}
		if w.finished(x, st, i) {
			w.rep.check(true, "all of "+l.String()+" in "+x.root, pos, x.root, "")
			continue
		}
		if !used && st.mon[slotKey("a:need", i)] != nil {
			if w.isContents(x, st, i) && w.refusesContent(x, e) {
				continue
			}
			w.rep.check(false, "all of "+l.String()+" in "+x.root, pos, x.root, fmt.Sprintf("at %s, %s is not used", what, l))
			continue
		}
		if !used {
			continue // judged with the lists that are not used at all
		}
		if st.mon[slotKey("a:lost", i)] != nil || st.mon["a:lost"] != nil || st.mon["$general"] != nil || st.mon[slotKey("a:multi", i)] != nil {
			w.rep.undecided(x.root, pos, fmt.Sprintf("how much of %s is used is not known", l))
			continue
		}
		w.rep.check(false, "all of "+l.String()+" in "+x.root, pos, x.root, fmt.Sprintf("at %s, %s is used only up to position %s", what, l, st.mon[slotKey("i:next", i)]))
	}
}

func (w *wholeSpec) follow(a *Analysis, r Root) error {
	w.started, w.late, w.from = map[string]bool{}, nil, map[string]bool{}
	h := w.hooks()
	if w.grouper(r.fn) {
		w.groupHooks(h)
	}
	c := &Check{h: h}
	c.begin = func(x *Exec, r Root, st *State, args []*V) {
		w.recv, w.params = nil, nil
		w.keepsAttrs = r.kind == "func" && w.attrBuilder(x, r.fn, 0)
		if r.fn.Signature.Recv() != nil && len(args) > 0 {
			w.recv = args[0]
		}
		for i, v := range args {
			if w.recv != nil && i == 0 && !w.grouper(r.fn) {
				continue
			}
			if v.k == KSym && w.isList(v.typ) && (r.fn.Pkg == nil || r.fn.Pkg.Pkg.Path() == w.p.mod || !loops(r.fn)) {
				w.params = append(w.params, v)
			}
		}
	}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic {
			return
		}
		st := e.st
		pos := x.p.pos(r.fn.Pos())
		if (r.kind == "func" || r.kind == "method") && len(e.ret) > 0 {
			if v := bare(e.ret[0]); v.isNilConst() && len(e.ret) == 1 && w.cond.isNode(r.fn.Signature.Results().At(0).Type()) {
				return // refused
			}
		}
		if w.grouper(r.fn) {
			w.groupEnd(x, st, r.fn, pos)
		}
		w.complete(x, st, pos, "the end", false, &e)
		all := append([]*V{}, w.params...)
		if r.kind == "render" || r.kind == "rec" || r.kind == "impctx" {
			all = append(all, w.ownLists(x, r, st)...)
		}
		for _, l := range all {
			i := w.slot(x, st, l, false)
			if i >= 0 && (st.mon[slotKey("a:used", i)] != nil || st.mon[slotKey("a:done", i)] != nil) {
				continue
			}
			if b, ok := x.simplify(st, less(mkInt(0), x.length(st, l))).boolConst(); ok && !b {
				continue
			}
			if st.mon["a:user"] != nil || st.mon["a:lost"] != nil || st.mon["a:filtered"] != nil {
				continue
			}
			if i >= 0 && st.mon[slotKey("a:multi", i)] != nil {
				w.rep.undecided(x.root, pos, fmt.Sprintf("how much of %s is used is not known", l))
				continue
			}
			msg := "it is not used"
			if i >= 0 {
				msg = fmt.Sprintf("none of it is used (up to position %s)", st.mon[slotKey("i:next", i)])
			}
			el := x.shape(st, l).Elem
			w.late = append(w.late, lateCheck{l.String(), "all of " + l.String() + " in " + x.root, pos, x.root, msg, el != nil && el.Kind == 1})
		}
	}
	if err := a.runRoot(r, c, w.rep); err != nil {
		return err
	}
	for _, l := range w.late {
		if l.attrs && !w.started[l.list] {
			continue // attributes that are rendered by the element this is in
		}
		w.rep.check(false, l.key, l.pos, l.root, l.msg)
	}
	return nil
}

// indexes: a value made from ph is the position of an element of a list that f accepts.
func indexes(ph *ssa.Phi, f func(list ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				if r.Index == v && f(r.X) {
					return true
				}
			case *ssa.BinOp:
				if (r.Op == token.ADD || r.Op == token.SUB) && walk(r) {
					return true
				}
			case *ssa.Phi:
				if walk(r) {
					return true
				}
			}
		}
		return false
	}
	return walk(ph)
}

func loops(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// taking: in is within a loop that adds to something; that loop is told by its first block.
func taking(in ssa.Instruction) (int, bool) {
	at := in.Block()
	for _, h := range at.Parent().Blocks {
		if !h.Dominates(at) {
			continue
		}
		for _, b := range at.Parent().Blocks {
			if !h.Dominates(b) || !cycles(at, h) || !cycles(b, h) {
				continue
			}
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					return h.Index, true
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						return h.Index, true
					}
				}
			}
		}
	}
	return 0, false
}

// cycles: a path leads from b back to h within what h dominates.
func cycles(b, h *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == h {
				return true
			}
			if !seen[s] && h.Dominates(s) {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// collected makes what a walker collects unknown lists that have to be used.
func (w *wholeSpec) collected(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
	ci, _ := w.cond.walkerParams(fn)
	var exits []Exit
	under := x.simplify(st, less(mkInt(0), x.length(st, args[ci])))
	if args[ci] == w.conds && st.mon["w:under"] != nil {
		under = st.mon["w:under"]
	}
	for _, b := range []bool{true, false} {
		ns := st.clone()
		if k, ok := under.boolConst(); ok && k != b {
			continue
		} else if !ok && !x.assume(ns, under, b) {
			continue
		}
		if args[ci] == w.conds {
			ns.mon["w:under"] = mkBool(b)
		}
		var ret []*V
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			t := fn.Signature.Results().At(i).Type()
			sh, ok := x.inv.ret(fmt.Sprintf("ret:%s#%d", fn, i))
			if !ok {
				sh = topShape(t, 0)
			}
			if b && w.without[i] {
				ret = append(ret, mkNil(t)) // there is nothing in it
				continue
			}
			r := x.newSym(ns, in, fmt.Sprintf("#collected%d", i), t, sh)
			if w.isList(t) {
				if s := w.slot(x, ns, r, true); s >= 0 {
					ns.mon[slotKey("a:need", s)] = mkInt(int64(i))
				}
			}
			ret = append(ret, r)
		}
		exits = append(exits, Exit{st: ns, ret: ret})
	}
	return true, exits
}

// isContents: the list holds content that a walker found.
func (w *wholeSpec) isContents(x *Exec, st *State, i int) bool {
	n, ok := st.mon[slotKey("a:need", i)].intConst()
	if !ok || w.walker == nil || int(n) >= w.walker.Signature.Results().Len() {
		return false
	}
	if w.contents[w.walker][int(n)] {
		return true
	}
	t := w.walker.Signature.Results().At(int(n)).Type()
	sh, known := x.inv.ret(fmt.Sprintf("ret:%s#%d", w.walker, n))
	return known && w.cond.isNodes(t) && sh.Elem != nil && sh.Elem.Kind == 2
}

// refusesContent: the node that is returned has no place for content.
func (w *wholeSpec) refusesContent(x *Exec, e *Exit) bool {
	if e == nil || len(e.ret) == 0 {
		return false
	}
	v := bare(e.ret[0])
	if v.k != KPtr || e.st.heap[v.args[0]] == nil {
		return false
	}
	return w.places(e.st.heap[v.args[0]].typ) == 1
}

// places: how many lists of nodes t has, together with those of the structs in it.
func (w *wholeSpec) places(t types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	n := 0
	for i := 0; ok && i < s.NumFields(); i++ {
		if f := s.Field(i).Type(); w.cond.isNodes(f) {
			n++
		} else {
			n += w.places(f)
		}
	}
	return n
}

// attrBuilder: fn makes a node that keeps attributes.
func (w *wholeSpec) attrBuilder(x *Exec, fn *ssa.Function, depth int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				t := deref(in.Type())
				s, ok := t.Underlying().(*types.Struct)
				if !ok || !types.Implements(t, w.p.node) && !types.Implements(types.NewPointer(t), w.p.node) {
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					if w.cond.isNodes(f.Type()) {
						if sh := x.inv.field(typeName(t)+"."+f.Name(), f.Type(), false); sh.Elem != nil && sh.Elem.Kind != 2 {
							return true
						}
					}
				}
			case *ssa.Call:
				if c := in.Call.StaticCallee(); c != nil && depth < 2 && w.p.inRepo(c) && !x.modular(c) && w.attrBuilder(x, c, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// containers are the types that keep attributes they do not render.
func (w *wholeSpec) containers(x *Exec) []types.Type {
	var out []types.Type
	for _, t := range w.p.namedTypes() {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || !types.Implements(types.NewPointer(t), w.p.node) && !types.Implements(t, w.p.node) {
			continue
		}
		holds, self := false, false
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !w.cond.isNodes(f.Type()) {
				continue
			}
			name := typeName(t) + "." + f.Name()
			if sh := x.inv.field(name, f.Type(), false); sh.Elem != nil && sh.Elem.Kind != 2 {
				if w.self[name] {
					self = true
				} else {
					holds = true
				}
			}
		}
		if holds && !self {
			if types.Implements(t, w.p.node) {
				out = append(out, t)
			}
			out = append(out, types.NewPointer(t))
		}
	}
	return out
}

// walkers follows the functions that look for attributes.
func (w *wholeSpec) walkers(a *Analysis) error {
	found := false
	for _, fn := range w.p.allFuncs {
		if !w.cond.walker(fn) || fn.Synthetic != "" {
			continue
		}
		found = true
		w.walker = fn
		w.contents[fn] = map[int]bool{}
		if err := w.walk(a, fn); err != nil {
			if tooLate() {
				return err
			}
			w.rep.undecided(fn.String(), w.p.pos(fn.Pos()), err.Error())
		}
	}
	if !found {
		w.rep.undecided("attributes of elements", "", "no function collects the attributes under conditions")
	}
	return nil
}

// resultsOf are the results that v ends up in.
func resultsOf(v ssa.Value) map[int]bool {
	out := map[int]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				walk(r)
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && r.Call.Args[0] == v {
					walk(r)
				}
			case *ssa.Return:
				for i, o := range r.Results {
					if o == v {
						out[i] = true
					}
				}
			}
		}
	}
	walk(v)
	return out
}

func (w *wholeSpec) walk(a *Analysis, fn *ssa.Function) error {
	ci, ni := w.cond.walkerParams(fn)
	w.without = map[int]bool{}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if w.isList(res.At(i).Type()) {
			w.without[i] = true
		}
	}
	for round := 0; ; round++ {
		rep := newReport(w.rep.prop)
		out, err := w.walk1(a, fn, ci, ni, rep)
		if err != nil {
			return err
		}
		if len(out) == 0 || round > 4 {
			for k, o := range rep.obl {
				w.rep.obl[k] = o
			}
			for k, u := range rep.und {
				w.rep.und[k] = u
			}
			w.rep.states += rep.states
			w.rep.roots = append(w.rep.roots, rep.roots...)
			return nil
		}
		for i := range out {
			delete(w.without, i)
		}
	}
}

// walk1 returns the results that were wrongly taken to be empty where there are conditions.
func (w *wholeSpec) walk1(a *Analysis, fn *ssa.Function, ci, ni int, rep *Report) (map[int]bool, error) {
	old := w.rep
	w.rep, w.nested = rep, true
	defer func() { w.rep, w.nested, w.conds = old, false, nil }()
	w.started, w.late, w.from = map[string]bool{}, nil, map[string]bool{}
	wrong := map[int]bool{}
	var nodes *V
	var cts []types.Type
	h := w.hooks()
	// judge what was done with the item
	judge := func(x *Exec, st *State, pos string) {
		w.settle(x, st)
		item := st.mon["w:item"]
		if item == nil {
			return
		}
		delete(st.mon, "w:item")
		delete(st.mon, "w:block")
		sh := x.shape(st, item)
		lost := st.mon["a:lost"] != nil || st.mon["$general"] != nil
		if sh.Nil != 1 && sh.Kind != 1 {
			for _, t := range cts {
				name := types.TypeString(t, func(p *types.Package) string { return p.Name() })
				switch {
				case sh.Dyn != nil && types.Identical(sh.Dyn, t):
					s, _ := deref(t).Underlying().(*types.Struct)
					data := mkApp("data", t, item)
					for i := 0; i < s.NumFields(); i++ {
						f := s.Field(i)
						if !w.cond.isNodes(f.Type()) {
							continue
						}
						l := mkApp("*", f.Type(), mkApp("fa:"+typeName(deref(t))+"."+f.Name(), types.NewPointer(f.Type()), data))
						k := w.slot(x, st, l, false)
						ok := k >= 0 && w.finished(x, st, k)
						if !ok {
							b, known := x.simplify(st, less(mkInt(0), x.length(st, l))).boolConst()
							ok = known && !b
						}
						if !ok && (lost || k >= 0 && st.mon[slotKey("a:lost", k)] != nil) {
							rep.undecided(x.root, pos, fmt.Sprintf("how much of %s is looked at is not known", l))
							continue
						}
						rep.check(ok, "attributes in "+name+"."+f.Name(), pos, x.root, fmt.Sprintf("the attributes of a %s may be in its %s, which is not looked at completely", name, f.Name()))
					}
				case sh.Dyn != nil || hasType(sh.NotDyn, t):
				default:
					rep.check(false, "attributes in "+name, pos, x.root, fmt.Sprintf("an item that may be a %s is not looked at, so that its attributes are lost", name))
				}
			}
		}
		for i := 0; i < slots; i++ {
			l := st.mon[slotKey("a:list", i)]
			if l == nil || l == nodes {
				continue
			}
			if n := st.mon[slotKey("a:need", i)]; n != nil && !w.isContents(x, st, i) && !w.finished(x, st, i) {
				if lost || st.mon[slotKey("a:lost", i)] != nil {
					rep.undecided(x.root, pos, "how much of what is found is used is not known")
				} else {
					rep.check(false, "what is found inside an item", pos, x.root, fmt.Sprintf("%s of what is found inside an item is lost", res(fn, n)))
				}
			} else if n != nil {
				rep.check(true, "what is found inside an item", pos, x.root, "")
			}
			w.drop(st, i)
		}
	}
	elem := h.OnElem
	h.OnElem = func(x *Exec, st *State, list, idx, val *V, in ssa.Instruction) {
		if list == nodes && st.mon["w:item"] != val {
			judge(x, st, x.p.instrPos(in))
			st.mon["w:item"] = val
			if in.Parent() == fn {
				st.mon["w:block"] = mkInt(int64(in.Block().Index))
			}
		}
		elem(x, st, list, idx, val, in)
	}
	h.OnHeader = func(x *Exec, st *State, b *ssa.BasicBlock, back bool) {
		w.settle(x, st)
		if n := st.mon["w:block"]; n != nil && back && b.Parent() == fn {
			k, _ := n.intConst()
			if b.Dominates(fn.Blocks[k]) {
				judge(x, st, x.p.pos(fn.Pos()))
			}
		}
	}
	mutate := h.OnMutate
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		if v, ok := in.(ssa.Value); ok && what == "append" && val != nil && in.Parent() == fn {
			w.elems(x, st, val, func(l, idx *V) {
				if e := st.mon["w:item"]; l == nodes && e != nil && x.shape(st, e).Kind == 2 {
					for i := range resultsOf(v) {
						if w.cond.isNodes(fn.Signature.Results().At(i).Type()) {
							w.contents[fn][i] = true
						}
					}
				}
			})
		}
		mutate(x, st, what, target, val, in)
	}
	c := &Check{h: h}
	c.begin = func(x *Exec, r Root, st *State, args []*V) {
		w.conds, nodes = args[ci], args[ni]
		w.recv, w.params = nil, []*V{nodes}
		cts = w.containers(x)
		if len(cts) == 0 {
			rep.undecided(x.root, x.p.pos(fn.Pos()), "nothing keeps attributes for the element it is in")
		}
	}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic {
			return
		}
		st := e.st
		pos := x.p.pos(fn.Pos())
		judge(x, st, pos)
		w.complete(x, st, pos, "the end", false, nil)
		if i := w.slot(x, st, nodes, false); i < 0 || st.mon[slotKey("a:used", i)] == nil && st.mon[slotKey("a:done", i)] == nil {
			if b, ok := x.simplify(st, less(mkInt(0), x.length(st, nodes))).boolConst(); !ok || b {
				rep.check(false, "all items in "+x.root, pos, x.root, "the items are not used")
			}
		}
		w.noteUnder(x, st)
		if u := st.mon["w:under"]; u != nil {
			if b, _ := u.boolConst(); !b {
				return
			}
		}
		for i, v := range e.ret {
			if !w.without[i] {
				continue
			}
			if n, ok := x.length(st, v).intConst(); !ok || n != 0 {
				wrong[i] = true
			}
		}
	}
	return wrong, a.runRoot(Root{fn, "rec"}, c, rep)
}

func res(fn *ssa.Function, n *V) string {
	i, _ := n.intConst()
	if v := fn.Signature.Results().At(int(i)); v.Name() != "" {
		return v.Name()
	}
	return fmt.Sprintf("result %d", i)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// doubtCollectors: functions that walk through nodes recursively and put what they find somewhere else than in
// their results are not followed, so nothing is said about what depends on them.
func doubtCollectors(p *Prog, rep *Report) {
	w := newWhole(p, newReport(rep.prop))
	var cols []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		if w.collects(fn) {
			cols = append(cols, fn)
		}
		for _, c := range fn.AnonFuncs {
			add(c)
		}
	}
	for _, fn := range p.allFuncs {
		add(fn)
	}
	if len(cols) == 0 {
		return
	}
	doubt := map[string]bool{}
	for fn := range seen {
		if callsAny(p, fn, cols) {
			doubt[fn.String()] = true
		}
	}
	for _, o := range rep.obl {
		if o.bad != "" && doubt[o.root] {
			rep.undecided(o.root, o.pos, "nodes are collected by a function that is not followed: "+o.bad)
			o.bad = ""
		}
	}
}

// collects: fn calls itself and has somewhere to put nodes.
func (w *wholeSpec) collects(fn *ssa.Function) bool {
	own := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if t := c.Common().StaticCallee(); t != nil && callsAny(w.p, t, []*ssa.Function{fn}) {
					own = true
				}
			}
		}
	}
	var places []types.Type
	for _, v := range fn.FreeVars {
		t := deref(v.Type())
		if types.Identical(t, fn.Signature) {
			own = true
		}
		places = append(places, v.Type())
	}
	if !own {
		return false
	}
	for _, v := range fn.Params {
		places = append(places, v.Type())
	}
	for _, t := range places {
		switch u := t.Underlying().(type) {
		case *types.Signature:
			if u.Params().Len() > 0 && u.Results().Len() == 0 {
				return true
			}
		case *types.Pointer:
			e := u.Elem()
			if w.isList(e) && !types.Identical(e.Underlying(), fn.Signature) {
				return true
			}
			if s, ok := e.Underlying().(*types.Struct); ok && !types.Implements(t, w.p.node) {
				for i := 0; i < s.NumFields(); i++ {
					if w.isList(s.Field(i).Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}
