package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Attributes that are grouped by their names while rendering.  A function that groups puts every attribute
// into the group of its name and notes each name once; what renders the groups uses them completely, or
// the last of a group that is not joined.

// groupChecks decides whether what is grouped is used.
func groupChecks(p *Prog, a *Analysis, rep *Report) error {
	sub := newReport(rep.prop)
	w := newWhole(p, sub)
	var groupers []*ssa.Function
	for _, fn := range p.allFuncs {
		if w.grouper(fn) {
			groupers = append(groupers, fn)
		}
	}
	var roots []Root
	for _, r := range a.allRoots() {
		if r.kind == "render" && callsAny(p, r.fn, groupers) {
			roots = append(roots, r)
		}
	}
	for _, fn := range groupers {
		roots = append(roots, Root{fn, "rec"})
	}
	for _, r := range roots {
		if err := w.follow(a, r); err != nil {
			if tooLate() {
				return err
			}
			rep.undecided(r.fn.String(), p.pos(r.fn.Pos()), err.Error())
		}
	}
	rep.states += sub.states
	for k, o := range sub.obl {
		if strings.HasPrefix(k, "conditional attributes") || strings.HasPrefix(k, "groups kept") || strings.HasPrefix(k, "names of groups") || strings.Contains(k, "#names") {
			rep.obl[k] = o
		}
	}
	for k, u := range sub.und {
		rep.und[k] = u
	}
	return nil
}

// callsAny: fn calls one of targets, directly or through other functions of the library.
func callsAny(p *Prog, fn *ssa.Function, targets []*ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function) bool
	walk = func(fn *ssa.Function) bool {
		if seen[fn] || !p.inRepo(fn) {
			return false
		}
		seen[fn] = true
		for _, t := range targets {
			if t == fn {
				return true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && walk(f) {
						return true
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok && walk(m.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
		return false
	}
	return walk(fn)
}

// isGroups: lists of nodes by their names.
func (w *wholeSpec) isGroups(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String && w.cond.isNodes(m.Elem())
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// grouper: fn groups nodes by their names.
func (w *wholeSpec) grouper(fn *ssa.Function) bool {
	if fn.Blocks == nil || !w.p.inRepo(fn) || fn.Synthetic != "" {
		return false
	}
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if w.isGroups(r.At(i).Type()) {
			return true
		}
	}
	return false
}

func symSuffix(v *V, s string) bool {
	return v != nil && v.k == KSym && strings.HasSuffix(strings.TrimRight(v.op, "~"), s)
}

// isGroup: the nodes of one name.
func isGroup(l *V) bool {
	return l != nil && l.k == KApp && l.op == "lookup" && len(l.args) == 2 && symSuffix(l.args[0], "#groups")
}

// isNames: the names of groups.
func isNames(l *V) bool { return symSuffix(l, "#names") }

// grouped makes the results of a function that groups: nothing, or groups and their names.
func (w *wholeSpec) grouped(x *Exec, st *State, fn *ssa.Function, in ssa.Instruction) (bool, []Exit) {
	none := st.clone()
	var ret, zero []*V
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		zero = append(zero, zeroOf(t))
		sh, ok := x.inv.ret(fmt.Sprintf("ret:%s#%d", fn, i))
		if !ok {
			sh = topShape(t, 2)
		}
		switch {
		case w.isGroups(t):
			m := x.newSym(st, in, "#groups", t, sh)
			_ = x.assume(st, less(mkInt(0), x.length(st, m)), true)
			st.mon["g:map"] = m
			ret = append(ret, m)
		case isStrings(t):
			l := x.newSym(st, in, "#names", t, sh)
			_ = x.assume(st, less(mkInt(0), x.length(st, l)), true)
			if s := w.slot(x, st, l, true); s >= 0 {
				st.mon[slotKey("a:need", s)] = mkInt(-1)
			}
			ret = append(ret, l)
		default:
			ret = append(ret, x.newSym(st, in, fmt.Sprintf("#result%d", i), t, sh))
		}
	}
	return true, []Exit{{st: st, ret: ret}, {st: none, ret: zero}}
}

func groupOf(m, k *V) *V { return mkApp("lookup", m.typ.Underlying().(*types.Map).Elem(), m, k) }

// present tells whether there is a group of name k.
func (w *wholeSpec) present(x *Exec, st *State, m, k *V) (yes, known bool) {
	if b, ok := x.simplify(st, mkApp("in", types.Typ[types.Bool], m, k)).boolConst(); ok {
		return b, true
	}
	l := groupOf(m, k)
	if x.shape(st, l).Nil == 1 {
		return false, true
	}
	if b, ok := x.simplify(st, less(mkInt(0), x.length(st, l))).boolConst(); ok {
		return b, true
	}
	return false, false
}

// indexed: the name is one of those of the attributes that are always there.
func (w *wholeSpec) indexed(x *Exec, st *State, n *V) bool {
	for k, s := range st.facts {
		if k.k == KApp && k.op == "in" && k.args[1] == n && s.B == 1 && !symSuffix(k.args[0], "#groups") {
			return true
		}
	}
	return false
}

// single: the nodes of the group are known not to be joined.
func (w *wholeSpec) single(x *Exec, st *State, l *V) bool {
	if w.delim == nil {
		return true
	}
	t := types.NewPointer(w.delim)
	not := func(v *V) bool {
		sh := x.shape(st, v)
		return sh.Dyn != nil && !types.Identical(sh.Dyn, t) && !types.Identical(sh.Dyn, w.delim) || hasType(sh.NotDyn, t)
	}
	if k := l.args[1]; k.k == KApp && k.op == "Name" && not(k.args[0]) {
		return true
	}
	for k := range st.facts {
		if e, _ := element(k); e == l && not(k) {
			return true
		}
	}
	return false
}

// groupElem: the next attribute, or name, is looked at.
func (w *wholeSpec) groupElem(x *Exec, st *State, list, idx, val *V, in ssa.Instruction) {
	m := st.mon["g:map"]
	if m == nil || isGroup(list) || st.mon["g:cur"] == val {
		return
	}
	names := isNames(list)
	if !names && (!w.cond.isNodes(list.typ) || x.shape(st, val).Kind != 1) {
		return
	}
	w.judgeGroups(x, st, x.p.instrPos(in))
	st.mon["g:cur"] = val
	st.mon["g:block"] = mkInt(int64(in.Block().Index))
	st.mon["g:fn"] = mkStr(in.Parent().String())
	if names {
		// there is something under each name
		_ = x.assume(st, mkApp("in", types.Typ[types.Bool], m, val), true)
		_ = x.assume(st, less(mkInt(0), mkLen(groupOf(m, val))), true)
	}
}

// judgeGroups judges what was done with the groups since the last attribute, or name.
func (w *wholeSpec) judgeGroups(x *Exec, st *State, pos string) {
	m := st.mon["g:map"]
	if m == nil {
		return
	}
	cur := st.mon["g:cur"]
	delete(st.mon, "g:cur")
	delete(st.mon, "g:block")
	delete(st.mon, "g:fn")
	lost := st.mon["a:lost"] != nil || st.mon["$general"] != nil
	key := "conditional attributes of one name in " + x.root
	seen := false
	for i := 0; i < slots; i++ {
		l := st.mon[slotKey("a:list", i)]
		if !isGroup(l) {
			continue
		}
		done := w.finished(x, st, i)
		used := st.mon[slotKey("a:used", i)] != nil
		seen = seen || used || done
		switch {
		case !used:
		case st.mon[slotKey("a:wait", i)] != nil:
			w.rep.check(false, key, pos, x.root, fmt.Sprintf("the values of %s are collected but not rendered", l))
		case done:
			w.rep.check(true, key, pos, x.root, "")
		case lost || st.mon[slotKey("a:lost", i)] != nil || st.mon[slotKey("a:last", i)] != nil && !w.joined(x, st, l):
			w.rep.undecided(x.root, pos, fmt.Sprintf("how much of %s is used is not known", l))
		default:
			w.rep.check(false, key, pos, x.root, fmt.Sprintf("of %s, only those up to position %s are used", l, st.mon[slotKey("i:next", i)]))
		}
		w.drop(st, i)
	}
	if cur == nil || seen || lost || x.shape(st, cur).Kind != 1 || cur.typ != nil && !w.cond.isNode(cur.typ) {
		return
	}
	k := x.nodeName(st, cur)
	yes, known := w.present(x, st, m, k)
	if l := groupOf(m, k); yes {
		if b, ok := x.simplify(st, less(mkInt(0), x.length(st, l))).boolConst(); ok && !b {
			return // groups are not empty
		}
	}
	switch {
	case known && yes:
		w.rep.check(false, key, pos, x.root, fmt.Sprintf("there may be conditional attributes with the name of %s, which are not used", cur))
	case !known && w.lookedUp(st, m):
		w.rep.undecided(x.root, pos, "what the groups are looked up with is not known")
	case !known:
		w.rep.check(false, key, pos, x.root, fmt.Sprintf("conditional attributes with the name of %s are not looked for", cur))
	default:
		w.rep.check(true, key, pos, x.root, "")
	}
}

// joined: an element of the group is known to be joined with others.
func (w *wholeSpec) joined(x *Exec, st *State, l *V) bool {
	if w.delim == nil {
		return false
	}
	t := types.NewPointer(w.delim)
	is := func(v *V) bool {
		sh := x.shape(st, v)
		return sh.Dyn != nil && types.Identical(sh.Dyn, t)
	}
	if k := l.args[1]; k.k == KApp && k.op == "Name" && is(k.args[0]) {
		return true
	}
	for k := range st.facts {
		if e, _ := element(k); e == l && is(k) {
			return true
		}
	}
	return false
}

// lookedUp: some name was looked up.
func (w *wholeSpec) lookedUp(st *State, m *V) bool {
	for k := range st.facts {
		if k.k == KApp && (k.op == "in" || k.op == "lookup") && k.args[0] == m {
			return true
		}
	}
	return false
}

// overwritten: what was collected so far is replaced before it was rendered.
func (w *wholeSpec) overwritten(x *Exec, st *State, target, val *V, in ssa.Instruction) {
	if target.k != KPtr || x.rootKind != "render" || val.typ == nil || !w.isList(val.typ) {
		return
	}
	waits := false
	for i := 0; i < slots; i++ {
		waits = waits || st.mon[slotKey("a:wait", i)] != nil
	}
	o := st.heap[target.args[0]]
	if !waits || o == nil {
		return
	}
	old := o.cells[target.op]
	s, ok := in.(*ssa.Store)
	if !ok || old == nil || old == val {
		return
	}
	v := s.Val
	for {
		if c, ok := v.(*ssa.ChangeType); ok {
			v = c.X
			continue
		}
		break
	}
	kept, known := false, false
	switch v := v.(type) {
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			known = true
			kept = x.eval(st, v.Call.Args[0]) == old
		}
	case *ssa.Slice:
		known = true
	}
	if kept {
		return
	}
	for i := 0; i < slots; i++ {
		if st.mon[slotKey("a:wait", i)] == nil {
			continue
		}
		if m, ok := st.mon[slotKey("a:wait", i)].strConst(); ok && isInstr(v, m) {
			st.mon[slotKey("a:wait", i)] = mkBool(true)
			continue // collected by what is stored now
		}
		if known {
			w.rep.check(false, "conditional attributes of one name in "+x.root, x.p.instrPos(in), x.root, fmt.Sprintf("the values of %s that were collected so far are dropped", st.mon[slotKey("a:list", i)]))
		} else {
			st.mon[slotKey("a:lost", i)] = mkBool(true)
		}
	}
}

func isInstr(v ssa.Value, name string) bool {
	c, ok := v.(*ssa.Call)
	return ok && iname(c) == name
}

// groupHooks follows a function that groups.
func (w *wholeSpec) groupHooks(h *Hooks) {
	h.Seq, h.SeqType = true, w.cond.isNodes
	mutate, header := h.OnMutate, h.OnHeader
	h.OnHeader = func(x *Exec, st *State, b *ssa.BasicBlock, back bool) {
		if back {
			w.groupEnd(x, st, b.Parent(), x.p.pos(b.Parent().Pos()))
		}
		header(x, st, b, back)
	}
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		switch {
		case what == "map" && target.k == KMap && val != nil && val.typ != nil && w.cond.isNodes(val.typ):
			w.groupUpdate(x, st, target, val, in)
		case what == "append" && val != nil && target.typ != nil && isStrings(target.typ):
			if s := x.elemsOf(st, val); len(s) == 1 {
				st.mon["g:named"] = s[0]
				if st.mon["g:new"] == s[0] {
					delete(st.mon, "g:new")
				}
			}
		}
		mutate(x, st, what, target, val, in)
	}
}

// elemsOf are the elements of a small list made for one call.
func (x *Exec) elemsOf(st *State, v *V) []*V {
	if v.k != KSlice || st.heap[v.args[0]] == nil {
		return nil
	}
	o := st.heap[v.args[0]]
	n, ok := o.lengthConst()
	if !ok || n > 4 {
		return nil
	}
	var out []*V
	for i := int64(0); i < n; i++ {
		c := o.cells[fmt.Sprintf("[%d]", i)]
		if c == nil {
			return nil
		}
		out = append(out, c)
	}
	return out
}

// looked is what was found in m under k before.
func (x *Exec) looked(st *State, m, k *V) []*V {
	var out []*V
	for _, f := range st.frames {
		for v, val := range f.env {
			l, ok := v.(*ssa.Lookup)
			if !ok || f.env[l.X] == nil && !isGlobalOrConst(l.X) {
				continue
			}
			if x.evalIn(st, f, l.X) != m || x.evalIn(st, f, l.Index) != k {
				continue
			}
			if l.CommaOk && val.k == KTuple {
				val = val.args[0]
			}
			out = append(out, val)
		}
	}
	return out
}

func isGlobalOrConst(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global:
		return true
	}
	return false
}

func (x *Exec) evalIn(st *State, f *Frame, v ssa.Value) *V {
	if r := f.env[v]; r != nil {
		return r
	}
	if c, ok := v.(*ssa.Const); ok {
		return x.eval(st, c)
	}
	return nil
}

// absent tells whether there is nothing under k yet.
func (w *wholeSpec) absent(x *Exec, st *State, m, k *V) (yes, known bool) {
	if b, ok := x.simplify(st, mkApp("in", types.Typ[types.Bool], m, k)).boolConst(); ok {
		return !b, true
	}
	if m.k == KMap {
		if ob := st.heap[m.args[0]]; ob != nil && ob.summary == nil && len(ob.cells) == 0 {
			if n, ok := ob.lengthConst(); ok && n == 0 {
				return true, true
			}
		}
	}
	for _, l := range x.looked(st, m, k) {
		if l.isNilConst() || x.shape(st, l).Nil == 1 {
			return true, true
		}
		if b, ok := x.simplify(st, less(mkInt(0), x.length(st, l))).boolConst(); ok {
			return !b, true
		}
		if x.shape(st, l).Nil == 2 {
			return false, true
		}
	}
	return false, false
}

// groupUpdate: the group of a name is kept.
func (w *wholeSpec) groupUpdate(x *Exec, st *State, m, val *V, in ssa.Instruction) {
	mu, ok := in.(*ssa.MapUpdate)
	pos := x.p.instrPos(in)
	if !ok {
		return
	}
	k := x.eval(st, mu.Key)
	absent, known := w.absent(x, st, m, k)
	key := "groups kept in " + x.root
	s := x.seqOf(st, val)
	switch {
	case known && absent:
		w.rep.check(true, key, pos, x.root, "")
	case s == nil:
		w.rep.undecided(x.root, pos, "what is kept under a name is not known")
	default:
		before := x.looked(st, m, k)
		kept, spread := false, false
		for _, q := range s.args {
			if q.op != "spread" {
				continue
			}
			spread = true
			for _, l := range before {
				e := q.args[0]
				for e.k == KApp && e.op == "clip" {
					e = e.args[0]
				}
				kept = kept || e == l
			}
		}
		if !kept && spread {
			w.rep.undecided(x.root, pos, "what is kept under a name is not known")
		} else {
			w.rep.check(kept, key, pos, x.root, "what was kept under the same name is replaced, so that it is lost")
		}
	}
	if known && !absent {
		return
	}
	if named := st.mon["g:named"]; named == k {
		return
	}
	if known {
		st.mon["g:new"] = k
	}
}

// groupEnd: a new name was noted.
func (w *wholeSpec) groupEnd(x *Exec, st *State, fn *ssa.Function, pos string) {
	n := st.mon["g:new"]
	noted := false
	for _, v := range []string{"g:new", "g:named"} {
		noted = noted || v == "g:named" && st.mon[v] != nil
		delete(st.mon, v)
	}
	names := false
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		names = names || isStrings(fn.Signature.Results().At(i).Type())
	}
	if !names {
		return
	}
	key := "names of groups in " + x.root
	if n != nil {
		w.rep.check(false, key, pos, x.root, "a group is kept whose name is not noted, so that it is not rendered")
	} else if noted {
		w.rep.check(true, key, pos, x.root, "")
	}
}
