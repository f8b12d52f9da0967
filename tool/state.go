package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shape is what is known about an unknown value.
type Shape struct {
	Nil    uint8 // 1: may be nil, 2: may be non-nil
	Kind   uint8 // for nodes: 1: may be an attribute, 2: may be something else
	Raw    uint16
	Shared bool // may refer to memory that was not allocated by the analysed run
	Exact  bool // slices: capacity is known to equal length
	B      int8 // booleans: 0 unknown, 1 true, 2 false
	Lo, Hi int64
	Dyn    types.Type   // known dynamic type
	NotDyn []types.Type // excluded types
	Is     []types.Type // interfaces it is known to implement
	Eq     *V           // known equal to this constant
	Name   *V           // nodes: what Name() returns
	Elem   *Shape       // elements of slices, values of maps (nil: there are none)
	Flags  uint32
	bot    bool
}

const rawAll = 0x7f // < > & " ' NUL, and bit 6: not quoted for Go source
const rawHTML = 0x3f
const rawGo = 0x40

const (
	flagMapOrder uint32 = 1 << iota // element order depends on map iteration
	flagClean                       // monitor specific
	flagUser
)

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func topShape(t types.Type, depth int) *Shape {
	s := &Shape{Nil: 3, Kind: 3, Shared: true, Lo: math.MinInt64, Hi: math.MaxInt64}
	if t == nil {
		return s
	}
	if _, ok := t.(*types.TypeParam); ok {
		return s
	}
	if !nillable(t) {
		s.Nil = 2
	}
	if isStringType(t) {
		s.Raw = rawAll
	}
	if depth > 0 {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s.Elem = topShape(u.Elem(), depth-1)
		case *types.Map:
			s.Elem = topShape(u.Elem(), depth-1)
		case *types.Array:
			s.Elem = topShape(u.Elem(), depth-1)
		}
	}
	return s
}

func (s *Shape) clone() *Shape {
	n := *s
	return &n
}

func tkey(t types.Type) string {
	if t == nil {
		return ""
	}
	return typeKey(t)
}

func (s *Shape) key(sb *strings.Builder) {
	if s == nil {
		sb.WriteByte('_')
		return
	}
	fmt.Fprintf(sb, "%d.%d.%d.%v.%v.%d.%d.%d.%s.%d(", s.Nil, s.Kind, s.Raw, s.Shared, s.Exact, s.B, s.Lo, s.Hi, tkey(s.Dyn), s.Flags)
	if len(s.NotDyn) > 0 {
		ks := []string{}
		for _, t := range s.NotDyn {
			ks = append(ks, tkey(t))
		}
		sort.Strings(ks)
		sb.WriteString("N" + strings.Join(ks, "+"))
	}
	if len(s.Is) > 0 {
		ks := []string{}
		for _, t := range s.Is {
			ks = append(ks, tkey(t))
		}
		sort.Strings(ks)
		sb.WriteString("I" + strings.Join(ks, "+"))
	}
	if s.Eq != nil {
		sb.WriteString("E" + strconv.Itoa(s.Eq.id))
	}
	if s.Name != nil {
		sb.WriteString("M" + strconv.Itoa(s.Name.id))
	}
	if s.Elem != nil {
		s.Elem.key(sb)
	}
	sb.WriteByte(')')
}

func (s *Shape) keyStr() string {
	var sb strings.Builder
	s.key(&sb)
	return sb.String()
}

func hasType(l []types.Type, t types.Type) bool {
	for _, x := range l {
		if types.Identical(x, t) {
			return true
		}
	}
	return false
}

func joinShape(a, b *Shape) *Shape {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	r := &Shape{
		Nil: a.Nil | b.Nil, Kind: a.Kind | b.Kind, Raw: a.Raw | b.Raw,
		Shared: a.Shared || b.Shared, Exact: a.Exact && b.Exact,
		Lo: min(a.Lo, b.Lo), Hi: max(a.Hi, b.Hi), Flags: a.Flags | b.Flags,
	}
	if a.B == b.B {
		r.B = a.B
	}
	if a.Dyn != nil && b.Dyn != nil && types.Identical(a.Dyn, b.Dyn) {
		r.Dyn = a.Dyn
	}
	for _, t := range a.NotDyn {
		if hasType(b.NotDyn, t) || (b.Dyn != nil && !types.Identical(b.Dyn, t)) {
			r.NotDyn = append(r.NotDyn, t)
		}
	}
	for _, t := range b.NotDyn {
		if !hasType(r.NotDyn, t) && a.Dyn != nil && !types.Identical(a.Dyn, t) {
			r.NotDyn = append(r.NotDyn, t)
		}
	}
	for _, t := range a.Is {
		if hasType(b.Is, t) {
			r.Is = append(r.Is, t)
		}
	}
	if a.Eq == b.Eq {
		r.Eq = a.Eq
	}
	if a.Name == b.Name {
		r.Name = a.Name
	}
	r.Elem = joinShape(a.Elem, b.Elem)
	// a nil value has no kind, type or elements of its own
	if a.Nil == 1 && b.Nil != 1 {
		r.Kind, r.Raw, r.Dyn, r.Is, r.Name, r.NotDyn = b.Kind, b.Raw, nil, b.Is, b.Name, nil
		r.Shared, r.Exact, r.Flags = b.Shared, b.Exact, b.Flags
	} else if b.Nil == 1 && a.Nil != 1 {
		r.Kind, r.Raw, r.Dyn, r.Is, r.Name, r.NotDyn = a.Kind, a.Raw, nil, a.Is, a.Name, nil
		r.Shared, r.Exact, r.Flags = a.Shared, a.Exact, a.Flags
	}
	return r
}

func (s *Shape) mapVals(f func(*V) *V) *Shape {
	if s == nil || (s.Name == nil && s.Eq == nil && s.Elem == nil) {
		return s
	}
	n := *s
	if n.Name != nil {
		n.Name = f(n.Name)
	}
	if n.Eq != nil {
		n.Eq = f(n.Eq)
	}
	n.Elem = n.Elem.mapVals(f)
	return &n
}

func (s *Shape) values(f func(*V)) {
	for s != nil {
		if s.Name != nil {
			f(s.Name)
		}
		s = s.Elem
	}
}

// Obj is an abstract object.
type Obj struct {
	typ       types.Type // type of the object (pointee, array, map)
	cells     map[string]*V
	summary   *Shape // elements not in cells (slices, maps)
	length    *V
	ver       *V
	kind      string // "alloc", "slice", "map", "ctx", "own"
	published bool
	zero      bool // cells that are missing hold zero values
	mapOrder  bool
	big       bool // a map with too many known keys to keep
}

func (o *Obj) clone() *Obj {
	n := *o
	n.cells = make(map[string]*V, len(o.cells))
	for k, v := range o.cells {
		n.cells[k] = v
	}
	return &n
}

type deferred struct {
	fn   *V
	args []*V
	call ssa.CallInstruction
}

// Frame is an activation of a function.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*V
	bind   []*V
	ctx    string
	defers []deferred
	call   ssa.Instruction // call site in the caller
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*V, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

// State is an abstract machine state.
type State struct {
	frames []*Frame
	heap   map[*V]*Obj
	facts  map[*V]*Shape
	mon    map[string]*V
	trail  *Trail
}

// Trail records how a state came about, for reports only.
type Trail struct {
	prev *Trail
	pos  string
	n    int
}

func (st *State) clone() *State {
	n := &State{
		frames: make([]*Frame, len(st.frames)),
		heap:   make(map[*V]*Obj, len(st.heap)),
		facts:  make(map[*V]*Shape, len(st.facts)),
		mon:    make(map[string]*V, len(st.mon)),
		trail:  st.trail,
	}
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	for k, o := range st.heap {
		n.heap[k] = o.clone()
	}
	for k, s := range st.facts {
		n.facts[k] = s
	}
	for k, v := range st.mon {
		n.mon[k] = v
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// each visits every live value of the state.
func (st *State) each(f func(*V)) {
	for _, fr := range st.frames {
		for _, v := range fr.env {
			f(v)
		}
		for _, v := range fr.bind {
			f(v)
		}
		for _, d := range fr.defers {
			f(d.fn)
			for _, a := range d.args {
				f(a)
			}
		}
	}
	for _, o := range st.heap {
		for _, v := range o.cells {
			f(v)
		}
		if o.length != nil {
			f(o.length)
		}
		if o.ver != nil {
			f(o.ver)
		}
		o.summary.values(f)
	}
	for _, v := range st.mon {
		f(v)
	}
}

// rename substitutes leaves everywhere in the state.
func (st *State) rename(m map[*V]*V) {
	memo := map[*V]*V{}
	f := func(v *V) *V { return subst(v, m, memo) }
	for _, fr := range st.frames {
		for k, v := range fr.env {
			fr.env[k] = f(v)
		}
		if len(fr.bind) > 0 {
			nb := make([]*V, len(fr.bind))
			for i, v := range fr.bind {
				nb[i] = f(v)
			}
			fr.bind = nb
		}
		for i, d := range fr.defers {
			nd := deferred{fn: f(d.fn), call: d.call}
			for _, a := range d.args {
				nd.args = append(nd.args, f(a))
			}
			fr.defers[i] = nd
		}
	}
	heap := make(map[*V]*Obj, len(st.heap))
	for k, o := range st.heap {
		for p, v := range o.cells {
			o.cells[p] = f(v)
		}
		if o.length != nil {
			o.length = f(o.length)
		}
		if o.ver != nil {
			o.ver = f(o.ver)
		}
		o.summary = o.summary.mapVals(f)
		heap[f(k)] = o
	}
	st.heap = heap
	facts := make(map[*V]*Shape, len(st.facts))
	for k, s := range st.facts {
		nk := f(k)
		if nk.k == KConst {
			continue
		}
		facts[nk] = s.mapVals(f)
	}
	st.facts = facts
	for k, v := range st.mon {
		st.mon[k] = f(v)
	}
}

func (st *State) mentions(l *V) bool {
	found := false
	st.each(func(v *V) {
		if !found && v.hasLeaf(l) {
			found = true
		}
	})
	if found {
		return true
	}
	if _, ok := st.heap[l]; ok {
		return true
	}
	return false
}

// fresh prepares leaf l for redefinition: whatever still refers to its previous value refers to an
// "old" leaf from now on (about which only joint facts are kept).
func (st *State) fresh(l *V) {
	if !st.mentions(l) {
		for k := range st.facts {
			if k.hasLeaf(l) {
				delete(st.facts, k)
			}
		}
		return
	}
	old := *l
	old.op = l.op + "~"
	old.leaves, old.id = nil, 0
	ov := mk(old)
	if st.mentions(ov) {
		for k := range st.facts {
			if k.hasLeaf(ov) {
				delete(st.facts, k)
			}
		}
		if oo, ok := st.heap[ov]; ok {
			// two objects of the same site stay alive: merge them
			no := st.heap[l]
			if no != nil {
				st.heap[l] = mergeObj(oo, no)
			}
		}
		for k := range st.facts {
			if k.hasLeaf(l) {
				delete(st.facts, k)
			}
		}
	}
	st.rename(map[*V]*V{l: ov})
}

func mergeObj(a, b *Obj) *Obj {
	n := &Obj{typ: a.typ, cells: map[string]*V{}, kind: a.kind, big: a.big || b.big, published: a.published || b.published, mapOrder: a.mapOrder || b.mapOrder}
	for k, v := range a.cells {
		if b.cells[k] == v {
			n.cells[k] = v
		}
	}
	n.zero = a.zero && b.zero
	if n.zero {
		// differing or one-sided cells become unknown
		for k := range a.cells {
			if _, ok := n.cells[k]; !ok {
				n.zero = false
			}
		}
		for k := range b.cells {
			if _, ok := n.cells[k]; !ok {
				n.zero = false
			}
		}
	}
	n.summary = joinShape(a.summary, b.summary)
	if a.length == b.length {
		n.length = a.length
	}
	return n
}

// key is the canonical key of the state (two states with equal keys are equal).
func (st *State) key() string { return st.keyNoFacts() + st.factsKey() }

func (st *State) keyNoFacts() string {
	var sb strings.Builder
	for _, fr := range st.frames {
		type rv struct {
			n string
			v int
		}
		var l []rv
		for k, v := range fr.env {
			l = append(l, rv{k.Name(), v.id})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
		sb.WriteString(fr.ctx)
		sb.WriteByte('{')
		for _, e := range l {
			sb.WriteString(e.n)
			sb.WriteByte(':')
			sb.WriteString(strconv.Itoa(e.v))
			sb.WriteByte(' ')
		}
		for _, b := range fr.bind {
			sb.WriteString("b" + strconv.Itoa(b.id))
		}
		for _, d := range fr.defers {
			sb.WriteString("d" + strconv.Itoa(d.fn.id))
		}
		sb.WriteByte('}')
	}
	var objs []*V
	for k := range st.heap {
		objs = append(objs, k)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, k := range objs {
		o := st.heap[k]
		sb.WriteString("O" + strconv.Itoa(k.id))
		var ps []string
		for p := range o.cells {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			sb.WriteString(p + "=" + strconv.Itoa(o.cells[p].id) + ";")
		}
		if o.summary != nil {
			o.summary.key(&sb)
		}
		if o.length != nil {
			sb.WriteString("L" + strconv.Itoa(o.length.id))
		}
		if o.ver != nil {
			sb.WriteString("V" + strconv.Itoa(o.ver.id))
		}
		if o.published {
			sb.WriteByte('P')
		}
		if o.zero {
			sb.WriteByte('Z')
		}
		if o.mapOrder {
			sb.WriteByte('M')
		}
		if o.big {
			sb.WriteByte('B')
		}
	}
	var mk []string
	for k := range st.mon {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		sb.WriteString("M" + k + "=" + strconv.Itoa(st.mon[k].id))
	}
	return sb.String()
}

// gc drops unreachable objects and useless facts.
func (st *State) gc(stable func(*V) bool, pins []*V) {
	live := map[*V]bool{}
	var work []*V
	add := func(v *V) {
		for _, l := range v.leaves {
			if !live[l] {
				live[l] = true
				if l.k == KObj {
					work = append(work, l)
				}
			}
		}
	}
	for _, fr := range st.frames {
		for _, v := range fr.env {
			add(v)
		}
		for _, v := range fr.bind {
			add(v)
		}
		for _, d := range fr.defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for _, v := range st.mon {
		add(v)
	}
	for _, p := range pins {
		add(p)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		ob := st.heap[o]
		if ob == nil {
			continue
		}
		for _, v := range ob.cells {
			add(v)
		}
		if ob.length != nil {
			add(ob.length)
		}
		if ob.ver != nil {
			add(ob.ver)
		}
		ob.summary.values(add)
	}
	for k := range st.heap {
		if !live[k] {
			delete(st.heap, k)
		}
	}
	for k := range st.facts {
		for _, l := range k.leaves {
			if !live[l] && !stable(l) {
				delete(st.facts, k)
				break
			}
		}
	}
}

// orZero adds the zero value of a boolean, number or text.
func (s *Shape) orZero() {
	if s.B == 1 {
		s.B = 0
	}
	s.Lo, s.Hi = min(s.Lo, 0), max(s.Hi, 0)
	s.Eq = nil
}
