package main

import (
	"fmt"
	"math"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Facts seg(b,lo,hi) bound the special characters that text b can hold between two offsets.  They are
// built up while a loop inspects b character by character.

const rawFull = rawAll

func baseText(v *V) *V {
	for v.k == KApp && (v.op == "bytes" || v.op == "string") {
		v = v.args[0]
	}
	return v
}

// charTerm splits a term that reads one character of a text.
func charTerm(v *V) (b, i *V, ok bool) {
	if v.k != KApp {
		return
	}
	switch {
	case v.op == "*" && v.args[0].k == KApp && v.args[0].op == "[]":
		a := v.args[0]
		if isByteSlice(a.args[0].typ) || isStringType(a.args[0].typ) {
			return baseText(a.args[0]), a.args[1], true
		}
	case v.op == "idx" && isIntType(v.typ):
		return baseText(v.args[0]), v.args[1], true
	}
	return
}

func mkSeg(b, lo, hi *V) *V { return mkApp("seg", types.Typ[types.Bool], b, lo, hi) }

// segStep extends the segments by the characters that have been looked at.
func (x *Exec) segStep(st *State) {
	elems := map[*V]bool{}
	seen := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if seen[v] {
			return
		}
		seen[v] = true
		if _, _, ok := charTerm(v); ok {
			elems[v] = true
		}
		for _, a := range v.args {
			walk(a)
		}
	}
	for k := range st.facts {
		walk(k)
	}
	if len(elems) == 0 {
		return
	}
	lows := x.liveInts(st)
	type upd struct {
		k   *V
		raw uint16
	}
	var ups []upd
	var dead []*V
	for e := range elems {
		raw := x.charRaw(st, e)
		if raw == rawFull {
			continue
		}
		b, i, _ := charTerm(e)
		for k, s := range st.facts {
			if k.k == KApp && k.op == "seg" && k.args[0] == b && k.args[2] == i {
				ups = append(ups, upd{mkSeg(b, k.args[1], addc(i, 1)), s.Raw | raw})
				dead = append(dead, k)
			}
		}
		for l := range lows {
			if l == i {
				ups = append(ups, upd{mkSeg(b, l, addc(i, 1)), raw})
			}
		}
	}
	for _, k := range dead {
		delete(st.facts, k)
	}
	for _, u := range ups {
		if _, ok := st.facts[u.k]; !ok {
			x.setSeg(st, u.k, u.raw)
		}
	}
}

func (x *Exec) setSeg(st *State, k *V, raw uint16) {
	s := topShape(k.typ, 0)
	s.Raw = raw
	st.facts[k] = s
}

func (x *Exec) liveInts(st *State) map[*V]bool {
	m := map[*V]bool{}
	if x.slicesFromStart(st.top().fn) {
		m[mkInt(0)] = true
	}
	for r, v := range st.top().env {
		if isIntType(v.typ) {
			if ph, ok := r.(*ssa.Phi); ok && onlySteps(ph) {
				continue
			}
			m[v] = true
		}
	}
	return m
}

// slicesFromStart reports whether fn takes a prefix of a text.
func (x *Exec) slicesFromStart(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Slice); ok && (isStringType(s.X.Type()) || isByteSlice(s.X.Type())) {
				c, ok := s.Low.(*ssa.Const)
				if s.High != nil && (s.Low == nil || ok && c.Value != nil && c.Int64() == 0) {
					return true
				}
			}
		}
	}
	return false
}

// segGeneral carries segments over when the constant c becomes symbol sym.
func (x *Exec) segGeneral(st *State, v, sym *V) {
	bs := map[*V]bool{}
	for k := range st.facts {
		if k.k == KApp && k.op == "seg" {
			bs[k.args[0]] = true
		}
		if k.k == KApp && k.op == "==" {
			if b, _, ok := charTerm(k.args[0]); ok {
				bs[b] = true
			}
		}
		if b, _, ok := charTerm(k); ok {
			bs[b] = true
		}
	}
	c, ok := v.intConst()
	if !ok {
		for k, s := range st.facts {
			if k.k == KApp && k.op == "seg" && k.args[1] == v {
				x.setSeg(st, mkSeg(k.args[0], sym, k.args[2]), s.Raw)
			}
		}
		for b := range bs {
			if _, ok := st.facts[mkSeg(b, sym, v)]; !ok {
				x.setSeg(st, mkSeg(b, sym, v), 0)
			}
		}
		return
	}
	for b := range bs {
		for l := range x.liveInts(st) {
			for d := int64(0); d < 2; d++ {
				if s, ok := st.facts[mkSeg(b, l, mkInt(c+d))]; ok {
					x.setSeg(st, mkSeg(b, l, addc(sym, d)), s.Raw)
				} else if n, ok := l.intConst(); ok && n == c+d {
					x.setSeg(st, mkSeg(b, l, addc(sym, d)), 0)
				}
			}
		}
	}
}

// segRaw is the mask of b[lo:hi].
func (x *Exec) segRaw(st *State, b, lo, hi *V) uint16 {
	all := x.shape(st, b).Raw
	b = baseText(b)
	if lo.isNilConst() {
		lo = mkInt(0)
	}
	if lo == hi {
		return 0
	}
	if l, ok := lo.intConst(); ok && l != 0 {
		if h, ok := hi.intConst(); ok && h <= l {
			return 0
		}
	}
	for k, s := range st.facts {
		if k.k == KApp && k.op == "seg" && k.args[0] == b && k.args[1] == lo {
			if k.args[2] == hi {
				all &= s.Raw
				continue
			}
			if hi.isNilConst() {
				if c, ok := x.simplify(st, less(k.args[2], mkLen(b))).boolConst(); ok && !c {
					all &= s.Raw
				}
			} else if c, ok := x.simplify(st, less(k.args[2], hi)).boolConst(); ok && !c {
				all &= s.Raw
			}
		}
	}
	if hi.isNilConst() {
		if c, ok := x.simplify(st, less(lo, mkLen(b))).boolConst(); ok && !c {
			return 0
		}
	}
	return all
}

// segClose notes the segments that are known to reach the end of their text.
func (x *Exec) segClose(st *State) {
	var add []*V
	for k := range st.facts {
		if k.k == KApp && k.op == "seg" && k.args[2].k != KConst {
			l := mkLen(k.args[0])
			if k.args[2] == l {
				continue
			}
			if c, ok := x.simplify(st, less(k.args[2], l)).boolConst(); ok && !c {
				add = append(add, k)
			}
		}
	}
	for _, k := range add {
		n := mkSeg(k.args[0], k.args[1], mkLen(k.args[0]))
		s := st.facts[k]
		if o, ok := st.facts[n]; !ok || o.Raw&s.Raw != o.Raw {
			r := s.Raw
			if ok {
				r &= o.Raw
			}
			x.setSeg(st, n, r)
		}
	}
	// what is known about all of a text
	zero := mkInt(0)
	raws := map[*V]uint16{}
	for k, f := range st.facts {
		switch {
		case k.k != KApp:
		case k.op == "seg" && k.args[1] == zero && k.args[2] == mkLen(k.args[0]):
			raws[k.args[0]] = f.Raw
		case k.op == "len" && f.Hi <= 0:
			raws[baseText(k.args[0])] = 0
		}
	}
	for b, raw := range raws {
		if b.typ != nil && (isStringType(b.typ) || isByteSlice(b.typ)) && x.shape(st, b).Raw&^raw != 0 {
			x.refine(st, b, func(s *Shape) { s.Raw &= raw })
		}
	}
	// nothing is left of a text from its end on
	for l := range x.liveInts(st) {
		for k := range st.facts {
			if b, i := endCompare(k); b != nil && i != nil && i.k != KConst {
				if l == i {
					if c, ok := x.simplify(st, less(l, mkLen(b))).boolConst(); ok && !c {
						x.setSeg(st, mkSeg(b, l, mkLen(b)), 0)
					}
				}
			}
		}
	}
}

// endCompare splits a comparison of an offset with the length of a text.
func endCompare(k *V) (b, i *V) {
	if k.k != KApp || k.op != "<" {
		return nil, nil
	}
	n, o := splitOff(k.args[1])
	if n == nil || n.k != KApp || n.op != "len" || k.args[0].k == KConst {
		return nil, nil
	}
	return n.args[0], addc(k.args[0], -o)
}

// segPrune drops segments that nothing live starts at.
func (x *Exec) segPrune(st *State) {
	lows := x.liveInts(st)
	for k := range st.facts {
		if k.k == KApp && k.op == "seg" && !lows[k.args[1]] {
			delete(st.facts, k)
		}
	}
}

// widenCells makes the values that memory accumulates over the iterations of a loop finite.
func (x *Exec) widenCells(st *State, b *ssa.BasicBlock) {
	for ov, o := range st.heap {
		if o.kind == "ctx" {
			continue
		}
		for k, v := range o.cells {
			if strings.HasPrefix(k, "[") {
				continue
			}
			key := fmt.Sprintf("%p%s%s", b, ov.op, k)
			if v.k == KApp && v.op == "substr" && v.args[0].k == KSym && x.seenVals(key+"/first", v) <= 1 {
				continue // not known to change
			}
			if o.kind == "own" && x.widenEnd(st, ov, k, v, ov.op+k, key) {
				continue
			}
			if n := x.widen(st, v, ov.op+k+"#acc", key); n != v {
				st.heap[ov].cells[k] = n
				continue
			}
			if v.typ == nil || v.isConst() || isIntType(v.typ) || isStringType(v.typ) || isByteSlice(v.typ) && v.k == KSym || o.kind == "own" && !resliced(v) {
				continue
			}
			name := ov.op + k + "#any"
			lim := 2
			if x.h.KeepCtx && x.isCtxObj(o) {
				lim = 12
			}
			if v.k == KSym && v.op == name || x.seenVals(key+"/", v) <= lim {
				continue
			}
			sh := x.general1(st, v)
			sym := mkSym(name, v.typ)
			st.fresh(sym)
			st.facts[sym] = sh
			st.heap[ov].cells[k] = sym
		}
	}
}

// widenEnd makes the end of a list that gets shorter from iteration to iteration unknown.
func (x *Exec) widenEnd(st *State, ov *V, k string, v *V, name, key string) bool {
	if v.k != KApp || v.op != "slice" || v.args[2].isNilConst() || v.args[2].k == KSym {
		return false
	}
	hi, lim := v.args[2], 4
	if x.h.Peel > 0 {
		lim = x.h.Peel - 1
	}
	if _, ok := hi.intConst(); ok || x.seenVals(key+"/end", hi) <= lim {
		return false
	}
	sym := mkSym(name+"#drift", types.Typ[types.Int])
	f := topShape(sym.typ, 0)
	f.Lo = threshold(x.shape(st, hi).Lo)
	base, lo, mx := v.args[0], v.args[1], v.args[3]
	st.mon["$widen"] = hi
	st.fresh(sym)
	hi = st.mon["$widen"]
	delete(st.mon, "$widen")
	st.facts[sym] = f
	x.relateIdx(st, hi, sym, nil)
	st.heap[ov].cells[k] = mkApp("slice", v.typ, base, lo, sym, mx)
	return true
}

// widenDepth gives up a count that a monitor keeps and that moves away from what it was counted by.
func (x *Exec) widenDepth(st *State, b *ssa.BasicBlock) {
	m := st.mon["g:depth"]
	if m == nil {
		return
	}
	base, off := splitOff(m)
	name := "g:depth#drift"
	if base == nil {
		name = "g:depth#lost"
	}
	if base != nil && base.k == KSym && strings.HasPrefix(base.op, "g:depth#") && off == 0 {
		return
	}
	if off >= -4 && off <= 8 {
		return
	}
	lo := threshold(x.shape(st, m).Lo)
	sym := mkSym(name, types.Typ[types.Int])
	st.fresh(sym)
	f := topShape(sym.typ, 0)
	f.Lo = lo
	st.facts[sym] = f
	st.mon["g:depth"] = sym
}

// resliced: v is a part of a part of a slice.
func resliced(v *V) bool {
	return v.k == KApp && v.op == "slice" && v.args[0].k == KApp && v.args[0].op == "slice"
}

// widen replaces v by an unknown value when it grows from iteration to iteration.
func (x *Exec) widen(st *State, v *V, name, key string) *V {
	t := v.typ
	switch {
	case isStringType(t), isByteSlice(t), strings.Contains(name, "$text"):
		if v.k == KSym {
			return v
		}
		grown := v.k == KApp && (v.op == "cat" || v.op == "slice" || v.op == "substr" || v.op == "bytes" && (v.args[0].k == KApp && v.args[0].op == "cat"))
		if !grown {
			if v.k == KApp && v.op != "bytes" && v.op != "gbytes" {
				return v
			}
			if x.seenVals(key, v) <= 2 {
				return v
			}
		}
		return x.collapse(st, v, name)
	case isIntType(t):
		if v.k == KSym || x.seenVals(key, v) <= 4 {
			return v
		}
		sh := x.shape(st, v)
		sym := mkSym(name, t)
		st.mon["$widen"] = v
		st.fresh(sym)
		old := st.mon["$widen"]
		delete(st.mon, "$widen")
		f := topShape(t, 0)
		f.Lo = threshold(sh.Lo)
		st.facts[sym] = f
		x.relate(st, old, sym)
		x.segGeneral(st, old, sym)
		return sym
	}
	return v
}

func threshold(lo int64) int64 {
	switch {
	case lo >= 1:
		return 1
	case lo >= 0:
		return 0
	case lo >= -1:
		return -1
	}
	return math.MinInt64
}

// seenVals counts the different values that have arrived at a loop header.
func (x *Exec) seenVals(key string, v *V) int {
	m := x.hdrVals[key]
	if m == nil {
		m = map[*V]bool{}
		x.hdrVals[key] = m
	}
	m[v] = true
	return len(m)
}

// relate rewrites what monitors know in terms of old (equal to sym) in terms of sym.
func (x *Exec) relate(st *State, old, sym *V) {
	ob, oo := splitOff(old)
	for k, m := range st.mon {
		mb, mo := splitOff(m)
		if isIntType(m.typ) && mb == ob {
			st.mon[k] = addc(sym, mo-oo)
		}
	}
}

// relateIdx does the same for the positions in lists that monitors keep.
func (x *Exec) relateIdx(st *State, old, sym *V, ph *ssa.Phi) {
	ob, oo := splitOff(old)
	for k, m := range st.mon {
		if !strings.HasPrefix(k, "i:") {
			continue
		}
		if ph != nil && x.h.Related != nil && !x.h.Related(x, st, k, ph) {
			continue
		}
		if mb, mo := splitOff(m); isIntType(m.typ) && mb == ob {
			st.mon[k] = addc(sym, mo-oo)
		}
	}
}

// collapse replaces text built up over earlier iterations by an unknown text with the same characters.
func (x *Exec) collapse(st *State, v *V, name string) *V {
	if v.k == KSym {
		return v
	}
	if s, ok := v.strConst(); ok && s == "" {
		return v
	}
	t := v.typ
	if t == nil {
		t = types.Typ[types.String]
	}
	sh := x.shape(st, v)
	ln := x.length(st, v)
	lo := threshold(x.shape(st, ln).Lo)
	sym := mkSym(name, t)
	l := mkLen(sym)
	st.mon["$widen"] = ln
	st.fresh(sym)
	ln = st.mon["$widen"]
	delete(st.mon, "$widen")
	if x.h.PreciseLen {
		x.relate(st, ln, l)
	}
	s := topShape(t, 0)
	s.Raw, s.Nil = sh.Raw, 2
	if isByteSlice(t) {
		s.Nil, s.Shared = sh.Nil, sh.Shared
	}
	st.facts[sym] = s
	f := topShape(types.Typ[types.Int], 0)
	f.Lo = max(0, lo)
	st.facts[l] = f
	return sym
}
