package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Determinism (C04): nothing that differs between two runs with equal inputs reaches the output. The
// sources of such differences are the order in which a map is iterated, time, randomness, addresses and
// the scheduler. What a loop over a map does is followed: it may not write or render, and slices built in
// it are in an unknown order until they are sorted by a total order; loops over such slices count as
// loops over the map.

// natLoop is a natural loop.
type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func loopsOf(fn *ssa.Function) []*natLoop {
	byHead := map[*ssa.BasicBlock]*natLoop{}
	var out []*natLoop
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byHead[h]
			if l == nil {
				l = &natLoop{h, map[*ssa.BasicBlock]bool{h: true}}
				byHead[h] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[c] {
					continue
				}
				l.blocks[c] = true
				work = append(work, c.Preds...)
			}
		}
	}
	return out
}

func innermost(ls []*natLoop, b *ssa.BasicBlock) *natLoop {
	var best *natLoop
	for _, l := range ls {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}

type detCheck struct {
	p     *Prog
	rep   *Report
	loops map[*ssa.Function][]*natLoop
	maps  map[*ssa.Function]map[*natLoop]bool
}

// isMapRange: the instruction steps an iteration over a map.
func isMapStep(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Next:
		if in.IsString {
			return false
		}
		r, ok := in.Iter.(*ssa.Range)
		if !ok {
			return true
		}
		_, ok = r.X.Type().Underlying().(*types.Map)
		return ok
	case *ssa.Call:
		g := in.Call.StaticCallee()
		return g != nil && extName(g) == "(*reflect.MapIter).Next"
	}
	return false
}

func (d *detCheck) of(fn *ssa.Function) ([]*natLoop, map[*natLoop]bool) {
	if ls, ok := d.loops[fn]; ok {
		return ls, d.maps[fn]
	}
	ls := loopsOf(fn)
	m := map[*natLoop]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if isMapStep(in) {
				if l := innermost(ls, b); l != nil {
					m[l] = true
				}
			}
		}
	}
	d.loops[fn], d.maps[fn] = ls, m
	return ls, m
}

// place is a loop in map order that an instruction runs in.
type place struct {
	frame int
	loop  *natLoop // nil: the frame is the body of an iterator function
	at    ssa.Instruction
}

func loopKey(frame int, l *natLoop) string {
	return fmt.Sprintf("order:%d:%s#%d", frame, l.header.Parent().String(), l.header.Index)
}

// iterCall: calling v runs a function for every element of a map.
func iterOverMap(st *State, f *Frame, call ssa.Instruction) bool {
	c, ok := call.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := c.Common()
	if g := cc.StaticCallee(); g != nil && g.Parent() == nil {
		return extName(g) == "(*sync.Map).Range"
	}
	v := f.env[cc.Value]
	return v != nil && v.k == KApp && (v.op == "iter:maps.Keys" || v.op == "iter:maps.Values" || v.op == "iter:maps.All")
}

// where finds the innermost loop in map order around in.
func (d *detCheck) where(x *Exec, st *State, in ssa.Instruction) *place {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		cur := in
		if i < len(st.frames)-1 {
			cur = st.frames[i+1].call
		}
		if cur == nil || cur.Block() == nil || cur.Parent() != f.fn {
			continue
		}
		ls, ms := d.of(f.fn)
		var best *natLoop
		for _, l := range ls {
			if !l.blocks[cur.Block()] || best != nil && len(best.blocks) < len(l.blocks) {
				continue
			}
			if ms[l] || st.mon[loopKey(i, l)] != nil {
				best = l
			}
		}
		if best != nil {
			return &place{i, best, cur}
		}
		if i > 0 && f.call != nil && iterOverMap(st, st.frames[i-1], f.call) {
			return &place{i, nil, cur}
		}
	}
	return nil
}

// derived: v depends on the element of the iteration pl.
func (d *detCheck) derived(st *State, pl *place, fi int, v ssa.Value) bool {
	return d.reach(st, pl, fi, v, map[ssa.Value]bool{}, func(fi int, v ssa.Value) (bool, bool) {
		if fi == pl.frame {
			if pl.loop == nil {
				if _, ok := v.(*ssa.Parameter); ok {
					return true, true
				}
				return false, false
			}
			in, ok := v.(ssa.Instruction)
			if !ok || !pl.loop.blocks[in.Block()] {
				return true, false
			}
			if isMapStep(in) {
				return true, true
			}
			if c, ok := v.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && strings.HasPrefix(extName(g), "(*reflect.MapIter).") {
					return true, true
				}
			}
			if ia, ok := v.(*ssa.IndexAddr); ok && st.mon[loopKey(pl.frame, pl.loop)] != nil {
				_, isPhi := ia.Index.(*ssa.Phi)
				_, isBin := ia.Index.(*ssa.BinOp)
				if isPhi || isBin {
					return true, true
				}
			}
		}
		return false, false
	})
}

// reach walks what v is computed from; stop decides (done, result).
func (d *detCheck) reach(st *State, pl *place, fi int, v ssa.Value, seen map[ssa.Value]bool, stop func(int, ssa.Value) (bool, bool)) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if done, r := stop(fi, v); done {
		return r
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		if fi > pl.frame && fi > 0 {
			if c, ok := st.frames[fi].call.(ssa.CallInstruction); ok {
				for i, p := range v.Parent().Params {
					if p == v {
						args := c.Common().Args
						if c.Common().IsInvoke() {
							if i == 0 {
								return d.reach(st, pl, fi-1, c.Common().Value, seen, stop)
							}
							i--
						}
						if i < len(args) {
							return d.reach(st, pl, fi-1, args[i], seen, stop)
						}
					}
				}
			}
		}
		return false
	case *ssa.Alloc:
		// what was stored there
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == v && d.reach(st, pl, fi, r.Val, seen, stop) {
						return true
					}
				case *ssa.FieldAddr, *ssa.IndexAddr:
					if rr := r.(ssa.Value).Referrers(); rr != nil {
						for _, s := range *rr {
							if s, ok := s.(*ssa.Store); ok && s.Addr == r.(ssa.Value) && d.reach(st, pl, fi, s.Val, seen, stop) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	case ssa.Instruction:
		var ops [12]*ssa.Value
		for _, o := range v.Operands(ops[:0]) {
			if *o != nil && d.reach(st, pl, fi, *o, seen, stop) {
				return true
			}
		}
	}
	return false
}

// exactKey: v is the key of the iteration, or made from it so that different keys give different values.
// The second result is false when that is not known.
func (d *detCheck) exactKey(st *State, pl *place, fi int, v ssa.Value) (exact, known bool) {
	switch v := v.(type) {
	case *ssa.Extract:
		if nx, ok := v.Tuple.(*ssa.Next); ok {
			return fi == pl.frame && isMapStep(nx) && v.Index == 1, true
		}
		return false, false
	case *ssa.MakeInterface:
		return d.exactKey(st, pl, fi, v.X)
	case *ssa.ChangeType:
		return d.exactKey(st, pl, fi, v.X)
	case *ssa.Convert:
		return d.exactKey(st, pl, fi, v.X)
	case *ssa.BinOp:
		if v.Op == token.ADD {
			if _, ok := v.X.(*ssa.Const); ok {
				return d.exactKey(st, pl, fi, v.Y)
			}
			if _, ok := v.Y.(*ssa.Const); ok {
				return d.exactKey(st, pl, fi, v.X)
			}
		}
		return false, false
	case *ssa.Parameter:
		if fi == pl.frame && pl.loop == nil {
			return v == v.Parent().Params[0], true
		}
		if fi > pl.frame && fi > 0 {
			if c, ok := st.frames[fi].call.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
				for i, p := range v.Parent().Params {
					if p == v && i < len(c.Common().Args) {
						return d.exactKey(st, pl, fi-1, c.Common().Args[i])
					}
				}
			}
		}
		return false, false
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil {
			n := extName(g)
			if collapsing[n] {
				return false, true
			}
			if n == "(*reflect.MapIter).Key" {
				return true, true
			}
			if strings.HasPrefix(n, "(reflect.Value).") && len(v.Call.Args) > 0 {
				return d.exactKey(st, pl, fi, v.Call.Args[0])
			}
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return false, true
		}
		return false, false
	case *ssa.Const:
		return false, true
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if ia, ok := v.X.(*ssa.IndexAddr); ok && pl.loop != nil && fi == pl.frame && st.mon[loopKey(pl.frame, pl.loop)] != nil {
				_ = ia
				return true, true // an element of a slice of keys
			}
		}
	}
	if !d.derived(st, pl, fi, v) {
		return false, true
	}
	return false, false
}

// collapsing functions give equal results for different keys.
var collapsing = map[string]bool{"strings.ToLower": true, "strings.ToUpper": true, "strings.TrimSpace": true, "strings.Title": true, "strings.ToTitle": true,
	"strings.EqualFold": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.Trim": true, "strings.TrimLeft": true, "strings.TrimRight": true,
	"unicode/utf8.RuneCountInString": true, "bytes.ToLower": true, "bytes.ToUpper": true, "bytes.TrimSpace": true, "net/textproto.CanonicalMIMEHeaderKey": true, "net/http.CanonicalHeaderKey": true}

// guarded: block b of the loop only runs for one element of the map (its key equals something), or
// under a condition that involves acc, the value the loop keeps.
func (d *detCheck) guarded(st *State, pl *place, b *ssa.BasicBlock, acc func(fi int, v ssa.Value) bool) bool {
	for c := b; c != nil; c = c.Idom() {
		id := c.Idom()
		if id == nil || pl.loop != nil && !pl.loop.blocks[id] {
			return false
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		taken := -1
		for i, s := range id.Succs {
			if s == c && len(c.Preds) == 1 || s.Dominates(b) && len(s.Preds) == 1 {
				taken = i
			}
		}
		if taken < 0 {
			continue
		}
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL && taken == 0 || bo.Op == token.NEQ && taken == 1) {
			for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				if ex, known := d.exactKey(st, pl, pl.frame, pr[0]); (ex || !known) && !d.derived(st, pl, pl.frame, pr[1]) {
					return true
				}
			}
		}
		if acc != nil && d.reach(st, pl, pl.frame, iff.Cond, map[ssa.Value]bool{}, func(fi int, v ssa.Value) (bool, bool) {
			if acc(fi, v) {
				return true, true
			}
			return false, false
		}) {
			return true
		}
	}
	return false
}

// carried: the slice v that something is appended to lives on from one iteration to the next.
func (d *detCheck) carried(st *State, pl *place, fi int, v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if in, ok := v.(ssa.Instruction); ok && fi == pl.frame && pl.loop != nil && !pl.loop.blocks[in.Block()] {
		return false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if fi == pl.frame && pl.loop != nil && v.Block() == pl.loop.header {
			return true
		}
		for _, e := range v.Edges {
			if d.carried(st, pl, fi, e, seen) {
				return true
			}
		}
	case *ssa.Slice:
		return d.carried(st, pl, fi, v.X, seen)
	case *ssa.ChangeType:
		return d.carried(st, pl, fi, v.X, seen)
	case *ssa.Convert:
		return d.carried(st, pl, fi, v.X, seen)
	case *ssa.Extract:
		return d.carried(st, pl, fi, v.Tuple, seen)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return d.carried(st, pl, fi, v.Call.Args[0], seen)
		}
		for _, a := range v.Call.Args {
			if _, ok := a.Type().Underlying().(*types.Slice); ok && d.carried(st, pl, fi, a, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return d.outside(st, pl, fi, v.X)
		}
	case *ssa.Lookup:
		return d.outside(st, pl, fi, v.X) && !d.derived(st, pl, fi, v.Index)
	case *ssa.Parameter:
		if fi > pl.frame {
			if c, ok := st.frames[fi].call.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
				for i, p := range v.Parent().Params {
					if p == v && i < len(c.Common().Args) {
						return d.carried(st, pl, fi-1, c.Common().Args[i], seen)
					}
				}
			}
		}
	}
	return false
}

// outside: the address v (or map) is that of memory which exists before the iteration.
func (d *detCheck) outside(st *State, pl *place, fi int, v ssa.Value) bool {
	if in, ok := v.(ssa.Instruction); ok && fi == pl.frame && pl.loop != nil && !pl.loop.blocks[in.Block()] {
		return true
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return d.outside(st, pl, fi, v.X)
	case *ssa.IndexAddr:
		return d.outside(st, pl, fi, v.X) && !d.derived(st, pl, fi, v.Index)
	case *ssa.Global, *ssa.FreeVar:
		return true
	case *ssa.Parameter:
		if fi > pl.frame {
			if c, ok := st.frames[fi].call.(ssa.CallInstruction); ok {
				for i, p := range v.Parent().Params {
					if p == v {
						if c.Common().IsInvoke() {
							if i == 0 {
								return d.outside(st, pl, fi-1, c.Common().Value)
							}
							i--
						}
						if i < len(c.Common().Args) {
							return d.outside(st, pl, fi-1, c.Common().Args[i])
						}
					}
				}
			}
			return false
		}
		return pl.loop != nil // a parameter of the function the loop is in
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return d.outside(st, pl, fi, v.X) && !d.derived(st, pl, fi, v.X)
		}
	case *ssa.MakeInterface:
		return d.outside(st, pl, fi, v.X)
	case *ssa.ChangeType:
		return d.outside(st, pl, fi, v.X)
	case *ssa.Phi:
		if fi == pl.frame && pl.loop != nil && v.Block() == pl.loop.header {
			return true
		}
	}
	return false
}

func (d *detCheck) flagged(x *Exec, st *State, v *V) bool {
	if v == nil {
		return false
	}
	b := v
	for b.k == KApp && (b.op == "slice" || b.op == "clip") || b.k == KIface {
		b = b.args[0]
	}
	return x.shape(st, b).Flags&flagMapOrder != 0
}

// flaggedDeep: a slice in map order can be reached from v.
func (d *detCheck) flaggedDeep(x *Exec, st *State, v *V, seen map[*V]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if v.typ != nil {
		if _, ok := v.typ.Underlying().(*types.Slice); ok && d.flagged(x, st, v) {
			return true
		}
	}
	switch v.k {
	case KPtr, KSlice, KMap:
		o := st.heap[v.args[0]]
		if o == nil || o.kind == "ctx" {
			return false
		}
		for _, c := range o.cells {
			if d.flaggedDeep(x, st, c, seen) {
				return true
			}
		}
		for s := o.summary; s != nil; s = s.Elem {
			if s.Flags&flagMapOrder != 0 {
				return true
			}
		}
	case KIface, KStruct, KTuple, KFunc:
		for _, a := range v.args {
			if d.flaggedDeep(x, st, a, seen) {
				return true
			}
		}
	}
	return false
}

var orderFree = map[string]bool{"slices.Contains": true, "slices.Clone": true, "slices.Concat": true, "slices.Clip": true, "slices.Grow": true, "slices.Reverse": true,
	"slices.Max": true, "slices.Min": true, "slices.Sorted": true, "slices.SortedFunc": true, "slices.SortedStableFunc": true, "slices.Values": true, "slices.Sort": true, "slices.SortFunc": true,
	"slices.SortStableFunc": true, "maps.Keys": true, "maps.Values": true, "maps.All": true, "slices.Collect": true, "slices.ContainsFunc": true}

// timing sources: calls whose results differ from run to run.
func unsteady(n string) bool {
	for _, p := range []string{"math/rand.", "math/rand/v2.", "crypto/rand.", "hash/maphash.", "(*math/rand.", "(*math/rand/v2.", "(*hash/maphash.", "(hash/maphash.", "runtime.", "os."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	switch n {
	case "time.Now", "time.Since", "time.Until", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr":
		return true
	}
	return false
}

func (d *detCheck) scan() {
	p, rep := d.p, d.rep
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !p.inRepo(fn) || isGenerator(fn) {
			return
		}
		seen[fn] = true
		used := func(v ssa.Value) bool {
			if v == nil || v.Referrers() == nil {
				return false
			}
			for _, r := range *v.Referrers() {
				if _, ok := r.(*ssa.DebugRef); !ok {
					return true
				}
			}
			return false
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				pos := p.instrPos(in)
				switch in := in.(type) {
				case *ssa.Go:
					rep.check(false, "goroutine at "+pos, pos, fn.String(), "a goroutine is started, so what happens depends on the scheduler")
				case *ssa.Select:
					if len(in.States) > 1 {
						rep.check(false, "select at "+pos, pos, fn.String(), "a select chooses between its cases at random")
					}
				case *ssa.Convert:
					if bt, ok := in.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if ft, ok := in.X.Type().Underlying().(*types.Basic); ok && ft.Kind() == types.UnsafePointer {
							rep.check(!used(in), "address at "+pos, pos, fn.String(), "an address is used as a number")
						}
					}
				case *ssa.Call:
					g := in.Call.StaticCallee()
					if g == nil || p.inRepo(g) {
						break
					}
					n := extName(g)
					rep.check(!(unsteady(n) && used(in)), "call of "+n+" at "+pos, pos, fn.String(), "the result of "+n+" differs from run to run")
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok {
						walk(g)
					}
					if mc, ok := (*o).(*ssa.MakeClosure); ok {
						walk(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, r := range p.baseRoots() {
		if !isGenerator(r.fn) {
			walk(r.fn)
		}
	}
	for _, fn := range p.allFuncs {
		if fn.Parent() == nil && fn.Signature.Recv() != nil && !isGenerator(fn) && !p.generatorOnly(fn) {
			walk(fn)
		}
	}
	for fn := range seen {
		d.static(fn)
	}
}

// generatorOnly: fn is a method of a type that only the code generators use.
func (p *Prog) generatorOnly(fn *ssa.Function) bool {
	if p.genOnly == nil {
		p.genOnly = map[*ssa.Function]bool{}
		other := map[*ssa.Function]bool{}
		var mark func(fn *ssa.Function, m map[*ssa.Function]bool)
		mark = func(fn *ssa.Function, m map[*ssa.Function]bool) {
			if fn == nil || m[fn] || !p.inRepo(fn) {
				return
			}
			m[fn] = true
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var ops [12]*ssa.Value
					for _, o := range in.Operands(ops[:0]) {
						if g, ok := (*o).(*ssa.Function); ok {
							mark(g, m)
						}
					}
				}
			}
		}
		for _, r := range p.baseRoots() {
			if isGenerator(r.fn) {
				mark(r.fn, p.genOnly)
			} else {
				mark(r.fn, other)
			}
		}
		for f := range other {
			delete(p.genOnly, f)
		}
	}
	return p.genOnly[fn]
}

// static examines the values that loops over maps keep.
func (d *detCheck) static(fn *ssa.Function) {
	_, ms := d.of(fn)
	st := &State{frames: []*Frame{{fn: fn}}, mon: map[string]*V{}}
	for l := range ms {
		pl := &place{0, l, nil}
		lp := d.p.pos(fn.Pos())
		if n := len(l.header.Instrs); n > 0 {
			lp = d.p.instrPos(l.header.Instrs[n-1])
		}
		key := "values kept by the loop over a map in " + fn.String()
		d.rep.check(true, key, lp, fn.String(), "")
		for _, in := range l.header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			t := ph.Type()
			isStr := isStringType(t)
			if _, ok := t.Underlying().(*types.Slice); ok && !isByteSlice(t) {
				continue
			}
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 || isErrType(t) {
				continue
			}
			isNum := false
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
				isNum = true
			}
			for i, e := range ph.Edges {
				pred := l.header.Preds[i]
				if !l.blocks[pred] {
					continue
				}
				d.kept(st, pl, ph, e, pred, isStr, isNum, key, map[ssa.Value]bool{})
			}
		}
		// values that leave the loop early
		for b := range l.blocks {
			for _, s := range b.Succs {
				if l.blocks[s] || b == l.header {
					continue
				}
				d.leaves(st, pl, b, s, key)
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				d.returns(st, pl, b, r, key)
			}
		}
		for _, b := range fn.Blocks {
			if l.blocks[b] || !l.header.Dominates(b) {
				continue
			}
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			// a return that is only reached from inside the loop
			for _, q := range b.Preds {
				if l.blocks[q] && q != l.header && len(b.Preds) == 1 {
					d.returns(st, pl, b, r, key)
				}
			}
		}
	}
}

func orderValue(t types.Type) bool {
	if isErrType(t) {
		return false
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&(types.IsBoolean) != 0 {
		return false
	}
	if tt, ok := t.(*types.Tuple); ok && tt.Len() == 0 {
		return false
	}
	return true
}

func (d *detCheck) returns(st *State, pl *place, b *ssa.BasicBlock, r *ssa.Return, key string) {
	for _, v := range r.Results {
		if !orderValue(v.Type()) || !d.derived(st, pl, 0, v) {
			continue
		}
		if d.guarded(st, pl, b, nil) {
			continue
		}
		d.rep.check(false, key, d.p.instrPos(r), pl.loop.header.Parent().String(), "what is returned is whichever element of the map comes first")
	}
}

func (d *detCheck) leaves(st *State, pl *place, b, s *ssa.BasicBlock, key string) {
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !orderValue(ph.Type()) {
			continue
		}
		for i, e := range ph.Edges {
			if s.Preds[i] != b || !d.derived(st, pl, 0, e) || d.accumulates(pl, e, map[ssa.Value]bool{}) {
				continue
			}
			if d.guarded(st, pl, b, nil) {
				continue
			}
			d.rep.check(false, key, d.p.instrPos(b.Instrs[len(b.Instrs)-1]), pl.loop.header.Parent().String(), "the loop keeps whichever element of the map comes first")
		}
	}
}

// accumulates: e is built from a value that the loop carries.
func (d *detCheck) accumulates(pl *place, e ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[e] {
		return false
	}
	seen[e] = true
	in, ok := e.(ssa.Instruction)
	if !ok || !pl.loop.blocks[in.Block()] {
		return false
	}
	if ph, ok := e.(*ssa.Phi); ok && ph.Block() == pl.loop.header {
		return true
	}
	var ops [12]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o != nil && d.accumulates(pl, *o, seen) {
			return true
		}
	}
	return false
}

// kept examines value e that the loop keeps in ph at the end of an iteration that leaves from b.
func (d *detCheck) kept(st *State, pl *place, ph *ssa.Phi, e ssa.Value, b *ssa.BasicBlock, isStr, isNum bool, key string, seen map[ssa.Value]bool) {
	if e == ph || seen[e] {
		return
	}
	seen[e] = true
	if in, ok := e.(*ssa.Phi); ok && pl.loop.blocks[in.Block()] {
		for i, x := range in.Edges {
			d.kept(st, pl, ph, x, in.Block().Preds[i], isStr, isNum, key, seen)
		}
		return
	}
	if !d.derived(st, pl, 0, e) {
		return
	}
	isAcc := func(fi int, v ssa.Value) bool { return v == ph }
	dep := d.reach(st, pl, 0, e, map[ssa.Value]bool{}, func(fi int, v ssa.Value) (bool, bool) { return v == ph, v == ph })
	pos := d.p.instrPos(b.Instrs[len(b.Instrs)-1])
	if in, ok := e.(ssa.Instruction); ok {
		pos = d.p.instrPos(in)
	}
	root := pl.loop.header.Parent().String()
	if dep {
		if bo, ok := e.(*ssa.BinOp); ok && isStr && bo.Op == token.ADD {
			d.rep.check(false, key, pos, root, "text is put together in the order of the map")
		} else if isByteSlice(e.Type()) {
			d.rep.check(false, key, pos, root, "text is put together in the order of the map")
		}
		return
	}
	if d.guarded(st, pl, b, isAcc) {
		return
	}
	_ = isNum
	d.rep.check(false, key, pos, root, "the loop keeps whichever element of the map comes last")
}

func detChecks(p *Prog, rep *Report) error {
	d := &detCheck{p: p, rep: rep, loops: map[*ssa.Function][]*natLoop{}, maps: map[*ssa.Function]map[*natLoop]bool{}}
	d.scan()
	a := newAnalysis(p)
	h := &Hooks{Mode: ModeOK}
	h.InOrder = func(x *Exec, st *State, in ssa.Instruction) bool {
		pl := d.where(x, st, in)
		if pl == nil {
			return false
		}
		var base ssa.Value
		switch in := in.(type) {
		case *ssa.Call:
			base = in.Call.Args[0]
			if len(in.Call.Args) > 1 && constAppend(in.Call.Args[1]) {
				return false
			}
		default:
			return false
		}
		return d.carried(st, pl, len(st.frames)-1, base, map[ssa.Value]bool{})
	}
	inOrder := func(x *Exec, st *State, in ssa.Instruction, key, msg string) {
		pos := x.p.instrPos(in)
		pl := d.where(x, st, in)
		ok := pl == nil || d.guarded(st, pl, pl.at.Block(), nil)
		rep.check(ok, key+" "+pos, pos, x.root, msg)
	}
	h.OnRaw = func(x *Exec, st *State, w, data *V, in ssa.Instruction) {
		inOrder(x, st, in, "write at", "output is written in the order of a map")
	}
	h.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) {
		inOrder(x, st, in, "render at", "nodes are rendered in the order of a map")
	}
	h.OnDyn = func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) {
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			writes := x.p.isCtxPtr(t) && (sig.Results().Len() == 0 || isErrType(sig.Results().At(sig.Results().Len()-1).Type()))
			if types.IsInterface(t) && types.Identical(t.Underlying(), x.p.impIface) {
				writes = true
			}
			if writes {
				inOrder(x, st, in, "callback at", "callbacks that write are called in the order of a map")
			}
		}
	}
	h.OnElem = func(x *Exec, st *State, slice, idx, val *V, in ssa.Instruction) {
		if !d.flagged(x, st, slice) {
			return
		}
		u, ok := in.(*ssa.UnOp)
		if !ok {
			return
		}
		ls, _ := d.of(in.Parent())
		l := innermost(ls, in.Block())
		pos := x.p.instrPos(in)
		stepped := false
		if ia, ok := u.X.(*ssa.IndexAddr); ok && l != nil {
			if ii, ok := ia.Index.(ssa.Instruction); ok && l.blocks[ii.Block()] {
				stepped = true
			}
		}
		if !stepped {
			rep.check(false, "element at "+pos, pos, x.root, "an element is taken from a slice that is in the order of a map")
			return
		}
		st.mon[loopKey(len(st.frames)-1, l)] = mkInt(1)
		rep.check(true, "element at "+pos, pos, x.root, "")
	}
	h.OnHeader = func(x *Exec, st *State, b *ssa.BasicBlock, back bool) {
		if back {
			return
		}
		ls, _ := d.of(b.Parent())
		for _, l := range ls {
			if l.header == b {
				delete(st.mon, loopKey(len(st.frames)-1, l))
			}
		}
	}
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		pl := d.where(x, st, in)
		if pl == nil {
			return
		}
		pos := x.p.instrPos(in)
		fi := len(st.frames) - 1
		switch in := in.(type) {
		case *ssa.Call:
			if what == "append" && isByteSlice(in.Type()) && !constAppend(in.Call.Args[1]) {
				ok := !d.carried(st, pl, fi, in.Call.Args[0], map[ssa.Value]bool{}) || d.guarded(st, pl, pl.at.Block(), nil)
				rep.check(ok, "append at "+pos, pos, x.root, "text is put together in the order of a map")
			}
		case *ssa.Store:
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				if !d.derived(st, pl, fi, ia.Index) {
					if _, isConst := in.Val.(*ssa.Const); isConst || !d.outside(st, pl, fi, ia.X) {
						return
					}
					b := target
					for b.k == KApp {
						b = b.args[0]
					}
					if (b.k == KSlice || b.k == KPtr) && st.heap[b.args[0]] != nil {
						st.heap[b.args[0]].mapOrder = true
					} else {
						rep.check(false, "element store at "+pos, pos, x.root, "elements are stored in the order of a map")
					}
				}
				return
			}
			if !orderValue(in.Val.Type()) || !d.outside(st, pl, fi, in.Addr) || d.derived(st, pl, fi, in.Addr) || !d.derived(st, pl, fi, in.Val) {
				return
			}
			if _, ok := in.Val.Type().Underlying().(*types.Slice); ok && !isByteSlice(in.Val.Type()) {
				if c, ok := in.Val.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						return
					}
				}
			}
			load := func(fi int, v ssa.Value) bool {
				u, ok := v.(*ssa.UnOp)
				return ok && u.Op == token.MUL && sameAddr(u.X, in.Addr)
			}
			dep := d.reach(st, pl, fi, in.Val, map[ssa.Value]bool{}, func(fi int, v ssa.Value) (bool, bool) { l := load(fi, v); return l, l })
			if dep && !isStringType(in.Val.Type()) && !isByteSlice(in.Val.Type()) {
				return
			}
			if dep {
				rep.check(false, "store at "+pos, pos, x.root, "text is put together in the order of a map")
				return
			}
			ok := fi == pl.frame && d.guarded(st, pl, in.Block(), load) || fi != pl.frame && d.guarded(st, pl, pl.at.Block(), load)
			rep.check(ok, "store at "+pos, pos, x.root, "what is kept is whichever element of the map comes last")
		case *ssa.MapUpdate:
			if !d.outside(st, pl, fi, in.Map) {
				return
			}
			ex, known := d.exactKey(st, pl, fi, in.Key)
			if ex || !known || !d.derived(st, pl, fi, in.Value) {
				return
			}
			if c, ok := in.Value.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					return
				}
			}
			if bt, ok := in.Value.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
				return
			}
			ok := d.guarded(st, pl, pl.at.Block(), func(fi int, v ssa.Value) bool { _, ok := v.(*ssa.Lookup); return ok })
			rep.check(ok, "map update at "+pos, pos, x.root, "which of the elements ends up in the map depends on the order of a map")
		}
	}
	h.OnExt = func(x *Exec, st *State, name string, args []*V, in ssa.Instruction) {
		pos := x.p.instrPos(in)
		if strings.HasPrefix(name, "fmt.") {
			d.printed(x, st, name, args, in)
		}
		if strings.HasPrefix(name, "(*bytes.Buffer).Write") || strings.HasPrefix(name, "(*strings.Builder).Write") || strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" {
			if pl := d.where(x, st, in); pl != nil {
				if c, ok := in.(ssa.CallInstruction); ok && len(c.Common().Args) > 0 && d.outside(st, pl, len(st.frames)-1, c.Common().Args[0]) {
					ok := d.guarded(st, pl, pl.at.Block(), nil)
					rep.check(ok, "text at "+pos, pos, x.root, "text is put together in the order of a map")
				}
			}
		}
		for i, v := range args {
			if v == nil || !d.flagged(x, st, v) {
				continue
			}
			if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "(sort.") || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Sorted") {
				if i == 0 {
					d.sorted(x, st, name, args, in)
				}
				continue
			}
			rep.check(orderFree[name], "call of "+name+" at "+pos, pos, x.root, name+" is given a slice that is in the order of a map")
		}
		if len(args) > 0 && (strings.HasPrefix(name, "slices.Sorted") || strings.HasPrefix(name, "slices.Collect")) && args[0].k == KApp && strings.HasPrefix(args[0].op, "iter:maps.") {
			d.sorted(x, st, name, args, in)
		}
	}
	a.hooks = h
	final := rep
	rep = newReport("inv")
	d.rep = rep
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	rep = final
	d.rep = rep
	c := &Check{h: h, filter: func(r Root) bool { return !isGenerator(r.fn) }}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic {
			return
		}
		if r.kind != "closure" && r.kind != "rec" {
			for _, v := range e.ret {
				rep.check(!d.flaggedDeep(x, e.st, v, map[*V]bool{}), "result of "+r.fn.String(), x.p.pos(r.fn.Pos()), x.root, "the result holds a slice that is in the order of a map")
			}
		}
		rep.check(true, "function "+r.fn.String(), "", "", "")
	}
	return a.run(c, rep)
}

// constAppend: only constants are appended.
func constAppend(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
			for _, s := range *ia.Referrers() {
				if s, ok := s.(*ssa.Store); ok {
					if _, ok := s.Val.(*ssa.Const); !ok {
						return false
					}
				}
			}
		}
	}
	return true
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.Field == fb.Field && sameAddr(fa.X, fb.X)
}

// printed: fmt prints addresses for values of some kinds.
func (d *detCheck) printed(x *Exec, st *State, name string, args []*V, in ssa.Instruction) {
	pos := x.p.instrPos(in)
	if onlyPanics(in) || strings.HasPrefix(name, "fmt.Errorf") {
		return
	}
	va := args[len(args)-1]
	if va.k != KSlice {
		return
	}
	o := st.heap[va.args[0]]
	if o == nil {
		return
	}
	format := ""
	if strings.HasSuffix(name, "f") && len(args) > 1 {
		f := args[len(args)-2]
		if f.k != KConst || f.c == nil || f.c.Kind() != constant.String {
			return
		}
		format = constant.StringVal(f.c)
		if strings.Contains(format, "%p") {
			d.rep.check(false, "print at "+pos, pos, x.root, "an address is printed")
			return
		}
		if !strings.Contains(format, "%v") && !strings.Contains(format, "%+v") && !strings.Contains(format, "%s") && !strings.Contains(format, "%x") && !strings.Contains(format, "%d") && !strings.Contains(format, "%#v") {
			return
		}
	}
	for _, c := range o.cells {
		s := x.shape(st, c)
		t := s.Dyn
		if c.k == KIface {
			t = c.typ
		}
		if t == nil && len(s.Is) == 0 {
			d.rep.check(false, "print at "+pos, pos, x.root, "values of any type are printed, which prints the addresses of some")
		} else {
			d.rep.check(!printsAddress(x, t, 0), "print at "+pos, pos, x.root, "printing such a value prints an address")
		}
	}
}

func printsAddress(x *Exec, t types.Type, depth int) bool {
	if t == nil || depth > 4 {
		return false
	}
	if x.p.stringer != nil && types.Implements(t, x.p.stringer) || types.Implements(t, errT.Underlying().(*types.Interface)) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Signature, *types.Chan:
		return true
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			return printsAddress(x, u.Elem(), depth+1)
		}
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if printsAddress(x, u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Slice:
		return printsAddress(x, u.Elem(), depth+1)
	case *types.Array:
		return printsAddress(x, u.Elem(), depth+1)
	case *types.Map:
		return printsAddress(x, u.Elem(), depth+1)
	}
	return false
}

func onlyPanics(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Panic, *ssa.DebugRef:
		case *ssa.MakeInterface:
			if !onlyPanics(r) {
				return false
			}
		case *ssa.BinOp:
			if !onlyPanics(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sorted: the order that is used must put different elements in a definite order.
func (d *detCheck) sorted(x *Exec, st *State, name string, args []*V, in ssa.Instruction) {
	pos := x.p.instrPos(in)
	key := "sort at " + pos
	var cmp *ssa.Function
	for _, a := range args[1:] {
		if a.k == KFunc {
			cmp = a.fn
		}
	}
	if cmp == nil {
		if name == "sort.Sort" || name == "sort.Stable" {
			v := args[0]
			if v.k == KIface {
				if ms := x.p.ssaProg.MethodSets.MethodSet(v.typ); ms != nil {
					for i := 0; i < ms.Len(); i++ {
						if ms.At(i).Obj().Name() == "Less" {
							cmp = x.p.ssaProg.MethodValue(ms.At(i))
						}
					}
				}
			}
		}
	}
	if cmp == nil || len(cmp.Blocks) == 0 || !x.p.inRepo(cmp) {
		d.rep.check(true, key, pos, x.root, "")
		return
	}
	total, partial := comparator(cmp)
	switch {
	case total:
		d.rep.check(true, key, pos, x.root, "")
	case partial != "":
		d.rep.check(false, key, pos, x.root, "elements that are different but have equal "+partial+" stay in the order of the map")
	default:
		d.rep.undecided(x.root, pos, "it is not known that the sort order is total")
	}
}

// comparator: what cmp compares. total: it compares whole elements in some case.
func comparator(cmp *ssa.Function) (total bool, partial string) {
	unknown := false
	operand := func(v ssa.Value) (whole bool, via string) {
		for n := 0; n < 12; n++ {
			switch u := v.(type) {
			case *ssa.Parameter:
				return true, ""
			case *ssa.UnOp:
				if u.Op == token.MUL {
					if _, ok := u.X.(*ssa.IndexAddr); ok {
						return true, ""
					}
				}
				return false, ""
			case *ssa.Lookup, *ssa.Index:
				return true, ""
			case *ssa.ChangeType:
				v = u.X
			case *ssa.Convert:
				v = u.X
			case *ssa.Call:
				if g := u.Call.StaticCallee(); g != nil {
					if collapsing[extName(g)] {
						return false, extName(g)
					}
				}
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					return false, "len"
				}
				return false, ""
			default:
				return false, ""
			}
		}
		return false, ""
	}
	see := func(a, b ssa.Value) {
		if bt, ok := a.Type().Underlying().(*types.Basic); !ok || bt.Info()&(types.IsOrdered) == 0 {
			return
		}
		if _, ok := b.(*ssa.Const); ok {
			return
		}
		if _, ok := a.(*ssa.Const); ok {
			return
		}
		w, via := operand(a)
		w2, via2 := operand(b)
		switch {
		case w && w2:
			total = true
		case via != "" && via == via2:
			if partial == "" {
				partial = via
			}
		default:
			unknown = true
		}
	}
	for _, b := range cmp.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					see(in.X, in.Y)
				case token.SUB:
					see(in.X, in.Y)
				}
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil {
					n := extName(g)
					if strings.HasPrefix(n, "strings.Compare") || strings.HasPrefix(n, "cmp.Compare") || strings.HasPrefix(n, "cmp.Less") {
						see(in.Call.Args[0], in.Call.Args[1])
					}
				}
			}
		}
	}
	if unknown {
		partial = ""
	}
	return
}
