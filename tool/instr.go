package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State) []*State { return []*State{st} }

// instr executes one instruction that is not a terminator.
func (x *Exec) instr(st *State, in ssa.Instruction) ([]*State, []Exit) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		o := &Obj{typ: t, kind: "alloc", zero: true}
		if a, ok := t.Underlying().(*types.Array); ok {
			o.kind = "fixed"
			o.length = mkInt(a.Len())
		}
		v := x.newObj(st, in, "", o)
		x.set(st, in, mkPtr(v, "", in.Type()))
	case *ssa.BinOp:
		x.set(st, in, x.binop(st, in, x.eval(st, in.X), x.eval(st, in.Y)))
	case *ssa.UnOp:
		return x.unop(st, in), nil
	case *ssa.ChangeType:
		x.set(st, in, x.retype(st, x.eval(st, in.X), in.Type()))
	case *ssa.ChangeInterface:
		x.set(st, in, x.eval(st, in.X))
	case *ssa.Convert:
		x.set(st, in, x.convert(st, in, x.eval(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		x.set(st, in, x.convert(st, in, x.eval(st, in.X), in.X.Type(), in.Type()))
	case *ssa.SliceToArrayPointer:
		x.set(st, in, x.newSym(st, in, "", in.Type(), nil))
	case *ssa.MakeInterface:
		x.set(st, in, mk(V{k: KIface, typ: in.X.Type(), args: []*V{x.eval(st, in.X)}}))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		b := make([]*V, len(in.Bindings))
		for i, bv := range in.Bindings {
			b[i] = x.eval(st, bv)
		}
		x.set(st, in, mk(V{k: KFunc, fn: fn, args: b, typ: in.Type()}))
	case *ssa.MakeMap:
		v := x.newObj(st, in, "", &Obj{typ: in.Type(), kind: "map", length: mkInt(0)})
		x.set(st, in, mk(V{k: KMap, args: []*V{v}, typ: in.Type()}))
	case *ssa.MakeSlice:
		ln := x.eval(st, in.Len)
		v := x.newObj(st, in, "", &Obj{typ: in.Type(), kind: "slice", length: ln})
		et := in.Type().Underlying().(*types.Slice).Elem()
		if n, ok := ln.intConst(); !ok || n != 0 {
			z := x.shape(st, zeroOf(et)).clone()
			z.Eq, z.Lo, z.Hi, z.B = nil, math.MinInt64, math.MaxInt64, 0
			st.heap[v].summary = z
		}
		x.set(st, in, mk(V{k: KSlice, args: []*V{v}, typ: in.Type()}))
	case *ssa.MakeChan:
		x.undecided(st, in, "channels are not supported")
		x.set(st, in, x.newSym(st, in, "", in.Type(), nil))
	case *ssa.FieldAddr:
		p := x.eval(st, in.X)
		if x.h.OnDeref != nil {
			x.h.OnDeref(x, st, p, in)
		}
		x.set(st, in, x.fieldAddr(st, p, in.Field, in.X.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.Field:
		v := x.fieldOf(st, x.eval(st, in.X), in.Field, in.X.Type())
		if x.shape(st, v).bot {
			return nil, nil
		}
		x.set(st, in, x.simplify(st, v))
	case *ssa.IndexAddr:
		return x.indexAddr(st, in), nil
	case *ssa.Index:
		v := x.eval(st, in.X)
		idx := x.eval(st, in.Index)
		x.set(st, in, mkApp("idx", in.Type(), v, idx))
	case *ssa.Lookup:
		return x.lookup(st, in), nil
	case *ssa.Slice:
		x.set(st, in, x.slice(st, in))
	case *ssa.Store:
		a, v := x.eval(st, in.Addr), x.eval(st, in.Val)
		if x.h.OnDeref != nil {
			x.h.OnDeref(x, st, a, in)
		}
		x.store(st, a, v, in)
	case *ssa.MapUpdate:
		return x.mapUpdates(st, in), nil
	case *ssa.Extract:
		t := x.eval(st, in.Tuple)
		if t.k == KTuple && in.Index < len(t.args) {
			x.set(st, in, x.simplify(st, t.args[in.Index]))
		} else {
			x.set(st, in, mkApp(fmt.Sprintf("ext#%d", in.Index), in.Type(), t))
		}
	case *ssa.TypeAssert:
		return x.typeAssert(st, in), nil
	case *ssa.Range:
		v := x.eval(st, in.X)
		x.set(st, in, mkApp("range:"+iname(in), nil, v))
	case *ssa.Next:
		return x.next(st, in), nil
	case *ssa.Call:
		return x.call(st, &in.Call, in)
	case *ssa.Defer:
		d := deferred{call: in}
		cc := in.Common()
		if cc.IsInvoke() {
			d.fn = x.eval(st, cc.Value)
		} else if b, ok := cc.Value.(*ssa.Builtin); ok {
			d.fn = mkSym("$builtin:"+b.Name(), nil)
		} else {
			d.fn = x.eval(st, cc.Value)
		}
		for _, a := range cc.Args {
			d.args = append(d.args, x.eval(st, a))
		}
		st.top().defers = append(st.top().defers, d)
	case *ssa.RunDefers:
		return x.runDefers(st, in)
	case *ssa.Go:
		x.undecided(st, in, "goroutines are not supported")
	case *ssa.Send, *ssa.Select:
		x.undecided(st, in, "channels are not supported")
		if v, ok := in.(ssa.Value); ok {
			x.set(st, in, x.newSym(st, in, "", v.Type(), nil))
		}
	default:
		panic(abort{fmt.Sprintf("unsupported instruction %T at %s", in, x.p.instrPos(in))})
	}
	return one(st), nil
}

func (x *Exec) runDefers(st *State, in *ssa.RunDefers) ([]*State, []Exit) {
	cur := []*State{st}
	var exits []Exit
	for {
		var next []*State
		done := true
		for _, s := range cur {
			fr := s.top()
			if len(fr.defers) == 0 {
				next = append(next, s)
				continue
			}
			done = false
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			outs, ex := x.callValue(s, d.fn, d.args, d.call.Common(), d.call)
			exits = append(exits, ex...)
			next = append(next, outs...)
		}
		cur = next
		if done {
			return cur, exits
		}
	}
}

// retype changes the static type of a value.
func (x *Exec) retype(st *State, v *V, t types.Type) *V {
	switch v.k {
	case KConst, KFunc, KSlice, KMap, KStruct:
		n := *v
		n.typ, n.leaves, n.id, n.depth = t, nil, 0, 0
		return mk(n)
	}
	return v
}

func (x *Exec) convert(st *State, in ssa.Instruction, v *V, from, to types.Type) *V {
	if v.k == KConst && v.c != nil {
		if isStringType(to) && isStringType(from) {
			return mkConst(v.c, to)
		}
		if isIntType(to) && isIntType(from) {
			if c := constant.ToInt(v.c); c.Kind() == constant.Int {
				return mkConst(c, to)
			}
		}
	}
	switch {
	case isStringType(from) && isByteSlice(to):
		if v.k == KApp && v.op == "string" {
			return mkApp("bytes", to, v.args[0])
		}
		return mkApp("bytes", to, v)
	case isByteSlice(from) && isStringType(to):
		if t, ok := x.text(st, v); ok {
			return t
		}
		return mkApp("string", to, v)
	case isStringType(from) && isStringType(to):
		return v
	case isIntType(from) && isIntType(to):
		if intWidens(from, to) {
			return mkApp("widen", to, v)
		}
		return mkApp("conv:"+to.Underlying().String(), to, v)
	}
	if isStringType(to) {
		r := mkApp("conv:string", to, v)
		return r
	}
	return mkApp("conv:"+types.TypeString(to, shortQ), to, v)
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

// intWidens reports whether every value of from is a value of to (int and uint have at most 64 bits).
func intWidens(from, to types.Type) bool {
	type r struct {
		signed   bool
		min, max int // bits: at least, at most
	}
	m := map[types.BasicKind]r{types.Int: {true, 32, 64}, types.Int8: {true, 8, 8}, types.Int16: {true, 16, 16}, types.Int32: {true, 32, 32}, types.Int64: {true, 64, 64},
		types.Uint: {false, 32, 64}, types.Uint8: {false, 8, 8}, types.Uint16: {false, 16, 16}, types.Uint32: {false, 32, 32}, types.Uint64: {false, 64, 64}, types.Uintptr: {false, 32, 64}}
	f, ok1 := m[basicKind(from)]
	t, ok2 := m[basicKind(to)]
	if !ok1 || !ok2 {
		return false
	}
	if basicKind(from) == basicKind(to) {
		return true
	}
	if f.signed == t.signed {
		return f.max <= t.min
	}
	return !f.signed && f.max < t.min
}

func (x *Exec) binop(st *State, in *ssa.BinOp, a, b *V) *V {
	isInt := isIntType(in.X.Type())
	if a.k == KConst && b.k == KConst && a.c != nil && b.c != nil {
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.c.Kind() == b.c.Kind() {
				return mkBool(constant.Compare(a.c, in.Op, b.c))
			}
		case token.ADD, token.SUB, token.MUL:
			if a.c.Kind() == b.c.Kind() && (in.Op == token.ADD || a.c.Kind() != constant.String) {
				return mkConst(constant.BinaryOp(a.c, in.Op, b.c), in.Type())
			}
		}
	}
	switch in.Op {
	case token.EQL:
		return x.simplify(st, x.eq(st, a, b))
	case token.NEQ:
		return x.simplify(st, not(x.eq(st, a, b)))
	}
	if isInt {
		switch in.Op {
		case token.ADD:
			return add(a, b)
		case token.SUB:
			if c, ok := b.intConst(); ok {
				return addc(a, -c)
			}
			ab, ao := splitOff(a)
			bb, bo := splitOff(b)
			if ab != nil && ab == bb {
				return mkInt(ao - bo)
			}
			return mkApp("-", in.Type(), a, b)
		case token.LSS:
			return x.simplify(st, less(a, b))
		case token.GTR:
			return x.simplify(st, less(b, a))
		case token.LEQ:
			return x.simplify(st, not(less(b, a)))
		case token.GEQ:
			return x.simplify(st, not(less(a, b)))
		}
		return mkApp("op:"+in.Op.String(), in.Type(), a, b)
	}
	if isStringType(in.X.Type()) {
		switch in.Op {
		case token.ADD:
			return mkCat(a, b)
		case token.LSS:
			return mkApp("slt", in.Type(), a, b)
		case token.GTR:
			return mkApp("slt", in.Type(), b, a)
		case token.LEQ:
			return not(mkApp("slt", in.Type(), b, a))
		case token.GEQ:
			return not(mkApp("slt", in.Type(), a, b))
		}
	}
	return mkApp("op:"+in.Op.String(), in.Type(), a, b)
}

// eq is a==b, looking through interfaces of known dynamic type.
func (x *Exec) eq(st *State, a, b *V) *V {
	if a.k == KIface && b.k == KIface {
		if !types.Identical(a.typ, b.typ) {
			return mkBool(false)
		}
		return equal(a.args[0], b.args[0])
	}
	if (a.k == KPtr || a.k == KGlobal) && (b.k == KPtr || b.k == KGlobal) && a != b {
		return mkBool(false)
	}
	return equal(a, b)
}

func (x *Exec) unop(st *State, in *ssa.UnOp) []*State {
	v := x.eval(st, in.X)
	switch in.Op {
	case token.MUL:
		if x.h.OnDeref != nil {
			x.h.OnDeref(x, st, v, in)
		}
		r := x.load(st, v, in.Type(), in)
		if x.shape(st, r).bot {
			return nil
		}
		if x.h.OnElem != nil && v.k == KApp && v.op == "[]" {
			x.h.OnElem(x, st, v.args[0], v.args[1], r, in)
		}
		x.set(st, in, r)
	case token.NOT:
		x.set(st, in, x.simplify(st, not(v)))
	case token.SUB:
		if c, ok := v.intConst(); ok {
			x.set(st, in, mkInt(-c))
		} else {
			x.set(st, in, mkApp("neg", in.Type(), v))
		}
	case token.ARROW:
		x.undecided(st, in, "channels are not supported")
		x.set(st, in, x.newSym(st, in, "", in.Type(), nil))
	default:
		x.set(st, in, mkApp("op1:"+in.Op.String(), in.Type(), v))
	}
	return one(st)
}

// length of a slice, string or map value.
func (x *Exec) length(st *State, v *V) *V {
	switch v.k {
	case KSlice, KMap:
		if o := st.heap[v.args[0]]; o != nil && o.length != nil {
			return x.simplify(st, o.length)
		}
	case KPtr:
		if o := st.heap[v.args[0]]; o != nil && o.length != nil {
			return o.length
		}
	case KApp:
		if v.op == "slice" {
			lo, hi := v.args[1], v.args[2]
			if hi.isNilConst() {
				hi = x.length(st, v.args[0])
			}
			if lo.isNilConst() {
				return hi
			}
			if c, ok := lo.intConst(); ok {
				return addc(hi, -c)
			}
			lb, lc := splitOff(lo)
			hb, hc := splitOff(hi)
			if lb == hb {
				return mkInt(hc - lc)
			}
		}
		if v.op == "clip" || v.op == "sorted" {
			return x.length(st, v.args[0])
		}
	}
	return x.simplify(st, mkLen(v))
}

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr) []*State {
	b, i := x.eval(st, in.X), x.eval(st, in.Index)
	if x.h.OnDeref != nil {
		x.h.OnDeref(x, st, b, in)
	}
	if b.k == KPtr { // pointer to array
		if c, ok := i.intConst(); ok {
			x.set(st, in, mkPtr(b.args[0], fmt.Sprintf("%s[%d]", b.op, c), in.Type()))
			return one(st)
		}
		at := b.typ.Underlying().(*types.Pointer).Elem()
		x.set(st, in, mkApp("[]", in.Type(), mk(V{k: KSlice, args: b.args, typ: at}), i))
		return one(st)
	}
	if b.k == KSlice {
		if c, ok := i.intConst(); ok {
			if o := st.heap[b.args[0]]; o != nil {
				p := fmt.Sprintf("[%d]", c)
				if n, ok := o.lengthConst(); ok && (c >= n || c < 0) {
					return nil // panics
				}
				if _, ok := o.cells[p]; ok || o.kind == "fixed" {
					x.set(st, in, mkPtr(b.args[0], p, in.Type()))
					return one(st)
				}
				for k := range o.cells {
					if strings.HasPrefix(k, p+".") {
						x.set(st, in, mkPtr(b.args[0], p, in.Type()))
						return one(st)
					}
				}
			}
		}
	}
	if b.k == KApp && b.op == "slice" { // element of a reslice is an element of its base
		lo := b.args[1]
		if lo.isNilConst() {
			b = b.args[0]
		} else if c, ok := lo.intConst(); ok {
			b, i = b.args[0], addc(i, c)
		}
	}
	if b.k == KApp && b.op == "clip" {
		b = b.args[0]
	}
	x.set(st, in, mkApp("[]", in.Type(), b, i))
	return one(st)
}

func (o *Obj) lengthConst() (int64, bool) {
	if o.length == nil {
		return 0, false
	}
	return o.length.intConst()
}

func (x *Exec) slice(st *State, in *ssa.Slice) *V {
	v := x.eval(st, in.X)
	get := func(a ssa.Value) *V {
		if a == nil {
			return mkNil(nil)
		}
		return x.eval(st, a)
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if c, ok := lo.intConst(); ok && c == 0 {
		lo = mkNil(nil)
	}
	if isStringType(in.X.Type()) {
		if s, ok := v.strConst(); ok {
			l, lok := int64(0), true
			if !lo.isNilConst() {
				l, lok = lo.intConst()
			}
			h, hok := int64(len(s)), true
			if !hi.isNilConst() {
				h, hok = hi.intConst()
			}
			if lok && hok && l >= 0 && l <= h && h <= int64(len(s)) {
				return mkStr(s[l:h])
			}
		}
		return mkApp("substr", in.Type(), v, lo, hi)
	}
	if v.k == KPtr { // slicing an array
		o := st.heap[v.args[0]]
		if o != nil && v.op == "" {
			v = mk(V{k: KSlice, args: v.args, typ: in.Type()})
		} else {
			return x.newSym(st, in, "", in.Type(), nil)
		}
	}
	if !hi.isNilConst() && hi == x.length(st, v) && mx.isNilConst() && v.k != KSlice {
		hi = mkNil(nil)
	}
	if !hi.isNilConst() && v.k == KSlice && hi == x.length(st, v) && mx.isNilConst() {
		hi = mkNil(nil)
	}
	if lo.isNilConst() && hi.isNilConst() && mx.isNilConst() {
		return v
	}
	if v.isNilConst() {
		return v
	}
	// a prefix of a text whose end is known
	if isByteSlice(in.Type()) && lo.isNilConst() && mx.isNilConst() && v.k != KSlice {
		if t, ok := x.text(st, v); ok {
			parts := textParts(t)
			if c, ok := parts[len(parts)-1].strConst(); ok {
				db, d := splitOff(x.length(st, v))
				hb, h := splitOff(hi)
				if db == hb && d >= h && d-h <= int64(len(c)) {
					rest := parts[:len(parts)-1]
					c = c[:len(c)-int(d-h)]
					if c != "" || len(rest) == 0 {
						rest = append(append([]*V{}, rest...), mkStr(c))
					}
					if len(rest) == 1 && isByteSlice(rest[0].typ) {
						return rest[0]
					}
					return mkApp("bytes", in.Type(), catAll(rest))
				}
			}
		}
	}
	// reslicing a reslice from its start
	if v.k == KApp && v.op == "slice" && v.args[1].isNilConst() && !hi.isNilConst() {
		return mkApp("slice", in.Type(), v.args[0], lo, hi, mx)
	}
	return mkApp("slice", in.Type(), v, lo, hi, mx)
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) []*State {
	m, k := x.eval(st, in.X), x.eval(st, in.Index)
	if isStringType(in.X.Type()) {
		x.set(st, in, mkApp("idx", in.Type(), m, k))
		return one(st)
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	inv := x.simplify(st, mkApp("in", types.Typ[types.Bool], m, k))
	// a map literal of the package with a constant key
	if g := x.gmapOf(m); g != nil && g.known {
		if ks, ok := k.strConst(); ok {
			v, found := g.vals[ks]
			if !found {
				inv = mkBool(false)
				v = zeroOf(et)
			} else {
				inv = mkBool(true)
				if v == nil {
					v = mkApp("lookup", et, m, k)
				}
			}
			if in.CommaOk {
				x.set(st, in, mk(V{k: KTuple, args: []*V{v, inv}}))
			} else {
				x.set(st, in, v)
			}
			return one(st)
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && !in.CommaOk {
			// all values true: membership
			all := true
			for _, v := range g.vals {
				if v == nil {
					all = false
				} else if t, ok := v.boolConst(); !ok || !t {
					all = false
				}
			}
			if all {
				x.set(st, in, inv)
				return one(st)
			}
		}
	}
	if m.k == KMap {
		o := st.heap[m.args[0]]
		var v *V
		if ks, ok := k.strConst(); ok && o != nil {
			if c, ok := o.cells["["+ks+"]"]; ok {
				v = c
			}
		}
		if v == nil {
			sh := topShape(et, 3)
			if o != nil {
				if e := x.elemShape(st, o); e != nil {
					sh = e.clone()
					if sh.Name == symKeyName {
						sh.Name = k
					}
					if sh.Elem != nil && sh.Elem.Name == symKeyName {
						e2 := sh.Elem.clone()
						e2.Name = k
						sh.Elem = e2
					}
				} else {
					sh.Shared = false
					sh.Elem = nil
				}
				if n, ok := o.lengthConst(); ok && n == 0 && o.summary == nil && len(o.cells) == 0 {
					x.assume(st, inv, false)
					inv = mkBool(false)
				}
			}
			if f, ok := inv.boolConst(); ok && !f {
				v = zeroOf(et)
			} else {
				if t, ok := inv.boolConst(); !ok || !t {
					if nillable(et) {
						sh.Nil |= 1
					} else if !in.CommaOk {
						sh.orZero()
					}
				}
				if x.h.LongText {
					v = mkApp("lookup", et, m, k)
				} else {
					v = x.newSym(st, in, "", et, sh)
				}
				inv = x.simplify(st, mkApp("in", types.Typ[types.Bool], m, k))
			}
		}
		if in.CommaOk {
			if _, ok := inv.boolConst(); !ok && (v.k == KSym || x.h.LongText && v.k == KApp && v.op == "lookup") {
				// fork so that a miss yields the zero value
				miss := st.clone()
				var outs []*State
				if x.assume(miss, inv, false) {
					x.decided(miss, inv, false, in)
					x.set(miss, in, mk(V{k: KTuple, args: []*V{zeroOf(et), mkBool(false)}}))
					outs = append(outs, miss)
				}
				if x.assume(st, inv, true) {
					x.decided(st, inv, true, in)
					if e := x.foundShape(st, o, k); e != nil {
						st.facts[v] = e
					}
					x.set(st, in, mk(V{k: KTuple, args: []*V{v, mkBool(true)}}))
					outs = append(outs, st)
				}
				return outs
			}
			x.set(st, in, mk(V{k: KTuple, args: []*V{v, inv}}))
		} else {
			x.set(st, in, v)
		}
		return one(st)
	}
	v := mkApp("lookup", et, m, k)
	if f, ok := inv.boolConst(); ok && !f {
		v = zeroOf(et)
	}
	if in.CommaOk {
		if _, ok := inv.boolConst(); !ok {
			miss := st.clone()
			var outs []*State
			if x.assume(miss, inv, false) {
				x.decided(miss, inv, false, in)
				x.set(miss, in, mk(V{k: KTuple, args: []*V{zeroOf(et), mkBool(false)}}))
				outs = append(outs, miss)
			}
			if x.assume(st, inv, true) {
				x.decided(st, inv, true, in)
				x.set(st, in, mk(V{k: KTuple, args: []*V{v, mkBool(true)}}))
				outs = append(outs, st)
			}
			return outs
		}
		x.set(st, in, mk(V{k: KTuple, args: []*V{v, inv}}))
	} else {
		x.set(st, in, v)
	}
	return one(st)
}

func (x *Exec) decided(st *State, c *V, b bool, in ssa.Instruction) {
	if x.h.OnBranch != nil {
		x.h.OnBranch(x, st, c, b, in)
	}
}

func (x *Exec) foundShape(st *State, o *Obj, k *V) *Shape {
	if o == nil {
		return nil
	}
	e := x.elemShape(st, o)
	if e == nil {
		return nil
	}
	sh := e.clone()
	if sh.Name == symKeyName {
		sh.Name = k
	}
	if sh.Elem != nil && sh.Elem.Name == symKeyName {
		e2 := sh.Elem.clone()
		e2.Name = k
		sh.Elem = e2
	}
	return sh
}

// symKeyName stands, in the value shape of a map, for "the key it is stored under".
var symKeyName = mkSym("$key", types.Typ[types.String])

func (x *Exec) gmapOf(m *V) *GMap {
	if m.k == KApp && m.op == "*" && m.args[0].k == KGlobal {
		return x.p.gmaps[m.args[0].gl]
	}
	return nil
}

// mapUpdates does the update; where it has been looked up whether the key is there and that is not decided
// yet, it is decided before.
func (x *Exec) mapUpdates(st *State, in *ssa.MapUpdate) []*State {
	m, k := x.eval(st, in.Map), x.eval(st, in.Key)
	states := []*State{st}
	key := mkApp("in", types.Typ[types.Bool], m, k)
	if m.k == KMap && held(st, key) {
		states = states[:0]
		for _, b := range []bool{true, false} {
			if was, known := x.simplify(st, key).boolConst(); known && was != b {
				continue
			}
			s := st.clone()
			if !x.assume(s, key, b) {
				continue
			}
			memo := map[*V]*V{}
			for _, f := range s.frames {
				for v, val := range f.env {
					f.env[v] = replaced(val, key, mkBool(b), memo)
				}
			}
			states = append(states, s)
		}
	}
	for _, s := range states {
		x.mapUpdate(s, x.eval(s, in.Map), x.eval(s, in.Key), x.eval(s, in.Value), in)
	}
	return states
}

// replaced is v with from replaced by to.
func replaced(v, from, to *V, memo map[*V]*V) *V {
	if v == from {
		return to
	}
	if v == nil || !mentions(v, from) {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	args := make([]*V, len(v.args))
	for i, a := range v.args {
		args[i] = replaced(a, from, to, memo)
	}
	var r *V
	if v.k == KApp {
		r = rebuild(v, args)
	} else {
		n := *v
		n.args, n.leaves, n.depth, n.id = args, nil, 0, 0
		r = mk(n)
	}
	memo[v] = r
	return r
}

// held: something that is in use says v.
func held(st *State, v *V) bool {
	for _, f := range st.frames {
		for _, val := range f.env {
			if mentions(val, v) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) mapUpdate(st *State, m, k, v *V, in ssa.Instruction) {
	if x.h.OnMutate != nil {
		x.h.OnMutate(x, st, "map", m, v, in)
	}
	if m.k != KMap {
		x.publish(st, v)
		return
	}
	o := st.heap[m.args[0]]
	if o == nil {
		return
	}
	key := mkApp("in", types.Typ[types.Bool], m, k)
	was, known := x.simplify(st, key).boolConst()
	for f := range st.facts {
		if f.k == KApp && f.op == "in" && f.args[0] == m && f != key {
			if s := st.facts[f]; s.B == 2 {
				delete(st.facts, f)
			}
		}
	}
	x.refine(st, key, func(s *Shape) { s.B = 1 })
	if o.length != nil && !o.big {
		if known && !was {
			x.bumpLen(st, m.args[0], o, addc(o.length, 1), in)
		} else if !known {
			s := x.newSym(st, in, "#maplen", types.Typ[types.Int], nil)
			f := st.facts[s].clone()
			f.Lo = 1
			st.facts[s] = f
			o.length = s
		}
	}
	x.publish(st, v)
	sh := x.general1(st, v)
	// remember when values are stored under their own name
	if sh.Name != nil && sh.Name == k {
		sh.Name = symKeyName
	} else {
		sh.Name = x.nameOr(st, v, k, sh.Name)
	}
	if sh.Elem != nil {
		e := sh.Elem.clone()
		if e.Name == k {
			e.Name = symKeyName
		}
		sh.Elem = e
	}
	if ks, ok := k.strConst(); ok && o.summary == nil && len(o.cells) < 24 {
		o.cells["["+ks+"]"] = v
		return
	}
	if k.isConst() && len(o.cells) >= 24 {
		// a large literal: only the join of its values is kept
		for c, v := range o.cells {
			o.summary = joinShape(o.summary, x.general1(st, v))
			delete(o.cells, c)
		}
		o.big = true
		for f := range st.facts {
			if f.k == KApp && f.op == "in" && f.args[0] == m && f.args[1].isConst() {
				delete(st.facts, f)
			}
		}
		s := x.newSym(st, in, "#maplen", types.Typ[types.Int], nil)
		f := st.facts[s].clone()
		f.Lo = 1
		st.facts[s] = f
		o.length = s
	}
	if o.big && k.isConst() {
		delete(st.facts, key)
	}
	o.summary = joinShape(o.summary, sh)
}

func (x *Exec) nameOr(st *State, v, k, name *V) *V {
	if k.k == KApp && k.op == "Name" && k.args[0] == v {
		return symKeyName
	}
	return name
}

// bumpLen sets the length of an object, widening lengths that keep growing.
func (x *Exec) bumpLen(st *State, ov *V, o *Obj, n *V, in ssa.Instruction) {
	if x.h.PreciseLen {
		o.length = n
		return
	}
	if c, ok := n.intConst(); ok && c <= 3 {
		o.length = n
		return
	}
	lo := x.shape(st, n).Lo
	s := mkSym(x.site(st, in)+"#len", types.Typ[types.Int])
	if o.length != s {
		st.fresh(s)
	}
	f := topShape(types.Typ[types.Int], 0)
	f.Lo = max(0, min(lo, 1))
	st.facts[s] = f
	o.length = s
}

func (x *Exec) next(st *State, in *ssa.Next) []*State {
	r := x.eval(st, in.Iter)
	coll := r
	if r.k == KApp && strings.HasPrefix(r.op, "range:") {
		coll = r.args[0]
	}
	tt := in.Type().(*types.Tuple)
	done := st.clone()
	x.set(done, in, mk(V{k: KTuple, args: []*V{mkBool(false), zeroIfValid(tt.At(1).Type()), zeroIfValid(tt.At(2).Type())}}))
	outs := []*State{}
	if in.IsString {
		k := x.newSym(st, in, "#k", types.Typ[types.Int], nil)
		f := st.facts[k].clone()
		f.Lo = 0
		st.facts[k] = f
		v := x.newSym(st, in, "#v", types.Typ[types.Rune], nil)
		_ = v
		x.set(st, in, mk(V{k: KTuple, args: []*V{mkBool(true), k, mkApp("runeat", types.Typ[types.Rune], coll, k)}}))
		return append(outs, st, done)
	}
	// a fresh map known to be empty has no iterations
	if coll.k == KMap {
		if o := st.heap[coll.args[0]]; o != nil {
			if n, ok := o.lengthConst(); ok && n == 0 {
				return []*State{done}
			}
		}
	}
	if coll.isNilConst() {
		return []*State{done}
	}
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	var k, v *V
	var mt *types.Map
	if coll.typ != nil {
		mt, _ = coll.typ.Underlying().(*types.Map)
	}
	if mt != nil {
		kt, vt = mt.Key(), mt.Elem()
	}
	k = x.newSym(st, in, "#k", kt, nil)
	_ = x.assume(st, mkApp("in", types.Typ[types.Bool], coll, k), true)
	sh := topShape(vt, 3)
	if coll.k == KMap {
		if o := st.heap[coll.args[0]]; o != nil {
			if e := x.foundShape(st, o, k); e != nil {
				sh = e
			}
		}
	} else if e := x.shape(st, coll).Elem; e != nil {
		sh = e.clone()
	}
	v = x.newSym(st, in, "#v", vt, sh)
	k2 := k
	x.set(st, in, mk(V{k: KTuple, args: []*V{mkBool(true), k2, v}}))
	return append(outs, st, done)
}

func zeroIfValid(t types.Type) *V {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return mkNil(nil)
	}
	return zeroOf(t)
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	v := x.eval(st, in.X)
	t := in.AssertedType
	okRes := func(s *State, val *V) {
		if in.CommaOk {
			x.set(s, in, mk(V{k: KTuple, args: []*V{val, mkBool(true)}}))
		} else {
			x.set(s, in, val)
		}
	}
	fail := func(s *State) []*State {
		if in.CommaOk {
			x.set(s, in, mk(V{k: KTuple, args: []*V{zeroOf(t), mkBool(false)}}))
			return one(s)
		}
		x.panics(s, in, "the value need not be a "+types.TypeString(t, shortQ)+": the type assertion panics")
		return nil // panics
	}
	if v.isNilConst() {
		return fail(st)
	}
	_, isTP := t.(*types.TypeParam)
	isIface := types.IsInterface(t) && !isTP
	if v.k == KIface {
		if isIface {
			if types.Implements(v.typ, t.Underlying().(*types.Interface)) {
				okRes(st, v)
				return one(st)
			}
			return fail(st)
		}
		if types.Identical(v.typ, t) {
			okRes(st, v.args[0])
			return one(st)
		}
		if !isTP {
			return fail(st)
		}
	}
	sh := x.shape(st, v)
	var outs []*State
	if isIface {
		it := t.Underlying().(*types.Interface)
		known, val := false, false
		if sh.Dyn != nil {
			known, val = true, types.Implements(sh.Dyn, it)
		} else if hasIface(sh.Is, it) || (v.typ != nil && types.IsInterface(v.typ) && types.Implements(v.typ, it)) {
			known, val = sh.Nil == 2, true
		} else if hasType(sh.NotDyn, t) {
			known, val = true, false
		}
		if !known || !val {
			f := st
			if !known {
				f = st.clone()
			}
			feasible := true
			if !known && !(hasIface(sh.Is, it)) {
				feasible = x.refine(f, v, func(s *Shape) { s.NotDyn = append(append([]types.Type{}, s.NotDyn...), t) })
			}
			if feasible {
				outs = append(outs, fail(f)...)
			}
			if known {
				return outs
			}
		}
		if x.refine(st, v, func(s *Shape) {
			s.Nil &= 2
			s.Is = append(append([]types.Type{}, s.Is...), t)
			x.narrow(s)
		}) {
			okRes(st, v)
			outs = append([]*State{st}, outs...)
		}
		return outs
	}
	// concrete type (or type parameter)
	possible := true
	if sh.Dyn != nil && !isTP && !types.Identical(sh.Dyn, t) {
		possible = false
	}
	if hasType(sh.NotDyn, t) {
		possible = false
	}
	for _, i := range sh.Is {
		if !isTP && !types.Implements(t, i.Underlying().(*types.Interface)) {
			possible = false
		}
	}
	for _, i := range sh.NotDyn {
		if it, ok := i.Underlying().(*types.Interface); ok && !isTP && types.Implements(t, it) {
			possible = false
		}
	}
	if possible && !isTP && types.Implements(t, x.p.node) && sh.Kind&x.p.kindOf(t) == 0 {
		possible = false
	}
	if possible && v.typ != nil && types.IsInterface(v.typ) && !isTP {
		if it, ok := v.typ.Underlying().(*types.Interface); ok && !types.Implements(t, it) {
			possible = false
		}
	}
	certain := sh.Dyn != nil && types.Identical(sh.Dyn, t) && sh.Nil == 2
	if !certain {
		f := st
		if possible {
			f = st.clone()
		}
		if possible && !isTP {
			x.refine(f, v, func(s *Shape) {
				if s.Dyn == nil {
					s.NotDyn = append(append([]types.Type{}, s.NotDyn...), t)
				}
			})
		}
		outs = append(outs, fail(f)...)
	}
	if possible {
		if x.refine(st, v, func(s *Shape) {
			s.Nil &= 2
			s.Dyn = t
			if !isTP && types.Implements(t, x.p.node) {
				s.Kind &= x.p.kindOf(t)
			}
		}) {
			d := mkApp("data", t, v)
			okRes(st, x.simplify(st, d))
			outs = append([]*State{st}, outs...)
		}
	}
	return outs
}

func (x *Exec) panics(st *State, in ssa.Instruction, msg string) {
	if x.h.OnPanic != nil {
		x.h.OnPanic(x, st, in, msg)
	}
}

func (x *Exec) narrow(s *Shape) {}

func hasIface(l []types.Type, it *types.Interface) bool {
	for _, t := range l {
		if i, ok := t.Underlying().(*types.Interface); ok && types.Implements(t, it) {
			_ = i
			return true
		}
	}
	return false
}

// text is the text a byte slice or string value holds, if known.
func (x *Exec) text(st *State, v *V) (*V, bool) {
	switch v.k {
	case KConst:
		if _, ok := v.strConst(); ok {
			return v, true
		}
		if v.isNilConst() {
			return mkStr(""), true
		}
	case KApp:
		switch v.op {
		case "gbytes", "bytes":
			return v.args[0], true
		case "string":
			return x.text2(st, v.args[0]), true
		case "cat":
			return v, true
		case "slice":
			if n, ok := v.args[2].intConst(); ok && n == 0 && isByteSlice(v.typ) {
				return mkStr(""), true
			}
		}
	case KSlice:
		o := st.heap[v.args[0]]
		if o == nil {
			return nil, false
		}
		if c, ok := o.cells["$text"]; ok {
			return c, true
		}
		n, ok := o.lengthConst()
		if !ok || o.summary != nil {
			return nil, false
		}
		buf := make([]byte, n)
		for i := range buf {
			if c, ok := o.cells[fmt.Sprintf("[%d]", i)]; ok {
				b, ok := c.intConst()
				if !ok {
					return nil, false
				}
				buf[i] = byte(b)
			} else if !o.zero {
				return nil, false
			}
		}
		return mkStr(string(buf)), true
	}
	return nil, false
}

func (x *Exec) text2(st *State, v *V) *V {
	if t, ok := x.text(st, v); ok {
		return t
	}
	return v
}
