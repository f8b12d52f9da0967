package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: looking things up in the render data never panics.

const rv = "(reflect.Value)."

// isRType reports whether t is reflect.Type.
func isRType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Type"
}

func rop(v *V) string {
	if v.k == KApp {
		if s, ok := strings.CutPrefix(v.op, "ext:"); ok {
			return s
		}
		if strings.HasPrefix(v.op, "rtype:") {
			return v.op
		}
	}
	return ""
}

// reflTerm normalises terms about types: Kind of the Type of a value is its Kind.
func reflTerm(op string, t types.Type, args []*V) *V {
	if op == "rtype:Kind" {
		switch rop(args[0]) {
		case rv + "Type":
			return mkApp("ext:"+rv+"Kind", t, args[0].args[0])
		case "reflect.TypeOf":
			return mkApp("ext:"+rv+"Kind", t, mkApp("ext:reflect.ValueOf", nil, args[0].args[0]))
		}
	}
	return mkApp(op, t, args...)
}

// kindsOf is the set of kinds the value (or type) can have on this path.
func (x *Exec) rkinds(st *State, v *V) map[reflect.Kind]bool {
	r := map[reflect.Kind]bool{}
	if rop(v) == "reflect.Indirect" {
		in := x.rkinds(st, v.args[0])
		if !in[reflect.Pointer] {
			return in
		}
	}
	k := mkApp("ext:"+rv+"Kind", types.Typ[types.Uint], v)
	if isRType(v.typ) {
		k = reflTerm("rtype:Kind", types.Typ[types.Uint], []*V{v})
	}
	for i := reflect.Invalid; i <= reflect.UnsafePointer; i++ {
		if b, ok := x.simplify(st, equal(k, mkInt(int64(i)))).boolConst(); ok && !b {
			continue
		}
		if b, ok := x.simplify(st, equal(k, mkInt(int64(i)))).boolConst(); ok && b {
			return map[reflect.Kind]bool{i: true}
		}
		r[i] = true
	}
	if r[reflect.Invalid] && x.rvalid(st, v) {
		delete(r, reflect.Invalid)
	}
	return r
}

// rvalid: v is known not to be the zero Value, apart from its kind.
func (x *Exec) rvalid(st *State, v *V) bool {
	if isRType(v.typ) {
		return true
	}
	if b, ok := x.simplify(st, mkApp("ext:"+rv+"IsValid", types.Typ[types.Bool], v)).boolConst(); ok {
		return b
	}
	switch op := rop(v); {
	case op == "reflect.ValueOf":
		a := x.simplify(st, v.args[0])
		if a.k == KIface {
			return true
		}
		return !a.isNilConst() && x.shape(st, a).Nil == 2
	case op == rv+"Index", op == rv+"Field", op == rv+"Convert", op == "reflect.New", op == "reflect.Zero", op == rv+"Slice", op == rv+"Method":
		return true
	case op == rv+"FieldByIndexErr#0":
		e := mkApp("ext:"+rv+"FieldByIndexErr#1", errT, v.args...)
		return x.shape(st, e).Nil == 1
	}
	return false
}

// rexported: v was not reached through an unexported field.
func (x *Exec) rexported(st *State, v *V) (bool, bool) {
	if b, ok := x.simplify(st, mkApp("ext:"+rv+"CanInterface", types.Typ[types.Bool], v)).boolConst(); ok {
		return b, true
	}
	switch op := rop(v); {
	case op == "reflect.ValueOf", op == "reflect.New", op == "reflect.Zero":
		return true, true
	case op == rv+"Elem", op == rv+"Index", op == rv+"MapIndex", op == rv+"Convert", op == "reflect.Indirect", op == rv+"Slice", op == rv+"Addr":
		return x.rexported(st, v.args[0])
	case strings.HasPrefix(op, rv+"Field"):
		return false, true
	}
	return false, false
}

// rknown: the term is built from reflection of data; otherwise nothing can be said about it.
func rknown(v *V) bool {
	op := rop(v)
	return strings.HasPrefix(op, rv) || strings.HasPrefix(op, "reflect.") || strings.HasPrefix(op, "rtype:")
}

func kinds(ks ...reflect.Kind) map[reflect.Kind]bool {
	m := map[reflect.Kind]bool{}
	for _, k := range ks {
		m[k] = true
	}
	return m
}

var intKinds = kinds(reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
var uintKinds = kinds(reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)

// reflNeeds are the kinds the receiver of a reflect method must have.
var reflNeeds = map[string]map[reflect.Kind]bool{
	rv + "Elem": kinds(reflect.Pointer, reflect.Interface), rv + "MapIndex": kinds(reflect.Map), rv + "MapKeys": kinds(reflect.Map), rv + "MapRange": kinds(reflect.Map),
	rv + "Len":         kinds(reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String),
	rv + "Cap":         kinds(reflect.Array, reflect.Chan, reflect.Slice),
	rv + "Index":       kinds(reflect.Array, reflect.Slice, reflect.String),
	rv + "FieldByName": kinds(reflect.Struct), rv + "FieldByIndex": kinds(reflect.Struct), rv + "FieldByIndexErr": kinds(reflect.Struct), rv + "FieldByNameFunc": kinds(reflect.Struct),
	rv + "Field": kinds(reflect.Struct), rv + "NumField": kinds(reflect.Struct),
	rv + "IsNil": kinds(reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer),
	rv + "Int":   intKinds, rv + "Uint": uintKinds, rv + "Float": kinds(reflect.Float32, reflect.Float64), rv + "Bool": kinds(reflect.Bool),
	rv + "Complex": kinds(reflect.Complex64, reflect.Complex128), rv + "Bytes": kinds(reflect.Slice), rv + "Slice": kinds(reflect.Array, reflect.Slice, reflect.String),
	"rtype:Key": kinds(reflect.Map), "rtype:Elem": kinds(reflect.Array, reflect.Chan, reflect.Map, reflect.Pointer, reflect.Slice),
	"rtype:FieldByName": kinds(reflect.Struct), "rtype:Field": kinds(reflect.Struct), "rtype:NumField": kinds(reflect.Struct), "rtype:FieldByIndex": kinds(reflect.Struct),
	"rtype:Len": kinds(reflect.Array), "rtype:NumIn": kinds(reflect.Func), "rtype:NumOut": kinds(reflect.Func), "rtype:In": kinds(reflect.Func), "rtype:Out": kinds(reflect.Func),
}

// reflValid are the methods that need no more than a valid receiver.
var reflValid = map[string]bool{rv + "Type": true, rv + "CanInterface": true, rv + "IsZero": true, rv + "Interface": true, rv + "NumMethod": true, rv + "Convert": true, rv + "MethodByName": true}

// reflFree never panic.
var reflFree = map[string]bool{rv + "Kind": true, rv + "IsValid": true, rv + "CanAddr": true, rv + "CanSet": true, rv + "String": true, rv + "CanInt": true, rv + "CanUint": true, rv + "CanFloat": true, rv + "CanConvert": true,
	rv + "Comparable": true, "reflect.ValueOf": true, "reflect.TypeOf": true, "reflect.Indirect": true, "reflect.DeepEqual": true, "reflect.Zero": true, "reflect.New": true,
	"rtype:Kind": true, "rtype:Name": true, "rtype:String": true, "rtype:PkgPath": true, "rtype:NumMethod": true, "rtype:Comparable": true, "rtype:Size": true}

func subset(a, b map[reflect.Kind]bool) (bool, reflect.Kind) {
	for k := reflect.Invalid; k <= reflect.UnsafePointer; k++ {
		if a[k] && !b[k] {
			return false, k
		}
	}
	return true, 0
}

// lookupRoot: code that looks data up while rendering.
func (p *Prog) lookupRoot(r Root) bool {
	fn := r.fn
	if pkg := fn.Package(); pkg != nil && pkg.Pkg.Path() == p.mod+"/context" && fn.Parent() == nil && r.kind != "ctxmethod" {
		return fn.Signature.Params().Len() > 0 && p.isCtxPtr(fn.Signature.Params().At(0).Type()) && !strings.HasPrefix(fn.Name(), "Must")
	}
	if r.kind == "closure" {
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if p.isCtxPtr(fn.Signature.Params().At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func panicChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	h := &Hooks{Mode: ModeOK}
	h.OnPanic = func(x *Exec, st *State, in ssa.Instruction, msg string) {
		pos := x.p.instrPos(in)
		rep.check(false, "panic at "+pos+" in "+x.root, pos, x.root, msg)
	}
	nonNil := func(x *Exec, st *State, v *V, what string, in ssa.Instruction) {
		pos := x.p.instrPos(in)
		v = x.simplify(st, v)
		ok := false
		switch v.k {
		case KIface, KFunc, KPtr, KSlice, KMap, KGlobal, KStruct:
			ok = true
		case KConst:
			ok = !v.isNilConst()
		default:
			ok = x.shape(st, v).Nil == 2
		}
		rep.check(ok, what+" at "+pos+" in "+x.root, pos, x.root, what+" can be nil here")
	}
	h.OnDyn = func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) {
		nonNil(x, st, fn, "the function called", in)
	}
	h.OnDeref = func(x *Exec, st *State, v *V, in ssa.Instruction) {
		if v.typ != nil && x.p.isCtxPtr(v.typ) {
			nonNil(x, st, v, "the context", in)
		}
	}
	h.OnExt = func(x *Exec, st *State, name string, args []*V, in ssa.Instruction) {
		if s, ok := strings.CutPrefix(name, "invoke:(reflect.Type)."); ok {
			name = "rtype:" + s
		}
		if !strings.HasPrefix(name, rv) && !strings.HasPrefix(name, "reflect.") && !strings.HasPrefix(name, "rtype:") && !strings.HasPrefix(name, "(*reflect.") {
			return
		}
		pos := x.p.instrPos(in)
		key := name + " at " + pos + " in " + x.root
		fail := func(known bool, msg string) {
			if known {
				rep.check(false, key, pos, x.root, msg)
			} else {
				rep.undecided(x.root, pos, name+": "+msg)
			}
		}
		if reflFree[name] {
			rep.check(true, key, pos, x.root, "")
			return
		}
		if len(args) == 0 {
			fail(false, "not modelled")
			return
		}
		v := args[0]
		short := name[strings.LastIndexAny(name, ".:")+1:]
		need, ok := reflNeeds[name]
		if !ok && !reflValid[name] {
			fail(false, "its precondition is not modelled")
			return
		}
		ks := x.rkinds(st, v)
		if ok {
			if good, k := subset(ks, need); !good {
				fail(rknown(v), fmt.Sprintf("%s is called on a value that can be of kind %s: it panics", short, k))
				return
			}
		} else if ks[reflect.Invalid] {
			fail(rknown(v), short+" is called on a value that can be invalid: it panics")
			return
		}
		switch name {
		case rv + "Interface":
			if exp, known := x.rexported(st, v); !exp {
				fail(known, "the value can come from an unexported field: Interface panics")
				return
			}
		case rv + "FieldByName", rv + "FieldByIndex":
			fail(rknown(v), short+" panics when the field is reached through a nil embedded pointer")
			return
		case rv + "MapIndex":
			if msg := x.mapKeyOK(st, v, args[1]); msg != "" {
				fail(rknown(args[1]), msg)
				return
			}
		case rv + "Convert":
			tk := x.rkinds(st, args[1])
			sk := x.rkinds(st, v)
			if rop(v) == "reflect.ValueOf" && v.args[0].k == KIface && isStringType(v.args[0].typ) {
				sk = kinds(reflect.String)
			}
			if good, k := subset(tk, kinds(reflect.String)); !good || len(sk) != 1 || !sk[reflect.String] {
				fail(rknown(args[1]), fmt.Sprintf("it is not shown that the value can be converted to a type of kind %s", k))
				return
			}
		case rv + "Index":
			n := mkApp("ext:"+rv+"Len", types.Typ[types.Int], v)
			i := args[1]
			if b, ok := x.simplify(st, less(i, n)).boolConst(); ok && b && x.shape(st, i).Lo >= 0 {
				break
			}
			if c, ok := i.intConst(); ok && x.shape(st, n).Lo > c {
				break
			}
			_, isConst := i.intConst()
			fail(isConst && rknown(v), "the index can be out of range")
			return
		case rv + "Field":
			fail(false, "the index may be out of range")
			return
		}
		rep.check(true, key, pos, x.root, "")
	}
	c := &Check{h: h, filter: p.lookupRoot}
	c.zeroOK = func(r Root) bool { return true }
	c.exit = func(x *Exec, r Root, e Exit) {
		rep.check(true, "function "+r.fn.String(), "", "", "")
	}
	return a.run(c, rep)
}

// mapKeyOK: key can be used to index map m.
func (x *Exec) mapKeyOK(st *State, m, key *V) string {
	kt := func(t *V) bool { return rop(t) == "rtype:Key" && rop(t.args[0]) == rv+"Type" && t.args[0].args[0] == m }
	switch rop(key) {
	case rv + "Convert":
		if kt(key.args[1]) {
			return ""
		}
	case "reflect.ValueOf":
		// the key type is exactly the type of the key
		for f, s := range st.facts {
			if f.k == KApp && (f.op == "==" || f.op == "eq") && s.B == 1 {
				for i := 0; i < 2; i++ {
					if kt(f.args[i]) && rop(f.args[1-i]) == "reflect.TypeOf" {
						return ""
					}
				}
			}
		}
		return "the key need not be assignable to the key type of the map (a named string type): MapIndex panics"
	}
	return "it is not shown that the key is assignable to the key type of the map"
}
