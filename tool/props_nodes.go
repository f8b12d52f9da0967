package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ctxParam reports whether t is the render context, or an interface that hands it out.
func (p *Prog) ctxParam(t types.Type) bool {
	return p.isCtxPtr(t) || p.impIface != nil && types.IsInterface(t) && types.Identical(t.Underlying(), p.impIface)
}

// callbackSig: functions of the user that take part in a render.
func (p *Prog) callbackSig(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if p.ctxParam(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// liveCtx: v is a context (or holds one) that exists: not nil.
func (x *Exec) liveCtx(st *State, v *V) (bool, string) {
	v = x.simplify(st, v)
	if v.k == KIface {
		in := v.args[0]
		if in.k == KPtr {
			if o := st.heap[in.args[0]]; o != nil && o.typ != nil && isStructT(o.typ) {
				s := o.typ.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if x.p.isCtxPtr(s.Field(i).Type()) {
						c := o.cells[in.op+"."+s.Field(i).Name()]
						if c == nil {
							return false, "it holds no context"
						}
						return x.liveCtx(st, c)
					}
				}
			}
		}
		return true, ""
	}
	if v.isNilConst() {
		return false, "it is nil"
	}
	if x.shape(st, v).Nil != 2 {
		return false, fmt.Sprintf("it can be nil (%s)", v)
	}
	return true, ""
}

// callbackChecks (C24): user functions run only while rendering, with a context.
func callbackChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	h := &Hooks{Mode: ModeOK}
	building := func(x *Exec, st *State) bool { return x.rootKind == "func" }
	h.OnDyn = func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) {
		if !x.p.callbackSig(sig) {
			return
		}
		pos := x.p.instrPos(in)
		key := "callback called at " + pos + " in " + x.root
		st.mon["called"] = mkBool(true)
		if building(x, st) {
			rep.check(false, key, pos, x.root, "a function that belongs to the render is called while a node is built")
			return
		}
		for i, v := range args {
			if i >= sig.Params().Len() || !x.p.ctxParam(sig.Params().At(i).Type()) {
				continue
			}
			ok, why := x.liveCtx(st, v)
			rep.check(ok, key, pos, x.root, "the function does not get the context of the render: "+why)
		}
	}
	h.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) {
		pos := x.p.instrPos(in)
		key := "render of a node at " + pos + " in " + x.root
		if building(x, st) {
			rep.check(false, key, pos, x.root, "a node is rendered while another is built")
			return
		}
		ok, why := x.liveCtx(st, ctx)
		rep.check(ok, key, pos, x.root, "the node does not get the context of the render: "+why)
	}
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		if what != "store" && what != "map" || !renderSide(Root{kind: x.rootKind}) || val == nil || val.isConst() {
			return
		}
		if ow := x.owner(st, target); ow == "fresh" || ow == "own" || ow == "ctx" {
			return
		}
		pos := x.p.instrPos(in)
		rep.check(false, what+" at "+pos+" in "+x.root, pos, x.root, fmt.Sprintf("what is made in one render (%s) is kept for others", val))
	}
	c := &Check{h: h, filter: func(r Root) bool { return !isGenerator(r.fn) }}
	c.exit = func(x *Exec, r Root, e Exit) {
		rep.check(true, "function "+r.fn.String(), "", "", "")
		if e.panic || r.kind != "render" && !(r.kind == "rec" && strings.Contains(strings.ToLower(r.fn.Name()), "render") && r.fn.Signature.Recv() != nil) {
			return
		}
		// the function a node is made with is called in every render
		s, ok := deref(recvType(r.fn)).Underlying().(*types.Struct)
		for i := 0; ok && i < s.NumFields(); i++ {
			f := s.Field(i)
			sig, isF := f.Type().Underlying().(*types.Signature)
			if !isF || !x.p.callbackSig(sig) {
				continue
			}
			t := recvType(r.fn)
			name, self := typeName(deref(t))+"."+f.Name(), mkSym(fmt.Sprintf("$p:%s#0", r.fn), t)
			own := mkApp("field:"+name, f.Type(), self)
			if _, ptr := t.(*types.Pointer); ptr {
				own = mkApp("*", f.Type(), mkApp("fa:"+name, types.NewPointer(f.Type()), self))
			}
			known := x.shape(e.st, own).Nil == 1
			pos := x.p.pos(r.fn.Pos())
			rep.check(known || e.st.mon["called"] != nil, "function "+f.Name()+" of "+r.fn.String(), pos, x.root, "a render can succeed without calling the function that was given to the node")
		}
	}
	return a.run(c, rep)
}

// nilChecks (C14): nothing that can be nil is called, invoked or dereferenced.
func nilChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	h := &Hooks{Mode: ModeOK}
	nonNil := func(x *Exec, st *State, v *V, what string, in ssa.Instruction) {
		pos := x.p.instrPos(in)
		v = x.simplify(st, v)
		ok := false
		switch v.k {
		case KIface, KFunc, KPtr, KSlice, KMap, KGlobal, KStruct:
			ok = true
		case KConst:
			ok = !v.isNilConst()
		default:
			ok = x.shape(st, v).Nil == 2
		}
		rep.check(ok, what+" at "+pos+" in "+x.root, pos, x.root, fmt.Sprintf("%s can be nil here (%s)", what, v))
	}
	h.OnInvoke = func(x *Exec, st *State, recv *V, m *types.Func, args []*V, in ssa.Instruction) {
		if r := recvIface(m); r == nil || !(types.Implements(r, x.p.node) || x.p.repoIface(r)) {
			return
		}
		nonNil(x, st, recv, "the node", in)
	}
	h.OnDyn = func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) {
		if x.p.callbackSig(sig) {
			nonNil(x, st, fn, "the function", in)
		}
	}
	h.OnDeref = func(x *Exec, st *State, v *V, in ssa.Instruction) {
		pt, ok := typUnder(v.typ).(*types.Pointer)
		if !ok || !types.Implements(v.typ, x.p.node) {
			return
		}
		_ = pt
		nonNil(x, st, v, "the node", in)
	}
	c := &Check{h: h, filter: func(r Root) bool { return !isGenerator(r.fn) }}
	c.exit = func(x *Exec, r Root, e Exit) {
		rep.check(true, "function "+r.fn.String(), "", "", "")
	}
	return a.run(c, rep)
}

// repoIface: an interface declared in the repository.
func (p *Prog) repoIface(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !types.IsInterface(t) {
		return false
	}
	return p.byPath[n.Obj().Pkg().Path()] != nil
}
