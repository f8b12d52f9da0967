package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	if m, ok := x.liveAfterMemo[in]; ok {
		return m
	}
	b := in.Block()
	l := x.p.livenessOf(b.Parent())
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l.in[s.Index] {
			live[v] = true
		}
		for _, o := range s.Instrs {
			ph, ok := o.(*ssa.Phi)
			if !ok {
				break
			}
			for j, pr := range s.Preds {
				if pr == b {
					live[ph.Edges[j]] = true
				}
			}
		}
	}
	for i := len(b.Instrs) - 1; i >= 0 && b.Instrs[i] != in; i-- {
		o := b.Instrs[i]
		for _, op := range o.Operands(nil) {
			if *op != nil {
				live[*op] = true
			}
		}
	}
	x.liveAfterMemo[in] = live
	return live
}

// result binds the results of a call.
func (x *Exec) result(st *State, in ssa.Instruction, ret []*V) {
	v, ok := in.(ssa.Value)
	if !ok {
		return
	}
	switch {
	case len(ret) == 1:
		st.top().env[v] = ret[0]
	case len(ret) > 1:
		st.top().env[v] = mk(V{k: KTuple, args: ret})
	}
}

func (x *Exec) call(st *State, cc *ssa.CallCommon, in ssa.Instruction) ([]*State, []Exit) {
	var args []*V
	for _, a := range cc.Args {
		args = append(args, x.eval(st, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return x.builtin(st, b.Name(), args, cc, in), nil
	}
	fv := x.eval(st, cc.Value)
	return x.callValue(st, fv, args, cc, in)
}

func (x *Exec) callValue(st *State, fv *V, args []*V, cc *ssa.CallCommon, in ssa.Instruction) ([]*State, []Exit) {
	if fv.k == KSym && strings.HasPrefix(fv.op, "$builtin:") {
		return x.builtin(st, fv.op[9:], args, cc, in), nil
	}
	if cc.IsInvoke() {
		return x.invoke(st, fv, cc.Method, args, in)
	}
	if fv.k == KFunc {
		return x.callFn(st, fv.fn, args, fv.args, in)
	}
	return x.dyn(st, fv, cc.Signature(), args, in), nil
}

func (x *Exec) invoke(st *State, recv *V, m *types.Func, args []*V, in ssa.Instruction) ([]*State, []Exit) {
	if x.h.OnInvoke != nil {
		x.h.OnInvoke(x, st, recv, m, args, in)
	}
	if recv.k == KIface {
		if fn := x.p.methodOf(recv.typ, m.Name()); fn != nil {
			return x.callFn(st, fn, append([]*V{recv.args[0]}, args...), nil, in)
		}
	}
	if recv.isNilConst() {
		x.panics(st, in, "a method of a nil interface is called")
		return nil, nil // panics
	}
	sh := x.shape(st, recv)
	if sh.Nil == 1 {
		return nil, nil
	}
	if sh.Nil == 3 {
		x.refine(st, recv, func(s *Shape) { s.Nil = 2 })
	}
	if sh.Dyn != nil && recv.k != KIface {
		if fn := x.p.methodOf(sh.Dyn, m.Name()); fn != nil && x.p.inRepo(fn) {
			return x.callFn(st, fn, append([]*V{mkApp("data", sh.Dyn, recv)}, args...), nil, in)
		}
	}
	sig := m.Type().(*types.Signature)
	recvT := recvIface(m)
	if recvT != nil && isRType(recvT) {
		if x.h.OnExt != nil {
			x.h.OnExt(x, st, "invoke:"+m.FullName(), append([]*V{recv}, args...), in)
		}
		var ret []*V
		for i := 0; i < sig.Results().Len(); i++ {
			op := "rtype:" + m.Name()
			if sig.Results().Len() > 1 {
				op += fmt.Sprintf("#%d", i)
			}
			ret = append(ret, x.simplify(st, reflTerm(op, sig.Results().At(i).Type(), append([]*V{recv}, args...))))
		}
		x.result(st, in, ret)
		return one(st), nil
	}
	isNode := recvT != nil && types.Implements(recvT, x.p.node) || (recv.typ != nil && types.IsInterface(recv.typ) && types.Implements(recv.typ, x.p.node))
	switch {
	case m.Name() == "Type" && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), x.p.nodeTypeT):
		if sh.Kind == 1 {
			x.result(st, in, []*V{mkConst(mkInt(x.p.attrConst).c, x.p.nodeTypeT)})
			return one(st), nil
		}
		x.result(st, in, []*V{x.simplify(st, mkApp("Type", x.p.nodeTypeT, recv))})
		return one(st), nil
	case m.Name() == "Name" && sig.Params().Len() == 0 && isNode:
		x.result(st, in, []*V{x.nodeName(st, recv)})
		return one(st), nil
	case m.Name() == "Render" && sig.Params().Len() == 1 && x.p.isCtxPtr(sig.Params().At(0).Type()):
		if x.h.OnChild != nil {
			x.h.OnChild(x, st, recv, args[0], in)
		}
		return x.effects(st, "child", args, sig.Results(), in), nil
	case m.Name() == "Write" && sig.Params().Len() == 1 && isByteSlice(sig.Params().At(0).Type()):
		return x.rawWrite(st, recv, args[0], sig.Results(), in), nil
	case m.Name() == "WriteString" && sig.Params().Len() == 1 && isStringType(sig.Params().At(0).Type()) && sig.Results().Len() == 2:
		return x.rawWrite(st, recv, mkApp("bytes", types.NewSlice(types.Typ[types.Byte]), args[0]), sig.Results(), in), nil
	}
	// interfaces with unexported methods can only be implemented in the repository
	if m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), x.p.mod) && !m.Exported() {
		if impls := x.implementers(m); len(impls) > 0 {
			if getter := x.pureGetters(impls, m.Name()); getter {
				x.result(st, in, []*V{x.simplify(st, mkApp("get:"+m.Name(), sig.Results().At(0).Type(), recv))})
				return one(st), nil
			}
			var outs []*State
			var exits []Exit
			for i, t := range impls {
				n := st
				if i < len(impls)-1 {
					n = st.clone()
				}
				if hasType(sh.NotDyn, t) {
					continue
				}
				if !x.refine(n, recv, func(s *Shape) {
					s.Dyn = t
					if types.Implements(t, x.p.node) {
						s.Kind &= x.p.kindOf(t)
					}
				}) {
					continue
				}
				o, e := x.callFn(n, x.p.methodOf(t, m.Name()), append([]*V{mkApp("data", t, recv)}, args...), nil, in)
				outs = append(outs, o...)
				exits = append(exits, e...)
			}
			return outs, exits
		}
	}
	name := "invoke:" + m.FullName()
	if x.h.OnExt != nil {
		x.h.OnExt(x, st, name, append([]*V{recv}, args...), in)
	}
	outs := x.effects(st, name, append([]*V{recv}, args...), sig.Results(), in)
	if iv, ok := in.(ssa.Value); ok && (m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), x.p.mod)) {
		// bytes that other code makes of something are not bytes the user gave
		for _, o := range outs {
			v, n := o.top().env[iv], sig.Results().Len()
			for i := 0; i < n; i++ {
				r := v
				if n > 1 {
					r = v.args[i]
				}
				if isByteSlice(sig.Results().At(i).Type()) {
					x.refine(o, r, func(s *Shape) { s.Raw = rawAll })
				}
			}
		}
	}
	return outs, nil
}

func recvIface(m *types.Func) types.Type {
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		return r.Type()
	}
	return nil
}

// nodeName is the name of a node.
func (x *Exec) nodeName(st *State, n *V) *V {
	if s := x.shape(st, n); s.Name != nil && s.Name != symKeyName {
		return s.Name
	}
	return mkApp("Name", types.Typ[types.String], n)
}

func (x *Exec) implementers(m *types.Func) []types.Type {
	it, ok := recvIface(m).Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []types.Type
	for _, pk := range x.p.pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			t := tn.Type()
			if types.Implements(t, it) {
				r = append(r, t)
			} else if p := types.NewPointer(t); types.Implements(p, it) {
				r = append(r, p)
			}
		}
	}
	return r
}

// pureGetters reports whether every implementation only returns a field of its receiver.
func (x *Exec) pureGetters(ts []types.Type, name string) bool {
	for _, t := range ts {
		fn := x.p.methodOf(t, name)
		if fn == nil || len(fn.Blocks) != 1 || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			return false
		}
		for _, in := range fn.Blocks[0].Instrs {
			switch in.(type) {
			case *ssa.FieldAddr, *ssa.UnOp, *ssa.Return, *ssa.Field, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return true
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args, bind []*V, in ssa.Instruction) ([]*State, []Exit) {
	if x.h.OnCall != nil {
		if handled, exits := x.h.OnCall(x, st, fn, args, in); handled {
			var outs []*State
			var pex []Exit
			for _, e := range exits {
				if e.panic {
					pex = append(pex, e)
					continue
				}
				x.result(e.st, in, e.ret)
				outs = append(outs, e.st)
			}
			return outs, pex
		}
	}
	if !x.p.inRepo(fn) || len(fn.Blocks) == 0 {
		return x.external(st, fn, args, in), nil
	}
	if n := x.depthOf(fn); n > 0 && !(n <= x.h.Unfold && dynKnown(args)) {
		return x.summary(st, fn, args, in), nil
	}
	if x.isNodeRender(fn) {
		return x.nodeRender(st, args, fn, in), nil
	}
	if x.modular(fn) {
		return x.modularCall(st, fn, args, in), nil
	}
	if len(bind) == 0 && x.pureLoop(fn) {
		if outs, ok := x.pureCall(st, fn, args, in); ok {
			return outs, nil
		}
	}
	// inline
	live := x.liveAfter(in)
	env := st.top().env
	for k := range env {
		if !live[k] {
			delete(env, k)
		}
	}
	depth := len(st.frames)
	exits := x.run(st, fn, args, bind, in, st.top().ctx+"/"+iname(in))
	var outs []*State
	var pex []Exit
	for _, e := range exits {
		if len(e.st.frames) != depth {
			panic(abort{"frame imbalance"})
		}
		if e.panic {
			pex = append(pex, e)
			continue
		}
		x.result(e.st, in, e.ret)
		outs = append(outs, e.st)
	}
	return outs, pex
}

// depthOf is the number of active calls of fn.
func (x *Exec) depthOf(fn *ssa.Function) int {
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	return n
}

// dynKnown: the recursion is driven by a value whose type is known.
func dynKnown(args []*V) bool {
	for _, a := range args {
		if a.k == KIface {
			return true
		}
	}
	return false
}

// modular functions are exported functions called from another package: they are analysed on their
// own and callers only use their result invariants.
func (x *Exec) modular(fn *ssa.Function) bool {
	if fn.Pkg == nil || x.rootP == nil || fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	return fn.Pkg.Pkg != x.rootP
}

func (x *Exec) modularCall(st *State, fn *ssa.Function, args []*V, in ssa.Instruction) []*State {
	for i, a := range args {
		x.publish(st, a)
		x.inv.join(fmt.Sprintf("param:%s#%d", fn, i), x.general(st, a))
	}
	return x.effectsRet(st, "modular", args, fn, in)
}

// summary is a recursive call.
func (x *Exec) summary(st *State, fn *ssa.Function, args []*V, in ssa.Instruction) []*State {
	x.p.recFns[fn] = true
	if !x.inv.closures[fn] {
		x.inv.addClosure(fn)
	}
	for i, a := range args {
		x.publish(st, a)
		s := x.general(st, a)
		s.Shared = true
		x.inv.join(fmt.Sprintf("param:%s#%d", fn, i), s)
	}
	return x.effectsRet(st, "recursive", args, fn, in)
}

func (x *Exec) effectsRet(st *State, kind string, args []*V, fn *ssa.Function, in ssa.Instruction) []*State {
	res := fn.Signature.Results()
	outs := x.effects(st, kind, args, res, in)
	for i := 0; i < res.Len(); i++ {
		if isErrType(res.At(i).Type()) {
			continue
		}
		sh, ok := x.inv.ret(fmt.Sprintf("ret:%s#%d", fn, i))
		if !ok {
			return nil
		}
		for _, o := range outs {
			v := o.top().env[in.(ssa.Value)]
			if res.Len() > 1 {
				v = v.args[i]
			}
			if v.k == KSym {
				o.facts[v] = sh
			}
		}
	}
	return outs
}

// ctxsOf finds the render contexts reachable from the arguments, in order.
func (x *Exec) ctxsOf(st *State, args []*V) []*V {
	var r []*V
	seen := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v.k {
		case KIface, KStruct, KTuple, KFunc:
			for _, a := range v.args {
				walk(a)
			}
		case KPtr, KSlice, KMap:
			o := st.heap[v.args[0]]
			if o == nil {
				return
			}
			if x.isCtxObj(o) {
				for _, c := range r {
					if c == v.args[0] {
						return
					}
				}
				r = append(r, v.args[0])
				return
			}
			var ks []string
			for k := range o.cells {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				walk(o.cells[k])
			}
		}
	}
	for _, a := range args {
		walk(a)
	}
	return r
}

func (x *Exec) isCtxObj(o *Obj) bool {
	if o.typ == nil {
		return false
	}
	n, ok := types.Unalias(o.typ).(*types.Named)
	return ok && n.Obj() == x.p.ctxT.Obj()
}

func (x *Exec) ctxErr(st *State, c *V) *V {
	o := st.heap[c]
	if o == nil {
		return nil
	}
	if v, ok := o.cells[".Error"]; ok {
		return x.simplify(st, v)
	}
	if o.zero {
		return mkNil(errT)
	}
	return nil
}

func (x *Exec) closuresOf(st *State, args []*V) []*V {
	var r []*V
	for _, a := range args {
		if a.k == KIface {
			a = a.args[0]
		}
		if a.k == KFunc && x.p.inRepo(a.fn) && len(a.fn.Blocks) > 0 {
			r = append(r, a)
		}
	}
	return r
}

func (st *State) failed() bool {
	b, _ := st.monOr("failed", mkBool(false)).boolConst()
	return b
}

func (st *State) monOr(k string, d *V) *V {
	if v, ok := st.mon[k]; ok {
		return v
	}
	return d
}

// dyn is a call of an unknown function value.
func (x *Exec) dyn(st *State, fv *V, sig *types.Signature, args []*V, in ssa.Instruction) []*State {
	if x.h.OnDyn != nil {
		x.h.OnDyn(x, st, fv, sig, args, in)
	}
	if fv.isNilConst() || x.shape(st, fv).Nil == 1 {
		return nil // panics
	}
	outs := x.effects(st, "callback", args, sig.Results(), in)
	if x.h.OnDynRet != nil {
		for _, o := range outs {
			x.h.OnDynRet(x, o, fv, sig, args, in)
		}
	}
	return outs
}

// effects models a call of unknown code that receives args: it may call the closures it gets any
// number of times, may fail, and returns unknown results.
func (x *Exec) effects(st *State, kind string, args []*V, res *types.Tuple, in ssa.Instruction) []*State {
	clos := x.closuresOf(st, args)
	if len(clos) == 0 {
		return x.effectsOnce(st, kind, args, res, in)
	}
	// any interleaving of the unknown code's own effects and calls of the closures
	seen := map[string]*State{}
	var order []string
	var work []*State
	addState := func(s *State) {
		s.gc(x.stable, append(append([]*V{}, x.pins...), leavesOf(args)...))
		k := s.key()
		if _, ok := seen[k]; !ok {
			seen[k] = s
			order = append(order, k)
			work = append(work, s)
		}
	}
	addState(st.clone())
	for n := 0; len(work) > 0; n++ {
		if n > 2000 {
			panic(abort{"callback simulation does not converge"})
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		// own effects (without results)
		for _, o := range x.ownEffects(s.clone(), kind, args, in) {
			addState(o)
		}
		for ci, c := range clos {
			t := s.clone()
			var cargs []*V
			for i, p := range c.fn.Params {
				sym := mkSym(x.site(t, in)+fmt.Sprintf("#cb%d.%d", ci, i), p.Type())
				t.fresh(sym)
				t.facts[sym] = topShape(p.Type(), 3)
				if x.p.isCtxPtr(p.Type()) {
					if cs := x.ctxsOf(t, args); len(cs) > 0 {
						cargs = append(cargs, mkPtr(cs[0], "", p.Type()))
						continue
					}
				}
				cargs = append(cargs, sym)
			}
			already := false
			for _, f := range x.stack {
				if f == c.fn {
					already = true
				}
			}
			if already {
				continue
			}
			for _, e := range x.run(t, c.fn, cargs, c.args, in, t.top().ctx+"/"+iname(in)+"!") {
				if !e.panic {
					addState(e.st)
				}
			}
		}
	}
	var outs []*State
	for _, k := range order {
		outs = append(outs, x.resultsOnly(seen[k], kind, args, res, in)...)
	}
	return outs
}

func leavesOf(vs []*V) []*V {
	var r []*V
	for _, v := range vs {
		r = append(r, v.leaves...)
	}
	return r
}

// ownEffects are the effects unknown code can have through the contexts it was given.
func (x *Exec) ownEffects(st *State, kind string, args []*V, in ssa.Instruction) []*State {
	cs := x.ctxsOf(st, args)
	if len(cs) == 0 {
		return nil
	}
	switch x.h.Mode {
	case ModeFail:
		if st.failed() {
			return nil
		}
		var outs []*State
		for i, c := range cs {
			if i > 0 {
				break
			}
			n := st.clone()
			n.heap[c].cells[".Error"] = symFIRST
			n.mon["failed"] = mkBool(true)
			outs = append(outs, n)
		}
		return outs
	case ModeFree:
		n := st.clone()
		for _, c := range cs {
			x.freeErr(n, c, in)
		}
		return []*State{n}
	}
	return nil
}

func (x *Exec) freeErr(st *State, c *V, in ssa.Instruction) {
	s := x.newSym(st, in, "#err", errT, nil)
	st.heap[c].cells[".Error"] = s
}

// resultsOnly produces results for a call whose effects have been applied.
func (x *Exec) resultsOnly(st *State, kind string, args []*V, res *types.Tuple, in ssa.Instruction) []*State {
	errIdx := -1
	for i := 0; i < res.Len(); i++ {
		if isErrType(res.At(i).Type()) {
			errIdx = i
		}
	}
	mkRes := func(s *State, e *V) *State {
		var ret []*V
		for i := 0; i < res.Len(); i++ {
			if i == errIdx {
				ret = append(ret, e)
				continue
			}
			ret = append(ret, x.newSym(s, in, fmt.Sprintf("#%d", i), res.At(i).Type(), x.retShape(s, kind, res.At(i).Type(), args)))
		}
		x.result(s, in, ret)
		return s
	}
	if errIdx < 0 {
		return one(mkRes(st, nil))
	}
	switch x.h.Mode {
	case ModeOK:
		return one(mkRes(st, mkNil(errT)))
	case ModeFree:
		e := x.newSym(st, in, "#ret", errT, nil)
		return one(mkRes(st, e))
	}
	if kind == "recursive" {
		// functions of the repository keep the contract themselves (checked when they are the root)
		if cs := x.ctxsOf(st, args); len(cs) > 0 {
			if !st.failed() {
				return one(mkRes(st, mkNil(errT)))
			}
			if x.ctxErr(st, cs[0]) == symFIRST {
				return one(mkRes(st, symFIRST))
			}
		}
	}
	if st.failed() {
		return []*State{mkRes(st.clone(), mkNil(errT)), mkRes(st.clone(), symFIRST), mkRes(st, symOTHER)}
	}
	n := st.clone()
	n.mon["failed"] = mkBool(true)
	if strings.HasPrefix(kind, "ext:") && readerFn(kind[4:]) {
		if eof := x.p.eof(); eof != nil {
			f := topShape(types.Typ[types.Bool], 0)
			f.B = 2
			n.facts[equal(symFIRST, eof)] = f
			return []*State{mkRes(n, symFIRST), mkRes(st.clone(), eof), mkRes(st, mkNil(errT))}
		}
	}
	return []*State{mkRes(n, symFIRST), mkRes(st, mkNil(errT))}
}

func (x *Exec) effectsOnce(st *State, kind string, args []*V, res *types.Tuple, in ssa.Instruction) []*State {
	outs := x.resultsOnly(st.clone(), kind, args, res, in)
	for _, o := range x.ownEffects(st, kind, args, in) {
		outs = append(outs, x.resultsOnly(o, kind, args, res, in)...)
	}
	return outs
}

// retShape is what is known about the result of unknown code.
func (x *Exec) retShape(st *State, kind string, t types.Type, args []*V) *Shape {
	s := topShape(t, 3)
	if kind == "callback" {
		if i, ok := x.inv.ret("dynret:" + types.TypeString(t, nil)); ok {
			s = joinShape(s, i).clone()
		}
	}
	return s
}

// rawWrite is a write to an io.Writer.
func (x *Exec) rawWrite(st *State, w, data *V, res *types.Tuple, in ssa.Instruction) []*State {
	if x.h.OnRaw != nil {
		x.h.OnRaw(x, st, w, data, in)
	}
	ret := func(s *State, e *V) *State {
		var r []*V
		for i := 0; i < res.Len(); i++ {
			if isErrType(res.At(i).Type()) {
				r = append(r, e)
			} else {
				r = append(r, x.newSym(s, in, fmt.Sprintf("#%d", i), res.At(i).Type(), nil))
			}
		}
		x.result(s, in, r)
		return s
	}
	switch x.h.Mode {
	case ModeFail:
		if st.failed() {
			return []*State{ret(st.clone(), mkNil(errT)), ret(st, symOTHER)}
		}
		n := st.clone()
		n.mon["failed"] = mkBool(true)
		return []*State{ret(n, symFIRST), ret(st, mkNil(errT))}
	case ModeFree:
		e := x.newSym(st, in, "#werr", errT, nil)
		return one(ret(st, e))
	}
	return one(ret(st, mkNil(errT)))
}

// ---------- builtins ----------

func (x *Exec) builtin(st *State, name string, args []*V, cc *ssa.CallCommon, in ssa.Instruction) []*State {
	switch name {
	case "len":
		x.result(st, in, []*V{x.length(st, args[0])})
	case "cap":
		x.result(st, in, []*V{mkApp("cap", types.Typ[types.Int], args[0])})
	case "append":
		var t types.Type
		if v, ok := in.(ssa.Value); ok {
			t = v.Type()
		} else {
			t = args[0].typ
		}
		x.result(st, in, []*V{x.appendTo(st, args[0], args[1], t, in)})
	case "copy":
		if x.h.OnMutate != nil {
			x.h.OnMutate(x, st, "copy", args[0], args[1], in)
		}
		x.absorb(st, args[0], args[1], in)
		x.result(st, in, []*V{x.newSym(st, in, "", types.Typ[types.Int], nil)})
	case "delete":
		if x.h.OnMutate != nil {
			x.h.OnMutate(x, st, "delete", args[0], nil, in)
		}
		for f := range st.facts {
			if f.k == KApp && f.op == "in" && f.args[0] == args[0] {
				delete(st.facts, f)
			}
		}
		if args[0].k == KMap {
			if o := st.heap[args[0].args[0]]; o != nil {
				o.length = nil
			}
		}
	case "clear":
		if x.h.OnMutate != nil {
			x.h.OnMutate(x, st, "clear", args[0], nil, in)
		}
		for f := range st.facts {
			if f.k == KApp && f.op == "in" && f.args[0] == args[0] {
				delete(st.facts, f)
			}
		}
		if args[0].k == KMap {
			if o := st.heap[args[0].args[0]]; o != nil {
				o.length = mkInt(0)
				o.summary = nil
				o.cells = map[string]*V{}
			}
		}
	case "print", "println", "recover":
		if v, ok := in.(ssa.Value); ok {
			x.result(st, in, []*V{mkNil(v.Type())})
		}
	case "min", "max":
		x.result(st, in, []*V{mkApp(name, in.(ssa.Value).Type(), args...)})
	case "ssa:wrapnilchk":
		x.result(st, in, []*V{args[0]})
	default:
		panic(abort{fmt.Sprintf("unsupported builtin %s at %s", name, x.p.instrPos(in))})
	}
	return one(st)
}

// absorb joins the elements of src into dst (copy).
func (x *Exec) absorb(st *State, dst, src *V, in ssa.Instruction) {
	b := dst
	for b.k == KApp && (b.op == "slice" || b.op == "clip") {
		b = b.args[0]
	}
	if b.k != KSlice {
		return
	}
	o := st.heap[b.args[0]]
	if o == nil {
		return
	}
	es := x.shape(st, src).Elem
	for k, c := range o.cells {
		if strings.HasPrefix(k, "[") || k == "$text" || k == "$seq" {
			if k[0] == '[' {
				o.summary = joinShape(o.summary, x.general1(st, c))
			}
			delete(o.cells, k)
		}
	}
	if es == nil && isByteSlice(b.typ) {
		es = topShape(types.Typ[types.Byte], 0)
		es.Shared = false
	}
	if isByteSlice(b.typ) && es != nil {
		es = es.clone()
		es.Raw = x.textRaw(st, src)
	}
	o.summary = joinShape(o.summary, es)
	ver := mkSym(x.site(st, in)+"#ver", nil)
	st.fresh(ver)
	st.heap[b.args[0]].ver = ver
}

func (x *Exec) textRaw(st *State, v *V) uint16 {
	if t, ok := x.text(st, v); ok {
		return x.shape(st, t).Raw
	}
	return x.shape(st, v).Raw
}

func (x *Exec) appendTo(st *State, base, xs *V, t types.Type, in ssa.Instruction) *V {
	if x.h.OnMutate != nil {
		x.h.OnMutate(x, st, "append", base, xs, in)
	}
	bt, ok1 := x.text(st, base)
	if isByteSlice(t) && (base.k != KSlice || ok1) {
		xt, ok2 := x.text(st, xs)
		if !ok1 && base.k == KApp && base.op == "clip" {
			bt, ok1 = x.text(st, base.args[0])
		}
		if !ok1 {
			bt = x.frag(st, base, in, "#b")
		}
		if !ok2 {
			xt = x.frag(st, xs, in, "#x")
		}
		c := mkCat(bt, xt)
		if len(textParts(c)) > x.h.maxParts() {
			raw := x.shape(st, c).Raw
			s := x.newSym(st, in, "#text", types.Typ[types.String], nil)
			f := st.facts[s].clone()
			f.Raw = raw
			st.facts[s] = f
			c = s
		}
		return mkApp("bytes", t, c)
	}
	bs, xsh := x.shape(st, base), x.shape(st, xs)
	ln := add(x.length(st, base), x.length(st, xs))
	o := &Obj{typ: t, kind: "slice"}
	var be, xe *Shape
	if n, ok := x.length(st, base).intConst(); !ok || n != 0 {
		be = bs.Elem
	}
	if base.isNilConst() {
		be = nil
	}
	xe = xsh.Elem
	if n, ok := x.length(st, xs).intConst(); ok && n == 0 {
		xe = nil
	}
	if isByteSlice(t) && xe != nil {
		xe = xe.clone()
		xe.Raw |= x.textRaw(st, xs)
	}
	if xs.k == KSlice {
		if xo := st.heap[xs.args[0]]; xo != nil {
			for _, c := range xo.cells {
				x.publish(st, c)
			}
		}
	}
	if bs.Flags&flagMapOrder != 0 || xsh.Flags&flagMapOrder != 0 || x.h.InOrder != nil && x.h.InOrder(x, st, in) {
		o.mapOrder = true
	}
	// appending in place may overwrite elements that the base's backing array shares
	b := base
	for b.k == KApp && (b.op == "slice" || b.op == "clip") {
		b = b.args[0]
	}
	if b != base && b.k == KSlice {
		if bo := st.heap[b.args[0]]; bo != nil && xe != nil {
			for k, c := range bo.cells {
				if strings.HasPrefix(k, "[") {
					bo.summary = joinShape(bo.summary, x.general1(st, c))
					delete(bo.cells, k)
				}
			}
			bo.summary = joinShape(bo.summary, xe)
		}
	}
	be, xe = looseElem(be), looseElem(xe)
	o.summary = joinShape(be, xe)
	if bs.Nil != 1 && !base.isNilConst() && x.owner(st, base) != "fresh" && !x.exactCap(st, base) && o.summary != nil {
		// the result may share the caller's memory
		o.kind = "slice"
	}
	wasPub := false
	if b.k == KSlice {
		if bo := st.heap[b.args[0]]; bo != nil {
			wasPub = bo.published
		}
	}
	o.published = wasPub
	var sq *V
	if x.tracksSeq(t) {
		if a, b := x.seqOf(st, base), x.seqOf(st, xs); a != nil && b != nil && len(a.args)+len(b.args) <= 8 {
			sq = mkSeq(append(append([]*V{}, a.args...), b.args...)...)
		}
		if b != base && b.k == KSlice {
			if bo := st.heap[b.args[0]]; bo != nil {
				delete(bo.cells, "$seq")
			}
		}
	}
	v := mkObj(x.site(st, in))
	if sq != nil {
		x.parkSeq(st, in, sq)
	}
	st.fresh(v)
	o.cells = map[string]*V{}
	if sq != nil {
		o.cells["$seq"] = x.unparkSeq(st, in)
	}
	st.heap[v] = o
	x.bumpLen(st, v, o, x.simplify(st, ln), in)
	return mk(V{k: KSlice, args: []*V{v}, typ: t})
}

func (x *Exec) tracksSeq(t types.Type) bool {
	return x.h.Seq && (x.h.SeqType == nil || t != nil && x.h.SeqType(t))
}

// a sequence is kept in the state while the object that will hold it is being introduced
func (x *Exec) parkSeq(st *State, in ssa.Instruction, s *V) { st.mon["$seq"] = s }

func (x *Exec) unparkSeq(st *State, in ssa.Instruction) *V {
	s := st.mon["$seq"]
	delete(st.mon, "$seq")
	return s
}

func mkSeq(parts ...*V) *V { return mk(V{k: KTuple, op: "seq", args: parts}) }

// seqOf is the sequence of elements a slice holds: e(v) for an element, spread(s) for all of s.
func (x *Exec) seqOf(st *State, v *V) *V {
	switch v.k {
	case KConst:
		return mkSeq()
	case KSlice:
		o := st.heap[v.args[0]]
		if o == nil {
			return nil
		}
		if s, ok := o.cells["$seq"]; ok {
			return s
		}
		n, ok := o.lengthConst()
		if !ok || o.summary != nil || n > 8 {
			return nil
		}
		var ps []*V
		for i := int64(0); i < n; i++ {
			c, ok := o.cells[fmt.Sprintf("[%d]", i)]
			if !ok {
				if !o.zero {
					return nil
				}
				c = mkNil(nil)
			}
			ps = append(ps, mkApp("e", c.typ, c))
		}
		return mkSeq(ps...)
	case KApp:
		if v.op == "clip" {
			return x.seqOf(st, v.args[0])
		}
		if v.op == "slice" && v.args[0].k == KSlice {
			return nil
		}
	}
	return mkSeq(mkApp("spread", v.typ, v))
}

func looseElem(s *Shape) *Shape {
	if s == nil {
		return nil
	}
	n := *s
	n.Eq, n.B, n.Lo, n.Hi = nil, 0, math.MinInt64, math.MaxInt64
	return &n
}

// exactCap reports whether appending to v is known to reallocate.
func (x *Exec) exactCap(st *State, v *V) bool {
	if v.isNilConst() {
		return true
	}
	if v.k == KApp && (v.op == "clip" || v.op == "gbytes") {
		return true
	}
	return x.shape(st, v).Exact
}

// frag turns a byte slice into a text part whose properties are frozen now.
func (x *Exec) frag(st *State, v *V, in ssa.Instruction, suffix string) *V {
	if v.k == KApp && (v.op == "slice" || v.op == "substr") || v.k == KSlice {
		raw := x.shape(st, v).Raw
		s := x.newSym(st, in, suffix+"frag", types.Typ[types.String], nil)
		f := st.facts[s].clone()
		f.Raw = raw
		st.facts[s] = f
		return s
	}
	return v
}

// isNodeRender reports whether fn is the Render method of a node type of the repository: these are
// analysed on their own, callers rely on their contract (a node renders itself completely, and on
// failure both its result and the error of the context are the first failure).
func (x *Exec) isNodeRender(fn *ssa.Function) bool {
	if r, ok := x.p.renderMemo[fn]; ok {
		return r
	}
	r := false
	if rv := fn.Signature.Recv(); rv != nil && fn.Name() == "Render" && types.Implements(rv.Type(), x.p.node) {
		r = true
	}
	x.p.renderMemo[fn] = r
	return r
}

func (x *Exec) nodeRender(st *State, args []*V, fn *ssa.Function, in ssa.Instruction) []*State {
	recv := mk(V{k: KIface, typ: fn.Signature.Recv().Type(), args: []*V{args[0]}})
	if x.h.OnInvoke != nil && args[0].k != KStruct {
		x.h.OnInvoke(x, st, args[0], fn.Object().(*types.Func), args[1:], in)
	}
	if x.h.OnChild != nil {
		x.h.OnChild(x, st, recv, args[1], in)
	}
	x.publish(st, args[0])
	if x.h.Mode != ModeFail {
		return x.effects(st, "child", args[1:], fn.Signature.Results(), in)
	}
	ret := func(s *State, e *V) *State {
		x.result(s, in, []*V{e})
		return s
	}
	cs := x.ctxsOf(st, args[1:])
	if len(cs) == 0 {
		return x.effects(st, "child", args[1:], fn.Signature.Results(), in)
	}
	if st.failed() {
		e := x.ctxErr(st, cs[0])
		if e == symFIRST {
			return one(ret(st, e))
		}
		return x.effects(st, "child", args[1:], fn.Signature.Results(), in)
	}
	n := st.clone()
	n.mon["failed"] = mkBool(true)
	n.heap[cs[0]].cells[".Error"] = symFIRST
	return []*State{ret(n, symFIRST), ret(st, mkNil(errT))}
}

// eof is the value of io.EOF.
func (p *Prog) eof() *V {
	if pk := p.ssaProg.ImportedPackage("io"); pk != nil {
		if g := pk.Var("EOF"); g != nil {
			return mkApp("*", errT, mk(V{k: KGlobal, gl: g, typ: g.Type()}))
		}
	}
	return nil
}
