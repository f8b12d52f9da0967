package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Templates (C21): the template is executed with the caller's writer and a context made for that
// execution that holds exactly that writer, data and cargo; each bound node becomes a function of the
// template whose type says whether it is an attribute, that renders the node once into the context it
// is given and hands on its error.

const tmplPkg = "html/template"

func tmplType(t types.Type, names ...string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != tmplPkg && n.Obj().Pkg().Path() != "text/template" {
		return false
	}
	for _, x := range names {
		if n.Obj().Name() == x {
			return true
		}
	}
	return false
}

var tmplContent = []string{"HTML", "HTMLAttr", "CSS", "JS", "JSStr", "Srcset", "URL"}

// boundSig: a function of a template that renders into the context.
func (p *Prog) boundSig(sig *types.Signature) bool {
	return sig.Params().Len() == 1 && p.isCtxPtr(sig.Params().At(0).Type()) && sig.Results().Len() == 2 && isErrType(sig.Results().At(1).Type())
}

// captured are the values a closure holds, itself or in closures it holds.
func captured(st *State, f *V) []*V {
	var r []*V
	seen := map[*V]bool{}
	var walk func(f *V)
	walk = func(f *V) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.args {
			if b.k == KPtr {
				if o := st.heap[b.args[0]]; o != nil && o.cells[b.op] != nil {
					b = o.cells[b.op]
				}
			}
			if b.k == KFunc {
				walk(b)
				continue
			}
			r = append(r, b)
		}
	}
	walk(f)
	return r
}

func executesTemplate(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if strings.HasPrefix(extName(g), "(*html/template.Template).Execute") || walk(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

func templateChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeFail, false); err != nil {
		return err
	}
	// --- executing
	h := &Hooks{Mode: ModeFail}
	find := func(x *Exec, r Root, args []*V, is func(t types.Type) bool) *V {
		for i, prm := range r.fn.Params {
			if i > 0 && is(prm.Type()) {
				return args[i]
			}
		}
		return nil
	}
	var wr, data, cargo *V
	var root Root
	executing := func(x *Exec, st *State, args []*V, in ssa.Instruction) {
		pos := x.p.instrPos(in)
		key := "execution at " + pos
		st.mon["executed"] = mkInt(1)
		rep.check(args[1] == wr, key, pos, x.root, fmt.Sprintf("the template does not write to the writer of the execution but to %s", args[1]))
		d := args[len(args)-1]
		if d.k == KIface {
			d = d.args[0]
		}
		var o *Obj
		if d.k == KPtr {
			o = st.heap[d.args[0]]
		}
		if o == nil || !x.isCtxObj(o) {
			rep.check(false, key, pos, x.root, fmt.Sprintf("the template is not given a context but %s", d))
			return
		}
		rep.check(x.owner(st, d) == "fresh" && !o.published, key, pos, x.root, "the context of the execution is not made by this execution, so executions can share it")
		cell := func(f string) *V {
			v := o.cells["."+f]
			if v == nil {
				if o.zero {
					return mkNil(nil)
				}
				return nil
			}
			return x.simplify(st, v)
		}
		for f, want := range map[string]*V{"Writer": wr, "Data": data, "Cargo": cargo} {
			got := cell(f)
			ok := got == want
			if !ok && got != nil && want != nil && x.shape(st, want).Nil == 1 && got.isNilConst() {
				ok = true
			}
			rep.check(ok, key+" "+f, pos, x.root, fmt.Sprintf("the context's %s is %s and not the one given to the execution", f, got))
		}
		e := cell("Error")
		rep.check(e != nil && e.isNilConst(), key+" Error", pos, x.root, fmt.Sprintf("the execution starts with the error %s", e))
	}
	h.OnCall = func(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
		if !strings.HasPrefix(extName(fn), "(*html/template.Template).Execute") || len(args) < 3 {
			return false, nil
		}
		executing(x, st, args, in)
		// its error covers the errors of the bound functions
		n := st.clone()
		n.mon["failed"] = mkBool(true)
		return true, []Exit{{st: n, ret: []*V{symFIRST}}, {st: st, ret: []*V{mkNil(errT)}}}
	}
	c := &Check{h: h}
	c.filter = func(r Root) bool { return (r.kind == "method" || r.kind == "func") && executesTemplate(r.fn) }
	c.begin = func(x *Exec, r Root, st *State, args []*V) {
		root = r
		_ = root
		wr = find(x, r, args, func(t types.Type) bool {
			return types.IsInterface(t) && types.NewMethodSet(t).Lookup(nil, "Write") != nil
		})
		cargo = find(x, r, args, func(t types.Type) bool { i, ok := t.Underlying().(*types.Interface); return ok && i.Empty() })
		data = find(x, r, args, func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic {
			return
		}
		pos := x.p.pos(r.fn.Pos())
		ret, has := errResult(r.fn, e.ret)
		if !has {
			rep.check(false, "result of "+r.fn.String(), pos, x.root, "an error of the template cannot be returned")
			return
		}
		ret = x.simplify(e.st, ret)
		if e.st.mon["executed"] == nil {
			rep.check(!ret.isNilConst(), "execution in "+r.fn.String(), pos, x.root, "it can succeed without executing the template")
			return
		}
		if e.st.failed() {
			rep.check(ret == symFIRST, "result of "+r.fn.String(), pos, x.root, fmt.Sprintf("the template failed but the result is %s", ret))
		} else {
			rep.check(ret.isNilConst(), "result of "+r.fn.String(), pos, x.root, fmt.Sprintf("the template succeeded but the result is %s", ret))
		}
	}
	if err := a.run(c, rep); err != nil {
		return err
	}
	// --- binding
	h2 := &Hooks{Mode: ModeOK}
	isFuncMap := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && tmplType(mu.Map.Type(), "FuncMap")
	}
	boundTypes := map[*ssa.Function]bool{}
	h2.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		ex, ok := in.(*ssa.Extract)
		if !ok || ex.Index != 2 {
			return
		}
		nx, ok := ex.Tuple.(*ssa.Next)
		if !ok {
			return
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok {
			return
		}
		m, ok := rg.X.Type().Underlying().(*types.Map)
		if !ok || !types.Identical(m.Elem(), x.p.nodeT) {
			return
		}
		if t := x.eval(st, nx); t.k == KTuple && len(t.args) == 3 {
			st.mon["bind"] = t.args[2]
			st.mon["bindkey"] = t.args[1]
			delete(st.mon, "bound")
		}
	}
	unbound := func(x *Exec, st *State, pos string) {
		n := st.mon["bind"]
		if n == nil {
			return
		}
		ok := st.mon["bound"] != nil || x.shape(st, n).Nil == 1 || x.simplify(st, n).isNilConst()
		rep.check(ok, "binding in "+x.root, pos, x.root, "a node that is not nil can be left unbound")
		delete(st.mon, "bind")
		delete(st.mon, "bindkey")
		delete(st.mon, "bound")
	}
	h2.OnHeader = func(x *Exec, st *State, b *ssa.BasicBlock, back bool) {
		if !back {
			return
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				unbound(x, st, x.p.pos(b.Parent().Pos()))
			}
		}
	}
	h2.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		if what != "map" || !isFuncMap(in) {
			return
		}
		pos := x.p.instrPos(in)
		key := "binding at " + pos
		v := val
		if v.k == KIface {
			v = v.args[0]
		}
		if v.k != KFunc || !x.p.boundSig(v.fn.Signature) {
			return
		}
		boundTypes[v.fn] = true
		var node *V
		for _, cv := range captured(st, v) {
			if cv.typ != nil && types.IsInterface(cv.typ) && types.Implements(cv.typ, x.p.node) || cv.k == KIface || cv == st.mon["bind"] {
				node = cv
			}
		}
		if node == nil {
			rep.undecided(x.root, pos, "the node a function is bound to is not known")
			st.mon["bound"] = mkInt(1)
			return
		}
		if st.mon["bind"] == node {
			st.mon["bound"] = mkInt(1)
			k := x.eval(st, in.(*ssa.MapUpdate).Key)
			rep.check(k == st.mon["bindkey"], key, pos, x.root, fmt.Sprintf("the node is bound to %s and not to its own name", k))
		}
		sh := x.shape(st, node)
		rep.check(sh.Nil == 2, key, pos, x.root, "a nil node can be bound")
		rt := v.fn.Signature.Results().At(0).Type()
		switch {
		case tmplType(rt, "HTMLAttr"):
			rep.check(sh.Kind == 1, key, pos, x.root, "a node that may not be an attribute is bound as an attribute")
		case tmplType(rt, "HTML"):
			rep.check(sh.Kind == 2, key, pos, x.root, "a node that may be an attribute is bound as content")
		default:
			rep.check(false, key, pos, x.root, fmt.Sprintf("a node is bound as %s, neither content nor attribute", rt))
		}
	}
	c2 := &Check{h: h2, filter: func(r Root) bool { return !isGenerator(r.fn) && r.kind == "func" && reachesFuncMap(r.fn) }}
	c2.exit = func(x *Exec, r Root, e Exit) {
		if !e.panic {
			unbound(x, e.st, x.p.pos(r.fn.Pos()))
		}
		rep.check(true, "function "+r.fn.String(), "", "", "")
	}
	if err := a.run(c2, rep); err != nil {
		return err
	}
	// --- the bound functions
	h3 := &Hooks{Mode: ModeFail}
	h3.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) {
		pos := x.p.instrPos(in)
		key := "render by a bound function at " + pos
		rep.check(ctx.k == KPtr && ctx.args[0] == symCTX, key, pos, x.root, fmt.Sprintf("the node is not rendered with the context of the execution but with %s", ctx))
		n := int64(0)
		if v := st.mon["renders"]; v != nil {
			n, _ = v.intConst()
		}
		rep.check(n == 0, key, pos, x.root, "the node can be rendered more than once")
		st.mon["renders"] = mkInt(n + 1)
		if st.mon["node"] == nil {
			st.mon["node"] = node
		}
		fromFree := false
		for _, l := range node.leaves {
			if strings.HasPrefix(l.op, "$fv:") {
				fromFree = true
			}
		}
		rep.check(fromFree, key, pos, x.root, fmt.Sprintf("what is rendered is not the bound node but %s", node))
	}
	h3.OnRaw = func(x *Exec, st *State, w, d *V, in ssa.Instruction) {
		rep.check(false, "write by a bound function at "+x.p.instrPos(in), x.p.instrPos(in), x.root, "something other than the node is written")
	}
	c3 := &Check{h: h3, filter: func(r Root) bool { return r.kind == "closure" && boundTypes[r.fn] }}
	c3.exit = func(x *Exec, r Root, e Exit) {
		pos := x.p.pos(r.fn.Pos())
		key := "bound function " + r.fn.String()
		if e.panic {
			return
		}
		ret := x.simplify(e.st, e.ret[1])
		if e.st.mon["renders"] == nil && !e.st.failed() {
			rep.check(!ret.isNilConst(), key, pos, x.root, "it can succeed without rendering the node")
			return
		}
		if e.st.failed() {
			rep.check(ret == symFIRST, key, pos, x.root, fmt.Sprintf("the node reported a failure but the result is %s", ret))
		} else {
			rep.check(ret.isNilConst(), key, pos, x.root, fmt.Sprintf("nothing has failed but the result is %s", ret))
		}
		s, ok := x.simplify(e.st, e.ret[0]).strConst()
		rep.check(ok && s == "", key, pos, x.root, fmt.Sprintf("the template writes %s in addition to the node", e.ret[0]))
	}
	return a.run(c3, rep)
}

// reachesFuncMap: the function (or one it calls) fills the functions of a template.
func reachesFuncMap(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && tmplType(mu.Map.Type(), "FuncMap") {
					return true
				}
				if c, ok := in.(ssa.CallInstruction); ok && walk(c.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return walk(fn)
}
