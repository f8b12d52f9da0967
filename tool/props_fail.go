package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Failure discipline (C01, C02, C18).  Every write, child render, callback and read is explored both
// succeeding and failing.  $FIRST is the first failure of a run, $OTHER any later one.

func takesCtx(x *Exec, fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if x.p.isCtxPtr(p.Type()) {
			return true
		}
	}
	return false
}

// renderRoot: the roots that run with the render context.
func (x *Exec) renderRoot(r Root, st *State) bool {
	return st.heap[symCTX] != nil
}

func isGenerator(fn *ssa.Function) bool {
	return fn.Name() == "GenerateCode" && fn.Parent() == nil
}

func errResult(fn *ssa.Function, ret []*V) (*V, bool) {
	res := fn.Signature.Results()
	for i := res.Len() - 1; i >= 0; i-- {
		if isErrType(res.At(i).Type()) && i < len(ret) {
			return ret[i], true
		}
	}
	return nil, false
}

func failChecks(p *Prog, rep *Report, prop string) error {
	a := newAnalysis(p)
	if err := a.solve(ModeFail, false); err != nil {
		return err
	}
	at := func(x *Exec, in ssa.Instruction) string { return x.p.instrPos(in) }
	h := &Hooks{Mode: ModeFail}
	if prop != "C01" {
		h.OnRaw = func(x *Exec, st *State, w, data *V, in ssa.Instruction) {
			rep.check(!st.failed(), "write "+at(x, in)+" in "+x.root, at(x, in), x.root, "the writer can be written to after a failure")
		}
	}
	callee := func(x *Exec, st *State, what string, args []*V, in ssa.Instruction) {
		if !st.failed() {
			return
		}
		for _, c := range x.ctxsOf(st, args) {
			rep.check(x.ctxErr(st, c) == symFIRST, what+" "+at(x, in)+" in "+x.root, at(x, in), x.root,
				"after a failure, "+what+" runs with a context that does not hold that failure, so it can write or replace it")
		}
	}
	h.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) {
		callee(x, st, "render of a node", []*V{ctx}, in)
	}
	h.OnDyn = func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) {
		callee(x, st, "a callback", args, in)
	}
	c := &Check{h: h}
	c.filter = func(r Root) bool {
		if prop == "C18" {
			return isGenerator(r.fn)
		}
		return !isGenerator(r.fn)
	}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic || prop == "C02" {
			return
		}
		pos := x.p.pos(r.fn.Pos())
		ret, hasErr := errResult(r.fn, e.ret)
		if hasErr {
			ret = x.simplify(e.st, ret)
		}
		if isGenerator(r.fn) {
			if e.st.failed() {
				rep.check(hasErr && ret == symFIRST, "result of "+r.fn.String(), pos, x.root, fmt.Sprintf("a read or write has failed but the result is %s", ret))
			} else {
				rep.check(hasErr && ret.isNilConst(), "result of "+r.fn.String(), pos, x.root, fmt.Sprintf("nothing has failed but the result can be %s", ret))
			}
			return
		}
		if e.st.heap[symCTX] == nil {
			return
		}
		ce := x.ctxErr(e.st, symCTX)
		closure := r.kind == "closure" || r.kind == "func"
		if e.st.failed() {
			if closure && hasErr {
				rep.check(ret == symFIRST && (ce == nil || ce.isNilConst() || ce == symFIRST), "failure of "+r.fn.String(), pos, x.root, fmt.Sprintf("after a failure the context holds %s and the result is %s", ce, ret))
				return
			}
			rep.check(ce == symFIRST, "context after "+r.fn.String(), pos, x.root, fmt.Sprintf("after a failure the context's Error is %s instead of the first failure", ce))
			if hasErr {
				rep.check(ret == symFIRST, "result of "+r.fn.String(), pos, x.root, fmt.Sprintf("after a failure the result is %s instead of the first failure", ret))
			}
			return
		}
		rep.check(ce != nil && ce.isNilConst(), "context after "+r.fn.String(), pos, x.root, fmt.Sprintf("nothing has failed but the context's Error can be %s", ce))
		if hasErr {
			rep.check(ret.isNilConst(), "result of "+r.fn.String(), pos, x.root, fmt.Sprintf("nothing has failed but the result can be %s", ret))
		}
	}
	return a.run(c, rep)
}

// readerFn reports whether an external function reads input (its error can be io.EOF, which is no failure).
func readerFn(name string) bool {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return false
	}
	switch name[i+1:] {
	case "Err", "Read", "ReadByte", "ReadRune", "ReadString", "ReadBytes", "ReadLine", "ReadAll", "Token", "RawToken", "Next", "Peek", "Scan", "Decode":
		return true
	}
	return false
}
