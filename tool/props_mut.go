package main

import (
	"golang.org/x/tools/go/ssa"
)

// Ownership (C05, C06): every store, append, map update, copy, sort and buffer write of every
// execution goes to memory that this execution allocated itself, or to the render context.

func renderSide(r Root) bool {
	switch r.kind {
	case "render", "impctx", "ctxmethod":
		return true
	case "closure", "rec":
		return true
	case "method":
		return r.fn != nil && r.fn.Name() == "Execute"
	}
	return false
}

func mutationChecks(p *Prog, rep *Report, render bool) error {
	a := newAnalysis(p)
	if err := a.solve(ModeFail, false); err != nil {
		return err
	}
	h := &Hooks{Mode: ModeFail}
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		pos := x.p.instrPos(in)
		ow := x.owner(st, target)
		ok := ow == "fresh" || ow == "own"
		msg := "writes to memory it did not allocate (" + ow + ": " + target.String() + ")"
		if ow == "ctx" {
			ok = render
			msg = "writes to the render context while building"
		}
		if what == "append" && !ok {
			s := x.shape(st, target)
			ok = s.Exact || s.Nil == 1
			msg = "appends to a slice it did not allocate and that may have spare capacity (" + target.String() + ")"
		}
		rep.check(ok, what+" "+pos+" in "+x.root, pos, x.root, msg)
	}
	c := &Check{h: h, filter: func(r Root) bool { return renderSide(r) == render }}
	c.exit = func(x *Exec, r Root, e Exit) {
		rep.check(true, "function "+r.fn.String(), "", "", "")
	}
	return a.run(c, rep)
}
