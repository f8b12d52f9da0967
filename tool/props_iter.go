package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Iteration (C11): every node rendered for an item gets a context whose Cargo is that item, whose Data
// is the item when that is a map and the outer Data otherwise, whose Parent is the outer context and
// whose Writer is the outer writer; the outer context keeps its Data, Cargo and Writer.

// yields: the callback produces items.
func yields(sig *types.Signature) bool {
	anyT := types.Universe.Lookup("any").Type()
	for i := 0; i < sig.Results().Len(); i++ {
		if s, ok := sig.Results().At(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), anyT) {
			return true
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if f, ok := sig.Params().At(i).Type().Underlying().(*types.Signature); ok && f.Params().Len() == 1 && types.Identical(f.Params().At(0).Type(), anyT) {
			return true
		}
	}
	return false
}

// An item is an element of what the callback returned, or what it passed to yield.
func itemTerm(v *V) (item, indexed, moving bool) {
	if v.k == KApp && v.op == "*" && v.args[0].k == KApp && v.args[0].op == "[]" {
		for _, l := range v.args[0].args[0].leaves {
			if strings.HasPrefix(l.op, "$") {
				return false, true, false
			}
		}
		return true, true, !v.args[0].args[1].isConst()
	}
	return v.k == KSym && strings.Contains(v.op, "#cb"), false, false
}

func iterChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	h := &Hooks{Mode: ModeOK, KeepCtx: true}
	mapT := types.NewMap(types.Typ[types.String], types.Universe.Lookup("any").Type())
	ctxF := map[string]*V{}
	cs := p.ctxT.Underlying().(*types.Struct)
	for i := 0; i < cs.NumFields(); i++ {
		ctxF[cs.Field(i).Name()] = mkSym("$ctx."+cs.Field(i).Name(), cs.Field(i).Type())
	}
	indexed, moving := map[string]bool{}, map[string]bool{}
	h.OnDyn = func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) {
		if yields(sig) && x.p.callbackSig(sig) {
			st.mon["iterating"] = mkInt(1)
			rep.check(len(args) > 0 && args[0].k == KPtr && args[0].args[0] == symCTX, "source of items called at "+x.p.instrPos(in), x.p.instrPos(in), x.root, "the function that supplies the items does not get the outer context")
		}
	}
	h.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) {
		if x.rootKind != "render" {
			return
		}
		pos := x.p.instrPos(in)
		key := "item rendered at " + pos + " in " + x.root
		iterating := st.mon["iterating"] != nil
		if ctx.k != KPtr || st.heap[ctx.args[0]] == nil {
			if iterating {
				rep.undecided(x.root, pos, "the context an item is rendered with is not known")
			}
			return
		}
		if ctx.args[0] == symCTX {
			rep.check(!iterating, key, pos, x.root, "an item is rendered with the outer context")
			return
		}
		o := st.heap[ctx.args[0]]
		cell := func(f string) *V {
			if v := o.cells["."+f]; v != nil {
				return x.simplify(st, v)
			}
			if o.zero {
				return mkNil(nil)
			}
			return nil
		}
		want := func(f, what string, ok func(v *V) bool) {
			v := cell(f)
			if v == nil || v.k == KSym && strings.HasSuffix(v.op, "#any") {
				rep.undecided(x.root, pos, "the context's "+f+" is not known")
				return
			}
			rep.check(ok(v), key+" ("+f+")", pos, x.root, fmt.Sprintf("the context's %s is %s and not %s", f, v, what))
		}
		want("Writer", "the outer writer", func(v *V) bool { return v == ctxF["Writer"] })
		want("Parent", "the outer context", func(v *V) bool { return v.k == KPtr && v.args[0] == symCTX })
		cargo := cell("Cargo")
		if !iterating && cargo == ctxF["Cargo"] {
			want("Data", "the outer data", func(v *V) bool { return v == ctxF["Data"] })
			return
		}
		want("Cargo", "the item", func(v *V) bool {
			it, ix, mv := itemTerm(v)
			if ix {
				indexed[key] = true
				if mv {
					moving[key] = true
				}
			}
			return it
		})
		if cargo == nil {
			return
		}
		want("Data", "the item (if it is a map of string to any) or the outer data (if it is not)", func(v *V) bool {
			sh := x.shape(st, cargo)
			if v == ctxF["Data"] {
				return sh.Nil == 1 || hasType(sh.NotDyn, mapT) || sh.Dyn != nil && !types.Identical(sh.Dyn, mapT)
			}
			return v.k == KApp && v.op == "data" && v.args[0] == cargo && types.Identical(v.typ, mapT)
		})
	}
	// items taken from a typed slice keep their places
	h.OnMutate = func(x *Exec, st *State, what string, target, val *V, in ssa.Instruction) {
		if what != "store" || target.k != KApp || target.op != "[]" || x.rootKind != "closure" {
			return
		}
		if val.k == KApp && strings.HasSuffix(val.op, "(reflect.Value).Interface") && val.args[0].k == KApp && strings.HasSuffix(val.args[0].op, "(reflect.Value).Index") {
			at, from := target.args[1], val.args[0].args[1]
			pos := x.p.instrPos(in)
			rep.check(at == from, "item copied at "+pos, pos, x.root, fmt.Sprintf("item %s becomes element %s of the list", at, from))
		}
	}
	c := &Check{h: h}
	c.filter = func(r Root) bool {
		return (r.kind == "render" || r.kind == "closure" || r.kind == "rec") && !isGenerator(r.fn)
	}
	c.exit = func(x *Exec, r Root, e Exit) {
		o := e.st.heap[symCTX]
		if o == nil || e.panic {
			return
		}
		pos := x.p.pos(r.fn.Pos())
		for f, s := range ctxF {
			if f == "Error" {
				continue
			}
			v := o.cells["."+f]
			rep.check(v != nil && x.simplify(e.st, v) == s, "context after "+r.fn.String(), pos, x.root, fmt.Sprintf("the context's %s is changed to %s", f, v))
		}
	}
	if err := a.run(c, rep); err != nil {
		return err
	}
	for k := range indexed {
		rep.check(moving[k], k, "", "", "every item is rendered with the same element")
	}
	return nil
}
