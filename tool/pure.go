package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Functions over text and numbers that loop are summarised: their result is a term over the
// arguments whose shape is the join over every path of the body.

func textOrNumber(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok || isByteSlice(t)
}

// pureLoop reports whether fn is such a function.
func (x *Exec) pureLoop(fn *ssa.Function) bool {
	if r, ok := x.p.pureMemo[fn]; ok {
		return r
	}
	x.p.pureMemo[fn] = false
	r := x.isPure(fn) && hasLoop(fn)
	x.p.pureMemo[fn] = r
	return r
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) isPure(fn *ssa.Function) bool {
	if len(fn.FreeVars) > 0 || fn.Signature.Results().Len() == 0 {
		return false
	}
	for _, p := range fn.Params {
		if !textOrNumber(p.Type()) {
			return false
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if !textOrNumber(fn.Signature.Results().At(i).Type()) {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.MapUpdate, *ssa.Panic, *ssa.MakeClosure:
				return false
			case *ssa.Store:
				if !localAddr(in.Addr, map[ssa.Value]bool{}) {
					return false
				}
			case *ssa.Call:
				if in.Call.IsInvoke() {
					return false
				}
				if b, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "min", "max":
						continue
					case "append", "copy":
						if !localAddr(in.Call.Args[0], map[ssa.Value]bool{}) {
							return false
						}
						continue
					}
					return false
				}
				c := in.Call.StaticCallee()
				if c == nil {
					return false
				}
				if x.p.inRepo(c) {
					if !x.pureLoop(c) && !x.isPureLeaf(c) {
						return false
					}
					continue
				}
				if !x.knownPure(c) {
					return false
				}
			}
		}
	}
	return true
}

func (x *Exec) isPureLeaf(fn *ssa.Function) bool {
	if r, ok := x.p.leafMemo[fn]; ok {
		return r
	}
	x.p.leafMemo[fn] = false
	r := x.isPure(fn)
	x.p.leafMemo[fn] = r
	return r
}

func (x *Exec) knownPure(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "bytes", "strconv", "unicode", "unicode/utf8", "html", "slices", "fmt", "regexp":
		return true
	}
	return false
}

// localAddr reports whether the address can only point into memory the function allocated.
func localAddr(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.Const:
		return true
	case *ssa.FieldAddr:
		return localAddr(v.X, seen)
	case *ssa.IndexAddr:
		return localAddr(v.X, seen)
	case *ssa.Slice:
		return localAddr(v.X, seen)
	case *ssa.Convert:
		return isByteSlice(v.Type()) && isStringType(v.X.Type())
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !localAddr(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return localAddr(v.Call.Args[0], seen)
		}
	}
	return false
}

type pureSum struct {
	rets []*Shape
	con  []*V
	ok   bool
}

// pureCall is a call of a summarised function; ok is false if it cannot be summarised.
func (x *Exec) pureCall(st *State, fn *ssa.Function, args []*V, in ssa.Instruction) ([]*State, bool) {
	key := fn.String()
	pargs := make([]*V, len(args))
	shapes := make([]*Shape, len(args))
	for i, a := range args {
		if a.isConst() {
			pargs[i] = a
			key += "|c" + strconv.Itoa(a.id)
			continue
		}
		shapes[i] = x.general1(st, a)
		pargs[i] = mkSym(fmt.Sprintf("$a:%s#%d", fn, i), fn.Params[i].Type())
		key += "|" + shapes[i].keyStr()
	}
	s, ok := x.pure[key]
	if !ok {
		s = &pureSum{}
		x.pure[key] = s
		n := &State{heap: map[*V]*Obj{}, facts: map[*V]*Shape{}, mon: map[string]*V{}}
		for i, a := range pargs {
			if shapes[i] != nil {
				n.facts[a] = shapes[i]
			}
		}
		old := x.mergeN
		x.mergeN = pureMergeLimit
		exits := x.run(n, fn, pargs, nil, in, rootCtx(fn))
		x.mergeN = old
		s.ok = len(exits) > 0
		for k, e := range exits {
			if e.panic {
				s.ok = false
				break
			}
			for i, r := range e.ret {
				g := x.general1(e.st, r)
				if k == 0 {
					s.rets = append(s.rets, g)
					s.con = append(s.con, r)
					continue
				}
				s.rets[i] = joinShape(s.rets[i], g)
				if s.con[i] != r {
					s.con[i] = nil
				}
			}
		}
	}
	if !s.ok {
		return nil, false
	}
	var ret []*V
	for i := range s.rets {
		if s.con[i] != nil && s.con[i].isConst() {
			ret = append(ret, s.con[i])
			continue
		}
		v := mkApp(fmt.Sprintf("pure:%s#%d", fn, i), fn.Signature.Results().At(i).Type(), args...)
		if _, ok := st.facts[v]; !ok {
			st.facts[v] = s.rets[i]
		}
		ret = append(ret, v)
	}
	x.result(st, in, ret)
	return one(st), true
}
