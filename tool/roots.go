package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Root is an entry point of the library: a function that outside code (or code the engine does not
// follow) can call.
type Root struct {
	fn   *ssa.Function
	kind string // render, impctx, ctxmethod, func, method, closure, rec
}

func (p *Prog) exportedType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Exported()
}

// namedTypes lists the named non-interface types of the repository.
func (p *Prog) namedTypes() []types.Type {
	var r []types.Type
	for _, pk := range p.pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			r = append(r, tn.Type())
		}
	}
	return r
}

// baseRoots are the entry points that exist whatever the invariants say.
func (p *Prog) baseRoots() []Root {
	var r []Root
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function, kind string) {
		if fn == nil || len(fn.Blocks) == 0 || seen[fn] || !p.inRepo(fn) || fn.Synthetic != "" {
			return
		}
		seen[fn] = true
		r = append(r, Root{fn, kind})
	}
	for _, t := range p.namedTypes() {
		for _, rt := range []types.Type{t, types.NewPointer(t)} {
			ms := p.ssaProg.MethodSets.MethodSet(rt)
			for i := 0; i < ms.Len(); i++ {
				m := ms.At(i).Obj().(*types.Func)
				fn := p.ssaProg.MethodValue(ms.At(i))
				isNode := types.Implements(rt, p.node)
				switch {
				case p.isCtxNamed(t):
					add(fn, "ctxmethod")
				case types.Implements(rt, p.impIface) && m.Exported():
					add(fn, "impctx")
				case isNode && m.Name() == "Render":
					add(fn, "render")
				case isNode && m.Exported():
					add(fn, "method")
				case m.Exported() && p.exportedType(rt):
					add(fn, "method")
				case !m.Exported() && p.unexportedIfaceMethod(m, rt):
					add(fn, "method")
				}
			}
		}
	}
	for _, pk := range p.pkgs {
		sp := p.byPath[pk.PkgPath]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if fn, ok := sp.Members[n].(*ssa.Function); ok && fn.Object() != nil && fn.Object().Exported() {
				if fn.Signature.TypeParams().Len() > 0 {
					add(p.genericBody(fn), "func")
					continue
				}
				add(fn, "func")
			}
		}
	}
	return r
}

// genericBody is the uninstantiated body of a generic function.
func (p *Prog) genericBody(fn *ssa.Function) *ssa.Function { return fn }

func (p *Prog) unexportedIfaceMethod(m *types.Func, rt types.Type) bool { return false }

func (p *Prog) isCtxNamed(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj() == p.ctxT.Obj()
}

var symCTX = mkObj("$ctx")

// ctxObject puts the render context into the heap.
func (x *Exec) ctxObject(st *State) *V {
	if st.heap[symCTX] != nil {
		return symCTX
	}
	s := x.p.ctxT.Underlying().(*types.Struct)
	o := &Obj{typ: x.p.ctxT, kind: "ctx", cells: map[string]*V{}}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := mkSym("$ctx."+f.Name(), f.Type())
		o.cells["."+f.Name()] = v
		switch f.Name() {
		case "Error":
			o.cells[".Error"] = mkNil(errT)
		case "Writer":
			sh := topShape(f.Type(), 0)
			sh.Nil = 2
			st.facts[v] = sh
		}
	}
	st.heap[symCTX] = o
	x.pins = append(x.pins, symCTX)
	return symCTX
}

// heldFunc is the function that a variable captured by fn always holds, if there is just one.
func (p *Prog) heldFunc(fn *ssa.Function, i int) *ssa.Function {
	pt, ok := fn.FreeVars[i].Type().Underlying().(*types.Pointer)
	if !ok || fn.Parent() == nil {
		return nil
	}
	if _, ok := pt.Elem().Underlying().(*types.Signature); !ok {
		return nil
	}
	var al *ssa.Alloc
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				a, ok := mc.Bindings[i].(*ssa.Alloc)
				if !ok || al != nil && al != a {
					return nil
				}
				al = a
			}
		}
	}
	if al == nil {
		return nil
	}
	var g *ssa.Function
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Addr != v || g != nil {
					return false
				}
				switch f := r.Val.(type) {
				case *ssa.MakeClosure:
					g = f.Fn.(*ssa.Function)
				case *ssa.Function:
					g = f
				default:
					return false
				}
			case *ssa.MakeClosure:
				for k, bv := range r.Bindings {
					if bv == v && !only(r.Fn.(*ssa.Function).FreeVars[k]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !only(al) || g == nil {
		return nil
	}
	for p := fn; p != nil; p = p.Parent() {
		if p == g {
			return nil
		}
	}
	return g
}

// freeVars are the values of the variables that closure fn captures; known holds those of its parent.
func (x *Exec) freeVars(st *State, fn *ssa.Function, known map[ssa.Value]*V) []*V {
	at := make([]ssa.Value, len(fn.FreeVars))
	if fn.Parent() != nil {
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					copy(at, mc.Bindings)
				}
			}
		}
	}
	var out []*V
	for i, fv := range fn.FreeVars {
		if v := known[at[i]]; v != nil && at[i] != nil {
			out = append(out, v)
			continue
		}
		name := fmt.Sprintf("$fv:%s#%d", fn, i)
		s := mkSym(name, fv.Type())
		_, ptr := fv.Type().Underlying().(*types.Pointer)
		if known != nil && at[i] != nil {
			known[at[i]] = s
		}
		switch g := x.p.heldFunc(fn, i); {
		case g != nil && known != nil:
			ov := mkObj(name)
			et := fv.Type().Underlying().(*types.Pointer).Elem()
			s = mkPtr(ov, "", fv.Type())
			known[at[i]] = s
			o := &Obj{typ: et, kind: "alloc", published: true, cells: map[string]*V{}}
			st.heap[ov] = o
			x.pins = append(x.pins, ov)
			o.cells[""] = mk(V{k: KFunc, fn: g, args: x.freeVars(st, g, known), typ: et})
		case ptr:
			sh := topShape(fv.Type(), 0)
			sh.Nil = 2
			st.facts[s] = sh
		default:
			st.facts[s] = x.inv.get(fmt.Sprintf("bind:%s#%d", fn, i), fv.Type())
		}
		out = append(out, s)
	}
	return out
}

// initial are the states an analysis of root r starts from.
func (x *Exec) initial(r Root) ([]*State, []*V) {
	st := &State{heap: map[*V]*Obj{}, facts: map[*V]*Shape{}, mon: map[string]*V{}}
	fn := r.fn
	var args []*V
	for i, prm := range fn.Params {
		args = append(args, x.param(st, r, i, prm))
	}
	var known map[ssa.Value]*V
	if r.kind == "closure" {
		known = map[ssa.Value]*V{}
	}
	x.binds = x.freeVars(st, fn, known)
	states := []*State{st}
	if o := st.heap[symCTX]; o != nil {
		switch x.h.Mode {
		case ModeFail:
			f := st.clone()
			f.heap[symCTX].cells[".Error"] = symFIRST
			f.mon["failed"] = mkBool(true)
			states = append(states, f)
		case ModeFree:
			o.cells[".Error"] = mkSym("$ctx.Error", errT)
		}
	}
	return states, args
}

func (x *Exec) param(st *State, r Root, i int, prm *ssa.Parameter) *V {
	fn := r.fn
	t := prm.Type()
	if x.p.isCtxPtr(t) {
		if i == 0 && r.kind == "ctxmethod" || r.kind != "func" {
			return mkPtr(x.ctxObject(st), "", t)
		}
	}
	s := mkSym(fmt.Sprintf("$p:%s#%d", fn, i), t)
	sh := topShape(t, 3)
	if fn.Signature.Recv() != nil && i == 0 {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			sh.Nil = 2
		}
		if r.kind == "impctx" {
			if pt, ok := t.Underlying().(*types.Pointer); ok && isStructT(pt.Elem()) {
				return x.ownObject(st, pt.Elem(), t)
			}
		}
	}
	if r.kind == "rec" || r.kind == "closure" {
		if is, ok := x.inv.lookup(fmt.Sprintf("param:%s#%d", fn, i)); ok && r.kind == "rec" {
			sh = sharedShape(is)
		}
	}
	if r.kind == "func" && isStringType(t) {
		// names given as plain strings are emitted as they are
		sh.Raw = 0
		if x.h.RawNames {
			sh.Raw = rawAll
		}
	}
	if fn.Signature.Variadic() && i == len(fn.Params)-1 {
		sh.Flags |= flagUser
	}
	st.facts[s] = sh
	return s
}

// ownObject is a receiver whose state belongs to the current render.
func (x *Exec) ownObject(st *State, t, pt types.Type) *V {
	ov := mkObj("$own:" + typeName(t))
	o := &Obj{typ: t, kind: "own", cells: map[string]*V{}, published: true}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if x.p.isCtxPtr(f.Type()) {
			o.cells["."+f.Name()] = mkPtr(x.ctxObject(st), "", f.Type())
			continue
		}
		v := mkSym("$own."+typeName(t)+"."+f.Name(), f.Type())
		st.facts[v] = x.inv.field(typeName(t)+"."+f.Name(), f.Type(), true)
		if st.facts[v].bot {
			st.facts[v] = x.shape(st, zeroOf(f.Type())).clone()
		}
		o.cells["."+f.Name()] = v
	}
	st.heap[ov] = o
	x.pins = append(x.pins, ov)
	return mkPtr(ov, "", pt)
}

// Analysis runs a check over every root.
type Analysis struct {
	p     *Prog
	inv   *Inv
	roots []Root
	exits map[*ssa.Function]int
	fns   map[*ssa.Function]bool

	coarse map[string]bool
	only   func(r Root) bool // the roots that matter
	failed map[string]string // what could not be analysed, and why

	hooks *Hooks // used instead of plain ones when solving
}

// Check is one use of the engine.
type Check struct {
	h      *Hooks
	filter func(r Root) bool
	begin  func(x *Exec, r Root, st *State, args []*V)
	exit   func(x *Exec, r Root, e Exit)
	zeroOK func(r Root) bool
}

func newAnalysis(p *Prog) *Analysis {
	return &Analysis{p: p, inv: newInv(p), exits: map[*ssa.Function]int{}, fns: map[*ssa.Function]bool{}, coarse: map[string]bool{}, failed: map[string]string{}}
}

// allRoots are the base roots plus the closures and recursive functions found so far.
func (a *Analysis) allRoots() []Root {
	rs := a.p.baseRoots()
	seen := map[*ssa.Function]bool{}
	for _, r := range rs {
		seen[r.fn] = true
	}
	var more []Root
	for fn := range a.inv.closures {
		if seen[fn] || len(fn.Blocks) == 0 {
			continue
		}
		k := "closure"
		if a.p.recFns[fn] {
			k = "rec"
		}
		more = append(more, Root{fn, k})
	}
	sort.Slice(more, func(i, j int) bool { return more[i].fn.String() < more[j].fn.String() })
	return append(rs, more...)
}

// solve computes the least fixpoint of the invariants under the given mode.
func (a *Analysis) solve(mode Mode, rawNames bool) error {
	a.inv = newInv(a.p)
	a.zeroValues()
	type done struct {
		reads map[string]bool
		tick  int
	}
	ran := map[string]done{}
	for round := 0; ; round++ {
		if round > 25 {
			return fmt.Errorf("the invariants do not converge")
		}
		if os.Getenv("AITCH_TIME") != "" {
			fmt.Fprintln(os.Stderr, "round", round, a.inv.grew)
		}
		a.inv.grew = nil
		a.inv.changed = false
		rep := newReport("inv")
		for _, r := range a.allRoots() {
			if a.only != nil && !a.only(r) {
				continue
			}
			if skipRoot != "" && strings.Contains(r.fn.String(), skipRoot) {
				continue
			}
			if onlyRoot != "" && !strings.Contains(r.fn.String(), onlyRoot) {
				continue
			}
			id := r.kind + " " + r.fn.String()
			if d, ok := ran[id]; ok {
				stale := false
				for k := range d.reads {
					if a.inv.ver[k] > d.tick {
						stale = true
						break
					}
				}
				if !stale {
					continue
				}
			}
			a.inv.reads = map[string]bool{}
			tick := a.inv.tick
			h := &Hooks{Mode: mode, RawNames: rawNames}
			if a.hooks != nil {
				h = a.hooks
			}
			if a.failed[id] != "" {
				continue
			}
			if err := a.runRoot(r, &Check{h: h}, rep); err != nil {
				if tooLate() {
					return err
				}
				// the others are analysed without what this one contributes
				a.failed[id] = err.Error()
			}
			ran[id] = done{a.inv.reads, tick}
		}
		if !a.inv.changed {
			return nil
		}
	}
}

// zeroValues: values of exported struct types can be zero.
func (a *Analysis) zeroValues() {
	x := newExec(a.p, &Hooks{}, a.inv, newReport(""), "")
	st := &State{heap: map[*V]*Obj{}, facts: map[*V]*Shape{}, mon: map[string]*V{}}
	for _, t := range a.p.namedTypes() {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || !a.p.exportedType(t) || a.p.isCtxNamed(t) {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Exported() {
				sh := topShape(f.Type(), 3)
				a.inv.join("f:"+typeName(t)+"."+f.Name(), sh)
				continue
			}
			a.inv.join("f:"+typeName(t)+"."+f.Name(), x.shape(st, zeroOf(f.Type())))
		}
	}
}

// runRoot analyses one root; when that takes too long it is tried again with coarser states.
func (a *Analysis) runRoot(r Root, c *Check, rep *Report) error {
	id := r.kind + " " + r.fn.String()
	if !a.coarse[id] {
		err := a.runRoot1(r, c, rep, mergeLimit*a.deep())
		if err == nil {
			return nil
		}
		a.coarse[id] = true
	}
	return a.runRoot1(r, c, rep, 1)
}

// deep is how many more states the thorough tier keeps apart.
func (a *Analysis) deep() int {
	if thorough {
		return 16
	}
	return 1
}

var thorough bool

func (a *Analysis) runRoot1(r Root, c *Check, rep *Report, mergeN int) (err error) {
	if os.Getenv("AITCH_TIME") != "" {
		t0, s0 := time.Now(), rep.states
		profile = map[string]int{}
		fmt.Fprintln(os.Stderr, "start", r.fn, r.kind)
		defer func() {
			if d := time.Since(t0); d > 200*time.Millisecond {
				fmt.Fprintln(os.Stderr, "root", r.fn, r.kind, d, rep.states-s0)
				if d > time.Second {
					var l []string
					for k, n := range profile {
						l = append(l, fmt.Sprintf("%8d %s", n, k))
					}
					sort.Sort(sort.Reverse(sort.StringSlice(l)))
					for _, k := range l[:min(14, len(l))] {
						fmt.Fprintln(os.Stderr, "    ", k)
					}
				}
			}
		}()
	}
	x := newExec(a.p, c.h, a.inv, rep, r.fn.String())
	x.mergeN = mergeN
	x.rootKind = r.kind
	defer func() {
		if e := recover(); e != nil {
			if ab, ok := e.(abort); ok {
				err = fmt.Errorf("cannot analyse %s: %s", r.fn, ab.msg)
				return
			}
			panic(e)
		}
	}()
	if path := r.fn.Package(); path != nil && path.Pkg.Path() != a.p.mod && path.Pkg.Path() != a.p.mod+"/context" {
		x.rootP = path.Pkg
	}
	states, args := x.initial(r)
	n := 0
	for _, st := range states {
		if c.begin != nil {
			c.begin(x, r, st, args)
		}
		exits := x.run(st, r.fn, args, x.binds, nil, rootCtx(r.fn))
		for _, e := range exits {
			n++
			if !e.panic {
				for i, v := range e.ret {
					x.publish(e.st, v)
					a.inv.join(fmt.Sprintf("ret:%s#%d", r.fn, i), sharedShape(x.general(e.st, v)))
					if r.kind == "closure" {
						a.inv.join("dynret:"+types.TypeString(r.fn.Signature.Results().At(i).Type(), nil), sharedShape(x.general(e.st, v)))
					}
				}
			}
			if c.exit != nil {
				c.exit(x, r, e)
			}
		}
	}
	for f := range x.fns {
		a.fns[f] = true
	}
	a.exits[r.fn] = n
	rep.roots = append(rep.roots, r.fn.String())
	return nil
}

func rootCtx(fn *ssa.Function) string {
	s := fn.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// run executes check c over the solved invariants.
func (a *Analysis) run(c *Check, rep *Report) error {
	a.inv.frozen = true
	a.inv.changed = false
	for _, r := range a.allRoots() {
		if c.filter != nil && !c.filter(r) {
			continue
		}
		if m := a.failed[r.kind+" "+r.fn.String()]; m != "" {
			rep.undecided(r.fn.String(), a.p.pos(r.fn.Pos()), m)
			continue
		}
		if err := a.runRoot(r, c, rep); err != nil {
			if tooLate() {
				return err
			}
			rep.undecided(r.fn.String(), a.p.pos(r.fn.Pos()), err.Error())
			continue
		}
		if a.exits[r.fn] == 0 && (c.zeroOK == nil || !c.zeroOK(r)) {
			rep.undecided(r.fn.String(), a.p.pos(r.fn.Pos()), "no execution reaches the end of the function")
		}
	}
	if a.inv.changed {
		return fmt.Errorf("invariants changed during the check: %v", a.inv.grew)
	}
	return nil
}

func tooLate() bool { return time.Since(started) > patience }

var onlyRoot, skipRoot string
