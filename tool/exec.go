package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Mode says how failures are treated.
type Mode int

const (
	ModeOK   Mode = iota // writes, children and callbacks succeed
	ModeFail             // every write, child and callback may fail; the first failure is tracked
	ModeFree             // the context error is unknown throughout
)

// Hooks are the monitor callbacks of a check.
type Hooks struct {
	Mode     Mode
	OnRaw    func(x *Exec, st *State, w *V, data *V, in ssa.Instruction)
	OnChild  func(x *Exec, st *State, node, ctx *V, in ssa.Instruction)
	OnDyn    func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction)
	OnDynRet func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) // after the call, in each outcome
	OnInvoke func(x *Exec, st *State, recv *V, m *types.Func, args []*V, in ssa.Instruction)
	OnMutate func(x *Exec, st *State, what string, target *V, val *V, in ssa.Instruction)
	OnCall   func(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit)
	OnInstr  func(x *Exec, st *State, in ssa.Instruction)
	OnHeader func(x *Exec, st *State, b *ssa.BasicBlock, back bool)
	OnElem   func(x *Exec, st *State, slice, idx, val *V, in ssa.Instruction)
	OnExt    func(x *Exec, st *State, name string, args []*V, in ssa.Instruction)
	OnDeref  func(x *Exec, st *State, p *V, in ssa.Instruction)
	OnPanic  func(x *Exec, st *State, in ssa.Instruction, msg string)
	OnBranch func(x *Exec, st *State, cond *V, taken bool, in ssa.Instruction)
	OnEscape func(x *Exec, st *State, c byte, with string, in ssa.Instruction)
	Stable   func(v *V) bool
	Related  func(x *Exec, st *State, key string, ph *ssa.Phi) bool // the position kept under key may be related to ph
	InOrder  func(x *Exec, st *State, in ssa.Instruction) bool      // appending here puts elements in the order of a map

	Unfold     int // how often a recursive call on a value of known type is followed
	PreciseLen bool
	LongText   bool                  // keep longer texts apart
	KeepCtx    bool                  // keep apart what contexts hold in different iterations
	Seq        bool                  // keep track of the elements of slices built without loops
	Peel       int                   // iterations of counting loops that are followed exactly
	SeqType    func(types.Type) bool // of these types only
	RawNames   bool                  // plain string parameters of constructors may hold special characters
}

// Exit is a way a function call can end.
type Exit struct {
	st    *State
	ret   []*V
	panic bool
}

// Exec is one abstract execution engine run.
type Exec struct {
	p        *Prog
	h        *Hooks
	inv      *Inv
	rep      *Report
	root     string
	rootKind string
	rootP    *types.Package
	steps    int
	pins     []*V
	binds    []*V
	stack    []*ssa.Function
	names    map[ssa.Instruction]string
	seqs     map[*ssa.Function]int
	fns      map[*ssa.Function]bool
	unsup    map[string]bool
	limit    int
	mergeN   int
	begun    time.Time

	liveAfterMemo map[ssa.Instruction]map[ssa.Value]bool
	induct        map[*ssa.Phi]bool
	pure          map[string]*pureSum
	hdrVals       map[string]map[*V]bool
}

// abort is panicked when an analysis cannot be completed.
type abort struct{ msg string }

func newExec(p *Prog, h *Hooks, inv *Inv, rep *Report, root string) *Exec {
	return &Exec{p: p, h: h, inv: inv, rep: rep, root: root, names: map[ssa.Instruction]string{}, fns: map[*ssa.Function]bool{},
		unsup: map[string]bool{}, limit: 4000000, mergeN: mergeLimit, begun: time.Now(), liveAfterMemo: map[ssa.Instruction]map[ssa.Value]bool{}, induct: map[*ssa.Phi]bool{}, pure: map[string]*pureSum{}, hdrVals: map[string]map[*V]bool{}}
}

func (x *Exec) undecided(st *State, in ssa.Instruction, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	x.rep.undecided(x.root, x.p.instrPos(in), msg)
}

var instrIDs = map[ssa.Instruction]string{}

// iname is a stable name for an instruction within its function.
func iname(in ssa.Instruction) string {
	if s, ok := instrIDs[in]; ok {
		return s
	}
	s := ""
	if v, ok := in.(ssa.Value); ok && v.Name() != "" {
		s = v.Name()
	} else {
		for i, o := range in.Block().Instrs {
			if o == in {
				s = fmt.Sprintf("b%d.%d", in.Block().Index, i)
			}
		}
	}
	s = in.Parent().Name() + "." + s
	instrIDs[in] = s
	return s
}

func (x *Exec) site(st *State, in ssa.Instruction) string {
	return st.top().ctx + "/" + iname(in)
}

// newSym introduces an unknown value at instruction in.
func (x *Exec) newSym(st *State, in ssa.Instruction, suffix string, t types.Type, sh *Shape) *V {
	s := mkSym(x.site(st, in)+suffix, t)
	st.fresh(s)
	if sh == nil {
		sh = topShape(t, 3)
	}
	st.facts[s] = sh
	return s
}

func (x *Exec) newObj(st *State, in ssa.Instruction, suffix string, o *Obj) *V {
	v := mkObj(x.site(st, in) + suffix)
	st.fresh(v)
	if o.cells == nil {
		o.cells = map[string]*V{}
	}
	st.heap[v] = o
	return v
}

func (x *Exec) stable(l *V) bool {
	if l.k == KSym && (strings.HasPrefix(l.op, "$") || l == symFIRST || l == symOTHER) {
		return true
	}
	return x.h.Stable != nil && x.h.Stable(l)
}

var (
	symFIRST = mkSym("$FIRST", types.Universe.Lookup("error").Type())
	symOTHER = mkSym("$OTHER", types.Universe.Lookup("error").Type())
	errT     = types.Universe.Lookup("error").Type()
)

func isErrType(t types.Type) bool { return types.Identical(t, errT) }

// ---------- shapes ----------

func (x *Exec) shape(st *State, v *V) *Shape {
	if s, ok := st.facts[v]; ok {
		return s
	}
	if v == symFIRST || v == symOTHER {
		s := topShape(v.typ, 0)
		s.Nil = 2
		return s
	}
	switch v.k {
	case KConst:
		s := topShape(v.typ, 0)
		s.Shared, s.Raw = false, 0
		if v.c == nil {
			s.Nil = 1
			if v.typ != nil && !nillable(v.typ) {
				s.Nil = 2
			}
			return s
		}
		s.Nil = 2
		if b, ok := v.boolConst(); ok {
			s.B = 2
			if b {
				s.B = 1
			}
		}
		if i, ok := v.intConst(); ok {
			s.Lo, s.Hi = i, i
		}
		s.Eq = v
		return s
	case KPtr:
		s := topShape(v.typ, 0)
		s.Nil, s.Shared = 2, false
		return s
	case KFunc:
		s := topShape(v.typ, 0)
		s.Nil, s.Shared = 2, false
		return s
	case KMap, KSlice:
		s := topShape(v.typ, 0)
		s.Nil, s.Shared = 2, false
		if o := st.heap[v.args[0]]; o != nil {
			s.Elem = x.elemShape(st, o)
			if s.Elem != nil && isByteSlice(v.typ) {
				s.Raw = s.Elem.Raw
			}
			if o.mapOrder {
				s.Flags |= flagMapOrder
			}
			if o.kind == "fixed" {
				s.Exact = true
			}
		} else {
			s.Elem = topShape(nil, 0)
		}
		return s
	case KIface:
		s := topShape(v.typ, 0)
		in := x.shape(st, v.args[0])
		s.Nil, s.Dyn, s.Raw, s.Shared, s.Elem, s.Flags = 2, v.typ, 0, in.Shared, in.Elem, in.Flags
		if isByteSlice(v.typ) {
			s.Raw = in.Raw
		}
		s.Kind = 3
		if types.Implements(v.typ, x.p.node) {
			s.Kind = x.p.kindOf(v.typ)
		}
		return s
	case KGlobal:
		s := topShape(v.typ, 0)
		s.Nil = 2
		return s
	case KStruct, KTuple:
		s := topShape(v.typ, 0)
		s.Nil = 2
		return s
	case KSym:
		return topShape(v.typ, 3)
	}
	return x.deriveApp(st, v)
}

func (x *Exec) deriveApp(st *State, v *V) *Shape {
	s := topShape(v.typ, 3)
	switch {
	case v.op == "*":
		a := v.args[0]
		if a.k == KGlobal && isErrType(v.typ) && a.gl.Pkg != nil && !strings.Contains(a.gl.Pkg.Pkg.Path(), ".") {
			s.Nil = 2 // error values of the standard library
			return s
		}
		if a.k == KApp && strings.HasPrefix(a.op, "fa:") {
			return x.inv.field(a.op[3:], v.typ, x.owner(st, a.args[0]) == "fresh")
		}
		if a.k == KApp && a.op == "[]" {
			b := x.shape(st, a.args[0])
			if b.Elem != nil {
				r := b.Elem.clone()
				r.Shared = r.Shared || b.Shared
				return r
			}
			s.bot = true
			return s
		}
		if a.k == KSym && strings.HasPrefix(a.op, "$fv:") {
			return x.inv.get("cell:"+a.op[4:], v.typ)
		}
		return s
	case strings.HasPrefix(v.op, "fa:"), v.op == "[]":
		s.Nil = 2
		s.Shared = x.owner(st, v.args[0]) != "fresh"
	case strings.HasPrefix(v.op, "field:"):
		r := x.inv.field(v.op[6:], v.typ, false)
		return r
	case v.op == "slice":
		b := x.shape(st, v.args[0])
		r := b.clone()
		r.Exact = len(v.args) > 3 && v.args[3] == v.args[2] && !v.args[3].isNilConst()
		if !r.Exact && b.Exact && v.args[2].isNilConst() {
			r.Exact = true
		}
		r.Lo, r.Hi = math.MinInt64, math.MaxInt64
		if isByteSlice(v.typ) {
			r.Raw = x.segRaw(st, v.args[0], v.args[1], v.args[2])
		}
		return r
	case v.op == "substr":
		s.Raw = x.segRaw(st, v.args[0], v.args[1], v.args[2])
	case v.op == "clip":
		r := x.shape(st, v.args[0]).clone()
		r.Exact = true
		return r
	case v.op == "gbytes":
		s.Nil, s.Raw, s.Shared, s.Exact = 2, 0, true, true
	case v.op == "bytes":
		s.Nil, s.Shared, s.Raw = 2, false, x.shape(st, v.args[0]).Raw
	case v.op == "string":
		s.Raw = x.shape(st, v.args[0]).Raw
	case v.op == "cat":
		s.Raw = x.shape(st, v.args[0]).Raw | x.shape(st, v.args[1]).Raw
	case v.op == "quote":
		s.Raw = x.shape(st, v.args[0]).Raw &^ rawGo
	case v.op == "htmlescape":
		s.Raw = x.shape(st, v.args[0]).Raw & (rawGo | charMask("\x00"))
	case v.op == "replace":
		s.Raw = x.replaceRaw(st, v)
	case v.op == "decimal":
		s.Raw = 0
	case v.op == "replacer", v.op == "gregexp":
		s.Nil, s.Shared = 2, false
	case strings.HasPrefix(v.op, "iter:"):
		s.Nil = 2
	case strings.HasPrefix(v.op, "ext:"):
		return x.extShape(st, v)
	case v.op == "len", v.op == "cap":
		s.Lo = 0
	case v.op == "+":
		if c, ok := v.args[1].intConst(); ok {
			b := x.shape(st, v.args[0])
			if b.Lo != math.MinInt64 {
				s.Lo = b.Lo + c
			}
			if b.Hi != math.MaxInt64 {
				s.Hi = b.Hi + c
			}
		} else {
			a, b := x.shape(st, v.args[0]), x.shape(st, v.args[1])
			if a.Lo != math.MinInt64 && b.Lo != math.MinInt64 {
				s.Lo = a.Lo + b.Lo
			}
		}
	case v.op == "data":
		b := x.shape(st, v.args[0])
		s.Nil, s.Shared = 2, b.Shared
		if !nillable(v.typ) {
			s.Nil = 2
		} else if _, ok := v.typ.Underlying().(*types.Pointer); !ok {
			s.Nil = 3
		}
		if isByteSlice(v.typ) {
			s.Raw = b.Raw
		}
		if b.Elem != nil {
			s.Elem = b.Elem
		}
		s.Flags = b.Flags
	case v.op == "Name":
		s.Raw = 0
		b := x.shape(st, v.args[0])
		_ = b
	case v.op == "lookup":
		b := x.shape(st, v.args[0])
		if b.Elem != nil {
			s = b.Elem.clone()
		} else {
			s.bot = false
			s.Nil = 1
			if !nillable(v.typ) {
				s.Nil = 2
			}
			return s
		}
		in := x.simplify(st, mkApp("in", types.Typ[types.Bool], v.args[0], v.args[1]))
		if t, ok := in.boolConst(); !ok || !t {
			if nillable(v.typ) {
				s.Nil |= 1
			} else {
				s.orZero()
			}
		}
	}
	return s
}

func (x *Exec) elemShape(st *State, o *Obj) *Shape {
	s := o.summary
	if s != nil && s.bot {
		s = nil
	}
	for k, v := range o.cells {
		if strings.HasPrefix(k, "[") && !strings.Contains(k, ".") {
			c := x.shape(st, v).clone()
			c.Eq, c.Lo, c.Hi, c.B = nil, math.MinInt64, math.MaxInt64, 0
			s = joinShape(s, c)
		}
	}
	if o.zero && o.kind == "slice" && s != nil {
		// make([]T, n) with elements still unset
	}
	return s
}

// refine records a fact; it reports whether the state stays feasible.
func (x *Exec) refine(st *State, v *V, f func(s *Shape)) bool {
	s := x.shape(st, v).clone()
	f(s)
	if s.Nil == 0 || s.Lo > s.Hi || (s.Kind == 0 && s.Nil == 2) {
		return false
	}
	if v.k == KConst {
		return true
	}
	st.facts[v] = s
	return true
}

// simplify evaluates v under the facts of the state.
func (x *Exec) simplify(st *State, v *V) *V {
	if v.k == KConst {
		return v
	}
	if v.k == KApp {
		switch v.op {
		case "!":
			return not(x.simplify(st, v.args[0]))
		case "isnil":
			a := v.args[0]
			switch x.shape(st, a).Nil {
			case 1:
				return mkBool(true)
			case 2:
				return mkBool(false)
			}
			return v
		case "<":
			if c, ok := v.args[0].intConst(); ok {
				s := x.shape(st, v.args[1])
				if s.Lo != math.MinInt64 && s.Lo > c {
					return mkBool(true)
				}
				if s.Hi != math.MaxInt64 && s.Hi <= c {
					return mkBool(false)
				}
			}
			if s, ok := st.facts[v]; ok && s.B != 0 {
				return mkBool(s.B == 1)
			}
			if b, o := splitOff(v.args[1]); b != nil && !v.args[0].isConst() {
				for d := int64(-2); d <= 2; d++ {
					if f, ok := st.facts[mkApp("<", types.Typ[types.Bool], v.args[0], addc(b, o+d))]; ok && (f.B == 1 && d < 0 || f.B == 2 && d > 0) {
						return mkBool(f.B == 1)
					}
				}
			}
			return v
		case "==":
			a, b := v.args[0], v.args[1]
			sa := x.shape(st, a)
			if b.k == KConst {
				if sa.Eq != nil {
					if eq, known := constEq(sa.Eq, b); known {
						return mkBool(eq)
					}
				}
				if bi, ok := b.intConst(); ok {
					if a.k == KApp && a.op == "Type" {
						k := x.shape(st, a.args[0]).Kind
						if bi == x.p.attrConst {
							if k == 1 {
								return mkBool(true)
							}
							if k == 2 {
								return mkBool(false)
							}
						} else if k == 1 {
							return mkBool(false)
						}
					}
					if sa.Lo > bi || sa.Hi < bi {
						return mkBool(false)
					}
					if sa.Lo == bi && sa.Hi == bi {
						return mkBool(true)
					}
				}
			}
			if s, ok := st.facts[v]; ok && s.B != 0 {
				return mkBool(s.B == 1)
			}
			return v
		}
	}
	if s, ok := st.facts[v]; ok {
		if s.B != 0 {
			return mkBool(s.B == 1)
		}
		if s.Eq != nil && s.Eq.k == KConst && s.Eq.c != nil && (v.typ == nil || !types.IsInterface(v.typ)) {
			return s.Eq
		}
		if s.Nil == 1 && v.typ != nil && nillable(v.typ) {
			return mkNil(v.typ)
		}
	}
	return v
}

// assume adds the fact that cond is b; it reports whether the state stays feasible.
func (x *Exec) assume(st *State, cond *V, b bool) bool {
	cond = x.simplify(st, cond)
	if c, ok := cond.boolConst(); ok {
		return c == b
	}
	setB := func(v *V, b bool) bool {
		return x.refine(st, v, func(s *Shape) {
			s.B = 2
			if b {
				s.B = 1
			}
		})
	}
	if cond.k == KApp {
		switch cond.op {
		case "!":
			return x.assume(st, cond.args[0], !b)
		case "isnil":
			return x.refine(st, cond.args[0], func(s *Shape) {
				if b {
					s.Nil &= 1
				} else {
					s.Nil &= 2
				}
			})
		case "<":
			if c, ok := cond.args[0].intConst(); ok {
				return x.refine(st, cond.args[1], func(s *Shape) {
					if b {
						s.Lo = max(s.Lo, c+1)
					} else {
						s.Hi = min(s.Hi, c)
					}
				})
			}
			return setB(cond, b)
		case "==":
			a, k := cond.args[0], cond.args[1]
			if k.k == KConst {
				if ki, ok := k.intConst(); ok {
					if a.k == KApp && a.op == "Type" {
						if !x.refine(st, a.args[0], func(s *Shape) {
							if ki == x.p.attrConst {
								if b {
									s.Kind &= 1
								} else {
									s.Kind &= 2
								}
							} else if b {
								s.Kind &= 2
							}
							s.Nil &= 2
						}) {
							return false
						}
					}
					if b {
						if !x.refine(st, a, func(s *Shape) { s.Lo, s.Hi = max(s.Lo, ki), min(s.Hi, ki); s.Eq = k }) {
							return false
						}
						return true
					}
					if !x.refine(st, a, func(s *Shape) {
						if s.Lo == ki {
							s.Lo++
						}
						if s.Hi == ki {
							s.Hi--
						}
					}) {
						return false
					}
					return setB(cond, b)
				}
				if b && k.c != nil {
					return x.refine(st, a, func(s *Shape) { s.Eq = k; s.Nil &= 2 })
				}
			}
			return setB(cond, b)
		case "match": // regexp match against a constant pattern
			if !setB(cond, b) {
				return false
			}
			if b {
				if pat, ok := cond.args[0].strConst(); ok {
					mask := regexpRaw(pat)
					return x.refineText(st, cond.args[1], func(s *Shape) { s.Raw &= mask })
				}
			}
			return true
		case "containsany":
			if !setB(cond, b) {
				return false
			}
			if !b {
				if set, ok := cond.args[1].strConst(); ok {
					return x.refineText(st, cond.args[0], func(s *Shape) { s.Raw &^= charMask(set) })
				}
			}
			return true
		}
	}
	if !setB(cond, b) {
		return false
	}
	if cond.k == KApp && cond.op == "in" && b {
		// a found key: its value is not the missing one
	}
	return true
}

// refineText refines a text and the texts it is a conversion of.
func (x *Exec) refineText(st *State, v *V, f func(s *Shape)) bool {
	for {
		if v.k == KApp && (v.op == "bytes" || v.op == "string") {
			v = v.args[0]
			continue
		}
		break
	}
	return x.refine(st, v, f)
}

// ---------- ownership ----------

// owner classifies the memory v points into: fresh, ctx, own, shared or global.
func (x *Exec) owner(st *State, v *V) string {
	switch v.k {
	case KPtr, KSlice, KMap:
		if o := st.heap[v.args[0]]; o != nil {
			switch o.kind {
			case "ctx", "own":
				return o.kind
			}
			return "fresh"
		}
		return "fresh"
	case KGlobal:
		return "global"
	case KConst:
		return "fresh"
	case KFunc:
		return "fresh"
	case KIface:
		return x.owner(st, v.args[0])
	case KApp:
		switch {
		case strings.HasPrefix(v.op, "fa:"), v.op == "[]", v.op == "slice", v.op == "clip":
			return x.owner(st, v.args[0])
		case v.op == "gbytes":
			return "global"
		case v.op == "bytes":
			return "fresh"
		case v.op == "data":
			return x.owner(st, v.args[0])
		}
	}
	if s := x.shape(st, v); !s.Shared || s.Nil == 1 {
		return "fresh"
	}
	return "shared"
}

// ---------- evaluation ----------

func (x *Exec) eval(st *State, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return mkNil(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Function:
		return mk(V{k: KFunc, fn: v, typ: v.Type()})
	case *ssa.Global:
		return mk(V{k: KGlobal, gl: v, typ: v.Type()})
	case *ssa.FreeVar:
		fr := st.top()
		for i, f := range fr.fn.FreeVars {
			if f == v {
				if i < len(fr.bind) {
					return fr.bind[i]
				}
				s := mkSym(fmt.Sprintf("$fv:%s#%d", fr.fn.String(), i), v.Type())
				return s
			}
		}
	case *ssa.Builtin:
		return mkSym("$builtin:"+v.Name(), v.Type())
	}
	r, ok := st.top().env[v]
	if !ok {
		panic(abort{fmt.Sprintf("no value for %s in %s", v.Name(), st.top().fn)})
	}
	return x.simplify(st, r)
}

func (x *Exec) set(st *State, in ssa.Instruction, v *V) {
	if val, ok := in.(ssa.Value); ok {
		st.top().env[val] = v
	}
}

func structField(t types.Type, i int) (string, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return "?", nil
	}
	return s.Field(i).Name(), s.Field(i).Type()
}

// typeName is the package path qualified name of a type.
func typeName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

func zeroOf(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
	case *types.Struct:
		args := make([]*V, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mk(V{k: KStruct, typ: t, args: args})
	}
	return mkNil(t)
}

func (x *Exec) fieldOf(st *State, v *V, i int, t types.Type) *V {
	name, ft := structField(t, i)
	switch v.k {
	case KStruct:
		if i < len(v.args) {
			return v.args[i]
		}
	case KConst:
		return zeroOf(ft)
	case KApp:
		if v.op == "*" {
			return x.loadTerm(st, mkApp("fa:"+typeName(t)+"."+name, types.NewPointer(ft), v.args[0]), ft)
		}
	}
	return mkApp("field:"+typeName(t)+"."+name, ft, v)
}

func (x *Exec) fieldAddr(st *State, p *V, i int, t types.Type) *V {
	name, ft := structField(t, i)
	if p.k == KPtr {
		return mkPtr(p.args[0], p.op+"."+name, types.NewPointer(ft))
	}
	return mkApp("fa:"+typeName(t)+"."+name, types.NewPointer(ft), p)
}

// loadTerm reads through an address that is not a precise object pointer.
func (x *Exec) loadTerm(st *State, a *V, t types.Type) *V {
	return x.simplify(st, mkApp("*", t, a))
}

func (x *Exec) load(st *State, a *V, t types.Type, in ssa.Instruction) *V {
	switch a.k {
	case KPtr:
		o := st.heap[a.args[0]]
		if o == nil {
			return x.newSym(st, in, "", t, nil)
		}
		return x.loadCell(st, o, a, a.op, t, in)
	case KGlobal:
		if v, ok := x.p.globals[a.gl]; ok {
			return v
		}
		return mkApp("*", t, a)
	case KConst:
		return x.newSym(st, in, "", t, nil)
	case KApp:
		if a.op == "[]" && a.args[0].k == KSlice {
			o := st.heap[a.args[0].args[0]]
			if o == nil {
				return x.newSym(st, in, "", t, nil)
			}
			if o.ver == nil {
				o.ver = mkSym("$v0", nil)
			}
			v := mkApp("*", t, a, o.ver)
			if _, ok := st.facts[v]; !ok {
				sh := x.elemShape(st, o)
				if sh == nil {
					sh = topShape(t, 3)
					sh.Shared = false
					sh.Nil = 3
				} else {
					sh = sh.clone()
				}
				st.facts[v] = sh
			}
			return x.simplify(st, v)
		}
	}
	if isStructT(t) {
		return mkApp("*", t, a)
	}
	return x.loadTerm(st, a, t)
}

func isStructT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (x *Exec) loadCell(st *State, o *Obj, a *V, path string, t types.Type, in ssa.Instruction) *V {
	if v, ok := o.cells[path]; ok {
		return x.simplify(st, v)
	}
	// an enclosing struct value
	for p := path; ; {
		i := strings.LastIndexAny(p, ".[")
		if i < 0 {
			break
		}
		p = p[:i]
		if v, ok := o.cells[p]; ok {
			return x.project(st, v, path[len(p):], t)
		}
		if p == "" {
			break
		}
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		args := make([]*V, u.NumFields())
		for i := range args {
			args[i] = x.loadCell(st, o, a, path+"."+u.Field(i).Name(), u.Field(i).Type(), in)
		}
		return mk(V{k: KStruct, typ: t, args: args})
	}
	if strings.HasPrefix(path, "[") && o.summary != nil {
		return x.newSym(st, in, "", t, o.summary)
	}
	if o.zero {
		return zeroOf(t)
	}
	if o.kind == "own" {
		s := mkSym("$own:"+o.typ.String()+path, t)
		if _, ok := st.facts[s]; !ok {
			st.facts[s] = x.inv.field(typeName(o.typ)+path, t, true)
		}
		o.cells[path] = s
		return x.simplify(st, s)
	}
	return x.newSym(st, in, path, t, nil)
}

func (x *Exec) project(st *State, v *V, rest string, t types.Type) *V {
	if rest == "" {
		return v
	}
	if rest[0] == '.' {
		name := rest[1:]
		more := ""
		if i := strings.IndexAny(name, ".["); i >= 0 {
			name, more = name[:i], name[i:]
		}
		vt := v.typ
		if vt != nil {
			if s, ok := vt.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == name {
						return x.project(st, x.fieldOf(st, v, i, vt), more, t)
					}
				}
			}
		}
	}
	return mkApp("proj:"+rest, t, v)
}

func (x *Exec) store(st *State, a, v *V, in ssa.Instruction) {
	if x.h.OnMutate != nil {
		x.h.OnMutate(x, st, "store", a, v, in)
	}
	x.storeQuiet(st, a, v, in)
}

func (x *Exec) storeQuiet(st *State, a, v *V, in ssa.Instruction) {
	switch a.k {
	case KPtr:
		o := st.heap[a.args[0]]
		if o == nil {
			return
		}
		for k := range o.cells {
			if strings.HasPrefix(k, a.op) && len(k) > len(a.op) && (k[len(a.op)] == '.' || k[len(a.op)] == '[') {
				delete(o.cells, k)
			}
		}
		// split an enclosing struct value
		for p := a.op; p != ""; {
			i := strings.LastIndexAny(p, ".[")
			if i < 0 {
				break
			}
			p = p[:i]
			if sv, ok := o.cells[p]; ok {
				delete(o.cells, p)
				if sv.typ != nil {
					if s, ok := sv.typ.Underlying().(*types.Struct); ok {
						for i := 0; i < s.NumFields(); i++ {
							o.cells[p+"."+s.Field(i).Name()] = x.fieldOf(st, sv, i, sv.typ)
						}
					}
				}
			}
		}
		delete(o.cells, "$seq")
		o.cells[a.op] = v
		if o.published {
			x.publishCell(st, o, a.op, v)
		}
		x.publishStored(st, o, a.op, v)
	case KApp:
		if a.op == "[]" {
			x.storeElem(st, a, v, in)
			return
		}
		if strings.HasPrefix(a.op, "fa:") {
			x.inv.join("f:"+a.op[3:], x.general(st, v))
			x.publish(st, v)
		}
	default:
		x.publish(st, v)
	}
}

func (x *Exec) storeElem(st *State, a, v *V, in ssa.Instruction) {
	base := a.args[0]
	sl := base
	for sl.k == KApp && (sl.op == "slice" || sl.op == "clip") {
		sl = sl.args[0]
	}
	if sl.k == KSlice {
		o := st.heap[sl.args[0]]
		if o == nil {
			return
		}
		x.summarise(st, o, v)
		ver := mkSym(x.site(st, in)+"#ver", nil)
		st.fresh(ver)
		st.heap[sl.args[0]].ver = ver
		return
	}
	// element of a slice that lives in a field: its invariant covers the element
	if sl.k == KApp && sl.op == "*" && sl.args[0].k == KApp && strings.HasPrefix(sl.args[0].op, "fa:") {
		x.inv.join("f:"+sl.args[0].op[3:], &Shape{Nil: 2, Kind: 0, Elem: x.general(st, v), Lo: math.MaxInt64, Hi: math.MinInt64})
	}
	x.publish(st, v)
}

// summarise joins v into the element summary of o, dropping precise cells.
func (x *Exec) summarise(st *State, o *Obj, v *V) {
	delete(o.cells, "$seq")
	for k, c := range o.cells {
		if strings.HasPrefix(k, "[") {
			o.summary = joinShape(o.summary, x.general1(st, c))
			delete(o.cells, k)
		}
	}
	x.publish(st, v)
	o.summary = joinShape(o.summary, x.general1(st, v))
	if o.published {
		x.publish(st, v)
	}
}

// general is the shape of v without anything that refers to this run's values.
func (x *Exec) general(st *State, v *V) *Shape {
	s := x.general1(st, v)
	s = stripShape(s)
	return s
}

func (x *Exec) general1(st *State, v *V) *Shape {
	s := x.shape(st, v).clone()
	s.B, s.Lo, s.Hi, s.Eq, s.Exact, s.NotDyn = 0, math.MinInt64, math.MaxInt64, nil, false, nil
	return s
}

func stripShape(s *Shape) *Shape {
	if s == nil {
		return nil
	}
	n := *s
	n.Name, n.Eq, n.B, n.Lo, n.Hi, n.Exact, n.NotDyn = nil, nil, 0, math.MinInt64, math.MaxInt64, false, nil
	n.Elem = stripShape(n.Elem)
	return &n
}

// publishStored feeds the field invariants of repository structs.
func (x *Exec) publishStored(st *State, o *Obj, path string, v *V) {}

func (x *Exec) publishCell(st *State, o *Obj, path string, v *V) {
	if o.typ == nil {
		return
	}
	x.publishAs(st, o.typ, path, v)
}

// publishAs joins v, stored at path of a value of type t, into the field invariant.
func (x *Exec) publishAs(st *State, t types.Type, path string, v *V) {
	cur := t
	for path != "" {
		if path[0] == '.' {
			name := path[1:]
			more := ""
			if i := strings.IndexAny(name, ".["); i >= 0 {
				name, more = name[:i], name[i:]
			}
			s, ok := cur.Underlying().(*types.Struct)
			if !ok {
				break
			}
			var ft types.Type
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					ft = s.Field(i).Type()
				}
			}
			if ft == nil {
				break
			}
			if more == "" {
				if !isStructT(ft) {
					x.inv.join("f:"+typeName(cur)+"."+name, x.general(st, v))
				}
				x.publish(st, v)
				return
			}
			cur, path = ft, more
		} else {
			break
		}
	}
	x.publish(st, v)
}

// publish makes v visible outside the run: everything reachable from it feeds the invariants.
func (x *Exec) publish(st *State, v *V) { x.publishSeen(st, v, map[*V]bool{}) }

func (x *Exec) publishSeen(st *State, v *V, seen map[*V]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch v.k {
	case KIface:
		x.publishSeen(st, v.args[0], seen)
	case KStruct:
		s, ok := v.typ.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i, a := range v.args {
			if isStructT(s.Field(i).Type()) {
				x.publishSeen(st, a, seen)
				continue
			}
			x.inv.join("f:"+typeName(v.typ)+"."+s.Field(i).Name(), x.general(st, a))
			x.publishSeen(st, a, seen)
		}
	case KTuple, KApp:
		if v.k == KApp && (v.op == "slice" || v.op == "clip" || v.op == "data") {
			x.publishSeen(st, v.args[0], seen)
		}
		if v.k == KTuple {
			for _, a := range v.args {
				x.publishSeen(st, a, seen)
			}
		}
	case KPtr, KSlice, KMap:
		o := st.heap[v.args[0]]
		if o == nil || o.kind == "ctx" {
			return
		}
		first := !o.published
		o.published = true
		if v.k == KPtr && o.typ != nil && isStructT(o.typ) {
			x.publishStruct(st, o, "", o.typ, seen)
			return
		}
		_ = first
		for _, c := range o.cells {
			x.publishSeen(st, c, seen)
		}
	case KFunc:
		if x.p.inRepo(v.fn) && v.fn.Parent() != nil {
			x.inv.addClosure(v.fn)
			for i, b := range v.args {
				if b.k == KPtr {
					if o := st.heap[b.args[0]]; o != nil {
						o.published = true
						t := b.typ
						if pt, ok := t.Underlying().(*types.Pointer); ok {
							val := x.loadCell(st, o, b, b.op, pt.Elem(), nil0(v.fn))
							x.inv.join(fmt.Sprintf("cell:%s#%d", v.fn.String(), i), x.general(st, val))
							x.publishSeen(st, val, seen)
						}
					}
				} else {
					x.inv.join(fmt.Sprintf("bind:%s#%d", v.fn.String(), i), x.general(st, b))
					x.publishSeen(st, b, seen)
				}
			}
		} else if x.p.inRepo(v.fn) {
			x.inv.addClosure(v.fn)
		}
	}
}

func nil0(fn *ssa.Function) ssa.Instruction { return fn.Blocks[0].Instrs[0] }

func (x *Exec) publishStruct(st *State, o *Obj, path string, t types.Type, seen map[*V]bool) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fp := path + "." + f.Name()
		if isStructT(f.Type()) {
			if v, ok := o.cells[fp]; ok {
				x.publishSeen(st, v, seen)
				continue
			}
			x.publishStruct(st, o, fp, f.Type(), seen)
			continue
		}
		var v *V
		if c, ok := o.cells[fp]; ok {
			v = c
		} else if c, ok := o.cells[path]; ok {
			v = x.fieldOf(st, c, i, t)
		} else if o.zero {
			v = zeroOf(f.Type())
		} else {
			continue
		}
		x.inv.join("f:"+typeName(t)+"."+f.Name(), x.general(st, v))
		x.publishSeen(st, v, seen)
	}
}

// ---------- running ----------

type work struct {
	b    *ssa.BasicBlock
	pred int
	st   *State
}

// run analyses a call of fn; the callee frame is pushed and popped.
func (x *Exec) run(st *State, fn *ssa.Function, args, bind []*V, call ssa.Instruction, ctx string) []Exit {
	x.fns[fn] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	if len(x.stack) > 60 {
		panic(abort{"call depth exceeded"})
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]*V{}, bind: bind, ctx: ctx, call: call}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	st.frames = append(st.frames, fr)
	var exits []Exit
	exitSets := map[string]*stateSet{}
	var exitOrder []*stateSet
	visited := make([]map[string]*stateSet, len(fn.Blocks))
	counts := make([]int, len(fn.Blocks))
	order := x.p.rpo(fn)
	pend := make([][]work, len(fn.Blocks))
	pend[0] = []work{{fn.Blocks[0], -1, st}}
	for {
		bi := -1
		for _, i := range order {
			if len(pend[i]) > 0 {
				bi = i
				break
			}
		}
		if bi < 0 {
			break
		}
		ws := pend[bi]
		pend[bi] = nil
		if visited[bi] == nil {
			visited[bi] = map[string]*stateSet{}
		}
		var todo []*stateSet
		for _, w := range ws {
			x.enter(w.st, w.b, w.pred, counts[bi])
			core := x.coreKey(w.st)
			ss := visited[bi][core]
			if ss == nil {
				ss = &stateSet{seen: map[string]bool{}}
				visited[bi][core] = ss
			}
			if x.addState(ss, w.st) && !ss.queued {
				ss.queued = true
				todo = append(todo, ss)
			}
		}
		for _, ss := range todo {
			ss.queued = false
			for _, st := range ss.take() {
				counts[bi]++
				x.rep.states++
				if profile != nil {
					profile[fmt.Sprintf("%s b%d %s", fn.Name(), bi, fn.Blocks[bi].Comment)]++
				}
				if counts[bi] > 5000 {
					panic(abort{fmt.Sprintf("too many states in %s block %d (%s)", fn, bi, fn.Blocks[bi].Comment)})
				}
				if debugFn != "" && strings.Contains(fn.String(), debugFn) && strings.Contains(x.root, os.Getenv("AITCH_DBGROOT")) {
					x.dump(st, fn.Blocks[bi])
				}
				next, ex := x.block(st, fn.Blocks[bi])
				for _, n := range next {
					pend[n.b.Index] = append(pend[n.b.Index], n)
				}
				for _, e := range ex {
					e.st.frames = e.st.frames[:len(e.st.frames)-1]
					pins := append(append([]*V{}, x.pins...), e.ret...)
					e.st.gc(x.stable, pins)
					k := x.coreKey(e.st)
					for _, r := range e.ret {
						k += "R" + strconv.Itoa(r.id)
						x.factKey(e.st, r, &k)
					}
					if e.panic {
						k += "!"
					}
					ss := exitSets[k]
					if ss == nil {
						ss = &stateSet{seen: map[string]bool{}, ret: e.ret, panic: e.panic}
						exitSets[k] = ss
						exitOrder = append(exitOrder, ss)
					}
					x.addState(ss, e.st)
				}
			}
		}
	}
	for _, ss := range exitOrder {
		for _, st := range ss.take() {
			exits = append(exits, Exit{st: st, ret: ss.ret, panic: ss.panic})
		}
	}
	return exits
}

var profile map[string]int

var debugFn = os.Getenv("AITCH_DEBUG")

func (x *Exec) dump(st *State, b *ssa.BasicBlock) {
	fmt.Fprintf(os.Stderr, "== %s b%d %s\n", b.Parent(), b.Index, b.Comment)
	for k, v := range st.top().env {
		fmt.Fprintf(os.Stderr, "   %s = %s\n", k.Name(), v)
	}
	var ks []string
	for k, s := range st.facts {
		ks = append(ks, fmt.Sprintf("   ? %s : %s", k, s.keyStr()))
	}
	for k, o := range st.heap {
		for p, c := range o.cells {
			ks = append(ks, fmt.Sprintf("   @ %s%s = %s", k, p, c))
		}
		ks = append(ks, fmt.Sprintf("   @ %s len=%v sum=%s pub=%v", k, o.length, o.summary.keyStr(), o.published))
	}
	for k, v := range st.mon {
		ks = append(ks, fmt.Sprintf("   M %s=%s", k, v))
	}
	sort.Strings(ks)
	fmt.Fprintln(os.Stderr, strings.Join(ks, "\n"))
}

func (x *Exec) isInduction(ph *ssa.Phi) bool {
	if r, ok := x.induct[ph]; ok {
		return r
	}
	r := false
	b := ph.Block()
	for i, e := range ph.Edges {
		if b.Dominates(b.Preds[i]) && x.stepOf(e, ph, map[ssa.Value]bool{}) {
			r = true
		}
	}
	x.induct[ph] = r
	return r
}

// stepOf reports whether v is ph plus or minus constants on some path.
func (x *Exec) stepOf(v ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.BinOp:
		if v.Op == token.ADD || v.Op == token.SUB {
			return v.X == ph || v.Y == ph || x.stepOf(v.X, ph, seen) || x.stepOf(v.Y, ph, seen)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if x.stepOf(e, ph, seen) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) enter(st *State, b *ssa.BasicBlock, pred int, count int) {
	fr := st.top()
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	back := pred >= 0 && b.Dominates(b.Preds[pred])
	header := back
	if !header {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				header = true
			}
		}
	}
	vals := make([]*V, len(phis))
	for i, ph := range phis {
		vals[i] = x.eval(st, ph.Edges[pred])
	}
	if !back {
		x.segClose(st)
	}
	// park the incoming values so that renaming reaches them
	live := x.p.livenessOf(b.Parent()).in[b.Index]
	for k := range fr.env {
		if !live[k] {
			delete(fr.env, k)
		}
	}
	for i, ph := range phis {
		fr.env[ph] = vals[i]
	}
	if back && x.shortLoop(st, fr, phis) {
		x.segStep(st)
	} else if back {
		x.segStep(st)
		x.widenCells(st, b)
		x.widenDepth(st, b)
		for ov, o := range st.heap {
			if o.summary == nil || o.length == nil || x.h.PreciseLen {
				continue
			}
			n := o.length
			if c, ok := n.intConst(); ok && c < 1 {
				continue
			}
			if n.k == KSym && x.shape(st, n).Lo <= 1 {
				continue
			}
			sym := mkSym(ov.op+"#len", types.Typ[types.Int])
			st.fresh(sym)
			f := topShape(types.Typ[types.Int], 0)
			f.Lo = max(0, min(x.shape(st, n).Lo, 1))
			st.facts[sym] = f
			st.heap[ov].length = sym
		}
		for _, ph := range phis {
			v := fr.env[ph]
			if _, ok := v.intConst(); ok && x.h.Peel > 0 {
				if x.seenVals(fmt.Sprintf("%p/peel", ph), v) <= x.h.Peel {
					continue
				}
				st.mon["$general"] = mkBool(true)
			}
			if isIntType(ph.Type()) && (x.isInduction(ph) || (count > 60 && v.k != KSym)) {
				sym := mkSym(x.site(st, ph), ph.Type())
				base, off := splitOff(v)
				if base == sym {
					if off != 0 {
						x.rebase(st, sym, off)
					}
				} else {
					sh := x.shape(st, v)
					st.fresh(sym)
					f := topShape(ph.Type(), 0)
					if x.isInduction(ph) && x.stepSign(ph) > 0 {
						f.Lo = sh.Lo
					}
					if x.isInduction(ph) && x.stepSign(ph) < 0 {
						f.Hi = sh.Hi
					}
					if sh.Lo >= 0 && x.isInduction(ph) && x.stepSign(ph) > 0 {
						f.Lo = sh.Lo
					}
					st.facts[sym] = f
					x.relateIdx(st, v, sym, ph)
					if base != nil && base.k == KApp && base.op == "len" && computedEntry(ph) {
						// may count the same thing as a monitor, which is not kept in mind
						st.mon["g:related"] = mkBool(true)
					}
					// relations known about the incoming value hold for the symbol
					x.transfer(st, v, sym)
					x.segGeneral(st, v, sym)
				}
				fr.env[ph] = sym
				continue
			}
			if n := x.widen(st, v, x.site(st, ph)+"#acc", fmt.Sprintf("%p", ph)); n != v {
				fr.env[ph] = n
				continue
			}
			lim := 14
			if isStringType(ph.Type()) || isByteSlice(ph.Type()) {
				lim = 3
			}
			if v.k == KApp && v.depth > lim {
				sh := x.general1(st, v)
				sym := mkSym(x.site(st, ph), ph.Type())
				if v != sym {
					old := x.shape(st, sym)
					_ = old
					st.fresh(sym)
					st.facts[sym] = sh
					fr.env[ph] = sym
				}
			}
		}
	}
	if header && x.h.OnHeader != nil {
		x.h.OnHeader(x, st, b, back)
	}
	if header {
		st.gc(x.stable, x.pins)
		x.prune(st, b)
		x.segPrune(st)
	}
	st.gc(x.stable, x.pins)
}

// shortLoop: one of phis counts the elements of a short list of texts whose length is known, so that the loop
// can be followed step by step.
func (x *Exec) shortLoop(st *State, fr *Frame, phis []*ssa.Phi) bool {
	for _, ph := range phis {
		if _, ok := fr.env[ph].intConst(); ok && x.countsShort(fr, ph) {
			return true
		}
	}
	return false
}

func (x *Exec) countsShort(fr *Frame, ph *ssa.Phi) bool {
	b := ph.Block()
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || !x.isInduction(ph) || x.stepSign(ph) != 1 {
		return false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || cond.Block() != b {
		return false
	}
	if inc, ok := cond.X.(*ssa.BinOp); cond.X != ph && (!ok || inc.X != ph) {
		return false
	}
	call, ok := cond.Y.(*ssa.Call)
	if !ok || len(call.Call.Args) != 1 {
		return false
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return false
	}
	s, ok := call.Call.Args[0].Type().Underlying().(*types.Slice)
	if !ok || !isByteSlice(s.Elem()) && !isStringType(s.Elem()) {
		return false
	}
	v := fr.env[call]
	if v == nil {
		return false
	}
	n, ok := v.intConst()
	return ok && n <= 8
}

// computedEntry: a loop starts with a value of ph that is not a constant of the program.
func computedEntry(ph *ssa.Phi) bool {
	b := ph.Block()
	for i, e := range ph.Edges {
		if _, ok := e.(*ssa.Const); !ok && !b.Dominates(b.Preds[i]) {
			return true
		}
	}
	return false
}

// stepSign: 1 if the induction variable only grows, -1 if it only shrinks.
func (x *Exec) stepSign(ph *ssa.Phi) int {
	up, down := false, false
	var walk func(v ssa.Value, seen map[ssa.Value]bool)
	walk = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.BinOp:
			c, ok := v.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				up, down = true, true
				return
			}
			n, _ := constant.Int64Val(c.Value)
			if v.Op == token.SUB {
				n = -n
			}
			if n > 0 {
				up = true
			} else if n < 0 {
				down = true
			}
			walk(v.X, seen)
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e, seen)
			}
		default:
			if v != ph {
				up, down = true, true
			}
		}
	}
	b := ph.Block()
	for i, e := range ph.Edges {
		if b.Dominates(b.Preds[i]) {
			walk(e, map[ssa.Value]bool{ph: true})
		}
	}
	if up && !down {
		return 1
	}
	if down && !up {
		return -1
	}
	return 0
}

// rebase renames induction symbol s so that s+off becomes s.
func (x *Exec) rebase(st *State, s *V, off int64) {
	sh := x.shape(st, s)
	delete(st.facts, s)
	st.rename(map[*V]*V{s: addc(s, -off)})
	n := topShape(s.typ, 0)
	if off > 0 {
		n.Lo = sh.Lo
	} else {
		n.Hi = sh.Hi
	}
	st.facts[s] = n
	// intervals recorded for shifted terms
	for k := range st.facts {
		b, o := splitOff(k)
		if b == s && o != 0 {
			delete(st.facts, k)
		}
	}
	for k := range st.facts {
		if k.k == KApp && k.op == "<" {
			if b, o := splitOff(k.args[1]); b != nil && (o > 1 || o < -1) && k.hasLeaf(s) {
				delete(st.facts, k)
			}
		}
	}
	// forget facts about the past that nothing refers to any more
	mentioned := map[*V]bool{}
	var sub func(v *V)
	sub = func(v *V) {
		if mentioned[v] {
			return
		}
		mentioned[v] = true
		for _, a := range v.args {
			sub(a)
		}
	}
	st.each(sub)
	for k := range st.facts {
		if k.hasLeaf(s) && k != s && pastOf(k, s) && !mentioned[k] && !(k.k == KApp && k.op == "seg" && mentioned[k.args[1]]) {
			delete(st.facts, k)
		}
	}
	// anything too far in the past becomes unknown
	x.fadePast(st, s)
}

// pastOf reports whether the term refers to s with a negative offset.
func pastOf(v, s *V) bool {
	if b, o := splitOff(v); b == s && o < 0 {
		return true
	}
	for _, a := range v.args {
		if a.hasLeaf(s) && pastOf(a, s) {
			return true
		}
	}
	return false
}

func farPast(v, s *V) bool {
	if b, o := splitOff(v); b == s && (o < -1 || o > 3) {
		return true
	}
	for _, a := range v.args {
		if a.hasLeaf(s) && farPast(a, s) {
			return true
		}
	}
	return false
}

func (x *Exec) fadePast(st *State, s *V) {
	faded := mkSym(s.op+"~past", s.typ)
	var fade func(v *V) *V
	fade = func(v *V) *V {
		if !v.hasLeaf(s) || !farPast(v, s) {
			return v
		}
		if b, o := splitOff(v); b == s && (o < -1 || o > 3) {
			return faded
		}
		args := make([]*V, len(v.args))
		for i, a := range v.args {
			args[i] = fade(a)
		}
		if v.k == KApp {
			return rebuild(v, args)
		}
		n := *v
		n.args, n.leaves, n.depth, n.id = args, nil, 0, 0
		return mk(n)
	}
	st.mapAll(fade)
}

// mapAll applies f to every value in the state.
func (st *State) mapAll(f func(*V) *V) {
	for _, fr := range st.frames {
		for k, v := range fr.env {
			fr.env[k] = f(v)
		}
		for i, v := range fr.bind {
			if n := f(v); n != v {
				nb := append([]*V(nil), fr.bind...)
				nb[i] = n
				fr.bind = nb
			}
		}
	}
	for _, o := range st.heap {
		for p, v := range o.cells {
			o.cells[p] = f(v)
		}
		if o.length != nil {
			o.length = f(o.length)
		}
		o.summary = o.summary.mapVals(f)
	}
	facts := make(map[*V]*Shape, len(st.facts))
	for k, s := range st.facts {
		nk := f(k)
		if nk.k == KConst {
			continue
		}
		if nk != k {
			if nk.op == "seg" {
				if o, dup := facts[nk]; dup {
					s = joinShape(o, s)
				}
				if o, dup := st.facts[nk]; dup {
					s = joinShape(o, s)
				}
				facts[nk] = s.mapVals(f)
				continue
			}
			if _, dup := facts[nk]; dup {
				continue
			}
			if _, dup := st.facts[nk]; dup {
				continue
			}
		}
		facts[nk] = s.mapVals(f)
	}
	st.facts = facts
	for k, v := range st.mon {
		st.mon[k] = f(v)
	}
}

// transfer copies comparison facts about v to sym (sym == v when this is called).
func (x *Exec) transfer(st *State, v, sym *V) {
	b, o := splitOff(v)
	if b == nil {
		return
	}
	for k, s := range st.facts {
		if k.k == KApp && (k.op == "<" || k.op == "==") && k.hasLeafOf(b) {
			// b = sym - o
			args := make([]*V, len(k.args))
			ok := false
			for i, a := range k.args {
				ab, ao := splitOff(a)
				if ab == b {
					args[i] = addc(sym, ao-o)
					ok = true
				} else {
					args[i] = a
				}
			}
			if ok {
				nk := rebuild(k, args)
				if nk.k != KConst {
					if nk.op == "!" {
						nk = nk.args[0]
						n := s.clone()
						if n.B != 0 {
							n.B = 3 - n.B
						}
						st.facts[nk] = n
					} else {
						st.facts[nk] = s
					}
				}
			}
		}
	}
}

func (v *V) hasLeafOf(b *V) bool {
	for _, l := range b.leaves {
		if v.hasLeaf(l) {
			return true
		}
	}
	return false
}

// block executes a block; forks are followed depth first.
func (x *Exec) block(st *State, b *ssa.BasicBlock) (next []work, exits []Exit) {
	type item struct {
		st *State
		i  int
	}
	items := []item{{st, 0}}
	for len(items) > 0 {
		it := items[len(items)-1]
		items = items[:len(items)-1]
		st := it.st
		i := it.i
	instrs:
		for i < len(b.Instrs) {
			in := b.Instrs[i]
			i++
			x.steps++
			if x.steps%1024 == 0 && (time.Since(x.begun) > rootPatience || time.Since(started) > patience) {
				panic(abort{"it takes too long"})
			}
			if x.steps > x.limit {
				panic(abort{"step limit exceeded"})
			}
			if x.h.OnInstr != nil {
				x.h.OnInstr(x, st, in)
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c := x.simplify(st, x.eval(st, in.Cond))
				for si, taken := range []bool{true, false} {
					var n *State
					if cb, ok := c.boolConst(); ok {
						if cb != taken {
							continue
						}
						n = st
					} else {
						n = st
						if taken {
							n = st.clone()
						}
						if !x.assume(n, c, taken) {
							continue
						}
					}
					n.trail = &Trail{n.trail, x.p.instrPos(in), tn(n.trail) + 1}
					if x.h.OnBranch != nil {
						x.h.OnBranch(x, n, c, taken, in)
					}
					next = append(next, work{b.Succs[si], predIndex(b, b.Succs[si], si), n})
				}
				break instrs
			case *ssa.Jump:
				next = append(next, work{b.Succs[0], predIndex(b, b.Succs[0], 0), st})
				break instrs
			case *ssa.Return:
				var ret []*V
				for _, r := range in.Results {
					ret = append(ret, x.eval(st, r))
				}
				exits = append(exits, Exit{st: st, ret: ret})
				break instrs
			case *ssa.Panic:
				if in.Pos().IsValid() {
					x.panics(st, in, "panics")
				}
				exits = append(exits, Exit{st: st, panic: true})
				break instrs
			default:
				outs, ex := x.instr(st, in)
				exits = append(exits, ex...)
				if len(outs) == 0 {
					break instrs
				}
				for _, o := range outs[1:] {
					items = append(items, item{o, i})
				}
				st = outs[0]
			}
		}
	}
	return
}

func tn(t *Trail) int {
	if t == nil {
		return 0
	}
	return t.n
}

func predIndex(b, succ *ssa.BasicBlock, si int) int {
	// if both successors are the same block the edges appear in order
	n := 0
	for j := 0; j < si; j++ {
		if b.Succs[j] == succ {
			n++
		}
	}
	for i, p := range succ.Preds {
		if p == b {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return -1
}

// prune drops facts about slice elements that can no longer be named by live values.
func (x *Exec) prune(st *State, b *ssa.BasicBlock) {
	live := map[*V]bool{}
	sub := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if sub[v] {
			return
		}
		sub[v] = true
		for _, a := range v.args {
			walk(a)
		}
	}
	step := map[*V]bool{}
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && onlySteps(ph) {
			step[st.top().env[ph]] = true
			delete(step, nil)
		}
	}
	used := map[*V]int{}
	for _, fr := range st.frames {
		for _, v := range fr.env {
			used[v]++
		}
	}
	st.each(func(v *V) {
		walk(v)
		if !step[v] || used[v] > 1 {
			live[v] = true
		}
	})
	memo := map[*V]bool{}
	var stale func(v *V) bool
	stale = func(v *V) bool {
		if r, ok := memo[v]; ok {
			return r
		}
		r := false
		if v.k == KApp {
			if v.op == "[]" && !sub[v] && (v.args[1].isConst() || !live[v.args[1]]) {
				r = true
			}
			for _, a := range v.args {
				if !r && stale(a) {
					r = true
				}
			}
		}
		memo[v] = r
		return r
	}
	for k := range st.facts {
		if !sub[k] && stale(k) {
			delete(st.facts, k)
		}
	}
	// comparisons that follow from stronger ones
	for k, s := range st.facts {
		if k.k != KApp || k.op != "<" || k.args[0].isConst() || s.B == 0 || sub[k] {
			continue
		}
		b, o := splitOff(k.args[1])
		if b == nil {
			continue
		}
		for d := int64(1); d <= 3; d++ {
			e := -d
			if s.B == 2 {
				e = d
			}
			if f, ok := st.facts[mkApp("<", types.Typ[types.Bool], k.args[0], addc(b, o+e))]; ok && f.B == s.B {
				delete(st.facts, k)
				break
			}
		}
	}
}

// onlySteps reports whether the only use of ph is to add constants to it.
func onlySteps(ph *ssa.Phi) bool {
	for _, r := range *ph.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		b, ok := r.(*ssa.BinOp)
		if debugFn != "" && !ok {
			fmt.Fprintln(os.Stderr, "onlySteps", ph, r)
		}
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
	}
	return true
}
