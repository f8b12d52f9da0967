package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind is the kind of an abstract value.
type Kind uint8

const (
	KConst  Kind = iota // constant (c == nil: the nil constant)
	KSym                // unknown value, named by the place that introduces it
	KObj                // abstract object (allocation site)
	KApp                // pure term over other values
	KPtr                // pointer into an object: args[0] = object, op = path
	KSlice              // slice over the whole backing array of an object
	KMap                // map object
	KFunc               // function or closure: fn, args = bindings
	KIface              // interface holding a value of known dynamic type
	KStruct             // struct value
	KTuple              // multiple results
	KGlobal             // address of a package level variable
)

// V is an interned abstract value; pointer equality is structural equality.
type V struct {
	id     int
	k      Kind
	op     string
	typ    types.Type
	c      constant.Value
	fn     *ssa.Function
	gl     *ssa.Global
	args   []*V
	leaves []*V
	depth  int
}

var (
	vtab   = map[string]*V{}
	typIDs = map[string]int{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	s := types.TypeString(t, nil)
	id, ok := typIDs[s]
	if !ok {
		id = len(typIDs)
		typIDs[s] = id
	}
	return strconv.Itoa(id)
}

func mk(v V) *V {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(v.k)))
	sb.WriteByte('|')
	sb.WriteString(v.op)
	sb.WriteByte('|')
	switch v.k {
	case KConst, KIface, KStruct:
		sb.WriteString(typeKey(v.typ))
	case KApp:
		if v.op == "data" {
			sb.WriteString(typeKey(v.typ))
		}
	}
	if v.c != nil {
		sb.WriteByte('#')
		sb.WriteString(v.c.ExactString())
	}
	if v.fn != nil {
		fmt.Fprintf(&sb, "%p", v.fn)
	}
	if v.gl != nil {
		fmt.Fprintf(&sb, "%p", v.gl)
	}
	for _, a := range v.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if r, ok := vtab[key]; ok {
		return r
	}
	r := &v
	r.id = len(vtab) + 1
	vtab[key] = r
	if r.k == KSym || r.k == KObj {
		r.leaves = []*V{r}
	} else {
		seen := map[*V]bool{}
		for _, a := range r.args {
			if a.depth+1 > r.depth {
				r.depth = a.depth + 1
			}
			for _, l := range a.leaves {
				if !seen[l] {
					seen[l] = true
					r.leaves = append(r.leaves, l)
				}
			}
		}
		sort.Slice(r.leaves, func(i, j int) bool { return r.leaves[i].id < r.leaves[j].id })
	}
	return r
}

func mkConst(c constant.Value, t types.Type) *V { return mk(V{k: KConst, c: c, typ: t}) }
func mkNil(t types.Type) *V                     { return mk(V{k: KConst, typ: t}) }
func mkInt(i int64) *V                          { return mkConst(constant.MakeInt64(i), types.Typ[types.Int]) }
func mkBool(b bool) *V                          { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkStr(s string) *V                         { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkSym(name string, t types.Type) *V        { return mk(V{k: KSym, op: name, typ: t}) }
func mkObj(name string) *V                      { return mk(V{k: KObj, op: name}) }
func mkApp(op string, t types.Type, args ...*V) *V {
	return mk(V{k: KApp, op: op, typ: t, args: args})
}
func mkPtr(obj *V, path string, t types.Type) *V {
	return mk(V{k: KPtr, op: path, args: []*V{obj}, typ: t})
}

func (v *V) hasLeaf(l *V) bool {
	for _, x := range v.leaves {
		if x == l {
			return true
		}
	}
	return false
}

func (v *V) isNilConst() bool { return v.k == KConst && v.c == nil }
func (v *V) isConst() bool    { return v.k == KConst }
func (v *V) boolConst() (val, ok bool) {
	if v.k == KConst && v.c != nil && v.c.Kind() == constant.Bool {
		return constant.BoolVal(v.c), true
	}
	return false, false
}
func (v *V) intConst() (int64, bool) {
	if v.k == KConst && v.c != nil && v.c.Kind() == constant.Int {
		i, ok := constant.Int64Val(v.c)
		return i, ok
	}
	return 0, false
}
func (v *V) strConst() (string, bool) {
	if v.k == KConst && v.c != nil && v.c.Kind() == constant.String {
		return constant.StringVal(v.c), true
	}
	return "", false
}

func (v *V) String() string {
	switch v.k {
	case KConst:
		if v.c == nil {
			return "nil"
		}
		return v.c.String()
	case KSym, KObj:
		return v.op
	case KPtr:
		return "&" + v.args[0].op + v.op
	case KSlice:
		return "slice(" + v.args[0].op + ")"
	case KMap:
		return "map(" + v.args[0].op + ")"
	case KFunc:
		return v.fn.Name()
	case KGlobal:
		return v.gl.Name()
	}
	var a []string
	for _, x := range v.args {
		a = append(a, x.String())
	}
	name := v.op
	switch v.k {
	case KIface:
		name = "iface:" + types.TypeString(v.typ, shortQ)
	case KStruct:
		name = "struct"
	case KTuple:
		name = ""
	}
	return name + "(" + strings.Join(a, ",") + ")"
}

func shortQ(p *types.Package) string { return p.Name() }

// subst replaces leaves by values.
func subst(v *V, m map[*V]*V, memo map[*V]*V) *V {
	if v == nil {
		return nil
	}
	hit := false
	for _, l := range v.leaves {
		if _, ok := m[l]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return v
	}
	if r, ok := m[v]; ok {
		return r
	}
	if r, ok := memo[v]; ok {
		return r
	}
	args := make([]*V, len(v.args))
	for i, a := range v.args {
		args[i] = subst(a, m, memo)
	}
	var r *V
	if v.k == KApp {
		r = rebuild(v, args)
	} else {
		n := *v
		n.args, n.leaves, n.depth, n.id = args, nil, 0, 0
		r = mk(n)
	}
	memo[v] = r
	return r
}

// rebuild re-normalises an application after its arguments changed.
func rebuild(v *V, args []*V) *V {
	switch v.op {
	case "+":
		return add(args[0], args[1])
	case "!":
		return not(args[0])
	case "<":
		return less(args[0], args[1])
	case "==":
		return equal(args[0], args[1])
	}
	return mkApp(v.op, v.typ, args...)
}

func splitOff(v *V) (*V, int64) {
	if c, ok := v.intConst(); ok {
		return nil, c
	}
	if v.k == KApp && v.op == "+" {
		if c, ok := v.args[1].intConst(); ok {
			return v.args[0], c
		}
	}
	return v, 0
}

func addc(v *V, c int64) *V {
	b, o := splitOff(v)
	if b == nil {
		return mkInt(o + c)
	}
	if o+c == 0 {
		return b
	}
	return mkApp("+", types.Typ[types.Int], b, mkInt(o+c))
}

func add(a, b *V) *V {
	ab, ao := splitOff(a)
	bb, bo := splitOff(b)
	switch {
	case ab == nil:
		return addc(b, ao)
	case bb == nil:
		return addc(a, bo)
	}
	if ab.id > bb.id {
		ab, bb = bb, ab
	}
	return addc(mkApp("+", types.Typ[types.Int], ab, bb), ao+bo)
}

func not(v *V) *V {
	if b, ok := v.boolConst(); ok {
		return mkBool(!b)
	}
	if v.k == KApp && v.op == "!" {
		return v.args[0]
	}
	return mkApp("!", types.Typ[types.Bool], v)
}

// less is a<b over integers in normal form: constants end up on the left ("<"(C, x) means C < x).
func less(a, b *V) *V {
	ab, ao := splitOff(a)
	bb, bo := splitOff(b)
	switch {
	case ab == nil && bb == nil:
		return mkBool(ao < bo)
	case ab == bb:
		return mkBool(ao < bo)
	case bb == nil: // x+ao < bo  <=>  x < bo-ao <=> !(bo-ao-1 < x)
		return not(less(mkInt(bo-ao-1), ab))
	case ab == nil: // ao < x+bo
		if ao-bo < 0 && nonNeg(bb) {
			return mkBool(true)
		}
		return mkApp("<", types.Typ[types.Bool], mkInt(ao-bo), bb)
	}
	return mkApp("<", types.Typ[types.Bool], ab, addc(bb, bo-ao))
}

func nonNeg(v *V) bool { return v.k == KApp && (v.op == "len" || v.op == "cap") }

func constEq(a, b *V) (eq, known bool) {
	if a.k == KConst && b.k == KConst {
		if a.c == nil || b.c == nil {
			return a.c == nil && b.c == nil, true
		}
		if a.c.Kind() == b.c.Kind() {
			return constant.Compare(a.c, token.EQL, b.c), true
		}
	}
	return false, false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// equal is the normal form of a==b.
func equal(a, b *V) *V {
	if a == b && a.k != KObj {
		return mkBool(true)
	}
	if eq, known := constEq(a, b); known {
		return mkBool(eq)
	}
	if a.k == KConst {
		a, b = b, a
	}
	if t, ok := b.boolConst(); ok && a.typ != nil {
		if bt, isB := a.typ.Underlying().(*types.Basic); isB && bt.Info()&types.IsBoolean != 0 {
			if t {
				return a
			}
			return not(a)
		}
	}
	if b.isNilConst() {
		switch a.k {
		case KPtr, KSlice, KMap, KFunc, KIface, KGlobal:
			return mkBool(false)
		case KConst:
			if a.c != nil { // a non-nil constant boxed in an interface
				return mkBool(false)
			}
		}
		return mkApp("isnil", types.Typ[types.Bool], a)
	}
	if s, ok := b.strConst(); ok && s == "" {
		return not(less(mkInt(0), mkLen(a)))
	}
	if _, ok := b.intConst(); ok {
		ab, ao := splitOff(a)
		bi, _ := b.intConst()
		if ab == nil {
			return mkBool(ao == bi)
		}
		a, b = ab, mkInt(bi-ao)
		if bi-ao == 0 && nonNeg(a) {
			return not(less(mkInt(0), a))
		}
		if bi-ao < 0 && nonNeg(a) {
			return mkBool(false)
		}
		return mkApp("==", types.Typ[types.Bool], a, b)
	}
	if b.k != KConst {
		ab, ao := splitOff(a)
		bb, bo := splitOff(b)
		if ab != nil && ab == bb {
			return mkBool(ao == bo)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mkApp("==", types.Typ[types.Bool], a, b)
}

func mkLen(v *V) *V {
	if s, ok := v.strConst(); ok {
		return mkInt(int64(len(s)))
	}
	if v.isNilConst() {
		return mkInt(0)
	}
	if v.k == KApp {
		switch v.op {
		case "bytes", "string": // conversions keep the length
			return mkLen(v.args[0])
		case "cat":
			return add(mkLen(v.args[0]), mkLen(v.args[1]))
		case "gbytes":
			s, _ := v.args[0].strConst()
			return mkInt(int64(len(s)))
		}
	}
	return mkApp("len", types.Typ[types.Int], v)
}

// textParts flattens a text term into its parts.
func textParts(v *V) []*V {
	if v.k == KApp {
		switch v.op {
		case "cat":
			return append(textParts(v.args[0]), textParts(v.args[1])...)
		case "bytes", "string", "gbytes":
			return textParts(v.args[0])
		}
	}
	return []*V{v}
}

func mkCat(a, b *V) *V {
	if s, ok := a.strConst(); ok && s == "" {
		return b
	}
	if s, ok := b.strConst(); ok && s == "" {
		return a
	}
	pa, pb := textParts(a), textParts(b)
	if l, ok := pa[len(pa)-1].strConst(); ok {
		if r, ok := pb[0].strConst(); ok {
			parts := append(append(append([]*V{}, pa[:len(pa)-1]...), mkStr(l+r)), pb[1:]...)
			return catAll(parts)
		}
	}
	return catAll(append(append([]*V{}, pa...), pb...))
}

func catAll(parts []*V) *V {
	r := parts[0]
	for _, p := range parts[1:] {
		r = mkApp("cat", types.Typ[types.String], r, p)
	}
	return r
}
