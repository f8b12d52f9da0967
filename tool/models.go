package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"regexp/syntax"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// extName is the canonical name of a function outside the repository.
func extName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// htmlChars are the characters the bits of Shape.Raw stand for (bit 6 is "not quoted for Go").
const htmlChars = "<>&\"'\x00"

// charMask is the mask of the special characters in set.
func charMask(set string) uint16 {
	m := uint16(0)
	for i := 0; i < len(htmlChars); i++ {
		if strings.IndexByte(set, htmlChars[i]) >= 0 {
			m |= 1 << i
		}
	}
	return m
}

// regexpRaw is the mask of the special characters that can occur in a text that matches pattern.
func regexpRaw(pat string) uint16 {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return rawAll
	}
	re = re.Simplify()
	if !anchored(re) {
		return rawAll
	}
	m := uint16(rawAll &^ rawHTML)
	var walk func(r *syntax.Regexp)
	walk = func(r *syntax.Regexp) {
		switch r.Op {
		case syntax.OpLiteral:
			m |= charMask(string(r.Rune))
		case syntax.OpCharClass:
			for i := 0; i+1 < len(r.Rune); i += 2 {
				for j := 0; j < len(htmlChars); j++ {
					if c := rune(htmlChars[j]); c >= r.Rune[i] && c <= r.Rune[i+1] {
						m |= 1 << j
					}
				}
			}
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			m |= rawHTML
		}
		for _, s := range r.Sub {
			walk(s)
		}
	}
	walk(re)
	if m&rawHTML == 0 && goSafe(re) {
		m &^= rawGo
	}
	return m
}

// goSafe: no character needs escaping inside a Go string literal.
func goSafe(r *syntax.Regexp) bool {
	switch r.Op {
	case syntax.OpLiteral:
		for _, c := range r.Rune {
			if c < 0x20 || c > 0x7e || c == '\\' || c == '"' {
				return false
			}
		}
	case syntax.OpCharClass:
		for i := 0; i+1 < len(r.Rune); i += 2 {
			if r.Rune[i] < 0x20 || r.Rune[i+1] > 0x7e {
				return false
			}
			for _, c := range `\"` {
				if c >= r.Rune[i] && c <= r.Rune[i+1] {
					return false
				}
			}
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return false
	}
	for _, s := range r.Sub {
		if !goSafe(s) {
			return false
		}
	}
	return true
}

// anchored reports whether a match covers the whole text.
func anchored(r *syntax.Regexp) bool {
	switch r.Op {
	case syntax.OpConcat:
		n := len(r.Sub)
		return n >= 2 && r.Sub[0].Op == syntax.OpBeginText && r.Sub[n-1].Op == syntax.OpEndText
	case syntax.OpCapture:
		return anchored(r.Sub[0])
	}
	return false
}

// textPkgs are packages whose functions are pure and whose texts derive from their arguments.
var textPkgs = map[string]bool{"strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true, "errors": true, "math": true,
	"html": true, "html/template": true, "regexp": true, "reflect": true, "path": true, "cmp": true, "slices": true, "maps": true, "math/bits": true, "unicode/utf16": true, "fmt": true, "runtime": true}

func pkgOf(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// mutators are external functions that write through their first argument.
var mutators = map[string]bool{
	"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true,
	"slices.Insert": true, "slices.Delete": true, "slices.DeleteFunc": true, "slices.Compact": true, "slices.CompactFunc": true, "slices.Replace": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "maps.Insert": true, "slices.Grow": true,
}

func (x *Exec) external(st *State, fn *ssa.Function, args []*V, in ssa.Instruction) []*State {
	name := extName(fn)
	if x.h.OnExt != nil {
		x.h.OnExt(x, st, name, args, in)
	}
	res := fn.Signature.Results()
	set1 := func(v *V) []*State {
		x.result(st, in, []*V{x.simplify(st, v)})
		return one(st)
	}
	rt := func(i int) types.Type { return res.At(i).Type() }
	boolT := types.Typ[types.Bool]
	txt := func(v *V) *V {
		if t, ok := x.text(st, v); ok {
			return t
		}
		if v.k == KSlice || (v.k == KApp && (v.op == "slice" || v.op == "clip")) {
			return x.frag(st, v, in, "#t")
		}
		return v
	}
	asText := func(t *V, typ types.Type) *V {
		if isByteSlice(typ) {
			return mkApp("bytes", typ, t)
		}
		return t
	}

	if v := x.constCall(name, args); v != nil {
		return set1(v)
	}
	if name == "slices.BinarySearch" && args[0].k == KApp && args[0].op == "*" && args[0].args[0].k == KGlobal {
		if s, ok := args[1].strConst(); ok && x.p.glists[args[0].args[0].gl] != nil {
			i, found := slices.BinarySearch(x.p.glists[args[0].args[0].gl], s)
			x.result(st, in, []*V{mkInt(int64(i)), mkBool(found)})
			return one(st)
		}
	}
	// text buffers
	if strings.HasPrefix(name, "(*bytes.Buffer).") || strings.HasPrefix(name, "(*strings.Builder).") {
		if outs, ok := x.buffer(st, name[strings.LastIndex(name, ".")+1:], args, res, in); ok {
			return outs
		}
	}
	switch name {
	case "slices.Clip":
		if args[0].isNilConst() {
			return set1(args[0])
		}
		return set1(mkApp("clip", rt(0), args[0]))
	case "slices.Clone", "bytes.Clone", "slices.Concat", "slices.Grow", "slices.Sorted", "slices.SortedFunc", "slices.Collect", "bytes.Join0":
		return set1(x.sliceModel(st, name, args, rt(0), in))
	case "strings.ContainsAny", "bytes.ContainsAny":
		if v, ok := args[0].strConst(); ok {
			if s, ok := args[1].strConst(); ok {
				return set1(mkBool(strings.ContainsAny(v, s)))
			}
		}
		return set1(mkApp("containsany", boolT, txt(args[0]), args[1]))
	case "strings.Contains", "strings.ContainsRune":
		set := ""
		if s, ok := args[1].strConst(); ok && len(s) == 1 {
			set = s
		} else if c, ok := args[1].intConst(); ok && name == "strings.ContainsRune" && c < 128 {
			set = string(rune(c))
		}
		if set != "" {
			return set1(mkApp("containsany", boolT, txt(args[0]), mkStr(set)))
		}
	case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match":
		re := x.load1(st, args[0])
		if re.k == KApp && re.op == "gregexp" {
			return set1(mkApp("match", boolT, re.args[0], txt(args[1])))
		}
	case "regexp.MustCompile":
		return set1(mkApp("gregexp", rt(0), args[0]))
	case "regexp.MatchString":
		x.result(st, in, []*V{x.simplify(st, mkApp("match", boolT, args[0], txt(args[1]))), mkNil(errT)})
		return one(st)
	case "strings.Clone":
		return set1(args[0])
	case "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.FormatBool", "strconv.Itoa":
		return set1(mkApp("ext:"+name, rt(0), args...))
	case "strconv.AppendInt", "strconv.AppendUint", "strconv.AppendFloat", "strconv.AppendBool":
		f := mkApp("ext:strconv.Format"+strings.TrimPrefix(name, "strconv.Append"), types.Typ[types.String], args[1:]...)
		return set1(x.appendTo(st, args[0], f, rt(0), in))
	case "strconv.Quote", "strconv.QuoteToASCII":
		return set1(mkApp("quote", rt(0), txt(args[0])))
	case "strconv.AppendQuote", "strconv.AppendQuoteToASCII":
		return set1(x.appendTo(st, args[0], mkApp("quote", types.Typ[types.String], txt(args[1])), rt(0), in))
	case "html.EscapeString", "html/template.HTMLEscapeString":
		return set1(mkApp("htmlescape", rt(0), txt(args[0])))
	case "strings.NewReplacer":
		return set1(x.newReplacer(st, args, rt(0), in))
	case "(*strings.Replacer).Replace":
		return set1(x.replace(st, args[0], txt(args[1]), in))
	case "strings.ReplaceAll", "bytes.ReplaceAll":
		t := txt(args[0])
		o, ok1 := x.constText(st, args[1])
		n, ok2 := x.constText(st, args[2])
		if ok1 && ok2 {
			return set1(asText(x.replaced(st, t, [][2]string{{o, n}}, in), rt(0)))
		}
	case "fmt.Sprint", "fmt.Sprintln", "fmt.Sprintf":
		return set1(x.sprint(st, name, args, in))
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		t := x.sprint(st, strings.Replace(name, "Fp", "Sp", 1), args[1:], in)
		return x.writeTo(st, args[0], t, res, in)
	case "io.WriteString":
		return x.writeTo(st, args[0], txt(args[1]), res, in)
	case "strings.TrimPrefix", "strings.TrimSuffix":
		if r := x.unquoted(st, name, args[0], args[1]); r != nil {
			return set1(r)
		}
		fallthrough
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		if s, ok := args[0].strConst(); ok && len(args) == 1 {
			switch name {
			case "strings.ToLower":
				return set1(mkStr(strings.ToLower(s)))
			case "strings.ToUpper":
				return set1(mkStr(strings.ToUpper(s)))
			case "strings.TrimSpace":
				return set1(mkStr(strings.TrimSpace(s)))
			}
		}
	case "strings.CutPrefix":
		p, ok := args[1].strConst()
		if !ok {
			break
		}
		c := x.simplify(st, mkApp("ext:strings.HasPrefix", boolT, args...))
		var sts []*State
		for _, b := range []bool{true, false} {
			ns := st.clone()
			if !x.assume(ns, c, b) {
				continue
			}
			r := args[0]
			if b {
				r = x.simplify(ns, mkApp("substr", rt(0), args[0], mkInt(int64(len(p))), mkNil(nil)))
			}
			x.result(ns, in, []*V{r, mkBool(b)})
			sts = append(sts, ns)
		}
		return sts
	case "errors.Is": // (errors that wrap others are taken to be different from them)
		return set1(equal(args[0], args[1]))
	case "errors.New", "fmt.Errorf":
		s := topShape(errT, 0)
		s.Nil, s.Shared = 2, false
		return set1(x.newSym(st, in, "", errT, s))
	case "maps.Keys", "maps.Values", "slices.Values", "slices.All", "maps.All":
		return set1(mkApp("iter:"+name, rt(0), args[0]))
	case "(sort.StringSlice).Sort":
		name = "sort.Sort"
	case "(*sync.Once).Do", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock":
	}
	if mutators[name] {
		if name == "slices.Insert" || name == "slices.Grow" {
			if x.h.OnMutate != nil {
				x.h.OnMutate(x, st, "append", args[0], nil, in)
			}
		} else if x.h.OnMutate != nil {
			x.h.OnMutate(x, st, "sort", args[0], nil, in)
		}
		x.mutated(st, name, args, in)
		if res.Len() == 1 && types.Identical(rt(0), fn.Signature.Params().At(0).Type()) {
			x.result(st, in, []*V{args[0]})
			return one(st)
		}
	}
	if textPkgs[pkgOf(fn)] && len(x.closuresOf(st, args)) == 0 && !stateful(name) {
		var ret []*V
		pure := true
		for _, a := range args {
			for _, l := range a.leaves {
				if l.k == KObj && !funcNaming[name] {
					pure = false
				}
			}
		}
		for i := 0; i < res.Len(); i++ {
			if pure {
				op := "ext:" + name
				if res.Len() > 1 {
					op += fmt.Sprintf("#%d", i)
				}
				ret = append(ret, x.simplify(st, mkApp(op, rt(i), args...)))
				continue
			}
			s := topShape(rt(i), 3)
			if isStringType(rt(i)) || isByteSlice(rt(i)) {
				s.Raw = 0
				for _, a := range args {
					s.Raw |= x.anyRaw(st, a, 0)
				}
			}
			ret = append(ret, x.newSym(st, in, fmt.Sprintf("#%d", i), rt(i), s))
		}
		x.result(st, in, ret)
		return one(st)
	}
	return x.effects(st, "ext:"+name, args, res, in)
}

// constCall is the result of a library function for constants, and for lists of names that never change.
func (x *Exec) constCall(name string, args []*V) *V {
	list := func(v *V) []string {
		if v.k == KApp && v.op == "*" && v.args[0].k == KGlobal {
			return x.p.glists[v.args[0].gl]
		}
		return nil
	}
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		return args[i].strConst()
	}
	switch name {
	case "slices.Contains", "slices.Index":
		if l := list(args[0]); l != nil {
			if s, ok := str(1); ok {
				if name == "slices.Index" {
					return mkInt(int64(slices.Index(l, s)))
				}
				return mkBool(slices.Contains(l, s))
			}
		}
		return nil
	case "sort.SearchStrings":
		if l := list(args[0]); l != nil {
			if s, ok := str(1); ok {
				return mkInt(int64(sort.SearchStrings(l, s)))
			}
		}
		return nil
	case "(*regexp.Regexp).MatchString":
		if re := args[0]; re.k == KApp && re.op == "gregexp" {
			if p, ok := re.args[0].strConst(); ok {
				if s, ok := str(1); ok {
					if r, err := regexp.Compile(p); err == nil {
						return mkBool(r.MatchString(s))
					}
				}
			}
		}
		return nil
	}
	a, ok1 := str(0)
	b, ok2 := str(1)
	if !ok1 || !ok2 || len(args) != 2 {
		return nil
	}
	switch name {
	case "strings.Contains":
		return mkBool(strings.Contains(a, b))
	case "strings.ContainsAny":
		return mkBool(strings.ContainsAny(a, b))
	case "strings.HasPrefix":
		return mkBool(strings.HasPrefix(a, b))
	case "strings.HasSuffix":
		return mkBool(strings.HasSuffix(a, b))
	case "strings.EqualFold":
		return mkBool(strings.EqualFold(a, b))
	case "strings.Index":
		return mkInt(int64(strings.Index(a, b)))
	case "strings.LastIndex":
		return mkInt(int64(strings.LastIndex(a, b)))
	case "strings.IndexAny":
		return mkInt(int64(strings.IndexAny(a, b)))
	case "strings.Trim":
		return mkStr(strings.Trim(a, b))
	case "strings.TrimPrefix":
		return mkStr(strings.TrimPrefix(a, b))
	case "strings.TrimSuffix":
		return mkStr(strings.TrimSuffix(a, b))
	}
	return nil
}

// funcNaming are the steps from a function to its name: what they are applied to matters, not its memory.
var funcNaming = map[string]bool{"reflect.ValueOf": true, "(reflect.Value).Pointer": true, "(reflect.Value).UnsafePointer": true, "runtime.FuncForPC": true, "(*runtime.Func).Name": true}

// stateful external functions of otherwise pure packages.
func stateful(name string) bool {
	return strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Scan") || strings.HasPrefix(name, "fmt.Fscan") || strings.HasPrefix(name, "(*html/template.") ||
		strings.HasPrefix(name, "html/template.") || strings.HasPrefix(name, "(*bytes.") || strings.HasPrefix(name, "(*strings.Reader") || strings.HasPrefix(name, "(reflect.Value).Set") ||
		strings.HasPrefix(name, "(reflect.Value).Call") || strings.HasPrefix(name, "runtime.") && name != "runtime.FuncForPC"
}

// load1 reads through a known global pointer value.
func (x *Exec) load1(st *State, v *V) *V { return v }

// anyRaw is the union of the raw characters in anything reachable from v.
func (x *Exec) anyRaw(st *State, v *V, depth int) uint16 {
	if depth > 4 {
		return rawAll
	}
	switch v.k {
	case KIface:
		if isStringType(v.typ) || isByteSlice(v.typ) {
			return x.textRaw(st, v.args[0])
		}
		if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
			return 0
		}
		return rawAll
	case KSlice, KPtr:
		if isByteSlice(v.typ) {
			return x.textRaw(st, v)
		}
		o := st.heap[v.args[0]]
		if o == nil {
			return rawAll
		}
		m := uint16(0)
		for _, c := range o.cells {
			m |= x.anyRaw(st, c, depth+1)
		}
		if o.summary != nil {
			if o.summary.Dyn == nil {
				m |= rawAll
			} else {
				m |= o.summary.Raw
			}
		}
		return m
	case KConst:
		return 0
	}
	s := x.shape(st, v)
	if v.typ == nil {
		return s.Raw
	}
	return s.Raw | deepRaw(s, v.typ)
}

// deepRaw is what the texts in a value may hold.
func deepRaw(s *Shape, t types.Type) uint16 {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return rawAll
	case *types.Slice:
		if s == nil || s.Elem == nil {
			return 0
		}
		if isStringType(u.Elem()) || isByteSlice(u.Elem()) {
			return s.Elem.Raw
		}
		return deepRaw(s.Elem, u.Elem())
	case *types.Map:
		return rawAll
	}
	return 0
}

// sliceModel builds the fresh slice returned by functions that copy slices.
func (x *Exec) sliceModel(st *State, name string, args []*V, t types.Type, in ssa.Instruction) *V {
	if name == "slices.Concat" {
		// the variadic argument is a slice of slices
		var elem *Shape
		ln := mkInt(0)
		a := args[0]
		var parts []*V
		if a.k == KSlice {
			if o := st.heap[a.args[0]]; o != nil {
				if n, ok := o.lengthConst(); ok && o.summary == nil {
					for i := int64(0); i < n; i++ {
						if c, ok := o.cells[fmt.Sprintf("[%d]", i)]; ok {
							parts = append(parts, c)
						} else {
							parts = append(parts, mkNil(t))
						}
					}
				}
			}
		}
		if parts == nil && !a.isNilConst() {
			s := topShape(t, 3)
			s.Shared, s.Exact = false, true
			return x.newSym(st, in, "", t, s)
		}
		if isByteSlice(t) {
			var c *V = mkStr("")
			for _, p := range parts {
				tx, ok := x.text(st, p)
				if !ok {
					tx = x.frag(st, p, in, "#c")
				}
				c = mkCat(c, tx)
			}
			return mkApp("bytes", t, c)
		}
		mo := false
		for _, p := range parts {
			s := x.shape(st, p)
			elem = joinShape(elem, looseElem(s.Elem))
			ln = add(ln, x.length(st, p))
			mo = mo || s.Flags&flagMapOrder != 0
		}
		o := &Obj{typ: t, kind: "slice", summary: elem, mapOrder: mo}
		if x.tracksSeq(t) {
			var all []*V
			for _, p := range parts {
				s := x.seqOf(st, p)
				if s == nil {
					all = nil
					break
				}
				all = append(all, s.args...)
			}
			if all != nil {
				x.parkSeq(st, in, mkSeq(all...))
			}
		}
		v := x.newObj(st, in, "", o)
		if s := x.unparkSeq(st, in); s != nil {
			o.cells["$seq"] = s
		}
		x.bumpLen(st, v, o, x.simplify(st, ln), in)
		r := mk(V{k: KSlice, args: []*V{v}, typ: t})
		x.noteCopy(st, v, parts)
		return r
	}
	a := args[0]
	if isByteSlice(t) {
		if tx, ok := x.text(st, a); ok {
			return mkApp("bytes", t, tx)
		}
	}
	s := x.shape(st, a)
	o := &Obj{typ: t, kind: "slice", summary: looseElem(s.Elem)}
	if a.k == KApp && strings.HasPrefix(a.op, "iter:") {
		m := a.args[0]
		o.summary = nil
		et := t.Underlying().(*types.Slice).Elem()
		switch a.op {
		case "iter:maps.Keys":
			o.summary = topShape(et, 3)
			o.summary.Flags |= flagUser
			o.mapOrder = !strings.HasPrefix(name, "slices.Sorted")
			x.keyedBy(st, o, m)
		case "iter:maps.Values":
			o.summary = looseElem(x.shape(st, m).Elem)
			o.mapOrder = !strings.HasPrefix(name, "slices.Sorted")
		case "iter:slices.Values":
			o.summary = looseElem(x.shape(st, m).Elem)
		default:
			o.summary = topShape(et, 3)
		}
	} else if a.isNilConst() || s.Nil == 1 {
		return mkNil(t)
	}
	o.mapOrder = o.mapOrder || s.Flags&flagMapOrder != 0
	if strings.HasPrefix(name, "slices.Sorted") {
		o.mapOrder = false
	}
	var sq *V
	if x.tracksSeq(t) && !strings.HasPrefix(name, "slices.Sorted") && !(a.k == KApp && strings.HasPrefix(a.op, "iter:")) {
		sq = x.seqOf(st, a)
	}
	if sq != nil {
		x.parkSeq(st, in, sq)
	}
	v := x.newObj(st, in, "", o)
	if sq != nil {
		o.cells["$seq"] = x.unparkSeq(st, in)
	}
	if ln := x.length(st, a); !(a.k == KApp && strings.HasPrefix(a.op, "iter:")) {
		x.bumpLen(st, v, o, ln, in)
	}
	return mk(V{k: KSlice, args: []*V{v}, typ: t})
}

// keyedBy remembers that the elements of o are keys of m.
func (x *Exec) keyedBy(st *State, o *Obj, m *V) {}

// noteCopy lets checks know that the elements of parts were copied into a fresh slice.
func (x *Exec) noteCopy(st *State, obj *V, parts []*V) {}

// mutated applies the effect of a mutating library function.
func (x *Exec) mutated(st *State, name string, args []*V, in ssa.Instruction) {
	b := args[0]
	if b.k == KIface {
		b = b.args[0]
	}
	for b.k == KApp && (b.op == "slice" || b.op == "clip") {
		b = b.args[0]
	}
	if b.k != KSlice && b.k != KMap {
		if f := st.facts[b]; f != nil && f.Flags&flagMapOrder != 0 && (strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort")) {
			f = f.clone()
			f.Flags &^= flagMapOrder
			st.facts[b] = f
		}
		return
	}
	o := st.heap[b.args[0]]
	if o == nil {
		return
	}
	if b.k == KMap {
		o.length = nil
		for k, c := range o.cells {
			o.summary = joinShape(o.summary, x.general1(st, c))
			delete(o.cells, k)
		}
		if len(args) > 1 {
			o.summary = joinShape(o.summary, looseElem(x.shape(st, args[1]).Elem))
		}
		return
	}
	delete(o.cells, "$seq")
	for k, c := range o.cells {
		if strings.HasPrefix(k, "[") {
			o.summary = joinShape(o.summary, x.general1(st, c))
			delete(o.cells, k)
		}
	}
	if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") {
		o.mapOrder = false
	}
	ver := mkSym(x.site(st, in)+"#ver", nil)
	st.fresh(ver)
	st.heap[b.args[0]].ver = ver
}

func (x *Exec) constText(st *State, v *V) (string, bool) {
	if t, ok := x.text(st, v); ok {
		return t.strConst()
	}
	return v.strConst()
}

// newReplacer remembers the replacements of a strings.Replacer.
func (x *Exec) newReplacer(st *State, args []*V, t types.Type, in ssa.Instruction) *V {
	a := args[0]
	if a.k == KSlice {
		if o := st.heap[a.args[0]]; o != nil {
			if n, ok := o.lengthConst(); ok && o.summary == nil {
				var vs []*V
				for i := int64(0); i < n; i++ {
					c, ok := o.cells[fmt.Sprintf("[%d]", i)]
					if !ok || !c.isConst() {
						vs = nil
						break
					}
					vs = append(vs, c)
				}
				if vs != nil {
					return mkApp("replacer", t, vs...)
				}
			}
		}
	}
	s := topShape(t, 0)
	s.Nil = 2
	return x.newSym(st, in, "", t, s)
}

func (x *Exec) replace(st *State, r, t *V, in ssa.Instruction) *V {
	if r.k == KApp && r.op == "replacer" {
		var ps [][2]string
		for i := 0; i+1 < len(r.args); i += 2 {
			o, _ := r.args[i].strConst()
			n, _ := r.args[i+1].strConst()
			ps = append(ps, [2]string{o, n})
		}
		return x.replaced(st, t, ps, in)
	}
	s := topShape(types.Typ[types.String], 0)
	return x.newSym(st, in, "", types.Typ[types.String], s)
}

// entityOf are the entities each special character may be replaced by.
var entityOf = map[byte][]string{'<': {"&lt;", "&#60;", "&#x3c;"}, '>': {"&gt;", "&#62;", "&#x3e;"}, '&': {"&amp;", "&#38;", "&#x26;"},
	'"': {"&quot;", "&#34;", "&#x22;"}, '\'': {"&apos;", "&#39;", "&#x27;"}, 0: {""}}

func validEntity(c byte, s string) bool {
	for _, e := range entityOf[c] {
		if strings.EqualFold(e, s) {
			return true
		}
	}
	return false
}

// replaced is t with simultaneous replacements.
func (x *Exec) replaced(st *State, t *V, ps [][2]string, in ssa.Instruction) *V {
	var args []*V
	args = append(args, t)
	for _, p := range ps {
		args = append(args, mkStr(p[0]), mkStr(p[1]))
	}
	return mkApp("replace", types.Typ[types.String], args...)
}

// replaceRaw is the mask after replacing: a character is dealt with if it is replaced by its entity.
// Replacing '&' after other entities have been introduced would escape them twice.
func (x *Exec) replaceRaw(st *State, v *V) uint16 {
	m := x.shape(st, v.args[0]).Raw
	for i := 1; i+1 < len(v.args); i += 2 {
		o, _ := v.args[i].strConst()
		n, _ := v.args[i+1].strConst()
		if len(o) == 1 && strings.IndexByte(htmlChars, o[0]) >= 0 {
			if validEntity(o[0], n) {
				m &^= charMask(o)
				continue
			}
		}
		m |= charMask(n)
	}
	return m
}

// ---------- text buffers ----------

func (x *Exec) bufKey(st *State, p *V) (*Obj, string, bool) {
	if p.k != KPtr {
		return nil, "", false
	}
	o := st.heap[p.args[0]]
	if o == nil || o.kind == "ctx" {
		return nil, "", false
	}
	return o, p.op + ".$text", true
}

func (x *Exec) bufAppend(st *State, p *V, t *V, in ssa.Instruction) bool {
	o, k, ok := x.bufKey(st, p)
	if !ok {
		return false
	}
	old, ok := o.cells[k]
	if !ok {
		old = mkStr("")
	}
	c := mkCat(old, t)
	if len(textParts(c)) > x.h.maxParts() {
		raw := x.shape(st, c).Raw
		s := x.newSym(st, in, "#text", types.Typ[types.String], nil)
		f := st.facts[s].clone()
		f.Raw = raw
		st.facts[s] = f
		c = s
	}
	o, _, _ = x.bufKey(st, p)
	o.cells[k] = c
	return true
}

func (x *Exec) buffer(st *State, m string, args []*V, res *types.Tuple, in ssa.Instruction) ([]*State, bool) {
	p := args[0]
	o, k, ok := x.bufKey(st, p)
	if !ok {
		if x.h.OnMutate != nil && m != "Len" && m != "String" && m != "Bytes" && m != "Cap" && m != "Available" {
			x.h.OnMutate(x, st, "store", p, nil, in)
		}
		return nil, false
	}
	cur := func() *V {
		if c, ok := o.cells[k]; ok {
			return c
		}
		return mkStr("")
	}
	results := func(first *V) []*State {
		var ret []*V
		for i := 0; i < res.Len(); i++ {
			switch {
			case isErrType(res.At(i).Type()):
				ret = append(ret, mkNil(errT))
			case first != nil && i == 0:
				ret = append(ret, first)
			default:
				ret = append(ret, x.newSym(st, in, fmt.Sprintf("#%d", i), res.At(i).Type(), nil))
			}
		}
		x.result(st, in, ret)
		return one(st)
	}
	switch m {
	case "Write", "WriteString":
		t, ok := x.text(st, args[1])
		if !ok {
			t = x.frag(st, args[1], in, "#w")
		}
		if c, ok := t.strConst(); ok && x.h.OnEscape != nil {
			_ = c
		}
		x.bufAppend(st, p, t, in)
		return results(nil), true
	case "WriteByte", "WriteRune":
		x.bufAppend(st, p, x.charText(st, args[1], in), in)
		return results(nil), true
	case "String":
		return results(cur()), true
	case "Bytes":
		return results(mkApp("bytes", res.At(0).Type(), cur())), true
	case "Len":
		return results(x.simplify(st, mkLen(cur()))), true
	case "Reset":
		o.cells[k] = mkStr("")
		return results(nil), true
	case "Truncate":
		if n, ok := args[1].intConst(); ok && n == 0 {
			o.cells[k] = mkStr("")
		}
		return results(nil), true
	case "Grow":
		return results(nil), true
	}
	return nil, false
}

// charText is a one character text.
func (x *Exec) charText(st *State, c *V, in ssa.Instruction) *V {
	if n, ok := c.intConst(); ok {
		return mkConst(constant.MakeString(string(rune(n))), types.Typ[types.String])
	}
	s := x.newSym(st, in, "#char", types.Typ[types.String], nil)
	f := st.facts[s].clone()
	f.Raw = x.charRaw(st, c)
	st.facts[s] = f
	return s
}

// charRaw is the set of special characters the character c can be.
func (x *Exec) charRaw(st *State, c *V) uint16 {
	m := uint16(rawGo)
	for i := 0; i < len(htmlChars); i++ {
		e := x.simplify(st, equal(c, mkInt(int64(htmlChars[i]))))
		if b, ok := e.boolConst(); !ok || b {
			m |= 1 << i
		}
	}
	return m
}

// writeTo is a library write of text t to writer w.
func (x *Exec) writeTo(st *State, w, t *V, res *types.Tuple, in ssa.Instruction) []*State {
	if w.k == KIface && w.args[0].k == KPtr {
		if x.bufAppend(st, w.args[0], t, in) {
			var ret []*V
			for i := 0; i < res.Len(); i++ {
				if isErrType(res.At(i).Type()) {
					ret = append(ret, mkNil(errT))
				} else {
					ret = append(ret, x.newSym(st, in, fmt.Sprintf("#%d", i), res.At(i).Type(), nil))
				}
			}
			x.result(st, in, ret)
			return one(st)
		}
	}
	return x.rawWrite(st, w, mkApp("bytes", types.NewSlice(types.Typ[types.Byte]), t), res, in)
}

// sprint is the text of the fmt.Sprint family.
func (x *Exec) sprint(st *State, name string, args []*V, in ssa.Instruction) *V {
	strT := types.Typ[types.String]
	var vs []*V
	known := false
	va := args[len(args)-1]
	if va.isNilConst() {
		known = true
	} else if va.k == KSlice {
		if o := st.heap[va.args[0]]; o != nil {
			if n, ok := o.lengthConst(); ok && o.summary == nil {
				known = true
				for i := int64(0); i < n; i++ {
					c, ok := o.cells[fmt.Sprintf("[%d]", i)]
					if !ok {
						known = false
						break
					}
					vs = append(vs, c)
				}
			}
		}
	}
	unknown := func() *V {
		s := topShape(strT, 0)
		s.Raw = rawAll
		return x.newSym(st, in, "", strT, s)
	}
	part := func(v *V, verb byte) *V {
		raw := x.anyRaw(st, v, 0)
		if v.k == KIface {
			if tx, ok := x.text(st, v.args[0]); ok && (isStringType(v.typ) || isByteSlice(v.typ)) || isStringType(v.typ) {
				if !ok {
					tx = v.args[0]
				}
				switch verb {
				case 's', 'v':
					return tx
				case 'q':
					return mkApp("quote", strT, tx)
				}
			}
			if isIntType(v.typ) && (verb == 'd' || verb == 'v') {
				return mkApp("decimal", strT, v.args[0])
			}
		}
		s := x.newSym(st, in, fmt.Sprintf("#p%d", v.id), strT, nil)
		f := st.facts[s].clone()
		f.Raw = raw
		st.facts[s] = f
		return s
	}
	if !known {
		return unknown()
	}
	r := mkStr("")
	switch name {
	case "fmt.Sprintf":
		f, ok := args[0].strConst()
		if !ok {
			return unknown()
		}
		n := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				r = mkCat(r, mkStr(f[i:i+1]))
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				return unknown()
			}
			if f[i] == '%' {
				r = mkCat(r, mkStr("%"))
				continue
			}
			if n >= len(vs) {
				return unknown()
			}
			r = mkCat(r, part(vs[n], f[i]))
			n++
		}
	default:
		for _, v := range vs {
			r = mkCat(r, part(v, 'v'))
		}
		if name == "fmt.Sprintln" {
			r = mkCat(r, mkStr("\n"))
		}
	}
	return r
}

// extShape is the shape of the result of a pure library function.
func (x *Exec) extShape(st *State, v *V) *Shape {
	name := strings.TrimPrefix(v.op, "ext:")
	s := topShape(v.typ, 3)
	switch {
	case strings.HasPrefix(name, "strconv.Format"), name == "strconv.Itoa":
		s.Raw = 0
		return s
	case strings.HasPrefix(name, "strings.Index"), strings.HasPrefix(name, "strings.LastIndex"), strings.HasPrefix(name, "bytes.Index"), strings.HasPrefix(name, "slices.Index"):
		s.Lo = -1
	case strings.HasPrefix(name, "strings.Count"), strings.HasPrefix(name, "utf8.RuneCount"), name == "(reflect.Value).Len", name == "(reflect.Value).NumField":
		s.Lo = 0
	case name == "(reflect.Value).MapKeys":
		s.Flags |= flagMapOrder
	case name == "(*runtime.Func).Name": // made of what Go allows in names
		s.Raw = 0
		return s
	}
	if strings.HasPrefix(name, "(reflect.Value).Interface") || strings.HasPrefix(name, "(reflect.Value).String") {
		return s
	}
	if isStringType(v.typ) || isByteSlice(v.typ) {
		s.Raw = 0
		for _, a := range v.args {
			s.Raw |= x.anyRaw(st, a, 0)
		}
		if strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.") {
			s.Shared = false
		}
	} else if sl, ok := v.typ.Underlying().(*types.Slice); ok && s.Elem != nil && (isStringType(sl.Elem()) || isByteSlice(sl.Elem())) {
		s.Elem.Raw = 0
		for _, a := range v.args {
			s.Elem.Raw |= x.anyRaw(st, a, 0)
		}
		if strings.HasPrefix(name, "strings.") {
			s.Shared = false
		}
	}
	return s
}

// unquoted takes the quote off the beginning or the end of a quoted text.
func (x *Exec) unquoted(st *State, name string, v, q *V) *V {
	if c, ok := q.strConst(); !ok || c != `"` {
		return nil
	}
	prefix := name == "strings.TrimPrefix"
	w := v
	if v.k == KApp && v.op == "substr" {
		// the other end is off already
		w = v.args[0]
		lo, hi := v.args[1], v.args[2]
		if w.k != KApp || w.op != "quote" {
			return nil
		}
		if c, ok := lo.intConst(); prefix && (!lo.isNilConst() || !x.isEnd(st, w, hi, 1)) || !prefix && (!ok || c != 1 || !hi.isNilConst()) {
			return nil
		}
	}
	if w.k != KApp || w.op != "quote" {
		return nil
	}
	if prefix {
		return mkApp("substr", v.typ, v, mkInt(1), mkNil(nil))
	}
	return mkApp("substr", v.typ, v, mkNil(nil), addc(x.length(st, v), -1))
}
