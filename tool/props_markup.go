package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Markup (C07, C08).  Everything that is written by a Render method, or by what imperative code calls, is
// followed by a scanner of markup: where the output is (in content, in a start tag, in the value of an
// attribute, in a comment...) and which elements were opened and not closed.  A node is rendered in the
// place its kind belongs to: attributes in start tags, everything else in content.

type markupSpec struct {
	p    *Prog
	prop string
	rep  *Report
	open map[string]string // types that leave their element open, and the field that holds its name
}

const (
	moContent = "content"
	moLt      = "<"
	moBang    = "<!"
	moBang1   = "<!-"
	moComment = "comment"
	moCom1    = "comment-"
	moCom2    = "comment--"
	moPI      = "declaration"
	moName    = "tag name"
	moTag     = "start tag"
	moAttSp   = "start tag before a name"
	moAttName = "attribute name"
	moAttEq   = "attribute after ="
	moVal     = "attribute value"
	moSlash   = "start tag after /"
	moEnd     = "</"
	moEndName = "end tag"
)

func markupChecks(p *Prog, rep *Report, prop string) error {
	d := &markupSpec{p: p, prop: prop, rep: rep, open: map[string]string{}}
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	if err := d.renders(a); err != nil {
		return err
	}
	return d.imperative(a)
}

func (d *markupSpec) check(prop string, ok bool, key, pos, root, msg string) {
	if prop == d.prop {
		d.rep.check(ok, key, pos, root, msg)
	}
}

func (d *markupSpec) undecided(prop, root, pos, msg string) {
	if prop == d.prop {
		d.rep.undecided(root, pos, msg)
	}
}

func moState(st *State) string {
	if m := st.mon["o:at"]; m != nil {
		s, _ := m.strConst()
		return s
	}
	return moContent
}

func moSet(st *State, s string) { st.mon["o:at"] = mkStr(s) }

func moOpen(st *State) []*V {
	if m := st.mon["o:open"]; m != nil {
		return m.args
	}
	return nil
}

func moPush(st *State, n *V) {
	st.mon["o:open"] = mk(V{k: KTuple, op: "open", args: append(append([]*V{}, moOpen(st)...), n)})
}

func inTag(s string) bool { return s == moName || s == moTag || s == moAttName || s == moAttSp }

// feed moves on over one part of what is written; the result tells what is wrong with it.
func (d *markupSpec) feed(x *Exec, st *State, part *V) string {
	s, lit := part.strConst()
	if !lit {
		return d.feedVar(x, st, part)
	}
	for i := 0; i < len(s); i++ {
		if msg := d.feedChar(x, st, s[i]); msg != "" {
			return msg
		}
	}
	return ""
}

func (d *markupSpec) feedVar(x *Exec, st *State, v *V) string {
	switch at := moState(st); at {
	case moContent:
		if len(moOpen(st)) > 0 {
			st.mon["o:inner"] = mkBool(true)
		}
	case moVal, moComment, moPI:
	case moCom1, moCom2:
		moSet(st, moComment)
	case moBang:
		moSet(st, moPI)
	case moLt:
		moPush(st, v)
		moSet(st, moName)
	case moName:
		o := moOpen(st)
		if len(o) > 0 {
			n := append([]*V{}, o[:len(o)-1]...)
			st.mon["o:open"] = mk(V{k: KTuple, op: "open", args: append(n, mkCat(o[len(o)-1], v))})
		}
	case moAttSp:
		moSet(st, moAttName)
	case moAttName:
	case moEnd:
		st.mon["o:end"] = v
		moSet(st, moEndName)
	case moEndName:
		st.mon["o:end"] = mkCat(st.mon["o:end"], v)
	default:
		return fmt.Sprintf("%s is written in a %s", v, at)
	}
	return ""
}

func (d *markupSpec) feedChar(x *Exec, st *State, c byte) string {
	at := moState(st)
	letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == ':' || c == '_' || c == '.'
	bad := func() string { return fmt.Sprintf("%q is written in %s", string(c), at) }
	next := at
	switch at {
	case moContent:
		switch {
		case c == '<':
			next = moLt
		case c == '>', c == '"', c == ' ':
			return bad()
		}
	case moLt:
		switch {
		case c == '/':
			next = moEnd
		case c == '!':
			next = moBang
		case letter:
			moPush(st, mkStr(string(c)))
			next = moName
		default:
			return bad()
		}
	case moBang:
		switch {
		case c == '-':
			next = moBang1
		case c == '>':
			return bad()
		default:
			next = moPI
		}
	case moBang1:
		if c != '-' {
			return bad()
		}
		next = moComment
	case moComment:
		if c == '-' {
			next = moCom1
		}
	case moCom1:
		next = moComment
		if c == '-' {
			next = moCom2
		}
	case moCom2:
		switch c {
		case '>':
			next = moContent
		case '-':
		default:
			next = moComment
		}
	case moPI:
		if c == '>' {
			next = moContent
		}
	case moName, moTag, moAttSp, moAttName:
		switch {
		case c == '>':
			next = moContent
		case c == '/':
			next = moSlash
		case c == ' ' || c == '\n':
			next = moAttSp
		case c == '=' && at == moAttName:
			next = moAttEq
		case letter && at == moAttSp:
			next = moAttName
		case letter && at == moAttName:
		case letter && at == moName:
			return d.feedVar(x, st, mkStr(string(c)))
		default:
			return bad()
		}
	case moAttEq:
		if c != '"' {
			return bad()
		}
		next = moVal
	case moVal:
		if c == '"' {
			next = moTag
		}
	case moSlash:
		if c != '>' {
			return bad()
		}
		next = moContent
	case moEnd, moEndName:
		switch {
		case c == '>' && at == moEndName:
			moSet(st, moContent)
			n := st.mon["o:end"]
			delete(st.mon, "o:end")
			return d.closed(x, st, n)
		case letter:
			return d.feedVar(x, st, mkStr(string(c)))
		default:
			return bad()
		}
	}
	moSet(st, next)
	return ""
}

// closed takes in an end tag.
func (d *markupSpec) closed(x *Exec, st *State, n *V) string {
	o := moOpen(st)
	if len(o) > 0 {
		if o[len(o)-1] != n {
			return fmt.Sprintf("the end tag of %s is written inside %s", n, o[len(o)-1])
		}
		st.mon["o:open"] = mk(V{k: KTuple, op: "open", args: append([]*V{}, o[:len(o)-1]...)})
		if len(o) == 1 {
			delete(st.mon, "o:inner")
		}
		return ""
	}
	if stack := st.mon["o:stack"]; stack != nil {
		list, idx := element(n)
		base, off := resliceOf(list)
		if n.k == KSym && !strings.HasPrefix(n.op, "$p:") {
			return "?which element is ended is not known"
		}
		if base != stack || idx == nil {
			return fmt.Sprintf("an end tag of %s is written, which is not the name of an element that was started", n)
		}
		if off != nil {
			return fmt.Sprintf("an end tag of %s is written", n)
		}
		top := st.mon["i:top"]
		same, known := x.simplify(st, equal(idx, top)).boolConst()
		if idx != top && !known {
			ib, _ := splitOff(idx)
			tb, _ := splitOff(top)
			if ib != tb && (counted(idx) || counted(top)) {
				return "?which element is ended is not known"
			}
		}
		if idx != top && !(known && same) {
			return fmt.Sprintf("the end tag of %s is written where that of element %s of the stack belongs", n, top)
		}
		st.mon["i:top"] = addc(top, -1)
		return ""
	}
	return fmt.Sprintf("an end tag of %s is written but no such element is open", n)
}

// resliceOf is the list that l is the beginning of.
func resliceOf(l *V) (base, lo *V) {
	for l != nil && l.k == KApp && l.op == "slice" {
		if !l.args[1].isNilConst() && !isInt(l.args[1], 0) {
			return l, l.args[1]
		}
		l = l.args[0]
	}
	return l, nil
}

func (d *markupSpec) hooks() *Hooks {
	h := &Hooks{Mode: ModeOK}
	h.OnRaw = func(x *Exec, st *State, w, data *V, in ssa.Instruction) {
		if x.rootKind == "func" || st.failed() || x.ownWriter(st, w) {
			return
		}
		t, ok := x.text(st, data)
		if !ok {
			t = data
		}
		pos := x.p.instrPos(in)
		key := "markup written at " + pos + " in " + x.root
		if st.mon["o:bad"] != nil {
			return
		}
		for _, part := range textParts(t) {
			if msg := d.feed(x, st, part); msg != "" {
				st.mon["o:bad"] = mkBool(true)
				if strings.HasPrefix(msg, "?") {
					d.undecided("C07", x.root, pos, msg[1:])
					return
				}
				d.check("C07", false, key, pos, x.root, msg)
				return
			}
		}
		d.check("C07", true, key, pos, x.root, "")
	}
	h.OnChild = func(x *Exec, st *State, node, ctx *V, in ssa.Instruction) {
		if x.rootKind == "func" || st.failed() || st.mon["o:bad"] != nil {
			return
		}
		if ctx.k == KPtr {
			if o := st.heap[ctx.args[0]]; o != nil && o.cells[".Writer"] != nil && x.ownWriter(st, o.cells[".Writer"]) {
				return
			}
		}
		pos := x.p.instrPos(in)
		key := "node rendered at " + pos + " in " + x.root
		at := moState(st)
		sh := x.shape(st, node)
		kind := sh.Kind
		if node.k == KIface {
			kind = x.p.kindOf(node.typ)
		}
		switch {
		case inTag(at):
			d.check("C08", kind == 1, key, pos, x.root, "a node that may not be an attribute is rendered in a start tag")
			if at == moAttSp {
				d.check("C07", false, key, pos, x.root, "an attribute is rendered after a space that is not followed by a name")
			}
			moSet(st, moTag)
		case at == moContent:
			d.check("C08", kind == 2, key, pos, x.root, "a node that may be an attribute is rendered in content")
			if len(moOpen(st)) > 0 {
				st.mon["o:inner"] = mkBool(true)
			}
			d.opens(x, st, node)
		default:
			d.check("C08", false, key, pos, x.root, "a node is rendered in "+at)
			d.check("C07", false, key, pos, x.root, "a node is rendered in "+at)
			st.mon["o:bad"] = mkBool(true)
		}
	}
	return h
}

// ownWriter: w was made by the code that is analysed.
func (x *Exec) ownWriter(st *State, w *V) bool {
	w = bare(w)
	if w.k != KPtr {
		return false
	}
	o := st.heap[w.args[0]]
	return o != nil && o.kind != "own" && o.kind != "ctx"
}

// opens takes in a node of a type that leaves its element open, rendered by imperative code.
func (d *markupSpec) opens(x *Exec, st *State, node *V) {
	if st.mon["o:stack"] == nil || node.k != KIface || node.args[0].k != KPtr {
		return
	}
	f, ok := d.open[typeKey(node.typ)]
	if !ok {
		return
	}
	o := st.heap[node.args[0].args[0]]
	if o == nil {
		return
	}
	n := o.cells["."+f]
	if n == nil {
		n = mkSym("?", nil)
	}
	moPush(st, n)
}

func (d *markupSpec) renders(a *Analysis) error {
	type outcome struct {
		open int
		pos  string
	}
	outs := map[*ssa.Function]map[int]bool{}
	h := d.hooks()
	c := &Check{h: h}
	c.filter = func(r Root) bool { return r.kind == "render" || r.kind == "closure" }
	c.begin = func(x *Exec, r Root, st *State, args []*V) {
		if d.kindOfRoot(r) == 1 {
			moSet(st, moTag)
		}
	}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic || e.st.failed() || e.st.mon["o:bad"] != nil {
			return
		}
		pos := x.p.pos(r.fn.Pos())
		at := moState(e.st)
		key := "end of " + r.fn.String()
		if d.kindOfRoot(r) == 1 {
			d.check("C07", inTag(at) && at != moAttSp, key, pos, x.root, "an attribute ends in "+at)
			d.check("C07", len(moOpen(e.st)) == 0, key, pos, x.root, "an attribute opens an element")
			return
		}
		d.check("C07", at == moContent, key, pos, x.root, "it ends in "+at)
		o := moOpen(e.st)
		if len(o) > 0 {
			d.check("C07", len(o) == 1 && e.st.mon["o:inner"] == nil, key, pos, x.root, fmt.Sprintf("the end tag of %s is missing on a path that writes its content", o[0]))
		}
		if outs[r.fn] == nil {
			outs[r.fn] = map[int]bool{}
		}
		outs[r.fn][len(o)] = true
		d.check("C07", len(outs[r.fn]) == 1 || r.kind != "render", key, pos, x.root, "an element is closed on some paths only")
		if len(o) == 1 {
			if t, f, _ := part(o[0]); t != "" && r.kind == "render" {
				d.open[typeKey(r.fn.Signature.Recv().Type())] = f
			}
		}
	}
	return a.run(c, d.rep)
}

// kindOfRoot: what r renders, an attribute or something else.
func (d *markupSpec) kindOfRoot(r Root) uint8 {
	if r.kind == "closure" {
		// called by html/template where its result type belongs
		if rs := r.fn.Signature.Results(); rs.Len() > 0 && strings.HasSuffix(rs.At(0).Type().String(), "html/template.HTMLAttr") {
			return 1
		}
		return 2
	}
	if rv := r.fn.Signature.Recv(); rv != nil {
		return d.p.kindOf(rv.Type())
	}
	return 2
}

// stackField is where an imperative context keeps the elements that were started.
func (d *markupSpec) stackField(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	f := ""
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && (isByteSlice(sl.Elem()) || isStringType(sl.Elem())) {
			if f != "" {
				return ""
			}
			f = s.Field(i).Name()
		}
	}
	return f
}

func (d *markupSpec) imperative(a *Analysis) error {
	h := d.hooks()
	h.Seq, h.Peel = true, 4
	h.SeqType = func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && (isByteSlice(sl.Elem()) || isStringType(sl.Elem()))
	}
	own := func(st *State, recv *V) *Obj {
		if recv.k != KPtr {
			return nil
		}
		return st.heap[recv.args[0]]
	}
	var recv *V
	c := &Check{h: h}
	c.filter = func(r Root) bool { return r.kind == "impctx" }
	c.begin = func(x *Exec, r Root, st *State, args []*V) {
		recv = args[0]
		f := d.stackField(r.fn.Params[0].Type())
		if o := own(st, recv); o != nil && f != "" {
			st.mon["o:stack"] = o.cells["."+f]
			st.mon["i:top"] = addc(x.length(st, o.cells["."+f]), -1)
			st.mon["o:stack0"] = o.cells["."+f]
		}
	}
	c.exit = func(x *Exec, r Root, e Exit) {
		st := e.st
		if e.panic || st.failed() || st.mon["o:bad"] != nil {
			return
		}
		pos := x.p.pos(r.fn.Pos())
		at := moState(st)
		key := "end of " + r.fn.String()
		d.check("C07", at == moContent, key, pos, x.root, "it ends in "+at)
		f := d.stackField(r.fn.Params[0].Type())
		o := own(st, recv)
		if o == nil || f == "" || st.mon["o:stack0"] == nil {
			d.undecided("C07", x.root, pos, "where the started elements are kept is not known")
			return
		}
		old, now := st.mon["o:stack0"], o.cells["."+f]
		key = "stack after " + r.fn.String()
		top := st.mon["i:top"]
		opened := moOpen(st)
		if now == nil {
			d.undecided("C07", x.root, pos, "the started elements are not known")
			return
		}
		if len(opened) > 0 {
			var flag *V
			for i, prm := range r.fn.Params {
				if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					flag = x.simplify(st, mkSym(fmt.Sprintf("$p:%s#%d", r.fn, i), prm.Type()))
				}
			}
			if flag == nil {
				d.undecided("C07", x.root, pos, "whether the element is void is not known")
				return
			}
			void, known := flag.boolConst()
			if !known {
				d.check("C07", false, key, pos, x.root, "an element is started without looking whether it is void")
				return
			}
			if void {
				d.check("C07", now == old, key, pos, x.root, "an element that is void will be ended")
				return
			}
			s := x.seqOf(st, now)
			if s == nil {
				d.undecided("C07", x.root, pos, "the started elements are not known")
				return
			}
			ok := len(s.args) == 2 && s.args[0].op == "spread" && s.args[0].args[0] == old && s.args[1].op == "e"
			got := ""
			if ok {
				got = s.args[1].args[0].String()
				ok = sameText(s.args[1].args[0], opened[0]) && len(opened) == 1
			}
			d.check("C07", ok, key, pos, x.root, fmt.Sprintf("the element %s is started but %s is what will be ended", opened, got))
			return
		}
		ln := x.simplify(st, x.length(st, now))
		want := addc(top, 1)
		same, known := x.simplify(st, equal(ln, want)).boolConst()
		ok := ln == want || known && same
		if !ok {
			// nothing is left
			if n, isC := ln.intConst(); isC && n == 0 {
				more, known := x.simplify(st, less(mkInt(-1), top)).boolConst()
				ok = known && !more
			}
		}
		if !ok && (st.mon["$general"] != nil || rangesOverFunc(r.fn) || strings.Contains(want.String(), "#drift") || strings.Contains(ln.String(), "#drift")) {
			d.undecided("C07", x.root, pos, "how many elements are ended is not known")
			return
		}
		d.check("C07", ok, key, pos, x.root, fmt.Sprintf("%s elements are still to be ended but the stack holds %s", want, ln))
		if base, lo := resliceOf(now); base != old && !now.isNilConst() {
			if n, isC := ln.intConst(); !(isC && n == 0) {
				d.check("C07", false, key, pos, x.root, "the stack is replaced by another")
			}
		} else if lo != nil {
			d.check("C07", false, key, pos, x.root, "the stack loses the elements that were started first")
		}
	}
	return a.run(c, d.rep)
}

// counted: v depends on what a loop counts.
func counted(v *V) bool {
	for _, l := range v.leaves {
		if l.k == KSym && !strings.HasPrefix(l.op, "$") {
			return true
		}
	}
	return false
}

// rangesOverFunc: fn ranges over a function.
func rangesOverFunc(fn *ssa.Function) bool {
	for _, a := range fn.AnonFuncs {
		if strings.Contains(a.Synthetic, "range-over-func") {
			return true
		}
	}
	return false
}

func sameText(a, b *V) bool {
	strip := func(v *V) *V {
		for v.k == KApp && (v.op == "bytes" || v.op == "string" || strings.HasPrefix(v.op, "conv")) && len(v.args) == 1 {
			v = v.args[0]
		}
		return v
	}
	return strip(a) == strip(b)
}
