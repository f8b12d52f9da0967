package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rendering a static tree allocates no heap memory (C22).
//
// Every Render method is followed along the paths on which nothing dynamic happens: no function of the user
// is called, no list of conditional attributes has elements, no context is made.  No instruction executed
// there may allocate on the heap: what the compiler's escape analysis reports to be on the heap, maps that
// get entries, growing slices, strings that are joined or converted, and calls of functions known to
// allocate.

type allocSpec struct {
	p    *Prog
	rep  *Report
	cond *condSpec
	says map[string][]string // by position: what the compiler says
	memo map[*ssa.Function]verdict
	also map[*ssa.Function]string // methods of contexts and recursive functions that static paths call
	dyn  bool                     // the root makes contexts
}

type verdict struct {
	level int // 0: does not allocate, 1: may, 2: does
	pos   string
	what  string
}

var escapeLine = regexp.MustCompile(`^(\S+\.go):(\d+):\d+: (.*)$`)

// escapes asks the compiler what is on the heap.
func (s *allocSpec) escapes() error {
	cmd := exec.Command("go", "build", "-gcflags=-m", "-o", os.DevNull, "./...")
	cmd.Dir = s.p.repo
	cmd.Env = os.Environ()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("the compiler does not report on %s: %v", s.p.repo, err)
	}
	s.says = map[string][]string{}
	for _, l := range strings.Split(string(out), "\n") {
		m := escapeLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		k := filepath.Clean(m[1]) + ":" + m[2]
		s.says[k] = append(s.says[k], m[3])
	}
	if len(s.says) == 0 {
		return fmt.Errorf("the compiler reports nothing")
	}
	return nil
}

// said tells whether the compiler puts on the heap what matches at a position: 0 no, 1 in some copies, 2 yes.
func (s *allocSpec) said(pos string, match func(string) bool) int {
	yes, no := false, false
	for _, m := range s.says[pos] {
		switch {
		case strings.HasPrefix(m, "moved to heap: "):
			yes = yes || match(m)
		case strings.HasSuffix(m, " escapes to heap"):
			yes = yes || match(strings.TrimSuffix(m, " escapes to heap"))
		case strings.HasSuffix(m, " does not escape"):
			no = no || match(strings.TrimSuffix(m, " does not escape"))
		}
	}
	switch {
	case yes && !no:
		return 2
	case yes:
		return 1
	}
	return 0
}

func (s *allocSpec) has(pos, text string) bool {
	for _, m := range s.says[pos] {
		if strings.Contains(m, text) {
			return true
		}
	}
	return false
}

// notHeap are external functions that do not allocate; heap are those that do.
var notHeap = map[string]bool{
	"bytes.Equal": true, "bytes.Compare": true, "bytes.Contains": true, "bytes.ContainsAny": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true,
	"bytes.Index": true, "bytes.IndexByte": true, "bytes.IndexAny": true, "bytes.TrimSpace": true, "bytes.TrimPrefix": true, "bytes.TrimSuffix": true,
	"slices.Contains": true, "slices.Index": true, "slices.IndexFunc": true, "slices.ContainsFunc": true, "slices.Clip": true, "slices.Equal": true,
}

var heapPrefixes = []string{"fmt.", "errors.New", "errors.Join", "strconv.Format", "strconv.Itoa", "strconv.Quote", "strings.Repeat", "strings.Join",
	"bytes.Clone", "bytes.Join", "bytes.Repeat", "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "strings.NewReplacer", "strings.Clone", "slices.Clone", "slices.Concat",
	"bytes.Split", "strings.Split", "bytes.Fields", "strings.Fields", "bytes.Map", "bytes.ReplaceAll", "bytes.Replace", "bytes.ToLower", "bytes.ToUpper", "maps.Clone",
	"slices.Collect", "slices.Sorted", "bufio.New", "io.MultiWriter", "io.TeeReader", "io.ReadAll", "html.EscapeString", "html/template.", "regexp.MustCompile", "regexp.Compile", "sort.Slice", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bytes.Buffer).String", "(*strings.Builder).Grow", "(*bytes.Buffer).Grow"}

func external(name string) int {
	if notHeap[name] {
		return 0
	}
	for _, p := range heapPrefixes {
		if strings.HasPrefix(name, p) {
			return 2
		}
	}
	return 1
}

// instr judges one instruction that is executed.
func (s *allocSpec) instr(in ssa.Instruction) verdict {
	pos := s.p.instrPos(in)
	v := func(level int, what string) verdict { return verdict{level, pos, what} }
	switch in := in.(type) {
	case *ssa.Alloc:
		if !in.Heap {
			return verdict{}
		}
		l := 0
		switch c := in.Comment; {
		case c == "varargs":
			l = s.said(pos, func(m string) bool { return m == "... argument" })
		case c == "complit" || c == "slicelit":
			l = s.said(pos, func(m string) bool { return strings.HasSuffix(m, "}") })
		case c == "new":
			l = s.said(pos, func(m string) bool { return strings.HasPrefix(m, "new(") })
		case c == "makeslice":
			l = s.said(pos, func(m string) bool { return strings.HasPrefix(m, "make(") })
		default:
			l = s.said(pos, func(m string) bool { return m == "moved to heap: "+c })
		}
		return v(l, "an object on the heap is made")
	case *ssa.MakeSlice:
		l := s.said(pos, func(m string) bool { return strings.HasPrefix(m, "make(") })
		if l == 0 && !isConst(in.Len) && s.p.sizeof(in.Type().Underlying().(*types.Slice).Elem()) > 0 {
			l = 2 // only small ones are kept on the stack
		}
		return v(l, "a slice on the heap is made")
	case *ssa.MakeMap:
		return v(s.said(pos, func(m string) bool { return strings.HasPrefix(m, "make(") || strings.HasPrefix(m, "map[") }), "a map on the heap is made")
	case *ssa.MakeChan:
		return v(2, "a channel is made")
	case *ssa.MapUpdate:
		return v(1, "a map gets an entry")
	case *ssa.MakeClosure:
		return v(s.said(pos, func(m string) bool { return m == "func literal" || strings.Contains(m, ".") }), "a function on the heap is made")
	case *ssa.MakeInterface:
		t := in.X.Type()
		if c, ok := in.X.(*ssa.Const); ok {
			if c.Value == nil || c.Value.Kind() != constant.Unknown {
				return verdict{}
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			return verdict{}
		case *types.Basic:
			if u.Kind() == types.UnsafePointer || u.Kind() == types.Bool || u.Kind() == types.Uint8 || u.Kind() == types.Int8 {
				return verdict{}
			}
		}
		if s.p.sizeof(t) == 0 {
			return verdict{}
		}
		return v(s.said(pos, func(m string) bool {
			return m != "... argument" && m != "func literal" && !strings.HasPrefix(m, "make(") && !strings.HasPrefix(m, "&") && !strings.HasPrefix(m, "moved to heap")
		}), "a value is put on the heap to be passed as an interface")
	case *ssa.Convert:
		from, to := in.X.Type(), in.Type()
		if !(isStringType(from) && isBytes(to) || isBytes(from) && isStringType(to)) || isConst(in.X) && isStringType(to) {
			return verdict{}
		}
		if s.has(pos, "zero-copy") || isStringType(to) && comparedOnly(in) {
			return verdict{}
		}
		pre := "string("
		if isBytes(to) {
			pre = "([]byte)("
		}
		l := s.said(pos, func(m string) bool { return strings.HasPrefix(m, pre) })
		if l == 0 {
			l = 1
		}
		return v(l, "a text is copied")
	case *ssa.BinOp:
		if in.Op != token.ADD || !isStringType(in.Type()) {
			return verdict{}
		}
		return v(2, "texts are joined") // only short ones are kept on the stack
	case *ssa.Go:
		return v(2, "a goroutine is started")
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if c, ok := in.Call.Args[1].(*ssa.Const); ok && c.Value == nil {
				return verdict{}
			}
			if startsEmpty(in.Call.Args[0], map[ssa.Value]bool{}) {
				return v(2, "a slice grows")
			}
			return v(1, "a slice may grow")
		}
	}
	return verdict{}
}

// startsEmpty tells whether a slice has no room but what appends have made.
func startsEmpty(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !startsEmpty(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		return startsEmpty(v.X, seen)
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append" && startsEmpty(v.Call.Args[0], seen)
	}
	return false
}

func isConst(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// comparedOnly: the compiler does not copy a text that is only compared, joined or looked up.
func comparedOnly(in *ssa.Convert) bool {
	for _, r := range *in.Referrers() {
		switch r := r.(type) {
		case *ssa.BinOp:
		case *ssa.Lookup:
			if r.X == in {
				return false
			}
		case *ssa.DebugRef, *ssa.Range:
		default:
			return false
		}
	}
	return true
}

func (p *Prog) sizeof(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

// scan judges a function that is called but not followed.
func (s *allocSpec) scan(fn *ssa.Function) verdict {
	if v, ok := s.memo[fn]; ok {
		return v
	}
	s.memo[fn] = verdict{}
	if !s.p.inRepo(fn) || len(fn.Blocks) == 0 {
		v := verdict{external(extName(fn)), s.p.pos(fn.Pos()), extName(fn) + " allocates"}
		s.memo[fn] = v
		return v
	}
	var worst verdict
	add := func(v verdict) {
		if v.level > worst.level {
			worst = v
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			add(s.instr(in))
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := c.Common().StaticCallee(); g != nil {
				v := s.scan(g)
				if !s.p.inRepo(g) {
					v.pos = s.p.instrPos(in)
				}
				add(v)
			}
		}
	}
	s.memo[fn] = worst
	return worst
}

func allocChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeOK, false); err != nil {
		return err
	}
	s := &allocSpec{p: p, rep: rep, memo: map[*ssa.Function]verdict{}, also: map[*ssa.Function]string{}}
	s.cond = newWhole(p, newReport(rep.prop)).cond
	if err := s.escapes(); err != nil {
		rep.undecided("escape analysis", "", err.Error())
		return nil
	}
	for _, r := range a.allRoots() {
		if r.kind != "render" {
			continue
		}
		if err := s.root(a, r, "rendering of "+strings.TrimPrefix(typeName(deref(recvType(r.fn))), "github.com/go-andiamo/")); err != nil {
			return err
		}
	}
	done := map[*ssa.Function]bool{}
	for {
		var l []*ssa.Function
		for fn := range s.also {
			if !done[fn] {
				done[fn] = true
				l = append(l, fn)
			}
		}
		if len(l) == 0 {
			return nil
		}
		sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
		for _, fn := range l {
			if err := s.root(a, Root{fn, s.also[fn]}, fn.String()); err != nil {
				return err
			}
		}
	}
}

func (s *allocSpec) root(a *Analysis, r Root, key string) error {
	sub := newReport(s.rep.prop)
	s.dyn = false
	h := &Hooks{Mode: ModeOK}
	dynamic := func(st *State) {
		st.mon["n:dyn"] = mkBool(true)
		delete(st.mon, "n:alloc")
		delete(st.mon, "n:maybe")
	}
	note := func(st *State, v verdict) {
		k := "n:alloc"
		switch {
		case v.level == 0 || st.mon["n:dyn"] != nil:
			return
		case v.level == 1:
			k = "n:maybe"
		}
		if st.mon[k] == nil {
			st.mon[k] = mkStr(v.pos + "|" + v.what)
		}
	}
	h.OnDyn = func(x *Exec, st *State, fn *V, sig *types.Signature, args []*V, in ssa.Instruction) { dynamic(st) }
	h.OnElem = func(x *Exec, st *State, list, idx, val *V, in ssa.Instruction) {
		if n, c := s.cond.guarded(deref(listElem(orInvalid(list.typ)))); n >= 0 || c >= 0 {
			dynamic(st)
		}
	}
	h.OnBranch = func(x *Exec, st *State, c *V, taken bool, in ssa.Instruction) {
		var walk func(v *V)
		walk = func(v *V) {
			if v.k == KApp && v.op == "len" && len(v.args) == 1 {
				if n, g := s.cond.guarded(deref(listElem(orInvalid(v.args[0].typ)))); n >= 0 || g >= 0 {
					if b, ok := x.simplify(st, less(mkInt(0), v)).boolConst(); ok && b {
						dynamic(st)
					}
				}
				return
			}
			for _, a := range v.args {
				walk(a)
			}
		}
		walk(c)
	}
	h.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if al, ok := in.(*ssa.Alloc); ok && s.p.isCtxPtr(al.Type()) {
			s.dyn = true
		}
		if v := s.instr(in); v.level > 0 {
			note(st, v)
		}
	}
	h.OnExt = func(x *Exec, st *State, name string, args []*V, in ssa.Instruction) {
		if strings.HasPrefix(name, "invoke:") {
			return
		}
		note(st, verdict{external(name), s.p.instrPos(in), name + " is called, which allocates"})
	}
	h.OnInvoke = func(x *Exec, st *State, recv *V, m *types.Func, args []*V, in ssa.Instruction) {
		if m.Name() == "Render" || st.mon["n:dyn"] != nil {
			return
		}
		for _, t := range s.p.namedTypes() {
			for _, rt := range []types.Type{t, types.NewPointer(t)} {
				if !types.Implements(rt, s.p.node) {
					continue
				}
				if sh := x.shape(st, recv); sh.Dyn != nil && !types.Identical(sh.Dyn, rt) || hasType(sh.NotDyn, rt) {
					continue
				}
				if fn := s.p.methodOf(rt, m.Name()); fn != nil {
					if v := s.scan(fn); v.level > 0 {
						v.what = fmt.Sprintf("%s is called, which allocates (%s at %s)", fn, v.what, v.pos)
						v.pos = s.p.instrPos(in)
						note(st, v)
					}
				}
			}
		}
	}
	h.OnCall = func(x *Exec, st *State, fn *ssa.Function, args []*V, in ssa.Instruction) (bool, []Exit) {
		if !s.p.inRepo(fn) || len(fn.Blocks) == 0 || st.mon["n:dyn"] != nil {
			return false, nil
		}
		switch {
		case s.p.isCtxPtr(recvType(fn)):
			s.also[fn] = "ctxmethod"
		case x.depthOf(fn) > 0:
			s.also[fn] = "rec"
		case x.modular(fn) || x.pureLoop(fn):
			if v := s.scan(fn); v.level > 0 {
				v.what = fmt.Sprintf("%s is called, which allocates (%s at %s)", fn, v.what, v.pos)
				v.pos = s.p.instrPos(in)
				note(st, v)
			}
		}
		return false, nil
	}
	c := &Check{h: h, zeroOK: func(Root) bool { return true }}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic || e.st.mon["n:dyn"] != nil {
			return
		}
		pos := s.p.pos(r.fn.Pos())
		if v := e.st.mon["n:alloc"]; v != nil {
			t, _ := v.strConst()
			at, what, _ := strings.Cut(t, "|")
			sub.check(false, key, at, x.root, what+" although nothing dynamic is rendered")
			return
		}
		if v := e.st.mon["n:maybe"]; v != nil {
			t, _ := v.strConst()
			at, what, _ := strings.Cut(t, "|")
			sub.undecided(x.root, at, "whether memory is allocated is not known: "+what)
			return
		}
		sub.check(true, key, pos, x.root, "")
	}
	err := a.runRoot(r, c, sub)
	s.rep.states += sub.states
	s.rep.roots = append(s.rep.roots, sub.roots...)
	if err != nil && !tooLate() {
		s.rep.undecided(r.fn.String(), s.p.pos(r.fn.Pos()), err.Error())
		err = nil
	}
	if s.dyn {
		return err // what makes contexts is not static
	}
	for k, ob := range sub.obl {
		s.rep.obl[k] = ob
	}
	for k, u := range sub.und {
		s.rep.und[k] = u
	}
	return err
}
