package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program.
type Prog struct {
	rpos       map[*ssa.Function][]int
	renderMemo map[*ssa.Function]bool
	pureMemo   map[*ssa.Function]bool
	leafMemo   map[*ssa.Function]bool
	genOnly    map[*ssa.Function]bool

	repo    string
	mod     string
	fset    *token.FileSet
	pkgs    []*packages.Package
	ssaProg *ssa.Program
	byPath  map[string]*ssa.Package
	pkgInfo map[string]*packages.Package

	node, values, stringer *types.Interface
	nodeT                  types.Type
	ctxT                   *types.Named
	nodeTypeT              types.Type
	attrConst              int64
	impIface               *types.Interface

	globals  map[*ssa.Global]*V // known initial values
	gmaps    map[*ssa.Global]*GMap
	glists   map[*ssa.Global][]string    // lists of names that never change
	gstored  map[*ssa.Global][]token.Pos // stores outside init
	kinds    map[string]uint8
	live     map[*ssa.Function]*liveness
	recFns   map[*ssa.Function]bool
	allFuncs []*ssa.Function
}

// GMap is a package level map literal with constant keys.
type GMap struct {
	keys  []string
	vals  map[string]*V
	fns   map[string]*ssa.Function
	known bool
}

func moduleOf(repo string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module ")), nil
		}
	}
	return "", fmt.Errorf("no module line in go.mod")
}

func load(repo string) (*Prog, error) {
	p := &Prog{repo: repo, rpos: map[*ssa.Function][]int{}, renderMemo: map[*ssa.Function]bool{}, pureMemo: map[*ssa.Function]bool{}, leafMemo: map[*ssa.Function]bool{}, fset: token.NewFileSet(), byPath: map[string]*ssa.Package{}, pkgInfo: map[string]*packages.Package{},
		globals: map[*ssa.Global]*V{}, gmaps: map[*ssa.Global]*GMap{}, glists: map[*ssa.Global][]string{}, gstored: map[*ssa.Global][]token.Pos{}, kinds: map[string]uint8{},
		live: map[*ssa.Function]*liveness{}, recFns: map[*ssa.Function]bool{}}
	var err error
	if p.mod, err = moduleOf(repo); err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir: repo, Fset: p.fset, Tests: false,
	}
	all, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, pk := range all {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
	}
	p.pkgs = all
	prog, spkgs := ssautil.Packages(all, ssa.InstantiateGenerics)
	prog.Build()
	p.ssaProg = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for package %s", all[i].PkgPath)
		}
		p.byPath[all[i].PkgPath] = sp
		p.pkgInfo[all[i].PkgPath] = all[i]
	}
	root := p.byPath[p.mod]
	cpk := p.byPath[p.mod+"/context"]
	if root == nil || cpk == nil {
		return nil, fmt.Errorf("package %s or %s/context not found", p.mod, p.mod)
	}
	iface := func(sp *ssa.Package, name string) *types.Interface {
		if t := sp.Type(name); t != nil {
			i, _ := t.Type().Underlying().(*types.Interface)
			return i
		}
		return nil
	}
	p.node = iface(root, "Node")
	p.impIface = iface(root, "ImperativeContext")
	if t := cpk.Type("Context"); t != nil {
		p.ctxT, _ = t.Type().(*types.Named)
	}
	if t := root.Type("NodeType"); t != nil {
		p.nodeTypeT = t.Type()
	}
	if p.node == nil || p.ctxT == nil || p.nodeTypeT == nil || p.impIface == nil {
		return nil, fmt.Errorf("anchors Node, Context, NodeType or ImperativeContext not found")
	}
	p.nodeT = root.Type("Node").Type()
	if c := root.Const("AttributeNode"); c != nil {
		p.attrConst, _ = constant.Int64Val(c.Value.Value)
	} else {
		return nil, fmt.Errorf("constant AttributeNode not found")
	}
	p.collectFuncs()
	p.initGlobals()
	return p, nil
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), p.mod)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), p.mod)
	}
	return false
}

func (p *Prog) collectFuncs() {
	for fn := range ssautil.AllFunctions(p.ssaProg) {
		if p.inRepo(fn) && len(fn.Blocks) > 0 {
			p.allFuncs = append(p.allFuncs, fn)
		}
	}
	sort.Slice(p.allFuncs, func(i, j int) bool {
		if a, b := p.allFuncs[i].String(), p.allFuncs[j].String(); a != b {
			return a < b
		}
		return p.allFuncs[i].Pos() < p.allFuncs[j].Pos()
	})
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	if r, err := filepath.Rel(p.repo, q.Filename); err == nil {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return q.String()
}

// instrPos finds a position for an instruction (falling back to its neighbours).
func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if r.Pos().IsValid() {
				return p.pos(r.Pos())
			}
		}
	}
	b := in.Block()
	if b != nil {
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				return p.pos(o.Pos())
			}
		}
	}
	if in.Parent() != nil {
		return p.pos(in.Parent().Pos())
	}
	return "?"
}

// initGlobals evaluates the initial values of package level variables from the package initialisers.
func (p *Prog) initGlobals() {
	for _, sp := range p.byPath {
		init := sp.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.Name() != "init$guard" {
						if mm, ok := s.Val.(*ssa.MakeMap); ok {
							p.gmaps[g] = p.evalMap(mm)
							continue
						}
						if b, ok := s.Val.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && g.Object() != nil && g.Object().Exported() {
							continue // a setting
						}
						if v := p.evalInit(s.Val); v != nil {
							p.globals[g] = v
						} else if l := evalList(s.Val); l != nil {
							p.glists[g] = l
						}
					}
				}
			}
		}
	}
	for _, fn := range p.allFuncs {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch s := in.(type) {
				case *ssa.Store:
					if g, ok := s.Addr.(*ssa.Global); ok {
						p.gstored[g] = append(p.gstored[g], in.Pos())
					}
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
						delete(p.glists, loadedGlobal(ia.X))
					}
				case *ssa.MapUpdate:
					delete(p.gmaps, loadedGlobal(s.Map))
				case *ssa.Call:
					if b, ok := s.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy") {
						delete(p.gmaps, loadedGlobal(s.Call.Args[0]))
						delete(p.glists, loadedGlobal(s.Call.Args[0]))
					} else if f := s.Call.StaticCallee(); f != nil && mutators[extName(f)] {
						for _, a := range s.Call.Args {
							delete(p.gmaps, loadedGlobal(a))
							delete(p.glists, loadedGlobal(a))
						}
					}
				}
			}
		}
	}
	for g := range p.gstored {
		delete(p.globals, g)
		delete(p.gmaps, g)
		delete(p.glists, g)
	}
}

// loadedGlobal is the variable of the package whose value v is, if any.
func loadedGlobal(v ssa.Value) *ssa.Global {
	for {
		switch t := v.(type) {
		case *ssa.Slice:
			v = t.X
			continue
		case *ssa.UnOp:
			if g, ok := t.X.(*ssa.Global); ok && t.Op == token.MUL {
				return g
			}
		}
		return nil
	}
}

// evalList reads a literal list of texts.
func evalList(v ssa.Value) []string {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
		return nil
	}
	st, ok := sl.Type().Underlying().(*types.Slice)
	if !ok || !isStringType(st.Elem()) {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() == 0 {
		return nil
	}
	r := make([]string, at.Len())
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.IndexAddr:
			i, ok := u.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, w := range *u.Referrers() {
				s, ok := w.(*ssa.Store)
				if !ok {
					return nil
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.String {
					return nil
				}
				r[i.Int64()] = constant.StringVal(c.Value)
			}
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return r
}

func (p *Prog) evalMap(mm *ssa.MakeMap) *GMap {
	g := &GMap{vals: map[string]*V{}, fns: map[string]*ssa.Function{}, known: true}
	for _, r := range *mm.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map != mm {
				g.known = false
				continue
			}
			k, ok := r.Key.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				g.known = false
				continue
			}
			ks := constant.StringVal(k.Value)
			g.keys = append(g.keys, ks)
			g.vals[ks] = p.evalInit(r.Value)
			val := r.Value
			if mi, ok := val.(*ssa.MakeInterface); ok {
				val = mi.X
			}
			if f, ok := val.(*ssa.Function); ok {
				g.fns[ks] = f
			}
		case *ssa.Store, *ssa.Return, *ssa.Phi, *ssa.DebugRef:
		default:
			g.known = false
		}
	}
	return g
}

func (p *Prog) evalInit(v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return mkNil(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Convert:
		x := p.evalInit(v.X)
		if x == nil {
			return nil
		}
		if _, ok := x.strConst(); ok && isByteSlice(v.Type()) {
			return mkApp("gbytes", v.Type(), x)
		}
		if isStringType(v.Type()) && x.k == KApp && x.op == "gbytes" {
			return x.args[0]
		}
	case *ssa.MakeInterface:
		if x := p.evalInit(v.X); x != nil {
			return mk(V{k: KIface, typ: v.X.Type(), args: []*V{x}})
		}
	case *ssa.BinOp:
		x, y := p.evalInit(v.X), p.evalInit(v.Y)
		if x != nil && y != nil && v.Op == token.ADD {
			if a, ok := x.strConst(); ok {
				if b, ok := y.strConst(); ok {
					return mkStr(a + b)
				}
			}
		}
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil || v.Max != nil || !isByteSlice(v.Type()) {
			return nil
		}
		at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		buf := make([]byte, at.Len())
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				ic, ok := ia.Index.(*ssa.Const)
				if !ok {
					return nil
				}
				for _, r2 := range *ia.Referrers() {
					s, ok := r2.(*ssa.Store)
					if !ok {
						return nil
					}
					c, ok := s.Val.(*ssa.Const)
					if !ok {
						return nil
					}
					n, _ := constant.Int64Val(c.Value)
					buf[ic.Int64()] = byte(n)
				}
			}
		}
		return mkApp("gbytes", v.Type(), mkStr(string(buf)))
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return p.globals[g]
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && strings.HasPrefix(f.String(), "regexp.MustCompile") {
			if x := p.evalInit(v.Call.Args[0]); x != nil {
				return mkApp("gregexp", v.Type(), x)
			}
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if x := p.evalInit(v.Call.Args[0]); x != nil {
				if l := mkLen(x); l.isConst() {
					return l
				}
			}
		}
	case *ssa.Function:
		return mk(V{k: KFunc, fn: v})
	}
	return nil
}

// kindOf returns the node kinds (1 attribute, 2 other) values of concrete type t can have.
func (p *Prog) kindOf(t types.Type) uint8 {
	k := typeKey(t)
	if r, ok := p.kinds[k]; ok {
		return r
	}
	r := uint8(3)
	if fn := p.methodOf(t, "Type"); fn != nil && len(fn.Blocks) > 0 {
		r = 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok && len(ret.Results) == 1 {
					r |= p.kindsOfValue(ret.Results[0], map[ssa.Value]bool{})
				}
			}
		}
		if r == 0 {
			r = 3
		}
	}
	p.kinds[k] = r
	return r
}

func (p *Prog) kindsOfValue(v ssa.Value, seen map[ssa.Value]bool) uint8 {
	if seen[v] {
		return 0
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			n, _ := constant.Int64Val(v.Value)
			if n == p.attrConst {
				return 1
			}
			return 2
		}
	case *ssa.Phi:
		r := uint8(0)
		for _, e := range v.Edges {
			r |= p.kindsOfValue(e, seen)
		}
		return r
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && p.inRepo(f) {
			r := uint8(0)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ret, ok := in.(*ssa.Return); ok && len(ret.Results) == 1 {
						r |= p.kindsOfValue(ret.Results[0], seen)
					}
				}
			}
			return r
		}
	}
	return 3
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.ssaProg.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.ssaProg.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Prog) isCtxPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	return ok && n.Obj() == p.ctxT.Obj()
}

func (p *Prog) isNodeIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && types.Implements(p.nodeT, i) && i.NumMethods() >= p.node.NumMethods()
}

// liveness of registers at block entry.
type liveness struct {
	in []map[ssa.Value]bool
}

func (p *Prog) livenessOf(fn *ssa.Function) *liveness {
	if l, ok := p.live[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	l := &liveness{in: make([]map[ssa.Value]bool, n)}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.FreeVar:
			return false
		}
		return v != nil
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s.Index] {
					out[v] = true
				}
				pi := -1
				for j, pr := range s.Preds {
					if pr == b {
						pi = j
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for j, pr := range s.Preds {
						if pr == b || j == pi {
							if tracked(ph.Edges[j]) {
								out[ph.Edges[j]] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(out, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						out[*op] = true
					}
				}
			}
			if len(out) != len(l.in[i]) {
				changed = true
				l.in[i] = out
			}
		}
	}
	p.live[fn] = l
	return l
}

// rpo is the order of the blocks of fn in which states are processed: loop bodies before what follows.
func (p *Prog) rpo(fn *ssa.Function) []int {
	if r, ok := p.rpos[fn]; ok {
		return r
	}
	var post []int
	seen := make([]bool, len(fn.Blocks))
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		// successors that leave a loop are visited first so that they come last
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return !reaches(ss[i], b) && reaches(ss[j], b) })
		for _, s := range ss {
			if !seen[s.Index] {
				walk(s)
			}
		}
		post = append(post, b.Index)
	}
	walk(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	p.rpos[fn] = post
	return post
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(c *ssa.BasicBlock) bool
	walk = func(c *ssa.BasicBlock) bool {
		if c == b {
			return true
		}
		if seen[c] {
			return false
		}
		seen[c] = true
		for _, s := range c.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a)
}
