package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Inv holds what is known about values that flow through memory and calls the engine does not
// follow: struct fields, captured variables, parameters and results of summarised functions.  It is
// the least fixpoint over all analysed roots (each store joins into it).
type Inv struct {
	p        *Prog
	m        map[string]*Shape
	changed  bool
	frozen   bool
	grew     []string
	reads    map[string]bool
	ver      map[string]int
	tick     int
	closures map[*ssa.Function]bool
	newClos  []*ssa.Function
}

func newInv(p *Prog) *Inv {
	return &Inv{p: p, m: map[string]*Shape{}, closures: map[*ssa.Function]bool{}, reads: map[string]bool{}, ver: map[string]int{}}
}

func (i *Inv) join(key string, s *Shape) {
	if s == nil || s.bot {
		return
	}
	old := i.m[key]
	n := stripShape(joinShape(old, s))
	n = i.limit(n, 4)
	if old == nil || old.keyStr() != n.keyStr() {
		i.m[key] = n
		i.tick++
		i.ver[key] = i.tick
		i.changed = true
		i.grew = append(i.grew, key)
	}
}

func (i *Inv) limit(s *Shape, d int) *Shape {
	if s == nil {
		return nil
	}
	n := *s
	if d == 0 {
		n.Elem = nil
		return topShape(nil, 0)
	}
	n.Elem = i.limit(n.Elem, d-1)
	return &n
}

func (i *Inv) addClosure(fn *ssa.Function) {
	if !i.closures[fn] {
		i.closures[fn] = true
		i.newClos = append(i.newClos, fn)
		i.changed = true
	}
}

// field is the shape of a loaded struct field.
func (i *Inv) field(key string, t types.Type, owned bool) *Shape {
	if !strings.HasPrefix(key, i.p.mod) || strings.HasPrefix(key, i.p.mod+"/context.Context.") {
		return topShape(t, 3)
	}
	s, ok := i.lookup("f:" + key)
	if !ok {
		s = topShape(t, 0)
		s.bot = true
		return s
	}
	if owned {
		return s
	}
	return sharedShape(s)
}

func sharedShape(s *Shape) *Shape {
	if s == nil {
		return nil
	}
	n := *s
	n.Shared = true
	n.Elem = sharedShape(n.Elem)
	return &n
}

// get is the shape recorded under key (top if nothing is).
func (i *Inv) get(key string, t types.Type) *Shape {
	if s, ok := i.lookup(key); ok {
		return sharedShape(s)
	}
	return topShape(t, 3)
}

// ret is the shape of a summarised result; ok is false if no result has been seen yet.
func (i *Inv) ret(key string) (*Shape, bool) {
	s, ok := i.lookup(key)
	return s, ok
}

// lookup records that the current root depends on the invariant.
func (i *Inv) lookup(key string) (*Shape, bool) {
	i.reads[key] = true
	s, ok := i.m[key]
	return s, ok
}
