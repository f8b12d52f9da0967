package main

import (
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// States that differ only in facts are kept apart up to mergeLimit; beyond that they are joined
// (the monitor state, memory and live values always keep states apart).
const mergeLimit = 4

// The bodies of text functions are summarised with exact facts.
const pureMergeLimit = 400

type stateSet struct {
	seen   map[string]bool
	n      int
	fresh  []*State // not yet processed
	all    []*State // what has been seen (until merged)
	merged *State
	queued bool
	ret    []*V
	panic  bool
}

func (s *stateSet) take() []*State {
	r := s.fresh
	s.fresh = nil
	return r
}

// addState adds st; it reports whether there is something new to process.
func (x *Exec) addState(s *stateSet, st *State) bool {
	if s.merged != nil {
		k := s.merged.factsKey()
		m := x.joinFacts(s.merged, st)
		if m.factsKey() == k {
			return false
		}
		s.merged = m
		s.fresh = []*State{m.clone()}
		return true
	}
	k := st.factsKey()
	if s.seen[k] {
		return false
	}
	s.seen[k] = true
	s.n++
	if s.n > x.mergeN {
		m := st
		for _, o := range s.all {
			m = x.joinFacts(m, o)
		}
		s.merged = m
		s.all = nil
		s.fresh = []*State{m.clone()}
		return true
	}
	s.all = append(s.all, st.clone())
	s.fresh = append(s.fresh, st)
	return true
}

// joinFacts is a with facts weakened to what also holds in b (the states agree otherwise).
func (x *Exec) joinFacts(a, b *State) *State {
	n := a.clone()
	for k, s := range a.facts {
		if k.k == KApp && k.op == "seg" {
			o, ok := b.facts[k]
			if !ok {
				delete(n.facts, k)
				continue
			}
			n.facts[k] = joinShape(s, o)
			continue
		}
		o := x.shape(b, k)
		j := joinShape(s, o)
		if j.keyStr() != s.keyStr() {
			delete(n.facts, k)
			if d := x.shape(n, k); d.keyStr() != j.keyStr() {
				n.facts[k] = j
			}
		}
	}
	for k, s := range b.facts {
		if _, ok := a.facts[k]; ok || k.k == KApp && k.op == "seg" {
			continue
		}
		o := x.shape(a, k)
		j := joinShape(s, o)
		if d := x.shape(n, k); d.keyStr() != j.keyStr() {
			n.facts[k] = j
		}
	}
	return n
}

func (st *State) factsKey() string {
	var sb strings.Builder
	var fk []*V
	for k := range st.facts {
		fk = append(fk, k)
	}
	sort.Slice(fk, func(i, j int) bool { return fk[i].id < fk[j].id })
	for _, k := range fk {
		sb.WriteString("F" + strconv.Itoa(k.id))
		st.facts[k].key(&sb)
	}
	return sb.String()
}

// coreKey is the part of a state that merging never blurs.
func (x *Exec) coreKey(st *State) string {
	k := st.keyNoFacts()
	if len(st.frames) > 0 {
		fr := st.top()
		var vs []ssa.Value
		for v := range fr.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			x.factKey(st, fr.env[v], &k)
		}
	}
	return k
}

// factKey adds the discrete facts about v.
func (x *Exec) factKey(st *State, v *V, k *string) {
	s, ok := st.facts[v]
	if !ok {
		return
	}
	*k += "|" + strconv.Itoa(v.id) + "." + strconv.Itoa(int(s.B)) + "." + strconv.Itoa(int(s.Nil)) + "." + tkey(s.Dyn)
	if s.Eq != nil {
		*k += "=" + strconv.Itoa(s.Eq.id)
	}
}
