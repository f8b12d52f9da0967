package main

import (
	"fmt"
	"sort"
)

// Report collects obligations and violations of a check.
type Report struct {
	prop    string
	obl     map[string]*Obl
	und     map[string]string
	states  int
	roots   []string
	notes   []string
	samples []string
}

// Obl is an obligation, keyed by rule and construct.
type Obl struct {
	key  string
	n    int
	bad  string
	pos  string
	root string
}

func newReport(prop string) *Report {
	return &Report{prop: prop, obl: map[string]*Obl{}, und: map[string]string{}}
}

// check records one instance of obligation key.
func (r *Report) check(ok bool, key, pos, root, msg string) bool {
	o := r.obl[key]
	if o == nil {
		o = &Obl{key: key}
		r.obl[key] = o
	}
	o.n++
	if !ok && o.bad == "" {
		o.bad, o.pos, o.root = msg, pos, root
	}
	return ok
}

func (r *Report) undecided(root, pos, msg string) {
	k := root + "|" + pos + "|" + msg
	if _, ok := r.und[k]; !ok {
		r.und[k] = fmt.Sprintf("%s: undecided while analysing %s: %s", pos, root, msg)
	}
}

func (r *Report) violations() []string {
	var out []string
	for _, o := range r.obl {
		if o.bad != "" {
			out = append(out, fmt.Sprintf("%s: [%s] %s (analysing %s)", o.pos, o.key, o.bad, o.root))
		}
	}
	sort.Strings(out)
	return out
}

// undecidedList is what the analysis could not decide.
func (r *Report) undecidedList() []string {
	var out []string
	for _, u := range r.und {
		out = append(out, u)
	}
	sort.Strings(out)
	return out
}

func (r *Report) counts() (obligations, discharged, instances int) {
	for _, o := range r.obl {
		obligations++
		instances += o.n
		if o.bad == "" {
			discharged++
		}
	}
	return
}
