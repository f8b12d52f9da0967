package main

import (
	"regexp/syntax"
	"sort"
	"strconv"
)

// Regular languages: emptiness of intersections of (complements of) languages of patterns, as
// regexp.MatchString decides them.

type reLang struct {
	prog *syntax.Prog
	neg  bool
}

func compileLang(pat string, neg bool) (*reLang, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &reLang{p, neg}, nil
}

// a state: the threads before the next character, whether a match was seen
type reState struct {
	pcs     []uint32
	matched bool
}

func (l *reLang) closure(s reState, prev, next rune) (runes []uint32, matched bool) {
	flags := syntax.EmptyOpContext(prev, next)
	matched = s.matched
	seen := map[uint32]bool{}
	var add func(pc uint32)
	add = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		i := &l.prog.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(i.Out)
			add(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			add(i.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(i.Arg)&^flags == 0 {
				add(i.Out)
			}
		case syntax.InstMatch:
			matched = true
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			runes = append(runes, pc)
		}
	}
	for _, pc := range s.pcs {
		add(pc)
	}
	add(uint32(l.prog.Start)) // a match can start anywhere
	return
}

func (l *reLang) step(s reState, prev, next rune) reState {
	runes, m := l.closure(s, prev, next)
	n := reState{matched: m}
	seen := map[uint32]bool{}
	for _, pc := range runes {
		if i := &l.prog.Inst[pc]; i.MatchRune(next) && !seen[i.Out] {
			seen[i.Out] = true
			n.pcs = append(n.pcs, i.Out)
		}
	}
	sort.Slice(n.pcs, func(a, b int) bool { return n.pcs[a] < n.pcs[b] })
	if m {
		n.pcs = nil // decided
	}
	return n
}

func (l *reLang) accepts(s reState, prev rune) bool {
	_, m := l.closure(s, prev, -1)
	return m != l.neg
}

// alphabet holds one character of every class the languages can tell apart.
func alphabet(ls []*reLang) []rune {
	cut := map[rune]bool{0: true, '\n': true, '\n' + 1: true, '0': true, '9' + 1: true, 'A': true, 'Z' + 1: true, '_': true, '_' + 1: true, 'a': true, 'z' + 1: true, ' ': true, ' ' + 1: true, 0x80: true}
	for _, l := range ls {
		for i := range l.prog.Inst {
			in := &l.prog.Inst[i]
			if in.Op == syntax.InstRune || in.Op == syntax.InstRune1 {
				r := in.Rune
				if len(r) == 1 {
					// folding
					for c := rune(0); c < 0x250; c++ {
						if in.MatchRune(c) {
							cut[c], cut[c+1] = true, true
						}
					}
					cut[r[0]], cut[r[0]+1] = true, true
					continue
				}
				for j := 0; j+1 < len(r); j += 2 {
					cut[r[j]], cut[r[j+1]+1] = true, true
				}
			}
		}
	}
	var out []rune
	for c := range cut {
		if c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c < 0xe000) {
			out = append(out, c)
		}
	}
	// prefer readable witnesses
	rank := func(r rune) int {
		switch {
		case r >= 'a' && r <= 'z':
			return 0
		case r > ' ' && r < 127:
			return 1
		case r == ' ':
			return 2
		}
		return 3
	}
	sort.Slice(out, func(a, b int) bool {
		if rank(out[a]) != rank(out[b]) {
			return rank(out[a]) < rank(out[b])
		}
		return out[a] < out[b]
	})
	return out
}

// witness is a string that every language holds; ok is false if there is none.
func witness(ls []*reLang, limit int) (string, bool) {
	ws := witnesses(ls, limit, 1)
	if len(ws) == 0 {
		return "", false
	}
	return ws[0], true
}

// witnesses lists up to n such strings that lead to different states.
func witnesses(ls []*reLang, limit, n int) []string {
	ab := alphabet(ls)
	type node struct {
		ss   []reState
		prev rune
		text string
	}
	class := func(r rune) string {
		switch {
		case r == -1:
			return "^"
		case r == '\n':
			return "n"
		case syntax.IsWordChar(r):
			return "w"
		}
		return "o"
	}
	key := func(nd node) string {
		k := class(nd.prev)
		for _, s := range nd.ss {
			k += "|"
			if s.matched {
				k += "M"
			}
			for _, pc := range s.pcs {
				k += strconv.Itoa(int(pc)) + ","
			}
		}
		return k
	}
	var out []string
	start := node{ss: make([]reState, len(ls)), prev: -1}
	seen := map[string]bool{key(start): true}
	queue := []node{start}
	for len(queue) > 0 && len(seen) < limit {
		nd := queue[0]
		queue = queue[1:]
		ok := true
		for i, l := range ls {
			ok = ok && l.accepts(nd.ss[i], nd.prev)
		}
		if ok {
			out = append(out, nd.text)
			if len(out) >= n {
				return out
			}
		}
		for _, r := range ab {
			nn := node{ss: make([]reState, len(ls)), prev: r, text: nd.text + string(r)}
			for i, l := range ls {
				nn.ss[i] = l.step(nd.ss[i], nd.prev, r)
			}
			if k := key(nn); !seen[k] {
				seen[k] = true
				queue = append(queue, nn)
			}
		}
	}
	return out
}
