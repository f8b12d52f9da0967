package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func rawChars(m uint16) string {
	var l []string
	for i, c := range []string{"<", ">", "&", `"`, "'", "NUL", "characters that are not valid in a Go string literal"} {
		if m&(1<<i) != 0 {
			l = append(l, c)
		}
	}
	return strings.Join(l, " ")
}

// escapeChecks (C03): whatever reaches the writer holds no special character that came from a string.
func escapeChecks(p *Prog, rep *Report) error {
	a := newAnalysis(p)
	if err := a.solve(ModeFail, false); err != nil {
		return err
	}
	h := &Hooks{Mode: ModeFail}
	h.OnRaw = func(x *Exec, st *State, w, data *V, in ssa.Instruction) {
		pos := x.p.instrPos(in)
		raw := x.textRaw(st, data) & rawHTML
		rep.check(raw == 0, "write "+pos+" in "+x.root, pos, x.root,
			fmt.Sprintf("text from a string can reach the writer unescaped (%s in %s)", rawChars(raw), data))
	}
	c := &Check{h: h, filter: func(r Root) bool { return !isGenerator(r.fn) }}
	c.exit = func(x *Exec, r Root, e Exit) {
		if e.panic {
			return
		}
		// what a function hands out as finished bytes
		for i, v := range e.ret {
			t := r.fn.Signature.Results().At(i).Type()
			if isByteSlice(t) && r.kind == "closure" {
				pos := x.p.pos(r.fn.Pos())
				raw := x.textRaw(e.st, v) & rawHTML
				rep.check(raw == 0, "bytes produced by "+r.fn.String(), pos, x.root, fmt.Sprintf("text from a string is returned unescaped (%s in %s)", rawChars(raw), v))
			}
		}
	}
	return a.run(c, rep)
}
