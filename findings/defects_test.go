package aitch

// Demonstrations of the genuine defects found on the base tree (b23ef3d).
// Run through an overlay:  see run.sh.  Every test fails on the base tree and
// passes on the repaired tree.  They are documentation, not checks: no check
// runs them.

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/go-andiamo/aitch/context"
)

type flaky struct {
	bytes.Buffer
	failAt, calls int
	after         int
}

func (f *flaky) Write(b []byte) (int, error) {
	f.calls++
	if f.calls == f.failAt {
		return 0, fmt.Errorf("fail %d", f.calls)
	}
	if f.calls > f.failAt {
		f.after++
	}
	return f.Buffer.Write(b)
}

func render(n Node, data map[string]any) string {
	var w bytes.Buffer
	ctx := context.New(&w, data, nil)
	_ = n.Render(ctx)
	return w.String()
}

func TestDefect_FirstErrorLost(t *testing.T) {
	n := NewElement([]byte("p"), "hello", NewAttribute([]byte("id"), "x"))
	for k := 1; k <= 11; k++ {
		f := &flaky{failAt: k}
		err := n.Render(context.New(f, nil, nil))
		if f.calls < k {
			break
		}
		if err == nil || err.Error() != fmt.Sprintf("fail %d", k) || f.after > 0 {
			t.Errorf("failAt=%d err=%v writes after failure=%d", k, err, f.after)
		}
	}
}

func TestDefect_ImperativeErrorLost(t *testing.T) {
	n := NewElement([]byte("p"), Imperative(func(ImperativeContext) error { return errors.New("boom") }), "tail")
	if err := n.Render(context.New(&bytes.Buffer{}, nil, nil)); err == nil {
		t.Error("error of imperative func lost")
	}
	// the write error inside an imperative func is lost by the enclosing element
	f := &flaky{failAt: 3}
	m := NewElement([]byte("p"), Imperative(func(ic ImperativeContext) error { return nil }), Imperative(func(ic ImperativeContext) error { ic.WriteString("a"); return nil }))
	f.failAt = 4
	if err := m.Render(context.New(f, nil, nil)); err == nil {
		t.Error("write error inside imperative lost")
	}
}

type foreign struct{}

func (foreign) Render(*context.Context) error { return errors.New("foreign") }
func (foreign) Type() NodeType                { return TextNode }
func (foreign) Name() string                  { return "foreign" }

func TestDefect_ForeignNodeErrorLost(t *testing.T) {
	for name, n := range map[string]Node{
		"element":    NewElement([]byte("p"), foreign{}, "x"),
		"collector":  ContentCollect(func(*context.Context) []Node { return []Node{foreign{}} }),
		"imperative": Imperative(func(ic ImperativeContext) error { ic.WriteNodes(foreign{}); return nil }),
	} {
		if err := n.Render(context.New(&bytes.Buffer{}, nil, nil)); err == nil {
			t.Errorf("%s: error lost", name)
		}
	}
}

func TestDefect_AttributeOrderNondeterministic(t *testing.T) {
	at := func(n string) Node { return NewAttribute([]byte(n), "v") }
	n := NewElement([]byte("p"), at("a"), at("b"), at("c"), Conditional(func(*context.Context) bool { return true }, at("d"), at("e"), at("f")))
	first := render(n, nil)
	for i := 0; i < 200; i++ {
		if s := render(n, nil); s != first {
			t.Fatalf("%s vs %s", first, s)
		}
	}
}

func TestDefect_SharedAttributeMutated(t *testing.T) {
	cls := NewDelimitedAttribute([]byte("class"), space, "base")
	a := NewElement([]byte("p"), cls, NewDelimitedAttribute([]byte("class"), space, "x"))
	b := NewElement([]byte("p"), cls)
	if s := render(b, nil); s != `<p class="base"></p>` {
		t.Error(s)
	}
	_ = a
	v := NewDelimitedAttribute([]byte("class"), space, "base")
	_ = NewVoidElement([]byte("br"), v, NewDelimitedAttribute([]byte("class"), space, "x"))
	if s := render(v, nil); s != ` class="base"` {
		t.Error(s)
	}
}

func TestDefect_ConditionAliasing(t *testing.T) {
	tr := func(*context.Context) bool { return true }
	fa := func(*context.Context) bool { return false }
	at := func(n string) Node { return NewAttribute([]byte(n), "v") }
	n := NewElement([]byte("p"), Conditional(tr, Conditional(tr, Conditional(tr,
		Conditional(fa, at("secret")),
		Conditional(tr, at("public"))))))
	if s := render(n, nil); s != `<p public="v"></p>` {
		t.Error(s)
	}
}

func TestDefect_GetPanics(t *testing.T) {
	type K string
	type inner struct{ X int }
	type S struct {
		*inner
		hidden int
	}
	for _, c := range []any{map[K]int{"a": 1}, S{hidden: 1}, &S{}} {
		for _, key := range []string{"a", "hidden", "X"} {
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Errorf("%T %q: %v", c, key, r)
					}
				}()
				_, _ = context.Get[int](context.New(nil, nil, c), key)
			}()
		}
	}
}

func TestDefect_NilNodes(t *testing.T) {
	bad := Attribute("not valid")
	for name, fn := range map[string]func() Node{
		"conditional": func() Node { return Conditional(func(*context.Context) bool { return true }, bad) },
		"when":        func() Node { return When("x", bad) },
		"iterate":     func() Node { return Iterate(func(*context.Context) []any { return nil }, bad) },
		"iteratekey":  func() Node { return IterateKey("x", bad) },
		"yield":       func() Node { return IterateYield(func(*context.Context, func(any)) {}, bad) },
	} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("%s: %v", name, r)
				}
			}()
			_ = fn()
		}()
	}
}

func TestDefect_YieldScope(t *testing.T) {
	n := IterateYield(func(_ *context.Context, yield func(any)) {
		yield(map[string]any{"k": "leak"})
		yield(1)
	}, Text("[", DynamicValueKey("k"), "]"))
	if s := render(n, map[string]any{"k": "outer"}); s != "[leak][outer]" {
		t.Error(s)
	}
}

func TestDefect_ImperativeStartAliases(t *testing.T) {
	// nil values leave spare capacity behind the attribute's values
	at := NewAttribute([]byte("class"), "a", nil, nil, nil)
	spare := at.(*attribute).values[:2]
	imp := Imperative(func(ic ImperativeContext) error {
		ic.Start([]byte("p"), true, at, NewDelimitedAttribute([]byte("class"), space, "b"))
		return nil
	})
	_ = render(imp, nil)
	if spare[1].value != nil {
		t.Errorf("rendering wrote %q into the attribute's backing array", spare[1].value)
	}
}

type evil struct{}

func (evil) String() string { return `<script>"&'` }

func TestDefect_StringerNotEscaped(t *testing.T) {
	if s := render(Text(evil{}), nil); strings.Contains(s, "<script>") {
		t.Error(s)
	}
}

// a bound node may record its failure in the context only (ctx.Write does)
type ctxOnly struct{}

func (ctxOnly) Render(ctx *context.Context) error { ctx.Error = errors.New("first"); return nil }
func (ctxOnly) Type() NodeType                    { return TextNode }
func (ctxOnly) Name() string                      { return "ctxOnly" }

func TestDefect_TemplateLosesContextError(t *testing.T) {
	tm := MustNewTemplate("t", "a{{n .}}b", NodeMap{"n": ctxOnly{}})
	var w bytes.Buffer
	if err := tm.Execute(&w, nil, nil); err == nil || err.Error() == "" || strings.Contains(w.String(), "b") {
		t.Fatalf("error %v, output %q", err, w.String())
	}
}
