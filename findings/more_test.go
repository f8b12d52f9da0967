package html

import (
	"bytes"
	"errors"
	"go/parser"
	"go/token"
	"strings"
	"testing"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

func TestDefect_CssUnitWritesCallerSlice(t *testing.T) {
	all := []any{10, "keep"}
	_ = css.Px(all[:1]...)
	if all[1] != "keep" {
		t.Errorf("%q", all[1])
	}
}

func TestDefect_HeaderKeyNotEscaped(t *testing.T) {
	var w bytes.Buffer
	_ = htmx.Headers(htmx.HeadersMap{"a&amp;<b>": 1}).Render(context.New(&w, nil, nil))
	if !strings.Contains(w.String(), "a&amp;amp;&lt;b&gt;") {
		t.Error(w.String())
	}
}

func TestDefect_SvgClassNotMerged(t *testing.T) {
	var w bytes.Buffer
	_ = svg.Circle(svg.Class("a"), svg.Class("b")).Render(context.New(&w, nil, nil))
	if w.String() != `<circle class="a b"></circle>` {
		t.Error(w.String())
	}
}

type failOnce struct{ n int }

func (f *failOnce) Write(b []byte) (int, error) {
	if f.n++; f.n == 2 {
		return 0, errors.New("fail")
	}
	return len(b), nil
}

func TestDefect_GeneratorErrorLost(t *testing.T) {
	if err := GenerateCode(strings.NewReader("<p>x</p>"), &failOnce{}); err == nil {
		t.Error("html: lost")
	}
	if err := svg.GenerateCode(strings.NewReader("<svg>x</svg>"), &failOnce{}); err == nil {
		t.Error("svg: lost")
	}
}

func TestDefect_GeneratedCodeInvalid(t *testing.T) {
	for _, in := range []string{"<p>a<br>b</p>", "<p>a", "a</p>", `<p a"b="x"></p>`, `<x"y></x"y>`, "<p title='a\x00b'></p>", "<p>\xff</p>", "<p>a\ufeffb</p>", "<img src=x><p>y</p>"} {
		for which, gen := range map[string]func(*bytes.Buffer) error{
			"html": func(w *bytes.Buffer) error { return GenerateCode(strings.NewReader(in), w) },
			"svg":  func(w *bytes.Buffer) error { return svg.GenerateCode(strings.NewReader(in), w) },
		} {
			var w bytes.Buffer
			_ = gen(&w)
			if _, err := parser.ParseFile(token.NewFileSet(), "x.go", "package x\n"+w.String(), 0); err != nil {
				t.Errorf("%s %q: %v\n%s", which, in, err, w.String())
			}
		}
	}
}

func TestDefect_PrefixConstructors(t *testing.T) {
	var w bytes.Buffer
	_ = GenerateCode(strings.NewReader(`<p aria-="x" data-="y"></p>`), &w)
	if strings.Contains(w.String(), `html.Aria("x")`) || strings.Contains(w.String(), `html.Data("y")`) {
		t.Error(w.String())
	}
}

// not repaired: TestTrack in html/elements_test.go requires the end tag (known finding of C16)
func TestKnown_TrackHasEndTag(t *testing.T) {
	var a, b bytes.Buffer
	_ = Track().Render(context.New(&a, nil, nil))
	_ = aitch.Element("track").Render(context.New(&b, nil, nil))
	if a.String() != b.String() {
		t.Errorf("html.Track() renders %s, aitch.Element(\"track\") renders %s", a.String(), b.String())
	}
}

// a nil func() any held in the render data must not be called
func TestDefect_NilFuncValue(t *testing.T) {
	var f func() any
	var b bytes.Buffer
	n := aitch.Text(aitch.DynamicValueKey("k"), aitch.DynamicValueKey("."))
	if err := n.Render(context.New(&b, map[string]any{"k": f}, f)); err != nil || b.String() != "" {
		t.Fatal(err, b.String())
	}
	_ = aitch.Text(f)
}
