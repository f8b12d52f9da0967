seeds = []

def seed(**k):
    seeds.append(k)

HDR = '''package %s_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

var _ = fmt.Sprint
var _ = errors.New
var _ = strings.Repeat
var _ io.Writer
var _ = context.New

func render(t *testing.T, n aitch.Node, data map[string]any, cargo any) string {
	t.Helper()
	var b bytes.Buffer
	if err := n.Render(context.New(&b, data, cargo)); err != nil {
		t.Fatal(err)
	}
	return b.String()
}

func want(t *testing.T, got, exp string) {
	t.Helper()
	if got != exp {
		t.Fatalf("got  %%q\\nwant %%q", got, exp)
	}
}

'''
ROOT = HDR % 'aitch'

seed(id='yield-result', prop='C01', edits=[('iterate.go', '''		}
	})
	return ctx.Error
}''', '''		}
	})
	return ictx.Error
}''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	boom := errors.New("boom")
	n := aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
		yield(1)
		ctx.Error = boom
	}, aitch.Text("x"))
	var b bytes.Buffer
	if err := n.Render(context.New(&b, nil, nil)); err != boom {
		t.Fatal("the failure is not reported", err)
	}
}
''', needs='a yield function that reports a failure through its context after the last item', breaks='Render of a yield iterator returns nil although its function failed')

seed(id='raw-fast-path', prop='C02', edits=[('imperative.go', '''	ic.ctx.Write(data)
}

func (ic *imperativeContext) WriteNodes''', '''	if len(data) > 4096 && ic.ctx.Writer != nil {
		// large blocks go straight to the writer
		if _, err := ic.ctx.Writer.Write(data); err != nil && ic.ctx.Error == nil {
			ic.ctx.Error = err
		}
		return
	}
	ic.ctx.Write(data)
}

func (ic *imperativeContext) WriteNodes''')], demo=ROOT + '''
type failOnce struct {
	n, after int
	failed   bool
}

func (f *failOnce) Write(p []byte) (int, error) {
	if f.failed {
		f.after++
		return len(p), nil
	}
	f.n++
	if f.n == 2 {
		f.failed = true
		return 0, errors.New("full")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	n := aitch.Imperative(func(ctx aitch.ImperativeContext) error {
		ctx.WriteRaw([]byte("a"))
		ctx.WriteRaw([]byte("b"))
		ctx.WriteRaw([]byte(strings.Repeat("c", 5000)))
		return nil
	})
	w := &failOnce{}
	if err := n.Render(context.New(w, nil, nil)); err == nil {
		t.Fatal("no error")
	}
	if w.after != 0 {
		t.Fatal("written after the failure")
	}
}
''', needs='a write that fails followed by a raw block of more than 4096 bytes', breaks='imperative code keeps writing large raw blocks after a failed write')

seed(id='escape-prefix-scan', prop='C03', edits=[('value.go', '''	if !strings.ContainsAny(s, "'\\"&<>\\000") {
		return []byte(s)
	}
''', '''	head := s
	if len(head) > 8192 {
		head = head[:8192]
	}
	if !strings.ContainsAny(head, "'\\"&<>\\000") {
		return []byte(s)
	}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	s := strings.Repeat("x", 9000)
	want(t, render(t, aitch.Text(s+"<b>"), nil, nil), s+"&lt;b&gt;")
}
''', needs='a string longer than 8192 bytes whose first special character is beyond that', breaks='the special characters of such a string are written unescaped')

seed(id='render-append-shared', prop='C05', edits=[('element.go', '''						use.values = use.values[:0]
						use.values = append(use.values, at.values...)
						for _, e := range eAttr {''', '''						use.values = at.values
						for _, e := range eAttr {''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	shared := aitch.DelimitedAttribute("class", " ", "a", nil, nil)
	yes := func(ctx *context.Context) bool { return true }
	other := aitch.Element("i", shared, aitch.Conditional(yes, aitch.DelimitedAttribute("class", " ", "p", "q")))
	dyn := func(ctx *context.Context) []byte {
		_ = other.Render(context.New(io.Discard, nil, nil))
		return []byte("d")
	}
	n := aitch.Element("b", shared, aitch.Conditional(yes, aitch.DelimitedAttribute("class", " ", dyn, "y")))
	want(t, render(t, n, nil, nil), `<b class="a d y"></b>`)
}
''', needs='an attribute whose value slice has spare capacity, shared by two elements with conditional values, rendered at the same time', breaks='rendering writes into the values of a shared attribute')

seed(id='collection-in-place', prop='C06', edits=[('collection.go', '''	result := &collection{
		nodes: make([]Node, 0, len(nodes)),
	}
	for''', '''	result := &collection{
		nodes: nodes[:0],
	}
	for''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	nodes := []aitch.Node{aitch.Text("1"), nil, aitch.Text("2"), aitch.Text("3")}
	want(t, render(t, aitch.Collection(nodes...), nil, nil), "123")
	want(t, render(t, aitch.Collection(nodes...), nil, nil), "123")
}
''', needs='a slice of nodes with a nil in it that is used again by the caller', breaks='Collection filters the caller\'s slice in place')

seed(id='unexpected-eof', prop='C18', dir='svg/', edits=[('svg/generator.go', '''			if err = tokenizer.Err(); err == io.EOF {''', '''			if err = tokenizer.Err(); err == io.EOF || err == io.ErrUnexpectedEOF {''')], demo=HDR % 'svg' + '''
type cut struct{ r io.Reader }

func (c cut) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func TestDemo(t *testing.T) {
	var b bytes.Buffer
	if err := svg.GenerateCode(cut{strings.NewReader("<svg><g>")}, &b); err == nil {
		t.Fatal("the read error is not reported")
	}
}
'''.replace('', '') , needs='a reader that fails with io.ErrUnexpectedEOF', breaks='GenerateCode reports success for a truncated document')
seeds[-1]['demo'] = seeds[-1]['demo'].replace('"github.com/go-andiamo/aitch/context"\n', '"github.com/go-andiamo/aitch/context"\n	"github.com/go-andiamo/aitch/svg"\n', 1)

VOC = lambda pkg: (HDR % pkg).replace('"github.com/go-andiamo/aitch/context"\n', '"github.com/go-andiamo/aitch/context"\n	"github.com/go-andiamo/aitch/%s"\n' % pkg, 1)

seed(id='keygen-void', prop='C16', edits=[('element.go', """	"input":  {},
""", """	"input":  {},
	"keygen": {},
""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	want(t, render(t, aitch.Element("keygen", aitch.Text("x")), nil, nil), "<keygen>x</keygen>")
}
''', needs='an element built from a name that only obsolete versions of HTML treat as void', breaks='the table of void names holds one more name than HTML and the code generator know')

seed(id='table-swap', prop='C19', dir='html/', edits=[('html/generator.go', """		"onseeking":           OnSeeking,""", """		"onseeking":           OnSeeked,""")], demo=VOC('html') + '''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	if err := html.GenerateCode(strings.NewReader("<p onseeking='x()'></p>"), &b); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "html.OnSeeking(") {
		t.Fatal(b.String())
	}
}
''', needs='a document with an onseeking attribute', breaks='the generator emits another constructor for onseeking')

seed(id='css-value-dropped', prop='C23', dir='css/', edits=[('css/properties.go', """	return styleAttribute(propGridArea, value...)""", """	return styleAttribute(propGridArea, value[:min(1, len(value))]...)""")], demo=VOC('css') + '''
func TestDemo(t *testing.T) {
	want(t, render(t, css.GridArea("1", " / ", "2"), nil, nil), ` style="grid-area:1 / 2"`)
}
''', needs='a grid area given as several values', breaks='GridArea drops all values but the first')

seed(id='bool-args', prop='C19', dir='html/', edits=[('html/generator.go', """		"formnovalidate":  true,
""", "")], demo=VOC('html') + '''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	if err := html.GenerateCode(strings.NewReader("<button formnovalidate>x</button>"), &b); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(b.String(), "FormNoValidate(\\"") {
		t.Fatal(b.String())
	}
}
''', needs='a document with a formnovalidate attribute', breaks='the generator emits a value for a constructor that takes none')

seed(id='name-trailing-newline', prop='C13', edits=[('aitch.go', """`^[a-zA-Z][a-zA-Z0-9._\\-:]*$`""", """`(?m)^[a-zA-Z][a-zA-Z0-9._\\-:]*$`""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	if n := aitch.Element("a\\n><script>x</script", "x"); n != nil {
		t.Fatal("the name is accepted")
	}
}
''', needs='a name with a line that is valid on its own', breaks='the anchors of the name pattern match at line ends')

seed(id='name-range-typo', prop='C13', edits=[('aitch.go', """`^[a-zA-Z][a-zA-Z0-9._\\-:]*$`""", """`^[a-zA-Z][a-zA-Z0-9.-_:]*$`""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	if n := aitch.Attribute("a><b", "x"); n != nil {
		t.Fatal("the name is accepted")
	}
	if n := aitch.Attribute("data-x", "x"); n == nil {
		t.Fatal("the name is rejected")
	}
}
''', needs='a name with a character between . and _', breaks='a character range in the name pattern accepts < = > and /')

seed(id='void-checked-late', prop='C13', edits=[('element.go', """	if !htmlTagRegex.MatchString(name) {
		if PanicOnInvalidName {
			panic("invalid html tag name: " + name)
		}
		return nil
	}
	if _, void := voidElementNames[name]; void {
		return""", """	if tag, _, custom := strings.Cut(name, " is="); custom {
		return NewElement([]byte(tag), append([]any{Attribute("is", strings.TrimPrefix(name, tag+" is="))}, contents...)...)
	}
	if !htmlTagRegex.MatchString(name) {
		if PanicOnInvalidName {
			panic("invalid html tag name: " + name)
		}
		return nil
	}
	if _, void := voidElementNames[name]; void {
		return"""), ('element.go', """	"slices"
""", """	"slices"
	"strings"
""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	if n := aitch.Element("p><script is=x", "x"); n != nil {
		t.Fatal("the name is accepted")
	}
}
''', needs='a name with the text " is=" in it', breaks='names of customised elements are split before they are checked')

seed(id='collect-probe', prop='C24', edits=[('collection.go', """	if collector == nil {
		return &collection{}
	}
	return &contentCollector{collector: collector}""", """	if collector == nil || len(collector(&context.Context{})) == 0 {
		// nothing to collect
		return &collection{}
	}
	return &contentCollector{collector: collector}""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	calls := 0
	n := aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
		calls++
		if s, ok := ctx.Cargo.(string); ok {
			return []aitch.Node{aitch.Text(s)}
		}
		return nil
	})
	if calls != 0 {
		t.Fatal("called while building")
	}
	want(t, render(t, n, nil, "x"), "x")
}
''', needs='a collector whose nodes depend on the context', breaks='the collector is tried out when the node is built')

seed(id='clone-nil-collect', prop='C14', edits=[('collection.go', """		if n != nil && n.Type() != AttributeNode {
			renderNode(ctx, n)
		}""", """		if n.Type() != AttributeNode {
			renderNode(ctx, n)
		}""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
		return []aitch.Node{aitch.Text("a"), nil, aitch.Text("b")}
	})
	want(t, render(t, n, nil, nil), "ab")
}
''', needs='a collector that returns a nil node', breaks='nil nodes of a collector are dereferenced')

seed(id='nil-imperative-attr', prop='C14', edits=[('imperative.go', """		if node != nil && node.Type() != AttributeNode {
			renderNode(ic.ctx, node)
		}""", """		if t := node.Type(); node != nil && t != AttributeNode {
			renderNode(ic.ctx, node)
		}""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Imperative(func(ctx aitch.ImperativeContext) error {
		ctx.WriteNodes(aitch.Text("a"), aitch.Element("1"), aitch.Text("b"))
		return nil
	})
	want(t, render(t, n, nil, nil), "ab")
}
''', needs='a nil node given to WriteNodes', breaks='the type of a node is read before the nil check')

seed(id='uint-as-int', prop='C15', edits=[('value.go', """	case uint:
		return []byte(strconv.FormatUint(uint64(vt), 10))
""", """	case uint:
		return []byte(strconv.Itoa(int(vt)))
""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	want(t, render(t, aitch.Text(uint(1<<63+5)), nil, nil), "9223372036854775813")
	want(t, render(t, aitch.Text(aitch.DynamicValueKey("u")), map[string]any{"u": ^uint(0)}, nil), "18446744073709551615")
}
''', needs='a uint above the largest int', breaks='large uint values wrap to negative numbers')

seed(id='float32-digits', prop='C15', edits=[('value.go', """		return []byte(strconv.FormatFloat(float64(vt), 'g', -1, 32))
""", """		return []byte(strconv.FormatFloat(float64(vt), 'g', 7, 32))
""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	want(t, render(t, aitch.Attribute("x", float32(16777216)), nil, nil), ` x="1.6777216e+07"`)
}
''', needs='a float32 that needs more than seven digits', breaks='float32 values lose their last digit')

seed(id='int64-as-float', prop='C15', edits=[('value.go', """	case int64:
		return []byte(strconv.FormatInt(vt, 10))
""", """	case int64:
		if vt > -1<<53 && vt < 1<<53 {
			return valueToBytes(float64(vt))
		}
		return []byte(strconv.FormatInt(vt, 10))
""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	want(t, render(t, aitch.Text(int64(1234567), " ", int64(100000000000000000)), nil, nil), "1234567 100000000000000000")
	want(t, render(t, aitch.Text(int64(1e15), " ", int64(1e15)+1), nil, nil), "1000000000000000 1000000000000001")
	want(t, render(t, aitch.Text(int64(1)<<50+3, " ", int64(1e21/1000)), nil, nil), "1125899906842627 1000000000000000000")
	want(t, render(t, aitch.Text(int64(-3000000000)), nil, nil), "-3000000000")
}
''', needs='an int64 of seven digits or more', breaks='large int64 values are written with an exponent')

seed(id='iterate-pointer-slice', prop='C12', edits=[('iterate.go', """				} else if rrv := reflect.ValueOf(rv); rrv.Kind() == reflect.Slice && rrv.Len() > 0 {
""", """				} else if rrv := reflect.ValueOf(rv); rrv.Kind() == reflect.Slice || rrv.Kind() == reflect.Ptr && rrv.Elem().Kind() == reflect.Slice {
""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.IterateKey("k", aitch.Text(aitch.DynamicValueKey(".")))
	list := []int{1, 2}
	var none *[]int
	_ = render(t, n, map[string]any{"k": &list}, nil)
	_ = render(t, n, map[string]any{"k": none}, nil)
}
''', needs='a pointer to a slice under the key', breaks='iterating over a key that holds a pointer to a slice panics')

seed(id='iterate-nil-value', prop='C12', edits=[('iterate.go', """				} else if rrv := reflect.ValueOf(rv); rrv.Kind() == reflect.Slice && rrv.Len() > 0 {
""", """				} else if rrv := reflect.ValueOf(rv); rrv.Type().Kind() == reflect.Slice && rrv.Len() > 0 {
""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	want(t, render(t, aitch.IterateKey("k", aitch.Text("x")), map[string]any{"k": nil}, nil), "")
}
''', needs='a key that is present and holds nil', breaks='iterating over a key that holds nil panics')

seed(id='get-nested-pointer', prop='C12', edits=[('context/context.go', """		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
""", """		if k := v.Kind(); k == reflect.Ptr || k == reflect.Interface {
			if v = v.Elem(); v.Type().Kind() == reflect.Ptr {
				v = v.Elem()
			}
		}
""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	var p *struct{ A int }
	if _, ok := context.Get[int](context.New(nil, nil, p), "A"); ok {
		t.Fatal("found")
	}
}
''', needs='a cargo that is a nil pointer', breaks='looking up a key with a nil pointer as the cargo panics')

seed(id='template-ctx-pool', prop='C21', edits=[('template.go', '''	ctx := &context.Context{
		Data:   data,
		Cargo:  cargo,
		Writer: wr,
	}
	return t.template.Execute(wr, ctx)
''', '''	ctx := ctxPool.Get().(*context.Context)
	ctx.Data, ctx.Cargo, ctx.Writer = data, cargo, wr
	defer ctxPool.Put(ctx)
	return t.template.Execute(wr, ctx)
'''), ('template.go', '''// NodeMap is a map''', '''var ctxPool = sync.Pool{New: func() any { return &context.Context{} }}

// NodeMap is a map'''), ('template.go', '''	"io"
''', '''	"io"
	"sync"
''')], demo=ROOT + '''
type failing struct{}

func (failing) Write([]byte) (int, error) { return 0, errors.New("no") }

func TestDemo(t *testing.T) {
	tm := aitch.MustNewTemplate("t", "{{n .}}", aitch.NodeMap{"n": aitch.Text("x")})
	for i := 0; i < 50; i++ {
		_ = tm.Execute(failing{}, nil, nil)
		var b bytes.Buffer
		if err := tm.Execute(&b, nil, nil); err != nil {
			t.Fatal("an execution inherits the failure of an earlier one:", err)
		}
		want(t, b.String(), "x")
	}
}
''', needs='a template executed again after an execution that failed', breaks='contexts are pooled and keep the Error of an earlier execution')

seed(id='template-cargo-data', prop='C21', edits=[('template.go', '''	ctx := &context.Context{
		Data:   data,''', '''	if m, ok := cargo.(map[string]any); ok && len(data) == 0 {
		data = m
	}
	ctx := &context.Context{
		Data:   data,''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	tm := aitch.MustNewTemplate("t", "{{n .}}", aitch.NodeMap{"n": aitch.Text(aitch.DynamicValueKey("k"))})
	var b bytes.Buffer
	if err := tm.Execute(&b, nil, map[string]any{"k": "leak"}); err != nil {
		t.Fatal(err)
	}
	want(t, b.String(), "")
}
''', needs='an execution without data whose cargo is a map', breaks='the cargo of an execution is used as its data')

seed(id='template-unbound-dynamic', prop='C21', edits=[('template.go', '''		if v != nil {
''', '''		if v != nil && v.Name() != "" {
''')], demo=ROOT + '''
type anon struct{}

func (anon) Render(ctx *context.Context) error { ctx.Write([]byte("x")); return ctx.Error }
func (anon) Type() aitch.NodeType              { return aitch.TextNode }
func (anon) Name() string                      { return "" }

func TestDemo(t *testing.T) {
	tm, err := aitch.NewTemplate("t", "{{n .}}", aitch.NodeMap{"n": anon{}})
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := tm.Execute(&b, nil, nil); err != nil {
		t.Fatal(err)
	}
	want(t, b.String(), "x")
}
''', needs='a bound node whose Name is empty', breaks='nodes without a name are not bound')

seed(id='empty-map-item', prop='C11', edits=[('iterate.go', '''			ictx.Cargo = item
			if mi, ok := item.(map[string]any); ok {''', '''			ictx.Cargo = item
			if mi, ok := item.(map[string]any); ok && len(mi) > 0 {''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.IterateKey("items", aitch.Text(aitch.DynamicValueKey("k"), ";"))
	want(t, render(t, n, map[string]any{"k": "outer", "items": []any{map[string]any{"k": "a"}, map[string]any{}}}, nil), "a;;")
}
''', needs='an item that is an empty map', breaks='an empty map item does not become the Data, so the outer data shows through')

seed(id='iterate-root-parent', prop='C11', edits=[('iterate.go', '''	if items := i.fn(ctx); len(items) > 0 {
		ictx := &context.Context{
			Error:  ctx.Error,
			Writer: ctx.Writer,
			Parent: ctx,
		}
''', '''	if items := i.fn(ctx); len(items) > 0 {
		parent := ctx
		if ctx.Parent != nil && len(ctx.Data) == 0 {
			parent = ctx.Parent
		}
		ictx := &context.Context{
			Error:  ctx.Error,
			Writer: ctx.Writer,
			Parent: parent,
		}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	one := func(*context.Context) []any { return []any{1} }
	inner := aitch.Iterate(one, aitch.Text(func(ctx *context.Context) []byte {
		return []byte(fmt.Sprint(ctx.Parent.Cargo))
	}))
	want(t, render(t, aitch.Iterate(one, inner), nil, "root"), "1")
}
''', needs='nested iterations without data', breaks='the Parent of an inner iteration is not the context of the outer one')

seed(id='iterate-copy-place', prop='C11', edits=[('iterate.go', '''						r[i] = rrv.Index(i).Interface()
''', '''						r[i] = rrv.Index(i &^ (i & 16)).Interface()
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	var items []int
	exp := ""
	for i := 0; i < 20; i++ {
		items = append(items, i)
		exp += fmt.Sprint(i, ";")
	}
	n := aitch.IterateKey("items", aitch.Text(aitch.DynamicValueKey("."), ";"))
	want(t, strings.ReplaceAll(render(t, n, map[string]any{"items": items}, nil), " ", ""), strings.ReplaceAll(exp, " ", ""))
}
''', needs='a typed slice of more than 16 items', breaks='item 16 and later are other items')

seed(id='headers-ci-sort', prop='C04', dir='htmx/', edits=[('htmx/attributes.go', """	"sort"
""", """	"sort"
	"strings"
"""), ('htmx/attributes.go', """	sort.Strings(keys)
""", """	sort.Slice(keys, func(i, j int) bool { return strings.ToLower(keys[i]) < strings.ToLower(keys[j]) })
""")], demo=VOC('htmx') + '''
func TestDemo(t *testing.T) {
	first := ""
	for i := 0; i < 300; i++ {
		s := render(t, htmx.Headers(htmx.HeadersMap{"accept": 1, "Accept": 2, "ACCEPT": 3}), nil, nil)
		if i == 0 {
			first = s
		}
		want(t, s, first)
	}
}
''', needs='two headers whose names differ in case only', breaks='their order depends on map iteration')

seed(id='iterate-map-values', prop='C04', edits=[('iterate.go', """					return r
				}
			}
			return nil
""", """					return r
				} else if rrv.Kind() == reflect.Map {
					var r []any
					for _, k := range rrv.MapKeys() {
						r = append(r, rrv.MapIndex(k).Interface())
					}
					return r
				}
			}
			return nil
""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	first := ""
	for i := 0; i < 300; i++ {
		s := render(t, aitch.IterateKey("m", aitch.Text(aitch.DynamicValueKey("."))), map[string]any{"m": map[string]int{"a": 1, "b": 2, "c": 3}}, nil)
		if i == 0 {
			first = s
		}
		want(t, s, first)
	}
}
''', needs='data that is a map where a slice is documented', breaks='the items are rendered in map order')

seed(id='get-fold', prop='C04', edits=[('context/context.go', """			if v.Type().Key().Kind() == reflect.String {
""", """			if v.Type().Key().Kind() == reflect.String {
				for it := v.MapRange(); it.Next(); {
					if strings.EqualFold(it.Key().String(), key) {
						if typed, ok := it.Value().Interface().(T); ok {
							return typed, true
						}
					}
				}
"""), ('context/context.go', """	"reflect"
""", """	"reflect"
	"strings"
""")], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Text(func(ctx *context.Context) []byte {
		v, _ := context.Get[string](ctx, "name")
		return []byte(v)
	})
	first := ""
	for i := 0; i < 300; i++ {
		s := render(t, n, nil, map[string]string{"name": "a", "Name": "b", "NAME": "c"})
		if i == 0 {
			first = s
		}
		want(t, s, first)
	}
}
''', needs='a cargo map with keys that differ in case only', breaks='the value found depends on map iteration')

GEN = lambda pkg: VOC(pkg).replace('import (\n', 'import (\n	"go/ast"\n	"go/parser"\n	"go/token"\n	"strconv"\n', 1) + '''
// generate returns what is generated, and the texts of its string literals.
func generate(t *testing.T, doc string) (string, []string) {
	t.Helper()
	var b bytes.Buffer
	if err := %s.GenerateCode(strings.NewReader(doc), &b); err != nil {
		t.Fatal(err)
	}
	var lits []string
	f, err := parser.ParseFile(token.NewFileSet(), "", "package x\\n"+b.String(), 0)
	if err != nil {
		t.Fatalf("%%s: not valid Go: %%v\\n%%s", doc, err, b.String())
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
			s, err := strconv.Unquote(l.Value)
			if err != nil {
				t.Fatal(err)
			}
			lits = append(lits, s)
		}
		return true
	})
	return b.String(), lits
}

''' % pkg

seed(id='gen-trim-text', prop='C17', dir='html/', edits=[('html/generator.go', '''			if strings.Trim(token.Data, " \\n\\t") != "" {
				write(`html.Text("` + escape(token.Data) + `"),`)
			}''', '''			if text := strings.Trim(token.Data, "\\n\\t"); strings.Trim(text, " ") != "" {
				write(`html.Text("` + escape(text) + `"),`)
			}''')], demo=GEN('html') + '''
func TestDemo(t *testing.T) {
	if _, l := generate(t, "<pre>\\tone\\n\\ttwo\\n</pre>"); len(l) != 1 || l[0] != "\\tone\\n\\ttwo\\n" {
		t.Fatalf("%q", l)
	}
}
''', needs='text that starts or ends with a tab or line end', breaks='the literal does not hold the text of the document')

seed(id='gen-plain-value', prop='C17', dir='html/', edits=[('html/generator.go', '''					_, err = w.Write([]byte(funcName(attr)))
					_, err = w.Write([]byte{'(', '"'})
					_, err = w.Write([]byte(escape(a.Val)))''', '''					val := a.Val
					if strings.ContainsAny(val, "\\"\\n\\t") {
						val = escape(val)
					}
					_, err = w.Write([]byte(funcName(attr)))
					_, err = w.Write([]byte{'(', '"'})
					_, err = w.Write([]byte(val))''')], demo=GEN('html') + '''
func TestDemo(t *testing.T) {
	if _, l := generate(t, `<input pattern='\\d+'>`); len(l) != 1 || l[0] != `\\d+` {
		t.Fatalf("%q", l)
	}
}
''', needs='a value of a known attribute with a backslash or control character and no quote, tab or line end', breaks='text of the document is copied into the literal without being quoted')

seed(id='gen-raw-comment', prop='C17', dir='svg/', edits=[('svg/generator.go', '''			write(`svg.Comment("` + escape(token.Data) + `"),`)''', '''			if strings.Contains(token.Data, "\\n") && !strings.Contains(token.Data, "`") {
				write("svg.Comment(`" + token.Data + "`),")
			} else {
				write(`svg.Comment("` + escape(token.Data) + `"),`)
			}''')], demo=GEN('svg') + '''
func TestDemo(t *testing.T) {
	if _, l := generate(t, "<!-- a\\n\\x1b\\ufeff b -->"); len(l) != 1 || l[0] != " a\\n\\x1b\\ufeff b " {
		t.Fatalf("%q", l)
	}
}
''', needs='a comment of several lines with a character that a raw literal cannot hold', breaks='the comment is copied into a raw string literal')

seed(id='gen-attr-value-of-first', prop='C17', dir='svg/', edits=[('svg/generator.go', '''				_, err = w.Write([]byte{'(', '"'})
				_, err = w.Write([]byte(escape(a.Val)))
				_, err = w.Write([]byte{'"', ')'})
			} else {''', '''				_, err = w.Write([]byte{'(', '"'})
				for j, o := range attrs {
					if o.Key == a.Key { // repeated attributes: the last one counts
						a.Val = attrs[j].Val
					}
				}
				_, err = w.Write([]byte(escape(a.Val)))
				_, err = w.Write([]byte{'"', ')'})
			} else {''')], demo=GEN('svg') + '''
func TestDemo(t *testing.T) {
	if _, l := generate(t, `<g id="a" id="b"/>`); len(l) != 2 || l[0] != "a" || l[1] != "b" {
		t.Fatalf("%q", l)
	}
}
''', needs='an element with an attribute given twice', breaks='the value that is emitted for an attribute is the value of another')

seed(id='gen-indent-cap', prop='C20', dir='html/', edits=[('html/generator.go', '''		indent = append(indent, tab)
''', '''		if len(indent) < 24 {
			indent = append(indent, tab)
		}
''')], demo=GEN('html') + '''
func TestDemo(t *testing.T) {
	generate(t, strings.Repeat("<div>", 30)+"x"+strings.Repeat("</div>", 30))
}
''', needs='a document nested deeper than 24', breaks='the calls of deeply nested elements are not closed')

seed(id='gen-selfclosing-attrs', prop='C20', dir='svg/', edits=[('svg/generator.go', '''		if selfClosing {
			_, err = w.Write([]byte{')', ','})
		} else if len(attrs) > 0 {
			_, err = w.Write([]byte{','})
		}
		_, err = w.Write([]byte{'\\n'})
		if !selfClosing {
			incIndent()
		}''', '''		if selfClosing {
			_, err = w.Write([]byte{')', ','})
		} else if len(attrs) > 0 {
			_, err = w.Write([]byte{','})
		}
		_, err = w.Write([]byte{'\\n'})
		if !selfClosing || len(attrs) > 8 {
			incIndent()
		}''')], demo=GEN('svg') + '''
func TestDemo(t *testing.T) {
	generate(t, `<svg><path a="1" b="1" c="1" d="1" e="1" f="1" g="1" h="1" i="1"/></svg>`)
}
''', needs='a self closing element with more than eight attributes', breaks='the element counts as open although its call is closed')

seed(id='gen-bool-with-value', prop='C19', dir='html/', edits=[('html/generator.go', '''				if boolAttrs[strings.ToLower(a.Key)] {''', '''				if boolAttrs[strings.ToLower(a.Key)] && (a.Val == "" || strings.EqualFold(a.Val, a.Key)) {''')], demo=GEN('html') + '''
func TestDemo(t *testing.T) {
	if s, _ := generate(t, `<input disabled="true">`); !strings.Contains(s, "html.Disabled()") {
		t.Fatal(s)
	}
}
''', needs='a boolean attribute with a value other than its name', breaks='a value is emitted for a constructor that takes none')

seed(id='gen-xlink', prop='C19', dir='svg/', edits=[('svg/generator.go', '''			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {''', '''			if attr, ok := attrMap[strings.TrimPrefix(strings.ToLower(a.Key), "xlink:")]; ok {''')], demo=GEN('svg') + '''
func TestDemo(t *testing.T) {
	if s, _ := generate(t, `<use xlink:id="#a"/>`); !strings.Contains(s, `"xlink:id"`) {
		t.Fatal(s)
	}
}
''', needs='an attribute of the xlink namespace', breaks='the constructor that is emitted builds an attribute of another name')

seed(id='value-not-nil', prop='C25', edits=[('attribute.go', '''		if something {
			ctx.Write(a.delimiter)
		}
		something, _ = v.render(ctx)''', '''		if something {
			ctx.Write(a.delimiter)
		}
		written, _ := v.render(ctx)
		something = something || written || v.value != nil''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	want(t, render(t, aitch.Element("p", aitch.Class("", "b")), nil, nil), `<p class="b"></p>`)
}
''', needs='an attribute whose first value is an empty string', breaks='a delimiter is written before the first value')

seed(id='delim-merge-concat', prop='C25', edits=[('element.go', '''						for _, e := range eAttr {
							if et, ok := e.(valuesNode); ok {
								use.values = append(use.values, et.getValues()...)
							}
						}''', '''						for _, e := range eAttr {
							if et, ok := e.(valuesNode); ok {
								use.values = append(use.values, Value{concats: et.getValues()})
							}
						}''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Element("p", aitch.Class("a"), aitch.When("x", aitch.Class("b", "c")))
	want(t, render(t, n, map[string]any{"x": true}, nil), `<p class="a b c"></p>`)
}
''', needs='a conditional delimited attribute of several values that is merged with an unconditional one', breaks='the values of the conditional attribute are merged as one value')

seed(id='delim-kept', prop='C25', edits=[('element.go', '''						use.name = at.name
						use.delimiter = at.delimiter
						use.values = use.values[:0]
						use.values = append(use.values, at.values...)
						for i := 1; i < len(ca); i++ {''', '''						use.name = at.name
						if len(use.delimiter) == 0 {
							use.delimiter = at.delimiter
						}
						use.values = use.values[:0]
						use.values = append(use.values, at.values...)
						for i := 1; i < len(ca); i++ {''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Element("p", aitch.When("x", aitch.Class("a", "b"), aitch.DelimitedAttribute("style", ";", "c", "d")))
	want(t, render(t, n, map[string]any{"x": true}, nil), `<p class="a b" style="c;d"></p>`)
}
''', needs='two conditional delimited attributes with different delimiters on one element', breaks='the second one is written with the delimiter of the first')

seed(id='when-all-negations', prop='C10', edits=[('conditional.go', '''		key = key[1:]
''', '''		key = DynamicValueKey(strings.TrimLeft(string(key), "!"))
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Element("p", aitch.When("!!x", "shown"))
	want(t, render(t, n, map[string]any{"!x": false, "x": true}, nil), `<p>shown</p>`)
}
'''.replace('"shown"', 'aitch.Text("shown")'), needs='a negated key that itself starts with an exclamation mark', breaks='When tests another key than the one it was given')

seed(id='cond-collection-inner', prop='C10', edits=[('element.go', '''					addA, addCa, _ := attributesAndContents(conditions, cn.nodes)
''', '''					addA, addCa, _ := attributesAndContents(conditions[:min(1, len(conditions))], cn.nodes)
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Element("p", aitch.When("x", aitch.When("y", aitch.Collection(aitch.Attribute("a", "b")))))
	want(t, render(t, n, map[string]any{"x": true}, nil), `<p></p>`)
	want(t, render(t, n, map[string]any{"x": true, "y": true}, nil), `<p a="b"></p>`)
}
''', needs='an attribute in a collection that is inside two nested conditionals of which only the outer one holds', breaks='the attribute appears although the inner condition is false')

seed(id='cond-same-name', prop='C10', edits=[('conditional.go', '''		if a.evaluate(ctx) {
			name := a.attribute.Name()
			if _, ok := result[name]; !ok {
				names = append(names, name)
			}
''', '''		name := a.attribute.Name()
		n := len(result[name])
		if n > 1 || a.evaluate(ctx) {
			if n == 0 {
				names = append(names, name)
			}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Element("p", aitch.When("x", aitch.Attribute("a", "1")), aitch.When("x", aitch.Attribute("a", "2")), aitch.When("y", aitch.Attribute("a", "3")))
	want(t, render(t, n, map[string]any{"x": true}, nil), `<p a="2"></p>`)
}
''', needs='three conditional attributes of one name of which the first two are shown', breaks='the third attribute is used although its condition is false')

seed(id='cond-evaluate-first-error', prop='C10', edits=[('conditional.go', '''	for _, condition := range a.conditions {
		if !condition(ctx) {
			return false
		}
	}
	return true
''', '''	holds := true
	for i := len(a.conditions) - 1; i >= 0; i-- {
		if i == 0 && holds && len(a.conditions) > 2 {
			break
		}
		holds = holds && a.conditions[i](ctx)
	}
	return holds
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Element("p", aitch.When("x", aitch.When("y", aitch.When("z", aitch.Attribute("a", "1")))))
	want(t, render(t, n, map[string]any{"y": true, "z": true}, nil), `<p></p>`)
}
''', needs='an attribute inside three nested conditionals whose outermost condition is false', breaks='the outermost condition is not tested')

seed(id='delim-nothing-written', prop='C07', edits=[('attribute.go', '''		something, _ = v.render(ctx)
	}
	ctx.Write(attEnd)
	return ctx.Error
}''', '''		something, _ = v.render(ctx)
		if v.dynamicFunc != nil && !something {
			return ctx.Error
		}
	}
	ctx.Write(attEnd)
	return ctx.Error
}''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Element("p", aitch.Class("a", aitch.DynamicValueKey("missing")))
	s := render(t, n, nil, nil)
	if strings.Count(s, "\\"") != 2 {
		t.Fatal(s)
	}
}
''', needs='a delimited attribute with a dynamic value that renders nothing', breaks='the value of the attribute is not closed')

seed(id='endall-half', prop='C07', edits=[('imperative.go', '''	for i := len(ic.openedStack) - 1; i >= 0; i-- {
		ic.ctx.Write(closeTagStart)
		ic.ctx.Write(ic.openedStack[i])
		ic.ctx.Write(closeAngleBracket)
	}
	ic.openedStack = nil
''', '''	for i := 0; i <= len(ic.openedStack); i++ {
		ic.End()
	}
	ic.openedStack = nil
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Imperative(func(ctx aitch.ImperativeContext) error {
		for _, s := range []string{"a", "b", "c", "d"} {
			ctx.Start([]byte(s), false)
		}
		ctx.EndAll()
		return nil
	})
	want(t, render(t, n, nil, nil), `<a><b><c><d></d></c></b></a>`)
}
''', needs='EndAll with four started elements', breaks='elements that were started first are not ended')

seed(id='empty-self-closed', prop='C07', edits=[('element.go', '''	ctx.Write(closeAngleBracket)
	for _, c := range e.contents {
		renderNode(ctx, c)
	}
''', '''	if len(e.contents) == 0 && e.name[len(e.name)-1] == ':' {
		ctx.Write([]byte{'/', '>'})
		return ctx.Error
	}
	ctx.Write(closeAngleBracket)
	for _, c := range e.contents {
		renderNode(ctx, c)
	}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Element("p:", aitch.Attribute("a", "b"))
	want(t, render(t, n, nil, nil), `<p: a="b"></p:>`)
}
''', needs='an element without contents whose name ends with a colon', breaks='an element that is not void has no end tag')

seed(id='comment-unclosed', prop='C07', edits=[('comment.go', '''	for _, v := range c.values {
		_, _ = v.render(ctx)
	}
	ctx.Write(closeComment)
''', '''	something := len(c.values) == 0
	for _, v := range c.values {
		written, _ := v.render(ctx)
		something = something || written
	}
	if something {
		ctx.Write(closeComment)
	}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	want(t, render(t, aitch.Comment(""), nil, nil), `<!---->`)
}
''', needs='a comment whose values are all empty', breaks='the comment is not closed')

seed(id='yield-attr', prop='C08', edits=[('iterate.go', '''	result := &yieldIterator{
		fn:    fn,
		nodes: make([]Node, 0, len(nodes)),
	}
	for _, n := range nodes {
		if n != nil && n.Type() != AttributeNode {''', '''	result := &yieldIterator{
		fn:    fn,
		nodes: make([]Node, 0, len(nodes)),
	}
	for i, n := range nodes {
		if n != nil && (n.Type() != AttributeNode || i > 0) {''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.IterateYield(func(ctx *context.Context, yield func(any)) { yield(1) }, aitch.Text("x"), aitch.Attribute("a", "b"))
	want(t, render(t, n, nil, nil), `x`)
}
''', needs='an attribute after other nodes in IterateYield', breaks='an attribute is rendered in content')

seed(id='conditional-bool-attr', prop='C08', edits=[('conditional.go', '''		if n.Type() == AttributeNode {
			result.attributes = append(result.attributes, n)
		} else {
			result.nodes = append(result.nodes, n)
		}
''', '''		switch n.(type) {
		case *attribute, *delimitedAttribute, *booleanAttribute:
			result.attributes = append(result.attributes, n)
		default:
			result.nodes = append(result.nodes, n)
		}
''')], demo=ROOT + '''
type myAttr struct{}

func (myAttr) Render(ctx *context.Context) error { ctx.Write([]byte(" mine")); return ctx.Error }
func (myAttr) Type() aitch.NodeType              { return aitch.AttributeNode }
func (myAttr) Name() string                      { return "mine" }

func TestDemo(t *testing.T) {
	n := aitch.Element("p", aitch.When("x", myAttr{}))
	if s := render(t, n, map[string]any{"x": true}, nil); strings.Count(s, "mine") != 1 {
		t.Fatal(s)
	}
}
''', needs="an attribute node of the user's own type inside a conditional", breaks='the attribute is rendered as content')

seed(id='collector-first', prop='C08', edits=[('collection.go', '''		if n != nil && n.Type() != AttributeNode {
			renderNode(ctx, n)
		}
''', '''		if n == nil {
			continue
		}
		if c, ok := n.(*collection); ok {
			for _, cn := range c.nodes {
				renderNode(ctx, cn)
			}
		} else if n.Type() != AttributeNode {
			renderNode(ctx, n)
		}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
		return []aitch.Node{aitch.Collection(aitch.Attribute("a", "b"), aitch.Text("x"))}
	})
	want(t, render(t, n, nil, nil), `x`)
}
''', needs='a collector that returns a collection with an attribute', breaks='the attribute is rendered in content')

seed(id='nested-found-none', prop='C26', edits=[('element.go', '''					_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
					condAttrs = append(condAttrs, addCa...)
''', '''					if len(conditions) < 2 {
						_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
						condAttrs = append(condAttrs, addCa...)
					}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	yes := func(ctx *context.Context) bool { return true }
	n := aitch.Element("p", aitch.Conditional(yes, aitch.Conditional(yes, aitch.Attribute("id", "x"), aitch.Conditional(yes, aitch.Collection(aitch.Attribute("title", "y"))))))
	want(t, render(t, n, nil, nil), `<p id="x" title="y"></p>`)
}
''', needs='a collection with an attribute in three nested conditionals', breaks='the attributes of the collection are not in the start tag')

seed(id='collection-flatten', prop='C26', edits=[('collection.go', '''		if n != nil {
			result.nodes = append(result.nodes, n)
		}
	}
	return result
}
''', '''		if n == nil {
			continue
		}
		if c, ok := n.(*collection); ok && len(c.nodes) > 2 {
			// nested collections are laid out flat
			result.nodes = append(result.nodes, c.nodes[:min(len(c.nodes), 16)]...)
			continue
		}
		result.nodes = append(result.nodes, n)
	}
	return result
}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	var nodes []aitch.Node
	for i := 0; i < 20; i++ {
		nodes = append(nodes, aitch.Text("a"))
	}
	want(t, render(t, aitch.Collection(aitch.Collection(nodes...), aitch.Text("d")), nil, nil), strings.Repeat("a", 20)+"d")
}
''', needs='a collection of more than sixteen nodes in a collection', breaks='the nodes of the nested collection that do not fit are dropped')

seed(id='value-stops-at-node', prop='C26', edits=[('value.go', '''				for _, node := range cn.nodes {
					result = append(result, newValue(node)...)
				}
''', '''				for _, node := range cn.nodes {
					values := newValue(node)
					if len(values) == 0 {
						break
					}
					result = append(result, values...)
				}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	c := aitch.Collection(aitch.Text("a"), aitch.Collection(), aitch.Text("b"))
	want(t, render(t, aitch.Text(c), nil, nil), "ab")
}
''', needs='a collection used as a value in which a node without values comes before others', breaks='the values after it are lost')

seed(id='yield-nil-ends', prop='C26', edits=[('iterate.go', '''	result := &yieldIterator{
		fn:    fn,
		nodes: make([]Node, 0, len(nodes)),
	}
	for _, n := range nodes {
		if n != nil && n.Type() != AttributeNode {
			result.nodes = append(result.nodes, n)
		}
	}
''', '''	result := &yieldIterator{
		fn:    fn,
		nodes: make([]Node, 0, len(nodes)),
	}
	for _, n := range nodes {
		if n == nil {
			break
		}
		if n.Type() != AttributeNode {
			result.nodes = append(result.nodes, n)
		}
	}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.IterateYield(func(ctx *context.Context, yield func(any)) { yield(1) }, aitch.Text("a"), nil, aitch.Text("b"))
	want(t, render(t, n, nil, nil), "ab")
}
''', needs='a nil node before others', breaks='the nodes after a nil node are lost')

seed(id='void-only-conditional', prop='C26', edits=[('element.go', '''	result := &voidElement{
		name:         name,
		attributes:   make([]Node, 0, len(attrs)),
		attIndices:   make(map[string]int, len(attrs)),
		conditionals: condAttrs,
	}
	return result.addAttributes(attrs)
''', '''	result := &voidElement{name: name}
	if len(attrs) == 0 {
		return result
	}
	result.attributes = make([]Node, 0, len(attrs))
	result.attIndices = make(map[string]int, len(attrs))
	result.conditionals = condAttrs
	return result.addAttributes(attrs)
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.VoidElement("br", aitch.When("!k", aitch.Attribute("id", "x")))
	want(t, render(t, n, nil, nil), `<br id="x">`)
}
''', needs='a void element whose attributes are all conditional', breaks='its attributes are lost')

seed(id='conditional-attr-after-content', prop='C26', edits=[('conditional.go', '''		if n.Type() == AttributeNode {
			result.attributes = append(result.attributes, n)
		} else {
''', '''		if n.Type() == AttributeNode {
			if len(result.nodes) < 2 {
				result.attributes = append(result.attributes, n)
			}
		} else {
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.Element("p", aitch.When("!k", aitch.Text("t"), aitch.Text("u"), aitch.Attribute("id", "x")))
	want(t, render(t, n, nil, nil), `<p id="x">tu</p>`)
}
''', needs='an attribute after content in a conditional', breaks='the attribute is lost')

seed(id='cond-merge-restart', prop='C26', edits=[('element.go', '''							if et, ok := e.(valuesNode); ok {
								use.values = append(use.values, et.getValues()...)
							}
						}
						_ = use.Render(ctx)
					default:
						renderNode(ctx, eAttr[len(eAttr)-1])
''', '''							if et, ok := e.(valuesNode); ok {
								use.values = append(at.values[:len(at.values):len(at.values)], et.getValues()...)
							}
						}
						_ = use.Render(ctx)
					default:
						renderNode(ctx, eAttr[len(eAttr)-1])
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	yes := func(ctx *context.Context) bool { return true }
	class := func(v any) aitch.Node { return aitch.DelimitedAttribute("class", " ", v) }
	n := aitch.Element("p", class("a"), aitch.Conditional(yes, class("b")), aitch.Conditional(yes, class("c")))
	want(t, render(t, n, nil, nil), `<p class="a b c"></p>`)
}
''', needs='a delimited attribute and two conditional ones of the same name that both hold', breaks='only the values of the last of them are in the start tag')

seed(id='document-single-head', prop='C26', edits=[('html/document.go', '''	if len(head) > 0 {
		headNode = Head(head...)
	}
''', '''	if len(head) > 0 && head[0] != nil {
		headNode = Head(head...)
	}
''')], dir='html/', demo=VOC('html') + '''
func TestDemo(t *testing.T) {
	n := html.Document(nil, []any{nil, html.Meta()}, nil)
	want(t, render(t, n, nil, nil), "<!DOCTYPE html>\\n<html><head><meta></head><body></body></html>")
}
''', needs='a document whose first head content is nil', breaks='the whole head is lost')

seed(id='once-long-name', prop='C09', edits=[('element.go', '''func (e *element) addAttributes(attrs []Node) Node {
	for _, att := range attrs {
		name := att.Name()
''', '''func (e *element) addAttributes(attrs []Node) Node {
	for _, att := range attrs {
		name := att.Name()
		if len(name) > 24 {
			// keys of the index are kept short
			name = name[:24]
		}
''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	yes := func(ctx *context.Context) bool { return true }
	n := aitch.Element("p", aitch.Attribute("data-controller-target-name", 1),
		aitch.Conditional(yes, aitch.Attribute("data-controller-target-name", 2)))
	want(t, render(t, n, nil, nil), `<p data-controller-target-name="2"></p>`)
}
''', needs='a conditional attribute that repeats a static one whose name is longer than 24 bytes', breaks='the start tag has the attribute twice')

seed(id='once-own-position', prop='C09', edits=[('element.go', '''if _, ok := attIndices[name]; !ok && len(ca) > 0 {''', '''if idx, ok := attIndices[name]; len(ca) > 0 && (!ok || idx >= len(names)+2) {''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	yes := func(ctx *context.Context) bool { return true }
	n := aitch.Element("p", aitch.Attribute("a", 1), aitch.Attribute("b", 1), aitch.Attribute("c", 1), aitch.Attribute("d", 1),
		aitch.Conditional(yes, aitch.Attribute("d", 2)))
	want(t, render(t, n, nil, nil), `<p a="1" b="1" c="1" d="2"></p>`)
}
''', needs='a conditional attribute that repeats a static one which stands behind several others', breaks='the start tag has the attribute twice')

seed(id='once-index-limited', prop='C09', edits=[('element.go', '''func (e *element) addAttributes(attrs []Node) Node {''', '''const indexed = 8 // repeated attributes are looked for among the first ones

func (e *element) addAttributes(attrs []Node) Node {'''), ('element.go', '''			e.attIndices[name] = len(e.attributes)
			e.attributes = append(e.attributes, att)
		}
	}
	return e
}

// Element declares''', '''			if e.attributes = append(e.attributes, att); len(e.attributes) <= indexed {
				e.attIndices[name] = len(e.attributes) - 1
			}
		}
	}
	return e
}

// Element declares''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	var as []any
	exp := "<p"
	for i := 0; i < 10; i++ {
		as = append(as, aitch.Attribute(fmt.Sprintf("a%%d", i), i))
		exp += fmt.Sprintf(" a%%d=\\"%%d\\"", i, i)
	}
	as = append(as, aitch.Attribute("a9", 9))
	want(t, render(t, aitch.Element("p", as...), nil, nil), exp+"></p>")
}
'''.replace('%%','%'), needs='a repeated attribute behind more than eight others', breaks='the start tag has the attribute twice')

seed(id='once-merge-large', prop='C09', edits=[('element.go', '''func (e *voidElement) addAttributes(attrs []Node) Node {
	for _, att := range attrs {
		name := att.Name()
		if idx, ok := e.attIndices[name]; ok {
			existing := e.attributes[idx]
			if delimited, ok := existing.(*delimitedAttribute); ok {''', '''func (e *voidElement) addAttributes(attrs []Node) Node {
	for _, att := range attrs {
		name := att.Name()
		if idx, ok := e.attIndices[name]; ok {
			existing := e.attributes[idx]
			if delimited, ok := existing.(*delimitedAttribute); ok && len(delimited.values) < 8 {''')], demo=ROOT + '''
func TestDemo(t *testing.T) {
	n := aitch.VoidElement("br", aitch.DelimitedAttribute("class", " ", 1, 2, 3, 4, 5, 6, 7, 8), aitch.DelimitedAttribute("class", " ", 9))
	want(t, render(t, n, nil, nil), `<br class="1 2 3 4 5 6 7 8 9">`)
}
''', needs='a void element with a delimited attribute of eight values that is repeated', breaks='the values of the attribute before are lost instead of merged')

ALLOCS = ROOT + '''
func allocs(t *testing.T, n aitch.Node) float64 {
	t.Helper()
	ctx := context.New(io.Discard, nil, nil)
	return testing.AllocsPerRun(100, func() {
		if err := n.Render(ctx); err != nil {
			t.Fatal(err)
		}
	})
}
'''

seed(id='alloc-eager-evaluate', prop='C22', edits=[('element.go', '''	if len(conditionals) > 0 {
		if evaluated, names := conditionals.evaluate(ctx); len(evaluated) > 0 {''', '''	if conditionals != nil {
		if evaluated, names := conditionals.evaluate(ctx); len(evaluated) > 0 {''')], demo=ALLOCS + '''
func TestDemo(t *testing.T) {
	if n := allocs(t, aitch.Element("p", aitch.Attribute("a", 1), "x")); n != 0 {
		t.Fatal(n, "allocations")
	}
}
''', needs='any static element: its list of conditional attributes is empty but not nil', breaks='rendering a static element makes a map')

seed(id='alloc-name-in-collection', prop='C22', edits=[('collection.go', '''	for _, n := range c.nodes {
		if n.Type() != AttributeNode {
''', '''	for _, n := range c.nodes {
		if n.Type() != AttributeNode && n.Name() != "" {
''')], demo=ALLOCS + '''
func TestDemo(t *testing.T) {
	c := aitch.Collection(aitch.Element("a-custom-element-with-a-very-long-name-indeed", "x"))
	if n := allocs(t, c); n != 0 {
		t.Fatal(n, "allocations")
	}
}
''', needs='a static collection that holds elements', breaks='rendering the collection makes a string for each element')

seed(id='alloc-concat-joined', prop='C22', edits=[('value.go', '''		for _, concat := range v.concats {
			if written, _ := concat.render(ctx); written {
				something = true
			}
		}
''', '''		var joined []byte
		for _, concat := range v.concats {
			if concat.dynamicFunc == nil && concat.concats == nil {
				joined = append(joined, concat.value...)
				continue
			}
			if ctx.Write(joined); len(joined) > 0 {
				something = true
			}
			joined = joined[:0]
			if written, _ := concat.render(ctx); written {
				something = true
			}
		}
		ctx.Write(joined)
		something = something || len(joined) > 0
''')], demo=ALLOCS + '''
func TestDemo(t *testing.T) {
	if n := allocs(t, aitch.Attribute("style", aitch.NewConcatValue("a", "b", "c"))); n != 0 {
		t.Fatal(n, "allocations")
	}
}
''', needs='a static attribute with a concatenated value', breaks='rendering the attribute grows a slice')
