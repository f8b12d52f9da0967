# Edits that keep the behaviour; every check has to stay quiet on them.
R = {}

R['a'] = [
 # attribute values rendered by a helper
 ('attribute.go', '''	for _, v := range a.values {
		_, _ = v.render(ctx)
	}
	ctx.Write(attEnd)
	return ctx.Error
}

func (a *attribute) Type''', '''	renderValues(ctx, a.values)
	ctx.Write(attEnd)
	return ctx.Error
}

func renderValues(ctx *context.Context, values []Value) {
	for i := 0; i < len(values); i++ {
		_, _ = values[i].render(ctx)
	}
}

func (a *attribute) Type'''),
 ('comment.go', '''	for _, v := range c.values {
		_, _ = v.render(ctx)
	}
''', '''	renderValues(ctx, c.values)
'''),
 ('text.go', '''	for _, v := range t.values {
		_, _ = v.render(ctx)
	}
''', '''	renderValues(ctx, t.values)
'''),
 # delimiter loop by index
 ('attribute.go', '''	something := false
	for _, v := range a.values {
		if something {
			ctx.Write(a.delimiter)
		}
		something, _ = v.render(ctx)
	}
''', '''	pending := false
	for i := range a.values {
		if pending {
			ctx.Write(a.delimiter)
		}
		written, _ := a.values[i].render(ctx)
		pending = written
	}
'''),
 # collection filters by negative test
 ('collection.go', '''		if n.Type() != AttributeNode {
			if renderNode(ctx, n); ctx.Error != nil {
				return ctx.Error
			}
		}
''', '''		if n.Type() == AttributeNode {
			continue
		}
		renderNode(ctx, n)
		if ctx.Error != nil {
			break
		}
'''),
 # value.render as early returns
 ('value.go', '''	something := false
	if v.dynamicFunc != nil {
		data := v.dynamicFunc(ctx)
		ctx.Write(data)
		something = len(data) > 0
	} else if len(v.concats) > 0 {
		for _, concat := range v.concats {
			if written, _ := concat.render(ctx); written {
				something = true
			}
		}
	} else {
		ctx.Write(v.value)
		something = len(v.value) > 0
	}
	return something, ctx.Error
''', '''	switch {
	case v.dynamicFunc != nil:
		data := v.dynamicFunc(ctx)
		ctx.Write(data)
		return len(data) > 0, ctx.Error
	case len(v.concats) > 0:
		something := false
		for _, concat := range v.concats {
			written, _ := concat.render(ctx)
			something = something || written
		}
		return something, ctx.Error
	}
	ctx.Write(v.value)
	return len(v.value) > 0, ctx.Error
'''),
 # When with a helper
 ('conditional.go', '''	return Conditional(func(ctx *context.Context) bool {
		if v, ok := ctx.Data[string(key)]; ok {
			if b, ok := v.(bool); ok {
				return b
			}
			return true
		}
		return false
	}, nodes...)
''', '''	return Conditional(func(ctx *context.Context) bool {
		return truthy(ctx.Data, string(key))
	}, nodes...)
'''),
 ('conditional.go', '''		return Conditional(func(ctx *context.Context) bool {
			if v, ok := ctx.Data[string(key)]; ok {
				if b, ok := v.(bool); ok {
					return !b
				}
				return false
			}
			return true
		}, nodes...)
	}
''', '''		return Conditional(func(ctx *context.Context) bool {
			return !truthy(ctx.Data, string(key))
		}, nodes...)
	}
'''),
 ('conditional.go', '''// When creates''', '''func truthy(data map[string]any, key string) bool {
	v, ok := data[key]
	if !ok {
		return false
	}
	if b, isBool := v.(bool); isBool {
		return b
	}
	return true
}

// When creates'''),
 # context.Write
 ('context/context.go', '''	if c.Error == nil {
		_, c.Error = c.Writer.Write(data)
	}
''', '''	if c.Error != nil {
		return
	}
	if _, err := c.Writer.Write(data); err != nil {
		c.Error = err
	}
'''),
 # headers
 ('htmx/attributes.go', '''	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	delimit := ""
	for _, key := range keys {
		result = append(result, []byte(delimit+`'`), key, []byte(`': `), m[key])
		delimit = ", "
	}
	result = append(result, []byte{'}'})
	return result
}
''', '''	for i, key := range m.sortedKeys() {
		if i > 0 {
			result = append(result, []byte(`, '`))
		} else {
			result = append(result, []byte(`'`))
		}
		result = append(result, key, []byte(`': `), m[key])
	}
	return append(result, []byte{'}'})
}

func (m HeadersMap) sortedKeys() []string {
	keys := make([]string, len(m))
	i := 0
	for k := range m {
		keys[i] = k
		i++
	}
	sort.Slice(keys, func(a, b int) bool { return keys[a] < keys[b] })
	return keys
}
'''),
 # css
 ('css/properties.go', '''	return aitch.NewDelimitedAttribute(attrStyle, stylesDelim, aitch.NewConcatValue(append([]any{name}, value...)...))
''', '''	parts := make([]any, 0, len(value)+1)
	parts = append(parts, name)
	parts = append(parts, value...)
	v := aitch.NewConcatValue(parts...)
	return aitch.NewDelimitedAttribute(attrStyle, stylesDelim, v)
'''),
]

R['b'] = [
 # shared addAttributes
 ('element.go', '''func (e *voidElement) addAttributes(attrs []Node) Node {
	for _, att := range attrs {
		name := att.Name()
		if idx, ok := e.attIndices[name]; ok {
			existing := e.attributes[idx]
			if delimited, ok := existing.(*delimitedAttribute); ok {
				if addD, ok := att.(*delimitedAttribute); ok {
					// merge into a new attribute - the existing one may be shared with other elements
					att = &delimitedAttribute{
						name:      delimited.name,
						delimiter: delimited.delimiter,
						values:    slices.Concat(delimited.values, addD.values),
					}
				}
			}
			e.attributes[idx] = att
		} else {
			e.attIndices[name] = len(e.attributes)
			e.attributes = append(e.attributes, att)
		}
	}
	return e
}
''', '''func (e *voidElement) addAttributes(attrs []Node) Node {
	for i := range attrs {
		e.attributes = mergeAttribute(e.attributes, e.attIndices, attrs[i])
	}
	return e
}

// mergeAttribute adds the attribute to the list - or replaces (or merges with) the one of the same name
func mergeAttribute(list []Node, indices map[string]int, att Node) []Node {
	name := att.Name()
	idx, ok := indices[name]
	if !ok {
		indices[name] = len(list)
		return append(list, att)
	}
	list[idx] = mergedAttribute(list[idx], att)
	return list
}

func mergedAttribute(existing Node, att Node) Node {
	delimited, ok := existing.(*delimitedAttribute)
	if !ok {
		return att
	}
	addD, ok := att.(*delimitedAttribute)
	if !ok {
		return att
	}
	values := make([]Value, 0, len(delimited.values)+len(addD.values))
	values = append(values, delimited.values...)
	values = append(values, addD.values...)
	return &delimitedAttribute{name: delimited.name, delimiter: delimited.delimiter, values: values}
}
'''),
 # render of the element by helpers
 ('element.go', '''	ctx.Write(openAngleBracket)
	ctx.Write(e.name)
	renderAttributes(ctx, e.attributes, e.attIndices, e.conditionals)
	ctx.Write(closeAngleBracket)
	for _, c := range e.contents {
		renderNode(ctx, c)
	}
	ctx.Write(closeTagStart)
	ctx.Write(e.name)
	ctx.Write(closeAngleBracket)
	return ctx.Error
''', '''	e.start(ctx)
	for _, c := range e.contents {
		renderNode(ctx, c)
	}
	e.end(ctx)
	return ctx.Error
}

func (e *element) start(ctx *context.Context) {
	ctx.Write(openAngleBracket)
	ctx.Write(e.name)
	renderAttributes(ctx, e.attributes, e.attIndices, e.conditionals)
	ctx.Write(closeAngleBracket)
}

func (e *element) end(ctx *context.Context) {
	ctx.Write(closeTagStart)
	ctx.Write(e.name)
	ctx.Write(closeAngleBracket)
'''),
 # contentsToNodes
 ('element.go', '''	result := make([]Node, len(contents))
	for i, c := range contents {
		switch v := c.(type) {
		case Node:
			result[i] = v
		default:
			result[i] = Text(c)
		}
	}
	return result
''', '''	result := make([]Node, 0, len(contents))
	for _, c := range contents {
		if n, ok := c.(Node); ok {
			result = append(result, n)
			continue
		}
		result = append(result, Text(c))
	}
	return result
'''),
 # attributesAndContents with early continue
 ('element.go', '''		if item != nil {
			if item.Type() == AttributeNode {
				if len(conditions) > 0 {
					condAttrs = append(condAttrs, conditionalAttribute{
						attribute:  item,
						conditions: conditions,
					})
				} else {
					attrs = append(attrs, item)
				}
			} else {
				contents = append(contents, item)
				switch cn := item.(type) {
				case *collection:
					addA, addCa, _ := attributesAndContents(conditions, cn.nodes)
					attrs = append(attrs, addA...)
					condAttrs = append(condAttrs, addCa...)
				case *conditional:
					newConditions := append(slices.Clip(conditions), cn.fn)
					for _, a := range cn.attributes {
						condAttrs = append(condAttrs, conditionalAttribute{
							attribute:  a,
							conditions: newConditions,
						})
					}
					_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
					condAttrs = append(condAttrs, addCa...)
				}
			}
		}
''', '''		if item == nil {
			continue
		}
		if item.Type() == AttributeNode {
			if len(conditions) == 0 {
				attrs = append(attrs, item)
				continue
			}
			condAttrs = append(condAttrs, conditionalAttribute{attribute: item, conditions: conditions})
			continue
		}
		contents = append(contents, item)
		if cn, ok := item.(*collection); ok {
			addA, addCa, _ := attributesAndContents(conditions, cn.nodes)
			attrs = append(attrs, addA...)
			condAttrs = append(condAttrs, addCa...)
		} else if cn, ok := item.(*conditional); ok {
			newConditions := make([]ConditionalFunc, 0, len(conditions)+1)
			newConditions = append(newConditions, conditions...)
			newConditions = append(newConditions, cn.fn)
			for _, a := range cn.attributes {
				condAttrs = append(condAttrs, conditionalAttribute{attribute: a, conditions: newConditions})
			}
			_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
			condAttrs = append(condAttrs, addCa...)
		}
'''),
 # name checks in a helper
 ('attribute.go', '''	if htmlTagRegex.MatchString(name) {
		return NewAttribute([]byte(name), values...)
	} else if PanicOnInvalidName {
		panic("invalid html attribute name: " + name)
	}
	return nil
}
''', '''	if !validName(name, "attribute") {
		return nil
	}
	return NewAttribute([]byte(name), values...)
}

// validName checks the name (and panics with invalid names when PanicOnInvalidName is true)
func validName(name string, what string) bool {
	ok := htmlTagRegex.MatchString(name)
	if !ok && PanicOnInvalidName {
		panic("invalid html " + what + " name: " + name)
	}
	return ok
}
'''),
 ('attribute.go', '''	if htmlTagRegex.MatchString(name) {
		return NewBooleanAttribute([]byte(name))
	} else if PanicOnInvalidName {
		panic("invalid html attribute name: " + name)
	}
	return nil
''', '''	if validName(name, "attribute") {
		return NewBooleanAttribute([]byte(name))
	}
	return nil
'''),
 # newValue's key closures in functions
 ('value.go', '''			return []Value{{nil, func(ctx *context.Context) (result []byte) {
				if ctx != nil {
					result = valueToBytes(ctx.Cargo)
				}
				return
			}, nil}}
''', '''			return []Value{{dynamicFunc: cargoValue}}
'''),
 ('value.go', '''		return []Value{{nil, func(ctx *context.Context) []byte {
			if ctx != nil {
				if dv, ok := ctx.Data[string(vt)]; ok {
					return valueToBytes(dv)
				}
			}
			return nil
		}, nil}}
''', '''		return []Value{{dynamicFunc: dataValue(string(vt))}}
'''),
 ('value.go', '''func valueToBytes(v any)''', '''func cargoValue(ctx *context.Context) []byte {
	if ctx == nil {
		return nil
	}
	return valueToBytes(ctx.Cargo)
}

func dataValue(key string) DynamicValueFunc {
	return func(ctx *context.Context) []byte {
		if ctx == nil {
			return nil
		}
		dv, ok := ctx.Data[key]
		if !ok {
			return nil
		}
		return valueToBytes(dv)
	}
}

func valueToBytes(v any)'''),
 # escaping with a table
 ('value.go', '''		var html []byte
		switch c {
		case '\\000':
			html = htmlNull
		case '"':
			html = htmlQuot
		case '\\'':
			html = htmlApos
		case '&':
			html = htmlAmp
		case '<':
			html = htmlLt
		case '>':
			html = htmlGt
		default:
			continue
		}
		_, _ = b.Write(sb[last:i])
		_, _ = b.Write(html)
		last = i + 1
''', '''		if html, special := htmlEntity(c); special {
			b.Write(sb[last:i])
			b.Write(html)
			last = i + 1
		}
'''),
 ('value.go', '''func htmlEscapeString(s string)''', '''func htmlEntity(c byte) ([]byte, bool) {
	switch c {
	case '\\000':
		return htmlNull, true
	case '"':
		return htmlQuot, true
	case '\\'':
		return htmlApos, true
	case '&':
		return htmlAmp, true
	case '<':
		return htmlLt, true
	case '>':
		return htmlGt, true
	}
	return nil, false
}

func htmlEscapeString(s string)'''),
]

R['c'] = [
 # iterators share a helper
 ('iterate.go', '''			ictx.Cargo = item
			if mi, ok := item.(map[string]any); ok {
				ictx.Data = mi
			} else {
				ictx.Data = ctx.Data
			}
			for _, n := range i.nodes {
				if renderNode(ictx, n); ictx.Error != nil {
					ctx.Error = ictx.Error
					return ctx.Error
				}
			}
''', '''			setItem(ictx, ctx, item)
			if !renderItem(ictx, i.nodes) {
				ctx.Error = ictx.Error
				return ctx.Error
			}
'''),
 ('iterate.go', '''		ictx.Cargo = item
		if mi, ok := item.(map[string]any); ok {
			ictx.Data = mi
		} else {
			ictx.Data = ctx.Data
		}
		for _, n := range i.nodes {
			if renderNode(ictx, n); ictx.Error != nil {
				ctx.Error = ictx.Error
				return
			}
		}
''', '''		setItem(ictx, ctx, item)
		if !renderItem(ictx, i.nodes) {
			ctx.Error = ictx.Error
		}
'''),
 ('iterate.go', '''// IterateYield creates''', '''// setItem makes the item the current one
func setItem(ictx *context.Context, outer *context.Context, item any) {
	ictx.Data = outer.Data
	if mi, ok := item.(map[string]any); ok {
		ictx.Data = mi
	}
	ictx.Cargo = item
}

// renderItem renders the nodes for the current item - and reports whether that succeeded
func renderItem(ictx *context.Context, nodes []Node) bool {
	for _, n := range nodes {
		renderNode(ictx, n)
		if ictx.Error != nil {
			return false
		}
	}
	return true
}

// IterateYield creates'''),
 # IterateKey through Iterate's type
 ('iterate.go', '''			if rv, ok := ctx.Data[key]; ok {
				if sv, ok := rv.([]any); ok {
					return sv
				} else if rrv := reflect.ValueOf(rv); rrv.Kind() == reflect.Slice && rrv.Len() > 0 {
					l := rrv.Len()
					r := make([]any, l)
					for i := 0; i < l; i++ {
						r[i] = rrv.Index(i).Interface()
					}
					return r
				}
			}
			return nil
''', '''			rv, ok := ctx.Data[key]
			if !ok {
				return nil
			}
			return toItems(rv)
'''),
 ('iterate.go', '''type iterator struct {''', '''func toItems(rv any) []any {
	switch sv := rv.(type) {
	case []any:
		return sv
	}
	rrv := reflect.ValueOf(rv)
	if rrv.Kind() != reflect.Slice {
		return nil
	}
	var r []any
	for i := 0; i < rrv.Len(); i++ {
		r = append(r, rrv.Index(i).Interface())
	}
	return r
}

type iterator struct {'''),
 # template
 ('template.go', '''	if node.Type() == AttributeNode {
		return func(ctx *context.Context) (template.HTMLAttr, error) {
			renderNode(ctx, node)
			return "", ctx.Error
		}
	} else {
		return func(ctx *context.Context) (template.HTML, error) {
			renderNode(ctx, node)
			return "", ctx.Error
		}
	}
''', '''	if node.Type() != AttributeNode {
		return func(ctx *context.Context) (template.HTML, error) {
			err := renderBound(ctx, node)
			return "", err
		}
	}
	return func(ctx *context.Context) (template.HTMLAttr, error) {
		err := renderBound(ctx, node)
		return "", err
	}
'''),
 ('template.go', '''func contextFunc(node Node) any {''', '''func renderBound(ctx *context.Context, node Node) error {
	renderNode(ctx, node)
	return ctx.Error
}

func contextFunc(node Node) any {'''),
 ('template.go', '''	ctx := &context.Context{
		Data:   data,
		Cargo:  cargo,
		Writer: wr,
	}
	return t.template.Execute(wr, ctx)
''', '''	return t.template.Execute(wr, context.New(wr, data, cargo))
'''),
 ('template.go', '''	for k, v := range nodeMap {
		if v != nil {
			result[k] = contextFunc(v)
		}
	}
''', '''	for k, v := range nodeMap {
		if v == nil {
			continue
		}
		fn := contextFunc(v)
		result[k] = fn
	}
'''),
 ('template.go', '''	var err error
	var tmp *template.Template
	var result *Template
	if tmp, err = template.New(name).Funcs(contextFuncMap(nodeMap)).Parse(text); err == nil {
		result = &Template{
			template: tmp,
		}
	}
	return result, err
''', '''	funcs := contextFuncMap(nodeMap)
	tmp, err := template.New(name).Funcs(funcs).Parse(text)
	if err != nil {
		return nil, err
	}
	return &Template{template: tmp}, nil
'''),
 # imperative
 ('imperative.go', '''	for i := len(ic.openedStack) - 1; i >= 0; i-- {
		ic.ctx.Write(closeTagStart)
		ic.ctx.Write(ic.openedStack[i])
		ic.ctx.Write(closeAngleBracket)
	}
	ic.openedStack = nil
''', '''	for len(ic.openedStack) > 0 {
		ic.End()
	}
'''),
 ('imperative.go', '''	if l := len(ic.openedStack); l > 0 {
		l--
		ic.ctx.Write(closeTagStart)
		ic.ctx.Write(ic.openedStack[l])
		ic.ctx.Write(closeAngleBracket)
		ic.openedStack = ic.openedStack[:l]
	}
''', '''	if len(ic.openedStack) == 0 {
		return
	}
	last := len(ic.openedStack) - 1
	name := ic.openedStack[last]
	ic.openedStack = ic.openedStack[:last]
	ic.ctx.Write(closeTagStart)
	ic.ctx.Write(name)
	ic.ctx.Write(closeAngleBracket)
'''),
 ('imperative.go', '''	for _, attr := range attrs {
		if attr != nil && attr.Type() == AttributeNode {
			attributes = append(attributes, attr)
		}
	}
	tag := &voidElement{
		name:       elementName,
		attributes: make([]Node, 0, len(attributes)),
		attIndices: make(map[string]int, len(attributes)),
	}
	_ = tag.addAttributes(attributes).Render(ic.ctx)
	if !isVoid {
		ic.openedStack = append(ic.openedStack, elementName)
	}
''', '''	for i := range attrs {
		if attrs[i] == nil || attrs[i].Type() != AttributeNode {
			continue
		}
		attributes = append(attributes, attrs[i])
	}
	ic.startTag(elementName, attributes)
	if isVoid {
		return
	}
	ic.openedStack = append(ic.openedStack, elementName)
'''),
 ('imperative.go', '''func (ic *imperativeContext) End() {''', '''func (ic *imperativeContext) startTag(name []byte, attributes []Node) {
	tag := &voidElement{name: name, attIndices: map[string]int{}}
	node := tag.addAttributes(attributes)
	renderNode(ic.ctx, node)
}

func (ic *imperativeContext) End() {'''),
 ('imperative.go', '''	if i.fn != nil {
		if err := i.fn(&imperativeContext{ctx: ctx}); err != nil && ctx.Error == nil {
			ctx.Error = err
		}
	}
	return ctx.Error
''', '''	if i.fn == nil {
		return ctx.Error
	}
	ic := &imperativeContext{ctx: ctx}
	err := i.fn(ic)
	if err == nil {
		return ctx.Error
	}
	if ctx.Error == nil {
		ctx.Error = err
	}
	return ctx.Error
'''),
 # generators
 ('html/generator.go', '''	decIndent := func() {
		if len(indent) > 0 {
			indent = indent[:len(indent)-1]
		}
	}
''', '''	decIndent := func() {
		if l := len(indent) - 1; l >= 0 {
			indent = indent[:l]
		}
	}
	writeAll := func(parts ...string) {
		for _, part := range parts {
			_, err = w.Write([]byte(part))
		}
	}
'''),
 ('html/generator.go', '''				_, err = w.Write([]byte(`aitch.Attribute("`))
				_, err = w.Write([]byte(escape(a.Key)))
				_, err = w.Write([]byte{'"', ' ', ',', '"'})
				_, err = w.Write([]byte(escape(a.Val)))
				_, err = w.Write([]byte{'"', ')'})
''', '''				writeAll(`aitch.Attribute("`, escape(a.Key), `" ,"`, escape(a.Val), `")`)
'''),
 ('html/generator.go', '''				if boolAttrs[strings.ToLower(a.Key)] {
					_, err = w.Write([]byte(funcName(attr)))
					_, err = w.Write([]byte{'(', ')'})
				} else {
					_, err = w.Write([]byte(funcName(attr)))
					_, err = w.Write([]byte{'(', '"'})
					_, err = w.Write([]byte(escape(a.Val)))
					_, err = w.Write([]byte{'"', ')'})
				}
''', '''				_, err = w.Write([]byte(funcName(attr)))
				if boolAttrs[strings.ToLower(a.Key)] {
					_, err = w.Write([]byte("()"))
				} else {
					_, err = w.Write([]byte(`("` + escape(a.Val) + `")`))
				}
'''),
 ('svg/generator.go', '''	escape := func(s string) string {
		quoted := strconv.Quote(s)
		return quoted[1 : len(quoted)-1]
	}
''', '''	escape := func(s string) string {
		return strings.TrimSuffix(strings.TrimPrefix(strconv.Quote(s), `"`), `"`)
	}
'''),
]

R['d'] = [
 # conditionals
 ('conditional.go', '''	for _, condition := range a.conditions {
		if !condition(ctx) {
			return false
		}
	}
	return true
''', '''	met := true
	for i := 0; met && i < len(a.conditions); i++ {
		met = a.conditions[i](ctx)
	}
	return met
'''),
 ('conditional.go', '''	if c.fn(ctx) {
		for _, n := range c.nodes {
			if renderNode(ctx, n); ctx.Error != nil {
				break
			}
		}
	}
	return ctx.Error
''', '''	if !c.fn(ctx) {
		return ctx.Error
	}
	for i := 0; i < len(c.nodes) && ctx.Error == nil; i++ {
		renderNode(ctx, c.nodes[i])
	}
	return ctx.Error
'''),
 ('conditional.go', '''	result := make(map[string][]Node, len(c))
	names := make([]string, 0, len(c))
	for _, a := range c {
		if a.evaluate(ctx) {
			name := a.attribute.Name()
			if _, ok := result[name]; !ok {
				names = append(names, name)
			}
			result[name] = append(result[name], a.attribute)
		}
	}
	return result, names
''', '''	result := make(map[string][]Node, len(c))
	var names []string
	for i := range c {
		a := &c[i]
		if !a.evaluate(ctx) {
			continue
		}
		name := a.attribute.Name()
		existing := result[name]
		if len(existing) == 0 {
			names = append(names, name)
		}
		result[name] = append(existing, a.attribute)
	}
	return result, names
'''),
 # renderAttributes split
 ('element.go', '''	if len(conditionals) > 0 {
		if evaluated, names := conditionals.evaluate(ctx); len(evaluated) > 0 {
			use := &delimitedAttribute{}
			for _, attr := range attributes {
				if eAttr, ok := evaluated[attr.Name()]; ok {
					switch at := attr.(type) {
					case *delimitedAttribute:
						use.name = at.name
						use.delimiter = at.delimiter
						use.values = use.values[:0]
						use.values = append(use.values, at.values...)
						for _, e := range eAttr {
							if et, ok := e.(valuesNode); ok {
								use.values = append(use.values, et.getValues()...)
							}
						}
						_ = use.Render(ctx)
					default:
						renderNode(ctx, eAttr[len(eAttr)-1])
					}
				} else {
					renderNode(ctx, attr)
				}
			}
			for _, name := range names {
				ca := evaluated[name]
				if _, ok := attIndices[name]; !ok && len(ca) > 0 {
					first := ca[0]
					switch at := first.(type) {
					case *delimitedAttribute:
						use.name = at.name
						use.delimiter = at.delimiter
						use.values = use.values[:0]
						use.values = append(use.values, at.values...)
						for i := 1; i < len(ca); i++ {
							if et, ok := ca[i].(valuesNode); ok {
								use.values = append(use.values, et.getValues()...)
							}
						}
						_ = use.Render(ctx)
					default:
						renderNode(ctx, ca[len(ca)-1])
					}
				}
			}
			return
		}
	}
	for _, attr := range attributes {
		renderNode(ctx, attr)
	}
}
''', '''	var evaluated map[string][]Node
	var names []string
	if len(conditionals) > 0 {
		evaluated, names = conditionals.evaluate(ctx)
	}
	if len(evaluated) == 0 {
		for _, attr := range attributes {
			renderNode(ctx, attr)
		}
		return
	}
	for _, attr := range attributes {
		renderMerged(ctx, attr, evaluated[attr.Name()])
	}
	for _, name := range names {
		if _, ok := attIndices[name]; ok {
			continue
		}
		if ca := evaluated[name]; len(ca) > 0 {
			renderMerged(ctx, ca[0], ca[1:])
		}
	}
}

// renderMerged renders the attribute with those added to it (the last of which replaces attributes that are not delimited)
func renderMerged(ctx *context.Context, attr Node, added []Node) {
	if len(added) == 0 {
		renderNode(ctx, attr)
		return
	}
	at, ok := attr.(*delimitedAttribute)
	if !ok {
		renderNode(ctx, added[len(added)-1])
		return
	}
	merged := &delimitedAttribute{name: at.name, delimiter: at.delimiter, values: make([]Value, 0, len(at.values)+len(added))}
	merged.values = append(merged.values, at.values...)
	for _, e := range added {
		if et, ok := e.(valuesNode); ok {
			merged.values = append(merged.values, et.getValues()...)
		}
	}
	renderNode(ctx, merged)
}
'''),
 # context.Get by helpers
 ('context/context.go', '''	if ctx.Data != nil {
		if val, ok := ctx.Data[key]; ok {
			if typed, ok := val.(T); ok {
				return typed, true
			}
		}
	}
''', '''	if typed, ok := ctx.Data[key].(T); ok {
		return typed, true
	}
'''),
 ('context/context.go', '''				if val := v.MapIndex(reflect.ValueOf(key).Convert(v.Type().Key())); val.IsValid() {
					if typed, ok := val.Interface().(T); ok {
						return typed, true
					}
				}
''', '''				mapKey := reflect.ValueOf(key).Convert(v.Type().Key())
				val := v.MapIndex(mapKey)
				if !val.IsValid() {
					return zero, false
				}
				typed, ok := val.Interface().(T)
				return typed, ok
'''),
 # Document
 ('html/document.go', '''	var langAtt aitch.Node
	if lang != nil {
		langAtt = Lang(lang)
	}
	var headNode aitch.Node
	if len(head) > 0 {
		headNode = Head(head...)
	}
	bodyNode := Body(body...)
	return &document{
		prologue: aitch.DocType(),
		contents: []aitch.Node{Html(langAtt, headNode, bodyNode)},
	}
''', '''	parts := make([]any, 0, 3)
	if lang != nil {
		parts = append(parts, Lang(lang))
	}
	if len(head) > 0 {
		parts = append(parts, Head(head...))
	}
	parts = append(parts, Body(body...))
	return &document{
		prologue: aitch.DocType(),
		contents: []aitch.Node{Html(parts...)},
	}
'''),
 # Nbsps
 ('text.go', '''	result := make([]byte, lnbsp*n)
	idx := 0
	for i := 0; i < n; i++ {
		copy(result[idx:], nbsp)
		idx += lnbsp
	}
	return result
''', '''	result := make([]byte, 0, lnbsp*n)
	for i := 0; i < n; i++ {
		result = append(result, nbsp...)
	}
	return result
'''),
 # css units
 ('css/units.go', '''	return aitch.NewConcatValue(append(slices.Clip(value), unitPx)...)
''', '''	return withUnit(unitPx, value)
'''),
 ('css/units.go', '''	return aitch.NewConcatValue(append(slices.Clip(value), unitPt)...)
''', '''	return withUnit(unitPt, value)
'''),
 ('css/units.go', '''// Px creates''', '''func withUnit(unit []byte, value []any) aitch.Value {
	parts := make([]any, len(value), len(value)+1)
	copy(parts, value)
	return aitch.NewConcatValue(append(parts, unit)...)
}

// Px creates'''),
 # Element
 ('element.go', '''	if _, void := voidElementNames[name]; void {
		return NewVoidElement([]byte(name), contents...)
	}
	return NewElement([]byte(name), contents...)
''', '''	build := NewElement
	if _, void := voidElementNames[name]; void {
		build = NewVoidElement
	}
	return build([]byte(name), contents...)
'''),
 # numbers
 ('value.go', '''	case int:
		return []byte(strconv.FormatInt(int64(vt), 10))
	case int8:
		return []byte(strconv.FormatInt(int64(vt), 10))
	case int16:
		return []byte(strconv.FormatInt(int64(vt), 10))
''', '''	case int:
		return strconv.AppendInt(nil, int64(vt), 10)
	case int8:
		return []byte(strconv.Itoa(int(vt)))
	case int16:
		return formatInt(int64(vt))
'''),
 ('value.go', '''func valueToBytes(v any)''', '''func formatInt(n int64) []byte {
	return strconv.AppendInt(make([]byte, 0, 20), n, 10)
}

func valueToBytes(v any)'''),
]

R['g1'] = [
 ('html/generator.go', '''			if strings.Trim(token.Data, " \\n\\t") != "" {
				write(`html.Text("` + escape(token.Data) + `"),`)
			}''', '''			if strings.Trim(token.Data, " \\n\\t") == "" {
				continue
			}
			write("html.Text(" + strconv.Quote(token.Data) + "),")'''),
 ('html/generator.go', '''				_, err = w.Write([]byte(`aitch.Attribute("`))
				_, err = w.Write([]byte(escape(a.Key)))
				_, err = w.Write([]byte{'"', ' ', ',', '"'})
				_, err = w.Write([]byte(escape(a.Val)))
				_, err = w.Write([]byte{'"', ')'})
''', '''				_, err = w.Write([]byte(`aitch.Attribute("` + escape(a.Key) + `" ,"` + escape(a.Val) + `")`))
'''),
 ('html/generator.go', '''			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
				if boolAttrs[strings.ToLower(a.Key)] {
					_, err = w.Write([]byte(funcName(attr)))
					_, err = w.Write([]byte{'(', ')'})
				} else {
					_, err = w.Write([]byte(funcName(attr)))
					_, err = w.Write([]byte{'(', '"'})
''', '''			key := strings.ToLower(a.Key)
			attr, known := attrMap[key]
			if known {
				_, err = w.Write([]byte(funcName(attr)))
				if _, isBool := boolAttrs[key]; isBool {
					_, err = w.Write([]byte{'(', ')'})
				} else {
					_, err = w.Write([]byte{'(', '"'})
'''),
 ('html/generator.go', '''			if token := tokenizer.Token(); !voidElements[token.Data] && len(indent) > 1 {
				decIndent()
				write("),")
			}
''', '''			if token := tokenizer.Token(); voidElements[token.Data] || len(indent) < 2 {
				continue
			}
			decIndent()
			write("),")
'''),
 ('svg/generator.go', '''	indent := []byte{}
''', '''	depth := 0
'''),
 ('svg/generator.go', '''	tab := byte('\\t')
''', ''''''),
 ('svg/generator.go', '''		_, err = w.Write(indent)
		_, err = w.Write([]byte(s))
''', '''		_, err = w.Write([]byte(strings.Repeat("\\t", depth)))
		_, err = w.Write([]byte(s))
'''),
 ('svg/generator.go', '''		_, err = w.Write(indent)
		_, err = w.Write([]byte(start))
''', '''		_, err = w.Write([]byte(strings.Repeat("\\t", depth)))
		_, err = w.Write([]byte(start))
'''),
 ('svg/generator.go', '''	incIndent := func() {
		indent = append(indent, tab)
	}
	decIndent := func() {
		if len(indent) > 0 {
			indent = indent[:len(indent)-1]
		}
	}
''', '''	incIndent := func() {
		depth++
	}
	decIndent := func() {
		if depth > 0 {
			depth--
		}
	}
'''),
 ('svg/generator.go', '''			if len(indent) > 1 {
				decIndent()
				write("),")
			}
''', '''			if depth > 1 {
				decIndent()
				write("),")
			}
'''),
 ('svg/generator.go', '''	for err == nil && len(indent) > 1 {
		decIndent()
''', '''	for err == nil && depth > 1 {
		decIndent()
'''),
]

R['g2'] = [
 # the helpers become methods
 ('html/generator.go', '''	tokenizer := html.NewTokenizer(r)
	indent := []byte{}
	eof := false
	var err error
	nl := []byte{'\\n'}
	tab := byte('\\t')
	funcName := func(fn any) string {
		v := reflect.ValueOf(fn)
		result := "Unknown"
		if v.Kind() == reflect.Func {
			if fpp := runtime.FuncForPC(v.Pointer()); fpp != nil {
				name := fpp.Name()
				if ls := strings.LastIndex(name, "/"); ls > 0 {
					result = name[ls+1:]
				}
			}
		}
		return result
	}
	write := func(s string) {
		_, err = w.Write(indent)
		_, err = w.Write([]byte(s))
		_, err = w.Write(nl)
	}
	incIndent := func() {
		indent = append(indent, tab)
	}
	decIndent := func() {
		if len(indent) > 0 {
			indent = indent[:len(indent)-1]
		}
	}
	escape := func(s string) string {
		quoted := strconv.Quote(s)
		return quoted[1 : len(quoted)-1]
	}
	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
		start := ""
		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
			start = funcName(elem) + "("
		} else {
			start = `aitch.Element("` + escape(name) + `", `
		}
		_, err = w.Write(indent)
		_, err = w.Write([]byte(start))
		if selfClosing && len(attrs) == 0 {
			_, err = w.Write([]byte{')', ',', '\\n'})
			return
		}
		for i, a := range attrs {
			if i > 0 {
				_, err = w.Write([]byte{',', ' '})
			}
			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
				if boolAttrs[strings.ToLower(a.Key)] {
					_, err = w.Write([]byte(funcName(attr)))
					_, err = w.Write([]byte{'(', ')'})
				} else {
					_, err = w.Write([]byte(funcName(attr)))
					_, err = w.Write([]byte{'(', '"'})
					_, err = w.Write([]byte(escape(a.Val)))
					_, err = w.Write([]byte{'"', ')'})
				}
			} else {
				_, err = w.Write([]byte(`aitch.Attribute("`))
				_, err = w.Write([]byte(escape(a.Key)))
				_, err = w.Write([]byte{'"', ' ', ',', '"'})
				_, err = w.Write([]byte(escape(a.Val)))
				_, err = w.Write([]byte{'"', ')'})
			}
		}
		if selfClosing {
			_, err = w.Write([]byte{')', ','})
		} else if len(attrs) > 0 {
			_, err = w.Write([]byte{','})
		}
		_, err = w.Write([]byte{'\\n'})
		if !selfClosing {
			incIndent()
		}
	}
	write("var template = aitch.Collection(")
	incIndent()
	for err == nil && !eof {
		tokenType := tokenizer.Next()
		switch tokenType {
		case html.ErrorToken:
			if err = tokenizer.Err(); err == io.EOF {
				eof = true
				err = nil
			}
		case html.TextToken:
			token := tokenizer.Token()
			if strings.Trim(token.Data, " \\n\\t") != "" {
				write(`html.Text("` + escape(token.Data) + `"),`)
			}
		case html.StartTagToken:
			token := tokenizer.Token()
			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
		case html.SelfClosingTagToken:
			token := tokenizer.Token()
			writeElementStart(token.Data, token.Attr, true)
		case html.EndTagToken:
			if token := tokenizer.Token(); !voidElements[token.Data] && len(indent) > 1 {
				decIndent()
				write("),")
			}
		case html.CommentToken:
			token := tokenizer.Token()
			write(`html.Comment("` + escape(token.Data) + `"),`)
		case html.DoctypeToken:
			token := tokenizer.Token()
			write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
		}
	}
	for err == nil && len(indent) > 1 {
		decIndent()
		write("),")
	}
	if err == nil {
		decIndent()
		write(")\\n")
	}
	return err
}
''', '''	tokenizer := html.NewTokenizer(r)
	g := &generator{w: w, elems: elemMap, attrs: attrMap, boolAttrs: boolAttrs}
	g.line("var template = aitch.Collection(")
	g.depth++
	for g.err == nil {
		tokenType := tokenizer.Next()
		if tokenType == html.ErrorToken {
			if e := tokenizer.Err(); e != io.EOF {
				g.err = e
			}
			break
		}
		token := tokenizer.Token()
		switch tokenType {
		case html.TextToken:
			if strings.Trim(token.Data, " \\n\\t") != "" {
				g.line("html.Text(" + strconv.Quote(token.Data) + "),")
			}
		case html.StartTagToken:
			g.start(token, voidElements[token.Data])
		case html.SelfClosingTagToken:
			g.start(token, true)
		case html.EndTagToken:
			if !voidElements[token.Data] && g.depth > 1 {
				g.close()
			}
		case html.CommentToken:
			g.line("html.Comment(" + strconv.Quote(token.Data) + "),")
		case html.DoctypeToken:
			g.line(`html.PI("DOCTYPE", ` + strconv.Quote(token.Data) + "),")
		}
	}
	for g.err == nil && g.depth > 1 {
		g.close()
	}
	if g.err == nil {
		g.depth--
		g.line(")\\n")
	}
	return g.err
}

type generator struct {
	w         io.Writer
	err       error
	depth     int
	elems     map[string]any
	attrs     map[string]any
	boolAttrs map[string]bool
}

func (g *generator) put(ss ...string) {
	for _, s := range ss {
		if g.err == nil {
			_, g.err = io.WriteString(g.w, s)
		}
	}
}

func (g *generator) line(s string) {
	for i := 0; i < g.depth; i++ {
		g.put("\\t")
	}
	g.put(s, "\\n")
}

func (g *generator) close() {
	g.depth--
	g.line("),")
}

func (g *generator) start(token html.Token, selfClosing bool) {
	for i := 0; i < g.depth; i++ {
		g.put("\\t")
	}
	if elem, ok := g.elems[strings.ToLower(token.Data)]; ok {
		g.put(funcName(elem), "(")
	} else {
		g.put("aitch.Element(", strconv.Quote(token.Data), ", ")
	}
	if selfClosing && len(token.Attr) == 0 {
		g.put("),\\n")
		return
	}
	for i, a := range token.Attr {
		if i > 0 {
			g.put(", ")
		}
		key := strings.ToLower(a.Key)
		attr, ok := g.attrs[key]
		switch {
		case ok && g.boolAttrs[key]:
			g.put(funcName(attr), "()")
		case ok:
			g.put(funcName(attr), "(", strconv.Quote(a.Val), ")")
		default:
			g.put("aitch.Attribute(", strconv.Quote(a.Key), " ,", strconv.Quote(a.Val), ")")
		}
	}
	switch {
	case selfClosing:
		g.put("),")
	case len(token.Attr) > 0:
		g.put(",")
	}
	g.put("\\n")
	if !selfClosing {
		g.depth++
	}
}

func funcName(fn any) string {
	v := reflect.ValueOf(fn)
	if v.Kind() == reflect.Func {
		if fpp := runtime.FuncForPC(v.Pointer()); fpp != nil {
			name := fpp.Name()
			if ls := strings.LastIndex(name, "/"); ls > 0 {
				return name[ls+1:]
			}
		}
	}
	return "Unknown"
}
'''),
]

R['e'] = [
 # one condition for both forms of When
 ('conditional.go', '''	if strings.HasPrefix(string(key), "!") {
		key = key[1:]
		return Conditional(func(ctx *context.Context) bool {
			if v, ok := ctx.Data[string(key)]; ok {
				if b, ok := v.(bool); ok {
					return !b
				}
				return false
			}
			return true
		}, nodes...)
	}
	return Conditional(func(ctx *context.Context) bool {
		if v, ok := ctx.Data[string(key)]; ok {
			if b, ok := v.(bool); ok {
				return b
			}
			return true
		}
		return false
	}, nodes...)
''', '''	name, negated := strings.CutPrefix(string(key), "!")
	return Conditional(func(ctx *context.Context) bool {
		v, result := ctx.Data[name]
		if b, ok := v.(bool); ok {
			result = b
		}
		return result != negated
	}, nodes...)
'''),
 ('conditional.go', '''	for _, condition := range a.conditions {
		if !condition(ctx) {
			return false
		}
	}
	return true
''', '''	met := true
	for i := 0; met && i < len(a.conditions); i++ {
		met = a.conditions[i](ctx)
	}
	return met
'''),
 ('conditional.go', '''	for _, a := range c {
		if a.evaluate(ctx) {
			name := a.attribute.Name()
			if _, ok := result[name]; !ok {
				names = append(names, name)
			}
			result[name] = append(result[name], a.attribute)
		}
	}
''', '''	for i := range c {
		a := &c[i]
		if !a.evaluate(ctx) {
			continue
		}
		name := a.attribute.Name()
		found := result[name]
		if len(found) == 0 {
			names = append(names, name)
		}
		result[name] = append(found, a.attribute)
	}
'''),
 ('conditional.go', '''	if c.fn(ctx) {
		for _, n := range c.nodes {
			if renderNode(ctx, n); ctx.Error != nil {
				break
			}
		}
	}
	return ctx.Error
''', '''	if !c.fn(ctx) {
		return ctx.Error
	}
	for i := 0; i < len(c.nodes) && ctx.Error == nil; i++ {
		renderNode(ctx, c.nodes[i])
	}
	return ctx.Error
'''),
 ('element.go', '''		if item != nil {
			if item.Type() == AttributeNode {
				if len(conditions) > 0 {
					condAttrs = append(condAttrs, conditionalAttribute{
						attribute:  item,
						conditions: conditions,
					})
				} else {
					attrs = append(attrs, item)
				}
			} else {
				contents = append(contents, item)
				switch cn := item.(type) {
				case *collection:
					addA, addCa, _ := attributesAndContents(conditions, cn.nodes)
					attrs = append(attrs, addA...)
					condAttrs = append(condAttrs, addCa...)
				case *conditional:
					newConditions := append(slices.Clip(conditions), cn.fn)
					for _, a := range cn.attributes {
						condAttrs = append(condAttrs, conditionalAttribute{
							attribute:  a,
							conditions: newConditions,
						})
					}
					_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
					condAttrs = append(condAttrs, addCa...)
				}
			}
		}
''', '''		if item == nil {
			continue
		}
		if item.Type() == AttributeNode {
			if len(conditions) == 0 {
				attrs = append(attrs, item)
			} else {
				condAttrs = append(condAttrs, conditionalAttribute{item, conditions})
			}
			continue
		}
		contents = append(contents, item)
		if cn, ok := item.(*collection); ok {
			addA, addCa, _ := attributesAndContents(conditions, cn.nodes)
			attrs = append(attrs, addA...)
			condAttrs = append(condAttrs, addCa...)
		} else if cn, ok := item.(*conditional); ok {
			all := make([]ConditionalFunc, 0, len(conditions)+1)
			all = append(all, conditions...)
			all = append(all, cn.fn)
			_, addCa, _ := attributesAndContents(all, cn.attributes)
			condAttrs = append(condAttrs, addCa...)
			_, addCa, _ = attributesAndContents(all, cn.nodes)
			condAttrs = append(condAttrs, addCa...)
		}
'''),
 ('element.go', '''	"github.com/go-andiamo/aitch/context"
	"slices"
''', '''	"github.com/go-andiamo/aitch/context"
	"slices"
'''),
]
R['f'] = [
 ('element.go', '''func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs []Node, condAttrs conditionalAttributes, contents []Node) {
	attrs = make([]Node, 0, len(content))
	condAttrs = make(conditionalAttributes, 0, len(content))
	contents = make([]Node, 0, len(content))
	for _, item := range content {
		if item != nil {
			if item.Type() == AttributeNode {
				if len(conditions) > 0 {
					condAttrs = append(condAttrs, conditionalAttribute{
						attribute:  item,
						conditions: conditions,
					})
				} else {
					attrs = append(attrs, item)
				}
			} else {
				contents = append(contents, item)
				switch cn := item.(type) {
				case *collection:
					addA, addCa, _ := attributesAndContents(conditions, cn.nodes)
					attrs = append(attrs, addA...)
					condAttrs = append(condAttrs, addCa...)
				case *conditional:
					newConditions := append(slices.Clip(conditions), cn.fn)
					for _, a := range cn.attributes {
						condAttrs = append(condAttrs, conditionalAttribute{
							attribute:  a,
							conditions: newConditions,
						})
					}
					_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
					condAttrs = append(condAttrs, addCa...)
				}
			}
		}
	}
	return
}
''', '''func attributesAndContents(conditions []ConditionalFunc, content []Node) ([]Node, conditionalAttributes, []Node) {
	s := splitter{
		attrs:     make([]Node, 0, len(content)),
		condAttrs: make(conditionalAttributes, 0, len(content)),
		contents:  make([]Node, 0, len(content)),
	}
	for _, item := range content {
		if item == nil {
			continue
		}
		if item.Type() == AttributeNode {
			s.attribute(conditions, item)
		} else {
			s.content(conditions, item)
		}
	}
	return s.attrs, s.condAttrs, s.contents
}

type splitter struct {
	attrs     []Node
	condAttrs conditionalAttributes
	contents  []Node
}

func (s *splitter) attribute(conditions []ConditionalFunc, item Node) {
	if len(conditions) == 0 {
		s.attrs = append(s.attrs, item)
		return
	}
	s.condAttrs = append(s.condAttrs, conditionalAttribute{attribute: item, conditions: conditions})
}

func (s *splitter) content(conditions []ConditionalFunc, item Node) {
	s.contents = append(s.contents, item)
	switch cn := item.(type) {
	case *collection:
		s.nested(conditions, cn.nodes)
	case *conditional:
		newConditions := slices.Concat(conditions, []ConditionalFunc{cn.fn})
		s.nested(newConditions, cn.attributes)
		s.nested(newConditions, cn.nodes)
	}
}

func (s *splitter) nested(conditions []ConditionalFunc, nodes []Node) {
	attrs, condAttrs, _ := attributesAndContents(conditions, nodes)
	s.attrs = append(s.attrs, attrs...)
	s.condAttrs = append(s.condAttrs, condAttrs...)
}
'''),
 # the attribute that is used for a name
 ('element.go', '''			for _, attr := range attributes {
				if eAttr, ok := evaluated[attr.Name()]; ok {
					switch at := attr.(type) {
					case *delimitedAttribute:
						use.name = at.name
						use.delimiter = at.delimiter
						use.values = use.values[:0]
						use.values = append(use.values, at.values...)
						for _, e := range eAttr {
							if et, ok := e.(valuesNode); ok {
								use.values = append(use.values, et.getValues()...)
							}
						}
						_ = use.Render(ctx)
					default:
						renderNode(ctx, eAttr[len(eAttr)-1])
					}
				} else {
					renderNode(ctx, attr)
				}
			}
''', '''			for i := range attributes {
				attr := attributes[i]
				eAttr := evaluated[attr.Name()]
				if len(eAttr) == 0 {
					renderNode(ctx, attr)
					continue
				}
				at, ok := attr.(*delimitedAttribute)
				if !ok {
					renderNode(ctx, eAttr[len(eAttr)-1])
					continue
				}
				merged := &delimitedAttribute{name: at.name, delimiter: at.delimiter}
				merged.values = append(merged.values, at.values...)
				for _, e := range eAttr {
					if et, ok := e.(valuesNode); ok {
						merged.values = append(merged.values, et.getValues()...)
					}
				}
				_ = merged.Render(ctx)
			}
'''),
]
