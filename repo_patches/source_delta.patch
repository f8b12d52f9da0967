From b9683e5632effc6dde60e8ce512393eb98e4e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 01/21] fix: keep the first write error when rendering values

Value.render wrote straight to the writer and overwrote Context.Error, so an
earlier write error was cleared by a later successful write and output went on
after the failure.
---
 value.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/value.go b/value.go
index c499054..f88e5c2 100644
--- a/value.go
+++ b/value.go
@@ -33,21 +33,22 @@ func NewConcatValue(values ...any) Value {
 }
 
 func (v Value) render(ctx *context.Context) (bool, error) {
-	var l int
+	something := false
 	if v.dynamicFunc != nil {
 		data := v.dynamicFunc(ctx)
-		l, ctx.Error = ctx.Writer.Write(data)
+		ctx.Write(data)
+		something = len(data) > 0
 	} else if len(v.concats) > 0 {
-		var written bool
 		for _, concat := range v.concats {
-			if written, ctx.Error = concat.render(ctx); written {
-				l++
+			if written, _ := concat.render(ctx); written {
+				something = true
 			}
 		}
 	} else {
-		l, ctx.Error = ctx.Writer.Write(v.value)
+		ctx.Write(v.value)
+		something = len(v.value) > 0
 	}
-	return l > 0, ctx.Error
+	return something, ctx.Error
 }
 
 // DynamicValueFunc is a func that can be called to determine actual byte data to be written
-- 
2.43.0


From d303fd1ee8a09a0a158e599f96746fee51bf6c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 02/21] fix: never lose the first error raised while rendering
 child nodes

Errors returned by child nodes and imperative funcs were dropped or overwritten
by a later sibling's nil, so Render could report success after a failure.
---
 aitch.go         |  8 ++++++++
 collection.go    |  4 ++--
 conditional.go   |  2 +-
 element.go       | 10 +++++-----
 html/document.go |  8 ++++++--
 imperative.go    | 10 ++++++----
 iterate.go       | 13 +++++++------
 7 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/aitch.go b/aitch.go
index a8f5e44..e62d380 100644
--- a/aitch.go
+++ b/aitch.go
@@ -22,6 +22,14 @@ type Node interface {
 	Name() string
 }
 
+// renderNode renders the node and records any error it returns as the context error - unless
+// an earlier error has already been recorded
+func renderNode(ctx *context.Context, node Node) {
+	if err := node.Render(ctx); err != nil && ctx.Error == nil {
+		ctx.Error = err
+	}
+}
+
 // NodeType is the node type (e.g. ElementNode, AttributeNode etc.) for a Node
 type NodeType int
 
diff --git a/collection.go b/collection.go
index 69243c3..30a9bca 100644
--- a/collection.go
+++ b/collection.go
@@ -11,7 +11,7 @@ type collection struct {
 func (c *collection) Render(ctx *context.Context) error {
 	for _, n := range c.nodes {
 		if n.Type() != AttributeNode {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if renderNode(ctx, n); ctx.Error != nil {
 				return ctx.Error
 			}
 		}
@@ -47,7 +47,7 @@ type contentCollector struct {
 func (c *contentCollector) Render(ctx *context.Context) error {
 	for _, n := range c.collector(ctx) {
 		if n != nil && n.Type() != AttributeNode {
-			_ = n.Render(ctx)
+			renderNode(ctx, n)
 		}
 	}
 	return ctx.Error
diff --git a/conditional.go b/conditional.go
index 580f1bb..a9daa37 100644
--- a/conditional.go
+++ b/conditional.go
@@ -43,7 +43,7 @@ func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node
 func (c *conditional) Render(ctx *context.Context) error {
 	if c.fn(ctx) {
 		for _, n := range c.nodes {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if renderNode(ctx, n); ctx.Error != nil {
 				break
 			}
 		}
diff --git a/element.go b/element.go
index 3393d73..0d34eeb 100644
--- a/element.go
+++ b/element.go
@@ -24,10 +24,10 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 						}
 						_ = use.Render(ctx)
 					default:
-						_ = eAttr[len(eAttr)-1].Render(ctx)
+						renderNode(ctx, eAttr[len(eAttr)-1])
 					}
 				} else {
-					_ = attr.Render(ctx)
+					renderNode(ctx, attr)
 				}
 			}
 			for name, ca := range evaluated {
@@ -46,7 +46,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 						}
 						_ = use.Render(ctx)
 					default:
-						_ = ca[len(ca)-1].Render(ctx)
+						renderNode(ctx, ca[len(ca)-1])
 					}
 				}
 			}
@@ -54,7 +54,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 		}
 	}
 	for _, attr := range attributes {
-		_ = attr.Render(ctx)
+		renderNode(ctx, attr)
 	}
 }
 
@@ -131,7 +131,7 @@ func (e *element) Render(ctx *context.Context) error {
 	renderAttributes(ctx, e.attributes, e.attIndices, e.conditionals)
 	ctx.Write(closeAngleBracket)
 	for _, c := range e.contents {
-		ctx.Error = c.Render(ctx)
+		renderNode(ctx, c)
 	}
 	ctx.Write(closeTagStart)
 	ctx.Write(e.name)
diff --git a/html/document.go b/html/document.go
index 829565b..2d1d7eb 100644
--- a/html/document.go
+++ b/html/document.go
@@ -12,10 +12,14 @@ type document struct {
 
 func (d *document) Render(ctx *context.Context) error {
 	if d.prologue != nil {
-		_ = d.prologue.Render(ctx)
+		if err := d.prologue.Render(ctx); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
 	for _, n := range d.contents {
-		_ = n.Render(ctx)
+		if err := n.Render(ctx); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
 	return ctx.Error
 }
diff --git a/imperative.go b/imperative.go
index 45fcf7c..a68d2a0 100644
--- a/imperative.go
+++ b/imperative.go
@@ -35,11 +35,13 @@ type imperative struct {
 	fn func(ctx ImperativeContext) error
 }
 
-func (i *imperative) Render(ctx *context.Context) (err error) {
+func (i *imperative) Render(ctx *context.Context) error {
 	if i.fn != nil {
-		err = i.fn(&imperativeContext{ctx: ctx})
+		if err := i.fn(&imperativeContext{ctx: ctx}); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
-	return
+	return ctx.Error
 }
 
 func (i *imperative) Type() NodeType {
@@ -70,7 +72,7 @@ func (ic *imperativeContext) WriteRaw(data []byte) {
 func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 	for _, node := range nodes {
 		if node != nil && node.Type() != AttributeNode {
-			_ = node.Render(ic.ctx)
+			renderNode(ic.ctx, node)
 		}
 	}
 }
diff --git a/iterate.go b/iterate.go
index 6a300d8..5836e56 100644
--- a/iterate.go
+++ b/iterate.go
@@ -91,14 +91,14 @@ func (i *iterator) Render(ctx *context.Context) error {
 				ictx.Data = ctx.Data
 			}
 			for _, n := range i.nodes {
-				if err := n.Render(ictx); err != nil {
-					ctx.Error = err
-					return err
+				if renderNode(ictx, n); ictx.Error != nil {
+					ctx.Error = ictx.Error
+					return ctx.Error
 				}
 			}
 		}
 	}
-	return nil
+	return ctx.Error
 }
 
 func (i *iterator) Type() NodeType {
@@ -152,13 +152,14 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		Parent: ctx,
 	}
 	i.fn(ctx, func(item any) {
+		ictx.Error = ctx.Error
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
 		}
 		for _, n := range i.nodes {
-			if err := n.Render(ictx); err != nil {
-				ctx.Error = err
+			if renderNode(ictx, n); ictx.Error != nil {
+				ctx.Error = ictx.Error
 				return
 			}
 		}
-- 
2.43.0


From 6d7701146e407efffb00b355885ae2feb1362c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 03/21] fix: render conditional attributes in declared order

Attributes were rendered in map iteration order whenever a conditional attribute
was met, so the same template and data gave different output from run to run.
---
 conditional.go |  9 +++++++--
 element.go     | 10 +++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/conditional.go b/conditional.go
index a9daa37..852f78c 100644
--- a/conditional.go
+++ b/conditional.go
@@ -29,15 +29,20 @@ func (a conditionalAttribute) evaluate(ctx *context.Context) bool {
 
 type conditionalAttributes []conditionalAttribute
 
-func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node {
+// evaluate returns the attributes whose conditions are met (by name) and the names in the order they were declared
+func (c conditionalAttributes) evaluate(ctx *context.Context) (map[string][]Node, []string) {
 	result := make(map[string][]Node, len(c))
+	names := make([]string, 0, len(c))
 	for _, a := range c {
 		if a.evaluate(ctx) {
 			name := a.attribute.Name()
+			if _, ok := result[name]; !ok {
+				names = append(names, name)
+			}
 			result[name] = append(result[name], a.attribute)
 		}
 	}
-	return result
+	return result, names
 }
 
 func (c *conditional) Render(ctx *context.Context) error {
diff --git a/element.go b/element.go
index 0d34eeb..cb7218c 100644
--- a/element.go
+++ b/element.go
@@ -6,11 +6,10 @@ import (
 
 func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[string]int, conditionals conditionalAttributes) {
 	if len(conditionals) > 0 {
-		if evaluated := conditionals.evaluate(ctx); len(evaluated) > 0 {
+		if evaluated, names := conditionals.evaluate(ctx); len(evaluated) > 0 {
 			use := &delimitedAttribute{}
-			for name, index := range attIndices {
-				attr := attributes[index]
-				if eAttr, ok := evaluated[name]; ok {
+			for _, attr := range attributes {
+				if eAttr, ok := evaluated[attr.Name()]; ok {
 					switch at := attr.(type) {
 					case *delimitedAttribute:
 						use.name = at.name
@@ -30,7 +29,8 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 					renderNode(ctx, attr)
 				}
 			}
-			for name, ca := range evaluated {
+			for _, name := range names {
+				ca := evaluated[name]
 				if _, ok := attIndices[name]; !ok && len(ca) > 0 {
 					first := ca[0]
 					switch at := first.(type) {
-- 
2.43.0


From ef58c3490fb402d3f0bf76fb2425a09e16dc459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 04/21] fix: do not modify a shared attribute when merging
 repeated attributes

Merging a repeated delimited attribute appended to the first attribute node
itself, so reusing that node elsewhere picked up the other element's values.
---
 element.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/element.go b/element.go
index cb7218c..72821af 100644
--- a/element.go
+++ b/element.go
@@ -2,6 +2,7 @@ package aitch
 
 import (
 	"github.com/go-andiamo/aitch/context"
+	"slices"
 )
 
 func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[string]int, conditionals conditionalAttributes) {
@@ -88,8 +89,12 @@ func (e *voidElement) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
-					continue
+					// merge into a new attribute - the existing one may be shared with other elements
+					att = &delimitedAttribute{
+						name:      delimited.name,
+						delimiter: delimited.delimiter,
+						values:    slices.Concat(delimited.values, addD.values),
+					}
 				}
 			}
 			e.attributes[idx] = att
@@ -154,8 +159,12 @@ func (e *element) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
-					continue
+					// merge into a new attribute - the existing one may be shared with other elements
+					att = &delimitedAttribute{
+						name:      delimited.name,
+						delimiter: delimited.delimiter,
+						values:    slices.Concat(delimited.values, addD.values),
+					}
 				}
 			}
 			e.attributes[idx] = att
-- 
2.43.0


From e9d29125a7ba404ce4ffc1017e925e880729f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 05/21] fix: keep the conditions of sibling conditionals apart

Sibling conditionals nested three or more deep shared the backing array of their
condition lists, so a later sibling's condition replaced an earlier one's.
---
 element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element.go b/element.go
index 72821af..f18a8cc 100644
--- a/element.go
+++ b/element.go
@@ -260,7 +260,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					attrs = append(attrs, addA...)
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
-					newConditions := append(conditions, cn.fn)
+					newConditions := append(slices.Clip(conditions), cn.fn)
 					for _, a := range cn.attributes {
 						condAttrs = append(condAttrs, conditionalAttribute{
 							attribute:  a,
-- 
2.43.0


From 6ec7c356f59432c1291fe7d3696bc6b13444db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 06/21] fix: context.Get no longer panics on some kinds of
 cargo

Maps with a named string key type, unexported struct fields and fields promoted
through a nil embedded pointer made Get panic instead of reporting false.
---
 context/context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context/context.go b/context/context.go
index cdbec55..7df739b 100644
--- a/context/context.go
+++ b/context/context.go
@@ -60,7 +60,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 		switch v.Kind() {
 		case reflect.Map:
 			if v.Type().Key().Kind() == reflect.String {
-				if val := v.MapIndex(reflect.ValueOf(key)); val.IsValid() {
+				if val := v.MapIndex(reflect.ValueOf(key).Convert(v.Type().Key())); val.IsValid() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
@@ -68,7 +68,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 			}
 		case reflect.Struct:
 			if f, ok := v.Type().FieldByName(key); ok {
-				if val := v.FieldByIndex(f.Index); val.IsValid() {
+				if val, err := v.FieldByIndexErr(f.Index); err == nil && val.CanInterface() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
-- 
2.43.0


From c4a63f538b5f5cdd0cddbcb15c6763f2d124b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 07/21] fix: ignore nil nodes in conditionals and iterators

Element and attribute constructors return nil for an invalid name; passing that
on to Conditional, When or the iterators panicked instead of being ignored.
---
 conditional.go | 3 +++
 iterate.go     | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/conditional.go b/conditional.go
index 852f78c..232e013 100644
--- a/conditional.go
+++ b/conditional.go
@@ -77,6 +77,9 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 		fn:         fn,
 	}
 	for _, n := range nodes {
+		if n == nil {
+			continue
+		}
 		if n.Type() == AttributeNode {
 			result.attributes = append(result.attributes, n)
 		} else {
diff --git a/iterate.go b/iterate.go
index 5836e56..0b6b219 100644
--- a/iterate.go
+++ b/iterate.go
@@ -23,7 +23,7 @@ func Iterate(fn func(ctx *context.Context) []any, nodes ...Node) Node {
 		fn:    fn,
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -59,7 +59,7 @@ func IterateKey(key string, nodes ...Node) Node {
 		},
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -128,7 +128,7 @@ func IterateYield(fn func(ctx *context.Context, yield func(any)), nodes ...Node)
 		nodes: make([]Node, 0, len(nodes)),
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
-- 
2.43.0


From f5f4a15792bf3feedc898bb08c3e9cdcbdc3d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 08/21] fix: do not leak one yielded item's data into the next

IterateYield kept the previous item's map as Context.Data when the next item was
not a map; it now uses the outer data, as Iterate and IterateKey do.
---
 iterate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iterate.go b/iterate.go
index 0b6b219..f7b8038 100644
--- a/iterate.go
+++ b/iterate.go
@@ -156,6 +156,8 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
+		} else {
+			ictx.Data = ctx.Data
 		}
 		for _, n := range i.nodes {
 			if renderNode(ictx, n); ictx.Error != nil {
-- 
2.43.0


From 6ca9185c82f5e8aadfd19e350d4c22e29067fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 09/21] fix: do not write into an attribute's values while
 starting an element

ImperativeContext.Start appended merged values to the value list of the first
attribute node, writing into memory shared between concurrent renders.
---
 imperative.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/imperative.go b/imperative.go
index a68d2a0..11451db 100644
--- a/imperative.go
+++ b/imperative.go
@@ -1,6 +1,9 @@
 package aitch
 
-import "github.com/go-andiamo/aitch/context"
+import (
+	"github.com/go-andiamo/aitch/context"
+	"slices"
+)
 
 // ImperativeContext is an interface that is passed to the func supplied to Imperative during rendering
 type ImperativeContext interface {
@@ -87,7 +90,7 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 		if attr != nil && attr.Type() == AttributeNode {
 			if idx, ok := attIndices[attr.Name()]; ok {
 				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := attValues[idx]
+					avs := slices.Clip(attValues[idx])
 					for _, dv := range da.values {
 						if len(avs) > 0 {
 							avs = append(avs, Value{value: da.delimiter})
-- 
2.43.0


From e64935d6bafb117ac65529fe30f0a2f395dd1d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 10/21] fix: html escape values that implement fmt.Stringer

String values are escaped but the text of a fmt.Stringer was written as is, so it
could inject markup.
---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index f88e5c2..e931acb 100644
--- a/value.go
+++ b/value.go
@@ -158,7 +158,7 @@ func valueToBytes(v any) []byte {
 	case float64:
 		return []byte(strconv.FormatFloat(vt, 'g', -1, 64))
 	case fmt.Stringer:
-		return []byte(vt.String())
+		return htmlEscapeString(vt.String())
 	case func() any:
 		return valueToBytes(vt())
 	}
-- 
2.43.0


From d49e9222b09cc7741563f4c8575cbfaf2f0b6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 11/21] fix: css units no longer write into the caller's slice

The unit was appended to the variadic arguments in place, overwriting the element
after them when a sub-slice was passed.
---
 css/units.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/css/units.go b/css/units.go
index f7d4c47..618f944 100644
--- a/css/units.go
+++ b/css/units.go
@@ -1,6 +1,9 @@
 package css
 
-import "github.com/go-andiamo/aitch"
+import (
+	"github.com/go-andiamo/aitch"
+	"slices"
+)
 
 var (
 	unitPx      = []byte("px")
@@ -22,75 +25,75 @@ var (
 
 // Px creates a value with "px" (pixels)
 func Px(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPx)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitPx)...)
 }
 
 // Pt creates a value with "pt" (points)
 func Pt(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPt)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitPt)...)
 }
 
 // Pc creates a value with "pc" (picas)
 func Pc(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPc)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitPc)...)
 }
 
 // In creates a value with "in" (inches)
 func In(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitInch)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitInch)...)
 }
 
 // Cm creates a value with "cm" (centimeters)
 func Cm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCm)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitCm)...)
 }
 
 // Mm creates a value with "mm" (millimeters)
 func Mm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitMm)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitMm)...)
 }
 
 // Em creates a value with "em" (relative to parent font size)
 func Em(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEm)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitEm)...)
 }
 
 // Rem creates a value with "rem" (relative to root font size)
 func Rem(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitRem)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitRem)...)
 }
 
 // Percent creates a value with "%" (unitPercent)
 func Percent(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPercent)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitPercent)...)
 }
 
 // Vw creates a value with "vw" (viewport width)
 func Vw(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVw)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitVw)...)
 }
 
 // Vh creates a value with "vh" (viewport height)
 func Vh(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVh)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitVh)...)
 }
 
 // VMin creates a value with "vmin" (smaller of vw or vh)
 func VMin(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmin)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitVmin)...)
 }
 
 // VMax creates a value with "vmax" (larger of vw or vh)
 func VMax(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmax)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitVmax)...)
 }
 
 // Ch creates a value with "ch" (width of 0 glyph)
 func Ch(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCh)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitCh)...)
 }
 
 // Ex creates a value with "ex" (x-height of current font)
 func Ex(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEx)...)
+	return aitch.NewConcatValue(append(slices.Clip(value), unitEx)...)
 }
-- 
2.43.0


From f326102b62529b9c413857cb580b899b8bf601c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 12/21] fix: html escape the keys of a HeadersMap

Only double quotes were escaped, so a key holding & or < was not rendered as given.
---
 htmx/attributes.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/htmx/attributes.go b/htmx/attributes.go
index d6612c5..a07a049 100644
--- a/htmx/attributes.go
+++ b/htmx/attributes.go
@@ -3,7 +3,6 @@ package htmx
 import (
 	"github.com/go-andiamo/aitch"
 	"sort"
-	"strings"
 )
 
 // Get declares an "hx-get" attribute for issuing a GET request via htmx
@@ -325,7 +324,7 @@ func (m HeadersMap) serialize(prefix []byte) []any {
 	sort.Strings(keys)
 	delimit := ""
 	for _, key := range keys {
-		result = append(result, []byte(delimit+`'`+strings.ReplaceAll(key, `"`, `&quot;`)+`': `), m[key])
+		result = append(result, []byte(delimit+`'`), key, []byte(`': `), m[key])
 		delimit = ", "
 	}
 	result = append(result, []byte{'}'})
-- 
2.43.0


From adbd6d0f1f38a0ea042b221e394bef134ba431c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 13/21] fix: merge repeated svg class attributes

html.Class merges repeated declarations, as documented; svg.Class kept only the last.
---
 svg/attributes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svg/attributes.go b/svg/attributes.go
index 72511d0..74cf035 100644
--- a/svg/attributes.go
+++ b/svg/attributes.go
@@ -49,7 +49,7 @@ func CalcMode(value ...any) aitch.Node {
 
 // Class declares an SVG "class" attribute
 func Class(value ...any) aitch.Node {
-	return aitch.NewAttribute(attrClass, value...)
+	return aitch.NewDelimitedAttribute(attrClass, space, value...)
 }
 
 // Clip declares an SVG "clip" attribute
@@ -720,6 +720,7 @@ func Y2(value ...any) aitch.Node {
 }
 
 var (
+	space                          = []byte{' '}
 	stylesDelim                    = []byte{';', ' '}
 	attrAccumulate                 = []byte("accumulate")
 	attrAdditive                   = []byte("additive")
-- 
2.43.0


From 8cae9e83fac2ddd8d8362fcad77b3180ac43819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 14/21] fix: GenerateCode reports the first write error

Each write overwrote the error of the one before, so a failed write was lost.
---
 html/generator.go | 14 ++++++++++++++
 svg/generator.go  | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/html/generator.go b/html/generator.go
index ea0701f..462adc9 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -14,6 +14,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if w == nil {
 		w = os.Stdout
 	}
+	w = &errorLatch{w: w}
 	elemMap, attrMap, boolAttrs := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
@@ -137,6 +138,19 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// errorLatch is an io.Writer that stops writing at the first error - and keeps returning it
+type errorLatch struct {
+	w   io.Writer
+	err error
+}
+
+func (l *errorLatch) Write(data []byte) (n int, err error) {
+	if l.err == nil {
+		n, l.err = l.w.Write(data)
+	}
+	return n, l.err
+}
+
 func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[string]bool) {
 	elems = map[string]any{
 		"a":          A,
diff --git a/svg/generator.go b/svg/generator.go
index e5bfdfe..bbcfea4 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -14,6 +14,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if w == nil {
 		w = os.Stdout
 	}
+	w = &errorLatch{w: w}
 	elemMap, attrMap := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
@@ -129,6 +130,19 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// errorLatch is an io.Writer that stops writing at the first error - and keeps returning it
+type errorLatch struct {
+	w   io.Writer
+	err error
+}
+
+func (l *errorLatch) Write(data []byte) (n int, err error) {
+	if l.err == nil {
+		n, l.err = l.w.Write(data)
+	}
+	return n, l.err
+}
+
 func mappings() (elems map[string]any, attrs map[string]any) {
 	elems = map[string]any{
 		"altGlyph":            AltGlyph,
-- 
2.43.0


From 6caacde4fa2c3cdc3f48ffc5edaa11a99b1aff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 15/21] fix: GenerateCode always emits valid Go string literals

Element and attribute names were not escaped at all, and text was not escaped for
characters Go rejects in a string literal, so the document could inject code.
---
 html/generator.go | 11 +++++------
 svg/generator.go  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 462adc9..d482f88 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -49,17 +50,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -83,7 +82,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				}
 			} else {
 				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
+				_, err = w.Write([]byte(escape(a.Key)))
 				_, err = w.Write([]byte{'"', ' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
diff --git a/svg/generator.go b/svg/generator.go
index bbcfea4..5cec8cd 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -49,17 +50,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -78,7 +77,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				_, err = w.Write([]byte{'"', ')'})
 			} else {
 				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
+				_, err = w.Write([]byte(escape(a.Key)))
 				_, err = w.Write([]byte{'"', ' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
-- 
2.43.0


From cf3406f74ac010b3a7f57a5f6755371514863cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 16/21] fix: GenerateCode emits balanced calls

Void elements without a slash, unclosed elements and stray end tags all left the
generated code with unbalanced parentheses.
---
 html/generator.go | 30 +++++++++++++++++++++++++++---
 svg/generator.go  | 10 ++++++++--
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index d482f88..14a681f 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -115,13 +115,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
-			writeElementStart(token.Data, token.Attr, false)
+			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			if token := tokenizer.Token(); !voidElements[token.Data] && len(indent) > 1 {
+				decIndent()
+				write("),")
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`html.Comment("` + escape(token.Data) + `"),`)
@@ -130,6 +132,10 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
 		}
 	}
+	for err == nil && len(indent) > 1 {
+		decIndent()
+		write("),")
+	}
 	if err == nil {
 		decIndent()
 		write(")\n")
@@ -137,6 +143,24 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// voidElements are the elements that never have an end tag
+var voidElements = map[string]bool{
+	"area":   true,
+	"base":   true,
+	"br":     true,
+	"col":    true,
+	"embed":  true,
+	"hr":     true,
+	"img":    true,
+	"input":  true,
+	"link":   true,
+	"meta":   true,
+	"param":  true,
+	"source": true,
+	"track":  true,
+	"wbr":    true,
+}
+
 // errorLatch is an io.Writer that stops writing at the first error - and keeps returning it
 type errorLatch struct {
 	w   io.Writer
diff --git a/svg/generator.go b/svg/generator.go
index 5cec8cd..dcdfd57 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -115,13 +115,19 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			if len(indent) > 1 {
+				decIndent()
+				write("),")
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`svg.Comment("` + escape(token.Data) + `"),`)
 		}
 	}
+	for err == nil && len(indent) > 1 {
+		decIndent()
+		write("),")
+	}
 	if err == nil {
 		decIndent()
 		write(")\n")
-- 
2.43.0


From 1c4847f4ce0b71554a0675e8853ef2985ccfa14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 17/21] fix: generate aria- and data- attributes by name, not
 with the constructors of name prefixes

---
 html/generator.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 14a681f..1f0b1fe 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -286,7 +286,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"action":              Action,
 		"allowfullscreen":     AllowFullScreen,
 		"alt":                 Alt,
-		"aria-":               Aria,
 		"aria-atomic":         AriaAtomic,
 		"aria-busy":           AriaBusy,
 		"aria-checked":        AriaChecked,
@@ -328,7 +327,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"contenteditable":     ContentEditable,
 		"controls":            Controls,
 		"crossorigin":         CrossOrigin,
-		"data-":               Data,
 		"datetime":            DateTime,
 		"default":             Default,
 		"defer":               Defer,
-- 
2.43.0


From d371c530c7479c03173967337297e2ef9de6b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 18/21] fix: document MarkerHeight by the attribute it declares

---
 svg/attributes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svg/attributes.go b/svg/attributes.go
index 74cf035..73cfac3 100644
--- a/svg/attributes.go
+++ b/svg/attributes.go
@@ -332,7 +332,7 @@ func MarkerStart(value ...any) aitch.Node {
 	return aitch.NewAttribute(attrMarkerStart, value...)
 }
 
-// MarkerHeight declares an SVG "marker-height" attribute
+// MarkerHeight declares an SVG "markerHeight" attribute
 func MarkerHeight(value ...any) aitch.Node {
 	return aitch.NewAttribute(attrMarkerHeight, value...)
 }
-- 
2.43.0


From 382a724094638c1ee69814644bc7042b6aa2d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 19/21] fix: a nil func() any value renders as nothing rather
 than panicking

---
 value.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index e931acb..2cf038d 100644
--- a/value.go
+++ b/value.go
@@ -160,7 +160,9 @@ func valueToBytes(v any) []byte {
 	case fmt.Stringer:
 		return htmlEscapeString(vt.String())
 	case func() any:
-		return valueToBytes(vt())
+		if vt != nil {
+			return valueToBytes(vt())
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 1988cf5456728d965fb20b1533321afbaa6d4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 20/21] fix: templates return an error that a bound node
 recorded in the context

---
 template.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/template.go b/template.go
index f75e7fe..16ccdc7 100644
--- a/template.go
+++ b/template.go
@@ -66,13 +66,13 @@ func contextFuncMap(nodeMap NodeMap) template.FuncMap {
 func contextFunc(node Node) any {
 	if node.Type() == AttributeNode {
 		return func(ctx *context.Context) (template.HTMLAttr, error) {
-			err := node.Render(ctx)
-			return "", err
+			renderNode(ctx, node)
+			return "", ctx.Error
 		}
 	} else {
 		return func(ctx *context.Context) (template.HTML, error) {
-			err := node.Render(ctx)
-			return "", err
+			renderNode(ctx, node)
+			return "", ctx.Error
 		}
 	}
 }
-- 
2.43.0


From e611beab69e0bcb9cdca719db051237af0253871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 21/21] fix: Start delimits the values of attributes in the
 same way as elements do

A delimiter was written before the first value when dynamic values before it are empty.
---
 imperative.go | 58 +++++++--------------------------------------------
 1 file changed, 8 insertions(+), 50 deletions(-)

diff --git a/imperative.go b/imperative.go
index 11451db..dd635a3 100644
--- a/imperative.go
+++ b/imperative.go
@@ -2,7 +2,6 @@ package aitch
 
 import (
 	"github.com/go-andiamo/aitch/context"
-	"slices"
 )
 
 // ImperativeContext is an interface that is passed to the func supplied to Imperative during rendering
@@ -81,60 +80,19 @@ func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 }
 
 func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Node) {
-	ic.ctx.Write(openAngleBracket)
-	ic.ctx.Write(elementName)
-	attValues := make([][]Value, 0, len(attrs))
-	attNames := make([][]byte, 0, len(attrs))
-	attIndices := map[string]int{}
+	// rendered as the start tag of an element, so that attributes are merged and delimited in the same way
+	attributes := make([]Node, 0, len(attrs))
 	for _, attr := range attrs {
 		if attr != nil && attr.Type() == AttributeNode {
-			if idx, ok := attIndices[attr.Name()]; ok {
-				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := slices.Clip(attValues[idx])
-					for _, dv := range da.values {
-						if len(avs) > 0 {
-							avs = append(avs, Value{value: da.delimiter})
-						}
-						avs = append(avs, dv)
-					}
-					attValues[idx] = avs
-				} else if va, ok := attr.(valuesNode); ok {
-					attValues[idx] = va.getValues()
-				} else {
-					attValues[idx] = nil
-				}
-			} else {
-				attIndices[attr.Name()] = len(attNames)
-				attNames = append(attNames, []byte(attr.Name()))
-				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := make([]Value, 0, len(da.values)*2)
-					for i, v := range da.values {
-						if i > 0 {
-							avs = append(avs, Value{value: da.delimiter})
-						}
-						avs = append(avs, v)
-					}
-					attValues = append(attValues, avs)
-				} else if vn, ok := attr.(valuesNode); ok {
-					attValues = append(attValues, vn.getValues())
-				} else {
-					attValues = append(attValues, nil)
-				}
-			}
+			attributes = append(attributes, attr)
 		}
 	}
-	for a, attName := range attNames {
-		ic.ctx.Write(space)
-		ic.ctx.Write(attName)
-		if vs := attValues[a]; vs != nil {
-			ic.ctx.Write(attStart)
-			for _, vv := range vs {
-				_, _ = vv.render(ic.ctx)
-			}
-			ic.ctx.Write(attEnd)
-		}
+	tag := &voidElement{
+		name:       elementName,
+		attributes: make([]Node, 0, len(attributes)),
+		attIndices: make(map[string]int, len(attributes)),
 	}
-	ic.ctx.Write(closeAngleBracket)
+	_ = tag.addAttributes(attributes).Render(ic.ctx)
 	if !isVoid {
 		ic.openedStack = append(ic.openedStack, elementName)
 	}
-- 
2.43.0

