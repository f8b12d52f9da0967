#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe or [],hook_needed=None)))

p("C01","The first failure of a render is the one reported",
 "When a write, a user callback or a nested node fails while a node is rendered, the first such failure is what Render returns and what the context's Error holds at the end. It is never cleared, replaced by a later failure, or turned into success; this holds through elements, attributes, values, conditionals, iterators, imperative code, documents and templates.",
 ["fault_sequences","inputs","programs"],"every node tree, every writer, every position and number of failing writes, every callback or foreign node that returns an error",
 "The tests use a writer that fails on every call and look only for some error; a writer that fails once and recovers, or a child that fails between succeeding siblings, is never tried, and the tree shapes are unbounded.",
 ["context/context.go","value.go","attribute.go","element.go","collection.go","conditional.go","iterate.go","imperative.go","comment.go","fragment.go","text.go","pi.go","html/document.go","template.go","aitch.go"],
 [("Context.Write records an error only while none is recorded","context/context.go Write"),("renderNode records a child's error unless one is recorded","aitch.go renderNode"),("iterators hand the error of the iteration context to the outer one","iterate.go Render")],
 [("Context.Error","first error of the render","context/context.go")],["return value of Render","Context.Error","return value of Template.Execute"])

p("C02","Nothing is written after a failure",
 "Once a write has failed, or a callback or nested node has reported an error, no further byte reaches the writer for the rest of that render. Output is therefore always a prefix of what a successful render would have produced.",
 ["fault_sequences","inputs","programs"],"every node tree, every writer and every failing write or callback",
 "The tests' failing writer rejects everything and counts nothing, so writes attempted after the first failure are invisible to them.",
 ["context/context.go","value.go","element.go","attribute.go","iterate.go","imperative.go","collection.go","conditional.go"],
 [("all output goes through Context.Write, which is a no-op once an error is recorded","context/context.go Write"),("iteration contexts start from the outer error","iterate.go Render")],
 [("Context.Error","first error of the render","context/context.go")],["calls of the io.Writer"])

p("C03","Text supplied as strings is always HTML-escaped",
 "Every string (or fmt.Stringer text) supplied as element text, comment, fragment, attribute value, htmx header key or value, CSS value or through render data reaches the output with each of < > & \" ' replaced by its entity and NUL removed. Only values given as []byte (or returned as []byte by a dynamic function), written with WriteRaw, or given as names of nodes are emitted as they are.",
 ["inputs"],"every string, at every position that accepts a value, static or dynamic",
 "The escaping test uses one string that contains all six characters at once, and almost no other test contains a special character; a path or a length, type or character combination that bypasses escaping passes them all.",
 ["value.go","imperative.go","htmx/attributes.go","css/properties.go","attribute.go","text.go","comment.go","fragment.go"],
 [("htmlEscapeString and its fast path","value.go htmlEscapeString"),("valueToBytes is the only conversion from values to output bytes","value.go valueToBytes"),("WriteString escapes","imperative.go WriteString")],
 [("Value.value","bytes written verbatim at render time","value.go")],["bytes passed to the io.Writer"])

p("C04","Rendering is deterministic",
 "Rendering the same node with equal data and callbacks that return equal results always writes the same bytes, in every run and every process. In particular neither attribute order nor header order depends on map iteration order, time, randomness or scheduling.",
 ["inputs","schedules","programs"],"every node tree and data, every run",
 "A single run observes one map iteration order; the tests that render several attributes under a condition pick cases with at most one order-sensitive outcome.",
 ["element.go","conditional.go","htmx/attributes.go","imperative.go"],
 [("attributes are rendered by walking slices in declared order","element.go renderAttributes"),("header keys are sorted","htmx/attributes.go serialize")],None,["bytes passed to the io.Writer"])

p("C05","Rendering never modifies shared state",
 "Rendering a node writes only to memory allocated for that render, to the render context it was given, and to the writer. It never modifies a node, a node's attribute or value lists, package-level state, or the caller's data, so one node can be rendered any number of times and by any number of goroutines at once.",
 ["schedules","histories","programs"],"every node tree, every number and interleaving of renders of the same node",
 "No test renders one node concurrently or compares a node before and after rendering; the race detector only sees the schedules and trees a test runs.",
 ["element.go","attribute.go","value.go","imperative.go","iterate.go","conditional.go","collection.go","template.go"],
 [("render methods only read their receivers","*.go Render"),("merging at render time copies into a local attribute","element.go renderAttributes, imperative.go Start")],
 [("element.attributes, attribute.values, conditional.conditions","shared, immutable after construction","element.go, attribute.go, conditional.go")],["a later or concurrent render of the same node"])

p("C06","Building nodes never modifies what they are built from",
 "Constructing a node, value or template never modifies the nodes, values, slices or maps passed to it, nor any package-level state. A node can therefore be used as a part of any number of other nodes without affecting them.",
 ["histories","programs"],"every sequence of constructor calls that share nodes, values or slices",
 "The tests build each node once from fresh parts, so writes into a shared part are never observed.",
 ["element.go","attribute.go","value.go","collection.go","conditional.go","css/units.go","css/properties.go","htmx/attributes.go","html/attributes.go"],
 [("merging repeated attributes builds a new attribute","element.go addAttributes"),("condition lists are clipped before being extended","element.go attributesAndContents"),("css units clip the caller's arguments","css/units.go")],None,["a later render of the node that was passed"])

p("C07","Markup written by the library is always well formed",
 "Every rendered element writes <name, its attributes, > and, unless it is void, its contents followed by exactly one matching </name>; a void element writes no end tag. Every attribute that has a value opens and closes its quotes, every comment is opened and closed, and attribute syntax never appears outside a start tag.",
 ["inputs","programs"],"every node tree and data, every sequence of imperative Start and End calls, whenever no error occurs",
 "Tests compare the output of a few small trees; whether delimiters balance on every path (empty values, conditional attributes, nested iteration) is not something samples settle.",
 ["element.go","attribute.go","comment.go","pi.go","imperative.go","conditional.go","iterate.go"],
 [("Render methods write delimiters in fixed pairs","element.go, attribute.go, comment.go, pi.go"),("a stack of opened elements","imperative.go Start/End/EndAll")],
 [("imperativeContext.openedStack","elements started and not ended","imperative.go")],["bytes passed to the io.Writer"])

p("C08","Attributes render only in start tags, content only outside them",
 "An attribute node is only ever rendered inside the start tag of the element it belongs to, however deeply it was nested in collections or conditionals; contents, iterators, collectors, documents and WriteNodes never emit one in content position. Conversely a non-attribute node is never rendered inside a start tag.",
 ["inputs","programs"],"every way of nesting attribute and content nodes in elements, collections, conditionals, iterators, collectors and imperative code",
 "Tests try a handful of nestings; the property ranges over every container and every path through it.",
 ["element.go","collection.go","conditional.go","iterate.go","imperative.go","html/document.go","template.go"],
 [("containers filter on node type when built or when rendered","collection.go, conditional.go, iterate.go"),("attributesAndContents separates attributes from contents","element.go")],None,["bytes passed to the io.Writer"])

p("C09","A start tag never repeats an attribute name",
 "Whatever combination of repeated, merged and conditional attributes an element is given, its start tag carries at most one attribute of each name. A repeated attribute either replaces the earlier one or, when both are delimited, is merged with it.",
 ["inputs","programs"],"every list of attributes, static or conditional, on declared or imperatively started elements",
 "Tests repeat an attribute in a few fixed combinations; duplicates need a specific mix of names, kinds and conditions.",
 ["element.go","imperative.go","conditional.go"],
 [("an index from name to position guards every insertion","element.go addAttributes, imperative.go Start"),("conditional attributes are grouped by name","conditional.go evaluate, element.go renderAttributes")],None,["bytes passed to the io.Writer"])

p("C10","Conditional nodes appear exactly when their conditions hold",
 "Content under a conditional is rendered only when its condition returned true in that render, and an attribute only when the conditions of every conditional that encloses it returned true; conditions of unrelated conditionals never matter. When tests the data key it was given, and its negated form is the exact opposite for boolean and missing values.",
 ["inputs","programs"],"every nesting of conditionals and collections, every combination of condition results",
 "Tests nest two levels with fixed results; wrong gating needs deeper nesting, siblings or particular truth assignments.",
 ["conditional.go","element.go"],
 [("Render asks the condition first","conditional.go Render"),("an attribute carries the conditions of all enclosing conditionals","element.go attributesAndContents, conditional.go evaluate")],None,["bytes passed to the io.Writer"])

p("C11","Each iteration sees its own item and the outer context is untouched",
 "While an item is rendered by any iterator the context's Cargo is that item, its Data is the item when it is a map of string to any and otherwise the outer Data, its Parent is the outer context and its Writer is the outer writer. Nothing of one item's data is visible to the next item, and the outer context's Data, Cargo and Writer are the same after iteration as before.",
 ["inputs","histories"],"every sequence of items of mixed types, every nesting of iterators",
 "Tests iterate over items of one uniform type, which cannot show data leaking from one item into the next.",
 ["iterate.go","context/context.go"],
 [("a separate context is used for iteration and set for every item","iterate.go Render")],None,["Context seen by dynamic values, conditions and callbacks inside an iterator"])

p("C12","Context lookups never panic",
 "Get reports false instead of panicking for every context, every data map, every cargo value (nil pointers, maps of any key type, structs with unexported or embedded fields) and every key; only MustGet panics. Resolving dynamic keys and iterating over a data key are equally safe for every kind of value.",
 ["inputs"],"every cargo and data value of every type, every key",
 "The tests use string-keyed maps and one struct with an exported field; the reflection preconditions depend on types that samples do not reach.",
 ["context/context.go","iterate.go","value.go"],
 [("reflection calls are guarded by kind, validity and accessibility","context/context.go Get"),("IterateKey checks for a slice","iterate.go IterateKey")],None,["panic"])

p("C13","Invalid names never become elements or attributes",
 "The name-checking constructors accept a name only if it starts with a letter and continues with letters, digits, dot, underscore, hyphen or colon; for any other name they return nil, or panic when configured to. No node is ever built, and no byte ever written, from a name they reject.",
 ["inputs","configurations"],"every string given as a name, with either setting of the panic option",
 "Tests try one valid and one invalid name per constructor.",
 ["aitch.go","element.go","attribute.go"],
 [("every constructor tests the name before building","element.go Element/VoidElement, attribute.go Attribute/BooleanAttribute/DelimitedAttribute"),("the anchored name pattern","aitch.go htmlTagRegex")],None,["returned node"])

p("C14","Nil nodes are ignored everywhere",
 "Every constructor and every render-time callback that accepts nodes tolerates nil ones: they are skipped, never dereferenced and never rendered. A nil result of a name-checking constructor can therefore be passed anywhere a node is accepted, and nil iterator, condition, collector or imperative functions never cause a nil call while rendering.",
 ["inputs","programs"],"every position that accepts a node or a callback, nil at any index",
 "Tests pass nil to a few constructors only.",
 ["element.go","collection.go","conditional.go","iterate.go","imperative.go","template.go","html/document.go"],
 [("nil checks where nodes enter","collection.go, conditional.go, iterate.go, imperative.go, template.go, element.go")],None,["panic"])

p("C15","Numbers, booleans and bytes render exactly",
 "Every documented value type (bool, all integer and float types, string, []byte, Stringer) is rendered, and integers and floats are rendered as the decimal text of their exact value with the type's own signedness and precision. No value is truncated, wrapped, reinterpreted or silently dropped because of its type.",
 ["inputs"],"every value of every documented type",
 "Tests render the value 1 of each integer type, which survives any narrowing or sign error.",
 ["value.go"],[("one case per type, widening conversions only, base 10, shortest float at the type's precision","value.go valueToBytes")],None,["bytes passed to the io.Writer"])

p("C16","Void elements are void everywhere, and only they are",
 "An element is rendered without contents and end tag exactly when its name is one of the HTML void elements, whether it is built from its dedicated constructor, from its name, or emitted by the code generator; those three agree on one set. Every other element always has an end tag.",
 ["inputs","programs"],"every element constructor and every element name",
 "Tests check one void name through the by-name constructor and compare no tables with each other.",
 ["element.go","html/elements.go","html/generator.go","svg/elements.go"],
 [("table of void names","element.go voidElementNames"),("constructors choose the void form","html/elements.go"),("generator's table","html/generator.go voidElements")],None,["bytes passed to the io.Writer","generated code"])

p("C17","Generated code quotes all document text",
 "GenerateCode copies text, names, attribute values and comments of the input document into its output only inside Go string literals, escaped so that the literal is valid Go and denotes exactly that text. No document content can end up as code.",
 ["inputs"],"every input document, including quotes, backslashes, control characters and invalid UTF-8 in any position",
 "The tests generate code from one benign document each.",
 ["html/generator.go","svg/generator.go"],[("escape is applied to every piece of document data","html/generator.go, svg/generator.go escape")],None,["generated code"])

p("C18","GenerateCode reports the first read or write error",
 "GenerateCode returns a non-nil error whenever reading the document fails (other than at its end) or any write fails, and that error is the first one that occurred. It writes nothing after a failed write.",
 ["fault_sequences","inputs"],"every document, every position of a failing read or write",
 "The tests never give GenerateCode a failing reader or writer.",
 ["html/generator.go","svg/generator.go"],[("an error-latching writer","html/generator.go, svg/generator.go errorLatch"),("the token loop stops at the first error","html/generator.go, svg/generator.go GenerateCode")],None,["return value of GenerateCode","calls of the io.Writer"])

p("C19","Generated code calls the constructor of the very same name",
 "For every element and attribute name the code generators know, the function they emit builds a node of exactly that name, and is emitted with the arguments its signature needs (none for boolean attributes). Names they do not know are emitted by name.",
 ["inputs"],"every element and attribute name in the generators' tables",
 "Each generator is tested on one document with a handful of names out of more than 400.",
 ["html/generator.go","svg/generator.go","html/elements.go","html/attributes.go","svg/elements.go","svg/attributes.go"],
 [("name to constructor tables","html/generator.go mappings, svg/generator.go mappings")],None,["generated code"])

p("C20","Generated code has balanced calls",
 "Whatever the input document, including void elements, unclosed elements and stray end tags, the code GenerateCode emits opens and closes every call, nested inside the one collection, when no error occurs. It never closes a call it did not open.",
 ["inputs"],"every input document",
 "The tests generate code from one well-formed document each.",
 ["html/generator.go","svg/generator.go"],[("indentation depth counts open calls; only deeper levels are closed, and all are closed at the end","html/generator.go, svg/generator.go")],None,["generated code"])

p("C21","Templates render bound nodes into the template's own output",
 "Executing a template renders each bound node to the execution's own writer with the execution's own data and cargo, using a context created for that execution only, so parallel executions never share state. An error from a bound node or from the template is returned by Execute, attribute nodes are typed as attributes and all others as content, and nil nodes are not bound.",
 ["schedules","inputs","fault_sequences"],"every template, node map and data; every interleaving of executions",
 "The tests execute templates sequentially with succeeding writers.",
 ["template.go"],[("Execute creates the context","template.go Execute"),("the bound function returns the node's error","template.go contextFunc")],None,["output and return value of Execute"])

p("C22","Rendering a static template allocates no heap memory",
 "Rendering nodes without conditional attributes, dynamic values, collectors, iterators or imperative code performs no heap allocation in the library. The cost of a static render is only that of the writer.",
 ["inputs","programs"],"every static node tree",
 "Benchmarks are not part of the suite and measure single trees.",
 ["element.go","attribute.go","value.go","text.go","comment.go","fragment.go","pi.go","collection.go","html/document.go","context/context.go"],
 [("everything is turned into bytes when a node is built","value.go newValue"),("merging happens only when a conditional attribute exists","element.go renderAttributes")],None,["allocations during Render"])

p("C23","Every vocabulary constructor builds what it documents",
 "Each exported constructor of the html, svg, htmx and css packages builds a node whose element, attribute or property name is valid markup and is the one its documentation names, with the caller's values passed on completely and in order. Packages that share an attribute agree on whether repeated values are merged and on the delimiter.",
 ["programs","inputs"],"every exported constructor, every argument list",
 "Each constructor is tested with one or two arguments; agreement between packages and documentation is not tested.",
 ["html/elements.go","html/attributes.go","svg/elements.go","svg/attributes.go","htmx/attributes.go","htmx/constants.go","css/properties.go","css/constants.go","css/units.go"],
 [("one byte constant per name","html, svg, htmx, css var blocks"),("constructors delegate with the full argument list","html, svg, htmx, css")],None,["Name of the node","rendered output"])

p("C24","Callbacks run only while rendering, with the context being rendered",
 "Conditions, dynamic value functions, iterator, collector and imperative functions are never called while nodes or templates are built; they are called anew in every render and always receive a non-nil context that belongs to that render. Values that come from render data are never cached in a node.",
 ["histories","programs"],"every sequence of building and rendering",
 "Tests render a node at most a few times with the same data, so early evaluation or caching goes unnoticed.",
 ["conditional.go","value.go","iterate.go","imperative.go","collection.go","element.go"],
 [("nodes store the functions and call them from Render","conditional.go, iterate.go, imperative.go, collection.go, value.go")],None,["when callbacks run"])

p("C25","Values of a delimited attribute never run together",
 "In a delimited attribute (class, style and the like), whether declared once, repeated, merged conditionally or started imperatively, the delimiter is written between any two non-empty values, and never before the first value. An absent or empty dynamic value never joins its neighbours.",
 ["inputs"],"every list of static and dynamic values, any of which may render empty",
 "Tests use non-empty static values.",
 ["attribute.go","element.go","imperative.go"],
 [("whether the last value wrote something decides the delimiter","attribute.go delimitedAttribute.Render"),("merged values are rendered through the same routine or joined with delimiters","element.go renderAttributes, imperative.go Start")],None,["bytes passed to the io.Writer"])

p("C26","No node or attribute given to a constructor is lost",
 "Every non-nil node or value given to an element, collection or conditional takes part in rendering it: contents in the order given, attributes in the start tag even when nested in collections and conditionals at any depth and in any order. The only things dropped are those documented as ignored (contents of void elements, attributes given to iterators, collectors and WriteNodes).",
 ["inputs","programs"],"every argument list and nesting",
 "Tests cover a few argument shapes.",
 ["element.go","collection.go","conditional.go","value.go"],
 [("contentsToNodes, attributesAndContents","element.go"),("flattening of collections used as values","value.go newValue")],None,["bytes passed to the io.Writer"])

p("C27","Generated code re-creates the document",
 "Compiling and rendering the code GenerateCode emits for a document produces markup equivalent to that document.",
 ["inputs"],"every input document","The tests compare the generated code of one document with a golden text.",
 ["html/generator.go","svg/generator.go"],[("token by token translation","html/generator.go, svg/generator.go GenerateCode")],None,["generated code"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
