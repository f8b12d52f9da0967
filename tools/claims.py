AI="path-sensitive abstract interpretation of the SSA form"
T="Trusts go/ssa, the stated models of the standard library and that user-supplied nodes, callbacks and writers keep their contract."
claims={
"C01":(AI+" with a failure typestate","other","Every write, child, callback and read is explored both failing and succeeding in every render-side function; at every exit the context error and the result must be the first failure. Constraint: loops are abstracted. "+T),
"C02":(AI+" with a failure typestate","other","No raw write is reachable in a state where a failure has happened, and code run after a failure always sees it in its context. "+T),
"C03":(AI+" with a character-class taint domain","other","At every raw write of every render-side function, and at every return of finished bytes, the text holds none of < > & \" ' NUL that came from a string. Loops over text are summarised by segment facts. "+T),
"C05":(AI+" with an ownership (allocation) domain","other","Every store, append, map update, copy and sort executed while rendering targets memory allocated by that render, or its context. "+T),
"C06":(AI+" with an ownership (allocation) domain","other","Every store, append, map update, copy and sort executed while building targets memory allocated by that call. "+T),
"C13":(AI+" joined with regular-language inclusion of the path conditions","other","For every exit of a name-checking constructor that returns a node, the language of names admitted by the conditions passed on the path (pattern matches, string comparisons) is included in the language of valid names; the offending name is produced otherwise. "+T),
"C14":(AI+" with a nil-ness domain","other","Every method call on a node, call of a user function and dereference of a node, in every function that builds or renders, is reached only with a value known to be non-nil (tested on the path, or an element of a list whose construction excludes nil). "+T),
"C24":(AI+" of builders and renderers, effect rule on calls of user functions","other","No function that builds nodes or templates reaches a call of a user function taking the context or a render of a node; every such call made while rendering passes a context known to exist. That results are not cached in nodes is decided by C05. "+T),
"C16":(AI+" of the constructors with the element name pinned, composed with Render, plus a table query","other","For every vocabulary and void name, Element(name) and the dedicated constructor are analysed together with the Render of what they return; an end tag must be reachable on every path or on none. The generator's set is read from its map literal. One known finding (html.Track, pinned by an existing test). "+T),
"C19":("cross-package table query over SSA map literals joined with symbolic summaries of constructors, and "+AI+" of the generators with an abstract scanner of the emitted code","other","Every entry of the generators' tables is joined with the symbolic result of the constructor it names: same name, same kind, callable with the arguments the generator emits. On every path of a generator the name of an emitted function is the table's entry for the document's own element or attribute name, and an attribute function gets no argument exactly where its name is known to be boolean. "+T),
"C17":(AI+" of the generators with an abstract scanner of the emitted Go code","other","On every path, every text of the document that is written is inside a string literal, is the strconv.Quote form, and a literal holds exactly one text of the document, in the place that belongs to it (name, value of the same attribute, text). strconv.Quote and the tokenizer are trusted. "+T),
"C20":(AI+" of the generators with an abstract scanner of the emitted Go code and a counter domain","other","On every path, at every closing parenthesis that is written a call is known to be open inside the collection, and at every successful end none is. The count of open calls is related to the quantities the generator keeps (lengths, counters) through the loops. "+T),
"C04":(AI+" with a domain of order-dependent values","other","No render-side write, child, callback or stored value depends on map iteration order, time, randomness, addresses or scheduling: values and iteration orders that come from these are tracked through assignments, appends and sorts, and sorting is accepted only with a comparison that orders all distinct elements. "+T),
"C23":("symbolic summaries of constructors compared with their documentation","other","Each exported constructor of html, svg, htmx and css is executed abstractly to a term over its parameters; name, delimiter and the sequence of values are compared with the documented name and the parameter list, and across packages. Not decided: values computed by loops (htmx.Headers). "+T),
"C12":(AI+" with a table of preconditions of reflect operations","other","Every reflect operation, single-result type assertion, call of a possibly nil function and explicit panic, in every context lookup and everything executed while rendering, must have its precondition (kind, validity, nil-ness, CanInterface, bounds of key types) established on the path. Constraint: index and slice bounds of ordinary slices are not decided. "+T),
"C15":(AI+" composing value construction with rendering into a conversion term per documented type","other","For each documented value type, given directly, through a data key and through cargo, construction and rendering are composed; the text written on every path must be the decimal conversion of the full value with the type's signedness and bit size, or the escaped text, and never nothing. "+T),
"C11":(AI+" of the context each child is rendered with","other","At every render of a node with a context made by the iteration, the context's Cargo must be the current item, Data the item (known to be a map of string to any) or the outer Data (known not to be), Parent and Writer the outer ones; at every exit of a render the outer context holds what it held. That every item is visited is not decided here. "+T),
"C21":(AI+" with an ownership domain over templates, contexts and bound functions","other","The template is executed with the caller's writer and a context allocated by that execution holding exactly the caller's writer, data and cargo; every non-nil node of the map is bound under its key, as an attribute exactly when it is one; a bound function renders its node once with the context it gets and returns its failure. html/template itself is trusted. "+T),
"C07":(AI+" with an abstract scanner of the written markup and a stack of open elements","other","Every path of every Render method and of every operation of imperative contexts is followed by a scanner of markup: quotes, comments, tags and declarations that are opened are closed, an end tag names the element that was opened last, Start records exactly the element it wrote, End and EndAll end what was recorded, from the last to the first. Constraint: loops that count in other ways than by the position on the stack are followed exactly for four iterations and undecided after. "+T),
"C08":(AI+" with an abstract scanner of the written markup and a domain of kinds of nodes","other","At every render of a node the place where the output is (start tag or content) is known, and the node is known to be (or not to be) an attribute there, from the tests on the path and the invariants of the fields it was kept in. "+T),
"C10":(AI+" with a typestate of tested conditions and a domain of lists of conditions","other","Rendering: content kept next to a condition is rendered only where that condition returned true on the path; a conditional attribute is used only where every condition of its list returned true (the position of the last tested condition is related to the loop). Building: the list of conditions an attribute is kept with is exactly the list of those that enclose it, and is never extended in place. Attributes whose conditions hold are grouped by name and every group is rendered. When: every outcome of both forms compared with the truth table. "+T),
"C09":(AI+" with a domain of lists indexed by name","other","Building: an attribute is appended to the list of an element only where the index of names is known not to have its name, the index gets exactly that name and position, and a repeated attribute takes the place of the one of its name or, when both are joined, is merged; functions that leave this to their callers are decided at the callers. Rendering: every position of that list and every name of the groups of conditional attributes is rendered at most once, names only where the index is known not to have them, and no other list of attributes goes into a start tag. Every attribute type writes exactly once the name it is known by. Names are compared as written (not case-folded). "+T),
"C22":(AI+" with a typestate of dynamic paths, joined with the escape analysis of the compiler","other","Every Render method (and Context.Write, and recursive functions they call) is followed along the paths on which no user function is called, no conditional attribute exists and no context is made. Every instruction executed there that can allocate (literals, make, closures, interface conversions, text conversions and joins, append, map entries, known functions of the standard library, constructors and methods called through interfaces) must be reported by the compiler not to be on the heap. The compiler's report (go build -gcflags=-m) is recomputed from the tree on every run and trusted; it holds for this Go version. Writers are outside. "+T),
"C25":(AI+" with a domain of written value sequences","other","For every function that renders an attribute, and the element that merges attributes of one name, every separator written is the delimiter of that attribute, is written exactly between two values that were written, and every value that is not empty is written. The merge keeps the values of both attributes in order. "+T),
"C26":(AI+" with a domain of positions in lists (how far each list a function was given has been used)","other","In every constructor, and every Render method, the nodes, values and items that were given or kept are used one by one in order, or as a whole, until the end of the list on every successful path; what is left out is known to be nil, an attribute where none has a place, or under a condition that was false. The function that collects attributes looks into every type that keeps attributes, and what it finds inside is kept. Attributes under conditions are kept in groups by their names: nothing kept is replaced, each name is noted, and each group is rendered completely when it is joined, or by its last attribute. "+T),
"C18":(AI+" with a failure typestate","other","In both GenerateCode functions every read and write is explored failing; the result must be that first failure. "+T),
}
reasons={"C27":"whether compiled generated code renders equivalent markup quantifies over the behaviour of two programs on all documents; the parts with a static shape are C16, C17, C19 and C20"}
