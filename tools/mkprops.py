#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Any document yields a model or an error, never a crash or a hang",
  "For every set of RAML, JSON and YAML files, parsing with any combination of the unwrap and validate options ends with a model or an error: it never panics, overflows the stack, exits the process or runs forever. "
  "The same holds for validating values against, cloning, and converting to JSON Schema every type of a model that parsing returned. "
  "This includes malformed and truncated YAML, facet values of the wrong kind, references that are missing, self-referential or mutually cyclic, and include cycles between files.",
  ["inputs"], "every document of the enumerated alphabet: each construct position x each YAML node kind, each reference graph and include graph over up to 3 nodes, each truncation and line deletion of a corpus document, each value kind against each type",
  "Unit tests parse a few dozen well-formed or singly-broken documents; a crash needs one particular malformed construct or reference cycle out of a combinatorial space, and a fatal stack overflow cannot even be asserted inside an ordinary test.",
  ["parse.go","fragment.go","resolve.go","unwrap.go","shape.go","complex.go","scalars.go","node.go","example.go","jsonschemaconv.go"],
  [("error returns on every malformed node","shape.go decode*, fragment.go UnmarshalYAML"),("cycle guards in resolution, unwrapping and recursion marking","resolve.go resolveShape, unwrap.go UnwrapShape/FindAndMarkRecursion"),("recover-free parsing pipeline","parse.go parseFragment")],
  observe=["return of ParseFromString/ParseFromPath","BaseShape.Validate","Convert","CloneDetached"])

prop("C02", "A value is accepted exactly when it satisfies every declared constraint",
  "For every type built from the built-in scalar, array, object, union, nil and any types, checking a decoded JSON or YAML value against it succeeds if and only if the value has the declared kind and satisfies every declared constraint: enumerations, inclusive numeric bounds, inclusive length, item-count and property-count bounds, patterns, uniqueness, required properties, closed or open objects, pattern properties and date/time formats. "
  "Every element, property value and at least one union member is checked to any nesting depth, and values that are equal as numbers are treated alike whichever numeric representation carried them. "
  "The numeric multiple-of and format facets and file media types are not enforced on values.",
  ["inputs"], "every type of a bounded grammar of facet combinations and nesting (depth <= 3) x every value of a boundary-value universe (each kind, each bound -1/0/+1, empty, multi-byte, very large numbers, long arrays)",
  "Tests check a handful of hand-picked facet/value pairs per shape; interactions of several facets, boundary values, numeric representations and nesting are a product space they only sample.",
  ["scalars.go","complex.go","shape.go","consts.go"],
  [("per-kind validation of decoded values","scalars.go and complex.go validate methods"),("recursive descent into items, properties, pattern properties and union members","complex.go")],
  observe=["BaseShape.Validate"])

prop("C03", "A derived type keeps its parents' facets and members and may only narrow",
  "A type derived from one or several parents, through any number of levels, accepts exactly the values allowed by the merge of its own declaration with those of all its ancestors: every inherited facet and member is present, and a member redeclared at any depth combines with the inherited one. "
  "A declaration that widens an inherited numeric, length, count or uniqueness constraint, enumerates a value outside the inherited enumeration, makes a required property optional, or changes the kind of an inherited member is rejected with an error, and a declaration that narrows or repeats one is accepted. "
  "A redeclared string pattern or additional-properties setting replaces the inherited one, and where several parents declare the same thing each earlier parent must narrow the later ones.",
  ["inputs","programs"], "every inheritance hierarchy of up to 3 levels / 3 parents over the enumerated facet settings of every kind, members redeclared at depth <= 2, x a distinguishing value universe",
  "Tests cover one facet and one level at a time; loss of a facet on the second level, with two parents, or inside a nested member only shows on specific combinations.",
  ["shape.go","unwrap.go","scalars.go","complex.go"],
  [("flattening of parents into the derived type","unwrap.go unwrapParents, shape.go Inherit"),("per-kind narrowing rules","scalars.go/complex.go inherit methods")],
  state=[("visited mark","guards the merge against cycles","shape.go BaseShape.ShapeVisited")],
  observe=["parse error or nil","BaseShape.Validate on the unwrapped type"])

prop("C04", "Type expressions denote exactly what their grammar says",
  "A type expression is accepted if and only if it is a sentence of the published grammar (built-in names, references with at most one library prefix, grouping, array suffix, optional suffix, and unions separated by a bar with optional blanks) whose references exist. "
  "An accepted expression denotes the type its parse tree describes: a bar lists alternatives in order, the array suffix gives an array of its operand, the optional suffix gives the operand or nil, and parentheses only group. "
  "The same expression means the same thing wherever it may be written: as a type declaration, a type facet, a property, an array's item type or a member of another expression.",
  ["inputs","programs"], "every token string up to a length bound over the expression alphabet (names, library-qualified names, brackets, bar, parentheses, question mark, dot, blank), in every position",
  "The existing tests contain about a dozen expressions; acceptance and structure must hold for every token sequence and every embedding position.",
  ["rdt_visitor.go","resolve.go","rdt/rdtLexer.g4","rdt/rdtParser.g4","rdt/rdt_parser.go","rdt/rdt_lexer.go"],
  [("generated lexer and parser","rdt/"),("visitor building array/union/optional types","rdt_visitor.go"),("syntax error listener","resolve.go")],
  observe=["parse error or nil","structure of the resolved type"])

prop("C05", "Every reference and include binds to the one declaration it names",
  "A type or annotation name, a library-qualified name, a library import and an included data-type, example or data file resolve relative to the file that contains them: an unqualified name binds to that file's own declarations only, a qualified name to the declaration of that name in the library imported under that prefix, and imports are not transitive; a name that the file itself declares, even one that contains a dot, binds to that declaration. "
  "A name or file that does not exist is an error, and equal names declared in different files are never confused. "
  "However many times and by whatever relative path a file is reached, it is loaded as one fragment and contributes the same types.",
  ["inputs","programs"], "every fragment graph over up to 4 files in up to 3 directories with colliding type and alias names, x every reference form, x every path spelling of the enumerated set, including import cycles",
  "Fixtures contain a few fixed layouts without name collisions; wrong scoping or a wrong base directory only shows when two candidates exist.",
  ["fragment.go","parse.go","resolve.go","raml.go","node.go"],
  [("reference lookup","fragment.go GetReferenceType/GetReferenceAnnotationType"),("fragment cache keyed by path","raml.go PutFragment/GetFragment"),("relative path joining","parse.go, node.go, shape.go")],
  state=[("fragment cache","path -> parsed fragment","raml.go fragmentsCache")],
  observe=["resolved types of the entry point and libraries","parse error or nil"])

prop("C06", "The outcome does not depend on declaration, key or processing order",
  "Reordering the type declarations, annotation-type declarations, imports, object properties, or the facets and keys of any mapping of a document, never changes whether the document set is accepted, which values each of its types accepts, or the JSON Schema each of its types converts to (up to the order of schema members and of listed examples, and for recursive types up to equivalence). "
  "The same holds for the order in which the parser internally visits loaded files, and the entries of a checked value, which Go leaves unspecified. "
  "Only the order-sensitive constructs are exempt: the member order of a union and of several parents, and a name that one mapping declares twice.",
  ["inputs","configurations","schedules"], "every permutation of the declarations/keys of each corpus document (up to 5 elements, all transpositions beyond) x every visiting order of the fragment map (owned by source instrumentation at build time)",
  "Tests run one textual order and whichever map order the runtime happens to pick; an order-dependent outcome needs one specific permutation.",
  ["unwrap.go","validate.go","resolve.go","fragment.go","shape.go","complex.go"],
  [("two-stage parsing with deferred resolution","parse.go, resolve.go"),("unwrap-once marking","unwrap.go UnwrapShape"),("map iteration over fragments","unwrap.go, validate.go")],
  observe=["accept/reject","BaseShape.Validate","Convert"],
  hook="map-range order, inserted at check time into a scratch copy through -overlay; nothing committed in /repo")

prop("C07", "Every example and default is checked against the type that carries it",
  "With validation requested, a document set is rejected if any example, named example or default value does not satisfy the type it is declared on (an example declared as not strict is not checked), and is not rejected because of examples and defaults when all of them do. "
  "This holds wherever the value sits: on a top-level type, a property, a pattern property, array items, a union member, a facet definition, an annotation type or an included data type, at any nesting depth and in any file of the set, whether written inline or included from a file. "
  "The check uses the fully inherited type, so facets that come from parents count, and gives the same answer whether or not unwrapping was requested first.",
  ["inputs","programs"], "every carrier position (each construct, depth <= 3) x example/examples/default, inline/included x valid/invalid value x type declared directly or inherited x entry or imported file x unwrap on/off",
  "Tests place an example at a few positions; a skipped position is only visible with an invalid value placed exactly there.",
  ["validate.go","example.go","shape.go","unwrap.go"],
  [("recursive walk over types","validate.go validateShapeCommons"),("example validation","validate.go validateExamples"),("example decoding","example.go")],
  observe=["error of parsing with validation"])

prop("C08", "Every annotation is bound to its annotation type and its value is checked",
  "Each annotation on a library, type, property, facet definition, example or nested declaration is bound to the annotation type of that name visible from the file containing it, and using an annotation name that is not visible is an error. "
  "With validation requested, the document set is rejected if any annotation value does not satisfy its annotation type and is not rejected because of annotations when all do, with or without unwrapping. "
  "All annotations of a model are reported, each exactly once, with their values.",
  ["inputs","programs"], "every annotation site x local/library-qualified/missing/shadowed annotation type x scalar/object/inherited/alias/union annotation types x valid/invalid value x unwrap on/off, one and two files",
  "Tests use a few sites with one annotation type; an unchecked site or a wrong binding needs an invalid or shadowing declaration exactly there.",
  ["extension.go","resolve.go","unwrap.go","validate.go","fragment.go","shape.go","example.go"],
  [("collection of annotations","extension.go"),("binding","resolve.go resolveDomainExtension"),("re-binding after unwrapping","unwrap.go unwrapDomainExtensions"),("validation","validate.go validateDomainExtensions")],
  observe=["GetAllAnnotations","error of parsing with validation"])

prop("C09", "Custom facets obey their definitions throughout the hierarchy",
  "With validation requested, a type that gives a value to a facet that neither its kind nor any ancestor defines is rejected, a type is rejected if it lacks a required custom facet of an ancestor or gives one a value outside the defined type, and a type redefining an ancestor's custom facet is rejected. "
  "Documents that satisfy all these rules are not rejected because of custom facets. "
  "The rules apply to every kind of type, across several levels of inheritance, to types nested as properties or items, and to types derived from included or imported ones.",
  ["inputs","programs"], "every hierarchy of up to 4 levels x facet defined/absent/redefined and set/absent/invalid at each level x required/optional x kind of type x local, imported and included parents x top-level or nested position x unwrap on/off",
  "Tests cover one definition/one child; level-dependent and position-dependent rules need the product of those choices.",
  ["validate.go","shape.go","unwrap.go","complex.go","scalars.go"],
  [("facet rule check walking the parents","validate.go validateShapeFacets"),("collection of unknown facets","unmarshalYAMLNodes in scalars.go/complex.go"),("inheritance of facet values","shape.go Inherit")],
  observe=["error of parsing with validation"])

prop("C10", "Recursive types become finite models that mean their infinite unfolding",
  "Every well-founded recursive set of types, through properties, pattern properties, items, optional members, unions, aliases, several types or several files, unwraps to a finite structure in which every endless path is cut by a back-reference to an enclosing type of the model. "
  "A value is accepted by a recursive type if and only if it is accepted by the type's unfolding to the value's depth, and the recursive members keep all the facets of the type they refer to. "
  "Validation, cloning and JSON Schema conversion of such models terminate and agree with that meaning.",
  ["inputs","programs"], "every directed reference graph over up to 3 types x edge kinds (optional property, array items, union member, pattern property, alias, inherited) x value trees to depth 4",
  "Tests contain a few self-recursive shapes; mutual recursion through different edge kinds, and facets kept beyond the first unrolling, need a graph enumeration.",
  ["unwrap.go","complex.go","shape.go","jsonschemaconv.go"],
  [("recursion marking","unwrap.go FindAndMarkRecursion"),("back-reference shape","complex.go RecursiveShape"),("unwrap-once marking","unwrap.go UnwrapShape")],
  state=[("visited mark","on-path marker during traversal","shape.go BaseShape.ShapeVisited")],
  observe=["walk of the unwrapped model","BaseShape.Validate","Convert"])

prop("C11", "The converted JSON Schema accepts exactly the values the type accepts",
  "Converting any unwrapped type to JSON Schema gives a self-contained draft-07 schema in which every reference resolves, and a standard evaluation of that schema accepts a JSON value if and only if checking the value against the type does. "
  "Facets that the value check leaves unenforced (multiple-of, number formats, media types, embedded JSON Schemas), date and time kinds, lengths of file contents that are not ASCII, and keys matched by a pattern property and by another property or pattern are outside the equivalence. "
  "Titles, descriptions, defaults and examples of the type appear in the schema, and the declared facets appear with their values.",
  ["inputs","programs"], "every type of the bounded grammars used for value checking, inheritance and recursion x the value universe",
  "Tests compare a few schemas textually; equivalence is a statement about all values for every combination of facets, unions, recursion and same-named types.",
  ["jsonschemaconv.go","schema.go"],
  [("conversion visitor","jsonschemaconv.go Visit*"),("definitions table","jsonschemaconv.go definitions, VisitRecursiveShape")],
  state=[("definitions","schema name -> schema","jsonschemaconv.go")],
  observe=["marshalled schema","BaseShape.Validate"])

prop("C12", "JSON Schema objects copy, export and round-trip without loss or sharing",
  "For every JSON Schema object, with or without dialect extensions, a deep copy encodes to the same JSON, and changing anything reachable through the keywords of the copy leaves the original unchanged; a shallow copy encodes to the same JSON too, and replacing its keywords leaves the original unchanged. "
  "The generic map form, the JSON encoding and the decoding of that encoding all carry the same keywords with the same values. "
  "Converting a type twice, or converting other types in between with the same converter, gives equal and independent schemas.",
  ["inputs","histories"], "every schema with one or two keywords populated from the full keyword table, nested in every sub-schema position to depth 3; every sequence of up to 3 conversions over the sample types",
  "Tests populate a handful of keywords; a keyword dropped or shared in a copy is only visible when that keyword is set at that position.",
  ["schema.go","jsonschemaconv.go"],
  [("copying","schema.go DeepCopy/ShallowCopy"),("map export","schema.go Map"),("recasting embedded schemas","jsonschemaconv.go recast")],
  observe=["json.Marshal","Map","DeepCopy"])

prop("C13", "Processing one type never changes the meaning of another",
  "Adding a declaration that nothing refers to, deriving a further type from an existing one, using an existing type as a property, item, union member or alias, or importing a further file, leaves the set of values accepted by every other type unchanged. "
  "Validating a model, checking values and converting types never change the model, so each can be repeated with the same outcome. "
  "A model parsed without unwrapping stays un-unwrapped and unchanged when it is validated.",
  ["inputs","programs","histories"], "every pair (existing declaration, added declaration) of the enumerated declarations in every order, and every sequence of up to 3 read-only operations on the resulting models",
  "Tests look at one type at a time; pollution through shared member maps shows only on the type that was not the subject of the test.",
  ["unwrap.go","shape.go","complex.go","validate.go","scalars.go"],
  [("sharing of inherited members","complex.go inherit*, alias"),("copying before unwrapping in validation","validate.go unwrapShape"),("visited marks reset","shape.go Inherit, unwrap.go FindAndMarkRecursion")],
  state=[("shared property maps","member tables shared between a type and its parents or aliases","complex.go ObjectFacets")],
  observe=["BaseShape.Validate","structural dump of the model"])

prop("C14", "A clone equals its original and shares no mutable structure with it",
  "A detached clone of any type, resolved or unwrapped, recursive or not, accepts the same values, converts to the same schema and has the same structure as the original, with the relations between its own parts preserved. "
  "No type reachable from the clone through members, parents, aliases, links and facet definitions is reachable from the original, so unwrapping, editing or validating either one never changes the other. "
  "Clones made with one shared clone table map equal originals to one clone.",
  ["inputs","programs","histories"], "every type of the corpus and of the recursion grammar x clone before/after unwrap x every edit or unwrap operation on either side",
  "Tests clone a few shapes and compare a few fields; sharing is a reachability property over the entire graph.",
  ["shape.go","complex.go","scalars.go"],
  [("deep copy keyed by identity","shape.go clone"),("per-kind clone","complex.go/scalars.go clone")],
  observe=["reachability walk over exported structure","BaseShape.Validate"])

prop("C15", "Unwrapped models can be used, and separate parses run, concurrently",
  "Checking values against the types of one unwrapped model and converting them to JSON Schema with separate converters from several goroutines is free of data races, and every interleaving gives each goroutine the outcome it would have got alone. "
  "Separate parses of any documents in separate goroutines, including ones that fail, do not influence each other.",
  ["schedules","inputs"], "every interleaving, at statement granularity inside the library, of 2 goroutines x 1-2 operations on a shared model up to a preemption bound, plus free-running runs of the same bodies under the race detector",
  "Tests are single-threaded; a shared scratch buffer or lazily filled cache is harmless until two calls overlap at particular statements.",
  ["complex.go","scalars.go","shape.go","jsonschemaconv.go","parse.go","resolve.go","rdt/rdt_parser.go"],
  [("read-only validation","validate methods"),("no package-level mutable state outside the generated parser's once-initialised tables","rdt/, consts.go")],
  observe=["results of each operation","race reports"],
  hook="scheduling points inserted at check time into a scratch copy through -overlay; nothing committed in /repo")

prop("C16", "Hooks run in registration order, can abort, and stay with their model",
  "For every sequence of append, prepend, remove and clear operations, a hook point runs exactly the hooks registered for it at that moment, in list order and each with the model and the documented arguments, stops at the first error, and makes the operation it guards fail with that error and without further effect of the guarded step. "
  "Hooks registered for one hook point or one model never run for another, even when models were created from the same context. "
  "Changing the registration from inside a running hook affects only later runs of that hook point.",
  ["histories"], "every sequence of up to 5 registration operations over 3 hooks and 2 hook points and 2 models sharing a context, x error position x re-entrant changes, against a list model",
  "Tests register one or two hooks once; aliasing of the stored list shows only after particular histories.",
  ["raml.go","shape.go","parse.go","unwrap.go","validate.go"],
  [("hook lists stored in the context","raml.go getHooks/setHooks"),("invocation","raml.go callHooks")],
  state=[("hook list","per hook point, in the model's context","raml.go ctx")],
  observe=["recorded hook calls","errors of the guarded operations"])

prop("C17", "An unreadable or invalid file anywhere makes parsing fail, and leaks nothing",
  "If any file of the set that is reached by an import or include is missing, unreadable, a directory, empty, truncated inside its header, of the wrong fragment kind or syntactically invalid, parsing returns an error that names that file, and it does so wherever in the chain of includes the file is reached. "
  "Every file opened during a parse is closed again, on success and on failure, and parsing never writes to any file. "
  "Parsing the same set again after the file has been repaired succeeds; a file included as plain text has no invalid content.",
  ["fault_sequences","inputs"], "every file-reference position of the corpus (imports, included types, examples, data, annotations; one and two hops) x every fault kind, singly and in pairs",
  "Tests use one or two missing files; a swallowed error needs a fault at one particular reference position.",
  ["parse.go","node.go","fragment.go","shape.go","example.go"],
  [("open/close discipline","parse.go openFragmentFile and deferred closes"),("fragment kind check","parse.go CheckFragmentKind"),("error wrapping","parse.go, node.go")],
  observe=["error text","open descriptors of the process","file tree before and after"])

prop("C18", "Errors point at the file and line of the offending construct",
  "For a document set of well-formed YAML files with one offending construct, the reported error contains an entry whose file is the file containing that construct and whose line is the line of the construct or of the declaration that carries it. "
  "When several top-level types are invalid on their own in ways that the same step finds (resolving references, merging parents, or validating), the error reports each of them. "
  "No reported position lies outside its file.",
  ["inputs","programs"], "every kind of violation x every declaration position x entry, imported or included file x varying leading lines and nesting; every subset of independent violations in up to 3 types",
  "Tests compare a few full error strings for documents whose offending construct is at one fixed place.",
  ["stacktrace.go","parse.go","resolve.go","unwrap.go","validate.go","shape.go","complex.go","scalars.go"],
  [("position capture","stacktrace.go WithNodePosition, node positions on shapes"),("error accumulation per type","validate.go, unwrap.go, resolve.go")],
  observe=["structured error"])

prop("C19", "Self-contradictory declarations are rejected, consistent ones are not",
  "With validation requested, a document set is rejected if any type in it, at any nesting depth or in any file, has a minimum above the corresponding maximum (value, length, items or properties), an enumeration value or file type of the wrong kind, pattern properties on a closed object, or a discriminator that is not a declared scalar property or whose value does not satisfy that property. "
  "This includes contradictions that arise only after inheritance. "
  "A document set without such contradictions is not rejected on these grounds.",
  ["inputs","programs"], "every contradiction kind x every nesting position (top level, property, optional and pattern property, items, union member, facet definition, annotation type, included data type, imported library) x direct or inherited x unwrap on/off, and the consistent neighbour of each",
  "Tests check the contradictions on top-level shapes built by hand; a position that is not descended into needs a contradiction exactly there.",
  ["scalars.go","complex.go","validate.go","shape.go"],
  [("static checks per kind","scalars.go/complex.go check methods"),("descent into members","complex.go check methods, validate.go")],
  observe=["error of parsing with validation"])

prop("C20", "Implied kinds and property names are determined by the declaration alone",
  "A declaration without an explicit type gets the kind its facets belong to (string when there are none), in whatever order and number the facets are written, and facets of different kinds in one such declaration are an error. "
  "A property is required unless its key ends in a question mark or it says otherwise; without an explicit required setting the final question mark is not part of the name, with one it is; a key between slashes declares a pattern property for matching keys, which can never be required. "
  "The naming and required rules are the same for facet definitions, and all of them hold at any nesting depth.",
  ["inputs","programs"], "every sequence of up to 3 facets over all kind-bearing facets in every order, in every declaration position; every property key shape over the alphabet {letter, ?, /, dot, empty} x explicit/implicit required x kind of definition",
  "Tests list a few facet combinations in one order; ordering and key-shape corner cases are exactly what a sample misses.",
  ["shape.go","complex.go"],
  [("kind inference","shape.go identifyShapeType"),("property naming","complex.go makeProperty/chompImplicitOptional/unmarshalProperty")],
  observe=["kind of the resolved type","property table"])

prop("C21", "Example, default, enum and annotation data keep the exact written value",
  "Data written in a document (examples, defaults, enumerations, custom facets and annotations) is delivered exactly as YAML or, for inline JSON objects, JSON defines it: every scalar keeps its type and value, mappings keep all keys, sequences keep length and order, to any nesting depth, and timestamps stay strings (text that begins with an opening brace where a whole value is expected is JSON, with JSON's numbers). "
  "Including a file as data gives the decoded content for JSON and YAML files and the exact text for any other file, wherever the include is written, resolved relative to the including file; the parser may refuse an include written within a collection of a file that is itself included as data, but never delivers anything else. "
  "An example given as a mapping with a value key is that value with its attributes, and any other mapping is the data itself.",
  ["inputs"], "every data tree up to depth 3 / width 3 over a scalar alphabet (each YAML core type, quoted look-alikes, block scalars, unicode, empty) in every data position, inline, flow, JSON and included in every file type",
  "Tests decode a few literal documents; loss of a key, a wrong tag or a wrong base directory needs a specific shape at a specific position.",
  ["node.go","example.go","scalars.go","shape.go","extension.go"],
  [("conversion of YAML nodes to data","node.go yamlNodeToDataNode"),("includes","node.go makeIncludedNode"),("example wrapper detection","example.go")],
  observe=["values exposed on the model"])

prop("C22", "A document set means what its YAML content says, in whatever notation",
  "Two document sets whose YAML content is equal give equal models and equal verdicts, in whatever notation they are written: quoted, plain or block scalars, explicit core tags, flow or block collections, explicit keys, anchors, any spelling of null, booleans and numbers, comments, blank lines, indentation, line-end style, document markers. "
  "A node written as an alias means the anchored node's content, or the document is refused with an error: it is never ignored or read as something else.",
  ["inputs"], "every node of every corpus document in every notation of its kind, all nodes of a document in one notation, every whole-file style, every node as an alias of every nearest equal node or of a node held elsewhere; singly, and in pairs of near nodes",
  "Tests write each construct in one notation; a construct that reads the node's tag, style, text or children in its own way differs only for a specific notation at a specific position.",
  ["fragment.go","shape.go","complex.go","scalars.go","node.go","example.go","extension.go","parse.go"],
  [("node decoding of each construct","fragment.go, shape.go, complex.go UnmarshalYAML*"),("data nodes","node.go yamlNodeToDataNode")],
  observe=["the whole model, positions left out","verdict"])

prop("C23", "A value of the wrong kind is refused; an accepted one is in effect as written",
  "A section, facet or member declaration whose value is not of the YAML kind that the language prescribes there (a text, a non-negative integer count, a boolean, a number, a list, a mapping, a type) is refused with an error, wherever the declaration is nested and in whatever kind of file: it is never ignored, truncated or read as something else. "
  "A value of the right kind is accepted, and the model reports it exactly as written; a text included from a file is the content of the file. "
  "Null, scalars other than strings where a text is expected, integral numbers written with a fraction or an exponent, and empty enumerations may be either refused or accepted.",
  ["inputs"], "every facet of every kind, every section of every kind of file, every member declaration and example attribute x 35 to 60 values of every YAML kind x every nesting of members up to depth 1 (quick) or 2 (thorough) x every kind of file x four option combinations",
  "Tests try a wrong value for a few facets at the top level; each facet has its own decoding code, and a value that slips through is silently dropped or cut.",
  ["shape.go","complex.go","scalars.go","fragment.go","example.go","node.go"],
  [("decoding of facets","shape.go decodeValueNode, scalars.go/complex.go unmarshalYAMLNodes"),("decoding of sections","fragment.go UnmarshalYAML"),("decoding of examples","example.go")],
  observe=["verdict of parsing","exported fields of the model"])

prop("C24", "However a model is made, it is the same, and all lookups agree on its types",
  "For the same files and options, parsing by path, from text, with or without a context and through a model of one's own give the same verdict and the same model; and calling UnwrapShapes and ValidateShapes afterwards, in any order and repeatedly, gives the verdicts and the model that the corresponding options give. "
  "In each such model every way to reach a declared type - the file's tables, the lookups of types, annotation types and references (also through a library's alias), the links - yields the same object; every shape belongs to its declaration, has its own identifier, is resolved and of the kind its type says, is listed once, and is unwrapped if the model is; and every annotation is bound to the type that the lookups yield.",
  ["inputs","operation sequences"], "every document set of the corpora, valid or not, x seven entry points x four option combinations, and every sequence of UnwrapShapes and ValidateShapes up to length 2 to 3 (quick) or 3 to 4 (thorough) after each of them",
  "Tests parse most documents one way, with all options on, and look types up by one lookup; repeated steps, other entry points and the agreement of the tables are not exercised.",
  ["raml.go","parse.go","unwrap.go","validate.go","resolve.go"],
  [("entry points","parse.go ParseFromPath, ParseFromString, parseFragment"),("processing steps","unwrap.go UnwrapShapes, validate.go ValidateShapes"),("lookups","raml.go Get*, Put*")],
  observe=["verdict of each entry point and step","the whole model","results of the lookups"])

prop("C25", "Every part of a model tells the file, line and column where it is written",
  "Each declared type, annotation type, member, pattern member, item, inline parent, facet definition, example, default, enumeration member, custom facet value, annotation and library use of a model carries the file in which it is written and the line and column at which its value (an annotation: its name) begins, whatever the layout of the file and however deep the nesting, before and after unwrapping; members that are inherited keep the place of the parent's declaration. "
  "The unnamed parts of a type expression carry the place of the declaration, a type that is a whole file may be placed at the file's first line, and included data are at the beginning of the included file.",
  ["inputs"], "every document set of the corpora and every (subject, nesting up to depth 1 (quick) or 3 (thorough), kind of file) x fourteen layouts of the files x four option combinations",
  "Tests compare few positions of one-line samples; editors and error reports rely on the places of all parts in any layout, and unwrapping copies and replaces parts in ways that can lose or exchange them.",
  ["shape.go","fragment.go","example.go","node.go","extension.go","rdt_visitor.go","unwrap.go"],
  [("positions of shapes","shape.go makeNewShapeYAML, MakeBaseShape"),("positions of data","node.go makeRootNode, example.go makeExample"),("positions of annotations and uses","extension.go, fragment.go"),("copies","shape.go clone, AliasTo, complex.go inherit")],
  observe=["Location, Line and Column of every part of the model"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    if n > 3: print(p["id"], "sentences", n)
print(len(P), "properties")
