#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; run from /verif."""
import json
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
T={
'C01':("exhaustive bounded enumeration of document sets, executed on the real parser with crash/hang attribution","exploration",
 "every (construct position x YAML node) document, reference graph over 3 declarations, include graph and corpus truncation within the stated bounds is executed; bounded, so not a proof for larger documents"),
'C02':("exhaustive enumeration of (type, value) pairs of a bounded type grammar, executed on the real validator against an explicit type-semantics model","model_checking",
 "every facet combination and nesting within the stated bounds x boundary value universe, compared with an independent model of the type language; conformance is the comparison itself, on every state"),
'C03':("exhaustive enumeration of inheritance hierarchies, executed on the real parser and compared with a merge-semantics model","model_checking",
 "every hierarchy up to 3 levels / 3 parents over the enumerated facet settings; verdict and accepted values compared with the model on each"),
}
T.update({
'C04':("exhaustive enumeration of token strings up to a length bound in every position, executed on the real parser and compared with an independent grammar model","model_checking",
 "every token string of the expression alphabet up to the bound x embedding position; acceptance and denoted structure compared with a reference recogniser on each"),
'C10':("exhaustive enumeration of reference graphs over up to 3 types, executed on the real unwrapper; accepted values compared with the unfolding semantics","model_checking",
 "every directed graph over the edge kinds within the bounds; finiteness, back-references, facets, accepted values, clone and schema compared with a model of the infinite unfolding"),
'C11':("exhaustive enumeration of (type, value) pairs; the converted schema is evaluated by an independent draft-07 evaluator and compared with the validator","model_checking",
 "every type of the bounded grammars x value universe; both schema flavours, reference integrity and metadata compared on each"),
})
T.update({
'C13':("exhaustive enumeration of operation sequences over a document corpus and of added declarations; whole-model dumps and outcomes compared after each","model_checking",
 "every sequence of read operations up to the bound on every corpus model, identity-exact dump compared after each step; every added declaration x document, accepted values of the other types compared"),
'C14':("exhaustive enumeration of clone / mutate histories over a document corpus; object-graph sharing and structure decided on each","model_checking",
 "every corpus type cloned resolved and unwrapped, shared-type reachability decided on the object graph, each side mutated or unwrapped and the other compared identity-exactly"),
})
T.update({
'C07':("exhaustive enumeration of (carrier position, data form, value, type form) documents, executed on the real parser in four option combinations and compared with the type-semantics model","model_checking",
 "every carrier position x example/examples/default form x valid/invalid value x direct/inherited/included type within the bounds; the verdict of each parse compared with the model"),
'C09':("exhaustive enumeration of hierarchies with custom facets, executed on the real parser and compared with a rule model","model_checking",
 "every hierarchy up to 4 levels x definition and setting choices per level x kind x position x option combination; the verdict of each compared with the model"),
'C19':("exhaustive enumeration of (contradiction or consistent neighbour, position) documents, executed on the real parser and compared with the model","model_checking",
 "every contradiction kind and its consistent neighbour in every position composed from the wrappers up to the depth bound, direct or inherited, four option combinations"),
'C20':("exhaustive enumeration of facet sequences and property key shapes, executed on the real parser and compared with a model of kind inference and naming","model_checking",
 "every sequence of kind-bearing facets up to the bound in every order and position, and every key string of the alphabet up to the bound x required setting; structure and verdict compared on each"),
})
T.update({
'C05':("exhaustive enumeration of file layouts, reference forms and path spellings, executed on the real parser and compared with a binding model","model_checking",
 "every layout of up to 4 files in the directories x name collisions x reference form x path spelling within the bounds; the declaration each reference binds to and the verdict compared with the model"),
'C08':("exhaustive enumeration of (annotation site, annotation type form, value, visibility) documents, executed on the real parser and compared with a binding and value model","model_checking",
 "every annotation site x annotation type form x value x visibility within the bounds; the verdict, the bindings and the reported set compared with the model"),
'C12':("exhaustive enumeration of schemas over the reflective keyword table and of conversion sequences; copies, map form and encodings compared, memory sharing decided on the object graph","model_checking",
 "every schema of up to the bounded number of populated keywords nested in every sub-schema position, every conversion sequence up to the bound; mutation of every reachable slot"),
})
T.update({
'C16':("exhaustive enumeration of hook-registry operation sequences against a list model and of all hook behaviours; every invocation of every hook point of a corpus made to fail on the real parser","model_checking",
 "every append/prepend/remove/clear sequence up to the depth over two models, two or three points and six kinds of context; every behaviour of up to three running hooks; every invocation of every hook point failing"),
})
T.update({
'C21':("exhaustive enumeration of data values by spelling, nesting, include form and place, executed on the real parser and compared with the written value","model_checking",
 "every scalar spelling, every collection up to the depth, every kind of included file in every place that takes data and in both YAML styles; every order and subset of example attributes"),
})
T.update({
'C17':("exhaustive enumeration of (file-reference position, hop count, fault kind) document sets with single and paired faults, executed on the real parser under descriptor and file-tree monitoring","fault_enumeration",
 "every way one file refers to another x every fault of the referenced file, one and two hops, singly and in pairs, then repaired and parsed again; the error, open descriptors and file tree judged after each"),
})
T.update({
'C18':("exhaustive enumeration of (offending construct, place, file layout) document sets and of sets of several offending types, executed on the real parser; the structured entries compared with the lines the renderer recorded","model_checking",
 "every offending construct x nesting x kind of file x layout within the bounds, every pair and most triples of offending types; entry file and line, and the extent of every reported position"),
})
T.update({
'C06':("exhaustive enumeration of the orders of every mapping of a document corpus, and of the map-visit orders of the library under a controller put in by source instrumentation; outcomes compared with those of the order as written","model_checking",
 "every permutation up to 5 entries (all transpositions beyond) of each mapping of each corpus document, all mappings reversed; every order of every map visit of parsing, conversion and value checks, one (quick) or two (thorough) deviating visits per run"),
'C15':("exhaustive schedule exploration of two threads over the instrumented library's statements up to a preemption bound, plus the same bodies run freely under the race detector","model_checking",
 "every pair of operations on small shared models and of separate parses: all schedules with one preemption, two where the product of points is within the limit; outcomes compared with the solo ones; happens-before race detection on the corpus"),
})
T.update({
'C22':("exhaustive enumeration of the notations of every node of a document corpus, executed on the real parser; the whole models and verdicts compared with those of the document as written","model_checking",
 "every node of every corpus document x every notation of its kind, all nodes at once, every whole-file style, every alias of an equal node; whole model compared on each; pairs of near nodes in the thorough tier"),
})
T.update({
'C23':("exhaustive enumeration of (facet or section, value of every YAML kind, place) documents, executed on the real parser; verdict and reported value compared with a model of the allowed kinds","model_checking",
 "every facet, section and member declaration x value of every YAML kind x nesting up to the depth bound x kind of file x option combination; the verdict and the reported value compared with the model on each"),
'C24':("exhaustive enumeration of document sets, entry points and option combinations, and of all sequences of processing steps, executed on the real library; whole-model dumps and all lookups compared","model_checking",
 "document set x entry point x option combination, and every step sequence up to the length bound; models, verdicts and lookups must agree on each"),
'C25':("exhaustive enumeration of document sets, nestings and file layouts, executed on the real parser; every position in the model compared with the node of the file it stands for","model_checking",
 "document set or (subject, nesting, kind of file) x layout x option combination; place of every part compared with an independent reading of the file on each"),
})
checks=[]
for p in props:
    if p in T:
        t,l,n=T[p]
        checks.append({"property":p,"quick_cmd":f"./check {p} quick","thorough_cmd":f"./check {p} thorough","technique":t,"level":l,"level_note":n})
m={"version":1,"setup_cmd":"./check build","checks":checks,
"not_applicable":[{"property":p,"reason":"check not built yet"} for p in props if p not in T],
"notes":"All checks drive the exported API of /repo's working tree; see DESIGN.md."}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
