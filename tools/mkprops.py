#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Parsing depends only on the bytes delivered, not on how they arrive",
 "For one byte sequence, parsing returns the same tree, positions and diagnostics whether the bytes come as a string, a byte slice, a buffer, a file or a reader, however that reader splits them, stalls, returns empty reads, scribbles on the unused part of the buffer it was handed, or combines the last bytes with end-of-stream. Turning on tracing, or the trace output being slow, short or failing, changes nothing in the result.",
 ["schedules","fault_sequences","inputs"],
 "every byte sequence x every legal segmentation/stall/EOF behaviour of the source x every source kind x trace output behaviour",
 "The tests pass complete in-memory strings or one strings.Reader; no test splits, stalls or reshapes the stream, and none compares source kinds.",
 ["parser/interface.go","bibtex.go","parser/parser.go"],
 [("readSource normalises every source to one []byte","parser/interface.go"),("printTrace only prints","parser/parser.go")],
 observe=["parser.ParseFile","Biber.Parse"])

p("C02","A failed read is reported and never yields a tree",
 "If the source fails while being read - at the first byte, in the middle, together with the last data, or on opening or reading a file - parsing returns no tree and an error that identifies the reader's own error. A failure is never mistaken for end of input, whatever error value is used, and parsing never succeeds on the part that happened to arrive.",
 ["crash_points","fault_sequences","inputs"],
 "every point of the stream at which the source can fail x every error value x data-with-error or error-alone x reader or file source",
 "No test ever passes a failing reader or an unreadable file.",
 ["parser/interface.go","bibtex.go"],
 [("readSource error return before the parser runs","parser/interface.go"),("Biber.Parse returns nil on error","bibtex.go")],
 observe=["parser.ParseFile","Biber.Parse"])

p("C03","Damaged input never crashes or hangs a parsing entry point",
 "For every stream that has been cut, had bytes flipped, or had segments lost, duplicated or swapped, every parsing entry point (whole-file parsing in every mode, the high-level parse, expression parsing and the raw tokenizer) returns without panicking after an amount of work proportional to the number of bytes delivered. It returns a tree or an error; when the bytes could be read, whole-file parsing returns a non-nil (possibly partial) tree without nil children even alongside an error, and the high-level parse returns a tree exactly when it returns no error.",
 ["crash_points","fault_sequences","inputs"],
 "every document x every cut point / flipped byte / lost, duplicated or reordered segment x every parser mode",
 "The tests contain five malformed inputs; every one of the unbounded set of cut points inside strings, escapes, macros and nested braces is a different state of the tokenizer and parser.",
 ["parser/parser.go","parser/interface.go","scanner/scanner.go"],
 [("every loop of the parser consumes a token or stops at end of input","parser/parser.go"),("scanner reads are bounds checked","scanner/scanner.go"),("bailout recovery","parser/interface.go")],
 state=[("one-token lookahead","current token at the cut","parser/parser.go"),("string state","whether the tokenizer is inside a string, and how deep","scanner/scanner.go")],
 observe=["parser.ParseFile","parser.ParseExpr","Biber.Parse","scanner.Scanner.Scan"])

p("C04","A stream that ends inside a declaration is never accepted",
 "If the stream ends anywhere after the '@' that starts a declaration and before that declaration's closing delimiter, parsing reports an error and the high-level parse returns no tree, in every mode and for every source kind. A truncated bibliography can only be accepted when the cut falls between declarations.",
 ["crash_points","inputs"],
 "every well-formed document x every byte offset at which the stream can end x every mode",
 "No test truncates a document; each byte offset is a separate case.",
 ["parser/parser.go","scanner/scanner.go"],
 [("expectCloser demands the closing delimiter","parser/parser.go"),("string loops report missing terminators","parser/parser.go"),("tokenizer reports unterminated literals","scanner/scanner.go")],
 observe=["parser.ParseFile","Biber.Parse"])

p("C05","Declarations completed before the damage survive unchanged",
 "When a stream is damaged or cut at some byte, every declaration that was completely delivered before that byte appears in the (possibly partial) tree that whole-file parsing returns, in order and exactly as in the undamaged parse - same type, keys, tags, values and positions - as it was written in the source. This holds as long as parsing was not stopped by the error limit.",
 ["crash_points","fault_sequences","inputs"],
 "every well-formed document x every first-damage offset x every following damage x every mode",
 "No test looks at the partial tree of a failed parse.",
 ["parser/parser.go","parser/interface.go"],
 [("declarations are appended as they complete","parser/parser.go"),("partial tree is returned with the errors","parser/interface.go")],
 observe=["parser.ParseFile"])

p("C06","After a damaged declaration, parsing recovers for later declarations",
 "When one punctuation mark or name of a declaration is lost, replaced, doubled or preceded by a stray one - in documents whose values are braced plain words, numbers or names - whole-file parsing resynchronises: every other declaration, before or after, appears in the partial tree exactly as in the undamaged parse and none appears twice, except that at most the two declarations directly following the damaged one may be lost with it. Recovery works every time: it holds for each of several damaged declarations with at least three intact ones between them. This holds as long as parsing was not stopped by the error limit.",
 ["fault_sequences","inputs"],
 "every well-formed document x every single damaged structural byte of one declaration, or of several that are well apart",
 "No test has text after a malformed declaration.",
 ["parser/parser.go"],
 [("advance(entryStart) resynchronises at the next declaration","parser/parser.go"),("expect always makes progress","parser/parser.go")],
 state=[("syncPos/syncCnt","progress guard of error recovery","parser/parser.go")],
 observe=["parser.ParseFile"])

p("C07","Diagnostics point at the damage, inside the delivered bytes, in order",
 "Every diagnostic of a failed parse carries the given file name and an offset inside the delivered bytes whose line and column agree with those bytes; the list is sorted by position. No diagnostic is located before the start of the declaration that contains the first damaged or missing byte, and an undamaged document produces none.",
 ["crash_points","fault_sequences","inputs"],
 "every well-formed document x every damage",
 "The tests only check that an error exists; no test checks a diagnostic's position or order.",
 ["parser/parser.go","parser/interface.go","scanner/scanner.go"],
 [("line table built while scanning","scanner/scanner.go"),("errors sorted before return","parser/interface.go")],
 observe=["parser.ParseFile error list"])

p("C08","Resolving and rendering any returned tree never crashes",
 "For every tree the library itself returned - including the partial tree of a damaged stream and trees already transformed by resolvers - resolving it with any list of the built-in resolvers, extracting authors from its text, and rendering it, ends after bounded work with a result or an error, never with a panic. A successful resolve returns exactly one entry per bibliography declaration, in source order.",
 ["fault_sequences","crash_points","histories","inputs"],
 "every damaged or undamaged stream x every ordered list of built-in resolvers x repeated application",
 "The tests resolve six clean entries with one resolver list in one order.",
 ["resolver.go","author.go","bibtex.go","render/render.go","ast/walk.go"],
 [("resolvers return errors","resolver.go"),("author extraction","author.go"),("renderers per node kind","render/render.go")],
 observe=["Biber.Resolve","ExtractAuthors","Biber.Render","TextRenderer.Render"])

p("C09","A failed write stops rendering and is reported; output is a prefix",
 "When the writer fails at any write (including a short write), rendering makes no further write and returns an error that identifies the writer's own error. The bytes accepted up to then are exactly a prefix of what the same rendering produces on a healthy writer, and a render that returns no error has written all of it, each node's text once.",
 ["crash_points","fault_sequences","inputs"],
 "every tree x every write at which the writer fails x every split between accepted and refused bytes",
 "No test renders to a failing writer; no test renders through the high-level renderer at all.",
 ["render/render.go","bibtex.go"],
 [("every write error is returned with WalkStop","render/render.go"),("Biber.Render wraps the walk error","bibtex.go")],
 observe=["Biber.Render","render.TextRenderer.Render"])

p("C10","Walking visits every node once and stops exactly when told to",
 "A walk calls the visitor on entering and on leaving each node, depth first, children in source order, each node exactly once, and reaches the values of tags and abbreviations (citation keys, comments and the letter under an accent belong to their node and are not visited). If the visitor stops, fails or panics at any call, no further call is made and the walk returns nil, that very error, or propagates that panic respectively; if it asks to skip children at a node, exactly that node's descendants are omitted and nothing else.",
 ["crash_points","fault_sequences","inputs"],
 "every tree x every sequence of visitor answers (continue, skip, stop, error, panic) at every call",
 "walk_test.go has three tiny trees and one stop position.",
 ["ast/walk.go"],
 [("walkHelper recursion and status propagation","ast/walk.go")],
 observe=["ast.Walk"])

p("C11","Resolvers run in order and the first failure aborts with no entries",
 "Resolving runs the configured resolvers in the order given, each exactly once, on the given node. When one fails, no later resolver runs, no entries are returned, and the error identifies that resolver's own error; only when all succeed are entries returned, reflecting the tree as the resolvers left it.",
 ["fault_sequences","histories"],
 "every list of resolvers x every position and kind of failure x every node kind that can be resolved",
 "The tests use one list of three resolvers, none of which fails.",
 ["bibtex.go","resolver.go"],
 [("Biber.Resolve loop","bibtex.go"),("WithResolvers appends","bibtex.go")],
 observe=["Biber.Resolve"])

p("C12","A failed or aborted operation leaves no trace in later ones",
 "After any operation failed or was aborted - read error, cut stream, syntax error, write error, failing or panicking resolver, renderer or visitor - the same configuration, resolvers, renderers and re-initialised tokenizer give, for every later fault-free operation, exactly the result a fresh instance gives. A panic raised by caller-supplied code reaches the caller unchanged; it is never turned into a successful result.",
 ["histories","crash_points","fault_sequences"],
 "every sequence of faulted and fault-free operations on shared long-lived objects",
 "Every test builds a fresh instance and uses it once.",
 ["bibtex.go","parser/interface.go","scanner/scanner.go","render/render.go","resolver.go"],
 [("per-call parser state","parser/interface.go"),("Scanner.Init resets all fields","scanner/scanner.go"),("re-panic of foreign panics","parser/interface.go")],
 state=[("scanner string state","must not survive Init","scanner/scanner.go")],
 observe=["Biber.Parse","Biber.Resolve","Biber.Render","scanner.Scanner"])

p("C13","Concurrent operations on shared configuration do not interfere",
 "Any number of callers may parse, resolve, render, extract authors and parse expressions at the same time, sharing one configured instance, resolvers and renderers but each with its own input and tree. Under every interleaving each operation returns exactly what it returns when run alone, whatever the callers do to the trees they own, and no unsynchronised memory is shared between them.",
 ["schedules","fault_sequences"],
 "every interleaving of 2..6 callers at statement granularity, with stalling and failing readers and writers in the mix",
 "All tests are single-threaded.",
 ["bibtex.go","parser/parser.go","parser/interface.go","scanner/scanner.go","render/render.go","render/accent.go","resolver.go","author.go"],
 [("all mutable state is per call","parser/interface.go"),("package-level tables are read only","render/accent.go")],
 observe=["Biber.Parse","Biber.Resolve","Biber.Render","ExtractAuthors","parser.ParseExpr"])

p("C14","Reading a tree never changes it, so one tree can be shared by readers",
 "Walking, rendering, extracting authors from and printing a tree, and resolving it to entries with no resolver configured, never modify it - not even when the writer or visitor fails or panics half-way. Any number of callers may do so on the same tree at the same time and each gets the result it gets alone.",
 ["schedules","crash_points"],
 "every tree x every interleaving of 2..5 read-only users x every failure point inside them",
 "Tests never compare a tree before and after, and never share one.",
 ["ast/walk.go","render/render.go","author.go","asts/asts.go","bibtex.go"],
 [("renderers only read nodes","render/render.go"),("author extraction copies into new nodes","author.go")],
 observe=["ast.Walk","Biber.Render","TextRenderer.Render","ExtractAuthors","asts.ExprString"])

p("C15","Instances are isolated from each other and from their caller's slices",
 "Options given to one instance affect only that instance: a replaced renderer, parser mode or added resolver never shows up in another instance, created earlier or later or at the same time, nor in the library defaults. The last replacement of a renderer or mode wins, resolvers accumulate in order, and changing an option's slice or the defaults table after construction has no effect on the instance; the same goes for the slice of tag names an author resolver was built from.",
 ["histories","schedules"],
 "every history and interleaving of constructing, configuring and using several instances",
 "Tests construct one instance with one fixed option list.",
 ["bibtex.go","render/render.go"],
 [("render.Defaults returns a fresh table","render/render.go"),("options write only the new instance","bibtex.go")],
 observe=["New","WithRenderer","WithResolvers","WithParserMode","render.Defaults"])

p("C16","The caller's buffer and the returned tree are independent",
 "Parsing never modifies the bytes it is given, and nothing the caller does to those bytes after parsing has returned - reusing the buffer for the next file, clearing it - changes any part of the returned tree or of its diagnostics.",
 ["histories","schedules","inputs"],
 "every document and source kind x every later modification of the caller's buffer, including reuse for another parse running concurrently",
 "Tests never touch their input after parsing.",
 ["parser/interface.go","scanner/scanner.go"],
 [("token literals are copied out of the source","scanner/scanner.go")],
 observe=["parser.ParseFile","Biber.Parse","scanner.Scanner"])

p("C17","Package parsing keeps every readable file and reports the first failure",
 "Parsing a list of files, however long, returns a package holding, under its path, exactly the files that could be read and parsed - each with its own tree, equal to what parsing that file's bytes alone gives - and the error of the first failing path in list order, or nil when none failed. A missing, unreadable or malformed file, or a disk error in the middle of one, never loses or alters another file and never panics; links and files named more than once are read like any other.",
 ["fault_sequences","crash_points","inputs"],
 "every list of files x every assignment of open errors, read errors at any offset, short reads and damaged contents to them, with few or many file descriptors to spare",
 "No test calls package parsing.",
 ["parser/interface.go"],
 [("ParsePackage loop","parser/interface.go")],
 observe=["parser.ParsePackage"])

p("C18","A stalled caller never blocks the others",
 "While one caller is stuck inside its own reader, writer, resolver, renderer or visitor for an arbitrarily long time, every other caller on the same configured instance - one that reads the same tree, too - completes its operation with the normal result within its normal amount of work; when the stuck one is released it completes normally too.",
 ["schedules","fault_sequences"],
 "every placement of an unbounded stall in one caller's callbacks x every interleaving of the others",
 "All tests are single-threaded and never block.",
 ["bibtex.go","parser/interface.go","render/render.go"],
 [("no lock is held across caller-supplied code","bibtex.go")],
 observe=["Biber.Parse","Biber.Resolve","Biber.Render"])

p("C19","Multi-file resolution yields each file's entries once and in order",
 "Resolving or walking a package of several files visits every file exactly once whatever order the files come in: the result holds every entry of every file exactly once, entries of one file keep their source order, and each entry equals what resolving that file alone gives.",
 ["schedules","inputs"],
 "every package x every iteration order of its unordered file table",
 "No test resolves or walks a package.",
 ["bibtex.go","ast/walk.go"],
 [("Biber.Resolve package case","bibtex.go"),("walkHelper package case","ast/walk.go")],
 state=[("file table","unordered map of files","ast/ast.go")],
 observe=["Biber.Resolve","ast.Walk"])

# ---- pure functions of one input: stated for breadth, not claimed -------------------
pure=["inputs"]
p("C20","A well-formed document is represented faithfully",
 "For every well-formed document the tree holds exactly its declarations in order, with lower-cased types, the first key as citation key, every tag with its lower-cased and raw name, and values whose pieces concatenate to the source text.",
 pure,"every well-formed document in every mode","The tests have about forty documents.",
 ["parser/parser.go","scanner/scanner.go"],[("recursive descent parser","parser/parser.go")])
p("C21","Author names are split by the BibTeX rules",
 "A name list is split at top-level 'and'; each name is divided into first, von, last and jr parts by its top-level commas and letter case as BibTeX does, and braced groups are never split.",
 pure,"every name list","The tests have about twenty names.",
 ["author.go"],[("resolveAuthor0/resolveAuthorN","author.go")])
p("C22","Accent commands render to the accented letter",
 "Every supported accent and letter combination renders to the corresponding precomposed character, and unsupported ones are errors.",
 pure,"every accent and letter","The tests use a handful of combinations.",
 ["render/accent.go"],[("accentMap","render/accent.go")])
p("C23","Tokens tile the source with exact positions",
 "Each token's position is the offset of its first byte, token literals equal the source text there, and tokens plus white space cover the source without gaps or overlaps.",
 pure,"every source text","The tests check positions on one token table.",
 ["scanner/scanner.go"],[("Scan","scanner/scanner.go")])
p("C24","Equivalent spellings parse to equivalent trees",
 "Changing the delimiters (braces or parentheses, quotes or braces), letter case of types and tag names, white space between tokens or trailing commas does not change the meaning of the tree.",
 pure,"every document and every equivalent respelling","The tests cover a few spellings.",
 ["parser/parser.go","scanner/scanner.go"],[("parser","parser/parser.go")])
p("C25","Plain-text rendering drops markup and keeps every text character",
 "Rendering text to plain text yields the text characters in order, with grouping braces removed, escapes replaced by the escaped character, ties and spaces by one space, and accents composed.",
 pure,"every parsed text","The tests cover three trees.",
 ["render/render.go","resolver.go"],[("TextRenderer.Render","render/render.go")])
p("C26","Comments are collected and attached to the declaration they document",
 "With comment parsing on, every comment of the source is listed once in order, and a comment group directly above a declaration or tag is attached to it.",
 pure,"every document with comments","No test enables comment parsing in the parser.",
 ["parser/parser.go"],[("next/consumeCommentGroup","parser/parser.go")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,(x["id"])
print(len(P),"properties")
