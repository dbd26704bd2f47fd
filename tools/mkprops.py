#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "The delivered stream is exactly the serialisation of the accepted calls",
  "For every history of accepted calls on a sink that does not fail, each successful flush leaves in the sink exactly the documented serialisation of the calls made so far: nothing lost, duplicated, reordered or added, at any nesting depth. The bytes are the same whatever the buffer size, wherever the caller flushes, whichever write interface the sink offers and whichever of the equivalent entry points made each call. No accepted call reports an error.",
  ["histories", "schedules", "configurations", "inputs"],
  "all call histories x buffer sizes x flush points x sink kinds x nesting depths x value lengths around the buffer size",
  "The tests write short fixed documents into a bytes.Buffer with the default buffer and one flush at the end, so no test crosses a buffer boundary, nests deeper than a handful of nodes or flushes mid-document.",
  ["writer.go", "node.go", "nodes.go", "elem.go", "attr.go", "dtd.go", "printer.go"],
  [("buffered printer over the caller's sink", "printer.go: printer; writer.go: newWriter, Flush"),
   ("node stack and its open/opened/ended transitions", "node.go: open, opened, end; writer.go: Next, pushBegin, pushEnd, pop")],
  [("nodes/current", "stack of started nodes and its top", "writer.go: Writer")],
  ["the sink given to Open", "Writer.Flush"])

p("C02", "The sink always holds a prefix of the fault-free stream, whatever fails",
  "At every instant, including after the sink fails at an arbitrary byte, accepts only part of a write, fails once and then recovers, or the caller is cut off between or inside calls, the bytes the sink has accepted are an exact prefix of the bytes the same calls deliver to a sink that never fails. Once the sink has failed, no later call delivers any further bytes to it, whatever the caller does next. A flush that reports success has delivered everything accepted so far.",
  ["crash_points", "fault_sequences", "histories", "configurations"],
  "all histories x sink fault kinds x fault positions (byte offset or write number) x buffer sizes x continuations after the fault",
  "No existing test uses a sink that can fail; every one of them ends with all bytes accepted.",
  ["printer.go", "writer.go", "node.go", "nodes.go", "elem.go", "dtd.go"],
  [("sticky write error of the buffered printer", "printer.go: printer, cachedWriteError"),
   ("all output goes through one buffer in call order", "writer.go: newWriter")],
  observe=["every Write/WriteString the sink receives"])

p("C03", "No sink failure goes unreported, and none is invented",
  "The call during which the sink fails returns an error that wraps the sink's error; when the sink only accepts fewer bytes than it was given, the call returns the short-write error or goes on to deliver the rest. After a reported failure every later call that would produce output, and every later flush, returns an error too, and flush keeps reporting that first failure. Hence if every call and the final flush returned nil, the sink holds the whole document. If the sink never fails, no call reports a sink error.",
  ["fault_sequences", "histories", "configurations"],
  "all histories x sink fault kinds and positions x which call the buffer happens to spill in",
  "No existing test makes a sink fail, so none of the many places where the writer drops an intermediate write result and relies on a later check is exercised.",
  ["printer.go", "nodes.go", "elem.go", "dtd.go", "attr.go", "node.go", "writer.go", "indenter.go"],
  [("deferred error check at the end of each write", "printer.go: cachedWriteError and its callers in nodes.go, elem.go, dtd.go"),
   ("error propagation through composite calls", "writer.go: Next, Block, Write, Start, EndAll, EndDoc, EndToDepth, EndAllFlush")],
  observe=["the error returned by each call"])

p("C04", "After any failure every call still returns: no panic, no endless loop",
  "After the sink, the indenter or the character encoder has failed at any point, or a call was rejected half-way, any further sequence of calls (writing, starting, ending the same node again, ending everything, flushing) returns without panicking and after bounded work. The reported depth never exceeds the number of nodes the caller has started and not ended, and never drops below that of an empty writer. Ending everything either ends every open node or returns an error.",
  ["fault_sequences", "crash_points", "histories"],
  "all histories x fault kinds (sink, indenter, encoder, rejected value) x fault positions x continuations after the fault",
  "Tests stop at the first error; none continues with the writer after a failure, which is exactly what deferred cleanup and error collectors do.",
  ["writer.go", "node.go", "indenter.go", "elem.go", "nodes.go"],
  [("end loops return on the first error", "writer.go: EndAll, EndDoc, EndToDepth"),
   ("indent bookkeeping tolerates a node being ended again", "indenter.go: StandardIndenter.Indent"),
   ("pop only moves the stack after a successful end", "writer.go: pop; node.go: end")],
  observe=["return of each call", "Writer.Depth"])

p("C05", "An accepted document is well-formed and carries exactly what was written",
  "With enforcement on, if a caller that writes one document (each attribute once per element, one root element, a doctype before it) gets nil from every call it did not treat as rejected, ends everything and flushes successfully, then the delivered bytes are a well-formed XML 1.0 document whose parse yields exactly the elements, attributes, namespace declarations, text, CDATA, comments, processing instructions and declarations that were written, in order. This holds for arbitrary strings offered as names, targets, values and content, with calls rejected by the writer interspersed anywhere, and under every buffering of the stream. (Raw output, forced versions, entity replacement text, content models and attribute types are markup the caller supplies, passed through as given.)",
  ["histories", "inputs", "configurations"],
  "all disciplined histories with rejected calls interspersed x adversarial strings x buffering and flush points",
  "Tests compare a few fixed outputs; none parses the output back, offers hostile strings through each parameter or continues a document after a rejected call.",
  ["check.go", "nodes.go", "elem.go", "attr.go", "dtd.go", "printer.go", "writer.go"],
  [("name, character and placement checks", "check.go: CheckName, CheckChars; writer.go: checkParent"),
   ("escaping", "printer.go: EscapeString, EscapeAttrString")],
  observe=["bytes delivered to the sink, parsed by an independent parser"])

p("C06", "Text and attribute values survive the round trip and cannot inject markup",
  "Whatever string is written as text or as an attribute value (including DTD attribute defaults), split over any number of text calls and across any buffer boundary, an XML parser reading the delivered stream gets back that same string and sees no markup from it. The only change is that characters XML cannot represent, and bytes that are not valid UTF-8, arrive as U+FFFD, one each. This includes carriage returns, tabs and newlines, which attribute-value and line-end normalisation would otherwise alter.",
  ["inputs", "histories", "configurations"],
  "all strings (all Unicode scalar values, invalid UTF-8, markup fragments) x splits over calls x buffer boundaries inside the escape sequences",
  "Tests cover a handful of ASCII strings through the escapers directly, never the stream as an XML parser reads it and never with an escape straddling a buffer boundary.",
  ["printer.go", "nodes.go", "attr.go", "dtd.go"],
  [("text escaping", "printer.go: EscapeString"), ("attribute escaping with its fast path", "printer.go: EscapeAttrString, attrStringEscaped")],
  observe=["bytes delivered to the sink, parsed by an independent parser"])

p("C07", "Output in another encoding decodes to the same document",
  "When the writer is opened with a character encoding, the delivered bytes decode in that encoding to the document the same calls produce in UTF-8, except that the declaration names the encoding and that characters of text and attribute values outside its repertoire appear as numeric character references. This holds wherever multi-byte characters fall relative to buffer boundaries and flushes. If the sink fails, the delivered bytes are a prefix of the fault-free encoded stream, and the failure is reported.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all histories x encodings (single-byte, multi-byte, UTF-16, stateful) x buffer and flush points inside multi-byte characters x sink and encoder faults",
  "Tests write one short document in each of three encodings into a buffer, flush once, and never split a character across writes or make the sink fail.",
  ["writer.go", "printer.go", "nodes.go"],
  [("encoder between buffer and sink", "writer.go: OpenEncoding"), ("encoding label in the declaration", "nodes.go: Doc.open")],
  observe=["bytes delivered to the sink, decoded"])

p("C08", "Misplaced nodes are rejected without a trace; allowed placements never are",
  "With enforcement on, every node kind is accepted exactly in the parents the documentation lists (or with no parent where that is allowed) and rejected everywhere else, attributes additionally only while their element's start tag is still open, at every depth and at every point of a history. A call rejected for its placement, or for a name or content checked up front, changes nothing: not the delivered bytes, not the depth, not the serialisation of any later call.",
  ["histories", "configurations"],
  "all histories x every (parent kind and state, child kind) pair x API entry points, with any number of rejected calls interspersed",
  "One test tries a few wrong parents and stops at the error; none checks that the document continues unharmed, and most parent/child pairs and states are never tried.",
  ["writer.go", "nodekind.go", "nodes.go", "elem.go", "attr.go", "dtd.go"],
  [("parent flags", "writer.go: checkParent, pushBegin; nodekind.go: nodeFlag"), ("start-tag state check", "attr.go: Attr.write")],
  observe=["error of each call", "Writer.Depth", "final stream"])

p("C09", "Ending nodes follows the stack discipline exactly",
  "Nodes end in the reverse of the order they were started, each writing its own closing form exactly once. Ending by kind or by name succeeds exactly when the current node has that kind and name, and otherwise changes nothing; ending to a depth ends precisely the nodes started above that depth; ending the document or everything ends all open nodes; and ending with nothing open is an error. The reported depth always equals the number of open nodes minus one.",
  ["histories"],
  "all interleavings of starts, writes and every form of end, with matching and mismatching kinds, names and depths, at any nesting depth and flush point",
  "Tests exercise each form of end once on a one- or two-level document, mostly the success path.",
  ["writer.go", "node.go", "elem.go"],
  [("pop and its kind/name checks", "writer.go: End, pop, EndAny, EndAll, EndDoc, EndToDepth, EndElemFull"), ("closing form", "node.go: end; elem.go: end")],
  [("current", "index of the top of the stack", "writer.go: Writer")],
  ["Writer.Depth", "error of each call", "final stream"])

p("C10", "Each namespace prefix is declared exactly once per element, conflicts rejected",
  "On every element, each prefix given together with a URI, by the element itself or by any of its accepted attributes in any order, is declared exactly once in that start tag with that URI, whenever and however the start tag gets completed. A second, different URI for a prefix already declared on that element is rejected without writing anything, and an attribute that was rejected, or has no prefix, declares nothing. Declarations never leak to other elements, however elements nest and follow each other.",
  ["histories", "inputs"],
  "all histories of elements and attributes over a small set of prefixes and URIs, at any depth, with conflicting and rejected attributes interspersed and start tags completed by every kind of next call",
  "Tests check one element with one or two prefixed attributes; none reuses stack slots, mixes rejected attributes or varies what completes the start tag.",
  ["attr.go", "elem.go", "node.go"],
  [("pending declarations per element", "attr.go: Attr.write; elem.go: open, opened")],
  [("namespaces", "prefixes seen on this element and whether written", "elem.go: Elem")],
  ["bytes delivered to the sink, parsed"])

p("C11", "The standard indenter adds only whitespace, only where it is harmless",
  "With the standard indenter, deleting the line breaks and indentation it inserted leaves exactly the stream the same calls produce without an indenter. It never inserts anything next to text or CDATA, or inside a tag or a comment; every insertion between nodes is one newline string followed by the indent string repeated once per enclosing element or declaration. In a document whose elements contain only elements, every start tag, empty element and closing tag of a non-empty element stands on its own line at its depth.",
  ["histories", "configurations"],
  "all histories x indent strings x newline strings x depths x flush points",
  "Tests compare seven small fixed documents.",
  ["indenter.go", "node.go", "writer.go"],
  [("indent decision on (last, next) events", "indenter.go: StandardIndenter.Indent")],
  [("stack/depth", "per-level indent counts", "indenter.go: StandardIndenter")],
  ["bytes delivered to the sink with and without the indenter"])

p("C12", "A custom indenter sees every transition in order and can fail safely",
  "An indenter is called for every node transition, before the corresponding bytes are written: once per leaf, and once each when a startable node opens, becomes opened and ends, with the kind and state of the coming transition and with the most recently completed transition as the previous one; a call refused up front reports none. Every text and comment content is passed through its wrap function and the result is what is written. If the indenter returns an error, the call being made returns that error, and what is delivered remains a prefix of the fault-free stream.",
  ["histories", "fault_sequences"],
  "all histories x indenter faults at any callback x indenters that themselves write through the writer",
  "The only indenter the tests use is the standard one, which never fails, and nothing checks the sequence of events.",
  ["indenter.go", "node.go", "writer.go", "nodes.go", "attr.go", "dtd.go", "misc.go"],
  [("event notification", "node.go: open, opened, end; writer.go: writeIndent, writeBeginNext, writeBeginCur"), ("wrapping", "nodes.go: Text.write, CommentContent.write")],
  [("last", "most recently completed transition", "writer.go: Writer")],
  ["arguments of Indenter.Indent and Indenter.Wrap"])

p("C13", "Independent writers do not affect each other under any interleaving",
  "Any number of writers driven by different callers, each with its own sink, behave exactly as if each ran alone, however their calls interleave and wherever inside a call (in a sink write, an indenter callback or an encoder step) control passes to another writer, and whichever of them fails. They may share option values and the node values and slices passed to them; the writer never modifies those.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of several writers at call boundaries and at every callback inside calls, with shared arguments and with faults in some of them",
  "Tests use one writer at a time in one goroutine.",
  ["writer.go", "printer.go", "node.go", "elem.go", "nodes.go", "dtd.go"],
  [("all state lives in the Writer and value copies of nodes", "writer.go: Writer, newWriter; node.go: node; elem.go: start, open")],
  observe=["each sink", "arguments after the call"])

p("C14", "Structured and procedural writing are equivalent, also under faults",
  "A tree of nodes written in one structured call, the same tree as a block, as generic start/write/end calls, or as node-specific calls, all deliver the same bytes and accept or reject together, at any depth of the tree and of the document around it. A block, or a call with several nodes, that is refused at one of them has done exactly what the separate calls before that one do. Under the same sink fault (at a byte of the stream) they leave the same bytes in the sink and all report the failure.",
  ["programs", "histories", "fault_sequences", "configurations"],
  "all node trees x all ways of expressing them x nesting depth at which they are written x fault byte offsets x buffer sizes",
  "One test pair compares two styles on one shallow document without faults.",
  ["writer.go", "elem.go", "node.go", "nodes.go", "dtd.go"],
  [("content written when the element opens", "elem.go: opened"), ("generic dispatch", "writer.go: Start, Write, Block and the specific methods")],
  observe=["bytes delivered to each sink", "errors"])

p("C15", "Raw output is passed through verbatim and changes no writer state",
  "A raw write is accepted at any point, puts exactly its bytes at exactly that point of the stream, and leaves the state of the writer as it was: a start tag that was open stays open (attributes can still follow), an element that was empty still closes in the short form, depth and later placement decisions are unchanged. An explicit request to move on to the next node completes an open start tag so that raw output after it falls inside the element.",
  ["histories", "inputs"],
  "all histories with raw writes of arbitrary bytes at arbitrary points, with and without an explicit next, x buffer sizes and flush points",
  "Tests write short raw strings at four fixed points.",
  ["nodes.go", "writer.go", "node.go"],
  [("raw bypasses the open/opened transition", "nodes.go: Raw.write; writer.go: Next")],
  observe=["bytes delivered to the sink"])

p("C16", "The error collector keeps the first failure and never loses one",
  "An error collector fed with the results of any sequence of calls, across any number of collecting calls, holds exactly the first error that occurred with its position in that call and its source location, and reports it through set, panic, unwrap and its message; later errors never replace it, and it reports nothing if no call failed. The must form panics with its first error immediately. Thus a sequence of writes under an arbitrary sink failure reports that failure through the collector.",
  ["fault_sequences", "histories"],
  "all groupings of call results into collecting calls x which of them fail x sink fault positions",
  "Tests collect at most two hand-made errors.",
  ["errs.go"],
  [("first-error retention", "errs.go: ErrCollector.Do, Must, Set, Panic, Unwrap, Error")],
  observe=["ErrCollector fields and the error it sets"])

p("C17", "Comments, CDATA and PIs cannot be closed early by what is written into them",
  "With enforcement on, whatever strings are written into a comment, a CDATA section or a processing instruction, in one or several writes, the construct ends in the delivered stream only where the caller ended it: a forbidden delimiter is rejected even when it would only arise across two writes or against the closing delimiter, and so are characters XML does not allow there and, unless strict characters are turned off, those it discourages. What was accepted arrives unchanged, contents free of all these are accepted, and after a rejected write the construct can be continued or ended as if that write had not been made.",
  ["inputs", "histories"],
  "all strings over delimiter characters and forbidden characters x all splits over content writes x flush points between them x rejected writes interspersed",
  "Tests write one fixed content per node kind in a single write.",
  ["nodes.go", "node.go", "check.go"],
  [("delimiter checks with carry-over between writes", "nodes.go: CommentContent.write, CDataContent.write, trailing; node.go: end"), ("PI content check", "nodes.go: PI.write")],
  [("trail", "run of delimiter characters at the end of the content so far", "node.go: node")],
  ["bytes delivered to the sink, parsed", "error of each call"])

p("C18", "Doctype and DTD declarations come out as declared or are rejected",
  "Every sequence of doctype, element, entity, attribute-list, attribute and notation declarations (with comments) that is accepted appears in the stream as the corresponding declarations, each complete, in order, with external identifiers and values quoted so that they read back as given, and with the internal subset's brackets exactly when there is something in it, however the doctype is started, filled and ended. With enforcement on, identifiers and values that cannot be quoted or hold characters XML does not allow, public identifiers that are incomplete or contain other characters, and contradictory combinations of fields are rejected.",
  ["histories", "inputs"],
  "all declaration sequences x field combinations x identifier strings x ways of starting and ending the doctype x buffer and flush points",
  "Tests check one or two fixed declarations of each kind.",
  ["dtd.go", "printer.go", "nodes.go"],
  [("declaration writers", "dtd.go"), ("external ID and quoting", "printer.go: writeExternalID, writeSystemID, writePublicID, writeEntityValue")],
  observe=["bytes delivered to the sink, parsed", "error of each call"])

p("C19", "Content given when a node is started is written exactly once, in its place",
  "Attributes and content supplied with a node when it is started appear exactly once, attributes inside the start tag before later ones, content directly after the start tag and before anything written later, whichever call completes the start tag (a sibling, a child, an end in any form or an explicit next), at any nesting depth. If writing that deferred content fails, the call that triggered it reports the failure and the content is not written a second time.",
  ["histories", "fault_sequences", "configurations"],
  "all nodes with deferred parts x every call that can complete them x nesting depth x fault positions inside the deferred output x retries after a failure",
  "Tests start a tree once and end it with one form of end at depth one.",
  ["elem.go", "nodes.go", "dtd.go", "node.go", "writer.go"],
  [("deferred output on the opened transition", "elem.go: opened; nodes.go: Comment.opened, CData.opened; dtd.go: DTDAttList.opened")],
  observe=["bytes delivered to the sink", "error of each call"])

p("C20", "Enforcement only filters: it never alters accepted output",
  "For any history, turning enforcement off changes no byte of the output of the calls that enforcement accepts, nor their results and the depth after each. With enforcement off no call is rejected for its placement, its name or its content, only for contradictory arguments and for ending what is not open; the strict-characters setting likewise only decides which contents are rejected.",
  ["histories", "configurations"],
  "all histories x enforcement and strictness settings, run side by side, with faults at the same stream position",
  "Tests run almost everything with enforcement on and never compare the two modes.",
  ["writer.go", "nodes.go", "elem.go", "attr.go", "dtd.go", "printer.go"],
  [("checks guarded by the enforcement flag", "writer.go: checkParent callers; printer.go: printAttr, writeExternalID, writeSystemID")],
  observe=["bytes delivered to the sink", "errors"])

p("C21", "The script tester performs the same calls and reports every failure",
  "Running a script through the repository's Go script interpreter delivers the same bytes as making the corresponding calls directly, for every sequence of start, write and end commands, parameters and encodings it supports, and whitespace stripping only where asked. Unknown kinds, parameters or encodings and calls the writer rejects end the run with an error, and a failing output is reported rather than swallowed.",
  ["programs", "histories", "fault_sequences"],
  "all scripts x sink fault positions",
  "The interpreter has no tests of its own; it is run by hand against libxml2.",
  ["tester/gotester/xwrunner.go", "tester/gotester/main.go"],
  [("command dispatch", "tester/gotester/xwrunner.go: Script.Exec, doStart, doWrite, doEnd"), ("final flush", "tester/gotester/xwrunner.go: Script.Run, flush")],
  observe=["the sink given to Script.Run", "its error"])

p("C22", "XML declarations say exactly what was asked for",
  "Every XML declaration in the stream gives the version (the one forced on the declaration, else the writer's, else 1.0), the encoding (the one forced, else the one the writer was opened with, left out when empty) and standalone (yes or no, only when set), in that order, each left out exactly when suppressed, escaped so that they read back as given, and is followed by the newline string in force. This holds for every combination of the fields, through every entry point, on a writer opened with or without an encoder. With enforcement on, an encoding that is not a valid encoding name is refused unless suppressed. A failing output inside the declaration is reported.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all combinations of a declaration's fields x writer settings, also changed between calls x entry points x encoders x buffer sizes x fault positions inside the declaration",
  "Tests check a handful of combinations in one way of writing each.",
  ["nodes.go", "writer.go", "printer.go"],
  [("declaration", "nodes.go: Doc.open"), ("encoding label", "writer.go: Open, OpenEncoding")],
  observe=["bytes delivered to the sink, read back", "error of each call"])

p("C23", "Settings apply from the moment they are set",
  "Enforce, StrictChars, Version, NewlineString and Indenter govern each call by their value when the call is made: setting one as an option when opening, or assigning it after opening before the first call, is the same; an assignment between two calls affects the later call and nothing before it, whatever nodes are open; assigning a value and taking it back before the next call changes nothing. Assigning InitialBufSize after opening changes no output.",
  ["histories", "configurations"],
  "all histories x assignments of any public field between any two calls",
  "Tests set fields once, before the first call.",
  ["writer.go", "nodes.go", "elem.go", "dtd.go", "attr.go", "printer.go"],
  [("public fields read at each call", "writer.go: Writer")],
  observe=["bytes delivered to the sink", "error and depth of each call"])

p("C24", "Output is delivered as it is produced; memory does not grow with the document",
  "After every call that succeeds, all output produced so far except at most the last InitialBufSize bytes (2048 when not set; and part of one character with an encoder) has been delivered to the sink, after a flush all of it, however long the strings and whatever the nodes. Nodes that have ended do not add to its memory: writing on at the same nesting depth does not make it grow.",
  ["histories", "configurations"],
  "all histories x buffer sizes x encoders; documents of any length",
  "Tests look at the sink once, after the last flush, and write documents of a few hundred bytes.",
  ["writer.go", "printer.go", "node.go", "nodes.go", "elem.go"],
  [("the one buffer", "writer.go: newWriter"), ("node stack reused", "writer.go: pushBegin, pop; node.go: clear")],
  observe=["bytes delivered to the sink after each call", "live heap after collection"])

p("C90", "Character and name checks implement the XML productions",
  "The exported checks for names, characters, public identifiers and encoding names accept exactly the strings of the XML 1.0 productions they document.",
  ["inputs"], "all strings",
  "Ten fixed names are tested.",
  ["check.go", "tables_gen.go", "gentables.go"],
  [("production tables", "check.go; tables_gen.go")])
p("C91", "Attribute value conversions render Go values canonically",
  "The typed attribute helpers render every boolean, integer and float value so that it parses back to the same value.",
  ["inputs"], "all values of each supported type",
  "A few values per type are tested.",
  ["attr.go"], [("strconv conversions", "attr.go")])
p("C92", "The heap-friendly API does not allocate per write",
  "Writing through the procedural API performs no heap allocation per call once the writer is open.",
  ["histories"], "all histories",
  "One fixed sequence is measured.",
  ["writer.go", "node.go", "printer.go"], [("value nodes in a preallocated stack", "node.go: node")])
p("C93", "The C reference tester agrees with the Go tester",
  "For every script the libxml2-based reference program and the Go script interpreter produce equivalent documents.",
  ["programs"], "all scripts",
  "Comparison is done by hand.",
  ["tester/ctester/ctester.c", "tester/run.sh"], [("ctester", "tester/ctester/ctester.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
