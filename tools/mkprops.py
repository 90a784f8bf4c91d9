#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it can be edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
T = "The stable tests parse three fixed documents and print three marks; the data-driven suites need files that are not in the tree. "
p("C01", "Reading arbitrary bytes never panics",
  "Whatever bytes are given to the scanner or the parser, in whatever declared or detected encoding, every call returns a value or an error. No input makes a call panic, overflow an integer, or access memory out of bounds, including calls made after an error was returned.",
  ["inputs"], "every byte string of every length, each of the three encodings, every position of the call sequence",
  T + "A panic needs one particular byte sequence (an escape cut off by the end of input, a tag before a comma, an unpaired surrogate) out of 256^n.",
  ["src/reader.rs", "src/scanner.rs", "src/parser.rs", "src/macros.rs"],
  [("character lookahead and buffer indexing", "src/scanner.rs: cache, skip_char, read_char, read_line_break"), ("decoding", "src/reader.rs"), ("state stack", "src/parser.rs: state_machine")],
  ["Parser::parse / Iterator::next return value", "Scanner::scan return value", "panics"])
p("C02", "Reading always terminates, with output bounded by the input",
  "Scanning, parsing or loading any finite input ends: a stream-end or an error is reached after a number of tokens and events bounded by a small multiple of the input length, and the work done grows in proportion to the input (times the depth of flow nesting, as in libyaml). After the end the iterator yields nothing more, however often it is asked.",
  ["inputs", "histories"], "every byte string; every number of further calls after the end",
  T + "Non-termination shows only on the input that makes a loop stop consuming.",
  ["src/scanner.rs", "src/parser.rs", "src/reader.rs", "src/document.rs"],
  [("token fetch loop", "src/scanner.rs: fetch_more_tokens"), ("reader loop", "src/reader.rs: yaml_parser_update_buffer"), ("iterator fuse", "src/parser.rs: impl Iterator")],
  ["number of items yielded", "executed instructions", "Iterator::next after the end"])
p("C03", "Parsed events equal libyaml's",
  "For every input that libyaml reads, the parser yields the same sequence of events as libyaml: kind, anchor, tag, value, version and tag directives, implicit flags and style. It accepts exactly the inputs libyaml accepts.",
  ["inputs"], "every byte string",
  T + "The YAML grammar is context-sensitive in the preceding characters; equality must hold for all combinations, not for sampled documents.",
  ["src/parser.rs", "src/scanner.rs", "src/event.rs"],
  [("productions", "src/parser.rs"), ("tokenisation", "src/scanner.rs")],
  ["events returned by Parser::parse compared with unsafe-libyaml's yaml_parser_parse"])
p("C04", "Scanned tokens equal libyaml's",
  "Used on its own, the scanner yields the same sequence of tokens as libyaml's scanner for every input: the same kinds, values, handles, suffixes and styles, and it fails on exactly the inputs on which libyaml's fails.",
  ["inputs"], "every byte string",
  T + "Only one token stream is checked by any test, and the parser hides scanner differences.",
  ["src/scanner.rs", "src/token.rs"],
  [("token production", "src/scanner.rs: fetch_next_token"), ("simple keys", "src/scanner.rs: save_simple_key, stale_simple_keys"), ("indentation", "src/scanner.rs: roll_indent, unroll_indent")],
  ["tokens returned by Scanner::scan compared with yaml_parser_scan"])
p("C05", "Source positions are exact and ordered",
  "Every token and event carries a start and an end position whose line and column equal those libyaml reports, whose byte index is the place in the text where that line and column fall, and start never exceeds end nor lies outside the input. Successive tokens never move backwards.",
  ["inputs"], "every byte string, including multi-byte characters and every kind of line break",
  "scanner_marks checks one eight-line ASCII text; multi-byte characters, CR LF, NEL, LS, PS and a byte order mark each advance the position differently.",
  ["src/scanner.rs", "src/parser.rs", "src/error.rs"],
  [("position accounting", "src/scanner.rs: skip_char, skip_line_break, read_char, read_line_break"), ("event positions", "src/parser.rs")],
  ["start_mark/end_mark of tokens and events"])
p("C06", "All encodings of a text read alike",
  "A text gives the same events whether it is supplied as UTF-8, as UTF-8 with a byte order mark, or as UTF-16 little or big endian with a byte order mark. The stream start reports the encoding that was used.",
  ["inputs"], "every text of Unicode scalar values, every encoding",
  "No test reads UTF-16 or a byte order mark at all.",
  ["src/reader.rs"],
  [("detection", "src/reader.rs: yaml_parser_determine_encoding"), ("UTF-16 decoding", "src/reader.rs: read_utf16_buffered, read_utf16_char_unbuffered")],
  ["events of the four encodings of one text"])
p("C07", "Exactly the ill-formed or disallowed characters are rejected",
  "Reading fails if and only if the text holds ill-formed UTF-8 or UTF-16 or a character YAML does not allow (control characters other than tab, line feed, carriage return and next line; surrogates; noncharacters FFFE and FFFF). The failure is a reader error (a character cut off by the end of the input may be reported as an unexpected end of input instead); well-formed text is never refused for its encoding, and never altered.",
  ["inputs"], "every byte sequence of every character width, at the start, inside and at the end of the input, truncated at any byte",
  "The existing test samples the printable table only; the decoder's boundaries (overlong forms, surrogates, truncated tails) are never exercised.",
  ["src/reader.rs"],
  [("UTF-8 decoding", "src/reader.rs: read_utf8_buffered, read_utf8_char_unbuffered"), ("allowed characters", "src/reader.rs: push_char")],
  ["Ok/Err and Error kind of Parser::parse, value of the scalar read"])
p("C08", "How the input is chunked never matters",
  "The result of reading depends on the bytes supplied only, not on how the source delivers them: any division into buffer refills, including one that splits a character, a line break or a byte order mark, and any number of interrupted reads, gives the same events, positions and errors.",
  ["inputs", "schedules"], "every division of every input into non-empty chunks, with interruptions at any read",
  "Every test reads from one contiguous slice.",
  ["src/reader.rs", "src/scanner.rs"],
  [("refill", "src/reader.rs: yaml_parser_update_buffer"), ("split characters", "src/reader.rs: read_utf8_char_unbuffered, read_utf16_char_unbuffered")],
  ["events from a chunked BufRead compared with those from a slice"])
p("C09", "Read failures are reported, once and faithfully",
  "If the source fails with an I/O error, reading returns an error of the I/O kind carrying it, after exactly the events that are determined by the bytes delivered before the failure or a prefix of them; it is never mistaken for the end of input and never causes a panic.",
  ["inputs", "fault_sequences"], "every failure point within every input",
  "No test uses a source that can fail.",
  ["src/reader.rs", "src/error.rs", "src/scanner.rs"],
  [("error conversion", "src/error.rs"), ("refill", "src/reader.rs")],
  ["Error kind and events from a failing BufRead"])
p("C10", "Event streams are well formed",
  "The events of any input follow the documented grammar: one stream start, then documents of exactly one node each, with matched and properly nested collection starts and ends, mappings holding an even number of nodes, then one stream end, after which nothing follows; a stream cut short by an error is a prefix of such a sequence, after which only stream ends are reported.",
  ["inputs"], "every byte string",
  T + "Consumers index on this grammar for all inputs, including those with empty nodes and syntax errors.",
  ["src/parser.rs"],
  [("state machine", "src/parser.rs: state_machine and parse_*"), ("iterator", "src/parser.rs: impl Iterator for Parser")],
  ["sequence of events from Parser::parse and from the iterator"])
p("C11", "Loading builds exactly the graph the events describe",
  "A loaded document has one node per scalar and collection event in document order, with the same value, style, positions and the resolved or default tag; children appear in order, each alias refers to the very node that carries its anchor, and the directives and implicit flags are those of the document's events. Every node number in the document is valid.",
  ["inputs"], "every input that parses, including nested, empty and aliased collections and several documents",
  "No stable test loads a document.",
  ["src/document.rs"],
  [("composition", "src/document.rs: load_node*, load_document"), ("alias table", "src/document.rs: register_anchor, load_alias")],
  ["Document returned by Document::load compared with the events of the same input"])
p("C12", "The loader rejects bad references and errs safely",
  "Loading fails with a composer error for an alias without an earlier anchor in the same document and for an anchor defined twice in one, and with the parser's own error for malformed input; it never panics, and anchors of one document are unknown in the next. At the end of the stream, and after a failure, loading reports an empty document, however often it is called.",
  ["inputs", "histories"], "every input; any number of further loads after success, failure or end of stream",
  "No stable test loads a document, let alone after an error.",
  ["src/document.rs"],
  [("loader", "src/document.rs: Document::load"), ("alias table", "src/document.rs: register_anchor, delete_aliases")],
  ["Document::load result for every further call"])
p("C13", "Emitting never panics, whatever the events",
  "Any sequence of events, well formed or not, with any contents, styles, tags, anchors and settings, and any calls made after an error, makes the emitter return success or an error; it never panics.",
  ["inputs", "histories", "configurations"], "every event sequence, every string content, every setting",
  "The emitter suite replays well-formed event files that are absent from the tree.",
  ["src/emitter.rs"],
  [("state machine", "src/emitter.rs: state_machine"), ("analysis", "src/emitter.rs: analyze_*"), ("writers", "src/emitter.rs: write_*")],
  ["Emitter::emit return value, panics"])
p("C14", "Emitted text equals libyaml's",
  "For every event sequence and every setting the emitter writes what libyaml's emitter writes - byte for byte in UTF-8, character for character in UTF-16 - and it returns an error exactly where libyaml does.",
  ["inputs", "configurations"], "every event sequence and content; every combination of canonical, indent, width, unicode, line break and encoding",
  "No stable test emits anything but one trivial case; style selection depends on a combination of some twenty content flags with the context.",
  ["src/emitter.rs", "src/macros.rs"],
  [("style selection", "src/emitter.rs: select_scalar_style"), ("content analysis", "src/emitter.rs: analyze_scalar"), ("scalar writers", "src/emitter.rs: write_*_scalar")],
  ["bytes written compared with unsafe-libyaml's emitter"])
p("C15", "Emitting then parsing returns the same events",
  "Parsing the text emitted for any event sequence that a parse can yield, with any requested styles, gives back the same structure: the same scalars character for character, the same anchors, aliases, tags and nesting, whatever the requested style, context, width and indent.",
  ["inputs", "configurations"], "every scalar content of permitted characters in every style and context (root, key, value, item, flow)",
  "A lost or altered character needs one particular content in one context (a leading space, a trailing break, an indicator after a space).",
  ["src/emitter.rs", "src/scanner.rs", "src/parser.rs"],
  [("content analysis", "src/emitter.rs: analyze_scalar"), ("folding", "src/emitter.rs: write_folded_scalar, write_plain_scalar")],
  ["events parsed from the emitted text compared with the events given"])
p("C16", "Dumping then loading returns an isomorphic document",
  "Any document built with the document methods and dumped loads back as an isomorphic graph: the same tags, values and order of children, with shared and cyclic nodes shared in the same way. Dumping the loaded document again gives the same text.",
  ["inputs", "configurations"], "every node graph up to the bound: arbitrary edges, sharing and self-reference, arbitrary scalar contents",
  "No stable test dumps a document; sharing patterns are the case distinctions (referenced once, twice, from inside itself).",
  ["src/document.rs", "src/emitter.rs"],
  [("anchor assignment", "src/document.rs: anchor_node, generate_anchor"), ("dump", "src/document.rs: dump, dump_node")],
  ["Document::load of the bytes Document::dump wrote"])
p("C17", "Emitter settings are honoured",
  "Every setting has its stated effect on all output: without unicode output all bytes are ASCII, every line break is the chosen one, the chosen encoding's byte order mark and code units are written, canonical form quotes and tags every scalar, block indentation is the chosen step (2 to 9, else 2), and breakable lines are folded at the chosen width. Settings change presentation only, never the content read back.",
  ["inputs", "configurations"], "every combination of the settings with every content",
  "No stable test varies a setting.",
  ["src/emitter.rs"],
  [("settings", "src/emitter.rs: set_*"), ("normalisation at stream start", "src/emitter.rs: emit_stream_start"), ("encoding", "src/emitter.rs: flush")],
  ["bytes written under each configuration; events read back from them"])
p("C18", "The writer receives all output, in order, and its failures surface",
  "The bytes handed to the output are the same however the output accepts them (partial writes, interruptions); everything emitted before a flush, the end of a document or the end of the stream has been handed over when that call returns, and an output failure is returned as an I/O error by the call that met it, with a prefix of the correct bytes written up to then.",
  ["inputs", "fault_sequences", "schedules"], "every sequence of partial writes, interruptions and failures",
  "Every test writes to a growing byte vector that cannot fail.",
  ["src/emitter.rs"],
  [("flush", "src/emitter.rs: flush, flush_if_needed"), ("conversion", "src/emitter.rs: flush (encoding)")],
  ["bytes received by the Write and the result of Emitter::emit/flush"])
p("C19", "A reset parser or emitter behaves like a new one",
  "After any history - complete, partial or ended in an error - a reset parser, scanner or emitter given new input or events produces exactly what a newly created one produces. Nothing carries over: anchors, directives, marks, encoding, nesting or buffered data.",
  ["inputs", "histories"], "every prefix history and every following use",
  "No test resets anything.",
  ["src/parser.rs", "src/scanner.rs", "src/emitter.rs"],
  [("reset", "src/parser.rs: Parser::reset; src/scanner.rs: Scanner::reset; src/emitter.rs: Emitter::reset")],
  ["output of a reset object compared with a fresh one's"])
p("C20", "Document building keeps its promises",
  "Adding a node returns its number, one more than the nodes before it; looking up a number returns that node and any other number returns none; appended items and pairs are kept in order, the root is the first node or none, and a null tag means the default tag for the kind. No call disturbs other nodes.",
  ["inputs", "histories"], "every sequence of calls with valid arguments and every lookup number",
  "No test builds a document.",
  ["src/document.rs"],
  [("node table", "src/document.rs: add_scalar, add_sequence, add_mapping, get_node, get_node_mut, get_root_node")],
  ["Document methods' return values"])
p("C21", "Errors describe the failure like libyaml does",
  "Every syntax error carries the problem text libyaml reports and its line and column, with libyaml's context and context position where it has one; the kind matches the layer that failed, positions lie within the input, and the displayed message contains problem and position.",
  ["inputs"], "every rejected byte string",
  "test_mark_display checks a few fixed errors.",
  ["src/error.rs", "src/scanner.rs", "src/parser.rs"],
  [("error construction", "src/error.rs"), ("error sites", "src/scanner.rs: set_scanner_error; src/parser.rs: Error::parser")],
  ["Error::kind/problem/problem_mark/context/context_mark and Display"])
p("C22", "Quoted scalars decode exactly",
  "In a double-quoted scalar every escape yields the character YAML assigns to it - named escapes, 2, 4 and 8 digit hexadecimal - an escaped line break joins lines, and any other escape, an incomplete one, or a code point that is no Unicode scalar value is an error. In both quoted styles, all other text is kept as is, with line breaks folded and a doubled single quote read as one.",
  ["inputs"], "every escape character, every hexadecimal value, every mix of blanks and line breaks inside the quotes",
  T + "There are over 4 billion 8-digit escapes and the boundaries are at surrogates and 10FFFF.",
  ["src/scanner.rs"],
  [("flow scalar scanning", "src/scanner.rs: scan_flow_scalar")],
  ["scalar value or error, against an independent definition and against libyaml"])
p("C23", "Tags resolve through directives exactly",
  "A tag shorthand resolves to the prefix declared for its handle in the same document, or the default prefixes for the primary and secondary handles, followed by its suffix with percent escapes decoded as UTF-8; verbatim tags are kept; an undeclared handle, a handle declared twice or a malformed escape is an error. Declarations end with their document.",
  ["inputs"], "every handle, prefix, suffix and percent escape, every document sequence",
  "No stable test uses a tag directive or an escaped tag.",
  ["src/scanner.rs", "src/parser.rs"],
  [("scanning", "src/scanner.rs: scan_tag, scan_tag_uri, scan_uri_escapes"), ("resolution", "src/parser.rs: parse_node, process_directives")],
  ["tag of the events, against libyaml"])
p("C24", "Limits on keys and numbers are exact",
  "A simple key is accepted up to the limit of 1024 characters on one line and refused or not treated as a key beyond it, exactly as libyaml does; version numbers of up to nine digits are read exactly and longer ones refused; only version 1.1 or 1.2 documents are accepted and a directive may appear once per document.",
  ["inputs"], "every length around the limits, with characters of every width; every digit string",
  "Nothing in the tests reaches a limit.",
  ["src/scanner.rs", "src/parser.rs"],
  [("simple key limit", "src/scanner.rs: stale_simple_keys"), ("version numbers", "src/scanner.rs: scan_version_directive_number"), ("directives", "src/parser.rs: process_directives")],
  ["events or error, against libyaml"])
p("C25", "Block scalars keep, clip, strip and fold exactly",
  "A literal or folded block scalar yields the text its header and indentation prescribe: detected or explicit indentation removed, trailing breaks kept, clipped or stripped, folded lines joined except around more-indented and blank lines, and the scalar ends at the first less-indented line or the end of input.",
  ["inputs"], "every header, every layout of blanks, text and breaks of the body",
  T + "The rules interact (indentation detection, chomping, folding, end of input without a break).",
  ["src/scanner.rs"],
  [("block scalar scanning", "src/scanner.rs: scan_block_scalar, scan_block_scalar_breaks")],
  ["scalar value and following event, against libyaml"])
p("C26", "Plain and multi-line scalars end and fold exactly",
  "A plain scalar in block or flow context ends at exactly the characters that end it there - a colon or comment after a blank, flow indicators inside flow collections, a less-indented line, a document marker - and its line breaks fold to a space or to the blank lines between, with surrounding blanks dropped.",
  ["inputs"], "every content, context and layout",
  T + "Termination depends on a pair of characters together with the context.",
  ["src/scanner.rs"],
  [("plain scalar scanning", "src/scanner.rs: scan_plain_scalar")],
  ["scalar value and following events, against libyaml"])
p("C27", "Equivalent ways of using the library agree",
  "Ways of using the library that are documented to do the same do the same for every input: set_input_string and set_input, the iterators of the parser and the scanner and their calls, a declared encoding and one detected from a byte order mark, set_output_string and set_output, flushing after any event and not flushing, open and close and explicit stream events. Dumping several documents through one emitter writes what their events write.",
  ["inputs", "histories", "configurations"], "every input, event sequence and setting; every place of switching between them",
  "Each test uses one of the ways on one input.",
  ["src/parser.rs", "src/scanner.rs", "src/emitter.rs", "src/document.rs"],
  [("iterators", "src/parser.rs, src/scanner.rs: impl Iterator"), ("inputs and outputs", "src/parser.rs: set_input*, set_encoding; src/emitter.rs: set_output*"), ("stream handling", "src/document.rs: open, close, dump")],
  ["events, tokens, errors and bytes of the two ways"])
p("C28", "Errors identify their kind, place and cause",
  "Every error says what failed: a reader error's message gives the byte offset at which the offending character begins and its value, whatever the encoding and the division of the input; a composer error has libyaml's problem, context and positions; an emitter error has libyaml's problem and no position; an I/O error carries the cause unchanged. Converting an error to an I/O error succeeds for I/O errors only and otherwise gives the error back unchanged.",
  ["inputs", "histories", "schedules"], "every rejected input in every encoding, every rejected document, every rejected event sequence, every kind of I/O error",
  "The stable tests look at three syntax errors.",
  ["src/error.rs", "src/reader.rs", "src/document.rs", "src/emitter.rs"],
  [("message", "src/error.rs: impl Display"), ("conversions", "src/error.rs: From, TryFrom"), ("offset", "src/reader.rs"), ("reference errors", "src/document.rs: register_anchor, load_alias")],
  ["Error::kind, problem, context, marks, to_string, source, TryFrom<Error> for io::Error"])
p("C29", "The test-suite programs print and read events faithfully",
  "The parser's program writes exactly one line per event of its input, in order, in the test suite's notation - kind, explicit markers, anchor, tag, style and the value with its escapes - and reports the parser's error after the events before it. The emitter's program emits exactly the events its lines describe (where & and < occur only to introduce an anchor or a tag) and fails exactly where the emitter does.",
  ["inputs"], "every input of the parser's program; every event sequence, scalar content, anchor and tag of the emitter's",
  "The suites that would run the programs need data that is not in the tree.",
  ["src/bin/run-parser-test-suite.rs", "src/bin/run-emitter-test-suite.rs"],
  [("printing", "src/bin/run-parser-test-suite.rs: test_main, print_escaped"), ("reading", "src/bin/run-emitter-test-suite.rs: test_main, get_anchor, get_tag, get_value")],
  ["bytes written by test_main and its result"])
p("C30", "Documents are loaded and dumped as libyaml does",
  "Loading a document from any input builds what libyaml's loader builds: the same nodes in the same order with the same kinds, tags, values, styles, children and positions, and the same directives and implicit flags; it fails where libyaml's loader fails, with the same error. Dumping documents, built or loaded, writes byte for byte what libyaml's dumper writes - the same anchors, numbered afresh in every document, tags left out where libyaml leaves them out - and opens and closes the stream as libyaml's does.",
  ["inputs", "histories", "configurations"], "every input; every document and sequence of documents, except that those in which a node is reached twice from below the root are not dumped (unsafe-libyaml's dumper crashes on them; C16 decides those); every setting",
  "No stable test loads or dumps a document.",
  ["src/document.rs", "src/emitter.rs", "src/parser.rs"],
  [("loading", "src/document.rs: load, load_nodes, load_scalar, load_sequence, load_mapping, load_alias"), ("dumping", "src/document.rs: dump, anchor_node, dump_node"), ("anchor numbers", "src/emitter.rs: generate_anchor, reset_anchors")],
  ["Document::nodes, directives, flags and marks against yaml_parser_load's", "bytes written by Document::dump against yaml_emitter_dump's"])
p("C31", "Input is asked for only when it is needed",
  "Tokens, events and documents are delivered as soon as the input that decides them has been read, however the source divides it: from no place in any input does getting the next token, event or document require more of the input than libyaml requires. A document ended by its marker is therefore available while the source is still open. The end of the input is met once and the source is not read again after it.",
  ["inputs", "schedules"], "every input; every place at which the source stops delivering; every encoding",
  "Each test has its whole input in memory.",
  ["src/reader.rs", "src/scanner.rs", "src/parser.rs", "src/document.rs"],
  [("refilling", "src/reader.rs: yaml_parser_update_buffer"), ("lookahead", "src/scanner.rs: cache, fetch_more_tokens, stale_simple_keys"), ("pulling tokens", "src/parser.rs: state_machine; src/document.rs: load")],
  ["number of tokens, events and documents delivered before the source fails, against unsafe-libyaml fed by a handler that stops at the same byte", "number of times the source reports its end"])
p("C32", "Writing takes work and output in proportion to the events",
  "Emitting a sequence of events or dumping documents ends, and the work and the length of the output grow in proportion to the number of events, nodes and documents and to the length of their text (times the depth of nesting, for indentation), under every setting.",
  ["inputs", "histories", "configurations"], "every scalar content and style, collection style and setting of long sequences of events, long scalars and large documents",
  "Growth shows only between sizes; the stable tests write nothing.",
  ["src/emitter.rs", "src/document.rs"],
  [("scalars", "src/emitter.rs: analyze_scalar, write_*_scalar"), ("waiting for events", "src/emitter.rs: emit, needs_mode_events"), ("anchors and dumping", "src/document.rs: dump, anchor_node, dump_node")],
  ["instructions executed and bytes written for a size and for four times that size"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
