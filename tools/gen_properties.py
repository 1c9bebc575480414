#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Exactly the RFC 8259 language is accepted",
  "With the default settings, parsing succeeds if and only if the input is one JSON text as RFC 8259 defines it: UTF-8, no byte order mark, only space/tab/LF/CR as insignificant whitespace, the RFC grammar for numbers, literals, strings and structure, every \\u surrogate correctly paired, and nesting of at most 128 containers. Everything else is rejected with an error.",
  ["inputs"], "every byte sequence (and every string), through every parsing entry point, with default settings",
  "The JSONTestSuite and json.org files are about 370 fixed samples, checked through the validator only; the language is infinite and the parser is a hand-written scanner with byte tables, so a single wrong table entry, state or context (first/last element, after a nested close, key versus value) escapes them.",
  ["src/parser.rs", "src/string.rs", "src/value.rs", "src/doc.rs"],
  [("Tokenizer::read_peek and the per-kind readers", "src/parser.rs"), ("Parser::read_tokens/read_object/read_array", "src/parser.rs"), ("SAFE_STRING_BYTES*, HEX_OFFSET_TABLE", "src/string.rs")],
  [("tokenizer offset", "how much of the source has been consumed", "src/parser.rs ByteIterator")],
  ["Value::from_json*", "Document::from_json*", "Parser::validate_json*"])
p("C02", "Each parser setting changes exactly what it documents",
  "Allowing trailing commas additionally accepts one comma directly before a closing bracket or brace of a non-empty container and nothing else; a nesting limit L rejects exactly the texts nested deeper than L (no limit: none), counting open containers and not containers seen; disallowing scalars at the root rejects exactly the texts whose root is not an object or array. The settings are independent of each other, and the plain entry points behave as the documented default settings.",
  ["inputs", "configurations"], "every input combined with every combination of trailing-comma setting, nesting limit (0, small, around the actual depth, 128, very large, none) and root setting",
  "Tests parse one trailing-comma document, four root scalars, and the json.org files with one limit; the limit is a counter that must be restored on every exit path of every container, and the settings interact, so only the input x configuration product shows an error.",
  ["src/parser.rs"],
  [("ParseConfig and its builder functions", "src/parser.rs"), ("ParseState::begin_nest/end_nest", "src/parser.rs"), ("root kind test in Parser::parse_bytes", "src/parser.rs")],
  [("remaining_depth", "containers that may still be opened", "src/parser.rs ParseState")],
  ["*_with_config entry points"])
p("C03", "No input can crash or hang the library or yield invalid text",
  "For every byte sequence and every setting with a finite nesting limit, every entry point (including a tokenizer that is driven on after it reported errors) returns normally with a value or an error, and so does every read-only operation on what it returned. Every string or number handed out is valid UTF-8 taken from the source, and every decoded character is a Unicode scalar value; every error offset lies within the source.",
  ["inputs", "configurations"], "arbitrary bytes, structured near-misses, truncations, hostile nesting, invalid UTF-8 at every position, all entry points and accessors",
  "The crate builds strings and characters with unchecked conversions after manual validation, and relies on expect/unreachable for 'already validated' data; safety therefore depends on the validator and each consumer agreeing for all inputs, of which the tests sample a few hundred. The fuzz targets in the repository are never run by the tests and assert nothing.",
  ["src/parser.rs", "src/string.rs", "src/doc.rs", "src/value.rs", "src/number.rs"],
  [("manual UTF-8 check in Tokenizer::read_string_from_source", "src/parser.rs"), ("from_utf8_unchecked / char::from_u32_unchecked call sites", "src/parser.rs, src/string.rs"), ("recursion limit", "src/parser.rs ParseState")],
  observe=["process exit status", "panics", "UTF-8 validity of returned text"])
p("C04", "Parsing preserves structure, order, duplicates and scalar text",
  "A successfully parsed text yields exactly the tree it spells: the same container kinds and nesting, every array element and object member in source order with duplicate keys kept, every literal, and for each number and string the unchanged source text. Whitespace between tokens and the choice of text or byte input never influence the result.",
  ["inputs"], "every valid JSON text, any whitespace layout, shallow or deep, small or with thousands of members, from text or bytes",
  "Tests compare about twenty tiny hand-built trees; nothing exercises large, deep, duplicate-key or unusually spaced texts against an independent expectation.",
  ["src/parser.rs", "src/value.rs", "src/doc.rs"],
  [("ParseDelegate for ValueParser", "src/value.rs"), ("slices taken in read_string_from_source/read_number_from_source", "src/parser.rs")],
  observe=["Value tree", "JsonString::as_json_str", "JsonNumber::source"])
p("C05", "Escape sequences decode to the characters they denote",
  "Decoding a parsed string yields precisely the characters its JSON spelling denotes under RFC 8259, including every short escape, every \\uXXXX in either hex case and every surrogate pair in every plane. Every way of observing the decoded text (iterating, collecting, displaying, comparing with text, reported decoded length, borrowed view when there are no escapes) agrees with it.",
  ["inputs"], "every JSON string literal: every code point in every spelling, at every position, in keys and values, strings of any length",
  "Tests decode about ten strings; 1.1 million code points and about 1.2 million \\u spellings (65,536 units, 1,048,576 pairs) exist, and length bookkeeping is separate code from decoding.",
  ["src/string.rs", "src/parser.rs"],
  [("Decoded iterator", "src/string.rs"), ("merge_surrogate_pair", "src/string.rs"), ("read_string_escape and JsonStringInfo accounting", "src/parser.rs, src/string.rs")],
  [("JsonStringInfo", "has-escapes flag plus decoded length", "src/string.rs")],
  ["JsonString::decoded/decode_if_needed/as_str/decoded_len/Display/PartialEq<str>"])
p("C06", "Any Rust string becomes a correct JSON literal",
  "For every Rust string, borrowed or owned, the JSON spelling the library produces for it is a valid JSON string body that any conforming parser decodes back to exactly that string, and the library itself reads it back as equal. The reported encoded and decoded lengths, emptiness, and all ways of obtaining the spelling agree, and its plain text is available without decoding.",
  ["inputs"], "every Rust string: all control characters, quotes, backslashes, every plane, any length and mixture",
  "One test escapes one string whose only non-short control character is U+0000 (whose four hex digits are identical in any order); the other 26 control characters, Latin-1 lengths and long mixtures are never tried.",
  ["src/string.rs"],
  [("AsJson iterator and EscapeState", "src/string.rs"), ("From<&str>/From<String> analysis pass", "src/string.rs")],
  [("EscapeState", "characters still owed for the current escape", "src/string.rs")],
  ["JsonString::as_json/escape_if_needed/len/is_empty", "Value::to_json"])
p("C07", "String equality, order and hash depend only on decoded text",
  "Two JSON strings compare equal, order and hash according to their decoded text alone, however each is spelled and stored (parsed with or without escapes, made from borrowed or owned text), and comparing with plain text agrees with comparing the decoded text; equal strings hash identically under every hasher. The owned-or-borrowed string type likewise behaves as the text it holds in equality, order and hashing.",
  ["inputs"], "every pair of texts crossed with every pair of spellings and storage forms",
  "Tests compare about twenty pairs, most of one character; the comparison code has separate branches per pair of storage forms with length shortcuts, so errors need specific combinations of form, spelling and length.",
  ["src/string.rs", "src/anystr.rs"],
  [("PartialEq/PartialOrd/Ord/Hash for JsonString", "src/string.rs"), ("PartialEq/PartialOrd/Hash/Borrow for AnyStr", "src/anystr.rs")],
  observe=["==, cmp, partial_cmp, Hash, HashMap/BTreeMap lookups"])
p("C08", "Every value prints as valid JSON of the same value, in the stated layout",
  "For every value, parsed or built in code, compact printing produces valid JSON with no extra whitespace, and pretty printing produces the same tokens laid out one member or element per line, indented per nesting level with the chosen indentation and line ending (two spaces and LF by default), with empty containers kept closed. Re-parsing any of these gives an equal value, and all printing functions for a layout produce identical text.",
  ["inputs"], "every value tree (any mixture of parsed and built strings, keys, numbers, nested and empty containers) and every whitespace indentation and line ending",
  "Four fixed documents are formatted in tests, all with strings that need no escaping; combinations of nesting, emptiness, escapes and custom layout are unbounded.",
  ["src/value.rs", "src/string.rs"],
  [("WriteState and Value::write_json_*", "src/value.rs"), ("Display for Value", "src/value.rs")],
  [("level / is_at_line_start", "current indentation state of the writer", "src/value.rs WriteState")],
  ["to_json, to_json_pretty, to_json_pretty_custom, write_json_to, pretty_write_json_to*, Display"])
p("C09", "Parse then print only removes insignificant whitespace",
  "Parsing any valid text and printing it compactly yields the source with exactly its insignificant whitespace removed, byte for byte, whether parsed as a value or as a document converted to a value. Printing is idempotent under re-parsing, and the pretty form reduces to the same compact form.",
  ["inputs"], "every valid JSON text in any layout, with any escape spelling, number spelling and duplicate keys",
  "One directory of round-trip files (all already compact) is tested; whitespace inside and next to strings, odd escapes and number spellings are not.",
  ["src/value.rs", "src/parser.rs", "src/doc.rs"],
  [("source-preserving JsonString/JsonNumber", "src/string.rs, src/number.rs"), ("Value writer", "src/value.rs")],
  observe=["to_json after from_json"])
p("C10", "A document is the preorder listing of the same value",
  "The nodes of a parsed document are exactly the preorder listing of the parsed value, each container carrying its true member or element count and each object member listed as key then value, and converting the document gives the value that parsing directly gives. From any point of an iteration, reading the next value or skipping it consumes exactly that value's nodes, so any interleaving of stepping, reading, skipping and cloning stays in step.",
  ["inputs", "histories"], "every valid text and every sequence of cursor operations on its document",
  "One test walks one five-member document and skips its root; nested skips and mixed operation sequences are untested.",
  ["src/doc.rs"],
  [("ParseDelegate for &mut Nodes", "src/doc.rs"), ("hydrate_value_from_node", "src/doc.rs"), ("DocumentIter::next_value/skip_next_value", "src/doc.rs")],
  [("node length fields", "children counted so far", "src/doc.rs Node")],
  ["GenericDocument::iter", "Value::from(document)"])
p("C11", "Fixed-capacity documents fit exactly or fail cleanly",
  "A document backed by a bounded collection parses a text if and only if the text is acceptable and its node count does not exceed the capacity, then holding exactly the same nodes as an unbounded document; when the capacity is exceeded first, parsing reports the payload as too large and never panics. Any error a custom collection returns for any node is what the caller receives, unchanged, and nothing more is stored after it.",
  ["inputs", "configurations", "fault_sequences"], "every text x every capacity (below, at and above the node count) x every node position at which the collection refuses, for both the built-in bounded collection and custom ones",
  "One example overflows one array into capacity 3; the refusal can occur at any node kind and position.",
  ["src/doc.rs", "src/error.rs"],
  [("NodeCollection for heapless::Vec", "src/doc.rs"), ("ErrorKind::into_infallable", "src/error.rs")],
  observe=["HeaplessDocument::from_json*", "GenericDocument with a custom NodeCollection"])
p("C12", "All parsing entry points agree on result, error and position",
  "For the same input and settings, the value parser, the document parser and the validator, each from text and from bytes, all succeed or all fail, report the same root kind, and report the same error at the same offset. The typed string and number parsers succeed exactly when the text is valid and its root is of that type, and then hold what the general parser holds.",
  ["inputs", "configurations"], "every input and configuration, across every pair of entry points",
  "Tests exercise mostly one entry point per case; eight public ways into the parser and two monomorphised scanners (checked and unchecked UTF-8) can drift apart on inputs no test contains.",
  ["src/parser.rs", "src/value.rs", "src/doc.rs", "src/string.rs", "src/number.rs", "src/error.rs"],
  [("shared generic Parser::parse_bytes", "src/parser.rs"), ("error conversions into_fallable/into_infallable", "src/error.rs")],
  observe=["Result and Error of every entry point"])
p("C13", "Delegates see the exact event sequence, and their errors stop parsing",
  "A parse delegate is called once per syntactic element in source order, with the scalars and keys of the text, and each container operation receives the container, key and child results the delegate itself returned for them, begin and end properly nested. If any callback returns an error, no further callback is made and the caller receives that same error as a delegate error at an offset within the source, and its text is part of the displayed error.",
  ["inputs", "fault_sequences"], "every text (valid or not) and every callback position at which the delegate fails",
  "One test makes one callback kind fail on one payload and only looks at the error kind; call order, arguments, and the absence of later calls are never checked, nor is failing at the n-th callback for all n.",
  ["src/parser.rs"],
  [("Parser::read_tokens/read_object/read_array", "src/parser.rs"), ("ParseDelegate contract", "src/parser.rs")],
  observe=["recorded callback trace", "ErrorKind::ErrorFromDelegate"])
p("C14", "The tokenizer yields exactly the lexemes of its source",
  "The tokenizer yields precisely the sequence of JSON lexemes of its source with their contents, reporting after each the byte offset where that lexeme ends, up to the first malformed lexeme, which it reports as an error located within its malformed part. Peeking names the kind of the token that follows without consuming it, both ways of reading the next token agree and differ only at the end of input, skipping or collecting with the iterator methods gives what repeated reading gives, and every step makes progress.",
  ["inputs", "histories"], "every sequence of lexemes, separators and malformed fragments, with any interleaving of peek, offset and the two read operations, for text and bytes",
  "Tests tokenize one fixed line and two literals; adjacency of lexemes without separators, offsets and interleaved peeks are unexplored.",
  ["src/parser.rs"],
  [("Tokenizer::peek/next/next_or_eof/offset", "src/parser.rs")],
  [("source offset", "next unread byte", "src/parser.rs ByteIterator")],
  ["Tokenizer iteration"])
p("C15", "Numeric conversions give the exact value or nothing",
  "Converting a number to an integer type returns its exact value when it is written as a plain integer that fits the type, and nothing otherwise (fractions, exponents, out of range, or a minus sign for unsigned types); converting to a floating-point type returns the correctly rounded nearest value of that precision. Values that are not numbers convert to nothing, and number and value conversions agree.",
  ["inputs"], "every JSON number spelling (signs, leading zeros after the point, exponents, arbitrarily many digits) x all fourteen target types",
  "Tests convert the single literal 1 to each type; boundaries, signs and rounding are untested.",
  ["src/number.rs", "src/value.rs"],
  [("JsonNumber::parse and as_* functions", "src/number.rs"), ("Value::as_* delegation", "src/value.rs")],
  observe=["JsonNumber::as_*, Value::as_*"])
p("C16", "Lookup and mutation follow an ordered list-of-entries model",
  "Through any sequence of lookups and changes, an object behaves as an ordered list of key/value entries in which lookup by decoded key text finds the first matching entry, and an array as a list; reads, mutable reads, indexing and typed accessors all see the same contents, indexing panics exactly when the lookup finds nothing, and an accessor returns something exactly for its own kind. An object made with a capacity holds that many entries without reallocating. Printing afterwards shows precisely the modelled contents.",
  ["histories", "inputs"], "every sequence of get, mutable get, index, assign, push, insert, remove, rename and nested edits, on values parsed or built, with duplicate and escaped keys",
  "One test performs one short edit sequence; duplicate keys, escaped keys, and longer histories mixing parsed and built data are not covered.",
  ["src/value.rs"],
  [("Object::get/get_mut/get_entry_mut, Deref to Vec", "src/value.rs"), ("Value accessors and Index impls", "src/value.rs")],
  [("entry list", "the object's contents", "src/value.rs Object")],
  ["Value/Object API", "to_json"])
p("C17", "Errors name the fault and its place",
  "When a text is cut short, the error says which construct is unfinished and points at the end of the input; when a complete text is followed by anything but whitespace, the error says so and points at the first such byte; and when a text has one fault, the error kind is the one documented for that fault and its offset lies between the end of the last good token and the offending byte - within a token, between the start of the malformed escape, character, number or literal and that byte. The displayed error includes that offset, and a character it names is the one found or missing.",
  ["inputs", "fault_sequences"], "every valid text x every truncation point, every appended tail, and every single injected fault (missing or extra comma, missing colon, non-string key, wrong bracket, control character, bad escape, bad hex digit, lone surrogate, invalid UTF-8, malformed number or literal, excess depth)",
  "About thirty hand-written error cases are pinned in tests, at fixed shallow positions; location depends on whitespace, nesting and context.",
  ["src/parser.rs", "src/error.rs"],
  [("offset captured before each token", "src/parser.rs"), ("UnexpectedEof refinement in read_tokens", "src/parser.rs")],
  observe=["Error::kind, Error::offset, Display"])
p("C18", "A failing output stops printing and is reported",
  "If the destination refuses a write at any point, printing returns an error, makes no further write, and what was written before is a prefix of the full output; if the destination never refuses, printing succeeds and writes the whole text. This holds for every layout and every kind of value.",
  ["fault_sequences", "inputs"], "every value x every layout x every write position at which the destination fails",
  "No test uses a failing destination.",
  ["src/value.rs", "src/string.rs"],
  [("? propagation in WriteState", "src/value.rs"), ("Display for AsJson/Decoded", "src/string.rs")],
  observe=["write_json_to, pretty_write_json_to, pretty_write_json_to_custom, Display"])
p("C19", "Parsed text is borrowed from the source and scalars cost no allocation",
  "Every string and number obtained by parsing refers to the very bytes of the source that spell it, without copying, and decoding a string that has no escapes borrows as well. Validation and bounded documents allocate nothing, and the allocations of any parse depend only on the containers of the text, never on its scalars.",
  ["inputs"], "every valid text; strings and numbers of any length and spelling, at any position",
  "Borrowing and allocation behaviour is the crate's reason to exist but no test observes addresses or allocations beyond one empty string.",
  ["src/parser.rs", "src/string.rs", "src/doc.rs", "src/anystr.rs"],
  [("AnyStr::Borrowed slices of the source", "src/parser.rs"), ("decode_if_needed", "src/string.rs")],
  observe=["address ranges of returned text", "counting global allocator"])
p("C20", "Behaviour is the same in every feature configuration and build profile",
  "Built without the standard library, without allocation, with allocation only, or with the bounded-collection feature, with or without debug checks, and for 32-bit or 64-bit addresses, the parser, tokenizer, documents, strings, numbers and - where there is allocation - values and objects give the same results, errors and text as the default build for every input and every history of lookups, changes and printing.",
  ["configurations", "inputs", "histories"], "every feature set of the crate x debug checks on or off x address width x every input or history of operations",
  "The tests run under one feature set; the other configurations are only type-checked by the build.",
  ["src/lib.rs", "src/anystr.rs", "src/string.rs", "src/doc.rs", "Cargo.toml"],
  [("cfg(feature = ...) gates", "src/*.rs")],
  observe=["transcripts of separately built feature variants"])
p("C21", "Streaming text iterators are exact, restartable and honest about length",
  "The iterators over a string's decoded characters and over its JSON spelling yield exactly that text once and then stay exhausted; a clone taken, or a display made, at any intermediate position yields exactly the remaining text and leaves the original undisturbed. Their size hints always bracket the number of characters actually remaining.",
  ["inputs", "histories"], "every string in every storage form x every interruption point, including in the middle of an escape",
  "Tests only consume these iterators whole.",
  ["src/string.rs"],
  [("Decoded", "src/string.rs"), ("AsJson and EscapeState", "src/string.rs")],
  observe=["Iterator::next/size_hint/clone, Display"])
p("C22", "Equality of values and documents is structural and blind to spelling",
  "Two values are equal exactly when they have the same shape, the same members and elements in the same order, equal literals, strings of equal decoded text and numbers of identical spelling; the same holds for objects, entries, document nodes, documents and tokens. Whitespace, escape spelling and whether text is parsed or built never matter.",
  ["inputs"], "every pair of trees: same tree in two spellings, and trees differing in exactly one place",
  "Tests assert equality of a handful of pairs and almost never inequality.",
  ["src/value.rs", "src/doc.rs", "src/string.rs", "src/number.rs", "src/parser.rs"],
  [("PartialEq of Value/Object/Entry/Node/GenericDocument/Token", "src/value.rs, src/doc.rs, src/parser.rs"), ("PartialEq of JsonString", "src/string.rs")],
  observe=["==, !="])
p("C23", "Cost grows in proportion to the text",
  "Validating, tokenizing, parsing, traversing, decoding, comparing and printing take time and allocate memory in proportion to the bytes read and written: however often any part of a text is repeated - characters of a string, digits, whitespace, elements, members, nesting levels - a byte of the longer text costs about as much as a byte of the shorter one, for accepted and rejected texts alike.",
  ["inputs"], "every family of texts made by repeating a part of a text x every operation that reads or writes it",
  "The tests use short texts; work that grows with the square of the input is invisible in them and a denial of service in use.",
  ["src/parser.rs", "src/string.rs", "src/doc.rs", "src/value.rs"],
  [("single forward pass of the tokenizer", "src/parser.rs Tokenizer"), ("Vec growth and the nodes of a document", "src/doc.rs, src/value.rs"), ("Decoded/AsJson streaming", "src/string.rs")],
  observe=["thread CPU time and allocated bytes of Parser, Value, Document, Tokenizer, JsonString operations on pumped texts"])
p("C24", "Results depend only on the arguments of the call",
  "The result of every operation depends only on its own arguments: not on operations made before it (successful, failed, or ended by a panic in a delegate, collection or destination), not on operations in progress at the same time on the same thread (nested in callbacks, or iterators advanced in turn) or on other threads, and not on where the text lies in memory or what surrounds it. Parsed values and documents can be sent to and read by several threads at once.",
  ["histories", "schedules", "inputs"], "every sequence, nesting and interleaving of operations over every text, every placement of the text in memory, and every interruption point in user code",
  "Each test makes one call on a fresh text in one thread; shared state, caches, state left behind by an error or a panic, and reads beyond the text only show up between calls.",
  ["src/parser.rs", "src/string.rs", "src/value.rs", "src/doc.rs", "src/anystr.rs"],
  [("ParseState, one per call", "src/parser.rs"), ("static tables", "src/string.rs, src/parser.rs"), ("iterators own their state", "src/string.rs, src/doc.rs")],
  observe=["results of interleaved and repeated calls compared with the same call alone, also in separate processes"])
p("C25", "Memory is returned however an operation ends",
  "Once everything an operation returned has been dropped, no memory it allocated remains allocated - whether it succeeded, was refused at any point of the text, was stopped by an error of a delegate, collection or destination, was used up only in part, or was ended by a panic in user code at any callback; and the same operation then still gives the same result.",
  ["inputs", "histories", "faults"], "every operation x every text, valid or not x every point at which user code can fail or panic",
  "Leaks and double frees are invisible to assertions on results, and tests do not fail or panic inside callbacks.",
  ["src/parser.rs", "src/value.rs", "src/doc.rs", "src/string.rs", "src/anystr.rs"],
  [("ownership of partial objects and arrays while parsing", "src/parser.rs Parser::read_*"), ("owned text", "src/anystr.rs, src/string.rs"), ("conversion of documents to values", "src/doc.rs")],
  observe=["allocations minus deallocations of the thread around each operation"])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
