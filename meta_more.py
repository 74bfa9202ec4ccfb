from meta import P, SC, TESTS

PAR = ("event/parser/mod.rs", "event/state.rs")
NA = {}
MORE = {
    "C14": P("Tags are read as YAML says and stay on their node",
             "Every node carries exactly the tag written before it, as handle and suffix: primary, secondary, declared named handles and verbatim tags, with percent escapes decoded, whatever the node is (scalar, collection, key, value, empty node), whatever stands between tag and node, and in either order with an anchor. Malformed tags, undeclared handles and a second tag on one node are rejected.",
             "every text of tags and nodes", TESTS + "tag, handle, escape, node kind and position combine freely.",
             ["scanner/tag.rs", *PAR], [("tag scanning", "src/scanner/tag.rs"), ("node properties", "src/event/parser/mod.rs")]),
    "C15": P("Directives apply to their own document and to no other",
             "The version and tag handles of a document's start are those its own %YAML and %TAG directives give, with the default handles (overridable) and version 1.2 otherwise; nothing is carried over to other documents. Repeated directives for the same thing, malformed directives, and directives without a following '---' are rejected.",
             "every text of directives and documents", TESTS + "what must not leak from one document to the next needs histories of several documents.",
             ["scanner/directive.rs", "scanner/tag.rs", *PAR], [("directive scanning", "src/scanner/directive.rs"), ("directive scope", "src/event/parser/mod.rs")], ("inputs", "histories")),
    "C16": P("Anchors and aliases stay on their node",
             "Every node carries exactly the anchor written before it and every alias appears as an event with the name written, in its place as entry, key or value; whatever the node is, whatever stands between anchor and node, and in either order with a tag. Two anchors on one node, an anchor or tag on an alias, and an alias as root are rejected.",
             "every text of anchors, aliases and nodes", TESTS + "an anchor can be lost or shifted to a neighbouring node in one combination of positions only.",
             ["scanner/anchor.rs", *PAR], [("anchor scanning", "src/scanner/anchor.rs"), ("node properties", "src/event/parser/mod.rs")]),
    "C17": P("A stream splits into documents where YAML says",
             "Documents begin and end at '---' and '...' at the start of a line and followed by white space or a break, in any state of the scanner, and nowhere else; start and end are marked implicit exactly if not written. Documents following one another are read as each of them alone. A second root node without a marker between is rejected.",
             "every text of several documents", TESTS + "markers matter in every scanner state, and state may survive from one document into the next.",
             ["scanner/mod.rs", "scanner/context.rs", *PAR], [("document markers", "src/scanner/mod.rs"), ("document states", "src/event/state.rs")], ("inputs", "histories")),
    "C18": P("Block structure is what the indentation says",
             "The nesting of block sequences and mappings, the pairing of keys with values, empty entries, keys and values, zero-indented sequences, compact nesting and explicit keys follow YAML 1.2's indentation rules at every depth; text whose indentation or indicators fit no structure is rejected.",
             "every text of block collections", TESTS + "structure depends on the columns of several lines together.",
             ["scanner/mod.rs", "scanner/context.rs", "scanner/entry.rs", "scanner/key.rs", *PAR], [("indentation stack", "src/scanner/context.rs"), ("block tokens", "src/scanner/mod.rs"), ("block states", "src/event/parser/mod.rs")]),
    "C19": P("Flow structure is what the brackets say",
             "The nesting of flow sequences and mappings, single pair mappings in sequences, omitted keys and values, explicit keys, and trailing commas follow YAML 1.2 at every depth and inside every block context; unbalanced brackets, missing separators and surplus text are rejected.",
             "every text of flow collections", TESTS + "the implicit pairs and omitted nodes of flow collections have many combinations.",
             ["scanner/mod.rs", "scanner/context.rs", *PAR], [("flow tokens", "src/scanner/mod.rs"), ("flow states", "src/event/parser/mod.rs")]),
    "C20": P("Comments, blank lines and the kind of line break do not matter",
             "Comments, blank lines and white space between tokens change no event, wherever they are allowed; a '#' starts a comment only after white space or at the start of a line. LF, CR LF and CR are equivalent everywhere: texts that differ only in them give the same events and are accepted or rejected alike.",
             "every text, every kind of line break", TESTS + "they use LF almost throughout and few comments.",
             ["scanner/mod.rs", "scanner/macros.rs", *SC], [("trivia skipping", "src/scanner/mod.rs"), ("line breaks", "src/scanner/macros.rs")]),
    "C21": P("Implicit keys are limited to one line and 1024 bytes",
             "A scalar, alias or flow collection serves as an implicit key exactly if it and the white space before its ':' lie on one line and span at most 1024 bytes, wherever in the text it stands and whatever precedes it; explicit keys have no such limits. Keys that break the limits are rejected, nothing else is.",
             "every key length about the limit, 10 kinds of key in 10 positions", TESTS + "none has a key near the limit.",
             ["scanner/key.rs", "scanner/mod.rs"], [("saved keys", "src/scanner/key.rs"), ("key expiry", "src/scanner/mod.rs")]),
    "C22": P("Marks are in order and inside the text",
             "Every event's start mark is at most its end mark, marks never exceed the text's length, and events come in the order of their start marks. Scalars and aliases end at their end mark.",
             "every text, eager and lazy", TESTS + "they ignore marks.",
             ["event/types.rs", "event/parser/mod.rs", "event/parser/macros.rs", "scanner/mod.rs"], [("marks of tokens", "src/scanner/mod.rs"), ("marks of events", "src/event/parser/macros.rs")]),
    "C23": P("Errors say what kind of failure it was",
             "Text in memory that is malformed is reported as a syntax error, and as an unexpected end only where the text ends inside something it opened; a quoted scalar without its end is always the latter. Every error has a message and converts to the std::io::Error of the matching kind.",
             "every malformed text, eager and lazy", TESTS + "they check a few errors each, not their classification.",
             ["error.rs", "event/error.rs", "scanner/error.rs", "reader/error.rs"], [("classification", "src/error.rs"), ("conversions", "src/scanner/error.rs")]),
    "C25": P("A document means the same wherever it is nested",
             "The node a text describes, moved into a collection by indenting its lines (as sequence entry, key, value, at depth), gives the same events apart from its NodeKind, and is rejected there if it is rejected as a root.",
             "every text, seven places", TESTS + "equivalences between two texts are never tested.",
             ["scanner/mod.rs", "scanner/context.rs", *SC, *PAR], [("indentation stack", "src/scanner/context.rs"), ("scalar indentation", "src/scanner/scalar")]),
    "C26": P("A lazily read scalar that is malformed fails alone, and only when evaluated",
             "With O_LAZY, a double quoted scalar with an impossible escape does not disturb the stream: every other event is that of the text with a possible escape in its place, and the error comes from evaluating that scalar, by value and by reference alike; evaluated by reference it is then an evaluated, empty scalar. Without O_LAZY the stream fails, after events that are those of the text.",
             "every text around the escape, six kinds of malformed escapes, in memory and streamed", TESTS + "the laziness tests use valid scalars.",
             ["event/types.rs", "event/flag.rs", "scanner/entry.rs", "scanner/scalar/flow.rs"], [("deferred scalars", "src/scanner/entry.rs"), ("evaluation", "src/event/types.rs")]),
    "C27": P("A byte stream is read as its events are asked for",
             "No byte is read from the source before the first event is asked for and none after the stream ended or failed; and when an event is handed out, no more has been read than a fixed multiple of the text up to the few tokens behind it and a constant (a few chunks), however long the text goes on.",
             "every text, every piece size", TESTS + "no test looks at what is read from the source, or when.",
             ["reader/owned.rs", "reader/mod.rs", "event/mod.rs"], [("reading of chunks", "src/reader/owned.rs"), ("extension on demand", "src/event/mod.rs")], ("inputs", "histories")),
}
