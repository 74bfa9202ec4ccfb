#!/usr/bin/env python3
"""The properties' texts; writes properties.jsonl and MANIFEST.json.

meta.py          rewrite both files"""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))

TESTS = "The tests run a few hundred hand written inputs; "


def P(title, statement, text, why, files, mech, over=("inputs",)):
    return dict(title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why,
                anchors={"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]})


SC = ["scanner/scalar/flow.rs", "scanner/scalar/plain.rs", "scanner/scalar/block.rs", "scanner/scalar/escape.rs"]

PROPS = {
    "C01": P("No input makes the library panic or touch memory it must not",
             "Whatever text is given to it, draining the event stream, with or without lazy scalars and with every lazy scalar evaluated, never panics, overflows, indexes out of bounds or breaks a memory safety rule. Malformed text is reported as an error value.",
             "every text, eager and lazy", TESTS + "a panic needs one particular combination of characters, which a sample misses.",
             ["scanner", "event", "reader", "queue.rs"],
             [("scanner loop and its unsafe slicing", "src/scanner"), ("parser state machine", "src/event/parser/mod.rs"), ("lazy scalar evaluation", "src/event/types.rs")]),
    "C02": P("Every event stream ends, and stays ended",
             "Draining the event stream of any text ends after a number of steps proportional to the text's length, either with the end of the stream or with one error. After its end, or after an error, the iterator yields nothing more.",
             "every text, eager and lazy", TESTS + "none of them asks for events after the end or an error, and a loop that does not advance needs a particular text.",
             ["scanner/mod.rs", "event/mod.rs", "event/parser/mod.rs"],
             [("finished iterators", "src/event/mod.rs"), ("scanner progress", "src/scanner/mod.rs")]),
    "C03": P("Event streams follow the event grammar",
             "Every accepted text's events form: stream start, one or more documents each of one start, at most one root node and one end, stream end; collections are closed in nesting order, mappings hold complete pairs and a document's root is not an alias. Every node names its position rightly: root, sequence entry, mapping key or mapping value; every document start knows the default tag handles. A text that is rejected yields a prefix of such a stream.",
             "every text, eager and lazy", TESTS + "the balance of starts and ends must hold for every interleaving of block and flow structure, omitted nodes and document markers.",
             ["event/parser/mod.rs", "event/state.rs", "scanner/mod.rs"],
             [("parser states", "src/event/state.rs"), ("node production", "src/event/parser/mod.rs"), ("indentation unwinding", "src/scanner/context.rs")]),
    "C04": P("Lazy scalars change nothing but the time of evaluation",
             "For any text, the events obtained with lazy scalars, each evaluated when received, equal those obtained without: same kinds, contents, properties and marks. A text is accepted lazily exactly when it is accepted eagerly.",
             "every text", TESTS + "lazy scanning finds the end of a scalar by a separate routine which must agree with the evaluating one on every scalar.",
             SC + ["event/types.rs"], [("deferred scalars", "src/scanner/scalar"), ("evaluation on demand", "src/event/types.rs")]),
    "C05": P("Streaming gives the same events as reading from memory",
             "For any text, reading it from a byte stream gives the same events with the same contents and marks, and the same error, as reading it from memory, however the source cuts the bytes into pieces, interrupts the reads, and wherever the library's own chunk boundaries fall.",
             "every text, every cut into pieces of one to three bytes or at the reader's own chunk boundary, interrupted reads",
             TESTS + "none places a token on a chunk boundary, and there is one boundary position per byte of every token.",
             ["reader/mod.rs", "reader/owned.rs", "event/mod.rs", "scanner/mod.rs"],
             [("chunked reader", "src/reader/owned.rs"), ("extension of the buffer on demand", "src/event/mod.rs")], ("inputs", "schedules")),
    "C06": P("A failing source is reported, never taken for the end of the text",
             "If a byte source fails at any point, the events before the failure are those of the text, the stream does not end as if it were complete, and the source's own error is handed back unless the text itself is in error before it. Interrupted reads are retried.",
             "every text, every failing position or call, every error kind", TESTS + "none has a source that fails after delivering data.",
             ["reader/owned.rs", "reader/mod.rs", "error.rs", "event/mod.rs"],
             [("reading of chunks", "src/reader/owned.rs"), ("error conversion", "src/error.rs")], ("inputs", "fault_sequences")),
    "C07": P("Events of a streamed text stay valid while the reader lives",
             "Events obtained from a byte stream, evaluated or not, keep their contents until the reader is dropped, however much is read after them and whether or not the iterator still exists.",
             "every text, events kept until the whole stream is read", TESTS + "they drop each event before the next is read, so storage moved or freed by later reads goes unseen.",
             ["reader/owned.rs", "scanner/scalar", "event/types.rs"],
             [("chunk storage", "src/reader/owned.rs"), ("unsafe lifetime extension", "src/reader/owned.rs")], ("inputs", "histories")),
    "C08": P("Bytes are accepted as text exactly if they are UTF-8",
             "A byte slice is accepted exactly if it is well formed UTF-8 and then reads like the same string; otherwise it is reported as a data error. A byte stream which is not well formed UTF-8 is never read to its end without an error, also when a character lies across a chunk boundary.",
             "every byte sequence", TESTS + "no test streams a character across a chunk boundary or enumerates malformed sequences.",
             ["reader/mod.rs", "reader/owned.rs", "reader/borrow.rs"], [("UTF-8 validation", "src/reader")]),
    "C09": P("Scalars read from memory borrow from the input",
             "Reading from memory, a quoted scalar, or a plain scalar in a flow collection or used as a key, which has nothing to unescape or fold is a slice of the input at its own place, not a copy; anchor and alias names are always slices of the input. Nothing handed out as borrowed lies outside the input.",
             "every text", TESTS + "they compare contents, which cannot tell a borrow from a copy or from a slice of other memory.",
             SC + ["scanner/anchor.rs", "event/types.rs"], [("copy on first change", "src/scanner/scalar")]),
    "C10": P("Double quoted scalars mean what YAML says",
             "A double quoted scalar's value is its text with every escape replaced by the code point it names and line breaks folded as YAML 1.2 describes, in whatever position the scalar stands. Unknown, truncated and impossible escapes are rejected.",
             "every scalar text, 13 surroundings, eager and lazy", TESTS + "escape and fold interact: each position of each character matters.",
             ["scanner/scalar/flow.rs", "scanner/scalar/escape.rs"], [("escape table", "src/scanner/scalar/escape.rs"), ("folding", "src/scanner/scalar/flow.rs")]),
    "C11": P("Single quoted scalars mean what YAML says",
             "A single quoted scalar's value is its text with doubled quotes halved and line breaks folded as YAML 1.2 describes, in whatever position the scalar stands; nothing else in it is special.",
             "every scalar text, 13 surroundings, eager and lazy", TESTS + "quotes, folds and spaces interact at every position.",
             ["scanner/scalar/flow.rs"], [("single quoted scan", "src/scanner/scalar/flow.rs")]),
    "C12": P("Plain scalars mean what YAML says",
             "A plain scalar's value is its text with line breaks folded and surrounding white space dropped as YAML 1.2 describes, in whatever position it stands: indicators inside it are text, and characters no plain scalar begins with are rejected.",
             "every scalar text, 13 surroundings, eager and lazy", TESTS + "where a plain scalar ends depends on context, indentation and the next characters.",
             ["scanner/scalar/plain.rs", "scanner/mod.rs"], [("plain scan", "src/scanner/scalar/plain.rs")]),
    "C13": P("Block scalars mean what YAML says",
             "A literal or folded block scalar's value follows YAML 1.2: indentation detected or given, chomping strip, clip or keep, folding that leaves more indented lines alone. The scalar ends where the indentation does, and a malformed header is rejected.",
             "every scalar text, 7 surroundings, eager and lazy", TESTS + "indentation, chomping, blank lines and the end of the text interact.",
             ["scanner/scalar/block.rs"], [("block scalar scan", "src/scanner/scalar/block.rs")]),
    "C24": P("Events do not depend on how the iterator is used",
             "Taking a fresh iterator for every event, switching between iterators, or consuming the source by value yields the same events, marks and errors as one uninterrupted iteration.",
             "every text, every point of switching", TESTS + "they use one iterator from start to end.",
             ["event/mod.rs", "event/parser/mod.rs"], [("iterator over shared parser state", "src/event/mod.rs")], ("inputs", "histories")),
}
try:
    from meta_more import MORE, NA
    PROPS.update(MORE)
except ImportError:
    NA = {}

TECH = "symbolic execution of rustc's LLVM IR of the crate, every path decided with Z3; counterexamples replayed natively"


def main():
    import spec
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for k in sorted(PROPS):
            f.write(json.dumps(dict(id=k, **PROPS[k])) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "./build.sh engine ir dev",
        "hooks": {"guard": "none", "enable": "the checks use the crate's public API only", "source_commits": []},
        "checks": [],
        "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NA.items())],
        "notes": "See DESIGN.md. Exit 2 means no verdict (build failure, engine error), never a violation.",
    }
    for k in sorted(PROPS):
        if k in NA:
            continue
        m["checks"].append({
            "property": k,
            "quick_cmd": "python3 check.py %s --tier quick" % k,
            "thorough_cmd": "python3 check.py %s --tier thorough" % k,
            "technique": TECH,
            "level": "model_checking",
            "level_note": "Bounded: holds for every input the listed templates build (evidence: coverage.bounds), all paths decided "
                          "when all_paths_within_bounds_decided. Trusts rustc's IR, the executor in engine/ (cross-checked by native "
                          "replay of finished paths) and Z3; longer or otherwise shaped inputs are outside." + spec.PROPS[k].get("note", ""),
        })
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    assert set(spec.PROPS) == set(PROPS) - set(NA), (set(spec.PROPS) ^ set(PROPS))


if __name__ == "__main__":
    main()
