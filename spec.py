"""What each property is checked on: jobs per tier."""
from tmpl import *


class J:
    def __init__(self, name, entry, *t, param=0, need=()):
        self.name, self.entry, self.t, self.param, self.need = name, entry, t, param, need

    def bound(self):
        return describe(self.t)


ASSUMPTIONS = [
    "The code decided is rustc's LLVM IR of /repo's crate and the harness for x86_64-unknown-linux-gnu at opt-level 2 "
    "with debug assertions and overflow checks kept in; the IR-to-machine-code step is trusted.",
    "Allocation never fails; HashMap hash keys (thread local random state) are a fixed value.",
    "The symbolic executor in engine/ (its IR semantics, memory model and memory/compare intrinsics) is trusted, "
    "checked on every run by replaying finished paths natively and every solver model by evaluation.",
    "Inputs are those the listed templates build; anything longer or shaped otherwise is outside the bounds.",
]

FLOWA = "[]{},:a? \n"
BLOCKA = "-:? \na"


def any_text(e, q, d=0, **k):
    """jobs for oracles that apply to every text; d: how much shorter than usual"""
    o = [
        J("any", e, R(0, (4 if q else 5) - d, CH), **k),
        J("block", e, R(0, (7 if q else 8) - d, S(BLOCKA)), **k),
        J("flow", e, R(0, (6 if q else 7) - d, S(FLOWA)), **k),
        J("bscalar", e, "a: ", S("|>"), R(0, (6 if q else 7) - d, S("-+1 \n\ta#")), **k),
        J("dquote", e, A('"', "a: '", "- "), R(0, (5 if q else 6) - d, S("\\\"'x0 \n#:a")), **k),
        J("nodes", e, R(0, (6 if q else 7) - d, S("&*!a:- \n")), **k),
        J("directive", e, "%", A("YAML ", "TAG "), R(0, (5 if q else 6) - d, S("!.10a \n-%")), **k),
        J("docs", e, R(0, (6 if q else 7) - d, S("-.a\n#% ")), **k),
    ]
    return o


RPL = A("", "- ", "a: ", "[", "{a: ", "? ", "- - ", "a:\n  b: ", "a:\n- ", "--- ", "- a: ", "a\n--- ")
RDEEP = A("- ", "a: ", "a:\n  b: ", "- - - ", "? - ", "a:\n  - b: ")


def rich_text(e, q, d=0, skip=(), **k):
    """jobs for oracles that apply to every text, each centred on one part of the syntax"""
    n = (0 if q else 1) - d
    o = [
        # scalars of every style wherever a node may be
        J("r-bhead", e, RDEEP, S("|>"), R(0, 2, S("+-129")), A("\n", " #c\n", "\r\n"), R(0, 3 + n, S(" \na")), A("", "   b\n", "\n\n", "\n    c\n   d"), **k),
        J("r-bfold", e, RDEEP, S("|>"), R(0, 1, S("+-")), "\n     a", R(0, 4 + n, S(" \n\ta")), A("", "b: c", "- d", "...\n", "#e"), **k),
        J("r-dq", e, RPL, '"', R(0, 3 + n, S("a \n\\")), A('"', '', '"\n', '" : b'), A("", "]", "}"), **k),
        J("r-dqesc", e, RPL, '"\\', R(1, 3 + n, S("nxu0 \n\"A\\")), A('"', '00e9"'), **k),
        J("r-sq", e, RPL, "'", R(0, 4 + n, S("a \n'")), A("'", "' : b", "':"), A("", "]", "}"), **k),
        J("r-plain", e, RPL, "a", R(0, 4 + n, S("a \n#:-,")), A("", "]", "}"), **k),
        J("r-plainm", e, RPL, "a\n", R(0, 4, " "), R(0, 3 + n, S("a-.:\n#")), **k),
        # properties
        J("r-props", e, RPL, A("!<a%41,> ", "!!t ", "&a ", "!t &a ", "&a !t ", "!<a>\n  ", "&a\n", "*a ", "! "), A("b", "'b'", "|\n   b\n", "[b]", "b: c", "", "- b"), R(0, 2 + n, S(" \n:,#]")), A("", "]", "}"), **k),
        J("r-tag", e, A("- ", "a: ", "%TAG !e! x\n--- !e"), "!", R(0, 5 + n, S("<a%>4! e")), A("", " b", "> c"), **k),
        # collections
        J("r-nest", e, R(0, 3, A("- ", "a: ", "? ", "a:\n  ", "-\n  ")), A("b", "[", "'c'", "&d"), R(0, 3 + n, S("\n -:]")), **k),
        J("r-dedent", e, A("a:\n  - b\n", "- - a\n  - b\n", "a:\n- b\n", "? a\n: b\n", "a:\n  b:\n    c: d\n", "- a: b\n  c: d\n"), R(0, 5, " "), A("- ", "e: ", "? ", ": ", "e", "[e]", ""), R(0, 3 + n, S("\n f:")), **k),
        J("r-flow", e, A("[", "{", "[a, ", "{a: b, ", "? [", "- {", "{? ", "[? "), R(0, 3 + n, S("a:,?[]{} \n")), A("", "]", "}"), **k),
        J("r-flowkey", e, A("- ", ""), A("[a]", "{a: b}", "[a, [b]]", "'a'", "&x [a]", "[a\n]"), R(0, 3 + n, S(" :\n#b")), A("", "c", "\nd: e"), **k),
        J("r-deep", e, *["- "] * 17, R(0, 2, S("a:[ ")), "\n", X(10, " "), R(0, 10, " "), A("- ", "b: "), "c", **k),
        J("r-deepf", e, *["["] * 33, R(0, 2, S("a:]{")), *["]"] * 32, R(0, 2, S("],: ")), **k),
        J("r-deeper", e, A(["- "] * 130, ["- "] * 270, ["? "] * 270, ["["] * 270, ["{a: "] * 140, ["[{? "] * 70, ["- ? "] * 70), R(0, 2 + n, S("a:]}\n ")), **k),
        J("r-deepmap", e, *[" " * i + "a:\n" for i in range(34 if q else 140)], X(34 if q else 140, " "), R(0, 2 + n, S("b:-\n ")), A("", *["\n" + " " * i + "c: d" for i in ((0, 1, 17, 33) if q else (0, 1, 64, 127, 128, 139))]), **k),
        J("r-lines", e, A("- ", "|\n ", ">\n ", "- '", "- \"", "[", "a: ", "? "), *[y for i in range(9) for y in (X(30, "b"), "\n  ")], R(0, 1, X(300, "\n")), R(0, 2 + n, S(" c:-\n")), A("", "'", "\"", "]"), **k),
        # documents and directives
        J("r-docs", e, R(0, 3 + n, A("--- a\n", "---\n", "...\n", "b\n", "- c\n", "# d\n", "[e]\n", "%YAML 1.2\n", "%TAG !t! u\n", "--- |\n f\n", "g: 'h'\n")), **k),
        J("r-dirs", e, R(0, 2, A("%YAML 1.1\n", "%YAML 1.2 # c\n", "%TAG !a! x\n", "%TAG !! y%41\n", "%TAG ! z\n")), A("---", "--- ", "a", ""), A("", "!a!b c", "!!b c", "!b c", "- d"), R(0, 3 + n, S(" \n#")), **k),
        J("r-trivia", e, A("a: ", "- ", "[a, ", "a:\n  ", "'a' ", "|\n a\n"), R(0, 4 + n, S(" \t\r\n#")), A("b", "b: c", "- b", "]", ""), **k),
        # lengths
        J("r-wide", e, RPL, R(1, 3 + n, A("\u00e9", "\u20ac", "\U0001f600", "a", "- ", "'", "\n", ": ")), A("", "'", "]"), **k),
        J("r-long", e, A("- ", "a: ", "[", "? "), A('"', "'", "", "|\n  "), X(70, "a"), R(0, 1, X(1100, "b")), R(0, 2 + n, S("a \n:")), X(40, "c"), A('"', "'", "", "]", '":', "': d"), **k),
        J("r-blank", e, "a:", R(0, 1, X(70, "\n")), R(0, 1, X(300, " ")), R(0, 2, S(" \n-#")), A("b", "c: d"), **k),
    ]
    return [j for j in o if j.name not in skip]


def both(e, q, need):
    return [x for p in (0, 1) for x in [J(j.name + ("-lazy" if p else ""), e, *j.t, param=p, need=need if j.name == "any" else ())
                                        for j in any_text(e, q)]] + \
           [J(j.name + ("-lazy" if p else ""), e, *j.t, param=p, need=(1,)) for p in (0, 1) for j in rich_text(e, q)]



def whole(e, q):
    """both, and from a byte stream"""
    o = both(e, q, (1, 2))
    for i, j in enumerate(rich_text(e, q, 1)):
        for lz in ((i % 2,) if q else (0, 1)):
            o.append(J("%s-s%s" % (j.name, "-lazy" if lz else ""), e, *j.t, param=lz | 2 | (0, 1, 3, 7)[i % 4] << 8, need=(1,)))
    for lz in (0, 1):
        z = "-s-lazy" if lz else "-s"
        o.append(J("any" + z, e, R(0, 3 if q else 4, CH), param=lz | 2 | 1 << 8, need=(1, 2)))
        for nm, t in (("comment", ("#", X(8187, "c"), R(0, 1, "c"), "\n", R(1, 2 if q else 3, S("a:- \n[]&")))),
                      ("quoted", ("- '", X(8186, "q"), R(0, 1, "q"), R(1, 2 if q else 3, S("q' \n:")), "'")),
                      ("plain", ("- ", X(8187, "p"), R(0, 1, "p"), R(1, 2 if q else 3, S("p#: \n-")))),
                      ("literal", ("a: |\n ", X(8183, "p"), R(0, 1, "p"), R(1, 2 if q else 3, S("p \n-")))),
                      ("flow", ("[", X(8187, " "), R(0, 1, " "), R(1, 2 if q else 3, S("a:,]\"\n")), "]"))):
            o.append(J("edge-" + nm + z, e, *t, param=lz | 2, need=(1,)))
    return o


def later(q):
    o = []
    for how in (0, 1, 2, 3):
        for i, j in enumerate(any_text("t_later", q, 1)):
            if not q or (i + how) % 4 == 0:
                o.append(J("%s-late%d" % (j.name, how), j.entry, *j.t, param=how << 1))
        for i, j in enumerate(rich_text("t_later", q, 1)):
            if not q or (i + how) % 4 == 0:
                o.append(J("%s-late%d" % (j.name, how), j.entry, *j.t, param=how << 1, need=(1,)))
    return o


def chunk(lazy=0, piece=0, intr=0):
    return lazy | piece << 8 | intr << 24


def streamed(q):
    """streamed against in memory"""
    E = "t_chunk"
    # everything arrives at once, and the reader's chunk limit is far away
    o = any_text(E, q, 1)
    for lz in (0, 1):
        o += [J(j.name + ("-lazy" if lz else ""), E, *j.t, param=chunk(lz, 1 + lz * 2), need=(1,)) for j in rich_text(E, q, 1)]
    k = 0 if q else 1
    for lz in (0, 1):
        z = "-lazy" if lz else ""
        # one or a few bytes per read call, with interruptions
        for piece, intr in ((1, 0), (2, 3), (3, 2), (1, 2)):
            o.append(J("piece%d-%d%s" % (piece, intr, z), E, R(0, 3 + k, CH), param=chunk(lz, piece, intr), need=(1, 2)))
        # the end of the first chunk (8192 bytes) falls on the symbolic part
        N = 8192
        bound = [
            ("comment", ("#", X(N - 4, "c"), R(0, 1, "c"), "\n"), (R(0, 1 + k, CH),)),
            ("flow", ("[", X(N - 3, " "), R(0, 2, " ")), (R(1, 2 + k, S("a,:]\"\n\r")), "]")),
            ("root", (X(N - 2, " "), R(0, 1, " "), "\n"), (R(0, 2 + k, S("a-: \n\r")),)),
            ("plain", (X(N - 2, "p"), R(0, 1, "p")), (R(0, 1 + k, S("a: \n\r#")), R(0, 1, C(2, 3, 4)), R(0, 1, S("a\n")))),
            ("dquote", ('"', X(N - 3, "q"), R(0, 1, "q")), (R(0, 2 + k, S("\\n\r\n \"")), R(0, k, C(2, 3, 4)), "\"")),
            ("dquote2", ('"', X(N - 4, "q"), R(0, 2, "q")), (C(2, 3, 4), "\"")),
            ("squote", ("'", X(N - 3, "q"), R(0, 1, "q")), (R(0, 2 + k, S("'\r\n q")), "'")),
            ("literal", ("- |\n ", X(N - 7, "l"), R(0, 1, "l")), (R(0, 2 + k, S("l\r\n ")), R(0, k, C(2, 3, 4)), "\n- a")),
            ("folded", ("a: >-\n ", X(N - 9, "l"), R(0, 1, "l")), (R(0, 3 + k, S("l\r\n ")), "\nb: c")),
            ("anchor", ("#", X(N - 6, "c"), R(0, 2, "c"), "\n"), (S("&*!"), R(1, 2 + k, S("a! \n")), " b")),
            ("dir", ("#", X(N - 16, "c"), R(0, 14, "c"), "\n"), (A("%YAML 1.2", "%TAG !a! b"), A("\n", "\r\n", " # \n"), "--- a")),
            ("docs", ("#", X(N - 8, "c"), R(0, 6, "c"), "\n"), (A("---", "..."), R(0, 1 + k, S(" \r\na")), A("---", "...", "--"), R(0, 1, S(" \na")))),
            ("dqmark", ('"', X(N - 7, "q"), R(0, 5, "q")), ("\n", A("---", "..."), S("x \n\""), "\"")),
            ("sqmark", ("'", X(N - 7, "q"), R(0, 5, "q")), ("\n", A("---", "..."), S("x \n'"), "'")),
            ("plmark", (X(N - 6, "q"), R(0, 5, "q")), ("\n", A("---", "..."), S("x \n"))),
            ("blmark", ("|\n", X(N - 8, "q"), R(0, 5, "q")), ("\n", A("---", "..."), S("x \n"))),
            ("second", ("#", X(N, "c"), X(N - 3, "c"), R(0, 2, "c"), A("\n", "\r\n")), (R(0, 1 + k, S("a: \n")),)),
        ]
        # many chunks
        o.append(J("chunks" + z, E, "- a\n", *[y for i in range(4 if q else 12) for y in ("#", X(30000, "c"), "\n- b\n")], "- ", R(0, 1, S("a \n")), param=chunk(lz)))
        for n, pad, tail in bound:
            if q and lz and n in ("sqmark", "plmark", "blmark", "comment", "root", "anchor", "dir", "docs", "second"):
                continue
            o.append(J("edge-" + n + z, E, *pad, *tail, param=chunk(lz)))
            if not q:
                o.append(J("edge-" + n + "-p" + z, E, *pad, *tail, param=chunk(lz, 4096, 2)))
    return o


def scal(what, ctxs, *t, lazy=(0, 1), need=(), name=None, bit7=False, deep=""):
    w = "dspb"[what]
    return [J("%s%s-ctx%d%s" % (w, name or "", k, "-lazy" if l else ""), "t_scalar", *t, param=k | l << 4 | what << 5 | bit7 << 7, need=need)
            for k in ctxs for l in lazy]


ALLC = range(13)
VALC = [k for k in ALLC if k not in (5, 6, 12)]  # contexts where a scalar may span lines


def dquoted(q):
    n = 0 if q else 1
    o = scal(0, ALLC, R(0, 2 + n, CH), need=(1, 2), name="any")
    o += scal(0, ALLC, "\\", CH, R(0, 1 + n, CH), need=(2,), name="esc")
    o += scal(0, (0, 2, 3, 5), R(0, 1, "a"), "\\x", R(0, 3, S("09aAfFgG:@/`\" ")), name="x")
    o += scal(0, (0, 4), "\\u", R(2, 5, S("08Dd9fg")), name="u")
    o += scal(0, (0,), "\\u", S("dD"), S("7890bBcCfF"), S("0f"), S("0f"), R(0, 1, S("a")), name="sur", need=(2, 3))
    o += scal(0, (0,), "\\U", R(0, 1, "0"), "0", S("01"), S("01"), S("01"), S("0d"), S("08f"), "0", S("0f"), name="U", need=(2, 3))
    o += scal(0, VALC, R(0, 5 + n, S("a \n\\")), name="fold", need=(1, 2))
    o += scal(0, (0, 2, 3), R(0, 4 + n, S("a\t \r\n\\")), name="foldtab")
    o += scal(0, (0, 1, 8), "a", X(20, "\n"), X(6, " "), R(0, 3, S(" \n\\a")), "b", name="manybreaks")
    o += scal(0, (0, 3, 5), X(70, "a"), R(0, 3, S("a \\n")), X(70, "b"), name="long")
    o += scal(0, (0, 3, 5), "\\n", X(33, "a"), "\\t", R(0, 3, S("a \\n")), "\\\"", X(40, "b"), name="long2")
    o += scal(0, (2, 4), *[(S('n"\\tx'), ) if i % 2 else "\\" for i in range(8)], name="manyesc")
    return o


def squoted(q):
    n = 0 if q else 1
    o = scal(1, ALLC, R(0, 3 + n, CH), need=(1, 2), name="any")
    o += scal(1, VALC, R(0, 5 + n, S("a \n'")), name="fold", need=(1, 2))
    o += scal(1, (0, 2, 3), R(0, 5 + n, S("a\t \r\n")), name="foldtab")
    o += scal(1, ALLC, R(0, 6, S("'a\"\\")), name="quotes")
    o += scal(1, (0, 1, 8), "a", X(20, "\n"), X(6, " "), R(0, 3, S(" \n'a")), "b", name="manybreaks")
    o += scal(1, (0, 3, 5), X(70, "a"), R(0, 3, S("a 'n")), X(70, "b"), name="long")
    o += scal(1, (0, 3, 5), "''", X(33, "a"), R(0, 3, S("a '\\")), "''", X(40, "b"), name="long2")
    return o


def plainq(q):
    n = 0 if q else 1
    o = scal(2, ALLC, R(0, 3 + n, CH), need=(2,), name="any")
    o += scal(2, ALLC, R(1, 4 + n, S("a:-?#,[ ")), need=(2,), name="ind")
    o += scal(2, VALC, "a", R(0, 5 + n, S("a \n#:")), name="fold", need=(2,))
    o += scal(2, (0, 2, 3, 11), "a", R(0, 5 + n, S("a\t\r\n")), name="foldtab")
    o += scal(2, VALC, "a\n", R(0, 8 + n, " "), R(0, 3, S("a -.\n")), name="indent")
    o += scal(2, (0, 1, 3, 10), "a\n", R(0, 1, " "), R(2, 5, S("-.a \n")), name="docmark")
    o += scal(2, (0, 1, 8), "a", X(20, "\n"), R(0, 8, " "), R(0, 2, S("a#:")), "b", name="manybreaks")
    o += scal(2, (0, 3, 5), X(70, "a"), R(0, 3, S("a :#")), X(70, "b"), name="long")
    return o


def blockq(q):
    n = 0 if q else 1
    C_ = (0, 1, 2, 7, 8, 10, 11)
    o = scal(3, C_, S("|>"), R(0, 3, S("+-1240 #a\t")), "\n", R(0, 2, S(" \na")), lazy=(0,), name="header", need=(1, 2, 3))
    o += scal(3, (2, 0), S("|>"), R(0, 2, S("+-12")), "\n", R(0, 2, S(" \na")), lazy=(1,), name="header")
    o += scal(3, C_, S("|>"), R(0, 1, S("+-")), "\n", R(0, 5 + n, S(" \na")), name="body", need=(1, 2))
    o += scal(3, (0, 2), S("|>"), R(0, 1, S("+-")), "\n", R(0, 7 + n, S(" \na")), lazy=(0,), name="deep")
    o += scal(3, (1, 11), S("|>"), R(0, 1, S("+-")), "\n", X(4, " "), R(1, 6 + n, S(" \na\t")), lazy=(0,), name="lines")
    o += scal(3, (2,), S("|>"), S("123456789"), "\n", R(0, 10, " "), R(0, 3, S("a \n")), lazy=(0,), name="explicit", need=(2,))
    o += scal(3, (2, 8), S("|>"), "\n", X(6, " "), "a", R(0, 4, S("\r\na")), R(0, 8, " "), R(0, 2, S("a#-\n")), lazy=(0,), name="crlf")
    o += scal(3, (2, 10), S("|>"), R(0, 1, S("+-")), "\n  a", X(20, "\n"), R(0, 4, S(" \nb")), lazy=(0,), name="manybreaks")
    o += scal(3, (2, 0), S("|>"), R(0, 1, S("+-")), "\n", X(12, " "), X(70, "a"), "\n", X(12, " "), R(0, 3, S(" \nb")), name="long")
    o += scal(3, (0, 2), S("|>"), "\n  ", R(1, 2, CH), R(0, 1, "\n  b"), lazy=(0,), name="any")
    return o


def borrowed(q):
    o = []
    for j in any_text("t_borrow", q):
        o.append(J(j.name, j.entry, *j.t, need=(1, 2) if j.name in ("any", "nodes") else ()))
    o += rich_text("t_borrow", q)
    o += [J(j.name + "-lazy", j.entry, *j.t, param=1) for j in rich_text("t_borrow", q, 1)]
    o.append(J("lazy", "t_borrow", R(0, 3 if q else 4, CH), param=1, need=(1, 2)))
    o += scal(0, ALLC, R(1, 2 if q else 3, CH), bit7=True, need=(4,), name="z")
    o += scal(1, ALLC, R(1, 2 if q else 3, CH), bit7=True, need=(4,), name="z")
    o += scal(2, ALLC, R(1, 2 if q else 3, CH), bit7=True, name="z")
    o += scal(0, (0, 4), X(60, "a"), R(0, 2, S("a b")), X(60, "c"), bit7=True, need=(4,), name="zlong")
    return o




def utf8(q):
    B_ = ByteSet(range(256))
    n = 4 if q else 5
    return [
        J("bytes", "t_utf8", R(0, n, B_), need=(1, 2)),
        J("bytes-streamed", "t_utf8", R(0, n - 1, B_), param=2, need=(1, 2)),
        J("bytes-bytewise", "t_utf8", R(0, n - 1, B_), param=2 | 1 << 8, need=(1, 2)),
        J("bytes-lazy", "t_utf8", R(0, n - 1, B_), param=3, need=(1, 2)),
        J("quoted", "t_utf8", '"', R(1, n - 1, B_), '"', param=2, need=(1, 2)),
        J("comment", "t_utf8", "#", R(1, n - 1, B_), "\na", param=2 | 4, need=(1, 2)),
        J("comment-bytewise", "t_utf8", "#", R(1, n - 1, B_), A("\na", ""), param=2 | 4 | 1 << 8, need=(1, 2)),
        J("comment-later", "t_utf8", "- a\n- 'b'\n#", R(1, n - 1, B_), A("\n", ""), param=3 | 4 | 2 << 8, need=(1, 2)),
        J("edge", "t_utf8", "#", X(8187, "c"), R(0, 3, "c"), R(1, 3, B_), param=2, need=(1, 2)),
        J("edge-quoted", "t_utf8", '"', X(8187, "c"), R(0, 3, "c"), R(1, 3, B_), '"', param=2, need=(1, 2)),
        J("edge-lazy", "t_utf8", '"', X(8187, "c"), R(0, 3, "c"), R(1, 3, B_), '"', param=3, need=(1, 2)),
    ]


def iofail(q):
    o = []
    for lz in (0, 1):
        z = "-lazy" if lz else ""
        for mode, mn in ((0, "end"), (1, "pos")):
            o.append(J("any-%s%s" % (mn, z), "t_iofail", R(1, 2 if q else 3, CH), param=lz | mode << 1, need=(1,)))
            o.append(J("any1-%s%s" % (mn, z), "t_iofail", R(1, 3 if q else 4, CH), param=lz | mode << 1 | 8, need=(1,)))
            o.append(J("block-%s%s" % (mn, z), "t_iofail", R(1, 5 if q else 6, S(BLOCKA)), param=lz | mode << 1 | 8, need=(1,)))
            o.append(J("flow-%s%s" % (mn, z), "t_iofail", "[", R(1, 3, S(FLOWA)), param=lz | mode << 1 | 8, need=(1,)))
            o.append(J("docs-%s%s" % (mn, z), "t_iofail", R(1, 5, S("-.a\n")), param=lz | mode << 1 | 8, need=(1,)))
            o.append(J("bscalar-%s%s" % (mn, z), "t_iofail", "a: ", S("|>"), R(0, 4, S("-+ \na")), param=lz | mode << 1 | 8, need=(1,)))
            o.append(J("dquote-%s%s" % (mn, z), "t_iofail", '"', R(0, 3, S("\\\"n \n")), '"', param=lz | mode << 1 | 8, need=(1,)))
        o.append(J("calls" + z, "t_iofail", "- a\n- ", R(1, 2, CH), param=lz | 2 << 1 | 1 << 8, need=(1,)))
        o.append(J("calls3" + z, "t_iofail", "a: b\n", R(1, 2, CH), "\n", X(9, "c"), ": d", param=lz | 2 << 1 | 3 << 8, need=(1,)))
        for n, pad, tail in (("comment", ("#", X(8188, "c"), R(0, 2, "c"), "\n"), (R(0, 1, S("a: \n-")),)),
                             ("flow", ("[", X(8189, " "), R(0, 2, " ")), (R(1, 2, S("a,:]")),)),
                             ("doc", ("--- a\n...\n#", X(8179, "c"), R(0, 2, "c"), "\n"), (R(0, 1, S("a-.\n")),)),
                             ("second", ("a\n#", X(8192, "c"), X(8187, "c"), "\n"), (R(0, 1, S("a: \n-")),))):
            for mode in (0, 1):
                if q and mode != lz and n != "comment":
                    continue
                o.append(J("edge-%s%d%s" % (n, mode, z), "t_iofail", *pad, *tail, param=lz | mode << 1 | 8 | (6 if q else 200) << 24))
    return o


def hold(q):
    o = []
    for lz in (0, 1):
        for j in any_text("t_hold", q, 1):
            if q and lz == 0 and j.name != "any":
                continue
            o.append(J(j.name + ("-lazy" if lz else ""), j.entry, *j.t, param=lz))
        o += [J(j.name + ("-lazy" if lz else ""), j.entry, *j.t, param=lz, need=(1,)) for j in rich_text("t_hold", q, 1)]
        z = "-lazy" if lz else ""
        k = 1 if q else 2
        o.append(J("chunks" + z, "t_hold", "- 'a'\n- \"b\\n\"\n- &c d\n- |\n e\n", *[y for i in range(5 if q else 15) for y in ("#", X(30000, "c"), "\n- !t b\n")], "- ", R(0, 1, "a"), param=lz, need=(1,)))
        for n, pad, tail in (("comment", ("- a\n- \"b\\n\"\n- &c d\n- |\n e\n- *c\n- !x f\n#", X(8120, "c"), R(0, k, X(30, "c")), "\n"), ("- ", R(0, k, CH))),
                             ("flow", ("[a, 'b''c', &d e, !x f, *d", X(8150, " "), R(0, k, X(20, " "))), (R(1, 1 + k, S("a,: ")), "]")),
                             ("three", ("- a\n#", X(8192, "c"), X(8100, "c"), "\n- b\n#", X(8192, "c"), "\n"), ("- ", R(0, k, S("a\"\n -")))),
                             ("plain", ("- a\n- ", X(8182, "p"), R(0, 2 * k, "p")), (R(0, 1 + k, S("a: \n-")),)),
                             ("literal", ("- a\n- |\n  ", X(8180, "l"), R(0, k, "l")), ("\n", R(0, 1 + k, S("l\n -")),)),
                             ("quoted", ("- a\n- \"", X(8182, "q"), R(0, 2 * k, "q")), ("\\n", R(0, k, S("q\\n ")), "\"")),
                             ("docs", ("--- &a b\n--- !t \"c\\t\"\n...\n%TAG !a! b\n--- !a!c d\n#", X(8130, "c"), R(0, k, X(20, "c")), "\n"), ("--- ", R(0, k, S("a:- \n"))))):
            o.append(J("edge-" + n + z, "t_hold", *pad, *tail, param=lz, need=(1,)))
            if lz and n in ("comment", "quoted") or not q:
                o.append(J("edge-" + n + "-small" + z, "t_hold", *pad, *tail, param=lz | 700 << 8, need=(1,)))
    return o


def iterq(q):
    o = []
    for how in (0, 1, 2):
        for lz in (0, 1):
            for j in any_text("t_iter", q, 1):
                if q and j.name not in ("any", "block", "docs", "flow", "nodes"):
                    continue
                if q and j.name != "any" and lz != how % 2:
                    continue
                o.append(J("%s-%d%s" % (j.name, how, "-lazy" if lz else ""), j.entry, *j.t, param=lz | how << 1))
        o += [J("%s-%d" % (j.name, how), j.entry, *j.t, param=(how & 1) | how << 1) for i, j in enumerate(rich_text("t_iter", q, 1)) if not q or i % 3 == how]
    return o


ESC = "\x01"


def alone(q):
    E = "t_alone"
    o = []
    n = 0 if q else 1
    PL = A("", "- ", "a: ", "[", "{a: ", "? ", "- - ", "a:\n  b: ", "--- ", "- a: ", "a\n--- ", "&x ", "- !t ", "'b': ")
    k = 0
    for how in (0, 1):  # lazy, eager
        for bad in range(6):
            for st in ((), (1,), (3,)):
                p = how | bad << 2 | (2 | st[0] << 8 if st else 0)
                if q and st and (bad + how) % 3 != st[0] // 2:
                    continue
                z = "%d%s%s" % (bad, "-eager" if how else "", "-s%d" % st[0] if st else "")
                o.append(J("place" + z, E, PL, '"', R(0, 1, S("a \n'")), ESC, R(0, 1 + n, S("a \n:#")), '"', R(0, 1 + n, S(" \n:,]}b")), param=p, need=(1, 2)))
                o.append(J("pair" + z, E, A("- ", "[a, ", "b: ", ""), '"', ESC, '"', A(": ", " : ", ",", "\n- ", "\n? "), A('"c\\t"', "'d'", "e", "|\n   f", "[g]", "*h"), A("", "]", "\n- i", "\nj: k", "\n--- l"), param=p, need=(1, 2)))
                o.append(J("long" + z, E, A("- ", "{"), '"', X(60, "a"), R(0, 1, X(300, "b")), R(0, n, S("\n ")), ESC, A("", X(70, "c"), "\n\n d", "\\n"), '"', A("", " ", ": e", "}", ": e}"), param=p, need=(1, 2)))
                o.append(J("edge" + z, E, '- "', X(8150, "a"), R(0, 1, X(19, "a")), R(0, 3 + 9 * n, X(5, "b")), ESC, R(0, 1, "c"), '"\n- d', param=p, need=(1,)))
    return o


def pull(q):
    E = "t_pull"
    o = []
    n = 0 if q else 1
    for i, p in enumerate((0, 1, 2, 3, 1 << 8, 1 | 3 << 8)):
        o += [J("%s-%d" % (j.name, i), E, *j.t, param=p, need=(2,) if p & 2 or j.name == "directive" else (1, 2)) for j in any_text(E, q, 1) if not q or i < 2 or j.name in ("any", "docs")]
    for i, p in enumerate((0, 1, 2 | 500 << 8, 1 | 4096 << 8)):
        z = "-%d" % i
        fill = [y for _ in range(14) for y in ("#", X(12000, "c"), "\n- b\n")]
        o.append(J("far" + z, E, "- a\n", R(0, 2 + n, S("-a: \n")), "\n", *fill, param=p, need=(3,)))
        o.append(J("farscalar" + z, E, A("- a\n- ", "- a: b\n  ", "[a, "), S("'\"-[|>&"), X(20000, "c"), "\n  ", X(30000, "c"), param=p))
        o.append(J("items" + z, E, "- a\n", *[y for _ in range(24) for y in ("- ", X(5000, "a"), "\n")], S("ab"), param=p, need=(3,)))
        o.append(J("fitems" + z, E, "[", *[y for _ in range(24) for y in (X(5000, "a"), ", ")], S("ab]"), param=p, need=(3,)))
        o.append(J("pairs" + z, E, *[y for _ in range(24) for y in (X(1000, "a"), ": ", X(4000, "a"), "\n")], R(0, 1 + n, S("ab: \n")), param=p, need=(3,)))
        o.append(J("docs" + z, E, *[y for _ in range(14) for y in ("a: b\n...\n#", X(9000, "a"), "\n---\n")], R(0, 1 + n, S("ab] \n")), param=p, need=(3,)))
    return o


PROPS = {
    "C01": dict(jobs=lambda q: whole("t_robust", q)),
    "C02": dict(jobs=lambda q: whole("t_robust", q)),
    "C03": dict(jobs=lambda q: whole("t_grammar", q)),
    "C04": dict(jobs=lambda q: any_text("t_lazy", q) + rich_text("t_lazy", q, need=(1,)) + later(q)),
    "C05": dict(jobs=streamed),
    "C06": dict(jobs=iofail),
    "C07": dict(jobs=hold),
    "C08": dict(jobs=utf8),
    "C09": dict(jobs=borrowed),
    "C10": dict(jobs=dquoted),
    "C11": dict(jobs=squoted),
    "C12": dict(jobs=plainq),
    "C13": dict(jobs=blockq),
    "C24": dict(jobs=iterq),
    "C26": dict(jobs=alone),
    "C27": dict(jobs=pull),
}

from spec_ref import MORE, RICH, rich_ref  # noqa: E402
PROPS.update(MORE)
for _p in ("C10", "C11", "C12", "C13"):
    PROPS[_p] = dict(jobs=lambda q, _f=PROPS[_p]["jobs"], _p=_p: _f(q) + rich_ref(_p, q))


def jobs(prop, tier):
    return PROPS[prop]["jobs"](tier == "quick")
