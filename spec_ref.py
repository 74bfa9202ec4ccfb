"""Jobs decided against the reference parser (t_ref), and by relating texts."""
from tmpl import *
from spec import J, any_text, rich_text, FLOWA


def ref(name, *t, lazy=(0, 1), stream=(), need=()):
    """against the reference parser; stream: pieces to stream the text in"""
    o = [J(name + ("-lazy" if l else ""), "t_ref", *t, param=l, need=need) for l in lazy]
    return o + [J("%s-s%d" % (name, k), "t_ref", *t, param=2 | k << 8, need=need) for k in stream]


PLACES = A("", "- ", "a: ", "[", "{a: ", "? ", "- - ")
DEEP = (17, 33, 65, 130, 260)
# documents of every kind, for putting one after the other
DOCS = A("a: b", "- a", "'a'", "[a, {b: c}]", "|+\n a\n\n", ">-\n a", "--- a\n--- b", "&a b", "? a\n: b", "a\n  b", "%TAG !a! b\n--- !a!c d", "...\n...\na",
         "- - a\n  - b\n- c", "a:\n  - b\n", "", "# c\n", "  - a", "\n\na: b")


def pick(q, *xs):
    return xs[0] if q else xs[-1]


def tags(q):
    n = 0 if q else 1
    E = "%TAG !e! x\n--- "
    H = A("", E)
    o = ref("any", PLACES, "!", R(0, 1 + n, CH), need=(1, 2))
    o += ref("any3", H, "!", R(0, 3 + n, CH), need=(1, 2))
    o += ref("after", A(E + "!e!", "!!", "!a"), R(0, 3 + n, CH), need=(1, 2))
    o += ref("shape", PLACES, R(1, 4 + n, S("!a%<> \n")), need=(1, 2))
    o += ref("shape2", A("", "- "), "!", R(3, 5 + n, S("!a-: \n")), need=(1, 2))
    o += ref("shape3", E, "!e!", R(0, 5 + n, S("!a-:e \n%")), need=(1, 2))
    o += ref("uri", PLACES, "!<", R(0, 1 + n, CH), A("> a", ">\n- a", ">"), need=(1, 2))
    o += ref("uri3", "!<", R(0, 3 + n, CH), A("> a", ">"), need=(1, 2))
    o += ref("escape", A("!", "!!", E + "!e!", "!<"), R(0, 1, "a"), "%", R(0, 2, S("09aAfFgG %")), R(0, 1, "%"), R(0, 2, S("4e")), A("", "> b", " b"), need=(1, 2))
    o += ref("utf8", A("!", "!!", "!<"), "%", S("cCeEfF"), S("0239aA"), "%", S("89aA"), S("09fF"), R(0, 1, "%80"), A("", "> b", " b"), need=())
    o += ref("handle", A("!", "!!", "%TAG !e-1! x\n--- !e-1!", "%TAG !9! x\n--- !9!", E + "!a!"), R(1, 3 + n, S("a!,]-_ \n")), need=(1, 2))
    o += ref("flow", H, A("[", "{", "[a, ", "{a: "), A("!", "!!", "!e!", "!<a>"), R(0, 3 + n, S("!a,]}: \n")), A("]", "}"), lazy=pick(q, (0,), (0, 1)), need=(1, 2))
    o += ref("node", A("!t", "!!t", "!<t>", E + "!e!t"), A("", " "), R(0, 4 + n, S("a:-\n\"[] ")), stream=(0, 1), need=(1, 2))
    o += ref("node2", A("- ", "? ", "a: "), A("!t", "!!t", "!<t>"), R(1, 4 + n, S("a:-\n| ")), need=(1, 2))
    o += ref("both", PLACES, A("!t", "!<t>", "&a"), R(1, 2, S(" \t\n\r")), R(0, 3, S("!&ta")), R(0, 2 + n, S("- a:\n")), lazy=pick(q, (0,), (0, 1)), need=(1, 2))
    o += ref("coll", H, A("!t", "!!t", "!e!t", "!<t>", "&x !t", "!t &x"), A(" ", "\n", "\n\n", " # c\n"), A("- a", "a: b", "[a]", "{a: b}", "a", "'a'", "|\n a", "? a", "", "- a\n- !u b"), R(0, 2, S("\n :-#")), stream=(0,), need=(1, 2))
    o += ref("second", A("- !a b\n- ", "!a b: ", "[!a b, ", "a: !b c\nd: ", "--- !a b\n--- ", E + "- !e!f\n- !<g> h\n- ", E + "!e!f\n--- "), R(0, 4 + n, S("!ab \n")), need=(1,))
    o += ref("keys", R(0, 2, S(" -?")), "!k a", A(" ", "", "\n"), ":", R(0, 3, S(" !v\n")), A("", " b", "\n!l c: d"), need=(1, 2))
    o += ref("long", A("!", "!!", E + "!e!", "!<"), X(20, "a"), R(0, 1, X(50, "b")), R(0, 1, X(250, "c")), R(0, 2, S("-%!>0f ")), X(30, "d"), A("", "> x", " x"), stream=(0, 7), need=(1, 2))
    o += ref("longhandle", "%TAG !", X(20, "h"), R(0, 1, X(60, "i")), R(0, 1, X(260, "j")), "! p\n--- !", X(20, "h"), R(0, 1, X(60, "i")), R(0, 2, S("-_!")), R(0, 1, X(260, "j")), "!t", R(0, 2, S(" a\n")), need=(1, 2))
    o += ref("many", E, "\n", *[(A("- !a x\n", "- !<u> y\n") if i % 5 == 0 else "- !e!t z\n") for i in range(20)], "- !", R(0, 2, S("!a ")), need=(1,))
    o += ref("escapes", "!", *["%4", S("19aF")] * 4, *["%41"] * (20 if q else 100), R(0, 3, S("%4a ")), need=(1, 2))
    return o


def directives(q):
    n = 0 if q else 1
    o = ref("yaml", "%YAML", R(1, 6 + n, S("0129. \n#")), A("\n--- a", "\n---"), need=(1, 2))
    o += ref("yamlany", "%YAML ", R(0, 3 + n, CH), A("\n--- a", ".2\n--- a"), need=(1, 2))
    o += ref("number", "%YAML ", S("12"), R(0, 2, S("0259")), ".", R(1, 3, S("0256")), R(0, 1, " "), "\n---\n", need=(1,))
    o += ref("tag", "%TAG ", R(1, 6 + n, S("!a% \n#")), "\n--- ", A("!a", "!!a", "!a!b", "a"), need=(1, 2))
    o += ref("tagany", "%TAG !", R(0, 3 + n, CH), A(" x", "! x", ""), "\n--- a", need=(1, 2))
    o += ref("prefix", A("%TAG ! ", "%TAG !! ", "%TAG !a! "), R(1, 3 + n, CH), A("\n--- !a b", "\n--- !a!b c"), need=(1, 2))
    D_ = A("%YAML 1.1\n", "%YAML 1.2\n", "%TAG !a! x\n", "%TAG !a! y\n", "%TAG !! z\n", "%TAG ! !w\n", "# c\n", "\n", "%TAG !b! !\n")
    o += ref("pairs", R(0, 3, D_), "--- ", A("!a!t", "!!t", "!t", ""), " b", stream=(0, 3), need=(1, 2))
    o += ref("scope", R(0, 2, D_), "--- a\n", A("...\n", ""), R(0, pick(q, 1, 2), D_), A("--- ", "---\n", ""), A("!a!t b", "b", "%TAG !a! b"), need=(1, 2))
    o += ref("scope3", A("%TAG !a! x\n%YAML 1.1\n--- a\n...\n", "%TAG !a! x\n--- a\n--- b\n...\n", "%YAML 1.1\n---\n...\n"), R(0, 1, D_), A("--- c\n", "c\n", "---\n"), A("...\n", ""), R(0, 1, D_), A("--- d\n", "d"), need=(1, 2))
    o += ref("where", A("a\n", "--- a\n", "- a\n", "a: b\n", "...\n", "--- |\n a\n", "[a,\n", "'a\n", "--- a\n...\n", "  ", "#c\n"), A("%YAML 1.1", "%TAG !a! b"), R(0, 2, S(" #\n")), A("\n--- c", "", "\n...\n"), stream=(0,), need=(1, 2))
    o += ref("end", A("%YAML 1.1", "%TAG !a! b"), R(0, 4, S(" #\n\r\t")), A("--- a", "---", "a", "...", "- a", ""), need=(1, 2))
    o += ref("space", "%", R(0, 1, " "), A("YAML", "TAG"), R(0, 3, S(" \t\n")), A("1.1", "!a!", ""), R(0, 2, S(" \t\n")), A("b", ""), "\n--- a", need=(1, 2))
    o += ref("long", "%TAG !", X(30, "h"), R(0, 1, X(260, "i")), "! ", X(40, "p"), R(0, 1, X(300, "q")), R(0, 2, S("%20 \n")), "\n--- !", X(30, "h"), R(0, 1, X(260, "i")), "!s a", stream=(0, 5), need=(1,))
    o += ref("many", *["%%TAG !h%d! p%d\n" % (i, i) for i in range(12 if q else 70)], A("%TAG !h3! q\n", "%TAG !hh! q\n", "%TAG !h11! q\n", "%YAML 1.0\n", "%TAG ! q\n"), "--- a\n", A("", "--- b", "...\n%YAML 1.3\n--- c"), need=(1, 2))
    o += ref("docs", *["%%TAG !h%d! p\n--- a\n...\n" % i for i in range(5 if q else 30)], R(0, 2, D_), "--- b", need=(1, 2))
    return o


def anchors(q):
    n = 0 if q else 1
    o = ref("any", PLACES, S("&*"), R(0, 1 + n, CH), need=(1, 2))
    o += ref("shape", R(0, 6 + n, S("&*a-: \n")), need=(1, 2))
    o += ref("flow", A("[", "{"), R(0, 5 + n, S("&*a,:] \n")), A("", "}"), need=(1, 2))
    o += ref("node", A("&x", "&x ", "&x\n", "&x\t", "&x  # c\n"), R(0, 4 + n, S("a:-\n\"[]")), stream=(0, 1), need=(1, 2))
    o += ref("node2", A("- ", "? ", "a: ", "- - ", "a:\n  "), A("&x", "&x ", "&x\n"), R(0, 4 + n, S("a:-\n| ")), need=(1, 2))
    o += ref("coll", A("&x", "&x !t", "!t &x"), A(" ", "\n", "\n\n", " # c\n"), A("- a", "a: b", "[a]", "{a: b}", "a", "'a'", "|\n a", "? a", "", "&y a: b", "- &y a\n- *x"), R(0, 2, S("\n :-#")), stream=(0,), need=(1, 2))
    o += ref("keys", R(0, 2, S(" -?")), A("&k a", "*k", "&k [a]", "&k"), A(" ", "", "\n"), ":", R(0, 3, S(" &*v\n")), A("", " b", "\n&l c: d", "\n*l : d"), need=(1, 2))
    o += ref("which", A("- &a a\n- &b\n  &c d: e\n- ", "&a b: &c\n  &d e: f\ng: ", "&a\n- &b\n  - &c d\n- ", "[&a b, &c [&d e], {&f g: &h i}, ", "? &a b\n: &c d\n? "), R(0, 3 + n, S("&*abc: \n")), A("", "]"), need=(1, 2))
    o += ref("alias", A("- ", "a: ", "[a, ", "{a: ", "? ", "--- ", "[? ", "- - "), "*a", R(0, 3 + n, S(" a:,]\n-*&#")), A("", "]", "}"), lazy=pick(q, (0,), (0, 1)), need=(1, 2))
    o += ref("aliasprops", A("- ", "a: ", "["), A("&b *a", "!t *a", "*a &b", "&b\n *a", "*a b", "*a\n b", "*a: b", "*a : b", "*a"), A("", "]", "\n"), need=(1, 2))
    o += ref("docs", A("--- &a b\n", "&a b\n"), A("...\n", ""), A("--- ", "---\n", ""), A("- *a", "&a c", "a: *a", "*a"), R(0, 2, S("\n &")), need=(1, 2))
    o += ref("long", A("- ", "a: "), S("&*"), X(20, "a"), R(0, 1, X(60, "b")), R(0, 1, X(300, "c")), R(0, 2, S("0Z \n")), X(20, "d"), R(0, 2, S(" \ne:")), stream=(0, 7), need=(1,))
    o += ref("many", *["- &a%d x\n- *a%d\n" % (i, i) for i in range(20 if q else 140)], "- ", R(0, 3, S("&*a ")), need=(1,))
    o += ref("nested", *["- "] * 10, "&a ", R(0, 3, S("&*a:")), need=(1,))
    return o


def documents(q):
    n = 0 if q else 1
    o = ref("any", A("---", "...", "a\n---", "a\n..."), R(0, 2 + n, CH), need=(1, 2))
    o += ref("docs", R(0, 7 + n, S("-.a\n#% ")), stream=(0, 1), need=(1, 2))
    M = A("---", "...", "--", "..", "----", "....", " ---", "---\t", "--- ", "...#", "---#")
    o += ref("marks", R(0, pick(q, 1, 2), A("a", "- a", "a: b", "", "|\n a", "[a]", "'a'", "# c", "&a", "!a", "[", "'")), "\n", M, R(0, 1, A("\n", " a", " a: b", " - a", " |\n a", "a", " # c\n")), stream=(0,), need=(1, 2))
    o += ref("marks2", M, "\n", R(0, 1, "a\n"), M, R(0, 3, S("\n a")), need=(1,))
    P_ = A("--- a\n", "---\n", "...\n", "a\n", "# c\n", "\n", "--- [a]\n", "--- |\n a\n", "- a\n", "--- # c\n", "...  # c\n", "'b'\n")
    o += ref("seq", R(0, 3 + n, P_), stream=(0,), need=(1, 2))
    o += ref("inside", A("- |\n ", "- >\n ", "- '", "- \"", "- [a,", "- a", "- {", "'", "\"", "[", "? ", "&a", "- # "), "\n", A("---", "..."), R(0, 2, S(" a\n'\"]")), R(0, 1, S("'\"]}")), lazy=pick(q, (0,), (0, 1)), need=(1, 2))
    o += ref("roots", A("a", "'a'", "\"a\"", "[a]", "{a: b}", "|\n a", "- a", "a: b", "&a b", "? a", "!t", "--- a", "--- |\n a", "--- 'a'", "--- [a]", "--- >\n  a"), R(1, 2, S("\n ")), A("b", "'b'", "- b", "b: c", "[b]", "*b", "&b", "!b", ",", "]", "|\n b", "--- b", "...b", "?", ":", "%"), need=(1, 2))
    for p in (0, 2, 3) if q else (0, 1, 2, 3):
        k = n if p == 0 else n - 1
        for nm, need, t in (
                ("block", (1, 2), (R(0, 3 + k, S("-:? \na")), "\x01", R(0, 3 + k, S("-:? \na")))),
                ("docs", (1,), (R(0, 3 + k, S("-.a\n#% ")), "\x01", R(0, 3 + k, S("-.a\n#% ")))),
                ("kinds", (1,), (DOCS, "\x01", DOCS)),
                ("bad", (2,), (DOCS, "\x01", A("[", "a: b: c", "'", "- a\nb", "}", "%a", "@"))),
                ("any", (1, 2), (A("a", "- b", "'c'"), "\x01", R(0, 2 + n, CH)))):
            o.append(J("cat%d-%s" % (p, nm), "t_cat", *t, param=p, need=need))
    o += ref("long", X(70, "a"), R(0, 1, X(300, "b")), "\n", R(0, 1, X(300, "\n")), M, R(0, 1, X(300, " ")), A("\n", "b\n"), A("---", "c"), need=(1,))
    o += ref("many", *[("--- a%d\n" if i % 3 else "--- b%d\n...\n") % i for i in range(40 if q else 400)], P_, P_, need=(1, 2))
    o += ref("manyends", "a\n", R(1, 40, "...\n"), A("b", "--- a", "", "---"), need=(1,))
    return o


def blocks(q):
    n = 0 if q else 1
    o = ref("block", R(0, 7 + n, S("-:? \na")), stream=(0, 1), need=(1, 2))
    o += ref("any", A("- ", "a: ", "? ", "a:\n ", "- a\n", "a: b\n"), R(0, 1 + n, CH), need=(1, 2))
    L_ = A("- ", "-\n", "a: ", "a:\n", "? a\n", ": ", "a", "'b'", "\n", " ", "  ", "b: c\n")
    o += ref("pieces", R(0, 3 + n, L_), need=(1, 2))
    I_ = A("", " ", "  ", "   ")
    B_ = A("- a", "- - a", "b: c", "b:", "-", "d", "? e", ": f", "- g: h")
    o += ref("lines2", I_, B_, "\n", I_, B_, need=(1, 2))
    o += ref("lines3", B_, "\n", I_, B_, "\n", I_, A("- a", "b: c", "b:", "d", ": f") if q else B_, lazy=(0,), need=(1, 2))
    o += ref("lines3", A("- a", "b:", "- b: c", "? - a"), "\n", I_, B_, "\n", I_, A("- a", "b: c", ": d"), lazy=(1,), stream=(0,), need=(1, 2))
    o += ref("lines4", "a:\n", I_, A("b:", "- b:", "- - c", "? b"), "\n", I_, A("- c", "d:", "e: f", ": g"), "\n", I_, A("- h", "i: j", "k"), lazy=(0,) if q else (0, 1), need=(1, 2))
    o += ref("lines5", "- a:\n", "    - b\n", I_, " ", A("c:", "- c:"), "\n", I_, I_, A("- c", "d:", "e: f", "g"), "\n", I_, A("- h", "i: j"), lazy=(0,) if q else (0, 1), need=(1, 2))
    K_ = A("a", "'a'", "\"a\"", "[a]", "{a: b}", "&x a", "!t a", "*x", "&x", "!t", "|\n  a\n", "- a", "b: c")
    o += ref("kinds", A("", "- ", "? "), K_, A(":", " :", ": ", ":\n", "\n"), R(0, 1, K_), R(0, 1, A("\n", "\n- a", "\nb: c", "\n: d")), lazy=pick(q, (0,), (0, 1)), need=(1, 2))
    o += ref("empties", R(0, 5 + n, A("-\n", "?\n", ":\n", "a:\n", "- \n", "b: c\n")), lazy=(0,), need=(1, 2))
    o += ref("zero", A("a:\n- b\n", "? a\n- b\n", "- a:\n  - b\n", "? a\n: - b\n"), R(0, 4 + n, S("- c:\n")), need=(1, 2))
    for d in (DEEP[:3] if q else DEEP):
        o += ref("deepseq%d" % d, *["- "] * d, "a\n", A("", "b", X(2, " "), (X(2 * d - 2, " "), "- b"), (X(2 * d - 4, " "), "- b\n- c"), (X(2 * d - 3, " "), "- b")), R(0, 1 + n, S("-: a")), lazy=(0,), need=(1, 2))
        o += ref("deepmap%d" % d, *[y for i in range(d) for y in (X(i, " ") if i else "", "a:\n")], X(d, " "), "b\n", A("", (X(d - 1, " "), "c: d"), (X(1, " "), "c: d"), (X(d // 2, " "), "c: d\ne: f")), R(0, 1 + n, S("-: a")), lazy=(0,), need=(1, 2))
    for w in (20, 100, 300) if q else (20, 100, 300, 3000):
        o += ref("wide%d" % w, *["- a\n"] * w, A("- ", "-\n", "", "  "), R(0, 1 + n, S("-b: \n")), lazy=(0,), need=(1, 2))
        o += ref("widemap%d" % w, *["a%d: b\n" % i for i in range(w)], A("c:", "- d", "", " "), R(0, 1 + n, S("-b: \n")), lazy=(0,), need=(1, 2))
    o += ref("column", A("- ", "? "), R(0, 1, X(250, " ")), R(0, 1, X(800, " ")), R(0, 1, X(60000, " ")), R(0, 6, " "), "a: b\n", A("- c", "  - c", "d: e", ": f"), lazy=(0,), need=(1, 2))
    o += ref("far", "a:\n", X(65530, " "), R(0, 8, " "), "b: c\n", A(X(65535, " "), X(65530, " "), ""), A("d: e", "- f"), lazy=(0,), need=(1, 2))
    o += ref("indents", "a:\n", R(0, 1, X(250, " ")), R(0, 1, X(1000, " ")), pick(q, "", R(0, 1, X(65000, " "))), R(0, 9, " "), "b: c\n", R(0, 1, X(250, " ")), R(0, 1, X(1000, " ")), R(0, 9, " "), A("d: e", "- f"), lazy=(0,), need=(1, 2))
    return o


def flows(q):
    n = 0 if q else 1
    o = ref("flow", R(0, 5 + n, S(FLOWA)), stream=(0, 1), need=(1, 2))
    o += ref("seq", "[", R(0, 5 + n, S(FLOWA)), A("]", ""), need=(1, 2))
    o += ref("map", "{", R(0, 5 + n, S(FLOWA)), A("}", ""), need=(1, 2))
    o += ref("any", A("[", "{", "[a, ", "{a: "), R(0, 1 + n, CH), A("]", "}"), need=(1, 2))
    F_ = A("[", "]", "{", "}", ",", ":", ": ", "? ", "a", "'b'", " ", "\n")
    o += ref("pieces", A("[", "{"), R(0, 3 + n, F_), A("]", "}"), need=(1, 2))
    K_ = A("a", "'a'", "\"a\"", "[a]", "{a: b}", "&x a", "!t a", "*x", "&x", "!t", "", "a b", "&x [a]")
    o += ref("pairs", A("[", "{", "[? ", "{? ", "[a, ", "{a, "), K_, A(":", " :", ": ", ":\n", "\n: ", "", " ", ","), R(0, 1, K_), A("]", "}", ", b]", ", b: c}"), lazy=pick(q, (0,), (0, 1)), need=(1, 2))
    o += ref("multi", A("[", "{"), R(0, 1, "? "), "a", A("\n", "\n\n", " # c\n", "\r\n"), A("b", ":", ": b", ", b", "b: c", "? b", "]"), A("]", "}", ", d]", ", d: e}"), need=(1, 2))
    o += ref("in", A("- ", "a: ", "? ", "a:\n ", "- - ", ""), A("[a", "{a: b", "[[a], {b: c}"), R(0, 3, S("]}, \n:")), A("", "\n- b", "\nb: c", ": d", "\n: e"), lazy=pick(q, (1,), (0, 1)), need=(1, 2))
    o += ref("after", A("[a]", "{a: b}", "[]", "{}"), R(0, 3 + n, S("a:-,]# \n")), need=(1, 2))
    for d in (DEEP[:3] if q else DEEP):
        o += ref("deep%d" % d, *["["] * d, "a", *["]"] * (d - 2), A("]", "}", ""), A("]", "}", "", "]]", ": b", ", b]"), lazy=(0,), need=(1, 2))
        o += ref("deepmap%d" % d, *["{a: "] * d, "b", *["}"] * (d - 2), A("}", "]", ""), A("}", "]", "", "}}", ", c: d}"), lazy=(0,), need=(1, 2))
        o += ref("deepmix%d" % d, *["[{a: "] * (d // 2), "b", *["}]"] * (d // 2 - 1), S("]}"), S("]}"), R(0, 1, "]"), lazy=(0,), need=(1, 2))
    for w in (20, 100, 300) if q else (20, 100, 300, 3000):
        o += ref("wide%d" % w, "[", *["a, "] * w, A("", "b", "b: c", ","), R(0, 2, S("]}, :")), lazy=(0,), need=(1, 2))
        o += ref("widemap%d" % w, "{", *["a%d: b, " % i for i in range(w)], A("", "b", "b: c", "?"), R(0, 2, S("]}, :")), lazy=(0,), need=(1, 2))
    o += ref("lines", "[", R(0, 1, X(300, "\n")), R(0, 1, X(300, " ")), A("a", ""), R(0, 1, X(300, "\n")), S(",:]"), R(0, 1, (X(70, " "), "#", X(300, "c"), "\n")), A("b]", "]"), need=(1, 2))
    return o


def trivia(q):
    n = 0 if q else 1
    G = A("", " ", "\t", "\n", "\r\n", "\r", " # c\n", "#c\n", "  \n", "\t\n")
    o = ref("gaps", "-", G, A("a", "'a'", "[a]", "- a", "b: c"), G, A("- b", "-", ""), G, lazy=(0,) if q else (0, 1), need=(1, 2))
    o += ref("gaps2", "a:", G, A("b", "'b'", "[b]", "c: d", "|\n b", "&x", "- e"), G, A("e: f", "e:", ""), G, lazy=(1,) if q else (0, 1), need=(1, 2))
    o += ref("gaps3", "[", G, "a", G, S(",:"), G, "b", G, "]", lazy=(0,), need=(1, 2))
    o += ref("gaps4", "?", G, "a", G, ":", G, "b", lazy=(0,), stream=(0,), need=(1, 2))
    o += ref("gaps5", G, "--- ", G, "a", G, "...", lazy=pick(q, (0,), (0, 1)), need=(1, 2))
    o += ref("gaps6", A("&x", "!t", "*x", "- &x", "- !t", "- *x"), G, A("a", "- a", "a: b", "&y", "!u", ""), G, need=(1, 2))
    o += ref("comment", A("", "a", "a ", "- ", "'a'", "'a' ", "[a", "[a ", "- |", "- | ", "a:", "a: ", "--- ", "---"), "#", R(0, 1 + n, CH), A("", "\n", "\n- b", "]", "\n]"), lazy=pick(q, (0,), (0, 1)), need=(1, 2))
    o += ref("commentcr", A("", "a ", "- ", "'a' ", "[a ", "- | ", "a: ", "--- ", "%YAML 1.2 ", "&a "), "#", R(0, 4 + n, S("c\r\n# ")), A("", "b", "- b", "]", " b"), need=(1, 2))
    o += ref("breaks", R(0, 6 + n, S("-a:\n\r #")), stream=(0, 1), need=(1, 2))
    o += ref("breaks2", A("- ", "a: ", "[", "'", "\"", "- |", "- >", "a", "a:", "# c", "%YAML 1.2", "--- ", "&a"), R(0, 4 + n, S("\n\r a#")), A("", "]", "'", "\""), lazy=pick(q, (0,), (0, 1)), need=(1, 2))
    for p in (0, 1, 2, 3):
        z = "%s%s" % ("cr" if p & 2 else "crlf", "-lazy" if p & 1 else "")
        for j in any_text("t_breaks", q, 1):
            o.append(J("%s-%s" % (j.name, z), j.entry, *j.t, param=p, need=(2,) if j.name == "directive" else (1, 2)))
        o += [J(j.name + "-" + z, j.entry, *j.t, param=p, need=(1,)) for i, j in enumerate(rich_text("t_breaks", q, 1, skip=("r-plain", "r-flow", "r-tag", "r-deep", "r-deepf"))) if not q or (i + p) % 2]
        o.append(J("fold-" + z, "t_breaks", A("'a", "\"a", "a", "- a", "|\n a", ">\n a"), R(0, 4 + n, S("\n a")), A("'", "\"", "b"), param=p, need=(1, 2)))
    o += ref("long", "- a", R(0, 1, " "), R(0, 1, "#"), X(70, "c"), R(0, 1, X(300, "#")), R(0, 1, X(1100, " ")), S("\n\r:"), R(0, 1, X(300, "\n")), R(0, 1, "\r"), A("- b", " b", ""), need=(1, 2))
    o += ref("manylines", "a:", *["\n# c", "\n", "\n  # d"] * (20 if q else 200), S("\n\r"), A("- b", " c", "d: e", "# f"), R(0, 2, S("\n#:")), need=(1, 2))
    o += ref("wideblank", "-", X(260, " "), A("", X(800, " ")), R(0, 1, "#"), "a", X(260, " "), A("", X(800, " ")), S("#a\n"), A("", "\n- b"), need=(1,))
    return o


def keylimit(q):
    KEYS = [("plain", "", "", "k"), ("dq", '"', '"', "k"), ("sq", "'", "'", "k"), ("flow", "[", "]", "k"), ("map", "{a: ", "}", "k"),
            ("anchor", "&x ", "", "k"), ("tag", "!t ", "", "k"), ("wide", "\u00e9\u00e9\u20ac", "", "k"), ("inner", "a ", " b", "k"), ("escaped", '"\\x41\\n', '\\""', "k")]
    CTX = [("root", "", ": v"), ("seq", "- ", ": v"), ("value", "a:\n  ", ":"), ("later", "a: b\nc: d\n# e\n", ": v\nf: g"), ("flowseq", "[", ": v]"), ("flowlater", "[a, b,\n c, ", ": v, d]"),
           ("explicit", "? ", "\n: v"), ("third", "- a\n-\n  ", ": v"), ("pair", "{a: b, ? ", ": v}"), ("nested", "a:\n  b:\n  - ", ": v\nc: d")]
    o = []
    for i, (nm, a, b, c) in enumerate(KEYS):
        base = len((a + b).encode())
        for k, (cn, pre, post) in enumerate(CTX):
            if q and (i + k) % 3 and i > 1:
                continue
            lazy = (0, 1) if not q or cn in ("root", "later") else ((i + k) % 2,)
            need = (1,) if cn in ("explicit", "pair") else (1, 2)
            o += ref("%s-%s" % (nm, cn), pre, a, X(1024 - base - 3, c), R(0, 6, c), b, A("", " ", "   "), post, lazy=lazy, need=need)
    o += ref("space", "a", X(1015, " "), R(0, 14, " "), ": b", need=(1, 2))
    o += ref("multiline", A("", "- ", "a:\n  ", "[", "a: b\n"), A("a", "'a", "\"a", "[a", "{a"), A("\n", "\r", "\r\n", "\n\n", " "), A("b", " b", "  b"), A("", "'", "\"", "]", "}"), A(":", ": c", " : c", "\n: c"), R(0, 1, "]"), lazy=pick(q, (0,), (0, 1)), need=(1, 2))
    o += ref("late", X(2000, "\n"), R(0, 1, X(3000, " ")), A("a", "'a'", "[a]"), X(3, " "), ": b", need=(1,))
    o += ref("late2", *["k: v\n"] * 250, A("a", "'a'", "[a]", (X(1022, "a"), R(0, 4, "a"))), ": b", need=(1, 2))
    o += ref("long", A("", "- ", "? "), A("'", "\""), X(2000, "x"), S("xy"), A("'", "\""), A("", ":", ": b", "\n"), need=(1, 2))
    return o


def marks(q):
    o = []
    for lz in (0, 1):
        z = "-lazy" if lz else ""
        for j in any_text("t_marks", q):
            o.append(J(j.name + z, j.entry, *j.t, param=lz, need=(2,) if j.name == "directive" else (1, 2)))
        o += [J(j.name + z, j.entry, *j.t, param=lz, need=(1,)) for j in rich_text("t_marks", q)]
        o.append(J("wide" + z, "t_marks", R(1, 4, A("\u00e9", "\u20ac", "\U0001f600", "a", "- ", "'", "\n", ": ")), param=lz, need=(1, 2)))
        o.append(J("props" + z, "t_marks", A("- ", "a: ", "[", "? "), A("*", "&", "!"), R(1, 3, S("ab ")), R(0, 1, S("\n,]:")), A("", "b", "]"), param=lz, need=(1, 2)))
        o.append(J("long" + z, "t_marks", R(0, 1, X(250, "\n")), R(0, 1, (X(65000, "\n"), X(600, "\n"))), R(0, 1, "#\n"), A("- ", "a: ", "["), A("'b'", "b", "\"b\"", "*b"), A("", "]", "\n- c"), param=lz, need=(1, 2)))
        o.append(J("docs2" + z, "t_marks", R(0, 4, A("--- a\n", "...\n", "b\n", "- c\n", "%YAML 1.2\n", "# d\n", "[e]\n")), param=lz, need=(1, 2)))
    return o


def errors(q):
    n = 0 if q else 1
    o = []
    for lz in (0, 1):
        z = "-lazy" if lz else ""
        for j in any_text("t_err", q):
            o.append(J(j.name + z, j.entry, *j.t, param=lz, need=(1,)))
        o += [J(j.name + z, j.entry, *j.t, param=lz, need=(1,)) for j in rich_text("t_err", q)]
        o.append(J("version" + z, "t_err", "%YAML ", R(1, 4, S("0259")), ".", R(1, 4, S("0156")), A("\n---", ""), param=lz, need=(1, 3)))
        o.append(J("places" + z, "t_err", A("- ", "a: ", "[", "{a: ", "--- ", "? ", "- - ", "a\n--- "), A("'", "\"", "\"\\", "!<", "!%", "&", "*", "%", "@", "]", "}", ",", "|", ">", "\t", "`"), R(0, 2, S("a4x\n'\"")), param=lz, need=(1, 2, 3)))
        p = lz | 2
        pl = A("", "- ", "a: ", "[", "{a: ", "--- ", "? ", "[a, ", "a: b\nc: ", "a\n---\n")
        o.append(J("cut-dq" + z, "t_err", pl, '"', R(0, 3 + n, S("a \n:#'-,]")), param=p, need=(2,)))
        o.append(J("cut-sq" + z, "t_err", pl, "'", R(0, 3 + n, S("a \n:#\"-,]")), param=p, need=(2,)))
        o.append(J("cut-any" + z, "t_err", '"', R(0, 3 + n, A(S(bytes(c for c in range(128) if c not in b"\"\\")), C(2, 3, 4))), param=p, need=(2,)))
        o.append(J("cut-any1" + z, "t_err", "- '", R(0, 3 + n, A(S(bytes(c for c in range(128) if c != 39)), C(2, 3, 4))), param=p, need=(2,)))
        o.append(J("cut-esc" + z, "t_err", pl, '"a', A("\\", "\\x", "\\x4", "\\u", "\\u004", "\\U0000004", "\\n", "\\x41", "\\\\", '\\"', "\\ ", "\\\n"), param=p, need=(2,)))
        o.append(J("cut-long" + z, "t_err", pl, A("'", '"'), X(70, "a"), R(0, 1, X(1100, "b")), R(0, 2, S("a \n")), R(0, 1, X(40, "\n")), param=p, need=(2,)))
    return o


def nest(q):
    n = 0 if q else 1
    o = []
    for place in range(7):
        for lz in (0, 1):
            if q and lz != place % 2:
                continue
            z = "p%d%s" % (place, "-lazy" if lz else "")
            p = lz | place << 1
            for nm, t in (("block", (R(1, 5 + n, S("-:? \na")),)),
                          ("flow", (R(1, 4 + n, S("[]{},:a? \n")),)),
                          ("bscalar", (S("|>"), R(0, 1, S("+-")), "\n", R(0, 5 + n, S(" \na")))),
                          ("quoted", (S("'\""), R(0, 5 + n, S("\n a\\")), S("'\""))),
                          ("nodes", (R(1, 4 + n, S("&!a:- \n")),)),
                          ("any", (R(1, 2 + n, CH),)),
                          ("pieces", (R(1, 3 + n, A("- ", "a: ", "a:\n", "b: c\n", "- d\n", "  ", "[e]\n", "'f'", "|\n g\n", "? ", "\n")),))):
                o.append(J("%s-%s" % (nm, z), "t_nest", *t, param=p, need=(1, 2)))
    return o


# the same texts as the general oracles see, against the reference parser
RICH = {"C10": ("r-dq", "r-dqesc", "r-long", "r-wide"), "C11": ("r-sq", "r-long", "r-wide"), "C12": ("r-plain", "r-plainm", "r-long", "r-wide", "r-flow"), "C13": ("r-bhead", "r-bfold", "r-long", "r-trivia"),
        "C14": ("r-tag", "r-props", "r-dirs"), "C15": ("r-dirs", "r-docs", "r-tag"), "C16": ("r-props",), "C17": ("r-docs", "r-dirs", "r-plainm"),
        "C18": ("r-nest", "r-dedent", "r-deep", "r-props", "r-flowkey", "r-blank", "r-bfold"), "C19": ("r-flow", "r-flowkey", "r-deepf", "r-props", "r-plainm"), "C20": ("r-trivia", "r-blank", "r-bhead", "r-dirs"),
        "C21": ("r-flowkey", "r-long", "r-sq", "r-dq")}


def rich_ref(prop, q):
    o = []
    for i, j in enumerate(x for x in rich_text("t_ref", q) if x.name in RICH[prop]):
        for l in ((i + int(prop[1:])) % 2,) if q else (0, 1):
            o.append(J(j.name + ("-ref-lazy" if l else "-ref"), "t_ref", *j.t, param=l, need=(1,)))
    return o


MORE = {
    "C14": dict(jobs=tags),
    "C15": dict(jobs=directives),
    "C16": dict(jobs=anchors),
    "C17": dict(jobs=documents),
    "C18": dict(jobs=blocks),
    "C19": dict(jobs=flows),
    "C20": dict(jobs=trivia),
    "C21": dict(jobs=keylimit),
    "C22": dict(jobs=marks),
    "C23": dict(jobs=errors),
    "C25": dict(jobs=nest),
}


def _with_rich(f, p):
    return lambda q: f(q) + rich_ref(p, q)


for _p in MORE:
    if _p in RICH:
        MORE[_p]["jobs"] = _with_rich(MORE[_p]["jobs"], _p)
