"""C31 - what stands inside a function body is skipped, nothing else."""

from checks.canon import canon
from checks.texts import PRINTABLE, literal_end, one_of, run
from checks.texts import setup as text_setup

FUNCTIONS = [
    "CParser.process_all", "CParser.remove_comments", "CParser.preprocess", "CParser.parse_defs", "CParser.build_parser (function_decl, struct_member)",
    "CParser.process_function, process_variable", "pyparsing: nestedExpr, quotedString and the grammar (executed symbolically as well)",
]
ASSUMPTIONS = [
    "the body is symbolic: every character ranges over printable ASCII, tab and newline",
    "braces are balanced and literals terminated, each on its own line; no comments, directives, macros, \\x or line continuations",
]
OUTSIDE = "longer bodies; bodies of more than one function symbolic at a time"
REACH = ["read", "literal", "nested"]
FRAMES = [
    ("int f(int a) {", "}"), ("static inline char *f(void)\n{ if (a) { return", "; } }"), ("int f() { a = '", "'; }"), ('int f(int a) { char *b = "', '"; }'),
    ("unsigned int f(int a[3]) { b = {", "}; }"), ("extern struct s *f(struct s *a) { /* { */ return a; }  int b", ";"),
]
SPLIT = ["{", "}", "\"'", "\\", ";", "\n"]
N = {"quick": 3, "thorough": 5}


def setup(symbolic):
    text_setup(symbolic)


def BOUNDS(tier):
    return "every text of up to %d characters (%d in the first) in %d function bodies, with declarations before and after; all characters symbolic" % (N[tier], N[tier] + 1, len(FRAMES) - 1)


def cases(tier):
    out = []
    for f in range(len(FRAMES) - 1):
        for n in range(N[tier] + (2 if f == 0 else 1)):
            out += [(f, n, g) for g in (SPLIT + ["".join(c for c in PRINTABLE if c not in "".join(SPLIT))] if n > 1 else [""])]
    return out


def body(x, s, start, end):
    """Assume a balanced text; the braces and literals of s from start."""
    i, depth = start, 1
    while i < end:
        c = s[i]
        if one_of(c, "\"'"):
            i = literal_end(x, s, i)
            x.reach("literal")
            continue
        x.assume(not one_of(c, "#\\"))
        if one_of(c, "/") and i + 1 < end:
            x.assume(not one_of(s[i + 1], "/*"))
        if one_of(c, "{"):
            depth += 1
            x.reach("nested")
        elif one_of(c, "}"):
            depth -= 1
            x.assume(depth > 0 or i == end - 1)
        i += 1
    x.assume(depth == 0 and i == end)


_plain = {}


def harness(x, case):
    f, n, g = case
    a, b = FRAMES[f]
    s = x.str("body", n, PRINTABLE)
    if g:
        x.assume(one_of(s[0], g))
    before, after = "typedef int t;\nint v = 3;\n", "\nint w[2];\nint z(int q);\n"
    if f not in _plain:
        p, _ = run(x, [before + a.split("{")[0] + "{}" + after], skip=())
        _plain[f] = canon(p.defs)
    text = a + s + b
    body(x, text, a.index("{") + 1, len(text))
    p, _ = run(x, [before + text + after], skip=())
    x.reach("read")
    got = canon(p.defs)
    x.check(got == _plain[f], "with %r %r is recorded instead of %r" % (text, got, _plain[f]))
