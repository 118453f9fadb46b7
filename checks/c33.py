"""C33 - macros exist under exactly their name, from #define to #undef."""

from checks.texts import BLANK, WORD, arguments, expand, keep_keys, one_of, pick, plain, run, same, strip, word_end
from checks.texts import setup as text_setup

FUNCTIONS = [
    "CParser.process_all", "CParser.preprocess (directives)", "CParser.eval_preprocessor_expr", "CParser.process_macro_defn", "CParser.compile_fn_macro",
    "CParser.expand_macros", "CParser.rem_def, add_def", "pyparsing: the operator defined, the macro definition grammar (executed symbolically as well)",
]
ASSUMPTIONS = [
    "two names are symbolic, the same or not: their characters range over letters, digits and _; or the text after the name in a definition is: printable ASCII",
    "no macro is called defined; parameters are different identifiers; no literals, comments or directives in the text of definitions",
]
OUTSIDE = "longer names; names with $; more than two macros at a time; macros without parameters"
REACH = ["same", "different", "object", "function", "params"]
STEMS = ["", "M", "define", "defined", "i", "if"]
FIRST = "".join(c for c in WORD if not c.isdigit())
ALPHA = "".join(chr(c) for c in range(32, 127) if chr(c) not in "\"'#\\/")
N = {"quick": 3, "thorough": 5}
IF = "\n11\n#else\n22\n#endif\n"
ELIF = "#if 0\n33\n#elif %s" + IF
# text with the names, what is left of it when the names are the same and when not
TEXTS = {
    "ifdef": ("#define <a> 7\n#ifdef <b>" + IF, "11", "22"),
    "ifndef": ("#define <a> 7\n# ifndef\t<b>" + IF, "22", "11"),
    "defined": ("#define <a> 0\n#if defined <b>" + IF, "11", "22"),
    "defined()": ("#define <a> 0\n#if defined(<b>)" + IF, "11", "22"),
    "not defined": ("#define <a> 7\n#if !defined ( <b> )" + IF, "22", "11"),
    "both defined": ("#define <a> 7\n#if defined <a>&&defined <b>" + IF, "11", "22"),
    "value": ("#define <a> 7\n#if <b>" + IF, "11", "22"),
    "value of 0": ("#define <a> 0\n#if <b>==0" + IF, "11", "11"),
    "elif": ("#define <a> 7\n" + ELIF % "<b>", "11", "22"),
    "elif defined": ("#define <a> 7\n" + ELIF % "defined(<b>)", "11", "22"),
    "elif value": ("#define <a> 7\n" + ELIF % "(1+<b>)*2 == 16", "11", "22"),
    "undef": ("#define <a> 7\n#undef <b>\n<a>;", "<a>;", "7;"),
    "undef, ifdef": ("#define <a> 7\n# undef <b> \n#ifdef <a>" + IF, "22", "11"),
    "empty": ("#define <a>\n#ifdef <b>" + IF, "11", "22"),
    "empty in code": ("#define <a>\n-<b>-", "--", "-<b>-"),
    "function": ("#define <a>(p) [p]\n#ifdef <b>" + IF, "11", "22"),
    "function, defined": ("#define <a>(p) [p]\n#if defined <b>" + IF, "11", "22"),
    "function undefined": ("#define <a>(p) [p]\n#undef <b>\n<a>(1);", "<a>(1);", "[1];"),
    "function called": ("#define <a>(p) [p]\n<b> (1);", "[1];", "<b>(1);"),
    "function not called": ("#define <a>(p) [p]\n<b>;", "<b>;", "<b>;"),
    "object with parentheses": ("#define <a> (5)\n<b>(1);", "(5)(1);", "<b>(1);"),
    "defined again": ("#define <a> 7\n#undef <a>\n#define <b> 8\n<a> <b>;", "8 8;", "<a> 8;"),
    "two": ("#define <a> 7\n#define <b> 8\n<b>,<a>;", None, "8,7;"),
    "becomes a function": ("#define <a> 7\n#undef <a>\n#define <b>(p) [p]\n<b>(2) <a>;", "[2] <a>;", "[2] <a>;"),
    "becomes an object": ("#define <a>(p) [p]\n#undef <a>\n#define <b> 8\n<b>(2) <a>(1);", "8(2) 8(1);", "8(2) <a>(1);"),
    "dropped": ("#if 0\n#define <a> 7\n#endif\n#ifdef <b>" + IF + "<a>;", "22 <a>;", "22 <a>;"),
    "not undefined": ("#define <a> 7\n#if 0\n#undef <a>\n#endif\n<b>;", "7;", "<b>;"),
    "through another": ("#define <a> 7\n#define Z_ <b>\nZ_;", "7;", "<b>;"),
    "function through another": ("#define <a>(p) [p]\n#define Z_ <b>\nZ_(1);", "[1];", "<b>(1);"),
    "argument": ("#define <a> 7\n#define Z_(p) [p]\nZ_(<b>);", "[7];", "[<b>];"),
    "parameter": ("#define <a> 7\n#define Z_(<b>) [<b>]\nZ_(1);", None, "[1];"),
}
# definition of T up to the text, what follows the text
FRAMES = [("#define T", "\n"), ("#define T(", ") [a]\n"), ("#define T(a", "b) a-b\n"), ("#\tdefine  T( a", "a) a\n"), ("#define T(a,b)", "b-a\n"), ("#define T ", "(a) a\n")]
SPLIT = [" ", "(", ")", ",", FIRST, "0123456789", "".join(c for c in ALPHA if c not in WORD + " (),")]


def setup(symbolic):
    text_setup(symbolic)


def BOUNDS(tier):
    return "%d arrangements of directives with two names of up to %d symbolic characters after one of %d stems each; %d definitions with every text of up to %d characters" % (
        len(TEXTS), N[tier], len(STEMS), len(FRAMES), N[tier] + 1)


def cases(tier):
    out = []
    for t in TEXTS:
        for st in range(len(STEMS)):
            for n in range(N[tier] + 1):
                for other in {0, st} if tier == "quick" else range(len(STEMS)):
                    for m in range(N[tier] + 1):
                        if (n or STEMS[st]) and (m or STEMS[other]):
                            out.append((t, st, n, other, m))
    for f in range(len(FRAMES)):
        for n in range(N[tier] + 2):
            out += [("text", f, n, g) for g in (SPLIT if n > 1 else [""])]
    return out


def name(x, k, st, n):
    s = STEMS[st] + x.str(k, n, WORD) if n else STEMS[st]
    x.assume(one_of(s[0], FIRST))
    for w in ("defined", "p", "Z_"):
        if len(w) == len(s):
            x.assume(not bool(s == w))
    return s


def put(text, a, b):
    out = ""
    for i, part in enumerate(text.split("<")):
        out = out + ((a if part[0] == "a" else b) + part[2:] if i else part)
    return out


def lines(s):
    """The text without empty lines."""
    out, line = "", ""
    for i in range(len(s)):
        if one_of(s[i], "\n "):
            line = line + " " if len(line) else line
        else:
            line = line + s[i]
    return strip(line)


def harness(x, case):
    keep_keys(x.symbolic)
    if case[0] == "text":
        return definition(x, *case[1:])
    t, st, n, other, m = case
    a, b = name(x, "a", st, n), name(x, "b", other, m)
    text, eq, ne = TEXTS[t]
    equal = len(a) == len(b) and bool(a == b)
    want = eq if equal else ne
    x.assume(want is not None)
    x.reach("same" if equal else "different")
    text, want = put(text, a, b), put(want, a, b)
    _, (got,) = run(x, [text + "\n"], skip=("parse_defs", "eval_expr"))
    x.check(same(x, lines(got), want), "%r is read as %r, C reads %r" % (text, got, want))


def definition(x, f, n, g):
    a, b = FRAMES[f]
    s = x.str("text", n, ALPHA)
    if g:
        x.assume(one_of(s[0], g))
    plain(x, s)
    head = a.index("T") + 1
    rest = a[head:] + s + b[:-1]
    text = a + s + b
    plain(x, rest)
    if len(rest) and one_of(rest[0], "("):
        params, end = arguments(x, rest, 0)
        params = [strip(p) for p in params]
        for i, p in enumerate(params):
            x.assume(len(p) > 0 and one_of(p[0], FIRST) and word_end(p, 0) == len(p))
            x.assume(pick(p, ["T", "A"]) is None)
            for q in params[:i]:
                x.assume(not (len(p) == len(q) and bool(p == q)))
        body = strip(rest[end:])
        x.reach("function")
        if len(params) > 1:
            x.reach("params")
        x.assume(len(params) < 4)
        use = "T(%s)" % ",".join("123"[: len(params)])
    else:
        x.assume(len(rest) == 0 or one_of(rest[0], BLANK))
        params, body, use = None, strip(rest), "T(1)"
        x.reach("object")
    no_own_name(x, body)
    # macros in bodies are replaced where they are defined (C05, C06)
    body = expand(x, body, {"A": "7"}, {})
    want = expand(x, use, {"T": body} if params is None else {}, {"T": (params, body)} if params else {})
    _, (got,) = run(x, ["#define A 7\n" + text + use + "\n"], skip=("parse_defs", "eval_expr"))
    x.check(same(x, lines(got), want), "with %r %s is read as %r, C reads %r" % (text, use, got, want))


def no_own_name(x, s):
    i = 0
    while i < len(s):
        if one_of(s[i], WORD):
            j = word_end(s, i)
            x.assume(not (j == i + 1 and one_of(s[i], "T")))
            i = j
        else:
            i += 1
