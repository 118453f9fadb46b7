"""C05 - object-like macros are replaced as whole words outside literals."""

from checks.texts import PRINTABLE, WORD, expand, keep_keys, one_of, plain, run, same, strip
from checks.texts import setup as text_setup

FUNCTIONS = [
    "CParser.process_all", "CParser.preprocess", "CParser.process_macro_defn", "CParser.expand_macros", "CParser.rem_def",
    "pyparsing: the macro definition grammar (executed symbolically as well)",
]
ASSUMPTIONS = [
    "the line, the replacement text, or the names are symbolic: every character ranges over printable ASCII and tab (names: over letters, digits and _)",
    "literals are terminated and hold no \\x; no comment, directive, or continuation in the symbolic part",
    "replacements mention macros defined before them",
]
OUTSIDE = "texts longer than the bound; numbers such as 1.A or 1e+A; tokens formed by joining an operator of the line with one of a replacement; # and ##"
REACH = ["literal", "object", "body", "name", "undef", "redefined"]
ALPHA = "".join(c for c in PRINTABLE if c != "\n")


def setup(symbolic):
    text_setup(symbolic)


def BOUNDS(tier):
    return "every line of up to %d characters (up to %d in each of %d fixed surroundings) with four macros defined; every replacement text of up to %d characters; every macro name and undefined name of up to 3 characters, every word of up to 4 characters" % (
        N[tier], N[tier] - 1, len(FRAMES) - 1, N[tier] - 1,
    )


N = {"quick": 5, "thorough": 6}
MACROS = [("A", "7"), ("AB", "(A + 1)"), ("_c", ""), ("S2", '"A//" \'A\'')]
FRAMES = [
    ("", ""), ('s = "', '" A;'), ("'", "' AB"), ("x A", "B"), ("AB ", " _c"), ("A", " = A;"), ('"\\"" A "', "A"),
]
SPLIT = ["\"", "'", " \t", "A", "_", "0123456789", "S", "BC" + "".join(c for c in WORD if c not in "ABCS_0123456789"),
         "".join(c for c in ALPHA if c not in WORD + "\"' \t")]


def cases(tier):
    out = []
    for f in range(len(FRAMES)):
        for n in range(N[tier] + (1 if f == 0 else 0)):
            out += [("line", f, n, g) for g in (SPLIT if n > 1 else [""])]
    for f in range(len(BODY)):
        for n in range(N[tier]):
            out += [("body", f, n, g) for g in (SPLIT if n > 1 else [""])]
    for n in (1, 2, 3):
        for m in (1, 2, 3, 4):
            out.append(("name", 0, n, m))
            out.append(("undef", 0, n, m))
            out.append(("redef", 0, n, m))
    return out


# what precedes the name, the body, and the line the macro is used in
BODY = [("#define N ", "", "p N q"), ("#  define N\t", " A", "N;N"), ("#define N ", "", 'NN "N" N')]


def table(x):
    t = {}
    for k, v in MACROS:
        t[k] = strip(expand(x, v, t, {}))
    return t


def word(x, name, n):
    w = x.str(name, n, WORD)
    x.assume(not one_of(w[0], "0123456789"))
    return w


def harness(x, case):
    kind, f, n, g = case
    keep_keys(x.symbolic)
    defs = "".join("#define %s %s\n" % m for m in MACROS)
    obj = table(x)
    skip = ("parse_defs", "eval_expr")
    if kind == "line":
        a, b = FRAMES[f]
        s = x.str("line", n, ALPHA)
        if g:
            x.assume(one_of(s[0], g))
        line = a + s + b
        plain(x, line)
        want = expand(x, line, obj, {}, x.reach)
        _, (got,) = run(x, [defs + line + "\n"], skip=skip)
        x.check(same(x, got, "\n" * len(MACROS) + want + "\n"), "the line %r becomes %r, C gives %r" % (line, got, want))
    elif kind == "body":
        a, b, use = BODY[f]
        s = x.str("body", n, ALPHA.replace("\t", ""))
        if g:
            x.assume(one_of(s[0], g))
        body = s + b
        plain(x, body)
        obj["N"] = strip(expand(x, strip(body), {k: v for k, v in obj.items()}, {}))
        want = expand(x, use, obj, {}, x.reach)
        _, (got,) = run(x, [defs + a + body + "\n" + use + "\n"], skip=skip)
        x.reach("body")
        x.check(same(x, got, "\n" * (len(MACROS) + 1) + want + "\n"), "with %r the line %r becomes %r, C gives %r" % (a + body, use, got, want))
    else:
        w = word(x, "name", n)
        v = word(x, "word", g)
        if kind == "name":
            text = "#define " + w + " 7\n" + "5+" + v + ";\n"
            obj, pre = {}, "\n"
            line = "5+" + v + ";"
            hit = len(v) == len(w) and bool(v == w)
            want = "5+7;" if hit else line
            if hit:
                x.reach("name")
        elif kind == "undef":
            text = "#define A 3\n#define AB 4\n#undef " + w + "\n" + "5 " + v + "\n"
            pre = "\n\n\n"
            obj = {"A": "3", "AB": "4"}
            for k in list(obj):
                if len(k) == n and bool(w == k):
                    del obj[k]
                    x.reach("undef")
            want = expand(x, "5 " + v, obj, {})
        else:
            text = "#define A 3\n#define AB A\n#define " + w + " 5\n" + "5 " + v + "\n"
            pre = "\n\n\n"
            obj = {"A": "3", "AB": "3"}
            rest = []
            for k in ("A", "AB"):
                if len(k) == n and bool(w == k):
                    obj[k] = "5"
                    x.reach("redefined")
                    break
            else:
                rest = [w]
            # C looks A up when AB is used: outside
            x.assume(not (n == 1 and bool(w == "A") and g == 2 and bool(v == "AB")))
            if rest and len(v) == n and bool(v == w):
                want = "5 5"
            else:
                want = expand(x, "5 " + v, obj, {})
        _, (got,) = run(x, [text], skip=skip)
        x.check(same(x, got, pre + want + "\n"), "%r becomes %r, C gives %r" % (text, got, want))
