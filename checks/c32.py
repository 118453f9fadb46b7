"""C32 - string constants have the text C gives them."""

from checks.texts import BLANK, PRINTABLE, joined, one_of, run
from checks.texts import setup as text_setup

FUNCTIONS = [
    "CParser.process_all", "CParser.remove_comments", "CParser.preprocess", "CParser.process_macro_defn", "CParser.parse_defs", "CParser.build_parser (expression, variable_decl)",
    "CParser.process_variable, eval_expr, eval", "pyparsing (executed symbolically as well)",
]
ASSUMPTIONS = [
    "the text of the literals is symbolic: every character ranges over printable ASCII; Python's eval is modelled by symx/symeval.py",
    "literals are terminated; escapes are the simple ones (\\\\ \\\" \\' \\n \\t \\a \\b \\f \\r \\v); three quotes never stand side by side",
]
OUTSIDE = "longer texts; octal, hexadecimal and universal escapes; prefixes (L, u8); character constants; the length a char array gives to its initialiser"
REACH = ["macro", "variable", "list", "escape", "adjacent"]
FRAMES = [('"', '"'), ('"M', '"'), ('"0x1', '"'), ('"a', 'M"'), ('"/', '/"'), ('"a" "', '"'), ('"', '" "1u"'), ('"\\', '\\\\"'), ('"(', 'u)"')]
PLACES = {"macro": "#define S %s\n", "variable": "char *S = %s;\n", "list": "const char *S[2] = {%s, \"z\"};\n", "used macro": "#define T %s\nchar *S = T;\n"}
ESCAPES = {"\\": "\\", "'": "'", '"': '"', "a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}
SPLIT = ["\\", '"', "'", " ", "0123456789", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"]
N = {"quick": 3, "thorough": 4}


def setup(symbolic):
    text_setup(symbolic)


ALPHA = PRINTABLE.replace("\n", "").replace("\t", "")


def BOUNDS(tier):
    return "every text of up to %d characters (%d in the first) in %d literals, in %d places; all characters symbolic" % (N[tier], N[tier] + 1, len(FRAMES), len(PLACES))


def cases(tier):
    out = []
    for place in PLACES:
        for f in range(len(FRAMES)):
            for n in range(N[tier] + (2 if f == 0 else 1)):
                out += [(place, f, n, g) for g in (SPLIT + ["".join(c for c in ALPHA if c not in "".join(SPLIT))] if n > 1 else [""])]
    return out


def value(x, s):
    """C's value of adjacent string literals."""
    out, i, count = [], 0, 0
    while i < len(s):
        if one_of(s[i], BLANK):
            i += 1
            continue
        x.assume(one_of(s[i], '"'))
        x.assume(not (i + 2 < len(s) and one_of(s[i + 1], '"') and one_of(s[i + 2], '"')))
        i += 1
        count += 1
        while True:
            x.assume(i < len(s))
            if one_of(s[i], '"'):
                break
            if one_of(s[i], "\\"):
                x.assume(i + 1 < len(s) and one_of(s[i + 1], "".join(ESCAPES)))
                out.append([v for e, v in ESCAPES.items() if one_of(s[i + 1], e)][0])
                x.reach("escape")
                i += 2
            else:
                out.append(s[i])
                i += 1
        i += 1
        x.assume(not (i + 1 < len(s) and one_of(s[i], '"') and one_of(s[i + 1], '"')))
    x.assume(count > 0)
    if count > 1:
        x.reach("adjacent")
    return joined(out)


def harness(x, case):
    place, f, n, g = case
    a, b = FRAMES[f]
    s = x.str("text", n, ALPHA)
    if g:
        x.assume(one_of(s[0], g))
    lit = a + s + b
    want = value(x, lit)
    u, v = PLACES[place].split("%s")
    text = "#define M 7\n" + u + lit + v + "int after;\n"
    p, _ = run(x, [text], skip=())
    got = p.defs["values"].get("S")
    x.reach(place.split()[-1])
    if place == "list":
        x.check(isinstance(got, list) and len(got) == 2 and got[1] == "z", "%r gives %r" % (text, got))
        got = got[0]
    x.check(got is not None and same(got, want), "%r gives %r instead of %r" % (text, got, want))
    if place != "macro":
        x.check("after" in p.defs["variables"], "%r hides what follows" % (text,))


def same(a, b):
    return not isinstance(a, (int, list)) and len(a) == len(b) and a == b
