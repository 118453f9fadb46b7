"""C06 - a function-like macro call becomes the body with its arguments put in."""

from checks.texts import PRINTABLE, WORD, expand, one_of, pick, plain, run, same, strip
from checks.texts import setup as text_setup

FUNCTIONS = [
    "CParser.process_all", "CParser.preprocess", "CParser.process_macro_defn", "CParser.compile_fn_macro", "CParser.expand_macros",
    "CParser.expand_fn_macro", "split_macro_args", "escape_braces", "pyparsing: the macro definition grammar (executed symbolically as well)",
]
ASSUMPTIONS = [
    "the text of the call, the body, or the parameter names are symbolic: every character ranges over printable ASCII and tab (parameter names: over letters, digits and _)",
    "literals and parentheses are balanced, the call is on one line, with as many arguments as parameters",
]
OUTSIDE = (
    "texts longer than the bound; # and ##; macros without parameters; names of function-like macros without arguments inside arguments or bodies; "
    "parameters named like a macro; tokens formed by joining an operator of the line with one of a replacement"
)
REACH = ["literal", "object", "function", "bare", "body", "params", "nested"]
ALPHA = "".join(c for c in PRINTABLE if c != "\n")


def setup(symbolic):
    text_setup(symbolic)


def BOUNDS(tier):
    return "every text of up to %d characters (one less in %d of them) in each of %d surroundings of calls of four macros; every body of up to %d characters (one less in %d other definitions); every pair of parameter names of up to %d characters (letters, digits, _) with every word of up to %d characters in the body" % (
        N[tier], len(FRAMES) - len(DEEP[tier]), len(FRAMES), N[tier], len(BODIES) - 1, P[tier], P[tier] + 1,
    )


N = {"quick": 4, "thorough": 5}
P = {"quick": 3, "thorough": 4}
DEEP = {"quick": (0, 1, 4, 5, 7), "thorough": range(11)}
FN = {"F": (["a", "b"], "(a*b)"), "G": (["x"], 'x "x" {x} 7'), "K": (["p1", "p"], "p+p1 - p1p")}
DEFS = '#define A 7\n#define F(a, b) (a*b)\n#define G(x) x "x" {x} A\n#define H F\n#define K(p1,p) p+p1 - p1p\n'
FRAMES = [
    ("F(", ")"), ("x F", ";"), ("G(", ")"), ("F((", ",2),3)"), ('K("', '", A)'), ("F(1, G(", "))"), ("H(", ", 2)"), ("", "F(1,A)"),
    ("G(F(1,", ")) "), ("F (", ",'\\'')"), ("K(1,2)", "(3)"),
]
# definition up to the body, what follows it, parameters, the line, its arguments
BODIES = [
    ("#define T(a, b) ", "", ["a", "b"], "T(1, q)"), ("#define T(a) ", " a", ["a"], "T(A a)"), ('#define T(a,b1)\t', '"a"', ["a", "b1"], "x T((1,2), ',') y"),
    ("#define T(a, b) {", "}", ["a", "b"], 'T("}", {})'),
]
SPLIT = ["\"", "'", " \t", "(", ")", ",", "A", "{}", "F", "GHK", "0123456789", "".join(c for c in WORD if c not in "AFGHK0123456789"),
         "".join(c for c in ALPHA if c not in WORD + "\"'(),{} \t")]


def cases(tier):
    out = []
    for f in range(len(FRAMES)):
        for n in range(N[tier] + (1 if f in DEEP[tier] else 0)):
            out += [("call", f, n, g) for g in (SPLIT if n > 1 else [""])]
    for f in range(len(BODIES)):
        for n in range(N[tier] + (1 if f == 0 else 0)):
            out += [("body", f, n, g) for g in (SPLIT if n > 1 else [""])]
    for n in range(1, P[tier] + 1):
        for m in range(1, P[tier] + 1):
            for k in range(1, P[tier] + 2):
                out.append(("params", n, m, k))
    return out


def harness(x, case):
    kind, f, n, g = case
    obj = {"A": "7"}
    fn = dict(FN, H=FN["F"])
    skip = ("parse_defs", "eval_expr")
    depth = [0]

    def hook(what):
        x.reach(what)
        if what == "function":
            depth[0] += 1

    if kind == "call":
        a, b = FRAMES[f]
        s = x.str("text", n, ALPHA)
        if g:
            x.assume(one_of(s[0], g))
        line = a + s + b
        plain(x, line)
        want = expand(x, line, obj, fn, hook, bare_args=False)
        if depth[0] > 1:
            x.reach("nested")
        _, (got,) = run(x, [DEFS + line + "\n"], skip=skip)
        x.check(same(x, got, "\n" * 5 + want + "\n"), "the line %r becomes %r, C gives %r" % (line, got, want))
    elif kind == "body":
        a, b, params, use = BODIES[f]
        s = x.str("body", n, ALPHA.replace("\t", ""))
        if g:
            x.assume(one_of(s[0], g))
        head = a.rindex(")") + 1
        body = a[head:] + s + b
        plain(x, body)
        body = strip(body)
        full = expand(x, body, obj, fn, hook, bare_args=False, bare=False)
        fn["T"] = (params, full)
        want = expand(x, use, obj, fn, hook)
        x.reach("body")
        _, (got,) = run(x, [DEFS + a + s + b + "\n" + use + "\n"], skip=skip)
        x.check(same(x, got, "\n" * 6 + want + "\n"), "with %r the line %r becomes %r, C gives %r" % (a + s + b, use, got, want))
    else:
        p, q = x.str("p", f, WORD), x.str("q", n, WORD)
        w = x.str("w", g, WORD)
        x.assume(not one_of(p[0], "0123456789"))
        x.assume(not one_of(q[0], "0123456789"))
        for t in (p, q, w):
            x.assume(pick(t, ["T", "A", "F", "G", "H", "K"]) is None)
        x.assume(not (f == n and bool(p == q)))
        body = w + "-" + p + q + "+" + q

        def put(t):
            k = pick(t, [p, q])
            return t if k is None else "(8)" if k is p else "[9]"

        want = "{" + put(w) + "-" + put(p + q) + "+[9]}"
        x.reach("params")
        text = "#define T(" + p + ", " + q + ") {" + body + "}\nT((8), [9])\n"
        _, (got,) = run(x, [text], skip=skip)
        x.check(same(x, got, "\n" + want + "\n"), "%r becomes %r, C gives %r" % (text, got, want))
