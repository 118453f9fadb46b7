"""C04 - enumerators are numbered as in C and belong to their enum."""

import itertools

from checks.common import And, eq, parse

FUNCTIONS = [
    "CParser.process_all", "CParser.preprocess", "CParser.parse_defs", "CParser.build_parser",
    "CParser.process_enum", "CParser.eval_expr", "CParser.eval", "CParser.add_def",
    "CParser.process_typedef", "CParser.process_variable", "CParser.process_struct",
]
ASSUMPTIONS = [
    "explicit values are literals 0..1000, their negation, an earlier enumerator plus a literal, or a macro holding a literal",
    "text handling treats literals of one spelling alike whatever their digits",
]
OUTSIDE = "more enumerators than the bound; enumerator values given by other expressions (C03 decides those)"
REACH = ["implicit-after-explicit", "anonymous", "typedef", "unknown"]

KINDS = "ilnrmu"
FORMS = ["named", "anon", "typedef-anon", "typedef-named", "var", "member", "two-anon", "macro-line"]
STYLES = [("d",), ("x", "d"), ("oU", "xL")]


def _n(tier):
    return 4 if tier == "quick" else 5


def BOUNDS(tier):
    return "every pattern of <= %d enumerators over {implicit, literal, negated literal, earlier enumerator + literal, macro, not evaluable}, 8 declaration forms; all literal values symbolically" % _n(tier)


def cases(tier):
    out = []
    k = 0
    for n in range(1, _n(tier) + 1):
        for pat in itertools.product(KINDS, repeat=n):
            if pat[0] == "r":
                continue
            fs = range(len(FORMS)) if n <= 3 else [k % len(FORMS), (k * 3 + 1) % len(FORMS)]
            if n == 5:
                fs = fs[:1]
            for f in sorted(set(fs)):
                k += 1
                out.append(("".join(pat), FORMS[f], k % 3, (k // 3) % 2))
            k += 1
    return out


def members(x, pat, tag, style, prelude):
    """-> (source of the enumerator list, expected dict)"""
    exp, src, prev = {}, [], None
    nxt = 0
    for i, k in enumerate(pat):
        name = "%s%d" % (tag, i)
        st = style[i % len(style)]
        if k == "i":
            src.append(name)
            if i and pat[i - 1] != "i":
                x.reach("implicit-after-explicit")
        elif k == "u":
            src.append(name + " = elsewhere + 1")
            nxt = None
            x.reach("unknown")
        else:
            v = x.int("%sv%d" % (tag, i), 0, 1000)
            l = x.lit(v, st)
            if k == "l":
                src.append("%s = %s" % (name, l))
                nxt = v
            elif k == "n":
                src.append("%s = -%s" % (name, l))
                nxt = -v
            elif k == "m":
                prelude.append("#define M%s%d %s" % (tag, i, l))
                src.append("%s=M%s%d" % (name, tag, i))
                nxt = v
            elif k == "r":
                src.append("%s = %s%d + %s" % (name, tag, i // 2, l))
                e = exp["%s%d" % (tag, i // 2)]
                nxt = None if e is None else e + v
        exp[name] = nxt
        nxt = None if nxt is None else nxt + 1
    return src, exp


def harness(x, case):
    pat, form, style, trail = case
    prelude = []
    src, exp = members(x, pat, "E", STYLES[style], prelude)
    body = "{ " + ", ".join(src) + (", }" if trail else " }")
    if form == "macro-line":
        body = "{\n" + ",\n".join(src) + "\n}"
    others = []
    if form == "named":
        lines = ["enum N %s;" % body]
    elif form == "macro-line":
        lines = ["#define ENUMNAME N", "enum ENUMNAME %s;" % body]
    elif form == "anon":
        lines = ["enum %s;" % body]
    elif form == "typedef-anon":
        lines = ["typedef enum %s T;" % body]
        x.reach("typedef")
    elif form == "typedef-named":
        lines = ["typedef enum N %s T;" % body]
        x.reach("typedef")
    elif form == "var":
        lines = ["enum N %s v;" % body]
    elif form == "member":
        lines = ["struct s { enum N %s m; int k; };" % body]
    else:
        s2, e2 = members(x, "il", "F", STYLES[style], prelude)
        lines = ["enum %s;" % body, "enum { %s };" % ", ".join(s2)]
        others.append(e2)
    text = "\n".join(prelude + lines) + "\n"
    p = parse(text)
    enums, types, values = p.defs["enums"], p.defs["types"], p.defs["values"]
    named = form in ("named", "typedef-named", "var", "member", "macro-line")
    conj = []
    x.check(len(enums) == 1 + len(others), "number of enums recorded: %r\n%s" % (sorted(enums), text))
    if named:
        x.check("N" in enums, "enum N not recorded\n" + text)
        got = [("N", enums["N"], exp)]
    else:
        x.reach("anonymous")
        got = []
        for e in [exp, *others]:
            match = [n for n in enums if list(enums[n]) == list(e)]
            x.check(len(match) == 1, "enumerators %r not grouped in one enum\n%s" % (list(e), text))
            got.append((match[0], enums[match[0]], e))
    for n, g, e in got:
        x.check(list(g) == list(e), "enumerators of %s: %r, declared %r\n%s" % (n, list(g), list(e), text))
        x.check("enum " + n in types and tuple(types["enum " + n]) == ("enum", n), "type of enum not recorded\n" + text)
        for m in e:
            conj.append(eq(x.denonce(g[m]), e[m]))
            x.check(m in values, "enumerator %s has no value\n%s" % (m, text))
            conj.append(eq(x.denonce(values[m]), e[m]))
    n = got[0][0]
    ref = None
    if form.startswith("typedef"):
        ref = types.get("T")
    elif form == "var":
        ref = p.defs["variables"].get("v", (None, None))[1]
    elif form == "member":
        ref = dict((m[0], m[1]) for m in p.defs["structs"]["s"]["members"]).get("m")
    if form not in ("named", "anon", "two-anon", "macro-line"):
        x.check(ref is not None and tuple(ref) == ("enum " + n,), "declared name does not refer to the enum: %r\n%s" % (ref, text))
    x.check(And(*conj), "enumerator values differ from C in:\n" + text)
