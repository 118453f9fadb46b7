"""C02 - a #if / #elif expression is true exactly when C says so."""

from checks.common import Iff, parse, truth
from checks.exprs import ARITH, REL, Env, build

FUNCTIONS = [
    "CParser.process_all", "CParser.preprocess", "CParser.eval_preprocessor_expr",
    "CParser.expand_macros", "CParser.process_macro_defn", "CParser.eval_expr",
]
ASSUMPTIONS = [
    "literals range over 0..1000 (shift amounts 0..8, divisors 1..15); every sub-result fits in 64 bits",
    "text handling treats literals of one spelling alike whatever their digits (each is represented by a distinct literal of that spelling while the text is processed)",
    "the expression stays inside the operator set and parenthesisation of the statement",
]
OUTSIDE = "character literals, ?:, comma; / and % with a negative operand or a zero divisor; ! directly followed by an arithmetic or comparison operator; logical results used as numbers"
REACH = ["true", "false"]

STYLES = [
    ("d",), ("x", "d"), ("dL", "xU", "d"), ("dUL", "X"), ("dLL", "dU", "xUL"), ("du", "dl", "xul"),
    ("o", "d", "oUL"),
]
LIT, MAC, UND = ("lit",), ("mac",), ("und",)


def BOUNDS(tier):
    return "every template in checks/c02.py:templates(%s): <= %d operators, 7 groups of literal spellings, all literal values in range symbolically" % (
        tier, 3 if tier == "quick" else 4,
    )


def rels():
    return [("rel", r, LIT, LIT) for r in REL] + [("rel", r, MAC, LIT) for r in REL]


def templates(tier):
    out = []
    atoms = [LIT, MAC, UND] + [("def", i, j) for i in range(3) for j in range(5)]
    out += atoms
    out += [("not", a) for a in atoms]
    out += [("rel", r, a, b) for r in REL for a in (LIT, MAC, UND) for b in (LIT, MAC)]
    ar = [("ar", o, LIT, MAC) for o in ARITH] + [("neg", LIT), ("inv", MAC)]
    out += ar
    out += [("rel", r, a, LIT) for r in REL for a in ar]
    out += [("rel", r, MAC, a) for r in ("==", "!=", "<") for a in ar]
    out += [("not", ("rel", r, MAC, LIT)) for r in REL]
    ops2 = [LIT, ("def", 0), ("def", 1, 2), ("not", ("def", 1)), ("not", MAC)] + [("rel", r, MAC, LIT) for r in REL]
    for k in ("and", "or"):
        out += [(k, a, b) for a in ops2 for b in ops2]
    small = [MAC, ("def", 1), ("not", ("def", 0)), ("rel", "!=", MAC, LIT), ("rel", ">=", LIT, MAC)]
    for k1 in ("and", "or"):
        for k2 in ("and", "or"):
            for a in small:
                for b in small[1:4]:
                    for c in small[2:]:
                        out.append((k1, (k2, a, b), c))
                        if tier == "thorough":
                            out.append((k1, a, (k2, b, c)))
                            out.append((k1, ("not", (k2, a, b)), c))
    for k in ("div", "mod"):
        out += [(k, LIT), (k, MAC), ("not", (k, LIT))]
        out += [("rel", r, (k, MAC), LIT) for r in REL]
        out += [("rel", "==", ("ar", o, (k, LIT), MAC), LIT) for o in ("+", "-", "*")]
    ar2 = [("ar", o, ("ar", p, LIT, MAC), LIT) for o in ARITH for p in ARITH if o not in ("<<", ">>")]
    if tier == "thorough":
        ar2 += [("ar", o, MAC, ("ar", p, LIT, MAC)) for o in ARITH[:6] for p in ARITH]
    out += [("rel", REL[i % 6], a, MAC) for i, a in enumerate(ar2)]
    return out


def cases(tier):
    ts = templates(tier)
    out = []
    nst = 2 if tier == "quick" else len(STYLES)
    for i, t in enumerate(ts):
        simple = len(repr(t)) < 60
        for j in range(len(STYLES) if simple else nst):
            out.append((t, (i + j) % len(STYLES), (i + j) % 2, (i // 2) % 2))
    return out


def harness(x, case):
    t, style, spaces, elif_ = case
    env = Env(x, STYLES[style], spaces=bool(spaces))
    text, val = build(env, t)
    lines = list(env.prelude)
    if elif_:
        lines += ["#if 0", "int never;", "#elif " + text, "int yes;", "#else", "int no;", "#endif"]
    else:
        lines += ["#if " + text, "int yes;", "#else", "int no;", "#endif"]
    p = parse("\n".join(lines) + "\n")
    vs = p.defs["variables"]
    x.reach("true" if "yes" in vs else "false")
    x.check(("yes" in vs) != ("no" in vs) and "never" not in vs, "not exactly one group kept: #if " + text)
    x.check(Iff("yes" in vs, truth(val)), "#if %s evaluated differently from C\n%s" % (text, "\n".join(lines)))
