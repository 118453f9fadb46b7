"""C03 - constants have the value C gives them, wherever they appear."""

from checks.common import And, eq, parse
from checks.exprs import ARITH, Env, build

FUNCTIONS = [
    "CParser.process_all", "CParser.preprocess", "CParser.process_macro_defn",
    "CParser.expand_macros", "CParser.eval_expr", "CParser.eval",
    "CParser.process_variable", "CParser.process_declarator", "CParser.process_typedef",
    "CParser.process_struct", "CParser.parse_defs",
]
ASSUMPTIONS = [
    "literals range over 0..1000 (shift amounts 0..8); every sub-result fits in 64 bits",
    "text handling treats literals of one spelling alike whatever their digits (each is represented by a distinct literal of that spelling while the text is processed)",
]
OUTSIDE = "casts to built-in types outside macros; parenthesised lone identifiers; macros whose body mentions enum constants or variables; division, %, comparison and logical operators, ?:, sizeof, character and floating literals, results beyond 64 bits, values of redefined macros"
REACH = ["macro", "var", "size", "list", "member", "param", "tsize", "chain", "plist", "several"]

STYLES = [
    ("d",), ("x", "d"), ("dL", "xU", "d"), ("dUL", "X"), ("dLL", "dU", "xUL"), ("du", "dl", "xul"),
    ("o", "x", "oU"),
]
# every integer suffix of C
U, L = ("u", "U"), ("l", "L", "ll", "LL")
SUFFIXES = U + L + tuple(u + l for u in U for l in L) + tuple(l + u for u in U for l in L)
SIMPLE = len(STYLES)
STYLES += [(b + s,) for i, s in enumerate(SUFFIXES) for b in "do" + "xX"[i % 2]]
LIT, MAC, ENU, CST = ("lit",), ("mac",), ("enu",), ("cst",)
CONTEXTS = ["macro", "var", "size", "list", "member", "param", "tsize", "chain", "plist", "several"]
CASTS = ["int", "unsigned int", "unsigned long", "long long", "uint8_t", "size_t", "DWORD_t"]


def BOUNDS(tier):
    return "templates of <= %d operators over literals in 7 spelling groups and, alone, with every suffix, macros, enum constants and initialised variables, in 10 contexts; every literal value in range symbolically" % (
        2 if tier == "quick" else 3,
    )


def templates(tier):
    atoms = [LIT, MAC, ENU, CST]
    out = list(atoms)
    out += [("neg", a) for a in atoms] + [("inv", a) for a in atoms]
    out += [("ar", o, a, b) for o in ARITH for a in atoms for b in (LIT, MAC, ENU)]
    for o in ARITH:
        for p in ARITH:
            if {o, p} <= {"<<", ">>"}:
                continue
            out.append(("flat", o, p, LIT, MAC, LIT))
            out.append(("ar", o, ("ar", p, MAC, LIT), ENU) if o not in ("<<", ">>") else ("ar", p, ENU, ("ar", "+", LIT, LIT)) if p not in ("<<", ">>") else ("ar", o, ("ar", p, MAC, LIT), LIT))
    if tier == "thorough":
        for o in ARITH[:6]:
            for p in ARITH[:6]:
                for q in ARITH[:6]:
                    out.append(("flat", o, p, ("ar", q, MAC, LIT), ENU, CST))
                    out.append(("ar", o, ("neg", ("ar", p, LIT, MAC)), ("inv", ("ar", q, LIT, LIT))))
    for i, c in enumerate(CASTS):
        out.append(("cast", c, LIT))
        out.append(("ar", ARITH[i], ("cast", c, MAC), LIT))
    return out


def cases(tier):
    out = []
    for i, t in enumerate(templates(tier)):
        simple = len(repr(t)) < 32
        if tier == "thorough" or simple:
            cs = range(len(CONTEXTS))
        else:
            cs = [(i + 4 * j) % len(CONTEXTS) for j in range(5)]
        for j in cs:
            out.append((t, (i + j) % SIMPLE, (i + j) % 2, CONTEXTS[j]))
    for t in (LIT, MAC, ENU, CST):
        for c in CONTEXTS:
            for s in range(SIMPLE):
                out.append((t, s, s % 2, c))
    for s in range(SIMPLE, len(STYLES)):
        for c in CONTEXTS[s % 3::3]:
            out.append((LIT, s, 0, c))
        out.append((LIT, s, 0, "macro"))
    # macros are evaluated when they are defined, before any declaration is read
    return sorted(
        {
            c
            for c in out
            if not (c[3] in ("macro", "chain") and _refs_decl(c[0]))
            and not (c[3] != "macro" and _fund_cast(c[0]))
        },
        key=repr,
    )


def _fund_cast(t):
    return (t[0] == "cast" and t[1] != "DWORD_t") or any(
        isinstance(u, tuple) and _fund_cast(u) for u in t
    )


def _refs_decl(t):
    return t in (ENU, CST) or any(isinstance(u, tuple) and _refs_decl(u) for u in t)


def harness(x, case):
    t, style, spaces, ctx = case
    env = Env(x, STYLES[style], spaces=bool(spaces))
    text, val = build(env, t)
    lines = list(env.prelude)
    w = []  # (description, got(parser), expected)
    if ctx == "macro":
        lines.append("#define NAME " + text)
        w.append(("macro value", lambda p: p.defs["values"]["NAME"], val))
    elif ctx == "chain":
        lines += ["#define NAME0 (%s)" % text, "#define NAME NAME0", "int v = NAME;"]
        w.append(("macro value", lambda p: p.defs["values"]["NAME"], val))
        w.append(("variable value", lambda p: p.defs["values"]["v"], val))
    elif ctx == "var":
        lines.append("static int v = %s;" % text)
        w.append(("variable value", lambda p: p.defs["variables"]["v"][0], val))
        w.append(("value", lambda p: p.defs["values"]["v"], val))
    elif ctx == "size":
        lines.append("int v[%s], u[2][%s];" % (text, text))
        w.append(("array size", lambda p: list(p.defs["variables"]["v"][1][1:]), [[val]]))
        w.append(("array size", lambda p: list(p.defs["variables"]["u"][1][1:]), [[2], [val]]))
    elif ctx == "list":
        t2, v2 = build(env, ("lit",))
        lines = list(env.prelude)
        lines.append("int v[3] = {%s, %s, %s};" % (t2, text, t2))
        w.append(("initialiser list", lambda p: p.defs["variables"]["v"][0], [v2, val, v2]))
    elif ctx == "plist":
        lines.append("int v[] = {%s};" % text)
        w.append(("initialiser list", lambda p: p.defs["variables"]["v"][0], [val]))
        w.append(("array size", lambda p: list(p.defs["variables"]["v"][1][1:]), [[-1]]))
    elif ctx == "several":
        t2, v2 = build(env, ("lit",))
        lines = list(env.prelude)
        lines.append("int a, v = %s, w[2] = {%s, %s}, *q, z = %s;" % (text, t2, text, t2))
        for n, e in (("a", None), ("v", val), ("w", [v2, val]), ("q", None), ("z", v2)):
            w.append(("initialiser of one declarator among several", lambda p, n=n: p.defs["variables"][n][0], e))
            w.append(("value", lambda p, n=n: p.defs["values"][n], e))
    elif ctx == "member":
        lines.append("struct s { int m[%s]; int k; };" % text)
        w.append(("member array size", lambda p: list(p.defs["structs"]["s"]["members"][0][1][1:]), [[val]]))
    elif ctx == "param":
        lines.append("int f(int a[%s], int b);" % text)
        w.append(("parameter array size", lambda p: list(p.defs["functions"]["f"][1][0][1][1:]), [[val]]))
    elif ctx == "tsize":
        lines.append("typedef int T[%s];" % text)
        w.append(("typedef array size", lambda p: list(p.defs["types"]["T"][1:]), [[val]]))
    src = "\n".join(lines) + "\n"
    p = parse(src)
    x.reach(ctx)
    conj = []
    for d, get, exp in w:
        try:
            got = get(p)
        except (KeyError, IndexError) as e:
            x.check(False, "%s: not recorded (%r) in:\n%s" % (d, e, src))
        conj.append(eq(x.denonce(got), exp))
    x.check(And(*conj), "%s differs from C in:\n%s" % (w[0][0], src))
