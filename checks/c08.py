"""C08 - a declarator is recorded as the type C gives it."""

from checks.common import And, eq, parse
from checks.decls import chains, expected, is_ptr, spell

FUNCTIONS = [
    "CParser.build_parser (grammar)", "CParser.parse_defs", "CParser.process_declarator",
    "CParser.process_type", "CParser.process_variable", "CParser.process_typedef",
    "CParser.process_function", "CParser.process_struct", "CParser.eval_expr",
    "Type.__new__", "Type.__init__", "Type.add_compatibility_hack",
]
ASSUMPTIONS = [
    "array bounds range over 0..100000 symbolically; each bound is represented by a distinct literal while the text is processed",
    "argument lists are one of four shapes",
]
OUTSIDE = "chains longer than the bound; references; calling conventions; redundant parentheses around a name or an array; abstract function declarators"
REACH = ["var", "typedef", "param", "abstract", "member", "proto", "list", "func-body"]

CONTEXTS = ["var", "typedef", "param", "abstract", "member", "list", "tlist", "mlist", "func-body", "fparg"]
BASES = [
    ("int", "int", ()), ("unsigned long", "unsigned long", ()), ("const char", "char", ("const",)),
    ("double", "double", ()), ("mytype", "mytype", ()), ("struct st", "struct st", ()),
    ("void", "void", ()), ("int const", "int", ("const",)), ("volatile uint8_t", "uint8_t", ("volatile",)),
    ("enum en", "enum en", ()), ("const unsigned char", "unsigned char", ("const",)),
    ("struct st const", "struct st", ("const",)), ("const int volatile", "int", ("const", "volatile")),
]
ARGS = [
    ("", ()),
    ("void", ((None, ("void",), ((),), None),)),
    ("int a, char *b", (("a", ("int",), ((),), None), ("b", ("char", "*"), ((), ()), None))),
    ("const char *, unsigned", ((None, ("char", "*"), (("const",), ()), None), (None, ("unsigned",), ((),), None))),
]


def _n(tier):
    return 4 if tier == "quick" else 5


def BOUNDS(tier):
    return "every valid chain of <= %d derivations over {pointer, const pointer, volatile pointer, array, incomplete array, function}, 10 contexts, 13 base types, 4 argument lists, all array bounds symbolically" % _n(tier)


def cases(tier):
    out = []
    k = 0
    for ch in chains(("ptr", "ptrc", "ptrv", "arr", "inc", "fn"), _n(tier)):
        if len(ch) >= 4 and ("ptrv" in ch or ch.count("ptrc") > 1):
            continue
        if len(ch) <= 3 or tier == "thorough" and len(ch) == 4:
            js = range(len(CONTEXTS))
        else:
            js = sorted({k % len(CONTEXTS), (k + 3) % len(CONTEXTS), (k + 5) % len(CONTEXTS)})
        for j in js:
            c = CONTEXTS[j]
            if ch[:1] == ("fn",) and c not in ("var", "typedef", "list", "tlist", "func-body"):
                continue
            if c == "func-body" and ch[:1] != ("fn",):
                continue
            nb = 3 if len(ch) <= 1 else 1
            for b in range(nb):
                out.append((ch, c, (k + b * 4) % len(BASES), (k + b) % 4, k % 2))
                k += 1
        k += 1
    return out


def as_expected(args):
    return tuple((n, T(t, q), d) for n, t, q, d in args)


def T(items, quals):
    from pyclibrary.c_parser import Type

    return Type(*items, type_quals=quals)


def teq(a, b):
    """Equality of Types, qualifiers included, over symbolic bounds."""
    from pyclibrary.c_parser import Type

    if isinstance(a, Type) or isinstance(b, Type):
        if not (isinstance(a, Type) and isinstance(b, Type)) or len(a) != len(b):
            return False
        if tuple(map(tuple, a.type_quals)) != tuple(map(tuple, b.type_quals)):
            return False
        return And(*[teq(x, y) for x, y in zip(a, b)])
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and And(*[teq(x, y) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    return eq(a, b)


def harness(x, case):
    chain, ctx, bi, ai, sp = case
    btext, base, bq = BASES[bi]
    sizes, fnargs = [], []

    def size():
        v = x.int("n%d" % len(sizes), 0, 100000)
        sizes.append(v)
        return x.lit(v, ("d", "x", "dU")[len(sizes) % 3])

    def args():
        t, e = ARGS[(ai + len(fnargs)) % len(ARGS)]
        fnargs.append(as_expected(e))
        return t

    name = "" if ctx == "abstract" else "nm"
    decl = spell(chain, name, size, args, " " if sp else "")
    items, quals = expected(chain, sizes, fnargs, bq)
    want = T([base, *items], quals)
    src = btext + " " + decl
    pre = "typedef int mytype;\n" if base == "mytype" else ""
    if ctx == "var":
        text = src + ";"
    elif ctx == "typedef":
        text = "typedef " + src + ";"
    elif ctx in ("param", "abstract"):
        text = "void f(int first, %s, int last);" % src
    elif ctx == "fparg":
        text = "void (*f)(int first, %s, int last);" % src
    elif ctx == "member":
        text = "struct holder { int first; %s; int last; };" % src
    elif ctx == "list":
        text = "%s, *other, nm2[3];" % src
    elif ctx == "tlist":
        text = "typedef %s, *other, nm2[3];" % src
    elif ctx == "mlist":
        text = "struct holder { int first; %s, *other, nm2[3]; int last; };" % src
    elif ctx == "func-body":
        text = "static %s { return 1; { } }" % src
    text = pre + text + "\n"
    p = parse(text)
    d = p.defs
    x.reach({"fparg": "param", "tlist": "list", "mlist": "list"}.get(ctx, ctx))

    def fn(t):  # representation of functions in the function table
        return T([T(t[:-1], t.type_quals[:-1]), t[-1]], ((), t.type_quals[-1]))

    got = None
    try:
        if ctx in ("typedef", "tlist"):
            got = d["types"]["nm"]
        elif ctx in ("var", "list", "func-body"):
            if chain[:1] == ("fn",):
                x.reach("proto")
                got, want = d["functions"]["nm"], fn(want)
                x.check("nm" not in d["variables"], "function recorded as a variable: " + text)
            else:
                val, got = d["variables"]["nm"]
                x.check("nm" not in d["functions"], "variable recorded as a function: " + text)
        elif ctx in ("param", "abstract"):
            ps = d["functions"]["f"][1]
            x.check([q[0] for q in ps] == ["first", name or None, "last"], "parameters %r in: %s" % (ps, text))
            got = ps[1][1]
        elif ctx == "fparg":
            ps = d["variables"]["f"][1][1]
            x.check([q[0] for q in ps] == ["first", "nm", "last"], "parameters %r in: %s" % (ps, text))
            got = ps[1][1]
        elif ctx == "member":
            ms = d["structs"]["holder"]["members"]
            x.check([m[0] for m in ms] == ["first", "nm", "last"], "members %r in: %s" % (ms, text))
            got = ms[1][1]
        elif ctx == "mlist":
            ms = d["structs"]["holder"]["members"]
            x.check([m[0] for m in ms] == ["first", "nm", "other", "nm2", "last"], "members %r in: %s" % (ms, text))
            got, other, nm2 = ms[1][1], ms[2][1], ms[3][1]
        if ctx == "list":
            other, nm2 = d["variables"]["other"][1], d["variables"]["nm2"][1]
        elif ctx == "tlist":
            other, nm2 = d["types"]["other"], d["types"]["nm2"]
        if ctx in ("list", "tlist", "mlist"):
            x.check(teq(other, T([base, "*"], (bq, ()))), "second declarator of: " + text)
            x.check(teq(x.denonce(nm2), T([base, [3]], (bq, ()))), "third declarator of: " + text)
    except (KeyError, IndexError, TypeError) as e:
        x.check(False, "declaration not recorded (%r): %s" % (e, text))
    x.check(teq(x.denonce(got), want), "recorded as %r, C says %r: %s" % (got, want, text))
