"""C11 - a struct or union class has the members, order, widths and packing of
its declaration."""

import itertools

from checks.common import And, Or, eq, parse
from checks.ct import FakeLib, describe, library, module
from checks.ct import setup as ct_setup

FUNCTIONS = [
    "CParser.process_struct", "CParser.packing_at", "CParser.preprocess (#pragma pack)", "CParser.build_parser (grammar)",
    "CTypesCLibrary._get_struct", "CTypesCLibrary._get_type", "CLibrary._resolve_struct_alias",
    "CLibrary.__call__", "CLibrary.__getattr__", "CLibrary._make_obj_",
]
ASSUMPTIONS = [
    "bit widths 1..32, array bounds 1..1000 and packing (1, 2, 4, 8, 16) are symbolic; during the symbolic run ctypes is a recording stand-in whose classes fix their layout when the field list is assigned, a replay uses the real ctypes",
]
OUTSIDE = "flexible array members, more members than the bound, member default values"
REACH = ["struct", "union", "bits", "anonymous", "packed", "recursive", "alias", "pad", "clash", "bad", "bit fields in one declaration", "qualified anonymous"]

KINDS = ["plain", "arr", "bits", "self", "multi", "anon", "nested", "pad", "anonstruct", "fnptr", "clash", "bad", "bitlist", "qualanon"]
FORMS = ["tag", "typedef", "typedef-anon", "fwd"]


def setup(symbolic):
    ct_setup(symbolic)


def _n(tier):
    return 3 if tier == "quick" else 4


def BOUNDS(tier):
    return "every sequence of <= %d member declarations over %s, struct and union, 4 declaration forms, with and without packing; bit widths, array bounds and packing symbolic" % (_n(tier), KINDS)


def cases(tier):
    out, k = [], 0
    for n in range(1, _n(tier) + 1):
        for seq in itertools.product(KINDS, repeat=n):
            if n == 4 and len(set(seq)) < 3:
                continue
            vs = range(4) if n <= 2 else [k % 4]
            for v in vs:
                kind = ("struct", "union")[(k + v) % 2 if n > 2 else v % 2]
                form = FORMS[(k + v) % 4]
                if form == "typedef-anon" and "self" in seq:
                    form = "typedef"
                out.append((seq, kind, form, (k // 2 + v) % 2))
            k += 1
    return out


def harness(x, case):
    seq, kind, form, packed = case
    ct = module(x)
    x.reach(kind)
    lines, want = [], []  # want: (name or None, type description, width or None)
    tag = "S"

    def num(name, lo, hi):
        v = x.int(name, lo, hi)
        return v, x.lit(v)

    me = kind + " " + tag
    n_anon = clashes = 0
    for i, k in enumerate(seq):
        if k == "plain":
            lines.append("unsigned short m%d;" % i)
            want.append(("m%d" % i, ("uint", 2), None))
        elif k == "arr":
            v, l = num("n%d" % i, 1, 1000)
            lines.append("char m%d[%s];" % (i, l))
            want.append(("m%d" % i, ("array", v, ("char", 1)), None))
        elif k == "bits":
            x.reach("bits")
            v, l = num("w%d" % i, 1, 32)
            lines.append("unsigned int m%d : %s;" % (i, l))
            want.append(("m%d" % i, ("uint", 4), v))
        elif k == "bitlist":
            x.reach("bit fields in one declaration")
            (v, l), (v2, l2), (v3, l3) = num("w%d" % i, 1, 32), num("x%d" % i, 1, 32), num("y%d" % i, 1, 32)
            lines.append("unsigned int m%d : %s, *o%d, : %s, q%d: %s, r%d;" % (i, l, i, l2, i, l3, i))
            want += [("m%d" % i, ("uint", 4), v), ("o%d" % i, ("ptr", ("uint", 4)), None), (None, ("uint", 4), v2)]
            want += [("q%d" % i, ("uint", 4), v3), ("r%d" % i, ("uint", 4), None)]
        elif k == "qualanon":
            x.reach("qualified anonymous")
            n_anon += 1
            lines.append("%s struct { int u%d; double v%d; };" % (("const", "volatile")[i % 2], i, i))
            want.append((None, ("struct", ("u%d" % i, "v%d" % i)), None))
        elif k == "pad":
            x.reach("pad")
            v, l = num("w%d" % i, 1, 32)
            lines.append("unsigned int : %s;" % l)
            want.append((None, ("uint", 4), v))
        elif k == "self":
            x.reach("recursive")
            lines.append("%s *m%d;" % (me, i))
            want.append(("m%d" % i, ("ptr", ("named", "S")), None))
        elif k == "multi":
            lines.append("int m%d, *p%d, q%d[3];" % (i, i, i))
            want += [("m%d" % i, ("int", 4), None), ("p%d" % i, ("ptr", ("int", 4)), None), ("q%d" % i, ("array", 3, ("int", 4)), None)]
        elif k in ("anon", "anonstruct"):
            x.reach("anonymous")
            n_anon += 1
            lines.append("%s { int u%d; double v%d; };" % ("union" if k == "anon" else "struct", i, i))
            want.append((None, ("union" if k == "anon" else "struct", ("u%d" % i, "v%d" % i)), None))
        elif k == "nested":
            lines.append("struct In%d { int u; long v; } m%d;" % (i, i))
            want.append(("m%d" % i, ("struct", ("u", "v")), None))
        elif k == "clash":
            x.reach("clash")
            lines.append("int anon_member%d;" % clashes)
            want.append(("anon_member%d" % clashes, ("int", 4), None))
            clashes += 1
        elif k == "bad":
            lines.append("unheard_of m%d;" % i)
            want.append(("m%d" % i, None, None))
        elif k == "fnptr":
            lines.append("int (*m%d)(double);" % i)
            want.append(("m%d" % i, ("fn", ("int", 4), (("float", 8),)), None))
    body = "{\n  " + "\n  ".join(lines) + "\n}"
    pk = None
    pre = post = ""
    if packed:
        x.reach("packed")
        pk = x.int("pack", 1, 16)
        x.assume(Or(*[pk == c for c in (1, 2, 4, 8, 16)]))
        pre, post = "#pragma pack(push, %s)\n" % x.lit(pk), "#pragma pack(pop)\n"
    if form == "tag":
        text = "%s %s;\n" % (me, body)
        get = [lambda l: l(kind + "s", "S"), lambda l: l.S]
    elif form == "typedef":
        text = "typedef %s %s S_t;\n" % (me, body)
        get = [lambda l: l(kind + "s", "S"), lambda l: l(kind + "s", "S_t"), lambda l: l("types", "S_t"), lambda l: l.S_t, lambda l: l.S]
    elif form == "typedef-anon":
        text = "typedef %s %s S_t;\n" % (kind, body)
        get = [lambda l: l(kind + "s", "S_t"), lambda l: l("types", "S_t"), lambda l: l.S_t]
    else:
        text = "%s;\ntypedef %s S_t;\n%s %s;\n" % (me, me, me, body)
        get = [lambda l: l("types", "S_t"), lambda l: l(kind + "s", "S"), lambda l: l.S_t, lambda l: l(kind + "s", "S_t")]
    if form != "tag":
        x.reach("alias")
    text = "struct before { char z; int y; };\n" + pre + text + post + "struct after { char z; int y; };\n"
    p = parse(text)
    before = repr(p.defs)
    order = list(get)
    if len(text) % 2:
        order.reverse()
    lib = library(p, FakeLib())
    if "bad" in seq:
        x.reach("bad")
        for g in order + get:
            try:
                cls = g(lib)
            except Exception:
                continue
            x.check(False, "%r for a %s with a member of unknown type\n%s" % (cls, kind, text))
        for o in ("before", "after"):
            x.check([f[0] for f in layout(lib("structs", o))[2]] == ["z", "y"], "struct %s in\n%s" % (o, text))
        return
    classes = [g(lib) for g in order]
    cls = classes[0]
    x.check(all(c is cls for c in classes), "different classes for one %s: %r\n%s" % (kind, classes, text))
    x.check(isinstance(cls, type) and issubclass(cls, ct.Structure if kind == "struct" else ct.Union), "%r is not a %s: %s" % (cls, kind, text))
    x.check(repr(p.defs) == before, "the parsed definitions were altered: " + text)
    pack, anon, fields = layout(cls)
    x.check(len(fields) == len(want), "fields %r of\n%s" % (fields, text))
    names = [f[0] for f in fields]
    x.check(len(set(names)) == len(names), "field names are not unique: %r\n%s" % (names, text))
    conj = []
    wanted_anon = []
    for f, (n, d, w) in zip(fields, want):
        if n is not None:
            x.check(f[0] == n, "field %r, declared %s in\n%s" % (f, n, text))
        else:
            x.check(f[0] not in [q[0] for q in want], "unnamed member takes the name %s of another: %s" % (f[0], text))
            if w is None:
                wanted_anon.append(f[0])
        got = x.denonce(describe(ct, f[1], {cls: "S"}))
        if d[0] in ("struct", "union"):
            x.check(got[0] == d[0] and tuple(q[0] for q in got[1]._fields_) == d[1], "member type %r in\n%s" % (got, text))
        else:
            conj.append(eq(got, d))
        x.check((len(f) == 3) == (w is not None), "bit width of %r in\n%s" % (f, text))
        if w is not None:
            conj.append(eq(x.denonce(f[2]), w))
    x.check(list(anon) == wanted_anon, "anonymous members %r, expected %r in\n%s" % (anon, wanted_anon, text))
    conj.append(eq(x.denonce(pack), pk))
    x.check(And(*conj), "layout %r / %r / %r differs from\n%s" % (pack, anon, fields, text))
    for o in ("before", "after"):
        x.check(layout(lib("structs", o))[0] is None, "packing leaks to struct %s in\n%s" % (o, text))
    if not x.symbolic:
        real_layout(x, ct, cls, pack, anon, fields, kind, text)


def layout(cls):
    lay = cls.__dict__.get("_layout_")
    if isinstance(lay, tuple):
        return lay
    return getattr(cls, "_pack_", None), list(cls.__dict__.get("_anonymous_", ())), [tuple(f) for f in cls._fields_]


def real_layout(x, ct, cls, pack, anon, fields, kind, text):
    """Sizes and offsets of the real class against one built by hand."""
    base = ct.Structure if kind == "struct" else ct.Union
    d = {"_anonymous_": anon, "_fields_": fields}
    if pack is not None:
        d["_pack_"] = pack
    ref = type("ref", (base,), d)
    x.check(ct.sizeof(ref) == ct.sizeof(cls), "size %d, expected %d\n%s" % (ct.sizeof(cls), ct.sizeof(ref), text))
    for f in fields:
        a, b = getattr(cls, f[0]), getattr(ref, f[0])
        x.check((a.offset, a.size) == (b.offset, b.size), "offset of %s\n%s" % (f[0], text))
