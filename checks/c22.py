"""C22 - a type (struct, union, enum) survives being printed, stored and copied,
and equals exactly what describes the same C type."""

import itertools

from checks.common import And, Iff, Or, eq

FUNCTIONS = ["Type.__new__", "Type.__init__", "Type.__eq__", "Type.__ne__", "Type.__repr__", "Type.__getnewargs__", "Type.add_compatibility_hack", "Type.remove_compatibility_hack", "Compound.__init__", "Compound.__repr__", "Enum.__repr__", "Type.declarators", "Type.type_spec"]
ASSUMPTIONS = ["array bounds, enum values and packing are symbolic, and so is the presence of each qualifier; pickle and copy are the real ones"]
OUTSIDE = "types nested deeper than the bound; the order of an Enum's repr"
REACH = ["equal", "different", "function", "struct", "enum"]
DECL = ["*", "arr", "fn", "fnq"]
QUALS = [(), ("const",), ("volatile",), ("const", "volatile")]


def setup(symbolic):
    import pyclibrary.c_parser  # noqa: F401


def _n(tier):
    return 2 if tier == "quick" else 3


def BOUNDS(tier):
    return "all pairs of types with <= %d derivations (pointer, array, function) on two base types, every qualifier on the base and the first derivation, all bounds; structs, unions and enums of <= 2 members" % _n(tier)


def cases(tier):
    chains = [c for n in range(_n(tier) + 1) for c in itertools.product(DECL, repeat=n)]
    out = [("one", c, None) for c in chains]
    out += [("pair", a, b) for a in chains for b in chains if len(a) == len(b) or abs(len(a) - len(b)) == 1 and tier != "quick"]
    out += [("compound", a, b) for a in chains for b in chains if len(a) <= 1 and len(b) <= 1]
    return out


def build(x, Type, chain, tag):
    """-> (the type, its plain description)"""
    ds, desc = [], []
    for i, d in enumerate(chain):
        if d == "arr":
            n = x.int("n%s%d" % (tag, i), -1, 9)
            ds.append([n])
            desc.append(("arr", n))
        elif d.startswith("fn"):
            q = ((("const",),) if d == "fnq" else ((),)) + ((),)
            ds.append((("a", Type("int", "*", type_quals=q), None),))
            desc.append(d)
        else:
            ds.append("*")
            desc.append("*")
    base = ("int", "char")[x.choose("base" + tag, 2)]
    q0 = QUALS[x.choose("q" + tag, 4)]
    q1 = QUALS[x.choose("r" + tag, 2)] if chain and chain[0] == "*" else ()
    quals = (q0,) + ((q1,) + ((),) * (len(chain) - 1) if chain else ())
    t = Type(base, *ds, type_quals=quals)
    return t, (base, q0, q1, tuple(desc))


def harness(x, case):
    import copy
    import pickle

    from pyclibrary.c_parser import Enum, Struct, Type, Union

    kind, a, b = case
    ns = {"Type": Type, "Struct": Struct, "Union": Union, "Enum": Enum}
    ta, da = build(x, Type, a, "a")

    def copies(v):
        yield "pickled", pickle.loads(pickle.dumps(v))
        yield "copied", copy.deepcopy(v)
        yield "shallow", copy.copy(v)
        yield "printed", eval(repr(v), ns)

    if kind == "one":
        for how, c in copies(ta):
            x.check(bool(c == ta) and not bool(c != ta), "%r %s is %r" % (ta, how, c))
            x.check(type(c) is Type and tuple(c.type_quals) == tuple(ta.type_quals), "%r %s has qualifiers %r" % (ta, how, c.type_quals))
            x.check(eq(x.denonce(tuple(c)), x.denonce(tuple(ta))), "%r %s is %r" % (ta, how, tuple(c)))
        x.check(ta == tuple(ta), "%r differs from the tuple it stands for" % (ta,))
        x.check(ta.type_spec == da[0] and len(ta.declarators) == len(a), "%r: parts %r %r" % (ta, ta.type_spec, ta.declarators))
        isfn = bool(a) and a[-1].startswith("fn")
        h = ta.add_compatibility_hack()
        if isfn:
            x.reach("function")
            x.check(len(h) == 2 and isinstance(h[0], Type), "%r is not split: %r" % (ta, h))
            x.check(h[0] == Type(*ta[:-1], type_quals=ta.type_quals[:-1]), "return type of %r is %r" % (ta, h[0]))
        else:
            x.check(h == ta, "%r is no function, yet becomes %r" % (ta, h))
        u = h.remove_compatibility_hack()
        x.check(u == ta and tuple(u.type_quals) == tuple(ta.type_quals), "%r is %r after adding and removing the hack" % (ta, u))
        return
    tb, db = build(x, Type, b, "b")
    if kind == "pair":
        same = eq(da, db)
        got = ta == tb
        if bool(same):
            x.reach("equal")
            x.check(got, "%r and %r describe one type" % (ta, tb))
        else:
            x.reach("different")
            x.check(not got, "%r and %r describe different types" % (ta, tb))
        x.check(bool(ta != tb) == (not got) and bool(tb == ta) == bool(got), "comparison of %r and %r is inconsistent" % (ta, tb))
        return
    pk = (None, x.int("pack", 0, 8))[x.choose("packed", 2)]
    members = [("m0", ta, None), (None, tb, None, x.int("w", 1, 9)) if len(b) else ("m1", tb, x.int("d", 0, 3))]
    for cls in (Struct, Union):
        x.reach("struct")
        s = cls(*members, pack=pk) if pk is not None else cls(*members)
        x.check(list(s.members) == members and eq(s.pack, pk) and s["pack"] is s.pack, "%r does not hold its members" % (s,))
        for how, c in copies(s):
            x.check(type(c) is cls and list(map(len, c.members)) == [3, len(members[1])], "%r %s is %r" % (s, how, c))
            x.check(And(*[eq(x.denonce(tuple(p[2:])), x.denonce(tuple(q[2:]))) for p, q in zip(c.members, members)]), "%r %s is %r" % (s, how, c))
            x.check(all(p[1] == q[1] and p[0] == q[0] for p, q in zip(c.members, members)), "%r %s is %r" % (s, how, c))
            x.check(eq(x.denonce(c.pack), pk), "%r %s has packing %r" % (s, how, c.pack))
    e = Enum(E_A=x.int("ea", -5, 5), E_B=x.int("eb", -5, 5))
    x.reach("enum")
    for how, c in copies(e):
        x.check(type(c) is Enum and And(eq(x.denonce(c["E_A"]), e["E_A"]), eq(x.denonce(c["E_B"]), e["E_B"])), "%r %s is %r" % (e, how, c))
