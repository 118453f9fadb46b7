"""C25 - build_array and cast_to make what they are asked for."""

import itertools

from checks.calls import HEAD, parser
from checks.common import And, eq
from checks.ct import FakeLib, describe, library, module
from checks.ct import setup as ct_setup

FUNCTIONS = ["c_library.build_array", "c_library.cast_to", "CTypesCLibrary._get_array", "CTypesCLibrary._cast_to", "CTypesCLibrary._get_type"]
ASSUMPTIONS = ["the dimensions and the initial values are symbolic; ctypes is a recording stand-in in the symbolic run and the real one in a replay"]
OUTSIDE = "more dimensions than the bound; element types given as expressions"
REACH = ["scalar", "tuple", "values", "cast", "named"]
ELEMS = ["type", "int", "tdint", "struct", "tdptr", "tdarr", "unsigned short"]
TEXT = HEAD + "typedef short td;\ntypedef double ta[4];\n"


def setup(symbolic):
    ct_setup(symbolic)


def BOUNDS(tier):
    return "0..%d dimensions of 0..2000, element types %s, with and without initial values; casts to each of them" % (3 if tier == "quick" else 4, ELEMS)


def cases(tier):
    return [("array", e, n) for e in ELEMS for n in range(-1, 4 if tier == "quick" else 5)] + [("vals", e, n) for e in ELEMS[:3] for n in (1, 2, 3)] + [("cast", e, 0) for e in ELEMS]


def elem(x, ct, lib, e):
    """-> (argument for build_array, description)"""
    S = lib("structs", "S")
    return {
        "type": (ct.c_double, ("float", 8)),
        "int": ("int", ("int", 4)),
        "tdint": ("td", ("int", 2)),
        "struct": ("S_t", ("struct", S)),
        "tdptr": ("ip", ("ptr", ("int", 4))),
        "tdarr": ("ta", ("array", 4, ("float", 8))),
        "unsigned short": ("unsigned short", ("uint", 2)),
    }[e]


def harness(x, case):
    from pyclibrary.c_library import build_array, cast_to

    what, e, n = case
    ct = module(x)
    lib = library(parser(TEXT), FakeLib())
    arg, d = elem(x, ct, lib, e)
    if e != "type":
        x.reach("named")
    if what == "cast":
        x.reach("cast")
        obj = ct.c_void_p(x.int("address", 1, 1000)) if e == "tdptr" else None
        if e != "tdptr":
            return
        r = cast_to(lib, obj, arg)
        r2 = cast_to(lib, obj, ct.POINTER(ct.c_int))
        if x.symbolic:
            x.check(r.obj is obj and describe(ct, r.typ) == d, "cast to %r" % (r.typ,))
            x.check(r2.obj is obj and describe(ct, r2.typ) == d, "cast to %r" % (r2.typ,))
        else:
            for q in (r, r2):
                x.check(describe(ct, type(q)) == d and ct.cast(q, ct.c_void_p).value == obj.value, "cast gives %r" % (q,))
        return
    if what == "vals":
        x.reach("values")
        vs = [x.int("v%d" % i, 0, 100) for i in range(n)]
        size = n + x.choose("more", 2)
        a = build_array(lib, arg, size, vs)
        x.check(eq(x.denonce(describe(ct, type(a))), ("array", size, d)), "%r" % (type(a),))
        x.check(And(*[eq(a[i], v) for i, v in enumerate(vs)]), "values %r become %r" % (vs, [a[i] for i in range(n)]))
        return
    if n == -1:
        x.reach("scalar")
        dims = [x.int("n", 0, 2000)]
        size = dims[0]
    else:
        x.reach("tuple")
        dims = [x.int("n%d" % i, 0, 2000 if n < 3 else 12) for i in range(n)]
        size = tuple(dims)
    a = build_array(lib, arg, size)
    want = d
    for s in reversed(dims):
        want = ("array", s, want)
    if not dims:
        x.check(describe(ct, type(a)) == d, "no dimension gives %r" % (type(a),))
        return
    x.check(eq(x.denonce(describe(ct, type(a))), want), "build_array(%r, %r) gives %r, expected %r" % (arg, size, describe(ct, type(a)), want))
