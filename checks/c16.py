"""C16 - a name gives the first matching definition, the same object each time."""

import itertools

from checks.calls import Func
from checks.common import eq
from checks.ct import FakeLib, describe, library, module
from checks.ct import setup as ct_setup

FUNCTIONS = [
    "CLibrary.__getattr__", "CLibrary.__call__", "CLibrary.__getitem__", "CLibrary._all_names_", "CLibrary._make_obj_",
    "CLibrary._get_function", "CTypesCLibrary._get_type", "CTypesCLibrary._get_struct",
]
ASSUMPTIONS = [
    "the values, array bounds and the sequence of accesses are symbolic; the definitions are given to CParser as keyword arguments; the shared object is a Python stand-in",
]
OUTSIDE = "constants whose value is None; struct, union or enum lookups of a name which is also a typedef of something else"
REACH = ["found", "refused", "prefixed", "repeated"]

KINDS = ["values", "functions", "types", "structs", "unions", "enums"]
NAMES = ["X", "p_X", "q_X", "p_p_X"]
LOOKUPS = NAMES[:3]
PREFIX = {"none": None, "str": "p_", "list": ["p_", "q_"], "rev": ["q_", "p_"]}


def setup(symbolic):
    ct_setup(symbolic)


def BOUNDS(tier):
    return "every set of <= %d definitions over 6 kinds and the names %s; prefix absent, one, or two in either order; every sequence of %s accesses by attribute or by kind" % (
        2 if tier == "quick" else 3, NAMES, "2 (3 by attribute)" if tier == "quick" else "3",
    )


def cases(tier):
    cells = list(itertools.product(KINDS, NAMES))
    out = []
    k = 0
    for n in range(0, 3 if tier == "quick" else 4):
        for sub in itertools.combinations(cells, n):
            tags = [n for k, n in sub if k in ("structs", "unions")]
            if len(set(tags)) < len(tags):
                continue  # struct and union tags share one name space in C
            forms = PREFIX if n <= 1 else (["list", "rev", "str"] if tier != "quick" else [["list", "rev", "str"][k % 3]])
            for f in forms:
                out.append((sub, f, "mixed"))
                if tier != "quick" or k % 3 == 0:
                    out.append((sub, f, "attr"))
            k += 1
    return out


def harness(x, case):
    sub, form, mode = case
    ct = module(x)
    from pyclibrary.c_parser import CParser, Struct, Type, Union

    defs = {k: {} for k in KINDS}
    mark, funcs = {}, {}
    for j, (kind, n) in enumerate(sub):
        if kind == "values":
            v = mark[kind, n] = x.int("v%d" % j, -2, 2)
            defs[kind][n] = v
        elif kind == "functions":
            v = mark[kind, n] = x.int("r%d" % j, 0, 50)
            funcs[n] = Func(lambda args, v=v: v)
            defs[kind][n] = Type(Type("int"), ())
        elif kind == "types":
            v = mark[kind, n] = x.int("n%d" % j, 1, 50)
            defs[kind][n] = Type("short", [v])
        elif kind in ("structs", "unions"):
            mark[kind, n] = "m%d" % j
            defs[kind][n] = (Struct if kind == "structs" else Union)(("m%d" % j, Type("int"), None))
        else:
            mark[kind, n] = {"e%d" % j: j}
            defs[kind][n] = {"e%d" % j: j}
    p = CParser(**{k: d for k, d in defs.items() if d})
    lib = library(p, FakeLib(**funcs), prefix=PREFIX[form])
    prefixes = {"none": [], "str": ["p_"], "list": ["p_", "q_"], "rev": ["q_", "p_"]}[form]

    def expect(how, name):
        names = [name] + [q + name for q in prefixes]
        for kind in KINDS if how == "attr" else [how]:
            for n in names:
                if n in defs[kind]:
                    return kind, n
        return None

    def unclear(how, name):
        # a typedef of something else hides structs and the like
        names = [name] + [q + name for q in prefixes]
        return how in ("structs", "unions", "enums") and any(n in defs["types"] for n in names)

    memo = {}
    hist = []
    hows = ["attr"] if mode == "attr" else ["attr"] + KINDS
    for i in range(3 if mode == "attr" else 2):
        how = hows[x.choose("how%d" % i, len(hows))]
        name = LOOKUPS[x.choose("name%d" % i, len(LOOKUPS))]
        hist.append((how, name))
        here = "definitions %s, prefix %r, accesses %s: " % (list(sub), PREFIX[form], hist)
        want = expect(how, name)
        if unclear(how, name):
            continue
        try:
            obj = getattr(lib, name) if how == "attr" else lib(how, name)
        except (NameError, KeyError, AttributeError) as e:
            x.check(want is None, here + "refused with %r" % (e,))
            x.reach("refused")
            continue
        x.check(want is not None, here + "gives %r" % (obj,))
        x.reach("found")
        kind, n = want
        if n != name:
            x.reach("prefixed")
        m = mark[want]
        if kind == "values":
            x.check(eq(obj, m), here + "gives %r" % (obj,))
        elif kind == "functions":
            x.check(eq(obj()(), m), here + "gives %r" % (obj,))
        elif kind == "types":
            x.check(eq(x.denonce(describe(ct, obj)), ("array", m, ("int", 2))), here + "gives %r" % (obj,))
        elif kind == "enums":
            x.check(eq(dict(obj), m), here + "gives %r" % (obj,))
        else:
            base = ct.Structure if kind == "structs" else ct.Union
            x.check(isinstance(obj, type) and issubclass(obj, base) and obj._fields_[0][0] == m, here + "gives %r" % (obj,))
        if kind != "values":
            # one class per struct or union; the same access, the same object
            key = want if kind in ("structs", "unions") else (how, name)
            if key in memo:
                x.reach("repeated")
                x.check(obj is memo[key], here + "another object than before")
            memo[key] = obj
    for k in KINDS:
        x.check(eq(dict(lib[k]), defs[k]), "lib[%r] is %r" % (k, lib[k]))

