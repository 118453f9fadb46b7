"""C24 - initialisation happens once, takes effect, and leaves its arguments alone."""

import sys

from checks.common import And
from symx import env

FUNCTIONS = ["init.init", "init.auto_init", "c_parser._init_cparser", "backends.init_libraries", "backends.ctypes.init_clibrary", "CParser.__init__ (automatic initialisation)"]
ASSUMPTIONS = ["the sequence of operations and which types and modifiers are declared are symbolic; pyclibrary is imported anew for every run"]
OUTSIDE = "os='win32' on another system; more operations than the bound"
REACH = ["refused", "first", "automatic", "extra type", "extra modifier", "plain"]

OPS = ["init", "auto_init", "parser"]
TYPES = ["my_int", "my_dbl"]
MODS = ["API_CALL", "EXPORTED"]


def setup(symbolic):
    import pyclibrary  # noqa: F401


def _n(tier):
    return 3


def BOUNDS(tier):
    return "every sequence of <= 3 operations (init, auto_init, using the parser), every choice of <= 2 extra types and <= 2 modifiers, given or left out"


def cases(tier):
    out = []
    for a in OPS:
        for b in OPS:
            out.append((a, b))
    return out


def fresh():
    """pyclibrary as it is after being imported by a new interpreter."""
    for m in [m for m in sys.modules if m == "pyclibrary" or m.startswith("pyclibrary.")]:
        del sys.modules[m]
    import pyclibrary

    return pyclibrary


def harness(x, case):
    import ctypes

    fresh()
    from pyclibrary import init as pkg_init  # noqa: F401
    from pyclibrary.backends.ctypes import CTypesCLibrary
    from pyclibrary.c_parser import CParser
    from pyclibrary.init import auto_init, init

    from checks.ct import FakeLib

    ctype = {"my_int": ctypes.c_short, "my_dbl": ctypes.c_longdouble}
    done = None  # (types, modifiers) in force
    hist = []
    ops = list(case) + ["parser"]
    for i, op in enumerate(ops):
        if op == "parser":
            hist.append(op)
            if done is None:
                x.reach("automatic")
                done = ([], [])
        else:
            types = [t for t in TYPES if x.choose("type_%s_%d" % (t, i), 2)]
            mods = [m for m in MODS if x.choose("mod_%s_%d" % (m, i), 2)]
            style = x.choose("style%d" % i, 2) if not types and not mods else 0
            ta = None if style else {t: ctype[t] for t in types}
            ma = None if style else list(mods)
            hist.append((op, types, mods))
            try:
                (init if op == "init" else auto_init)(ta, ma)
                x.check(done is None, "%s: initialised again" % hist)
                done = (types, mods)
                x.reach("first")
            except RuntimeError:
                x.reach("refused")
                x.check(done is not None, "%s: refused" % hist)
            x.check(style or (ta == {t: ctype[t] for t in types} and ma == mods), "%s: the arguments are now %r %r" % (hist, ta, ma))
            continue
        # what is in force now
        for t in TYPES:
            for m in MODS:
                text = "typedef %s T1;\nint %s f(int a);\n%s int g(%s x);\nint h;\n" % (t, m, m, t)
                p = CParser([env.write("i.h", text)])
                lib = CTypesCLibrary.__new__(CTypesCLibrary)
                lib.__init__(FakeLib(f=F(), g=F()), p)
                here = "%s then %r: " % (hist, text)
                x.check("h" in p.defs["variables"], here + "h is lost")
                if t in done[0]:
                    x.reach("extra type")
                    x.check(lib("types", "T1") is ctype[t], here + "T1 is %r" % (lib("types", "T1"),))
                else:
                    x.reach("plain")
                    try:
                        r = lib("types", "T1")
                        x.check(False, here + "T1 is %r, %s is unknown" % (r, t))
                    except Exception as e:
                        x.check(type(e).__name__ == "DefinitionError", here + repr(e))
                if m in done[1]:
                    x.reach("extra modifier")
                    x.check(tuple(p.defs["functions"]["f"][0]) == ("int",), here + "f is %r" % (p.defs["functions"]["f"],))
                    x.check("g" in p.defs["functions"], here + "g is lost")
                    x.check(m not in str(p.defs), here + "the modifier shows: %r" % (p.defs,))
        x.check(CParser([env.write("j.h", "typedef unsigned long U;\n")]).eval_type(["U"]) == ("unsigned long",), "%s: basic types are lost" % hist)


class F:
    argtypes = restype = None
