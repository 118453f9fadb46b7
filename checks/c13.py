"""C13 - a call hands the C function exactly the arguments C declares."""

import itertools

from checks.calls import KINDS, call, isnull, make, modes, refused
from checks.common import And, eq
from checks.ct import module
from checks.ct import setup as ct_setup

FUNCTIONS = [
    "CLibrary.__getattr__", "CLibrary._make_obj_", "CLibrary._get_function", "CFunction.__init__", "CFunction.__call__",
    "CTypesCLibrary._init_function", "CTypesCLibrary._get_type", "CTypesCLibrary._get_pointer",
]
ASSUMPTIONS = [
    "which arguments are positional, keyword, None or omitted and the integer values are symbolic; the shared object is a Python stand-in recording what it is called with, ctypes a recording stand-in in the symbolic run and the real one in a replay",
]
OUTSIDE = "leaving out char*, wchar_t*, void*, array or function pointer arguments; an argument given both by position and by name; functions with unnamed parameters called by keyword"
REACH = ["refused", "accepted", "null", "auto", "unknown keyword", "extra"]


def setup(symbolic):
    ct_setup(symbolic)


def _n(tier):
    return 3 if tier == "quick" else 4


def BOUNDS(tier):
    return "every function with <= %d parameters over the kinds %s; every way of giving each argument; two calls in a row" % (_n(tier), sorted(KINDS))


def cases(tier):
    ks = sorted(KINDS)
    out = []
    for n in range(0, _n(tier) + 1):
        for k, seq in enumerate(itertools.product(ks, repeat=n)):
            if n == 3 and tier == "quick" and k % 6 and len(set(seq)) == 3:
                continue
            if n == 4 and (k % 16 or len(set(seq)) < 3):
                continue
            out.append(seq)
    return out


def harness(x, case):
    kinds = case
    ct = module(x)
    want_res = x.int("res", -9, 9)
    lib, fn = make(kinds, lambda args: want_res)
    f = lib.f
    types = list(fn.argtypes)
    x.check(len(types) == len(kinds), "argtypes %r of %r" % (types, kinds))
    what = "f(%s) " % ", ".join(kinds)
    if not kinds:
        r = f()
        x.check(len(fn.calls) == 1 and fn.calls[0] == (), what + "called with %r" % (fn.calls,))
        x.check(eq(r(), want_res), what + "gives %r" % (r(),))
    seen = []
    for tag in ("", "b") if len(kinds) <= 2 else ("",):
        ms = modes(x, kinds, tag) if tag == "" or len(kinds) == 1 else ["omit" if KINDS[k][2] else "pos" for k in kinds]
        if tag and len(kinds) > 1:
            ms.sort(key=lambda m: m != "pos") if all(KINDS[k][2] or i == 0 for i, k in enumerate(kinds)) else None
            if any(m == "pos" and "omit" in ms[:i] for i, m in enumerate(ms)):
                ms = ["kw" if m == "pos" else m for m in ms]
        n0 = len(fn.calls)
        r, vals = call(x, ct, f, types, kinds, ms, tag, reverse=len(kinds) % 2)
        here = what + "called as %s " % (ms,)
        if refused(kinds, ms):
            x.reach("refused")
            x.check(isinstance(r, TypeError), here + "was not refused: %r" % (r,))
            x.check(len(fn.calls) == n0, here + "reached the C function")
            continue
        x.reach("accepted")
        x.check(not isinstance(r, Exception), here + "refused: %s" % (r,))
        x.check(len(fn.calls) == n0 + 1, here + "called the C function %d times" % (len(fn.calls) - n0))
        got = fn.calls[-1]
        x.check(len(got) == len(kinds), here + "passed %r" % (got,))
        conj = []
        for i, (k, m) in enumerate(zip(kinds, ms)):
            if i in vals:
                if k in ("val", "dbl", "enum"):
                    conj.append(eq(got[i], vals[i]))
                else:
                    x.check(got[i] is vals[i], here + "argument %d was replaced by %r" % (i, got[i]))
            elif m == "omit":
                x.reach("auto")
                x.check(type(got[i]) is types[i], here + "argument %d is %r, declared %r" % (i, got[i], types[i]))
                x.check(bool(got[i]), here + "argument %d points nowhere" % i)
                x.check(fresh(got[i], seen), here + "argument %d is not freshly made" % i)
                seen.append(got[i])
            else:
                x.reach("null")
                x.check(isnull(ct, got[i], types[i]), here + "argument %d is %r, not NULL" % (i, got[i]))
        x.check(And(*conj), here + "passed %r" % (got,))
        x.check(eq(r(), want_res), here + "gives %r" % (r(),))
    # things which are no arguments of the function
    n0 = len(fn.calls)
    try:
        f(**{"q9": 0})
        x.check(False, what + "takes a keyword it does not declare")
    except TypeError:
        x.reach("unknown keyword")
    x.check(len(fn.calls) == n0, what + "called with an unknown keyword")
    if kinds and all(k == "val" for k in kinds):
        x.reach("extra")
        vs = [x.int("e%d" % i, -5, 5) for i in range(len(kinds) + 1)]
        f(*vs)
        x.check(eq(tuple(fn.calls[-1]), tuple(vs)), what + "with an extra argument was passed %r" % (fn.calls[-1],))


def fresh(p, seen):
    """Does p point to storage nobody else points to?"""
    c = target(p)
    return all(target(q) != c for q in seen)


def target(p):
    c = p.contents
    if hasattr(c, "_b_base_"):
        import ctypes

        return ctypes.addressof(c)
    return id(c)
