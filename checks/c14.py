"""C14 - the result of a call gives back the return value and every argument."""

import itertools

from checks.calls import KINDS, call, make
from checks.common import And, eq
from checks.ct import module
from checks.ct import setup as ct_setup

FUNCTIONS = [
    "CFunction.__call__", "CallResult.__call__", "CallResult.__getitem__", "CallResult.__setitem__", "CallResult.find_arg",
    "CallResult.__iter__", "CallResult.auto", "CTypesCLibrary._extract_val_", "CTypesCLibrary._get_pointer",
]
ASSUMPTIONS = [
    "the values passed, returned and written by the C function through the pointers it gets are symbolic, and so is which arguments are given; the C function is a Python stand-in, ctypes a recording stand-in in the symbolic run and the real one in a replay",
]
OUTSIDE = "negative indices; duplicated or missing parameter names; array and function pointer arguments"
REACH = ["auto", "given pointer", "given value", "null", "void", "struct result", "int"]
RETS = ["int", "void", "struct S *", "double"]


def setup(symbolic):
    ct_setup(symbolic)


def _n(tier):
    return 3 if tier == "quick" else 4


def BOUNDS(tier):
    return "every function with <= %d parameters over the kinds %s and four result types; every subset of the pointer arguments left out" % (_n(tier), sorted(KINDS))


def cases(tier):
    ks = sorted(KINDS)
    out = []
    j = 0
    for n in range(0, _n(tier) + 1):
        for k, seq in enumerate(itertools.product(ks, repeat=n)):
            if n == 3 and tier == "quick" and k % 3 and len(set(seq)) == 3:
                continue
            if n == 4 and (k % 8 or len(set(seq)) < 3):
                continue
            for r in RETS if n <= 1 else [RETS[j % 4]]:
                out.append((seq, r))
            j += 1
    return out


def same(got, want):
    """Equality of values, identity of objects."""
    if isinstance(want, tuple) and want and want[0] == "obj":
        return got is want[1]
    if isinstance(want, tuple) and want and want[0] == "ptr":
        return isinstance(got, want[1]) and bool(got) and address(got) == want[2]
    return eq(got, want)


def address(p):
    c = p.contents
    if hasattr(c, "_b_base_"):
        import ctypes

        return ctypes.addressof(c)
    return id(c)


def harness(x, case):
    kinds, ret = case
    ct = module(x)
    ms = []
    for i, k in enumerate(kinds):
        opts = ["given"] + (["omit", "none"] if KINDS[k][1] else [])
        ms.append(opts[x.choose("m%d" % i, len(opts))])
    wrote, wobj, S = {}, {}, []

    def body(args):
        for i, (k, m) in enumerate(zip(kinds, ms)):
            if m != "omit":
                continue
            p = args[i]
            if k in ("ptr", "tdp", "cptr"):
                wrote[i] = x.int("w%d" % i, 0, 9)
                p[0] = wrote[i]
            elif k == "sp":
                wrote[i] = x.int("w%d" % i, 0, 9)
                p.contents.a = wrote[i]
                wobj[i] = p.contents
            elif k in ("pp", "tdpp"):
                o = ct.pointer(ct.c_int(7))
                wobj[i] = o
                p[0] = o
            elif k == "spp":
                o = ct.pointer(S[0]())
                wobj[i] = o
                p[0] = o
            elif k == "cpp":
                wobj[i] = b"xyz%d" % i
                p[0] = wobj[i]
        return rv

    lib, fn = make(kinds, body, ret=ret)
    S.append(lib("structs", "S"))
    f = lib.f
    if ret == "void":
        rv = want = None
        x.reach("void")
    elif ret == "struct S *":
        x.reach("struct result")
        rv = ct.pointer(S[0]())
        want = ("obj", rv)
    else:
        x.reach("int")
        rv = want = x.int("ret", -5, 5)
    types = list(fn.argtypes)
    # arguments after the first omitted one are given by name
    call_modes, kw = [], False
    for m in ms:
        if m == "omit":
            kw = True
            call_modes.append("omit")
        else:
            call_modes.append(("kw" if kw else "pos") + ("none" if m == "none" else ""))
    r, vals = call(x, ct, f, types, kinds, call_modes)
    here = "%s f(%s) called as %s: " % (ret, ", ".join(kinds), call_modes)
    x.check(not isinstance(r, Exception), here + repr(r))
    exp = []
    for i, (k, m) in enumerate(zip(kinds, ms)):
        if m == "omit":
            x.reach("auto")
            if k in ("ptr", "tdp", "cptr"):
                exp.append(wrote[i])
            elif k == "sp":
                exp.append(("struct", wrote[i]))
            elif k == "cpp":
                exp.append(wobj[i])
            else:
                exp.append(("ptr", type(wobj[i]), address(wobj[i])))
        elif m == "none":
            x.reach("null")
            exp.append(("obj", fn.calls[-1][i]))
        elif k in ("val", "dbl", "enum"):
            x.reach("given value")
            exp.append(vals[i])
        else:
            x.reach("given pointer")
            exp.append(("obj", vals[i]))

    def compare(got, e, how):
        if isinstance(e, tuple) and e[0] == "struct":
            x.check(isinstance(got, S[0]), here + "%s is %r, not the structure" % (how, got))
            x.check(eq(got.a, e[1]), here + "%s.a is %r" % (how, got.a))
        else:
            x.check(same(got, e), here + "%s is %r" % (how, got))

    x.check(same(r(), want), here + "() is %r" % (r(),))
    for i, e in enumerate(exp):
        compare(r[i], e, "[%d]" % i)
        compare(r["p%d" % i], e, "['p%d']" % i)
    parts = list(r)
    x.check(len(parts) == 2, here + "unpacks into %d" % len(parts))
    x.check(same(parts[0], want), here + "first part %r" % (parts[0],))
    rest = list(parts[1])
    x.check(len(rest) == len(exp), here + "unpacks into the arguments %r" % (rest,))
    for i, (g, e) in enumerate(zip(rest, exp)):
        compare(g, e, "argument %d unpacked" % i)
    auto = r.auto()
    idx = [i for i, m in enumerate(ms) if m == "omit"]
    x.check(isinstance(auto, list) and len(auto) == len(idx), here + "auto() is %r" % (auto,))
    for g, i in zip(auto, idx):
        compare(g, exp[i], "auto() for %d" % i)
    # unknown names and positions are refused
    for bad in ("p9", len(kinds), None):
        try:
            r[bad]
            x.check(False, here + "[%r] gives something" % (bad,))
        except (KeyError, IndexError, ValueError):
            pass
    # a second call does not disturb the first result, nor a stored argument the others
    given_ = [i for i, m in enumerate(ms) if m == "given"]
    if given_:
        i = given_[-1]
        nv = x.int("set", 20, 30)
        r["p%d" % i] = nv
        x.check(eq(r[i], nv), here + "[%d] after storing is %r" % (i, r[i]))
        exp[i] = nv
    first = fn.calls[-1]
    wrote_, ms_ = dict(wrote), list(ms)
    ms[:] = ["given"] * len(ms)
    call(x, ct, f, types, kinds, ["kw"] * len(kinds), tag="z")
    ms[:] = ms_
    for i, e in enumerate(exp):
        compare(r[i], e, "[%d] after another call" % i)
