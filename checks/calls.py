"""Functions of a stand-in shared object, and ways to call them."""

from checks.ct import FakeLib, library, module

# kind -> (parameter declaration, is it a pointer, may it be left out)
KINDS = {
    "val": ("int %s", False, False),
    "dbl": ("double %s", False, False),
    "ptr": ("int *%s", True, True),
    "pp": ("int **%s", True, True),
    "sp": ("struct S *%s", True, True),
    "cpp": ("char **%s", True, True),
    "tdp": ("ip %s", True, True),
    "cptr": ("const unsigned short *%s", True, True),
    "tdpp": ("ip *%s", True, True),
    "enum": ("enum E %s", False, False),
    "struct": ("struct S %s", False, False),
    "spp": ("S_t **%s", True, True),
}
HEAD = "typedef int *ip;\nstruct S { int a; int b; };\ntypedef struct S S_t;\nenum E { E0, E1 };\n"
TAIL = "typedef short later;\nint other(int q);\n"


def prototype(kinds, name="f", ret="int"):
    ps = ", ".join(KINDS[k][0] % ("p%d" % i) for i, k in enumerate(kinds)) or "void"
    return "%s %s(%s);\n" % (ret, name, ps)


class Func:
    """Stands for one C function: records the calls, runs `body`."""

    def __init__(self, body=None):
        self.calls = []
        self.body = body
        self.argtypes = None
        self.restype = None

    def __call__(self, *args):
        self.calls.append(args)
        return self.body(args) if self.body is not None else 0


_parsers = {}


def parser(text):
    """Parsed once per process: the parser is not what these checks vary."""
    from checks.common import parse

    if text not in _parsers:
        if len(_parsers) > 50:
            _parsers.clear()
        _parsers[text] = parse(text)
    return _parsers[text]


def make(kinds, body=None, ret="int", **kw):
    fn = Func(body)
    lib = library(parser(HEAD + prototype(kinds, ret=ret) + TAIL), FakeLib(f=fn, other=Func()), **kw)
    return lib, fn


def given(x, ct, i, kind, t, tag=""):
    """An argument value the caller supplies (t: the declared ctypes type)."""
    if kind in ("val", "dbl", "enum"):
        return x.int("v%d%s" % (i, tag), -5, 5)
    # pointers are handed over as they are, NULL ones (which are false) included
    return t()


def isnull(ct, v, t):
    return isinstance(v, t) and not v


def modes(x, kinds, tag=""):
    """How each argument is given: a symbolic choice.  Positional ones first."""
    n = len(kinds)
    npos = x.choose("npos" + tag, n + 1)
    out = []
    for i in range(n):
        if i < npos:
            out.append(("pos", "posnone")[x.choose("m%d%s" % (i, tag), 2)])
        else:
            out.append(("kw", "kwnone", "omit")[x.choose("m%d%s" % (i, tag), 3)])
    return out


def call(x, ct, f, types, kinds, ms, tag="", reverse=False):
    """-> (result or exception, given values by index)"""
    args, kwargs, vals = [], {}, {}
    for i, (k, m) in enumerate(zip(kinds, ms)):
        v = None
        if m in ("pos", "kw"):
            v = vals[i] = given(x, ct, i, k, types[i], tag)
        if m.startswith("pos"):
            args.append(v)
        elif m.startswith("kw"):
            kwargs["p%d" % i] = v
    if reverse:
        kwargs = dict(reversed(list(kwargs.items())))
    try:
        return f(*args, **kwargs), vals
    except TypeError as e:
        return e, vals


def refused(kinds, ms):
    """Must the call be refused?"""
    for k, m in zip(kinds, ms):
        if m == "omit" and not KINDS[k][2]:
            return True
        if m.endswith("none") and not KINDS[k][1]:
            return True
    return False
