"""Describing ctypes types (the real ones or the recorded ones) and making
libraries whose C side is a Python stand-in."""

SIGNED, UNSIGNED = "bhilq", "BHILQ"


def module(x):
    if x.symbolic:
        from symx import fakectypes

        return fakectypes
    import ctypes

    return ctypes


def describe(ct, t, names=None):
    """A type as nested tuples, from what ctypes exposes about it."""
    if t is None:
        return ("void",)
    for c, n in (names or {}).items():
        if t is c:
            return ("named", n)
    if not isinstance(t, type):
        return ("?", repr(t))
    if issubclass(t, ct._SimpleCData):
        code = t._type_
        size = t._size_ if hasattr(t, "_size_") else ct.sizeof(t)
        kind = (
            "int" if code in SIGNED else "uint" if code in UNSIGNED else {
                "f": "float", "d": "float", "g": "float", "c": "char", "u": "wchar", "?": "bool",
                "z": "char*", "Z": "wchar*", "P": "void*",
            }.get(code, code)
        )
        return (kind, size)
    if issubclass(t, ct.Array):
        return ("array", t._length_, describe(ct, t._type_, names))
    if issubclass(t, ct._Pointer):
        return ("ptr", describe(ct, t._type_, names))
    if issubclass(t, ct._CFuncPtr):
        return ("fn", describe(ct, t._restype_, names), tuple(describe(ct, a, names) for a in t._argtypes_))
    if issubclass(t, ct.Structure):
        return ("struct", t)
    if issubclass(t, ct.Union):
        return ("union", t)
    return ("?", repr(t))


P = 8  # pointer size of the platform the checks run on
BASE = {
    "int": ("int", 4), "unsigned int": ("uint", 4), "unsigned": ("uint", 4), "short": ("int", 2),
    "unsigned short": ("uint", 2), "long": ("int", 8), "unsigned long": ("uint", 8),
    "long long": ("int", 8), "unsigned long long": ("uint", 8), "char": ("char", 1),
    "unsigned char": ("uint", 1), "float": ("float", 4), "double": ("float", 8),
    "long double": ("float", 16), "wchar_t": ("wchar", 4), "bool": ("bool", 1), "void": ("void",),
    "uint8_t": ("uint", 1), "int8_t": ("int", 1), "uint16_t": ("uint", 2), "int16_t": ("int", 2),
    "uint32_t": ("uint", 4), "int32_t": ("int", 4), "uint64_t": ("uint", 8), "int64_t": ("int", 8),
    "size_t": ("uint", 8), "ssize_t": ("int", 8),
}
SPECIAL = {"char": ("char*", P), "wchar_t": ("wchar*", P), "void": ("void*", P)}


def c_type(base, chain, sizes, fnargs, names=None):
    """The ctypes description C asks for; chain from the name inwards."""
    sizes, fnargs = list(sizes), list(fnargs)

    def go(ch):
        if not ch:
            return (names or {}).get(base) or BASE[base]
        d, rest = ch[0], ch[1:]
        if d.startswith("ptr"):
            if not rest and base in SPECIAL:
                return SPECIAL[base]
            if rest and rest[0] == "fn":
                a = fnargs.pop(0)
                return ("fn", go(rest[1:]), a)
            inner = go(rest)
            return ("ptr", inner)
        if d == "inc":
            return ("ptr", go(rest))
        if d == "arr":
            n = sizes.pop(0)
            return ("array", n, go(rest))
        raise ValueError(d)

    return go(tuple(chain))


class FakeLib:
    """Stands for the loaded shared object: functions are Python callables."""

    _name = "/nonexistent/libfake.so"

    def __init__(self, **functions):
        self.__dict__.update(functions)


def library(parser, lib=None, **kw):
    """A ctypes backed CLibrary over a stand-in shared object."""
    from pyclibrary.backends.ctypes import CTypesCLibrary

    obj = CTypesCLibrary.__new__(CTypesCLibrary)
    obj.__init__(lib if lib is not None else FakeLib(), parser, **kw)
    return obj


def setup(symbolic):
    if symbolic:
        from symx import fakectypes

        fakectypes.install()
