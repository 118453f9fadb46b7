"""A stand-in for ctypes that builds types from symbolic sizes and widths.

ctypes is C code: `c_int * n` needs a machine integer.  During a symbolic run
the backend is imported against this module, which records how each type was
built under the same attribute names ctypes uses; a replay uses the real ctypes.
Everything not defined here falls through to the real module.
"""

import ctypes as _real

from .engine import SymBool, SymInt


class Meta(type):
    def __mul__(cls, n):
        if not isinstance(n, (int, SymInt)) or isinstance(n, bool):
            raise TypeError("can't multiply sequence by non-int")
        if isinstance(n, int) and n < 0:
            raise ValueError("Array length must be >= 0")
        return Meta("Array", (Array,), {"_type_": cls, "_length_": n})

    __rmul__ = __mul__
    __sx_repeat__ = __mul__

    def from_param(cls, v):
        return v


class _CData(metaclass=Meta):
    def __init__(self, *a, **k):
        self._a = a


class _SimpleCData(_CData):
    def __init__(self, value=None):
        self.value = value


class Array(_CData):
    def __getitem__(self, i):
        return self._a[i]

    def __len__(self):
        return self._length_


class _Pointer(_CData):
    def __init__(self, contents=None):
        self.contents = contents

    def __bool__(self):
        return self.contents is not None

    def __getitem__(self, i):
        c = self.contents
        if c is None:
            raise ValueError("NULL pointer access")
        return c.value if type(c).__mro__[1] is _SimpleCData else c

    def __setitem__(self, i, v):
        c = self.contents
        if c is None:
            raise ValueError("NULL pointer access")
        if type(c).__mro__[1] is _SimpleCData:
            c.value = v
        else:
            self.contents = v


class _CFuncPtr(_CData):
    pass


class CompoundMeta(Meta):
    """Structure and Union: the layout is fixed when _fields_ is assigned."""

    def __setattr__(cls, name, value):
        type.__setattr__(cls, name, value)
        if name == "_fields_":
            anon = list(cls.__dict__.get("_anonymous_", ()))
            fields = [tuple(f) for f in value]
            for f in fields:
                if not isinstance(f[0], str) or not isinstance(f[1], Meta):
                    raise TypeError("second item in _fields_ tuple must be a C type")
                if len(f) > 2 and not isinstance(f[2], (int, SymInt)):
                    raise TypeError("an integer is required (got type %s)" % type(f[2]).__name__)
            names = {f[0]: f[1] for f in fields}
            for n in anon:
                if n not in names or not isinstance(names[n], CompoundMeta):
                    raise AttributeError(n)
            type.__setattr__(cls, "_layout_", (cls.__dict__.get("_pack_"), anon, fields))


class Structure(_CData, metaclass=CompoundMeta):
    pass


class Union(_CData, metaclass=CompoundMeta):
    pass


_simple = {}


def _mk(rc):
    if rc not in _simple:
        _simple[rc] = Meta(
            rc.__name__, (_SimpleCData,), {"_type_": rc._type_, "_real_": rc, "_size_": _real.sizeof(rc)}
        )
    return _simple[rc]


for _n in dir(_real):
    _c = getattr(_real, _n)
    if isinstance(_c, type) and issubclass(_c, _real._SimpleCData) and _c is not _real._SimpleCData:
        if isinstance(getattr(_c, "_type_", None), str):
            globals()[_n] = _mk(_c)

_ptr = {}


def POINTER(t):
    if t is None:
        return globals()["c_void_p"]
    if not isinstance(t, Meta):
        raise TypeError("must have a ctypes type")
    if t not in _ptr:
        _ptr[t] = Meta("LP_" + t.__name__, (_Pointer,), {"_type_": t})
    return _ptr[t]


def pointer(o):
    return POINTER(type(o))(o)


def CFUNCTYPE(res, *args, **kw):
    for i, a in enumerate(args):
        if not hasattr(a, "from_param"):
            raise TypeError("item %d in _argtypes_ has no from_param method" % (i + 1))
    if res is not None and not isinstance(res, Meta):
        raise TypeError("_restype_ must be a type, a callable, or None")
    return Meta("CFunctionType", (_CFuncPtr,), {"_restype_": res, "_argtypes_": tuple(args)})


class Cast(_CData):
    def __init__(self, obj, typ):
        self.obj, self.typ = obj, typ


def cast(obj, typ):
    return Cast(obj, typ)


def sizeof(t):
    raise NotImplementedError


def __getattr__(name):
    return getattr(_real, name)


def install():
    """Import pyclibrary against this module; leave ctypes itself alone."""
    import sys

    assert "pyclibrary" not in sys.modules
    me = sys.modules[__name__]
    sys.modules["ctypes"] = me
    try:
        import pyclibrary  # noqa: F401
        import pyclibrary.backends.ctypes  # noqa: F401
    finally:
        sys.modules["ctypes"] = _real
