"""C17 - a library has one wrapper as long as somebody holds it."""

import os

from checks import libfiles
from checks.calls import parser

FUNCTIONS = ["CLibraryMeta.__call__", "CLibrary.__init__", "backends.identify_library", "backends.get_library_path", "utils.find_library"]
ASSUMPTIONS = [
    "the sequence of operations (open one of two libraries under one of its spellings, forget, call) is symbolic; real shared objects in a scratch directory, real ctypes",
]
OUTSIDE = "libraries opened by several threads at once; a file replaced between two openings; relative paths"
REACH = ["same", "fresh", "forgotten", "called"]
SPELL = ["path", "dots", "link", "name", "linkname", "cdll", "cdll-link"]
TEXT = "int get_an_integer(void);\n#define X %d\n"


def setup(symbolic):
    import pyclibrary.backends.ctypes  # noqa: F401


def _n(tier):
    return 3 if tier == "quick" else 4


def BOUNDS(tier):
    return "every sequence of %d openings over two libraries and the spellings %s, each followed or not by forgetting what is held" % (_n(tier), SPELL)


def cases(tier):
    return [(s, l, _n(tier)) for s in SPELL for l in "ab"]


def harness(x, case):
    s0, l0, n = case
    import ctypes
    import gc

    import pyclibrary.utils as utils
    from pyclibrary.c_library import CLibrary
    from pyclibrary.utils import add_library_locations

    d = libfiles.objects()
    if d not in utils.LIBRARY_DIRS:
        add_library_locations([d])
    libfiles.patch()
    libfiles.OUTPUT.update(text=b"ELF 64-bit", rc=0, fail=None)
    held = {}  # library -> wrapper
    hist = []
    handles = []
    try:
        CLibrary.libs.clear()
        for i in range(n):
            s = s0 if i == 0 else SPELL[x.choose("spell%d" % i, len(SPELL))]
            l = l0 if i == 0 else "ab"[x.choose("lib%d" % i, 2)]
            arg = {
                "path": os.path.join(d, "lib%s.so" % l),
                "dots": os.path.join(d, "sub", "..", "lib%s.so" % l),
                "link": os.path.join(d, "link%s.so" % l),
                "name": "lib%s.so" % l,
                "linkname": "link%s.so" % l,
            }.get(s)
            if arg is None:
                arg = ctypes.CDLL(os.path.join(d, ("lib%s.so" if s == "cdll" else "link%s.so") % l))
                handles.append(arg)
            hist.append((s, l))
            here = "openings %s: " % hist
            obj = CLibrary(arg, parser(TEXT % i))
            if l in held:
                x.reach("same")
                x.check(obj is held[l], here + "the last is not the wrapper of lib%s already held" % l)
            else:
                x.reach("fresh")
                x.check(all(obj is not o for o in held.values()), here + "the last is the wrapper of another library")
                # the headers given now are the ones in use
                x.check(obj.X == i, here + "X is %r, the header says %d" % (obj.X, i))
            held[l] = obj
            x.reach("called")
            x.check(obj.get_an_integer()() == 42, here + "cannot be called")
            linked = vars(obj).get("_lib_")
            name = os.path.realpath(linked._name) if linked is not None else None
            x.check(name is None or name == os.path.join(os.path.realpath(d), "lib%s.so" % l), here + "is linked to %s" % name)
            del obj
            if i < n - 1 and x.choose("forget%d" % i, 2):
                x.reach("forgotten")
                hist.append("forget")
                held.clear()
                gc.collect()
    finally:
        libfiles.unpatch()
        CLibrary.libs.clear()
        utils.LIBRARY_DIRS[:] = [q for q in utils.LIBRARY_DIRS if q != d]
