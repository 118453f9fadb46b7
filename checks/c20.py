"""C20 - headers and libraries are found in the documented order of places."""

import os

from checks.common import Or
from checks.fakefs import FS, ROOT

FUNCTIONS = ["utils.find_header", "utils.find_library", "utils.add_header_locations", "utils.add_library_locations", "CParser.find_headers", "CLibraryMeta.__call__ (search)"]
ASSUMPTIONS = [
    "which directories exist and which of them contain the file is symbolic (os.stat answers from the solver's choice); what ldconfig prints is a stand-in",
]
OUTSIDE = "Windows and macOS locations; the search done by ldconfig and gcc themselves"
REACH = ["given", "added", "standard", "missing", "rejected", "as given"]
STD = ["/usr/local/include", "/usr/target/include", "/usr/include"]
H = "symx_sought.h"
L = "symxz9"


def setup(symbolic):
    import pyclibrary.backends.ctypes  # noqa: F401


def BOUNDS(tier):
    return "up to 2 directories given with the call and %d added in one or two steps (any of them absent), the packaged and the standard ones; two searches in a row; every placement of the file" % (3 if tier == "quick" else 4)


def cases(tier):
    out = []
    for kind in ("header", "parser", "library"):
        for ngiven in (0, 1, 2):
            for adds in ((), (1,), (2,), (1, 1), (1, 2), (2, 1), (1, 1, -1), (2, -1)) + (((2, 2), (3, 1), (1, 1, 2)) if tier != "quick" else ()):
                if kind == "parser" and ngiven:
                    continue
                for seq in ("list", "tuple"):
                    if ngiven == 0 and seq == "tuple":
                        continue
                    out.append((kind, ngiven, adds, seq))
    return out


class Out:
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return iter(self.text.splitlines(True))


def harness(x, case):
    kind, ngiven, adds, seq = case
    import pyclibrary.utils as u
    from pyclibrary.c_parser import CParser

    lib = kind == "library"
    sought = L if lib else H
    registry = u.LIBRARY_DIRS if lib else u.HEADER_DIRS
    saved = list(registry)
    fs = FS()
    has = {}

    def directory(name):
        d = ROOT + "/" + name
        fs.dirs[d] = x.bool("exists_" + name)
        has[d] = x.bool("has_" + name)
        fs.files[d + "/" + sought] = has[d]
        return d

    given = [directory("g%d" % i) for i in range(ngiven)]
    # -1: the first directory is added again
    added = []
    for i, n in enumerate(adds):
        added.append([added[0][0]] if n < 0 else [directory("a%d_%d" % (i, j)) for j in range(n)])
    std = [] if lib else [os.path.join(os.path.dirname(u.__file__), "headers")] + STD
    for i, d in enumerate(std):
        has[d] = x.bool("std%d" % i)
        fs.files[os.path.join(d, sought)] = has[d]
    system = x.bool("system") if lib else False
    real_popen = os.popen

    def popen(cmd, *a, **k):
        return Out("\tlib%s.so (libc6,x86-64) => /nonexistent-symx/sys/lib%s.so.1\n" % (L, L) if "ldconfig" in cmd and system else "\tlibother.so => /lib/libother.so\n")

    arg = None if not ngiven else (list(given) if seq == "list" else tuple(given))
    before = None if arg is None else type(arg)(arg)
    lists = [list(a) for a in added]
    here = "%s, dirs %r, added %r: " % (kind, arg, lists)

    def search(dirs):
        try:
            if lib:
                return str(u.find_library(sought, dirs) if dirs is not None else u.find_library(sought))
            if kind == "parser":
                hs = CParser.find_headers(CParser.__new__(CParser), [sought])
                x.check(isinstance(hs, list) and len(hs) == 1, here + "find_headers gives %r" % (hs,))
                return hs[0]
            return u.find_header(sought, dirs) if dirs is not None else u.find_header(sought)
        except OSError:
            return None

    def expect(places):
        for d in places:
            if has[d]:
                return os.path.join(d, sought)
        if lib and system:
            return os.path.realpath("/nonexistent-symx/sys/lib%s.so.1" % L)
        return None

    try:
        os.popen = popen
        with fs:
            asgiven = False
            if kind == "parser":
                fs.files[sought] = x.bool("as_given")
            for a in lists:
                (u.add_library_locations if lib else u.add_header_locations)(a)
            x.check(lists == added, here + "the caller's lists were altered: %r" % (lists,))
            # the last added directory is searched first; absent ones were rejected
            reg = []
            for a in added:
                for d in a:
                    if fs.dirs[d]:
                        reg.append(d)
                    else:
                        x.reach("rejected")
            for rnd in range(2):
                dirs = arg if rnd == 0 else None
                places = (list(given) if rnd == 0 else []) + reg[::-1] + std
                got = search(dirs)
                want = expect(places)
                if kind == "parser" and fs.files[sought]:
                    x.reach("as given")
                    want = sought
                x.check(got == want, here + "search %d gives %r, expected %r" % (rnd, got, want))
                x.check(arg == before, here + "the caller's directories were altered: %r" % (arg,))
                if want is None:
                    x.reach("missing")
                elif any(want.startswith(d + "/") for d in given):
                    x.reach("given")
                elif any(want.startswith(d + "/") for d in reg):
                    x.reach("added")
                else:
                    x.reach("standard")
    finally:
        os.popen = real_popen
        registry[:] = saved
