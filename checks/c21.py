"""C21 - a library of the wrong bitness is refused, any other one is opened."""

import os
import sys

from checks import libfiles
from checks.calls import parser
from checks.common import And, Iff, Not, Or

FUNCTIONS = ["CLibraryMeta.__call__", "LibraryPath.arch", "LibraryPath.is_32bit", "LibraryPath.is_64bit", "LibraryPath.bitness", "get_arch", "check_output", "find_library"]
ASSUMPTIONS = [
    "what the `file` command answers (32-bit, 64-bit, both, neither, in any order, failure status, command missing) and the bitness of Python are symbolic; a stand-in replaces the command, the shared objects are real",
]
OUTSIDE = "Windows and macOS answers; the PE header reader"
REACH = ["refused", "opened", "unknown", "failed"]


def setup(symbolic):
    import pyclibrary.backends.ctypes  # noqa: F401


def BOUNDS(tier):
    return "every answer of `file` within the listed ones, both bitnesses of Python, three ways of naming the library, %d openings in a row" % (2 if tier == "quick" else 3)


def cases(tier):
    return [(s, "quick" if tier == "quick" else "thorough") for s in ("path", "name", "query")]


def answer(x, i):
    """-> description of what `file` says, as sets of conditions"""
    b32, b64 = x.bool("says32_%d" % i), x.bool("says64_%d" % i)
    fault = x.choose("fault%d" % i, 3)
    return b32, b64, fault


def harness(x, case):
    s, tier = case
    from pyclibrary.c_library import CLibrary
    from pyclibrary.utils import LibraryPath, add_library_locations
    import pyclibrary.utils as utils

    d = libfiles.objects()
    old = sys.maxsize
    add_library_locations([d])
    libfiles.patch()
    keep = []
    try:
        CLibrary.libs.clear()
        for i in range(2 if tier == "quick" else 3):
            b32, b64, fault = answer(x, i)
            py64 = x.bool("python64_%d" % i)
            text = b"lib.so: ELF "
            for_32, for_64 = (b"32-bit LSB, ", b"64-bit LSB, ")
            # forks here: the text is made of bytes the command prints
            is32, is64 = bool(b32), bool(b64)
            parts = [for_32] * is32 + [for_64] * is64
            if len(parts) == 2 and x.choose("order%d" % i, 2):
                parts.reverse()
            text += b"".join(parts) + b"for 132bits, 6464-bi t"
            libfiles.OUTPUT.update(text=text, rc=0, fail=None)
            known = [b for b, f in ((32, is32), (64, is64)) if f]
            if fault:
                x.reach("failed")
                known = []
                if fault == 1:
                    libfiles.OUTPUT["rc"] = 1
                else:
                    libfiles.OUTPUT["fail"] = FileNotFoundError("file")
            if not known:
                x.reach("unknown")
            bits = 64 if py64 else 32
            path = os.path.join(d, "lib%s.so" % "ab"[i % 2])
            here = "file says %r (fault %d), Python has %d bits: " % (libfiles.OUTPUT["text"], fault, bits)
            if s == "query":
                lp = LibraryPath(path)
                for _ in range(2):
                    x.check(tuple(lp.arch) == tuple(known), here + "arch is %r" % (lp.arch,))
                    x.check(lp.is_32bit == ((32 in known) if known else "n/a"), here + "is_32bit is %r" % (lp.is_32bit,))
                    x.check(lp.is_64bit == ((64 in known) if known else "n/a"), here + "is_64bit is %r" % (lp.is_64bit,))
                    x.check(lp.bitness == (", ".join(map(str, known)) or "n/a"), here + "bitness is %r" % (lp.bitness,))
                x.check(lp == path and lp.path == path, here + "path is %r" % (lp,))
                continue
            sys.maxsize = 2**63 - 1 if bits == 64 else 2**31 - 1
            try:
                obj = CLibrary(path if s == "path" else os.path.basename(path), parser("int get_an_integer(void);\n"))
            except OSError as e:
                obj = e
            finally:
                sys.maxsize = old
            if known and bits not in known:
                x.reach("refused")
                x.check(isinstance(obj, OSError), here + "the library was opened")
            else:
                x.reach("opened")
                x.check(not isinstance(obj, OSError), here + "refused: %r" % (obj,))
                x.check(obj.get_an_integer()() == 42, here + "cannot be called")
                if x.choose("keep%d" % i, 2):
                    keep.append(obj)
            del obj
    finally:
        sys.maxsize = old
        libfiles.unpatch()
        keep.clear()
        CLibrary.libs.clear()
        utils.LIBRARY_DIRS[:] = [q for q in utils.LIBRARY_DIRS if q != d]
