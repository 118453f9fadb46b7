"""Helpers shared by the harnesses (no z3 here)."""

import itertools

from symx import env
from symx.ops import And, Iff, Implies, Ite, Not, Or, eq, is_sym, truth  # noqa: F401

_count = itertools.count()


def install_int_shim():
    """int(<literal text>) inside the code under test yields the literal's term."""
    import sys

    import pyclibrary.backends.ctypes  # noqa: F401
    import pyclibrary.c_library  # noqa: F401
    import pyclibrary.c_parser  # noqa: F401

    from symx.engine import IntShim

    for n, m in list(sys.modules.items()):
        if n == "pyclibrary" or n.startswith("pyclibrary."):
            m.int = IntShim


def parse(text, name="h.h", **kw):
    """The public route: a header on disk, parsed by CParser."""
    from pyclibrary.c_parser import CParser

    return CParser([env.write(name, text)], **kw)


def parse_files(texts, **kw):
    from pyclibrary.c_parser import CParser

    return CParser([env.write(n, t) for n, t in texts], **kw)
