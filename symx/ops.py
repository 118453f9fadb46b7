"""Operators shared by symbolic and concrete runs of a harness.

A harness is written once against these helpers.  In a symbolic run the
operands may be SymBool/SymInt/SymStr (z3 terms) and the result is a z3-backed
value; in a concrete replay everything is a plain Python value.  This module
must not import z3: it is loaded by the replay, which runs in the repository's
own interpreter.
"""

SYM = ()            # filled by symx.engine: the tuple of symbolic classes
_sym = None         # filled by symx.engine: module with the symbolic versions


def is_sym(x):
    return isinstance(x, SYM)


def And(*xs):
    if any(is_sym(x) for x in xs):
        return _sym.sym_and(xs)
    return all(bool(x) for x in xs)


def Or(*xs):
    if any(is_sym(x) for x in xs):
        return _sym.sym_or(xs)
    return any(bool(x) for x in xs)


def Not(x):
    if is_sym(x):
        return _sym.sym_not(x)
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if is_sym(a) or is_sym(b):
        return _sym.sym_iff(a, b)
    return bool(a) == bool(b)


def Ite(c, a, b):
    if is_sym(c):
        return _sym.sym_ite(c, a, b)
    return a if c else b


def truth(x):
    """C truth of an integer, without forking."""
    if is_sym(x):
        return _sym.sym_truth(x)
    return bool(x)


def eq(a, b):
    """Deep equality that does not fork (returns a bool or a SymBool)."""
    if is_sym(a) or is_sym(b):
        return _sym.sym_eq(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b) or any(k not in b for k in a):
            return False
        return And(*[eq(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        # list and tuple are different shapes in this code base
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return And(*[eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if type(a) is not type(b) and not (
        isinstance(a, (int, float)) and isinstance(b, (int, float))
    ) and not (isinstance(a, str) and isinstance(b, str)):
        return False
    return bool(a == b)
