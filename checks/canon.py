"""Definitions as plain nested tuples: class, order, qualifiers and all."""


def canon(v):
    if hasattr(v, "type_quals"):
        return ("Type", tuple(canon(i) for i in tuple.__iter__(v)), canon(tuple(v.type_quals)))
    if isinstance(v, dict):
        return (type(v).__name__, tuple((k, canon(i)) for k, i in v.items()))
    if isinstance(v, tuple):
        return tuple(canon(i) for i in v)
    if isinstance(v, list):
        return ("list", tuple(canon(i) for i in v))
    return v


def table(defs):
    """Order of definition inside a table is not part of it."""
    return {k: {n: canon(v) for n, v in d.items()} for k, d in defs.items()}
