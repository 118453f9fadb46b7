"""C declarators: chains of derivations, their spelling, their expected Type.

A chain lists the derivations from the declared name inwards to the base type:
("arr", "ptr", "fn") is "array of pointer to function returning <base>".
"""

PTRS = ("ptr", "ptrc", "ptrv")  # *, * const, * volatile
QUAL = {"ptr": (), "ptrc": ("const",), "ptrv": ("volatile",)}


def is_ptr(d):
    return d in PTRS


def valid(chain):
    for a, b in zip(chain, chain[1:]):
        if a in ("arr", "inc") and b == "fn":
            return False
        if a == "fn" and b in ("fn", "arr", "inc"):
            return False
    for i, a in enumerate(chain):
        if a == "inc" and i != 0:  # only the outermost dimension may be omitted
            return False
    return True


def chains(alphabet, n):
    out = [()]
    lvl = [()]
    for _ in range(n):
        lvl = [c + (d,) for c in lvl for d in alphabet]
        lvl = [c for c in lvl if valid(c)]
        out += lvl
    return out


def spell(chain, name, size, args, sp=""):
    """Declarator text; size() and args() give the spelling of the next array
    bound / argument list, outermost first."""
    text = name
    prev_ptr = False
    for d in chain:
        if is_ptr(d):
            q = {"ptr": "", "ptrc": " const ", "ptrv": " volatile "}[d]
            text = "*" + sp + q + text
            prev_ptr = True
        else:
            if prev_ptr:
                text = "(" + text + ")"
            if d == "arr":
                text += sp + "[" + size() + "]"
            elif d == "inc":
                text += sp + "[]"
            else:
                text += sp + "(" + args() + ")"
            prev_ptr = False
    return text


def expected(chain, sizes, fnargs, base_quals=()):
    """-> (declarators, quals) in the order pyclibrary documents: from the base
    type outwards; consecutive array bounds outermost first."""
    sizes, fnargs = list(sizes), list(fnargs)
    items = []
    for d in chain:
        if is_ptr(d):
            items.append(("*", QUAL[d]))
        elif d == "arr":
            items.append(([sizes.pop(0)], ()))
        elif d == "inc":
            items.append(([-1], ()))
        else:
            items.append((fnargs.pop(0), ()))
    # group runs of arrays, reverse the groups
    groups = []
    for it in items:
        if isinstance(it[0], list) and groups and isinstance(groups[-1][0][0], list):
            groups[-1].append(it)
        else:
            groups.append([it])
    flat = [it for g in reversed(groups) for it in g]
    return [f[0] for f in flat], (tuple(base_quals), *[f[1] for f in flat])
