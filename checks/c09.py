"""C09 - resolving a type through typedefs gives the type C gives, or refuses."""

from checks.c08 import T, teq
from checks.common import eq  # noqa: F401
from checks.decls import expected, valid

FUNCTIONS = ["Type.eval", "Type.is_fund_type", "Type.__new__", "Type.__init__", "CParser.eval_type"]
ASSUMPTIONS = [
    "the typedef table is read only through lookup and membership (it is a lazily built symbolic table: what a name stands for is decided when it is first read)",
    "array bounds are symbolic integers 0..100000",
]
OUTSIDE = "more typedef names than the bound; qualified uses of array or function typedefs; typedef names containing blanks"
REACH = ["resolved", "cycle", "unknown", "depth3", "array-of-array"]

SHAPES = [(), ("ptr",), ("arr",), ("ptrc",), ("arr", "arr"), ("ptr", "fn"), ("arr", "ptr"), ("inc",), ("ptr", "arr")]
FUND = [("int", "int"), ("unsigned long", "unsigned long"), ("struct s", "struct s"), ("signed char", "char"),
        ("signed", "int"), ("long signed int", "long int"), ("enum e", "enum e"), ("union u", "union u"), ("uint8_t", "uint8_t")]


def _n(tier):
    return 3 if tier == "quick" else 4


SETS = [
    ((), ("ptr",), ("arr",)),
    (("ptrc",), ("arr", "arr"), ("ptr", "fn")),
    (("arr",), ("arr", "ptr"), ("ptr", "arr")),
]


def BOUNDS(tier):
    return "a table of %d typedef names, each standing (symbolically) for any of the names, an unknown name or a fundamental type, with any declarator shape of a set (3 sets, 9 shapes); start type with 9 shapes; all array bounds symbolic" % _n(tier)


def cases(tier):
    out = []
    k = 0
    for s in range(len(SHAPES)):
        for st in range(3):
            for qual in (range(2) if tier == "quick" else range(3)):
                k += 1
                out.append((_n(tier), s, st, k % len(FUND), k % 2, qual))
    return out


class Table(dict):
    """A typedef table whose entries are chosen when first looked at."""

    def __init__(self, make, names):
        super().__init__()
        self.make, self.names = make, names

    def __contains__(self, k):
        return k in self.names

    def __getitem__(self, k):
        if k not in self.names:
            raise KeyError(k)
        if not dict.__contains__(self, k):
            dict.__setitem__(self, k, self.make(k))
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        return self[k] if k in self else d


def harness(x, case):
    n, shape0, sset, fi, via, qualified = case
    from pyclibrary.c_parser import CParser
    from pyclibrary.errors import DefinitionError

    names = ["T%d" % i for i in range(n)]
    fund = [FUND[fi]]
    targets = names + ["unknown_t"] + [f[0] for f in fund]
    model = {}  # name -> (chain, sizes, target, quals of the target)

    def shape(tag, shapes):
        ch = x.pick(tag + "_shape", shapes)
        sizes = [x.int("%s_n%d" % (tag, i), 0, 100000) for i in range(ch.count("arr"))]
        return ch, sizes

    def fnargs(ch):
        return [(("a", T(("int",), ((),)), None),)] * ch.count("fn")

    def build(ch, sizes, tgt, quals):
        items, q = expected(ch, sizes, fnargs(ch), quals)
        return T([tgt, *items], q)

    def make(name):
        ch, sizes = shape(name, SETS[sset])
        tgt = x.pick(name + "_to", targets)
        quals = ("const",) if name == "T%d" % qualified and x.bool(name + "_const") else ()
        model[name] = (ch, sizes, tgt, quals)
        return build(ch, sizes, tgt, quals)

    ch0 = SHAPES[shape0]
    sizes0 = [x.int("n%d" % i, 0, 100000) for i in range(ch0.count("arr"))]
    quals0 = ("volatile",) if x.bool("q0") else ()
    table = Table(make, names)
    start = build(ch0, sizes0, "T0", quals0)

    # what C says: follow the names
    chain, sizes, quals = list(ch0), list(sizes0), quals0
    carried = {}  # index in chain -> extra qualifiers
    seen, cur, verdict = [], "T0", None
    while True:
        if cur in names:
            if cur in seen:
                verdict = "cycle"
                break
            seen.append(cur)
            table[cur]  # decide this entry
            c, s, tgt, q = model[cur]
            if quals:
                if c and not c[0].startswith("ptr"):
                    x.assume(False)  # qualified array or function typedef
                if c:
                    carried[len(chain)] = quals
                    quals = q
                else:
                    quals = q + quals
            else:
                quals = q
            chain += c
            sizes += s
            cur = tgt
        elif cur == "unknown_t":
            verdict = "unknown"
            break
        else:
            break
    x.assume(valid(tuple(d if i == 0 or d != "inc" else "arr" for i, d in enumerate(chain))))
    if "inc" in chain[1:] and any(
        d == "inc" and chain[i - 1] in ("arr", "inc") for i, d in enumerate(chain) if i
    ):
        x.assume(False)  # an array of incomplete arrays

    before = {k: tuple(v) for k, v in table.items()}
    try:
        if via:
            p = CParser(process_all=False)
            p.defs["types"] = table
            got = p.eval_type(start)
        else:
            got = start.eval(table)
        err = None
    except DefinitionError as e:
        got, err = None, e
    text = "resolving %r with %r" % (start, dict(table))
    x.check({k: tuple(v) for k, v in table.items()} == before, "the table changed: " + text)
    if verdict is not None:
        x.reach(verdict)
        x.check(err is not None, "%s typedef accepted: %s -> %r" % (verdict, text, got))
        return
    x.reach("resolved")
    if len(seen) == 3:
        x.reach("depth3")
    x.check(err is None, "refused: %s (%s)" % (text, err))
    want_items, want_quals = expected(chain, sizes, fnargs(tuple(chain)), quals)
    if any(a == "arr" and b == "arr" for a, b in zip(chain, chain[1:])):
        x.reach("array-of-array")
    # qualifiers picked up on the way belong to the derivation they were put on
    want_quals = list(want_quals)
    ranks = _order(chain)
    for i, q in carried.items():
        want_quals[1 + ranks.index(i)] = want_quals[1 + ranks.index(i)] + q
    want = T([dict(fund)[cur], *want_items], tuple(want_quals))
    x.check(teq(got, want), "%s gives %r, C says %r" % (text, got, want))
    again = got.eval(table)
    x.check(teq(again, want), "evaluating the result again gives %r" % (again,))
    x.check(teq(start.eval(table), want), "second evaluation differs: " + text)


def _order(chain):
    """positions of the chain in the order of the declarators"""
    groups = []
    for i, d in enumerate(chain):
        if d in ("arr", "inc") and groups and chain[groups[-1][-1]] in ("arr", "inc"):
            groups[-1].append(i)
        else:
            groups.append([i])
    return [i for g in reversed(groups) for i in g]
