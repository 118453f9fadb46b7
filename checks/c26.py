"""C26 - several headers read as one text; copied definitions are independent."""

import itertools
import re

from checks.canon import table
from checks.common import And, eq, parse, parse_files

FUNCTIONS = ["CParser.__init__", "CParser.load_file", "CParser.process_all", "CParser.import_dict", "CParser.add_def", "CParser.rem_def", "CParser.preprocess", "CParser.find", "CParser.find_text"]
ASSUMPTIONS = ["literal values are symbolic, and so is the point where the text is cut into headers"]
OUTSIDE = "headers with the same base name; directives or declarations spanning two headers; a #pragma pack left open at the end of a header"
REACH = ["two", "copied", "chain", "replace", "find", "undef", "given"]

ITEMS = {
    "macro": "#define M %(a)s\n",
    "macro2": "#define N M\n",
    "undef": "#undef M\n",
    "use": "int used_%(i)d[M];\n",
    "cond": "#if M > %(a)s\nint big_%(i)d;\n#else\nint small_%(i)d;\n#endif\n",
    "ifdef": "#ifdef M\nint there_%(i)d;\n#endif\n",
    "fn": "#define G(a) ((a) + %(a)s)\n",
    "callfn": "int called_%(i)d[G(2)];\n",
    "type": "typedef short T;\n",
    "type2": "typedef T *U[%(a)s];\n",
    "struct": "struct S { T *t; struct S *next; };\n",
    "fwd": "struct S;\ntypedef struct S S_t;\n",
    "enum": "enum { A_%(i)d = %(a)s, B_%(i)d };\n",
    "anon": "struct { int q_%(i)d; } v_%(i)d;\n",
    "func": "S_t *f(U u, int n);\n",
}


def setup(symbolic):
    import pyclibrary.c_parser  # noqa: F401


def BOUNDS(tier):
    return "every sequence of %s items over %d kinds, cut at every point; read as one header, two headers, through copy_from, through two copies" % ("<= 2, a third of those of 3" if tier == "quick" else "<= 3", len(ITEMS))


def cases(tier):
    out = []
    names = list(ITEMS)
    for n in (2, 3):
        for k, seq in enumerate(itertools.product(names, repeat=n)):
            if n == 3 and tier == "quick" and (k % 5) and not ("macro" == seq[0] and "undef" in seq):
                continue
            if valid(seq):
                out.append(seq)
    return out


def valid(seq):
    """Macros are used where they are defined."""
    m = g = False
    for s in seq:
        if s == "use" and not m or s == "callfn" and not g:
            return False
        m = s == "macro" or m and s != "undef"
        g = g or s == "fn"
    return True


def harness(x, case):
    seq = case
    cut = x.choose("cut", len(seq) - 1) + 1
    texts = []
    for i, name in enumerate(seq):
        v = {"i": i}
        if "%(a)s" in ITEMS[name]:
            v["a"] = x.lit(x.int("a%d" % i, 1, 9))
        if name == "undef":
            x.reach("undef")
        texts.append(ITEMS[name] % v)
    one, two = "".join(texts[:cut]), "".join(texts[cut:])
    here = "headers %r %r: " % (one, two)
    whole = table(parse(one + two).defs)
    x.reach("two")
    both = parse_files([("p1.h", one), ("p2.h", two)])
    x.check(eq(table(both.defs), whole), here + "as one text %r, apart %r" % (whole, both.defs))
    first = parse_files([("p1.h", one)])
    d1, fd1 = table(first.defs), {f: table(d) for f, d in first.file_defs.items()}
    x.reach("copied")
    second = parse_files([("p2.h", two)], copy_from=first)
    x.check(eq(table(second.defs), whole), here + "through copy_from %r, together %r" % (second.defs, whole))
    x.check(eq(table(first.defs), d1), here + "the definitions copied from were altered: %r" % (first.defs,))
    x.check(eq({f: table(d) for f, d in first.file_defs.items()}, fd1), here + "the definitions copied from were altered: %r" % (first.file_defs,))
    # where each definition came from
    own = {f: {k: set(d[k]) for k in d if d[k]} for f, d in both.file_defs.items()}
    for f, tabs in own.items():
        x.check(f in ("p1.h", "p2.h"), here + "definitions of %r" % (f,))
        for k, names in tabs.items():
            x.check(names <= set(both.defs[k]), here + "%s of %s are %r" % (k, f, names))
    for k, d in both.defs.items():
        for n in d:
            x.check(any(n in own.get(f, {}).get(k, ()) for f in own), here + "%s %s belongs to no file" % (k, n))
            x.check(eq(own_value(both, k, n), d[n]), here + "%s %s differs between the file and the whole" % (k, n))
    x.reach("chain")
    last = parse_files([("p3.h", "int last;\n")], copy_from=[second, parse_files([("p4.h", "#define OTHER 4\n")])])
    l = table(last.defs)
    x.check(eq({k: {n: l[k].get(n, "absent") for n in whole[k]} for k in whole}, whole), here + "lost when copied again: %r" % (last.defs,))
    x.check("last" in l["variables"] and "OTHER" in l["macros"], here + "own definitions lost")
    extra = {n for k in l for n in l[k] if n not in whole[k]}
    x.check(extra == {"last", "OTHER"}, here + "made up when copied again: %r" % (extra,))
    # replacements apply to the text before anything else
    x.reach("replace")
    rep = parse(one + "int REPL;\nint keep_REPL2;\n", replace={"REPL;": "changed;", r"keep_(\w+)2": r"\1_kept"})
    x.check("changed" in rep.defs["variables"] and "REPL" not in rep.defs["variables"], here + "replacement: %r" % (rep.defs["variables"],))
    x.check("REPL_kept" in rep.defs["variables"], here + "replacement: %r" % (rep.defs["variables"],))
    # definitions given as arguments are there and can be overridden
    x.reach("given")
    giv = parse("#if GIVEN == 3\nint given_ok;\n#endif\n#undef GIVEN\n#ifdef GIVEN\nint given_bad;\n#endif\n", macros={"GIVEN": "3"})
    x.check(set(giv.defs["variables"]) == {"given_ok"}, "macros given as arguments: %r" % (giv.defs,))
    # finding them again
    x.reach("find")
    for n in ("M", "T", "S", "f", "G", "nothing"):
        want = sorted((f, k) for f, tabs in own.items() for k, ns in tabs.items() if n in ns)
        x.check(sorted(both.find(n)) == want, here + "find(%r) is %r" % (n, both.find(n)))
    rx = re.compile("[MN]$|used")
    want = sorted((f, k, n) for f, tabs in own.items() for k, ns in tabs.items() for n in ns if rx.match(n))
    x.check(sorted(both.find(rx)) == want, here + "find(regex) is %r" % (both.find(rx),))


def own_value(p, k, n):
    """The last file defining it decides."""
    v = None
    for f, d in p.file_defs.items():
        if n in d[k]:
            v = d[k][n]
    return v
