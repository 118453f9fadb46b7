"""C19 - what is read back from a cache equals what was parsed."""

import itertools
import os

from checks.canon import table
from checks.common import And, eq, parse_files
from symx import env

FUNCTIONS = ["CParser.process_all", "CParser.write_cache", "CParser.load_cache", "CParser.import_dict", "CParser.add_def", "CParser.rem_def", "CParser.preprocess (#undef)", "Type/Struct/Union/Enum pickling"]
ASSUMPTIONS = ["literal values, array bounds, bit widths and packing are symbolic; pickle is the real one"]
OUTSIDE = "two headers with the same base name in different directories; more headers than three"
REACH = ["undef", "redefinition", "used later"]

ITEMS = {
    "macro": "#define M%(i)d %(a)s\n",
    "redef": "#define M0 %(a)s\n",
    "undef": "#undef M0\n",
    "fnmacro": "#define F%(i)d(x, y) ((x) + %(a)s * y)\n",
    "undef-fn": "#undef F0\n",
    "enum": "enum E%(i)d { E%(i)d_A = %(a)s, E%(i)d_Z, E%(i)d_B };\n",
    "packed": "#pragma pack(push, %(p)s)\nstruct P%(i)d { char c; unsigned int b : %(w)s; const int v[%(a)s]; };\n#pragma pack(pop)\n",
    "union": "typedef union { int a; union { char b; }; } U%(i)d;\n",
    "fnptr": "typedef int (*T%(i)d)(const char *s, double, int *const v[%(a)s]);\n",
    "var": "const volatile unsigned long v%(i)d[%(a)s][3];\n",
    "init": "int w%(i)d = %(a)s + 1;\n",
    "func": "static const char *f%(i)d(struct Q *q, int n);\n",
    "redecl": "typedef long R;\nint R0(R r);\n",
    "retype": "typedef short R;\n",
    "string": '#define S%(i)d "text %(i)d"\n',
}
USE = "#ifdef M0\nint uses_m0[M0];\n#endif\n#ifdef M1\nint m1_is;\n#endif\n#if defined(F0)\nint f0_is;\n#endif\nR *last;\n"


def setup(symbolic):
    import pyclibrary.backends.ctypes  # noqa: F401


def BOUNDS(tier):
    return "every sequence of %s declarations over %d forms, split over two headers at any point, read back by a parser of the same headers, and used through copy_from by a further header" % (
        "<= 2, and a selection of 3" if tier == "quick" else "<= 3", len(ITEMS),
    )


def cases(tier):
    names = list(ITEMS)
    out = []
    for n in (1, 2, 3):
        for k, seq in enumerate(itertools.product(names, repeat=n)):
            if n == 3 and (k % (11 if tier == "quick" else 2)) and not (seq[0] in ("macro", "fnmacro") and "undef" in seq[1] + seq[2]):
                continue
            for cut in range(0, n + 1) if n < 3 else [1 + k % 2]:
                if cut == 0 and n > 1:
                    continue
                out.append((seq, cut))
    return out


def harness(x, case):
    seq, cut = case
    texts = ["", ""]
    for i, name in enumerate(seq):
        vals = {"i": i}
        t = ITEMS[name]
        for key, lo, hi in (("a", 1, 99), ("w", 1, 31), ("p", 1, 8)):
            if "%%(%s)s" % key in t:
                vals[key] = x.lit(x.int("%s%d" % (key, i), lo, hi))
        if name == "undef":
            x.reach("undef")
        if name == "redef":
            x.reach("redefinition")
        texts[0 if i < cut else 1] += t % vals
    files = [("one.h", texts[0]), ("two.h", texts[1])]
    here = "headers %r: " % (texts,)
    cache = os.path.join(env.scratch(), "round.cache")
    if os.path.exists(cache):
        os.unlink(cache)
    kw = {"macros": {"GIVEN": "3"}}
    fresh = parse_files(files, **kw)
    want, want_files = table(fresh.defs), per_file(fresh)
    wrote = parse_files(files, cache=cache, **kw)
    x.check(eq(table(wrote.defs), want), here + "differs when a cache is written")
    # from here on the headers on disk say something else
    back = parse_cached(files, cache, kw)
    x.check(eq(table(back.defs), want), here + "read back as %r, parsed as %r" % (back.defs, fresh.defs))
    got_files = per_file(back)
    x.check(eq(got_files, want_files), here + "per file: read back as %r, parsed as %r" % (back.file_defs, fresh.file_defs))
    # without the headers and the options they were read with
    from pyclibrary.c_parser import CParser

    alone = CParser([], cache=cache, check_cache_validity=False)
    x.check(eq(table(alone.defs), want), here + "read back without the headers as %r, parsed as %r" % (alone.defs, fresh.defs))
    x.check(eq(per_file(alone), want_files), here + "per file: read back without the headers as %r, parsed as %r" % (alone.file_defs, fresh.file_defs))
    # what is read back can be used further
    x.reach("used later")
    later = [("use.h", ("" if "R" in want["types"] else "typedef int R;\n") + USE)]
    x.check(
        eq(table(parse_files(later, copy_from=back).defs), table(parse_files(later, copy_from=fresh).defs)),
        here + "a header using the cached definitions reads differently",
    )
    for q in ("M0", "E0", "v0", "R", "F0"):
        x.check(sorted(map(str, back.find(q))) == sorted(map(str, fresh.find(q))), here + "find(%r) is %r" % (q, back.find(q)))


def parse_cached(files, cache, kw):
    from pyclibrary.c_parser import CParser

    # same names, same (older) times, other contents: only the cache can know
    paths = []
    for n, t in files:
        p = env.write(n, "int not_from_the_cache;\n")
        os.utime(p, (1000000000, 1000000000))
        paths.append(p)
    return CParser(paths, cache=cache, **kw)


def per_file(p):
    """Files without definitions do not count."""
    return {f: table(d) for f, d in p.file_defs.items() if any(d.values())}
