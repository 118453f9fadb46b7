"""C18 - definitions come from the cache exactly when it is still valid."""

import os

from checks.common import And, Or
from checks.fakefs import FS
from symx import env

FUNCTIONS = ["CParser.__init__", "CParser.process_all", "CParser.load_cache", "CParser.write_cache", "CParser.import_dict", "CParser.load_file"]
ASSUMPTIONS = [
    "the modification times of the headers and of the cache, the options of the run that wrote it and of the run that reads it, the version in the cache and the failure of reading it are symbolic; files are real, os.stat answers with the symbolic times",
    "pickle reads back what it wrote",
]
OUTSIDE = "the mtime of the pyclibrary source file (documented, not implemented, hence not claimed); caches looked up in the package's directory"
REACH = ["used", "stale", "options", "version", "damaged", "unchecked", "rewritten"]
VARIANTS = ["plain", "replace", "macros", "encoding", "copy", "files", "types", "two"]


def setup(symbolic):
    import pyclibrary.backends.ctypes  # noqa: F401


def BOUNDS(tier):
    return "every pair of runs over the options %s with two headers, every order of the three modification times, every cache version, reading failures; a third run on the cache left behind" % (VARIANTS,)


def cases(tier):
    return [(a, b, chk) for a in VARIANTS for b in VARIANTS for chk in (1, 0)]


OLD = ("#define A 1\nint va;\n", "#define B 1\nint vb[2];\n")
NEW = ("#define A 2\nint va2;\n", "#define B 2\nint vb[3];\n")


def options(name, paths, other):
    kw = {"files": list(paths)}
    if name == "replace":
        kw["replace"] = {"int": "long"}
    elif name == "macros":
        kw["macros"] = {"EXTRA": "7"}
    elif name == "types":
        from pyclibrary.c_parser import Type

        kw["types"] = {"EXTRA": Type("int")}
    elif name == "encoding":
        kw["encoding"] = "latin-1"
    elif name == "copy":
        kw["copy_from"] = other
    elif name == "files":
        kw["files"] = list(reversed(paths))
    elif name == "two":
        kw["files"] = list(paths[:1])
    return kw


def public(p):
    return {k: dict(v) for k, v in p.defs.items()}


class Broken:
    """Stands for a cache whose reading fails."""


def harness(x, case):
    opt_a, opt_b, check = case
    from pyclibrary.c_parser import CParser

    import pickle

    from checks.calls import parser

    names = ("one.h", "two.h")
    paths = [env.write(n, t) for n, t in zip(names, OLD)]
    cache = os.path.join(env.scratch(), "defs.cache")
    if os.path.exists(cache):
        os.unlink(cache)
    other = parser("#define FROM 9\n")

    def run(opt, **kw):
        o = options(opt, paths, other)
        files = o.pop("files")
        return CParser(files, cache=cache, **o, **kw)

    def fresh(opt):
        o = options(opt, paths, other)
        return public(CParser(o.pop("files"), **o))

    fs = FS()
    times = {n: x.int("t_" + n[:3], 1, 10) / 4 for n in names}
    t_cache = x.int("t_cache", 1, 10) / 4
    version = x.choose("version", 3)
    fault = x.choose("fault", 3)
    first = public(run(opt_a))
    x.check(os.path.isfile(cache), "no cache was written")
    x.check(first == fresh(opt_a), "writing the cache changes the definitions")
    data = pickle.load(open(cache, "rb"))
    real_load = pickle.load
    if version:
        data["version"] = data["version"] + (-1, 1)[version - 1]
        with open(cache, "wb") as f:
            pickle.dump(data, f)
    if fault == 1:
        with open(cache, "rb") as f:
            b = f.read()
        with open(cache, "wb") as f:
            f.write(b[: len(b) // 2])
    elif fault == 2:
        open(cache, "wb").close()
    for n, t in zip(names, NEW):
        env.write(n, t)
    for p, n in zip(paths, names):
        fs.mtimes[p] = times[n]
    fs.mtimes[cache] = t_cache
    used_files = ["one.h"] if opt_b == "two" else list(names)
    here = "cache written with %s, read with %s (check %r), version %+d, fault %d: " % (opt_a, opt_b, check, (0, -1, 1)[version], fault)
    want_new = fresh(opt_b)
    with fs:
        got = public(run(opt_b, check_cache_validity=bool(check)))
    older = Or(*[times[n] > t_cache for n in used_files])
    same_opts = opt_a == opt_b
    # definitions given as arguments are there whichever way
    from_cache = dict(first)
    if fault:
        x.reach("damaged")
        x.check(got == want_new, here + "not parsed again: %r" % (got,))
    elif not check:
        x.reach("unchecked")
        if same_opts:
            x.check(got == first, here + "the cache was not used: %r" % (got,))
    elif bool(older):
        x.reach("stale")
        x.check(got == want_new, here + "a header is newer, yet the definitions are old: %r" % (got,))
    elif not same_opts:
        x.reach("options")
        x.check(got == want_new, here + "the options differ, yet the definitions are the cached ones: %r" % (got,))
    elif version == 1:
        x.reach("version")
        x.check(got == want_new, here + "an old cache was used: %r" % (got,))
    elif version == 0:
        x.reach("used")
        x.check(got == first, here + "a valid cache was not used: %r" % (got,))
    if got == want_new and got != first:
        # the cache was rewritten: a later run with these options uses it
        x.reach("rewritten")
        for n, t in zip(names, OLD):
            env.write(n, t)
        fs.mtimes = {p: 1 for p in paths}
        fs.mtimes[cache] = 1
        with fs:
            again = public(run(opt_b))
        x.check(again == want_new, here + "the cache left behind is not the one just parsed: %r" % (again,))
