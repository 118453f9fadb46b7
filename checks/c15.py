"""C15 - calls of a library opened with lock_calls never overlap; calls of any
library do not disturb each other."""

import itertools

from checks import sched
from checks.calls import HEAD, Func, parser
from checks.common import eq
from checks.ct import FakeLib, library, module
from checks.ct import setup as ct_setup

FUNCTIONS = ["CFunction.__call__", "CLibrary.__init__ (lock)", "CLibrary._get_function", "CLibrary.__getattr__", "CallResult"]
ASSUMPTIONS = [
    "real threads and locks, run one at a time: a thread can be interrupted before every line of c_library.py and inside the C function; the steps at which it is interrupted, who goes on, and the argument values are symbolic",
    "interruptions inside one line, and inside the interpreter, are not explored",
]
OUTSIDE = "more threads, calls or interruptions than the bound; building structures concurrently"
REACH = ["locked", "unlocked", "overlap", "waited", "raised", "nested", "nested locked"]
SCRIPTS = ["ff", "fg", "fr", "rg", "rr", "fn", "nn", "nr", "f,f", "r,f", "m,m", "mr", "ne"]

DEEP = [("ff", 1), ("nr", 1), ("ff", 0)]

TEXT = HEAD + "int f(int a, int *out); int g(int a, int *out); int r(int a, int *out); int n(int a, int *out); int m(int a, int *out); int e(int a, int *out);\n"


def setup(symbolic):
    import sys

    assert "pyclibrary" not in sys.modules or not symbolic
    sched.patch_threading()
    try:
        ct_setup(symbolic)
        import pyclibrary.backends.ctypes  # noqa: F401
    finally:
        sched.unpatch_threading()


def BOUNDS(tier):
    return "2 and 3 threads, 1..2 calls each (functions that return, raise, or call back into the library), %s besides the waits, at any of 200 line steps" % (
        "one interruption (two for the pairs %s)" % (DEEP,) if tier == "quick" else "two interruptions (three for the pairs %s)" % (DEEP,)
    )


def cases(tier):
    out = []
    k = 1 if tier == "quick" else 2
    for s in SCRIPTS:
        for locked in (1, 0):
            kk = k + ((s, locked) in DEEP)
            for split in sched.SPLITS if kk > 1 else (None,):
                out.append((s, locked, kk, 2, split))
    for s in ("fgr", "fnf") if tier == "quick" else ("fgr", "fnf", "nnr", "rrr"):
        for locked in (1, 0):
            out.append((s, locked, k, 3, None))
    out.sort(key=lambda c: (-c[2], -c[3]))
    return out


def harness(x, case):
    script, locked, k, nthreads, split = case
    ct = module(x)
    inside = []  # threads inside the C functions
    log = {"overlap": False}
    s = None
    results = []

    def enter(name):
        def body(args):
            me = s.me() if s is not None else None
            if any(t != me for t in inside):
                log["overlap"] = True
            inside.append(me)
            try:
                if s is not None:
                    s.switch()
                args[1][0] = args[0] + 100
                if name == "n":
                    x.reach("nested")
                    call(me, "g", args[0] + 50, nested=True)
                elif name == "e":
                    try:
                        lib.r(args[0])
                    except ZeroDivisionError:
                        pass
                    if s is not None:
                        s.switch()
                if s is not None:
                    s.switch()
                if name == "r":
                    raise ZeroDivisionError("C function failed")
                return args[0] + 200
            finally:
                inside.remove(me)

        return body

    funcs = {n: Func(enter(n)) for n in "fgrnme"}
    sched.patch_threading()
    try:
        lib = library(parser(TEXT), FakeLib(**funcs), lock_calls=bool(locked))
    finally:
        sched.unpatch_threading()
    x.reach("locked" if locked else "unlocked")
    here = "threads %s, lock_calls=%r: " % (script, bool(locked))

    def call(t, name, v, nested=False):
        try:
            res = getattr(lib, name)(v)
        except ZeroDivisionError:
            x.reach("raised")
            x.check(name == "r", here + "%s raised" % name)
            return
        if nested and locked:
            x.reach("nested locked")
        x.check(name != "r", here + "the exception of r was swallowed")
        results.append((t, v, res))

    if "m" in script:
        # one thread makes two calls
        plan = [["f", "g"], ["g"] if "r" not in script else ["r"]]
    elif "," in script:
        plan = [list(p) for p in script.split(",")]
    else:
        plan = [[c] for c in script]
    vals = {}

    def body(t):
        def go():
            for j, name in enumerate(plan[t]):
                call(t, name, vals[t, j])

        return go

    for t, p in enumerate(plan):
        for j in range(len(p)):
            vals[t, j] = x.int("v%d_%d" % (t, j), 1000 * (t + 1), 1000 * (t + 1) + 99)
    if "," not in script:
        # wrappers exist before the threads start
        for n in "fgrnme":
            getattr(lib, n)
    s = sched.Schedule(x, [body(t) for t in range(len(plan))], k, 200, ("c_library.py",), fixed_first=len(set(map(tuple, plan))) == 1, split=split)
    done = s.run()
    x.check(done is not None, here + "deadlock: %s" % s.state)
    if log["overlap"]:
        x.reach("overlap")
    elif s.next_point:
        x.reach("waited")
    x.check(not (locked and log["overlap"]), here + "two threads were inside the C functions at once")
    x.check(not inside, here + "calls left behind")
    for t, v, res in results:
        x.check(eq(res(), v + 200), here + "thread %s got the result %r of another call" % (t, res()))
        x.check(eq(res[1], v + 100), here + "thread %s got the output %r of another call" % (t, res[1]))
        x.check(eq(res[0], v), here + "thread %s got the argument %r of another call" % (t, res[0]))
        x.check(eq(res.auto(), [v + 100]), here + "auto() is %r" % (res.auto(),))
    # afterwards the library is usable from here: nothing was left locked
    s = None
    if locked:
        free = []
        import threading

        th = threading.Thread(target=lambda: free.append(probe(lib)), daemon=True)
        th.start()
        th.join(5)
        x.check(free == [205], here + "a call after them gives %r" % (free,))


def probe(lib):
    return lib.f(5)()
