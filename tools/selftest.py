"""Self test of the symbolic engine: must find a planted wrong branch and prove a right one."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import env
from symx.engine import Engine

env.setup_path()


def right(x):
    a = x.int("a", -5, 5)
    b = abs(a) if a < 0 else a
    x.check(b >= 0, "abs")


def wrong(x):
    a = x.int("a", -5, 5)
    x.check(a * a != 9, "square")


e = Engine().explore(right)
assert not e.cex and e.stats["paths"] == 2, e.stats
e = Engine().explore(wrong)
assert len(e.cex) == 1 and abs(e.cex[0].inputs["a"]) == 3, e.cex
import pyclibrary  # noqa: E402

assert os.path.realpath(pyclibrary.__file__).startswith(os.path.realpath(env.REPO)), pyclibrary.__file__
print("engine ok, code from", env.REPO)
