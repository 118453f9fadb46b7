"""python -m symx.replay_main REQUEST.json  (run by the repository's python)

The request is {"check": "c01", "items": [{"case":..., "inputs":...}, ...]};
prints one JSON line per item.
"""

import importlib
import json
import os
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def main():
    from symx import concrete, env

    env.setup_path()
    req = json.load(open(sys.argv[1]))
    mod = importlib.import_module("checks." + req["check"])
    if hasattr(mod, "setup"):
        mod.setup(False)
    import pyclibrary

    assert os.path.realpath(pyclibrary.__file__).startswith(
        os.path.realpath(env.REPO) + os.sep
    ), pyclibrary.__file__
    signal.signal(signal.SIGALRM, _alarm)
    for it in req["items"]:
        signal.setitimer(signal.ITIMER_REAL, req.get("timeout", 60))
        try:
            st, detail = concrete.replay(mod, totuple(it["case"]), it["inputs"])
        except Hang:
            st, detail = "hang", "no result within %ss" % req.get("timeout", 60)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        print("REPLAY " + json.dumps({"status": st, "detail": detail}), flush=True)


def totuple(x):
    if isinstance(x, list):
        return tuple(totuple(i) for i in x)
    return x


if __name__ == "__main__":
    main()
