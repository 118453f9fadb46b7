"""Where the code under test comes from, and scratch space."""

import atexit
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"

_scratch = None


def scratch():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = os.environ.get("SYMX_SCRATCH")
        d = tempfile.mkdtemp(prefix="symx-", dir=base)
        _scratch = (os.getpid(), d)
        if base is None:
            atexit.register(shutil.rmtree, d, True)
    return _scratch[1]


def setup_path():
    """Import pyclibrary from the working tree under test, nothing else."""
    sys.dont_write_bytecode = True
    if sys.pycache_prefix is None:
        sys.pycache_prefix = os.path.join(scratch(), "pyc")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)


def write(name, text):
    p = os.path.join(scratch(), name)
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)
    return p
