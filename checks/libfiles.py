"""Shared objects on disk, and a stand-in for the `file` command."""

import os
import shutil
import subprocess

from symx import env

_RealPopen = subprocess.Popen
OUTPUT = {"text": b"ELF 64-bit LSB shared object", "rc": 0, "fail": None, "calls": 0}


class Popen:
    """Answers for the `file` command; anything else runs."""

    def __new__(cls, *a, **k):
        args = a[0] if a else k.get("args")
        first = args if isinstance(args, str) else args[0]
        if os.path.basename(str(first).split()[0]) != "file":
            return _RealPopen(*a, **k)
        return super().__new__(cls)

    def __init__(self, *a, **k):
        OUTPUT["calls"] += 1
        if OUTPUT["fail"] is not None:
            raise OUTPUT["fail"]
        self.args = a[0] if a else k.get("args")
        self.text = bool(k.get("text") or k.get("universal_newlines") or k.get("encoding"))
        self.returncode = OUTPUT["rc"]
        self.stdin = self.stderr = self.stdout = None
        self.pid = 0

    def communicate(self, input=None, timeout=None):
        o = OUTPUT["text"]
        return (o.decode("latin-1") if self.text else o), None

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        return self.returncode

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def patch():
    subprocess.Popen = Popen


def unpatch():
    subprocess.Popen = _RealPopen


_made = {}


def objects():
    """A directory with two copies of a small shared object, and links."""
    if "d" in _made and _made["pid"] == os.getpid():
        return _made["d"]
    import importlib.util

    src = importlib.util.find_spec("_ctypes_test").origin
    d = os.path.join(env.scratch(), "libs")
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    for n in ("a", "b"):
        p = os.path.join(d, "lib%s.so" % n)
        shutil.copyfile(src, p)
        link = os.path.join(d, "link%s.so" % n)
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink(p, link)
    _made.update(d=d, pid=os.getpid())
    return d
