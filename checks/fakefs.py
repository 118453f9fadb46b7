"""Files that exist or not as the solver decides: a stand-in for os.stat."""

import os
import stat as _stat

_real_stat = os.stat
ROOT = "/nonexistent-symx"


class Stat:
    def __init__(self, mode, mtime=0):
        self.st_mode = mode
        self.st_mtime = mtime
        self.st_mtime_ns = int(mtime * 1000000000) if isinstance(mtime, float) else mtime * 1000000000
        self.st_ctime = self.st_atime = 0
        self.st_size = 1
        self.st_ino = self.st_dev = 0


class FS:
    """Answers os.stat for the paths it knows (a dict path -> bool or SymBool for
    files, a set of directories); every other path is left alone."""

    def __init__(self):
        self.files, self.dirs, self.mtimes = {}, {}, {}

    def stat(self, path, *a, **k):
        p = path
        if not isinstance(p, int):
            p = os.path.normpath(os.fspath(p))
            if p in self.files:
                if self.files[p]:
                    return Stat(_stat.S_IFREG | 0o644)
                raise FileNotFoundError(p)
            if p in self.dirs:
                if self.dirs[p]:
                    return Stat(_stat.S_IFDIR | 0o755)
                raise FileNotFoundError(p)
            if p in self.mtimes:
                st = _real_stat(path, *a, **k)
                return Stat(st.st_mode, self.mtimes[p])
            if isinstance(p, str) and p.startswith(ROOT):
                raise FileNotFoundError(p)
        return _real_stat(path, *a, **k)

    def __enter__(self):
        os.stat = self.stat
        return self

    def __exit__(self, *a):
        os.stat = _real_stat
