"""Symbolic strings: known length, each character a code or a z3 variable over a
small alphabet.  Used with the modules under test loaded by `sximport`, which
routes the operations Python would do on C level through the helpers here."""

import builtins

import z3

from . import engine, ops
from .engine import SymBool, SymInt, Unsupported

_str, _isinstance = str, isinstance


def codes(s):
    if _isinstance(s, SymStr):
        return s.cs
    return tuple(map(ord, s))


def mk(cs):
    """A plain str when nothing is symbolic."""
    cs = tuple(cs)
    for c in cs:
        if not _isinstance(c, int):
            return SymStr(cs)
    return "".join(map(chr, cs))


def dom(c):
    return engine.ENG.domains[c.get_id()]


_terms = {}


def in_set(c, s):
    """The z3 term saying that c is one of the codes in s, as ranges."""
    k = (c.get_id(), s)
    e = _terms.get(k)
    if e is None:
        out, run = [], []
        for v in sorted(s):
            if run and v == run[-1] + 1:
                run.append(v)
                continue
            if run:
                out.append(_range(c, run))
            run = [v]
        if run:
            out.append(_range(c, run))
        e = z3.Or(*out) if len(out) > 1 else out[0]
        _terms[k] = (e, c)  # keeps the variable, and so its number, alive
        return e
    return e[0]


def _range(c, run):
    return c == run[0] if len(run) == 1 else z3.And(c >= run[0], c <= run[-1])


def member(c, allowed):
    """Is character c one of the codes in `allowed`?  Splits the path if both."""
    if _isinstance(c, int):
        return c in allowed
    d = dom(c)
    inter = d & allowed
    if not inter:
        return False
    if len(inter) == len(d):
        return True
    r = engine.ENG.branch(in_set(c, inter))
    engine.ENG.domains[c.get_id()] = inter if r else d - inter
    return r


def char_eq(a, b):
    """Equality of two characters as a z3 term or a bool."""
    if _isinstance(a, int) and _isinstance(b, int):
        return a == b
    if _isinstance(a, int):
        a, b = b, a
    if _isinstance(b, int):
        d = dom(a)
        if b not in d:
            return False
        if len(d) == 1:
            return True
        return a == b
    if a.get_id() == b.get_id():
        return True
    if not (dom(a) & dom(b)):
        return False
    return a == b


def str_eq(a, b):
    """Equality of two strings: bool or SymBool, without splitting the path."""
    ca, cb = codes(a), codes(b)
    if len(ca) != len(cb):
        return False
    out = []
    for x, y in zip(ca, cb):
        e = char_eq(x, y)
        if e is False:
            return False
        if e is not True:
            out.append(e)
    if not out:
        return True
    return SymBool(z3.And(*out))


def fork_eq(a, b):
    """Equality of two strings, splitting the path character by character."""
    ca, cb = codes(a), codes(b)
    if len(ca) != len(cb):
        return False
    for x, y in zip(ca, cb):
        if _isinstance(y, int):
            if not member(x, frozenset((y,))):
                return False
        elif _isinstance(x, int):
            if not member(y, frozenset((x,))):
                return False
        else:
            e = char_eq(x, y)
            if e is False or e is not True and not engine.ENG.branch(e):
                return False
    return True


WS = frozenset(map(ord, " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"))
LINE_ENDS = frozenset(map(ord, "\n\r\x0b\x0c\x1c\x1d\x1e\x85"))


def _pred(f):
    return frozenset(c for c in range(0x250) if f(chr(c)))


DIGIT, ALPHA, ALNUM, UPPER, LOWER = map(_pred, (_str.isdigit, _str.isalpha, _str.isalnum, _str.isupper, _str.islower))


TAB, EOL = frozenset((9,)), frozenset((10, 13))


class SymStr:
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __sx_eq__(self, o):
        if _isinstance(o, (SymStr, _str)):
            return str_eq(self, o)
        return False

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __getitem__(self, i):
        if _isinstance(i, slice):
            return mk(self.cs[i])
        return mk((self.cs[i],))

    def __iter__(self):
        for c in self.cs:
            yield mk((c,))

    def __add__(self, o):
        if not _isinstance(o, (SymStr, _str)):
            return NotImplemented
        return mk(self.cs + codes(o))

    def __radd__(self, o):
        if not _isinstance(o, _str):
            return NotImplemented
        return mk(codes(o) + self.cs)

    def __mul__(self, n):
        return mk(self.cs * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not _isinstance(o, (SymStr, _str)):
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        return ops.Not(self.__eq__(o))

    def __lt__(self, o):
        raise Unsupported("string order")

    __gt__ = __le__ = __ge__ = __lt__

    def concrete(self):
        """Split on every character: the text itself."""
        out = []
        for c in self.cs:
            if not _isinstance(c, int):
                d = dom(c)
                if len(d) > 1:
                    v = engine.ENG.concretize(SymInt(c))
                    engine.ENG.domains[c.get_id()] = frozenset((v,))
                else:
                    v = next(iter(d))
                c = v
            out.append(chr(c))
        return "".join(out)

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return "<symbolic text %s>" % "".join(chr(c) if _isinstance(c, int) else "?" for c in self.cs)

    def __str__(self):
        raise Unsupported("str() of a symbolic text")

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (engine._rebuild, (engine.ENG.register(self),))

    # searching -----------------------------------------------------------
    def _at(self, sub, i):
        return i + len(sub) <= len(self.cs) and fork_eq(mk(self.cs[i : i + len(sub)]), sub)

    def find(self, sub, start=0, end=None):
        start, end, _ = slice(start, end).indices(len(self.cs))
        for i in range(start, end - len(sub) + 1):
            if self._at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        start, end, _ = slice(start, end).indices(len(self.cs))
        for i in range(end - len(sub), start - 1, -1):
            if self._at(sub, i):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def count(self, sub, start=0, end=None):
        n = 0
        while True:
            i = self.find(sub, start, end)
            if i < 0:
                return n
            n += 1
            start = i + max(1, len(sub))

    def startswith(self, p, start=0, end=None):
        if _isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        start, end, _ = slice(start, end).indices(len(self.cs))
        return start + len(p) <= end and self._at(p, start)

    def endswith(self, p, start=0, end=None):
        if _isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        start, end, _ = slice(start, end).indices(len(self.cs))
        return end - len(p) >= start and self._at(p, end - len(p))

    # cutting --------------------------------------------------------------
    def _set(self, chars):
        return WS if chars is None else frozenset(codes(chars)) if _isinstance(chars, _str) else frozenset(map(ord, chars.concrete()))

    def lstrip(self, chars=None):
        s, i = self._set(chars), 0
        while i < len(self.cs) and member(self.cs[i], s):
            i += 1
        return mk(self.cs[i:])

    def rstrip(self, chars=None):
        s, i = self._set(chars), len(self.cs)
        while i > 0 and member(self.cs[i - 1], s):
            i -= 1
        return mk(self.cs[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur, n = [], 0
            i = 0
            while i < len(self.cs):
                if member(self.cs[i], WS):
                    if cur:
                        out.append(mk(cur))
                        cur = []
                    i += 1
                    continue
                if not cur and 0 <= maxsplit <= len(out):
                    out.append(mk(self.cs[i:]).rstrip())
                    return out
                cur.append(self.cs[i])
                i += 1
            if cur:
                out.append(mk(cur))
            return out
        start = 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, start)
            if i < 0:
                break
            out.append(mk(self.cs[start:i]))
            start = i + len(sep)
        out.append(mk(self.cs[start:]))
        return out

    def splitlines(self, keepends=False):
        out, cur = [], []
        for i, c in enumerate(self.cs):
            if member(c, LINE_ENDS):
                if member(c, frozenset((13,))):
                    raise Unsupported("carriage return")
                out.append(mk(cur + [c] if keepends else cur))
                cur = []
            else:
                cur.append(c)
        if cur:
            out.append(mk(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return mk(self.cs[:i]), sep, mk(self.cs[i + len(sep) :])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return mk(self.cs[:i]), sep, mk(self.cs[i + len(sep) :])

    def replace(self, old, new, count=-1):
        if not len(old):
            raise Unsupported("replacing the empty string")
        out, i, n = [], 0, 0
        while i < len(self.cs):
            if (count < 0 or n < count) and self._at(old, i):
                out += codes(new)
                i += len(old)
                n += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mk(out)

    def removeprefix(self, p):
        return mk(self.cs[len(p) :]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mk(self.cs[: len(self.cs) - len(p)]) if self.endswith(p) else self

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.cs
            if not _isinstance(p, (SymStr, _str)):
                raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(p).__name__))
            out += codes(p)
        return mk(out)

    def expandtabs(self, n=8):
        out, col = [], 0
        for c in self.cs:
            if member(c, TAB):
                k = n - col % n if n > 0 else 0
                out += [32] * k
                col += k
                continue
            out.append(c)
            col = 0 if member(c, EOL) else col + 1
        return mk(out)

    def _all(self, s):
        return bool(self.cs) and all(member(c, s) for c in self.cs)

    def isdigit(self):
        return self._all(DIGIT)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALNUM)

    def isspace(self):
        return self._all(WS)

    def isidentifier(self):
        u = frozenset((95,))
        return bool(self.cs) and member(self.cs[0], ALPHA | u) and all(member(c, ALNUM | u) for c in self.cs[1:])

    def _map(self, f):
        out = []
        for c in self.cs:
            if _isinstance(c, int):
                out += map(ord, f(chr(c)))
            elif all(f(chr(k)) == chr(k) for k in dom(c)):
                out.append(c)
            else:
                out += map(ord, f(mk((c,)).concrete()))
        return mk(out)

    def lower(self):
        return self._map(_str.lower)

    def upper(self):
        return self._map(_str.upper)

    def ljust(self, n, fill=" "):
        return mk(self.cs + codes(fill) * max(0, n - len(self.cs)))

    def rjust(self, n, fill=" "):
        return mk(codes(fill) * max(0, n - len(self.cs)) + self.cs)

    def encode(self, *a):
        return self.concrete().encode(*a)

    def translate(self, table):
        return self._map(lambda c: c.translate(table))

    def format(self, *args, **kw):
        """str.format with {} and {0} and {name} fields without format spec."""
        out, i, auto = [], 0, 0
        lb, rb = frozenset((123,)), frozenset((125,))
        n = len(self.cs)
        while i < n:
            c = self.cs[i]
            if member(c, lb):
                if i + 1 < n and member(self.cs[i + 1], lb):
                    out.append(c)
                    i += 2
                    continue
                j = i + 1
                while j < n and not member(self.cs[j], rb):
                    j += 1
                if j >= n:
                    raise ValueError("Single '{' encountered in format string")
                field = mk(self.cs[i + 1 : j])
                if _isinstance(field, SymStr):
                    field = field.concrete()
                if field == "":
                    if auto >= len(args):
                        raise IndexError("Replacement index %d out of range for positional args tuple" % auto)
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field.isidentifier():
                    v = kw[field]
                else:
                    raise Unsupported("format field " + field)
                out += codes(v) if _isinstance(v, (SymStr, _str)) else codes(format(v))
                i = j + 1
            elif member(c, rb):
                if i + 1 < n and member(self.cs[i + 1], rb):
                    out.append(c)
                    i += 2
                    continue
                raise ValueError("Single '}' encountered in format string")
            else:
                out.append(c)
                i += 1
        return mk(out)


ops.SYM = ops.SYM + (SymStr,)


# --------------------------------------------------------------------------
# helpers the rewritten modules call


def has_sym(v):
    if _isinstance(v, SymStr):
        return True
    if _isinstance(v, (tuple, list)):
        return any(has_sym(i) for i in v)
    return False


def sx_call(obj, name, *args, **kw):
    if type(obj) is _str:
        if name == "join" and args:
            parts = list(args[0])
            if any(_isinstance(p, SymStr) for p in parts):
                return SymStr(codes(obj)).join(parts)
            return obj.join(parts)
        if has_sym(args) or kw and any(_isinstance(v, SymStr) for v in kw.values()):
            if hasattr(SymStr, name):
                return getattr(SymStr(codes(obj)), name)(*args, **kw)
    elif obj is _str and args and has_sym(args):
        # str.method(text, ...)
        return sx_call(args[0], name, *args[1:], **kw) if type(args[0]) is _str else getattr(args[0], name)(*args[1:], **kw)
    elif _isinstance(obj, dict) and name in ("get", "pop", "setdefault") and args and (_isinstance(args[0], SymStr) or id(obj) in SYMBOLIC_TABLES):
        args = (sx_key(obj, args[0], name == "setdefault"), *args[1:])
    return getattr(obj, name)(*args, **kw)


def sx_str(*a, **k):
    if len(a) == 1 and not k and _isinstance(a[0], SymStr):
        return a[0]
    return _str(*a, **k)


def _flat(ts):
    if _isinstance(ts, tuple):
        for t in ts:
            yield from _flat(t)
    else:
        yield ts


def sx_isinstance(x, ts):
    if _isinstance(x, SymStr) and any(t is _str for t in _flat(ts)):
        return True
    return _isinstance(x, ts)


def sx_in(a, b):
    if _isinstance(a, SymStr):
        if _isinstance(b, (_str, SymStr)):
            if len(a) == 1 and _isinstance(b, _str):
                return member(a.cs[0], frozenset(map(ord, b)))
            return (SymStr(codes(b)) if _isinstance(b, _str) else b).find(a) >= 0
        if _isinstance(b, (dict, set, frozenset, list, tuple)) or hasattr(b, "keys"):
            keys = [k for k in b if _isinstance(k, (_str, SymStr)) and len(k) == len(a)]
            if len(a) == 1 and all(_isinstance(k, _str) for k in keys):
                return member(a.cs[0], frozenset(map(ord, keys)))
            return bool(ops.Or(*[str_eq(a, k) for k in keys]))
    elif _isinstance(a, _str) and id(b) in SYMBOLIC_TABLES:
        return _find_key(b, a) is not None
    return a in b


# whether symbolic texts may be stored as keys, and the tables with such keys
KEEP_KEYS = False
SYMBOLIC_TABLES = {}


def _find_key(d, k):
    for o in d:
        if _isinstance(o, (_str, SymStr)) and len(o) == len(k) and bool(str_eq(k, o)):
            return o
    return None


def sx_key(d, k, store):
    """The key with the text k has, if there is one."""
    if _isinstance(k, SymStr) and _isinstance(d, dict):
        o = _find_key(d, k)
        if o is not None or not store:
            return o if o is not None else _Missing(k)
        if not KEEP_KEYS:
            return k.concrete()
        SYMBOLIC_TABLES[id(d)] = d
        return KeyText(k.cs)
    if _isinstance(k, _str) and id(d) in SYMBOLIC_TABLES:
        o = _find_key(d, k)
        return k if o is None else o
    return k


class KeyText(SymStr):
    """A text stored as a key."""

    __hash__ = object.__hash__


class _Missing:
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return repr(self.k)


def sx_mod(a, b):
    if _isinstance(a, _str) and has_sym(b):
        args = b if _isinstance(b, tuple) else (b,)
        parts = a.split("%s")
        if len(parts) == len(args) + 1 and "%" not in "".join(parts):
            out = list(codes(parts[0]))
            for v, p in zip(args, parts[1:]):
                out += codes(v) if _isinstance(v, (_str, SymStr)) else codes(_str(v))
                out += codes(p)
            return mk(out)
        raise Unsupported("% formatting")
    return a % b


def sx_fstr(*parts):
    for p in parts:
        if type(p) is not _str:
            break
    else:
        return "".join(parts)
    out = []
    for p in parts:
        out += codes(p)
    return mk(out)


def sx_fval(v, conv, spec):
    if _isinstance(v, SymStr) and conv in (-1, 115) and not spec:
        return v
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = _str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


def sx_int(*a, **k):
    if a and _isinstance(a[0], SymStr):
        a = (a[0].concrete(), *a[1:])
    return engine.IntShim(*a, **k)


def sx_ord(c):
    if _isinstance(c, SymStr):
        return SymInt(c.cs[0]) if not _isinstance(c.cs[0], int) else c.cs[0]
    return ord(c)
