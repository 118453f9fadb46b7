"""`re` for symbolic strings: a backtracking matcher over CPython's own parse of
the pattern.  Plain strings go to the real module."""

import re as _re
from re import _constants as C
from re import _parser

from .engine import Unsupported
from .symstr import SymStr, codes, fork_eq, member, mk

ALL = frozenset(range(0x250))
_word = frozenset(c for c in ALL if _re.match(r"\w", chr(c)))
_digit = frozenset(c for c in ALL if _re.match(r"\d", chr(c)))
_space = frozenset(c for c in ALL if _re.match(r"\s", chr(c)))
CAT = {
    C.CATEGORY_WORD: _word, C.CATEGORY_NOT_WORD: ALL - _word, C.CATEGORY_DIGIT: _digit, C.CATEGORY_NOT_DIGIT: ALL - _digit,
    C.CATEGORY_SPACE: _space, C.CATEGORY_NOT_SPACE: ALL - _space,
}
NL = frozenset((10,))
# stands for the first symbolic character of a pattern
HOLE = 0xE000
_ascii_word = frozenset(c for c in _word if c < 128)


def _fold(s):
    out = set(s)
    for c in s:
        for d in chr(c).lower() + chr(c).upper():
            out.add(ord(d))
    return frozenset(out)


def _charset(items, flags):
    neg, s = False, set()
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            s.add(av)
        elif op is C.RANGE:
            s |= set(range(av[0], min(av[1], 0x24F) + 1))
        elif op is C.CATEGORY:
            s |= CAT[av]
        else:
            raise Unsupported("set item %s" % op)
    s = frozenset(s)
    if flags & _re.I:
        s = _fold(s)
    if neg and max(s, default=0) >= HOLE:
        raise Unsupported("symbolic character in a negated set")
    return ALL - s if neg else s


def _single(node, flags):
    """The set of characters a one character node matches, or None."""
    op, av = node
    if op is C.LITERAL:
        s = frozenset((av,))
        return _fold(s) if flags & _re.I else s
    if op is C.NOT_LITERAL:
        s = frozenset((av,))
        return ALL - (_fold(s) if flags & _re.I else s)
    if op is C.ANY:
        return ALL if flags & _re.S else ALL - NL
    if op is C.IN:
        return _charset(av, flags)
    return None


class Matcher:
    """Continuation passing backtracking: each node is compiled to f(i, groups, k)."""

    def __init__(self, pattern, flags, terms=()):
        self.terms = terms
        self.tree = _parser.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.start = self.seq(list(self.tree), self.flags)

    def inside(self, c, s):
        if not self.terms:
            return member(c, s)
        terms = [self.terms[p - HOLE] for p in s if p >= HOLE]
        if terms and member(c, frozenset(p for p in s if p < HOLE)):
            return True
        for d in terms:
            if fork_eq(mk((c,)), mk((d,))):
                return True
        return not terms and member(c, s)

    def seq(self, nodes, flags):
        fs = [self.node(n, flags) for n in nodes]

        def run(t, i, g, k):
            def step(j, i, g):
                if j == len(fs):
                    return k(i, g)
                return fs[j](t, i, g, lambda i2, g2: step(j + 1, i2, g2))

            return step(0, i, g)

        return run

    def node(self, node, flags):
        op, av = node
        s = _single(node, flags)
        inside = self.inside
        if s is not None:

            def one(t, i, g, k):
                if i < t.end and inside(t.cs[i], s):
                    return k(i + 1, g)
                return None

            return one
        if op is C.SUBPATTERN:
            group, add, rem, p = av
            body = self.seq(list(p), (flags | add) & ~rem)
            if group is None:
                return body

            def sub(t, i, g, k):
                def close(j, g2):
                    g3 = dict(g2)
                    g3[group] = (i, j)
                    g3["last"] = group
                    return k(j, g3)

                return body(t, i, g, close)

            return sub
        if op is C.BRANCH:
            alts = [self.seq(list(a), flags) for a in av[1]]

            def branch(t, i, g, k):
                for a in alts:
                    r = a(t, i, g, k)
                    if r is not None:
                        return r
                return None

            return branch
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            nodes = list(p)
            s = _single(nodes[0], flags) if len(nodes) == 1 else None
            if s is not None and op is not C.MIN_REPEAT:
                # one character at a time, longest first

                def many(t, i, g, k):
                    j = i
                    while j < t.end and (hi is C.MAXREPEAT or j - i < hi) and inside(t.cs[j], s):
                        j += 1
                    if op is C.POSSESSIVE_REPEAT:
                        return k(j, g) if j - i >= lo else None
                    while j - i >= lo:
                        r = k(j, g)
                        if r is not None:
                            return r
                        j -= 1
                    return None

                return many
            body = self.seq(nodes, flags)
            if op is C.POSSESSIVE_REPEAT:
                raise Unsupported("possessive repeat")
            greedy = op is C.MAX_REPEAT

            def rep(t, i, g, k):
                def step(n, i, g, last):
                    def more():
                        if hi is not C.MAXREPEAT and n >= hi:
                            return None
                        if n >= lo and last == i:
                            return None
                        return body(t, i, g, lambda i2, g2: step(n + 1, i2, g2, i))

                    if n < lo:
                        return more()
                    if greedy:
                        r = more()
                        return r if r is not None else k(i, g)
                    r = k(i, g)
                    return r if r is not None else more()

                return step(0, i, g, None)

            return rep
        if op is C.AT:
            return self.at(av, flags)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            body = self.seq(list(p), flags)
            width = p.getwidth()
            if direction < 0 and width[0] != width[1]:
                raise Unsupported("look-behind of variable width")
            pos = op is C.ASSERT

            def look(t, i, g, k):
                j = i if direction > 0 else i - width[0]
                r = None
                if j >= 0:
                    r = body(t, j, g, lambda i2, g2: (i2, g2))
                if (r is not None) != pos:
                    return None
                return k(i, r[1] if pos else g)

            return look
        if op is C.GROUPREF:

            def ref(t, i, g, k):
                if av not in g:
                    return None
                a, b = g[av]
                if i + b - a > t.end or not fork_eq(mk(t.cs[i : i + b - a]), mk(t.cs[a:b])):
                    return None
                return k(i + b - a, g)

            return ref
        if op is C.ATOMIC_GROUP:
            body = self.seq(list(av), flags)

            def atomic(t, i, g, k):
                r = body(t, i, g, lambda i2, g2: (i2, g2))
                return None if r is None else k(*r)

            return atomic
        raise Unsupported("pattern node %s" % op)

    def at(self, where, flags):
        multi = flags & _re.M

        def test(t, i):
            if where is C.AT_BEGINNING and multi:
                return i == 0 or member(t.cs[i - 1], NL)
            if where in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                return i == 0
            if where is C.AT_END and multi:
                return i == t.end or member(t.cs[i], NL)
            if where is C.AT_END:
                return i == t.end or i == t.end - 1 and member(t.cs[i], NL)
            if where is C.AT_END_STRING:
                return i == t.end
            if where in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = i > 0 and member(t.cs[i - 1], _word)
                b = i < t.end and member(t.cs[i], _word)
                return (a != b) == (where is C.AT_BOUNDARY)
            raise Unsupported("assertion %s" % where)

        return lambda t, i, g, k: k(i, g) if test(t, i) else None


class Text:
    __slots__ = ("cs", "end", "src")

    def __init__(self, s, end):
        self.src, self.cs = s, codes(s)
        self.end = len(self.cs) if end is None else min(end, len(self.cs))


class Match:
    def __init__(self, pat, text, start, end, g, pos, endpos):
        self.re, self.string = pat, text.src
        self._t, self._s, self._e, self._g = text, start, end, g
        self.pos, self.endpos = pos, endpos
        self.lastindex = g.get("last")

    def _idx(self, n):
        if isinstance(n, (str, SymStr)):
            return self.re.groupindex[n]
        if n > self.re.groups:
            raise IndexError("no such group")
        return n

    def span(self, n=0):
        n = self._idx(n)
        if n == 0:
            return self._s, self._e
        return self._g.get(n, (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    def _one(self, n, default=None):
        a, b = self.span(n)
        return default if a < 0 else mk(self._t.cs[a:b])

    def group(self, *ns):
        if not ns:
            return self._one(0)
        if len(ns) == 1:
            return self._one(ns[0])
        return tuple(self._one(n) for n in ns)

    def __getitem__(self, n):
        return self._one(n)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def expand(self, tmpl):
        return _expand(self, tmpl)

    def __bool__(self):
        return True


def _expand(m, repl):
    if callable(repl):
        return repl(m)
    if "\\" not in repl:
        return repl
    out, i = [], 0
    toks = _re.findall(r"\\(?:g<(\w+)>|(\d+)|(.))|([^\\]+)", repl, _re.S)
    for name, num, esc, lit in toks:
        if name:
            out.append(m._one(int(name) if name.isdigit() else name, ""))
        elif num:
            out.append(m._one(int(num), ""))
        elif esc:
            out.append({"n": "\n", "t": "\t", "\\": "\\"}.get(esc) or _bad(esc))
        else:
            out.append(lit)
    return SymStr(()).join(out)


def _bad(e):
    raise Unsupported("escape in replacement: " + e)


class Pattern:
    """Looks like re.Pattern; handles both kinds of text."""

    def __init__(self, real):
        self._real = real
        self._m = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self._real, n)

    def _matcher(self):
        if self._m is None:
            self._m = Matcher(self._real.pattern, self._real.flags & ~_re.U)
        return self._m

    def _run(self, s, pos, endpos, full=False, nonempty=False):
        t = Text(s, endpos)

        def fin(i, g):
            if full and i != t.end or nonempty and i == pos:
                return None
            return i, g

        r = self._matcher().start(t, pos, {}, fin)
        if r is None:
            return None
        return Match(self, t, pos, r[0], r[1], pos, t.end)

    def match(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            return self._real.match(s, pos) if endpos is None else self._real.match(s, pos, endpos)
        return self._run(s, pos, endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            return self._real.fullmatch(s, pos) if endpos is None else self._real.fullmatch(s, pos, endpos)
        return self._run(s, pos, endpos, full=True)

    def search(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            return self._real.search(s, pos) if endpos is None else self._real.search(s, pos, endpos)
        for i in range(pos, len(s) + 1):
            m = self._run(s, i, endpos)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            yield from (self._real.finditer(s, pos) if endpos is None else self._real.finditer(s, pos, endpos))
            return
        # as CPython: after an empty match the next one may not be empty where
        # the search resumes
        i, advance = pos, False
        end = len(s) if endpos is None else min(endpos, len(s))
        while i <= end:
            m = None
            for j in range(i, end + 1):
                m = self._run(s, j, endpos, nonempty=advance and j == i)
                if m is not None:
                    break
            if m is None:
                return
            yield m
            i, advance = m.end(), m.end() == m.start()

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            g = m.groups("")
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self._real.split(s, maxsplit)
        out, last = [], 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(s[last : m.start()])
            out.extend(m.groups())
            last = m.end()
        out.append(s[last:])
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        if not isinstance(s, SymStr):
            if callable(repl) or not isinstance(repl, SymStr):
                box = []

                def f(m):
                    r = repl(m)
                    if isinstance(r, SymStr):
                        raise Unsupported("symbolic replacement in a plain text")
                    return r

                return self._real.subn(f if callable(repl) else repl, s, count)
            s = SymStr(codes(s))
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(s[last : m.start()])
            out.append(_expand(m, repl))
            last = m.end()
            n += 1
        out.append(s[last:])
        return SymStr(()).join(out), n

    def __eq__(self, o):
        return isinstance(o, Pattern) and self._real == o._real

    def __hash__(self):
        return hash(self._real)


class SymPattern(Pattern):
    """A pattern with symbolic characters that stand for themselves."""

    def __init__(self, real, terms):
        self._real = real
        self._m = Matcher(real.pattern, real.flags & ~_re.U, terms)

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


def _lift(n):
    def f(self, *a, **k):
        i = 1 if n in ("sub", "subn") else 0
        a = [SymStr(codes(v)) if j == i and isinstance(v, str) else v for j, v in enumerate(a)]
        return getattr(Pattern, n)(self, *a, **k)

    return f


for _n in ("match", "fullmatch", "search", "finditer", "findall", "split", "subn"):
    setattr(SymPattern, _n, _lift(_n))


def _symbolic(p, flags):
    if flags & _re.I:
        return None
    out, terms, escaped = [], [], False
    for i, c in enumerate(p.cs):
        if isinstance(c, int):
            escaped = chr(c) == "\\" and not escaped
            out.append(chr(c))
            continue
        if i and not escaped and out[-1] in "{,?(<P=":
            before = "".join(out)
            if not before.endswith(("(", "|")) or before.endswith("(?"):
                return None
        if not (member(c, _ascii_word) ^ escaped):
            return None
        ids = [t.get_id() for t in terms]
        if c.get_id() not in ids:
            ids.append(c.get_id())
            terms.append(c)
        out.append(chr(HOLE + ids.index(c.get_id())))
        escaped = False
    return SymPattern(_re.compile("".join(out), flags), terms)


_cache = {}


def compile(p, flags=0):
    if isinstance(p, Pattern):
        return p
    if isinstance(p, SymStr):
        r = _symbolic(p, flags)
        if r is not None:
            return r
        p = p.concrete()
    real = _re.compile(p, flags)
    if real not in _cache:
        _cache[real] = Pattern(real)
    return _cache[real]


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def sub(p, r, s, count=0, flags=0):
    return compile(p, flags).sub(r, s, count)


def subn(p, r, s, count=0, flags=0):
    return compile(p, flags).subn(r, s, count)


def escape(s):
    if not isinstance(s, SymStr):
        return _re.escape(s)
    out = ""
    for i in range(len(s)):
        c = s[i : i + 1]
        if isinstance(c, str):
            out = out + _re.escape(c)
        else:
            out = out + c if member(c.cs[0], _ascii_word) else out + "\\" + c
    return out


def __getattr__(n):
    return getattr(_re, n)
