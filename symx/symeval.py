"""Python's eval of a symbolic text, for the integer expressions the code under
test hands to it: a recursive-descent reader of Python's expression grammar which
splits the path on the characters that decide the structure and keeps the digits
symbolic.  Anything else Python accepts is reported as not modelled."""

import z3

from . import engine, symstr
from .engine import WIDTH, SymInt, Unsupported
from .symstr import codes, member, mk

WORD = frozenset(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"))
DIGIT = frozenset(map(ord, "0123456789"))
OCT = frozenset(map(ord, "01234567"))
HEX = frozenset(map(ord, "0123456789abcdefABCDEF"))
BLANK = frozenset(map(ord, " \t"))


def _set(s):
    return frozenset(map(ord, s))


def digit_value(c):
    """The value of a (hexadecimal) digit."""
    if isinstance(c, int):
        return z3.IntVal(int(chr(c), 16))
    e = None
    for k in sorted(symstr.dom(c), reverse=True):
        v = z3.IntVal(int(chr(k), 16))
        e = v if e is None else z3.If(c == k, v, e)
    return e


def number(cs, base):
    if all(isinstance(c, int) for c in cs):
        return int("".join(map(chr, cs)), base)
    e = z3.IntVal(0)
    for c in cs:
        e = e * base + digit_value(c)
    return SymInt(z3.simplify(e))


class Reader:
    BINARY = [["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"], ["*", "//", "/", "%"]]

    def __init__(self, text, env):
        self.cs, self.env, self.i = codes(text), env, 0

    def at(self, s, i=None):
        i = self.i if i is None else i
        if i + len(s) > len(self.cs):
            return False
        return all(member(c, frozenset((ord(k),))) for c, k in zip(self.cs[i : i + len(s)], s))

    def blank(self):
        while self.i < len(self.cs) and member(self.cs[self.i], BLANK):
            self.i += 1

    def word(self):
        """The identifier or keyword here, as a slice."""
        self.blank()
        j = self.i
        if j < len(self.cs) and member(self.cs[j], WORD) and not member(self.cs[j], DIGIT):
            while j < len(self.cs) and member(self.cs[j], WORD):
                j += 1
        return self.cs[self.i : j]

    def keyword(self, k):
        w = self.word()
        if len(w) == len(k) and self.at(k):
            self.i += len(k)
            return True
        return False

    def op(self, *ops):
        """The longest operator of Python here, if it is one of ops."""
        self.blank()
        for o in ("**=", "//=", ">>=", "<<=", "**", "//", ">>", "<<", "<=", ">=", "==", "!=", "->", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", ":=",
                  "+", "-", "*", "/", "%", "&", "|", "^", "~", "<", ">", "(", ")", "!"):
            if self.at(o):
                if o in ops:
                    self.i += len(o)
                    return o
                return None
        return None

    def read(self):
        v = self.disjunction()
        self.blank()
        if self.i < len(self.cs):
            if self.at("\n") or self.at("#"):
                raise Unsupported("eval of several lines")
            if member(self.cs[self.i], _set("=><!+-*/%&|^~()")) or member(self.cs[self.i], WORD):
                raise SyntaxError("invalid syntax")
            raise Unsupported("eval of an unusual character")
        return v

    def disjunction(self):
        v = self.conjunction()
        while self.keyword("or"):
            a, b = v, self.conjunction()
            v = lambda a=a, b=b: _either(a(), b)
        return v

    def conjunction(self):
        v = self.inversion()
        while self.keyword("and"):
            a, b = v, self.inversion()
            v = lambda a=a, b=b: _both(a(), b)
        return v

    def inversion(self):
        if self.keyword("not"):
            a = self.inversion()
            return lambda: not a()
        return self.comparison()

    def comparison(self):
        first, rest = self.binary(0), []
        while True:
            o = self.op("==", "!=", "<=", ">=", "<", ">")
            if o is None:
                return (lambda: _compare(first, rest)) if rest else first
            rest.append((o, self.binary(0)))

    def binary(self, level):
        if level == len(self.BINARY):
            return self.factor()
        v = self.binary(level + 1)
        while True:
            o = self.op(*self.BINARY[level])
            if o is None:
                return v
            a, b = v, self.binary(level + 1)
            v = lambda a=a, b=b, o=o: _arith(o, a(), b())

    def factor(self):
        o = self.op("+", "-", "~")
        if o:
            a = self.factor()
            return (lambda: +a()) if o == "+" else (lambda: -a()) if o == "-" else (lambda: ~a())
        v = self.atom()
        self.blank()
        if self.at("**") or self.at("(") or self.at("[") or self.at("."):
            raise Unsupported("eval of a power, call or subscript")
        return v

    def atom(self):
        if self.op("("):
            self.blank()
            if self.at(")"):
                raise Unsupported("eval of a tuple")
            v = self.disjunction()
            self.blank()
            if self.at(","):
                raise Unsupported("eval of a tuple")
            if not self.op(")"):
                raise SyntaxError("invalid syntax")
            return v
        self.blank()
        if self.i >= len(self.cs):
            raise SyntaxError("unexpected end")
        if member(self.cs[self.i], _set("'\"{[.,:;@`\\?$!#\n")):
            if member(self.cs[self.i], _set("'\"{[.#\n")):
                raise Unsupported("eval of a literal")
            raise SyntaxError("invalid syntax")
        if member(self.cs[self.i], DIGIT):
            return self.literal()
        w = self.word()
        if not w:
            raise SyntaxError("invalid syntax")
        for k in ("not", "and", "or", "if", "else", "in", "is", "for"):
            if len(k) == len(w) and self.at(k):
                raise SyntaxError("invalid syntax")
        for k in ("None", "True", "False", "lambda", "await", "yield"):
            if len(k) == len(w) and self.at(k):
                raise Unsupported("eval of " + k)
        self.i += len(w)
        name = mk(w)
        return lambda: _lookup(name, self.env)

    def literal(self):
        n, i = len(self.cs), self.i
        base, digits = 10, DIGIT
        if member(self.cs[i], _set("0")) and i + 1 < n and member(self.cs[i + 1], _set("xX")):
            base, digits, i = 16, HEX, i + 2
        elif member(self.cs[i], _set("0")) and i + 1 < n and member(self.cs[i + 1], _set("oO")):
            base, digits, i = 8, OCT, i + 2
        elif member(self.cs[i], _set("0")) and i + 1 < n and member(self.cs[i + 1], _set("bB")):
            raise Unsupported("eval of a binary literal")
        j = i
        while j < n and member(self.cs[j], digits):
            j += 1
        if i == j:
            raise SyntaxError("invalid hexadecimal or octal literal")
        if j < n and member(self.cs[j], _set("._eEjJ")):
            raise Unsupported("eval of a float")
        if j < n and member(self.cs[j], WORD):
            raise SyntaxError("invalid decimal literal")
        cs = self.cs[i:j]
        self.i = j
        if base == 10 and len(cs) > 1 and member(cs[0], _set("0")):
            # only zeros may follow
            for c in cs:
                if not member(c, _set("0")):
                    raise SyntaxError("leading zeros in decimal integer literals are not permitted")
        v = number(cs, base)
        return lambda: v


def _either(a, b):
    return a if a else b()


def _both(a, b):
    return b() if a else a


def _compare(first, rest):
    a, r = first(), True
    for k, (o, t) in enumerate(rest):
        b = t()
        r = a == b if o == "==" else a != b if o == "!=" else a < b if o == "<" else a > b if o == ">" else a <= b if o == "<=" else a >= b
        if k + 1 < len(rest) and not r:
            return r
        a = b
    return r


def _arith(o, a, b):
    if o in ("<<", ">>"):
        if b < 0:
            raise ValueError("negative shift count")
        if not isinstance(b, int) and not b < WIDTH // 2:
            raise Unsupported("large shift")
        return a << b if o == "<<" else a >> b
    if o in ("//", "%", "/") and not isinstance(b, int) and b == 0:
        raise ZeroDivisionError("division by zero")
    return {
        "|": lambda: a | b, "^": lambda: a ^ b, "&": lambda: a & b, "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
        "//": lambda: a // b, "%": lambda: a % b, "/": lambda: a / b,
    }[o]()


def _lookup(name, env):
    for e in env:
        for k in e:
            if len(k) == len(name) and symstr.fork_eq(name, k):
                return e[k]
    import builtins

    for k in dir(builtins):
        if len(k) == len(name) and symstr.fork_eq(name, k):
            raise Unsupported("eval of the name " + k)
    raise NameError("name is not defined")


QUOTE = _set("\"'")
ESCAPES = {"\\": "\\", "'": "'", '"': '"', "a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}


def strings(cs, i):
    """Python's reading of adjacent string literals."""
    out = []
    while i < len(cs):
        if member(cs[i], BLANK):
            i += 1
            continue
        if not member(cs[i], QUOTE):
            if member(cs[i], WORD) or member(cs[i], _set("=;?:")):
                raise SyntaxError("invalid syntax")
            raise Unsupported("operations on strings")
        q = "\"" if member(cs[i], _set("\"")) else "'"
        same = lambda k: k < len(cs) and member(cs[k], _set(q))
        if same(i + 1) and same(i + 2):
            raise Unsupported("triple quotes")
        i += 1
        while not same(i):
            if i >= len(cs) or member(cs[i], _set("\n")):
                raise SyntaxError("unterminated string literal")
            c = cs[i]
            i += 1
            if not member(c, _set("\\")):
                out.append(c)
                continue
            if i >= len(cs):
                raise SyntaxError("unterminated string literal")
            for e, v in ESCAPES.items():
                if member(cs[i], _set(e)):
                    out.append(ord(v))
                    break
            else:
                raise Unsupported("unusual escape")
            i += 1
        i += 1
    return mk(out)


def sym_eval(text, globals, locals):
    cs = codes(text)
    i = 0
    while i < len(cs) and member(cs[i], BLANK):
        i += 1
    if i < len(cs) and member(cs[i], QUOTE):
        return strings(cs, i)
    r = Reader(mk(cs[i:]) if i else text, (locals, globals))
    if not r.cs:
        raise SyntaxError("invalid syntax")
    return r.read()()
