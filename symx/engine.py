"""Path-exploring symbolic execution over the real Python code, decided by z3.

The code under test is executed by the Python interpreter itself; inputs are
proxy objects holding z3 terms.  Whenever the code asks for the truth of a
symbolic condition, `Engine.branch` asks z3 which outcomes are feasible under
the current path condition and explores every feasible one (by re-execution
with a recorded decision prefix).  `Engine.check` asks z3 for a value of the
inputs on the current path that falsifies an assertion.
"""

import ast
import builtins
import signal
import sys
import time

import z3

from . import ops
from .fmt import fmt_lit

WIDTH = 64

_real_eval = builtins.eval


class SymAbort(BaseException):
    """The current path is infeasible or has been cut."""


class PathTimeout(BaseException):
    """The code under test ran past the per-path time limit."""


class Unsupported(BaseException):
    """The code did something with a symbolic value the engine cannot model."""


ENG = None  # the engine of the running exploration


# --------------------------------------------------------------------------
# symbolic values


def _z(x):
    """z3 term for an int operand."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return None


def to_bv(e, memo=None):
    """The integer term e as a bit vector, its arithmetic done in bit vectors."""
    memo = {} if memo is None else memo
    r = memo.get(e.get_id())
    if r is not None:
        return r[0]
    k, n = e.decl().kind(), e.num_args()
    sub = lambda i: to_bv(e.arg(i), memo)
    if z3.is_int_value(e):
        r = z3.BitVecVal(e.as_long(), WIDTH)
    elif k == z3.Z3_OP_ITE:
        r = z3.If(e.arg(0), sub(1), sub(2))
    elif k == z3.Z3_OP_UMINUS:
        r = -sub(0)
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
        r = sub(0)
        for i in range(1, n):
            r = r + sub(i) if k == z3.Z3_OP_ADD else r - sub(i) if k == z3.Z3_OP_SUB else r * sub(i)
    else:
        r = z3.Int2BV(e, WIDTH)
    memo[e.get_id()] = (r, e)
    return r


def _pair(a, b):
    """Bring two operands to one sort (Int, or BitVec when either is one)."""
    ea = a.e if isinstance(a, SymInt) else None
    eb = b.e if isinstance(b, SymInt) else None
    bv = (ea is not None and z3.is_bv(ea)) or (eb is not None and z3.is_bv(eb))
    if not bv:
        return _z(a), _z(b)

    def conv(x):
        if isinstance(x, SymInt):
            if z3.is_bv(x.e):
                return x.e
            return to_bv(x.e)
        if isinstance(x, SymBool):
            return z3.If(x.e, z3.BitVecVal(1, WIDTH), z3.BitVecVal(0, WIDTH))
        if isinstance(x, int):
            return z3.BitVecVal(int(x), WIDTH)
        return None

    return conv(a), conv(b)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __and__(self, o):
        return ops.And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return ops.Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return sym_iff(self, o)
        if isinstance(o, (int, SymInt)):
            return SymInt(_z(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ops.Not(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def _i(self):
        return SymInt(_z(self))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o

    def __repr__(self):
        return "<symbool>"

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    def __reduce__(self):
        return (_rebuild, (ENG.register(self),))


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    # arithmetic -----------------------------------------------------------
    def _bin(self, o, f):
        a, b = _pair(self, o)
        if b is None:
            return NotImplemented
        return SymInt(f(a, b))

    def _rbin(self, o, f):
        a, b = _pair(self, o)
        if b is None:
            return NotImplemented
        return SymInt(f(b, a))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._rbin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        if hasattr(o, "__sx_repeat__"):
            return o.__sx_repeat__(self)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        if hasattr(o, "__sx_repeat__"):
            return o.__sx_repeat__(self)
        return self._rbin(o, lambda a, b: a * b)

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        return _floordiv(o, self)

    def __mod__(self, o):
        return self - _floordiv(self, o) * o

    def __rmod__(self, o):
        return o - _floordiv(o, self) * self

    def __truediv__(self, o):
        if isinstance(o, float):
            raise Unsupported("float arithmetic")
        if bool(SymInt(_z(o)) == 0) if isinstance(o, (int, SymInt, SymBool)) else False:
            raise ZeroDivisionError("division by zero")
        a, b = self.e, (o.e if isinstance(o, SymInt) else _z(o))
        if z3.is_bv(a):
            a = z3.BV2Int(a, True)
        if z3.is_bv(b):
            b = z3.BV2Int(b, True)
        return SymInt(z3.ToReal(a) / z3.ToReal(b))

    def __rtruediv__(self, o):
        if bool(self == 0):
            raise ZeroDivisionError("division by zero")
        e = self.e if not z3.is_bv(self.e) else z3.BV2Int(self.e, True)
        return SymInt(z3.ToReal(_z(o)) / z3.ToReal(e))

    def _tobv(self, x):
        if isinstance(x, SymInt):
            if z3.is_bv(x.e):
                return x.e
            return to_bv(x.e)
        if isinstance(x, SymBool):
            return z3.If(x.e, z3.BitVecVal(1, WIDTH), z3.BitVecVal(0, WIDTH))
        if isinstance(x, int):
            return z3.BitVecVal(x, WIDTH)
        return None

    def _bit(self, o, f, rev=False):
        a, b = self._tobv(self), self._tobv(o)
        if b is None:
            return NotImplemented
        if rev:
            a, b = b, a
        return SymInt(f(a, b))

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __invert__(self):
        if z3.is_bv(self.e):
            return SymInt(~self.e)
        return SymInt(-self.e - 1)

    def __lshift__(self, o):
        return self._bit(o, lambda a, b: a << b)

    def __rlshift__(self, o):
        return self._bit(o, lambda a, b: a << b, rev=True)

    def __rshift__(self, o):
        return self._bit(o, lambda a, b: a >> b)

    def __rrshift__(self, o):
        return self._bit(o, lambda a, b: a >> b, rev=True)

    # comparison -----------------------------------------------------------
    def _cmp(self, o, f, other):
        if isinstance(o, float):
            if z3.is_bv(self.e):
                return SymBool(f(z3.ToReal(z3.BV2Int(self.e, True)), z3.RealVal(o)))
            return SymBool(f(self.e, z3.RealVal(o)))
        a, b = _pair(self, o) if isinstance(o, (int, SymInt, SymBool)) else (0, None)
        if b is None:
            return other
        return SymBool(f(a, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, NotImplemented)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, NotImplemented)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, NotImplemented)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, NotImplemented)

    def __bool__(self):
        return ENG.branch(self.e != 0)

    def __index__(self):
        return ENG.concretize(self)

    def __int__(self):
        return ENG.concretize(self.trunc())

    def trunc(self):
        """int() of it: towards zero."""
        if not z3.is_real(self.e):
            return self
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    __trunc__ = trunc

    def __floor__(self):
        return SymInt(z3.ToInt(self.e)) if z3.is_real(self.e) else self

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e)) if z3.is_real(self.e) else self

    def __round__(self, n=None):
        if not z3.is_real(self.e):
            return self
        raise Unsupported("rounding")

    def __hash__(self):
        return hash(ENG.concretize(self))

    def __repr__(self):
        return str(ENG.nonce(self)) if ENG is not None else "<symint>"

    __str__ = __repr__

    def __format__(self, spec):
        if spec in ("", "d"):
            return self.__repr__()
        return format(ENG.concretize(self), spec)

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    def __reduce__(self):
        return (_rebuild, (ENG.register(self),))


def _rebuild(i):
    return ENG.registry[i]


def _floordiv(a, b):
    if isinstance(b, SymInt) and ENG is not None and ENG.domains and _text_vars([b.e], ENG.domains):
        # a divisor read from a text: one path for each value
        b = ENG.concretize(b)
    ea, eb = _pair(a if isinstance(a, SymInt) else SymInt(_z(a)), b)
    if bool(SymBool(eb == 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    if z3.is_bv(ea):
        q = ea / eb  # truncating signed division
        r = z3.SRem(ea, eb)
        return SymInt(z3.If(z3.And(r != 0, (r < 0) != (eb < 0)), q - 1, q))
    # z3 Int division is Euclidean: convert to floor
    q = ea / eb
    return SymInt(z3.If(z3.And(eb < 0, ea % eb != 0), q - 1, q))


ops.SYM = (SymBool, SymInt)
ops._sym = sys.modules[__name__]


def _b(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return x.e != 0
    return z3.BoolVal(bool(x))


def sym_and(xs):
    out = []
    for x in xs:
        if not ops.is_sym(x):
            if not x:
                return False
            continue
        out.append(_b(x))
    return SymBool(z3.And(*out)) if out else True


def sym_or(xs):
    out = []
    for x in xs:
        if not ops.is_sym(x):
            if x:
                return True
            continue
        out.append(_b(x))
    return SymBool(z3.Or(*out)) if out else False


def sym_not(x):
    return SymBool(z3.Not(_b(x)))


def sym_iff(a, b):
    return SymBool(_b(a) == _b(b))


def sym_truth(x):
    return SymBool(_b(x))


def sym_ite(c, a, b):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return SymBool(z3.If(_b(c), _b(a), _b(b)))
    if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)):
        x, y = _pair(a, b)
        return SymInt(z3.If(_b(c), x, y))
    return a if bool(c) else b


def sym_eq(a, b):
    h = getattr(a, "__sx_eq__", None)
    if h is not None:
        return h(b)
    h = getattr(b, "__sx_eq__", None)
    if h is not None:
        return h(a)
    r = a == b if ops.is_sym(a) else b == a
    return r


# --------------------------------------------------------------------------


class Counterexample:
    def __init__(self, inputs, msg, kind="assert"):
        self.inputs, self.msg, self.kind = inputs, msg, kind


class Stats(dict):
    KEYS = (
        "paths",
        "aborted",
        "branches",
        "forks",
        "queries",
        "checks",
        "discharged",
        "trivial",
        "unknown",
        "incomplete",
    )

    def __init__(self):
        super().__init__({k: 0 for k in self.KEYS})
        self["solver_s"] = 0.0
        self["reach"] = {}

    def merge(self, o):
        for k in self.KEYS:
            self[k] += o[k]
        self["solver_s"] += o["solver_s"]
        for k, v in o["reach"].items():
            self["reach"][k] = self["reach"].get(k, 0) + v


NONCES = (
    0x1BF, 7130, 0x3E5F, 61100, 0xABCDEF, 803133, 0x5E1, 90000, 0x1FFFFFFFF, 0x2E0, 4095, 120,
)


class Engine:
    """Explores every feasible path of a harness."""

    symbolic = True

    def __init__(self, path_timeout=30, query_ms=20000):
        self.solver = z3.Solver()
        # a first, short attempt; see _split
        self.query_ms, self.first_ms = query_ms, min(query_ms, 2000)
        self.solver.set("timeout", self.first_ms)
        self.path_timeout = path_timeout
        self.stats = Stats()
        self.cex = []
        self.sample = None

    # ------------------------------------------------------------- inputs
    def _fresh(self, name):
        if name in self.inputs:
            raise RuntimeError("duplicate symbolic input " + name)

    def int(self, name, lo=None, hi=None, bv=False):
        self._fresh(name)
        v = z3.BitVec(name, WIDTH) if bv else z3.Int(name)
        self.inputs[name] = ("int", v)
        if lo is not None:
            self.assume_e(v >= lo)
        if hi is not None:
            self.assume_e(v <= hi)
        return SymInt(v)

    def bool(self, name):
        self._fresh(name)
        v = z3.Bool(name)
        self.inputs[name] = ("bool", v)
        return SymBool(v)

    def choose(self, name, n):
        """A symbolic index in [0, n), split by the solver right away."""
        if n == 1:
            return 0
        x = self.int(name, 0, n - 1)
        return self.concretize(x)

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def str(self, name, length, alphabet):
        from .symstr import SymStr, in_set

        self._fresh(name)
        vs = [z3.Int("%s!%d" % (name, i)) for i in range(length)]
        self.inputs[name] = ("str", vs)
        codes = sorted(ord(c) for c in alphabet)
        for v in vs:
            self.assume_e(in_set(v, frozenset(codes)))
            self.domains[v.get_id()] = frozenset(codes)
        return SymStr(vs)

    # ------------------------------------------------------- path condition
    def _sat(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r = self._split(extra)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        return r

    def _split(self, extra, depth=2):
        """The verdict by a query for each value of a character of the text."""
        chars = _text_vars(extra, self.domains)
        if not chars or not depth:
            self.solver.set("timeout", self.query_ms)
            r = self.solver.check(*extra)
            self.solver.set("timeout", self.first_ms)
            return r
        c, worst = chars[0], z3.unsat
        for v in sorted(self.domains[c.get_id()]):
            sub = [z3.simplify(z3.substitute(e, (c, z3.IntVal(v)))) for e in extra]
            if any(z3.is_false(e) for e in sub):
                continue
            self.stats["queries"] += 1
            r = self.solver.check(c == v, *sub)
            if r == z3.unknown:
                r = self._split((c == v, *sub), depth - 1)
            if r == z3.sat:
                return r
            if r == z3.unknown:
                worst = r
        return worst

    def assume_e(self, e):
        self.solver.add(e)

    def assume(self, c):
        if not ops.is_sym(c):
            if not c:
                raise SymAbort()
            return
        self.solver.add(_b(c))
        if self._sat() == z3.unsat:
            raise SymAbort()

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        known = self.decided.get(k)
        if known is not None:
            return known[0]
        self.stats["branches"] += 1
        i = len(self.trace)
        if i < len(self.prefix):
            _, d, forced = self.prefix[i]
        else:
            rt = self._sat(e)
            if rt == z3.unsat:
                d, forced = False, True
            else:
                rf = self._sat(z3.Not(e))
                if rf == z3.unsat:
                    d, forced = True, True
                else:
                    if rt == z3.unknown or rf == z3.unknown:
                        self.stats["unknown"] += 1
                    self.stats["forks"] += 1
                    self.work.append(self.trace + [("b", False, False)])
                    d, forced = True, False
        self.trace.append(("b", d, forced))
        if not forced:
            self.solver.add(e if d else z3.Not(e))
        self.decided[k] = (d, e)  # keep e alive: ids are reused otherwise
        return d

    def concretize(self, x, limit=4096):
        """Split on every feasible value of x (the solver supplies them)."""
        e = z3.simplify(x.e)
        for _ in range(limit):
            v = _const(e)
            if v is not None:
                return v
            i = len(self.trace)
            if i < len(self.prefix):
                tag, val, d = self.prefix[i]
                if tag == "only":
                    self.trace.append((tag, val, d))
                    return val
            else:
                if self._sat() != z3.sat:
                    raise SymAbort()
                t = time.perf_counter()
                val = _const(self.solver.model().eval(e, model_completion=True))
                self.stats["solver_s"] += time.perf_counter() - t
                if self._sat(e != val) == z3.unsat:
                    self.trace.append(("only", val, True))
                    return val
                self.stats["forks"] += 1
                self.work.append(self.trace + [("v", val, False)])
                d = True
            self.trace.append(("v", val, d))
            if d:
                self.solver.add(e == val)
                return val
            self.solver.add(e != val)
        raise Unsupported("unbounded value concretised")

    # ------------------------------------------------------------- verdicts
    def _model_inputs(self):
        m = self.solver.model()
        out = {}
        for n, (k, v) in self.inputs.items():
            if k == "str":
                out[n] = "".join(chr(_const(m.eval(c, model_completion=True))) for c in v)
            elif k == "bool":
                out[n] = z3.is_true(m.eval(v, model_completion=True))
            else:
                out[n] = _const(m.eval(v, model_completion=True))
        return out

    def check(self, cond, msg):
        """Assert cond on the current path, for every input following it."""
        self.stats["checks"] += 1
        if not ops.is_sym(cond):
            if cond:
                self.stats["trivial"] += 1
                self.stats["discharged"] += 1
                return
            r = self._sat()
            if r == z3.sat:
                self._violate(msg)
            elif r == z3.unknown:
                self.stats["unknown"] += 1
            return
        r = self._sat(z3.Not(_b(cond)))
        if r == z3.unsat:
            self.stats["discharged"] += 1
        elif r == z3.sat:
            self._violate(msg)
        else:
            self.stats["unknown"] += 1

    def _violate(self, msg, kind="assert"):
        self.cex.append(Counterexample(self._model_inputs(), msg, kind))
        raise SymAbort()

    def reach(self, label):
        d = self.stats["reach"]
        d[label] = d.get(label, 0) + 1

    # --------------------------------------------------------------- nonces
    def nonce(self, s):
        """A decimal literal standing for the symbolic integer s in text."""
        k = s.e.get_id()
        if k in self.nonce_of:
            return self.nonce_of[k]
        i = len(self.nonces)
        # distinct shapes: 3..10 digits; hex spellings ending in every kind of
        # digit, with letters that also occur in suffixes and exponents
        n = NONCES[i % len(NONCES)] + 0x1000000 * (i // len(NONCES)) * 16
        self.nonces[n] = s
        self.nonce_of[k] = n
        return n

    def lit(self, s, style="d"):
        """Source text of an integer literal whose value is symbolic."""
        if not isinstance(s, SymInt):
            return fmt_lit(s, style)
        return fmt_lit(self.nonce(s), style)

    def denonce(self, v):
        """Map literals that crossed the code untouched back to their terms."""
        if type(v) is int and v in self.nonces:
            return self.nonces[v]
        if isinstance(v, tuple) and hasattr(v, "type_quals"):
            w = type(v)(*[self.denonce(x) for x in v], type_quals=v.type_quals)
            return w
        if type(v) is tuple:
            return tuple(self.denonce(x) for x in v)
        if type(v) is list:
            return [self.denonce(x) for x in v]
        if isinstance(v, dict):
            return {k: self.denonce(x) for k, x in v.items()}
        return v

    def register(self, v):
        self.registry.append(v)
        return len(self.registry) - 1

    # ---------------------------------------------------------------- drive
    def explore(self, body, deadline=None, max_paths=None, max_cex=3, work=None, until=None):
        """Run body(self) on every feasible path (of those that start with a
        decision list in work).  What is left when `until` has passed is
        returned, for another exploration."""
        global ENG
        self.work = work or [[]]
        left = []
        ENG = self
        saved_eval = builtins.eval
        builtins.eval = sx_eval
        old = signal.signal(signal.SIGALRM, _on_alarm)
        try:
            while self.work:
                if deadline is not None and time.time() > deadline:
                    self.stats["incomplete"] += len(self.work)
                    break
                if max_paths is not None and self.stats["paths"] >= max_paths:
                    self.stats["incomplete"] += len(self.work)
                    break
                if until is not None and self.stats["paths"] and time.time() > until:
                    left, self.work = self.work, []
                    break
                self._run(body)
                if len(self.cex) >= max_cex:
                    self.stats["incomplete"] += len(self.work)
                    break
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            builtins.eval = saved_eval
            ENG = None
        self.left = left
        return self

    def _run(self, body):
        self.prefix = self.work.pop()
        self.trace = []
        self.inputs = {}
        self.decided = {}
        self.domains = {}
        self.nonces = {}
        self.nonce_of = {}
        self.registry = []
        self.solver.reset()
        done = False
        signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
        try:
            body(self)
            done = True
        except SymAbort:
            self.stats["aborted"] += 1
        except PathTimeout:
            self._on_exc("the code did not finish within the path time limit", "hang")
        except Unsupported as e:
            self.stats["incomplete"] += 1
            self.note = str(e)
        except Exception as e:  # the code under test raised
            import traceback

            self._on_exc(
                "unexpected %s: %s [%s]"
                % (
                    type(e).__name__,
                    str(e)[:200],
                    "; ".join(
                        "%s:%d" % (f.name, f.lineno)
                        for f in traceback.extract_tb(e.__traceback__)[-3:]
                    ),
                ),
                "exception",
            )
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.stats["paths"] += 1
        if done and self.sample is None and self.inputs and self._sat() == z3.sat:
            self.sample = self._model_inputs()

    def _on_exc(self, msg, kind):
        if self._sat() == z3.sat:
            self.cex.append(Counterexample(self._model_inputs(), msg, kind))
        else:
            self.stats["incomplete"] += 1


def _text_vars(es, domains):
    out, seen, todo = [], set(), list(es)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.num_args() == 0:
            if e.get_id() in domains and len(domains[e.get_id()]) > 1:
                out.append(e)
        else:
            todo.extend(e.children())
    return out


def _on_alarm(sig, frame):
    raise PathTimeout()


def _const(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_bv_value(e):
        return e.as_signed_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return None


class _Subst(ast.NodeTransformer):
    def __init__(self, nonces):
        self.nonces = nonces
        self.used = {}

    def visit_Constant(self, node):
        if type(node.value) is int and node.value in self.nonces:
            name = "__sx_n%d" % node.value
            self.used[name] = self.nonces[node.value]
            return ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node)
        return node


def sx_eval(expr, globals=None, locals=None):
    """builtins.eval during an exploration: literals that stand for symbolic
    integers are replaced by their terms; everything else is the real eval."""
    if globals is None:
        globals = sys._getframe(1).f_globals
        if locals is None:
            locals = sys._getframe(1).f_locals
    elif locals is None:
        locals = globals
    if type(expr).__name__ == "SymStr":
        from .symeval import sym_eval

        return sym_eval(expr, globals, locals)
    if not isinstance(expr, str):
        return _real_eval(expr, globals, locals)
    tree = ast.parse(expr.lstrip(" \t"), mode="eval")
    sub = _Subst(ENG.nonces if ENG is not None else {})
    tree = ast.fix_missing_locations(sub.visit(tree))
    env = dict(locals)
    env.update(sub.used)
    return _real_eval(compile(tree, "<sx_eval>", "eval"), globals, env)


# a stand-in for the name `int` inside a module under test, so that
# int("<literal>") of a symbolic literal yields its term


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymInt):
            return a[0].trunc()
        v = int(*a, **k)
        if ENG is not None and v in ENG.nonces and a and isinstance(a[0], str):
            return ENG.nonces[v]
        return v

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=_IntMeta):
    pass
