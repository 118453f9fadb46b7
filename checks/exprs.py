"""Integer expression templates: C text plus the value C assigns to it.

An expression is a nested tuple; `render` gives its C spelling (arithmetic
sub-expressions fully parenthesised), `value` its C value over symbolic or
plain integers.
"""

from symx.ops import And, Ite, Not, Or, truth

ARITH = ["+", "-", "*", "&", "|", "^", "<<", ">>"]
PREC = {"*": 5, "+": 4, "-": 4, "<<": 3, ">>": 3, "&": 2, "^": 1, "|": 0}
REL = ["==", "!=", "<", ">", "<=", ">="]


class Env:
    """Allocates the literals and macros an expression mentions."""

    def __init__(self, x, styles=("d",), hi=1000, spaces=True, shift_hi=8):
        self.x, self.styles, self.hi, self.spaces = x, styles, hi, spaces
        self.n = 0
        self.prelude = []
        self.shift_hi = shift_hi
        self.vals = []

    def fresh(self, hi=None):
        i = self.n
        self.n += 1
        v = self.x.int("v%d" % i, 0, self.hi if hi is None else hi, bv=True)
        self.vals.append(v)
        return i, v


def build(env, t, shift=False):
    """-> (text, value) of template t."""
    x = env.x
    sp = " " if env.spaces else ""
    k = t[0]
    if k == "lit":
        i, v = env.fresh(env.shift_hi if shift else None)
        return x.lit(v, env.styles[i % len(env.styles)]), v
    if k == "mac":  # an object-like macro holding a literal
        i, v = env.fresh(env.shift_hi if shift else None)
        env.prelude.append("#define MA%d %s" % (i, x.lit(v, env.styles[i % len(env.styles)])))
        return "MA%d" % i, v
    if k == "enu":  # an enumeration constant
        i, v = env.fresh(env.shift_hi if shift else None)
        env.prelude.append("enum { EA%d = %s };" % (i, x.lit(v, env.styles[i % len(env.styles)])))
        return "EA%d" % i, v
    if k == "cst":  # an initialised variable
        i, v = env.fresh(env.shift_hi if shift else None)
        env.prelude.append("const int KA%d = %s;" % (i, x.lit(v, env.styles[i % len(env.styles)])))
        return "KA%d" % i, v
    if k == "cast":
        a, va = build(env, t[2], shift)
        return "(%s)%s" % (t[1], sp) + a, va
    if k == "flat":  # a o1 b o2 c, no parentheses
        o1, o2 = t[1], t[2]
        a, va = build(env, t[3])
        b, vb = build(env, t[4], shift=o1 in ("<<", ">>"))
        c, vc = build(env, t[5], shift=o2 in ("<<", ">>"))
        text = sp.join([a, o1, b, o2, c])
        if PREC[o2] > PREC[o1]:
            return text, arith(o1, va, arith(o2, vb, vc))
        return text, arith(o2, arith(o1, va, vb), vc)
    if k in ("div", "mod"):  # non-negative operands, divisor not 0
        a, va = build(env, t[1])
        i, vb = env.fresh(15)
        x.assume(vb >= 1)
        b = x.lit(vb, env.styles[i % len(env.styles)])
        return "(" + a + sp + ("/" if k == "div" else "%") + sp + b + ")", (
            va // vb if k == "div" else va % vb
        )
    if k == "und":  # an identifier that is not a macro
        return "not_a_macro", 0
    if k == "def":  # defined X, X defined or not depending on a symbolic value
        i, v = env.fresh()
        how = t[2] if len(t) > 2 else 0
        dfn = ["#define DA%d", "#define DA%d 0", "#define DA%d(a) a", "#define DA%d(a, b) (a + b)"]
        if how == 4:  # defined, then undefined or not
            env.prelude += ["#define DA%d(a) a" % i, "#if !" + x.lit(v), "#undef DA%d" % i, "#endif"]
        else:
            env.prelude += ["#if " + x.lit(v), dfn[how] % i, "#endif"]
        return ("defined(DA%d)", "defined DA%d", "defined ( DA%d )")[1 - t[1] if t[1] < 2 else 2] % i, Ite(truth(v), 1, 0)
    if k == "neg":
        a, va = build(env, t[1])
        return "(-" + a + ")", -va
    if k == "inv":
        a, va = build(env, t[1])
        return "(~" + a + ")", ~va
    if k == "ar":
        a, va = build(env, t[2])
        b, vb = build(env, t[3], shift=t[1] in ("<<", ">>"))
        return "(" + a + sp + t[1] + sp + b + ")", arith(t[1], va, vb)
    if k == "rel":
        a, va = build(env, t[2])
        b, vb = build(env, t[3])
        c = {
            "==": lambda: va == vb, "!=": lambda: va != vb, "<": lambda: va < vb,
            ">": lambda: va > vb, "<=": lambda: va <= vb, ">=": lambda: va >= vb,
        }[t[1]]()
        return a + sp + t[1] + sp + b, Ite(c, 1, 0)
    if k == "not":
        a, va = build(env, t[1])
        a = a if t[1][0] in ("lit", "mac", "und", "def") else "(" + a + ")"
        return "!" + a, Ite(Not(truth(va)), 1, 0)
    if k == "and":
        a, va = build(env, t[1])
        b, vb = build(env, t[2])
        if t[1][0] == "or":
            a = "(" + a + ")"
        if t[2][0] == "or":
            b = "(" + b + ")"
        return a + sp + "&&" + sp + b, Ite(And(truth(va), truth(vb)), 1, 0)
    if k == "or":
        a, va = build(env, t[1])
        b, vb = build(env, t[2])
        return a + sp + "||" + sp + b, Ite(Or(truth(va), truth(vb)), 1, 0)
    raise ValueError(k)


def arith(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    if op == "<<":
        return a << b
    if op == ">>":
        return a >> b
    raise ValueError(op)
