"""C28 - integer expressions are read token by token as C reads them."""

from checks.common import And, Ite, Not, Or, eq, truth
from checks.texts import BLANK, WORD, one_of, pick, run, same, strip
from checks.texts import setup as text_setup

FUNCTIONS = [
    "CParser.process_all", "CParser.preprocess", "CParser.eval_preprocessor_expr", "CParser.expand_macros", "CParser.process_macro_defn",
    "CParser.eval_expr", "CParser.eval", "int_strip and the literal grammar", "pyparsing: transform_string and the grammars used (executed symbolically as well)",
]
ASSUMPTIONS = [
    "the expression is symbolic: every character ranges over blanks, digits, letters and operators (the alphabet is in the bounds); Python's eval is modelled by symx/symeval.py, a reader of its expression grammar",
    "only texts C accepts as integer constant expressions within the stated domain are considered: divisors above 0, shifts of non-negative numbers by 0..8",
]
OUTSIDE = (
    "texts longer than the bound; in #if: & ^ | next to comparisons without parentheses, chained comparisons, results of comparisons and logical operators used as numbers, "
    "! next to other operators than && and ||; in macros: division, comparison and logical operators"
)
REACH = ["true", "false", "macro", "hexadecimal", "octal", "suffix", "unknown name", "logical", "comparison", "unary", "arithmetic", "parentheses"]
ALPHA = " 0123456789abefABEFxXuUlL+-*/%&|^<>=!~()M"
SPLIT = [" ", "0", "123456789", "abefABEFxXuUlL", "M", "+-", "~", "!", "(", "*/%&|^<>=)"]
FRAMES = {
    "if": [("", ""), ("1", "1"), ("0x", "F"), ("M", "M"), ("(", ")&& 3"), ("0 ||", ""), ("-", " == M"), ("0", "7")],
    "macro": [("", ""), ("1", "2"), ("0X", ""), ("M", ""), ("(", ")* 3"), ("~", "1ul"), ("-M", "0xA"), ("01", "")],
}
N = {"quick": 3, "thorough": 4}
SUFFIXES = {a + b for a in ("", "u", "U") for b in ("", "l", "L", "ll", "LL")} | {b + a for a in ("u", "U") for b in ("l", "L", "ll", "LL")}


def setup(symbolic):
    text_setup(symbolic)


def BOUNDS(tier):
    return "every expression of up to %d characters over %r, and of up to %d characters in each of %d fixed surroundings, after #if, #elif and #define, with one macro defined" % (
        N[tier] + 1, ALPHA, N[tier], len(FRAMES["if"]) - 1,
    )


def cases(tier):
    out = []
    for kind in FRAMES:
        for f in range(len(FRAMES[kind])):
            for n in range(N[tier] + (2 if f == 0 else 1)):
                out += [(kind, f, n, g) for g in (SPLIT if n > 1 else [""])]
    return out


class Expr:
    """C's reading of the text; what is outside the domain is assumed away."""

    LEVELS = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]

    def __init__(self, x, s, macros, unknown):
        self.x, self.s, self.macros, self.unknown = x, s, macros, unknown
        self.toks, self.k = [], 0
        self.tokens()

    def tokens(self):
        """Tokens in an order in which operands and operators can follow each other."""
        x, s, i, depth = self.x, self.s, 0, 0
        operand = True
        while i < len(s):
            if one_of(s[i], BLANK):
                i += 1
                continue
            if not operand:
                x.assume(one_of(s[i], ("+-*&|^<>" + ("/%=!" if self.unknown else "")) + (")" if depth else "")))
                if one_of(s[i], ")"):
                    depth -= 1
                    self.toks.append((")", None))
                    i += 1
                    continue
                o = self.operator(i)
                self.toks.append((o, None))
                i += len(o)
                operand = True
                continue
            if one_of(s[i], WORD):
                operand = False
                j = i + 1
                while j < len(s) and one_of(s[j], WORD):
                    j += 1
                if one_of(s[i], "0123456789"):
                    # 0x1e+1 is one token
                    if j < len(s) and one_of(s[j], "+-"):
                        x.assume(not one_of(s[j - 1], "eEpP"))
                    self.toks.append(("num", self.literal(s[i:j])))
                else:
                    k = pick(s[i:j], self.macros)
                    if k is None:
                        x.assume(self.unknown)
                        x.reach("unknown name")
                    self.toks.append(("num", self.macros[k] if k is not None else 0))
                i = j
                continue
            ops = "(+-~" + ("!" if self.unknown else "")
            x.assume(one_of(s[i], ops))
            o = [c for c in ops if one_of(s[i], c)][0]
            if i + 1 < len(s) and o in "+-!":
                x.assume(not one_of(s[i + 1], "=" + o.replace("!", "")))
            depth += o == "("
            self.toks.append((o, None))
            i += 1
        x.assume(not operand and depth == 0)
        self.toks.append(("end", None))

    def operator(self, i):
        x, s = self.x, self.s
        o = [c for c in "+-*/%&|^<>=!" if one_of(s[i], c)][0]
        n = s[i + 1] if i + 1 < len(s) else " "
        if o in "=!":
            x.assume(one_of(n, "="))
            return o + "="
        if o in "<>" and one_of(n, "="):
            return o + "="
        if o in "<>&|" and one_of(n, o):
            if o in "<>" and i + 2 < len(s):
                x.assume(not one_of(s[i + 2], "="))
            return o + o
        x.assume(not one_of(n, "=" + {"+": "+", "-": "->", "/": "/*"}.get(o, "")))
        return o

    def literal(self, w):
        x = self.x
        base, i = 10, 0
        digits = "0123456789"
        if len(w) > 1 and one_of(w[0], "0") and one_of(w[1], "xX"):
            base, i, digits = 16, 2, digits + "abcdefABCDEF"
            x.reach("hexadecimal")
        j = i
        while j < len(w) and one_of(w[j], digits):
            j += 1
        x.assume(j > i)
        if base == 10 and j > 1 and one_of(w[0], "0"):
            base = 8
            x.assume(all(one_of(c, "01234567") for c in w[:j]))
            x.reach("octal")
        suffix = w[j:]
        if len(suffix):
            x.assume(pick(suffix, SUFFIXES) is not None)
            x.reach("suffix")
        t = w[i:j]
        if isinstance(t, str):
            return int(t, base)
        from symx.symeval import number

        return number(t.cs, base)

    def peek(self):
        return self.toks[self.k][0]

    def read(self):
        v, kind = self.level(0)
        self.x.assume(self.peek() == "end")
        return v

    def level(self, n):
        """-> (value, 'num' or what kind of bare expression it is)"""
        x = self.x
        if n == len(self.LEVELS):
            return self.unary()
        v, kind = self.level(n + 1)
        while self.peek() in self.LEVELS[n]:
            o = self.peek()
            self.k += 1
            w, kind2 = self.level(n + 1)
            x.assume(self.unknown or n > 1 and n not in (5, 6))
            if n < 2:
                x.reach("logical")
                v = Ite(Or(truth(v), truth(w)) if n == 0 else And(truth(v), truth(w)), 1, 0)
                kind = "logic"
                continue
            x.assume(kind == "num" and kind2 == "num")
            if n in (5, 6):
                x.reach("comparison")
                c = {"==": lambda: v == w, "!=": lambda: v != w, "<": lambda: v < w, ">": lambda: v > w, "<=": lambda: v <= w, ">=": lambda: v >= w}[o]()
                v, kind = Ite(c, 1, 0), "logic"
                continue
            x.reach("arithmetic")
            if o in ("/", "%"):
                x.assume(And(v >= 0, w > 0))
            if o in ("<<", ">>"):
                x.assume(And(v >= 0, w >= 0, w <= 8))
            v = {
                "|": lambda: v | w, "^": lambda: v ^ w, "&": lambda: v & w, "<<": lambda: v << w, ">>": lambda: v >> w, "+": lambda: v + w,
                "-": lambda: v - w, "*": lambda: v * w, "/": lambda: v // w, "%": lambda: v % w,
            }[o]()
        return v, kind

    def unary(self):
        x, (t, v) = self.x, self.toks[self.k]
        x.assume(t in ("num", "(", "+", "-", "~", "!"))
        self.k += 1
        if t == "num":
            return v, "num"
        if t == "(":
            v, kind = self.level(0)
            x.assume(self.peek() == ")")
            x.reach("parentheses")
            self.k += 1
            return v, kind
        v, kind = self.unary()
        x.reach("unary")
        if t == "!":
            x.assume(self.unknown)
            return Ite(Not(truth(v)), 1, 0), "logic"
        x.assume(kind == "num")
        return (v, kind) if t == "+" else (-v, kind) if t == "-" else (~v, kind)


def harness(x, case):
    kind, f, n, g = case
    a, b = FRAMES[kind][f]
    s = x.str("text", n, ALPHA)
    if g:
        x.assume(one_of(s[0], g))
    text = a + s + b
    if len(strip(text)) == 0:
        return
    want = Expr(x, text, {"M": 7, "MM": 12}, kind == "if").read()
    head = "#define M 7\n#define MM 0xc\n"
    if kind == "if":
        elif_ = n % 2
        src = head + ("#if 0\nnever\n#elif " if elif_ else "#if ") + text + "\nyes\n#else\nno\n#endif\n"
        _, (got,) = run(x, [src])
        yes = same(x, got, "\n\n\n" + ("\n\n" if elif_ else "") + "yes\n\n\n\n")
        if not yes:
            x.check(same(x, got, "\n\n\n" + ("\n\n" if elif_ else "") + "\n\nno\n\n"), "#if %r: neither or both groups are kept: %r" % (text, got))
        x.reach("true" if yes else "false")
        x.check(truth(want) if yes else Not(truth(want)), "#if %r is taken as %s, C says otherwise" % (text, bool(yes)))
    else:
        x.assume(one_of(text[0], "0123456789M(+-~ "))
        p, _ = run(x, [head + "#define N " + text + "\n"])
        x.reach("macro")
        got = p.defs["values"].get("N")
        x.check(eq(got, want), "#define N %r has the value %r, C says %r" % (text, got, want))
