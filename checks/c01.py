"""C01 - conditional inclusion keeps exactly the groups C keeps.

Every nesting skeleton of #if/#ifdef/#ifndef/#elif/#else/#endif within the
bound is laid out as a header; the value of every condition is a symbolic
integer.  The real CParser processes the header; on each feasible path z3 is
asked whether some values of the conditions give a kept/dropped set different
from the C rule.
"""

from checks.common import And, Iff, Not, parse, truth

FUNCTIONS = [
    "CParser.__init__", "CParser.load_file", "CParser.process_all",
    "CParser.remove_comments", "CParser.preprocess",
    "CParser.eval_preprocessor_expr", "CParser.expand_macros",
    "CParser.process_macro_defn", "CParser.rem_def", "CParser.add_def",
    "CParser.parse_defs", "CParser.process_variable",
]
ASSUMPTIONS = [
    "condition literals are decimal integers in 0..99; text handling treats decimal literals of any value alike (each is represented by a distinct decimal literal while the text is processed)",
    "pyparsing and the re module behave as installed (they run for real)",
    "directives are well nested",
]
OUTSIDE = "deeper nesting / more groups than the bound; ill-nested directives; #elif after #else"
REACH = ["taken-nested", "skipped-nested", "elif-taken", "else-taken"]


def BOUNDS(tier):
    n = _bound(tier)
    return "every well-nested skeleton with at most %d conditional groups, nesting depth <= %d, in %d spellings" % (
        n[0], n[1], n[2],
    )


def _bound(tier):
    return (4, 3, 4) if tier == "quick" else (5, 4, 6)


# a block is a tuple of chains; a chain is (blocks of if/elif groups, else block or None)
def blocks(n, depth):
    """All blocks using exactly n groups."""
    if n == 0:
        return [()]
    if depth == 0:
        return []
    out = []
    for k in range(1, n + 1):
        for c in chains(k, depth):
            for rest in blocks(n - k, depth):
                out.append((c,) + rest)
    return out


def chains(n, depth):
    """All chains using exactly n groups (each if/elif/else body is a group)."""
    out = []
    for bodies in splits(n, depth):
        out.append((bodies, None))
        if len(bodies) > 1:
            out.append((bodies[:-1], bodies[-1]))
    return out


def splits(n, depth):
    """Non-empty tuples of blocks; each block costs 1 + its own groups."""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for b in blocks(k - 1, depth - 1):
            for rest in splits(n - k, depth):
                if n - k == 0 or rest:
                    out.append((b,) + rest)
    return out


def cases(tier):
    n, d, v = _bound(tier)
    out = []
    for k in range(1, n + 1):
        for b in blocks(k, d):
            for s in range(v):
                out.append((b, s))
    return out


HEADS = ["if", "ifdef", "ifndef", "if defined", "if !defined", "if defined("]
ELIFS = ["elif", "elif defined", "elif !defined(", "elif"]
PRE = ["", "  ", "\t", ""]
MID = ["", " ", "", "  "]


class Layout:
    def __init__(self, x, spelling):
        self.x, self.s = x, spelling
        self.lines, self.prelude = [], []
        self.marks = []
        self.n = 0
        self.c = 0

    def mark(self, active):
        i = self.n
        self.n += 1
        self.prelude.append("#define U%d 1" % i)
        self.lines += ["int m%d;" % i, self.d() + "define D%d 1" % i, self.d() + "undef U%d" % i]
        self.marks.append((i, active))

    def d(self):
        k = self.n + self.s
        return PRE[k % 4] + "#" + MID[(k // 2) % 4]

    def cond(self, forms):
        """-> (directive text, formula)"""
        i = self.c
        self.c += 1
        form = forms[(i + self.s) % len(forms)] if self.s else forms[0]
        v = self.x.int("c%d" % i, 0, 99)
        t = truth(v)
        if "def" not in form:
            return form + " " + self.x.lit(v), t
        self.prelude += ["#if " + self.x.lit(v), "#define A%d" % i, "#endif"]
        if "!" in form or "ifndef" in form:
            t = Not(t)
        if form.endswith("("):
            return form + "A%d)" % i, t
        return form + " A%d" % i, t

    def block(self, b, active, depth):
        self.mark(active)
        for bodies, els in b:
            prev = []
            for j, body in enumerate(bodies):
                txt, t = self.cond(HEADS if j == 0 else ELIFS)
                self.lines.append(self.d() + txt)
                self.block(body, And(active, t, *[Not(p) for p in prev]), depth + 1)
                prev.append(t)
            if els is not None:
                self.lines.append(self.d() + "else")
                self.block(els, And(active, *[Not(p) for p in prev]), depth + 1)
            self.lines.append(self.d() + "endif")
            self.mark(active)


def harness(x, case):
    skeleton, spelling = case
    lay = Layout(x, spelling)
    lay.block(skeleton, True, 0)
    text = "\n".join(lay.prelude + lay.lines) + "\n"
    p = parse(text)
    macros, variables = p.defs["macros"], p.defs["variables"]
    conj = []
    for i, active in lay.marks:
        conj.append(Iff("m%d" % i in variables, active))
        conj.append(Iff("D%d" % i in macros, active))
        conj.append(Iff("U%d" % i not in macros, active))
    n_in = sum("m%d" % i in variables for i, _ in lay.marks)
    if len(lay.marks) > 3:
        x.reach("taken-nested" if n_in > 2 else "skipped-nested")
    for bodies, els in skeleton:
        if len(bodies) > 1 and n_in > 2:
            x.reach("elif-taken")
        if els is not None and n_in > 2:
            x.reach("else-taken")
    x.check(And(*conj), "kept/dropped groups differ from C in:\n" + text)
