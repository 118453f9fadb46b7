"""Concrete replay of a harness: same harness, plain values, real code.

Runs in the repository's interpreter (/opt/venv/bin/python) on the unmodified,
uninstrumented code.  No z3 here.
"""


class Violated(Exception):
    pass


class Assumed(Exception):
    pass


class Concrete:
    symbolic = False

    def __init__(self, inputs):
        self.values = dict(inputs)
        self.reached = []

    def int(self, name, lo=None, hi=None, bv=False):
        return self.values.get(name, lo if lo is not None else 0)

    def bool(self, name):
        return bool(self.values.get(name, False))

    def choose(self, name, n):
        return self.values.get(name, 0) if n > 1 else 0

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def str(self, name, length, alphabet):
        return self.values.get(name, sorted(alphabet)[0] * length)

    def assume(self, c):
        if not c:
            raise Assumed()

    def check(self, cond, msg):
        if not cond:
            raise Violated(msg)

    def reach(self, label):
        self.reached.append(label)

    def lit(self, n, style="d"):
        from .fmt import fmt_lit

        return fmt_lit(n, style)

    def denonce(self, v):
        return v


def replay(module, case, inputs):
    """-> (status, detail); status in ok / violated / infeasible"""
    x = Concrete(inputs)
    try:
        module.harness(x, case)
    except Violated as e:
        return "violated", str(e)
    except Assumed:
        return "infeasible", ""
    except Exception as e:
        import traceback

        return "violated", "unexpected %s: %s\n%s" % (
            type(e).__name__,
            e,
            traceback.format_exc(limit=-4),
        )
    return "ok", ""
