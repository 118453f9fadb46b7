"""C12 - each struct gets the packing in force where it is declared."""

import itertools

from checks.common import And, eq, parse, parse_files

FUNCTIONS = [
    "CParser.preprocess (#pragma pack, line bookkeeping)", "CParser.packing_at", "CParser.process_struct",
    "CParser.remove_comments", "CParser.expand_macros", "CParser.parse_defs",
]
ASSUMPTIONS = [
    "packing values are symbolic 1..16; conditions around directives are symbolic",
    "the packing rules are those of the MSVC documentation the code refers to: push records the packing in force after it, pop returns to the record then on top, pop with a name removes that record and everything above it",
]
OUTSIDE = "a directive inside a struct body; pop naming a record that does not exist; the same name pushed twice; several structs on one line"
REACH = ["none", "value", "skipped", "headers"]

OPS = ["set", "reset", "push", "pushn", "pushid", "pushidn", "pop", "popid", "popn", "skip", "macro"]
NOISE = ["", "define", "undef", "pragma", "comment", "multiline", "blank", "cond", "contd", "contd-blank"]


def _n(tier):
    return 4 if tier == "quick" else 5


def BOUNDS(tier):
    return "every sequence of <= %d packing directives over %s with a struct between any two, 10 kinds of lines in between, alone or with a second header before or after; all packing values and conditions symbolic" % (_n(tier), OPS)


def cases(tier):
    out, k = [], 0
    for n in range(1, _n(tier) + 1):
        for seq in itertools.product(OPS, repeat=n):
            if not feasible(seq):
                continue
            if n >= 4 and len([s for s in seq if s in ("push", "pushn", "pushid", "pushidn")]) == 0:
                continue
            if n >= 4 and (k * 7919) % 4 and tier == "quick":
                k += 1
                continue
            vs = range(len(NOISE)) if n <= 2 else [k % len(NOISE)]
            for v in vs:
                out.append((seq, v))
                if n <= 2 or k % 5 == 0:
                    # another header before (1) or after (2) this one
                    out.append((seq, v, 1 + (k + v) % 2))
            k += 1
    return out


def feasible(seq):
    ids = 0
    for s in seq:
        if s in ("pushid", "pushidn"):
            ids += 1
        elif s == "popid":
            if not ids:
                return False
            ids -= 1
        elif s in ("pop", "popn"):
            pass
    # a pop may remove a named record: keep sequences where that cannot matter
    return not ("popid" in seq and any(s in ("pop", "popn") for s in seq))


def noise(kind, i):
    return {
        "": [], "define": ["#define NZ%d (1 + 2)" % i], "undef": ["#undef NOTHING%d" % i],
        "pragma": ["#pragma omp parallel", "#pragma once"], "comment": ["/* pack */ // pack(3)"],
        "multiline": ["/* a comment", "   #pragma pack(3)", " over lines */"], "blank": ["", ""],
        "cond": ["#if 0", "#define Q 1", "#undef Q", "#pragma pack(3)", "#else", "#endif"],
        "contd-blank": ["#define LONG%d 1 \\" % i, "", "  \\", "\t"],
        "contd": ["#define LONG%d 1 + \\" % i, "   2"],
    }[kind]


def harness(x, case):
    seq, nz = case[:2]
    other = case[2] if len(case) > 2 else 0
    lines, checks = [], []
    stack = [(None, None)]  # (name, packing)
    cur = None
    count = [0]

    def num():
        v = x.int("p%d" % count[0], 1, 16)
        count[0] += 1
        return v, x.lit(v)

    def struct(i):
        s = ["struct s%d { char a; int b; };" % i, "typedef struct {\n  int a;\n} t%d;" % i, "union s%d {\n  char a;\n  int b;\n};" % i][i % 3]
        lines.extend(s.split("\n"))
        checks.append((i, cur))

    struct(0)
    for i, op in enumerate(seq):
        j = i + 1
        lines.extend(noise(NOISE[nz], 2 * i))
        if op == "set":
            v, l = num()
            lines.append("#pragma pack(%s)" % l)
            cur = v
        elif op == "macro":
            v, l = num()
            lines += ["#define PK%d %s" % (j, l), "#pragma pack(PK%d)" % j]
            cur = v
        elif op == "reset":
            lines.append("#pragma pack()")
            cur = None
        elif op == "push":
            lines.append("#pragma  pack ( push )")
            stack.append((None, cur))
        elif op == "pushn":
            v, l = num()
            lines.append("#pragma pack(push, %s)" % l)
            cur = v
            stack.append((None, cur))
        elif op == "pushid":
            lines.append("# pragma pack(push, r%d)" % j)
            stack.append(("r%d" % j, cur))
        elif op == "pushidn":
            v, l = num()
            lines.append("#pragma pack(push,r%d,%s)" % (j, l))
            cur = v
            stack.append(("r%d" % j, cur))
        elif op == "pop":
            lines.append("#pragma pack(pop)")
            if len(stack) > 1:
                stack.pop()
            cur = stack[-1][1]
        elif op == "popn":
            v, l = num()
            lines.append("#pragma pack(pop, %s)" % l)
            if len(stack) > 1:
                stack.pop()
            cur = v
        elif op == "popid":
            named = [k for k, r in enumerate(stack) if r[0] is not None]
            k = named[i % len(named)]
            lines.append("#pragma pack(pop, %s)" % stack[k][0])
            stack = stack[:k]
            cur = stack[-1][1]
            if not [r for r in stack if r[0]] and "popid" in seq[i + 1 :] and not any(
                s.startswith("pushid") for s in seq[i + 1 :]
            ):
                x.assume(False)  # would name a record that is gone
        elif op == "skip":
            v, l = num()
            c = x.bool("c%d" % j)
            lines += ["#if %d" % (1 if c else 0), "#pragma pack(%s)" % l, "#endif"]
            if c:
                cur = v
            else:
                x.reach("skipped")
        lines.extend(noise(NOISE[(nz + 3) % len(NOISE)] if nz else "", 2 * i + 1))
        struct(j)
    text = "\n".join(lines) + "\n"
    if other:
        w, l = num()
        more = ["#pragma pack(push, %s)" % l, "struct o0 { int a; };", "#pragma pack(push, 2)", "struct o1 { int a; };"]
        for b in range(len(lines)):
            more.append("struct f%d { int a; };" % b)
        texts = [("other.h", "\n".join(more) + "\n"), ("h.h", text)]
        p = parse_files(texts if other == 1 else texts[::-1])
        got = [x.denonce(p.defs["structs"]["o%d" % k]["pack"]) for k in (0, 1)]
        x.check(And(eq(got[0], w), eq(got[1], 2)), "packing differs in another header next to\n" + text)
        text = "(with another header %s)\n" % ("before", "after")[other - 1] + text
        x.reach("headers")
    else:
        p = parse(text)
    conj = []
    for i, want in checks:
        if i % 3 == 1:
            t = p.defs["types"].get("t%d" % i)
            x.check(t is not None, "t%d not recorded in\n%s" % (i, text))
            got = p.defs["structs"][t[0][len("struct "):]]
        else:
            tab = p.defs["structs" if i % 3 == 0 else "unions"]
            x.check("s%d" % i in tab, "s%d not recorded in\n%s" % (i, text))
            got = tab["s%d" % i]
        x.reach("none" if want is None else "value")
        conj.append(eq(x.denonce(got["pack"]), want))
    x.check(And(*conj), "packing differs in\n" + text)
