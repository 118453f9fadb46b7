"""C29 - identifiers are taken whole and as they are spelled."""

import string

from checks.common import And
from checks.texts import keep_keys, one_of, parser_class
from checks.texts import setup as text_setup
from symx import env

FUNCTIONS = [
    "CParser.process_all", "CParser.preprocess", "CParser.parse_defs", "CParser.build_parser (the whole grammar)", "process_typedef, process_variable, process_function, process_struct, process_enum",
    "process_type, process_declarator, recombine, ident, kwl", "pyparsing (executed symbolically as well)",
]
ASSUMPTIONS = [
    "the identifier is symbolic: its characters range over letters, digits, _ and $; it is not a keyword of C, a basic type, a modifier or a macro, and does not begin with two underscores (reserved)",
    "definitions are recorded in a list instead of a table when the name is symbolic",
]
OUTSIDE = "longer identifiers; identifiers beginning with __; other declarations than the forms listed"
REACH = ["read"]
FIRST = string.ascii_letters + "_"
REST = FIRST + string.digits + "$"
STEMS = ["", "in", "int", "cons", "const", "struc", "struct", "long", "unsigned", "enu", "typedef", "stati", "static", "exter", "_", "void", "union", "char"]
RESERVED = (
    "auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static "
    "struct switch typedef union unsigned void volatile while bool near far wchar wchar_t int8_t uint8_t int16_t uint16_t int32_t uint32_t int64_t uint64_t size_t ssize_t time_t"
).split()
N = {"quick": 3, "thorough": 4}

T = None


def setup(symbolic):
    global T
    text_setup(symbolic)
    from pyclibrary.c_parser import Type

    T = Type


def forms(n):
    """(text, what is recorded: (table, name, value)) for the identifier n"""
    i = T("int")
    return {
        "variable": ("int %s;", [("variables", n, (None, i)), ("values", n, None)]),
        "pointer": ("const unsigned long *%s;", [("variables", n, (None, T("unsigned long", "*"))), ("values", n, None)]),
        "array": ("static int %s[3];", [("variables", n, (None, T("int", [3]))), ("values", n, None)]),
        "second": ("int a, %s;", [("variables", "a", (None, i)), ("values", "a", None), ("variables", n, (None, i)), ("values", n, None)]),
        "function": ("int %s(int a);", [("functions", n, (i, (("a", i, None),)))]),
        "body": ("extern int %s(int a) { return a; }", [("functions", n, (i, (("a", i, None),)))]),
        "parameter": ("void f(int %s, char *b);", [("functions", "f", (T("void"), ((n, i, None), ("b", T("char", "*"), None))))]),
        "pointer to function": ("int (*%s)(int);", [("variables", n, (None, T("int", ((None, i, None),), "*"))), ("values", n, None)]),
        "typedef": ("typedef int %s;", [("types", n, i)]),
        "use": ("%s v;", [("variables", "v", (None, T(n))), ("values", "v", None)]),
        "use in parameters": ("%s *f(%s a, int (*c)(%s));", [("functions", "f", (T(n, "*"), (("a", T(n), None), ("c", T("int", ((None, T(n), None),), "*"), None))))]),
        "use in typedef": ("typedef const %s *t;", [("types", "t", T(n, "*"))]),
        "tag": ("struct %s { int a; };", [("structs", n, [("a", i, None)]), ("types", cat("struct ", n), T("struct", n))]),
        "use of tag": ("union %s *v;", [("unions", n, []), ("types", cat("union ", n), T("union", n)), ("variables", "v", (None, T(cat("union ", n), "*"))), ("values", "v", None)]),
        "member": ("struct t { char a; int %s; };", [("structs", "t", [("a", T("char"), None), (n, i, None)]), ("types", "struct t", T("struct", "t"))]),
        "bit field": ("struct t { int %s : 3; };", [("structs", "t", [(n, i, None, 3)]), ("types", "struct t", T("struct", "t"))]),
        "member type": ("struct t { %s a; };", [("structs", "t", [("a", T(n), None)]), ("types", "struct t", T("struct", "t"))]),
        "enum tag": ("enum %s { A };", [("values", "A", 0), ("enums", n, [("A", 0)]), ("types", cat("enum ", n), T("enum", n))]),
        "enumerator": ("enum t { %s, B = 4 };", [("values", n, 0), ("values", "B", 4), ("enums", "t", [(n, 0), ("B", 4)]), ("types", "enum t", T("enum", "t"))]),
    }


def cat(a, b):
    return a + b


def BOUNDS(tier):
    return "every identifier made of one of %d stems and up to %d symbolic characters, in %d forms of declaration" % (len(STEMS), N[tier], len(forms("n")))


def cases(tier):
    setup_type()
    return [(f, st, n) for f in forms("n") for st in range(len(STEMS)) for n in range(N[tier] + 1) if STEMS[st] or n]


def setup_type():
    global T
    if T is None:
        T = lambda *a: a  # noqa: E731


def record(cls):
    """The definitions as a list; a symbolic name is no key of a table."""

    def add_def(self, typ, name, val):
        self.seen.append((typ, name, val))
        if isinstance(name, str):
            cls.add_def(self, typ, name, val)

    return type("Recorder", (cls,), {"add_def": add_def, "seen": ()})


def harness(x, case):
    form, st, n = case
    keep_keys(x.symbolic)
    name = x.str("name", n, REST)
    name = STEMS[st] + name
    x.assume(one_of(name[0], FIRST))
    if len(name) > 1 and one_of(name[0], "_"):
        x.assume(not one_of(name[1], "_"))
    for w in RESERVED + (["B"] if form == "enumerator" else []):
        if len(w) == len(name):
            x.assume(not bool(name == w))
    text, want = forms(name)[form]
    parts = text.split("%s")
    src = parts[0]
    for p in parts[1:]:
        src = src + name + p
    cls = record(parser_class(()))
    cls.seen = []
    p = cls([env.write("t.h", "" if x.symbolic else src)], process_all=False)
    if x.symbolic:
        for k in list(p.files):
            p.files[k] = src
    p.process_all()
    x.reach("read")
    x.check(recorded(list(p.seen), want), "%r is recorded as %r" % (src, p.seen))


def recorded(seen, want):
    """Whether seen has the definitions wanted and no others; the last one of a name counts."""
    last, want = final(seen), final(want)
    if len(last) != len(want):
        return False
    out = []
    for typ, name, val in want:
        found = [d for d in last if d[0] == typ and same_name(d[1], name)]
        if not found:
            return False
        out.append(equal(found[0][2], val))
    return And(*out)


def final(defs):
    out = []
    for typ, name, val in defs:
        out = [d for d in out if d[0] != typ or not same_name(d[1], name)] + [(typ, name, val)]
    return out


def same_name(a, b):
    return len(a) == len(b) and bool(a == b)


def equal(a, b):
    if isinstance(b, (list, tuple)):
        if hasattr(a, "members") and not isinstance(a, (list, tuple)):
            a = a.members
        if isinstance(a, dict):
            a = a["members"] if "members" in a else list(a.items())
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            return False
        return And(*[equal(i, j) for i, j in zip(a, b)]) if b else True
    if b is None or a is None:
        return a is b
    if isinstance(b, int) != isinstance(a, int):
        return False
    return a == b
