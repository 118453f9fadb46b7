"""C23 - however a basic type is spelled, its ctypes type has C's size and sign,
or it is refused."""

from checks.calls import Func
from checks.common import And, Implies, Not, Or, parse
from checks.ct import FakeLib, library
from checks.ct import setup as ct_setup

FUNCTIONS = ["fund_type (grammar)", "CParser.process_type", "Type.is_fund_type", "Type.eval", "CTypesCLibrary._get_type", "CTypesCLibrary._types_ (table)"]
ASSUMPTIONS = ["the specifier at each position is symbolic, constrained to the combinations C allows; sizes are those of the platform the check runs on (LP64)"]
OUTSIDE = "specifiers with a qualifier in between; _Complex, _Bool; the platform's 32 bit sizes"
REACH = ["int", "char", "float", "refused", "signed", "unsigned"]

VOCAB = ["unsigned", "signed", "short", "long", "int", "char", "float", "double"]
FIXED = {
    "int8_t": (1, 1), "uint8_t": (1, 0), "int16_t": (2, 1), "uint16_t": (2, 0), "int32_t": (4, 1), "uint32_t": (4, 0),
    "int64_t": (8, 1), "uint64_t": (8, 0), "size_t": (8, 0), "ssize_t": (8, 1),
}
# what has to be accepted: the spellings the standard lists first
MUST = {
    "char", "signed char", "unsigned char", "short", "short int", "unsigned short", "unsigned short int", "int", "signed", "signed int", "unsigned",
    "unsigned int", "long", "long int", "signed long", "signed long int", "unsigned long", "unsigned long int", "long long", "long long int",
    "signed long long", "signed long long int", "unsigned long long", "unsigned long long int", "float", "double", "long double",
    "signed short", "signed short int", "long unsigned int",
}


def setup(symbolic):
    ct_setup(symbolic)


def BOUNDS(tier):
    return "every sequence of <= 4 specifiers C allows, in every order (5 with long long), as typedef, parameter, result, member; the fixed width names"


def cases(tier):
    return [(n, ctx) for n in (1, 2, 3, 4) for ctx in ("typedef", "param", "result", "member", "pointer")] + [(0, n) for n in sorted(FIXED)]


def harness(x, case):
    n, ctx = case
    if n == 0:
        spec, (size, sign), kind = ctx, FIXED[ctx], "int"
        ctx = "typedef"
        must = True
    else:
        w = [x.int("w%d" % i, 0, len(VOCAB) - 1) for i in range(n)]

        def count(name):
            k = VOCAB.index(name)
            s = 0
            for v in w:
                s = s + ite(v == k)
            return s

        from checks.common import Ite

        def ite(c):
            return Ite(c, 1, 0)

        c = {v: count(v) for v in VOCAB}
        # C11 6.7.2: the sets of specifiers that name a type
        base = c["int"] + c["char"] + c["float"] + c["double"]
        x.assume(c["unsigned"] + c["signed"] <= 1)
        x.assume(base <= 1)
        x.assume(c["short"] <= 1)
        x.assume(c["long"] <= 2)
        x.assume(Or(c["short"] == 0, c["long"] == 0))
        x.assume(Implies(c["char"] == 1, And(c["short"] == 0, c["long"] == 0)))
        x.assume(Implies(c["float"] == 1, And(c["short"] == 0, c["long"] == 0, c["unsigned"] + c["signed"] == 0)))
        x.assume(Implies(c["double"] == 1, And(c["short"] == 0, c["long"] <= 1, c["unsigned"] + c["signed"] == 0)))
        # the solver hands out the spellings one by one: they become text
        words = [VOCAB[int(v)] for v in w]
        spec = " ".join(words)
        cnt = {v: words.count(v) for v in VOCAB}
        sign = 0 if cnt["unsigned"] else 1
        if cnt["char"]:
            kind, size = "char", 1
        elif cnt["float"]:
            kind, size = "float", 4
        elif cnt["double"]:
            kind, size = "float", 16 if cnt["long"] else 8
        else:
            kind, size = "int", 2 if cnt["short"] else 8 if cnt["long"] else 4
        must = spec in MUST
    x.reach(kind)
    text = {
        "typedef": "typedef %s T;\n",
        "param": "void f(%s a);\n",
        "result": "%s f(void);\n",
        "member": "struct S { %s a; };\n",
        "pointer": "typedef %s *T;\n",
    }[ctx] % spec
    p = parse(text)
    fn = Func()
    lib = library(p, FakeLib(f=fn))
    try:
        if ctx == "typedef":
            t = lib("types", "T")
        elif ctx == "pointer":
            t = lib("types", "T")
            if t._type_ == "z":
                x.check(kind == "char", "%s is taken for a string" % text)
                return
            t = t._type_
        elif ctx == "member":
            t = dict((f[0], f[1]) for f in lib("structs", "S")._fields_)["a"]
        else:
            f = lib.f
            t = fn.argtypes[0] if ctx == "param" else fn.restype
    except (KeyError, NameError) as e:
        x.check(not must, "%r is refused: %r" % (text, e))
        x.reach("refused")
        return
    code = t._type_
    real = size_of(code)
    x.check(real == size, "%r: %d bytes, C has %d" % (text, real, size))
    if kind == "float":
        x.check(code in "fdg", "%r: %r" % (text, code))
    elif kind == "char" and sign:
        x.check(code in "cb", "%r: %r" % (text, code))
    else:
        x.reach("signed" if sign else "unsigned")
        x.check(code in ("bhilq" if sign else "BHILQ"), "%r: code %r, %s in C" % (text, code, "signed" if sign else "unsigned"))


def size_of(code):
    import ctypes

    class T(ctypes._SimpleCData):
        _type_ = code

    return ctypes.sizeof(T)
