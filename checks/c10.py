"""C10 - the ctypes type built for a declaration is the C type."""

from checks.c08 import ARGS
from checks.common import And, eq, parse
from checks.ct import BASE, c_type, describe, library, module
from checks.ct import setup as ct_setup
from checks.decls import chains, spell

FUNCTIONS = [
    "CTypesCLibrary._get_type", "CLibrary.__call__", "CLibrary.__getattr__", "CLibrary._make_obj_",
    "CTypesCLibrary._get_struct", "CFunction.__init__", "CTypesCLibrary._init_function",
    "CParser.process_all and everything below it", "Type.eval",
]
ASSUMPTIONS = [
    "array bounds are symbolic 0..100000; during the symbolic run ctypes is a recording stand-in with the same constructors, a replay uses the real ctypes",
    "linux x86-64 sizes",
]
OUTSIDE = "chains longer than the bound, arrays of incomplete arrays, functions used without a pointer, references, __stdcall (windows only)"
REACH = ["typedef", "arg", "ret", "typedef2", "nested-array", "fnptr", "member"]

BASES = ["int", "char", "void", "unsigned long", "double", "struct st", "wchar_t", "uint8_t", "union un", "enum en", "long long", "unsigned char"]
CONTEXTS = ["typedef", "arg", "ret", "typedef2", "member"]
ARG_DESC = [
    (), (), (("int", 4), ("char*", 8)), (("char*", 8), ("uint", 4)),
]


def setup(symbolic):
    ct_setup(symbolic)


def _n(tier):
    return 4 if tier == "quick" else 5


def BOUNDS(tier):
    return "every valid chain of <= %d derivations over {pointer, array, incomplete array, pointer to function}, %d base types, 5 contexts (typedef, typedef split in two, argument, return value, member); all array bounds symbolically" % (_n(tier), len(BASES))


def ok(ch, base):
    if ch[:1] == ("fn",):
        return False
    for a, b in zip(ch, ch[1:]):
        if b == "fn" and a != "ptr":
            return False
    if base == "void" and (not ch or ch[-1] in ("arr", "inc")):
        return False
    return True


def cases(tier):
    out, k = [], 0
    for ch in chains(("ptr", "arr", "inc", "fn"), _n(tier)):
        bs = range(len(BASES)) if len(ch) <= 2 else [(k + 3 * i) % len(BASES) for i in range(4)]
        for b in bs:
            if not ok(ch, BASES[b]):
                continue
            cs = range(len(CONTEXTS)) if len(ch) <= 2 else [(k + 2 * i) % len(CONTEXTS) for i in range(3)]
            for c in cs:
                ctx = CONTEXTS[c]
                if ctx == "ret" and ch[:1] in (("arr",), ("inc",)):
                    continue
                if ctx == "member" and "inc" in ch:
                    continue
                out.append((ch, BASES[b], ctx, k % 4))
                k += 1
        k += 1
    return out


def harness(x, case):
    chain, base, ctx, ai = case
    ct = module(x)
    sizes, fnargs = [], []

    def size():
        v = x.int("n%d" % len(sizes), 0, 100000)
        sizes.append(v)
        return x.lit(v)

    def args():
        i = (ai + len(fnargs)) % len(ARGS)
        fnargs.append(ARG_DESC[i])
        return ARGS[i][0]

    pre = "struct st { int q; };\nunion un { int q; double r; };\nenum en { ENA, ENB };\n"
    split = len(chain) // 2 if ctx == "typedef2" else 0
    if ctx == "typedef2" and len(chain) >= 2 and chain[split] == "fn":
        split += 1
    outer, inner = chain[:split], chain[split:]
    d1 = spell(outer, "nm", size, args) if ctx == "typedef2" else None
    d = spell(inner, {"typedef2": "part", "member": "mb", "arg": "a", "ret": "f(int z)"}.get(ctx, "nm"), size, args)
    if ctx == "typedef":
        text = "typedef %s %s;" % (base, d)
    elif ctx == "typedef2":
        text = "typedef %s %s;\ntypedef part %s;" % (base, d, d1)
    elif ctx == "arg":
        text = "int f(int z, %s %s);" % (base, d)
    elif ctx == "ret":
        text = "%s %s;" % (base, d)
    else:
        text = "struct hold { int z; %s %s; };" % (base, d)
    text = pre + text + "\n"
    p = parse(text)
    before = repr(p.defs)

    class F:
        def __call__(self, *a):
            return None

    from checks.ct import FakeLib

    want = c_type(base, chain, sizes, fnargs, {"struct st": ("named", "struct st"), "union un": ("named", "union un"), "enum en": ("int", 4)})
    x.reach(ctx)
    if "fn" in chain:
        x.reach("fnptr")
    if chain[:2] == ("arr", "arr"):
        x.reach("nested-array")
    # the second library finds the definitions as the first one left them
    for attempt in ("first", "second"):
        f = F()
        lib = library(p, FakeLib(f=f))
        names = {lib("structs", "st"): "struct st", lib("unions", "un"): "union un"}
        if ctx in ("typedef", "typedef2"):
            built = [lib("types", "nm"), lib.nm]
        elif ctx == "arg":
            lib("functions", "f")
            x.check(len(f.argtypes) == 2, "argument types declared: %r in %s" % (f.argtypes, text))
            built = [f.argtypes[1], lib.f.arg_c_type("a"), lib.f.arg_c_type(1)]
        elif ctx == "ret":
            lib.f
            built = [f.restype]
        else:
            built = [dict((q[0], q[1]) for q in lib("structs", "hold")._fields_)["mb"]]
        for b in built:
            got = x.denonce(describe(ct, b, names))
            x.check(eq(got, want), "%s build gives %r, C says %r: %s" % (attempt, got, want, text))
        x.check(repr(p.defs) == before, "the parsed definitions were altered: " + text)
