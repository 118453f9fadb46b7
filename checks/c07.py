"""C07 - comments disappear, literals and everything else stay."""

from checks.texts import PRINTABLE, joined, literal_end, one_of, run, same
from checks.texts import setup as text_setup

FUNCTIONS = ["CParser.process_all", "CParser.remove_comments", "pyparsing: quotedString, cStyleComment, restOfLine, transform_string (executed symbolically as well)"]
ASSUMPTIONS = [
    "the text is symbolic: every character ranges over printable ASCII, tab and newline",
    "literals and comments are terminated, a literal on its own line; a // comment does not end in a backslash; no \\x in a literal",
]
OUTSIDE = "texts longer than the bound, other characters, trigraphs, unterminated comments or literals"
REACH = ["block", "line", "literal", "read"]


def setup(symbolic):
    text_setup(symbolic)


def BOUNDS(tier):
    return "every text of up to %d characters, and of up to %d inside each of %d fixed surroundings; all characters symbolic" % (N[tier], N[tier] - 1, len(FRAMES) - 1)


N = {"quick": 7, "thorough": 9}
FRAMES = [
    ("", ""), ("int a;/*", "*/int b;\n"), ('char *s = "', '"; /* c */ int d;\n'), ("int a; //", "\nint b; // x\n"), ("char c = '", "'; // d\nint e;"),
    ("/**/", "/**/"), ("a /", "/ b */ c\n"), ('"/*" ', ' "*/"'),
]


def cases(tier):
    out = []
    for f in range(len(FRAMES)):
        for n in range(N[tier] + (1 if f == 0 else 0)):
            if n < 3:
                out.append((f, n, "", 0))
            else:
                # split on the first character to share the work
                out += [(f, n, g, i) for i, g in enumerate(GROUPS)]
    return out


SPECIAL = "/*\"'\\\n"
GROUPS = list(SPECIAL) + ["".join(c for c in PRINTABLE if c not in SPECIAL)]


def reference(x, s):
    """The text without comments, read as C reads it."""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if one_of(c, "\"'"):
            j = literal_end(x, s, i)
            x.reach("literal")
            out.append(s[i:j])
            i = j
        elif one_of(c, "/") and i + 1 < n and one_of(s[i + 1], "*"):
            j = i + 2
            while True:
                x.assume(j + 1 < n)
                if one_of(s[j], "*") and one_of(s[j + 1], "/"):
                    break
                j += 1
            x.reach("block")
            out.append(" ")
            i = j + 2
        elif one_of(c, "/") and i + 1 < n and one_of(s[i + 1], "/"):
            j = i + 2
            while j < n and not one_of(s[j], "\n"):
                j += 1
            x.assume(not one_of(s[j - 1], "\\"))
            x.reach("line")
            i = j
        else:
            out.append(c)
            i += 1
    return joined(out)


def harness(x, case):
    f, n, group, _ = case
    a, b = FRAMES[f]
    t = x.str("text", n, PRINTABLE)
    if group:
        x.assume(one_of(t[0], group))
    text = a + t + b
    want = reference(x, text)
    p, (got,) = run(x, [text], skip=("preprocess", "parse_defs"))
    x.reach("read")
    x.check(same(x, got, want), "comments of %r: the text read is %r, C reads %r" % (text, got, want))
