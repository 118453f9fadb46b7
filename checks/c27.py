"""C27 - lines are joined and directives told from code as C does."""

from checks.texts import BLANK, PRINTABLE, WORD, expand, joined, literal_end, one_of, pick, run, same, strip, word_end
from checks.texts import setup as text_setup

FUNCTIONS = [
    "CParser.process_all", "CParser.remove_comments", "CParser.preprocess (lines, directives)", "CParser.process_macro_defn", "CParser.expand_macros",
    "CParser.rem_def", "pyparsing: literals, the macro definition grammar (executed symbolically as well)",
]
ASSUMPTIONS = [
    "the text is symbolic: every character ranges over printable ASCII, tab and newline (no tab in definitions)",
    "no comments, terminated literals; conditionals have a condition, a definition a name followed by a blank, #undef a name and nothing else",
]
OUTSIDE = "texts longer than the bound; conditionals and #pragma pack in the symbolic part (C01, C12)"
REACH = ["code", "directive", "null", "other", "undef", "define", "joined", "hash in code", "read"]
FRAMES = [
    ("", "\nA;\n"), ("#un", "def A\nA;\n"), ("x\n", "#undef A\nA;\n"), ("#", "undef A\nA;\n"), ("#undef", "\nA;\n"), ("#define N ", "\nN A\n"),
    ("#de", "fine N A\nN;\n"), ('"A', '" A\n'), ("#undef A", "\nA;\n"), ("x A", "A #\nA\n"),
]
SPECIAL = "\\\n#A"
SPLIT = list(SPECIAL) + [BLANK, "\"'", "".join(c for c in WORD if c != "A"), "".join(c for c in PRINTABLE if c not in WORD + SPECIAL + "\"' \t")]
N = {"quick": 3, "thorough": 5}
CONDITIONALS = ["if", "ifdef", "ifndef", "elif", "else", "endif"]


def setup(symbolic):
    text_setup(symbolic)


def BOUNDS(tier):
    return "every text of up to %d characters, and of up to %d inside each of %d fixed surroundings, with two macros defined; all characters symbolic" % (N[tier] + 1, N[tier], len(FRAMES) - 1)


def cases(tier):
    out = []
    for f in range(len(FRAMES)):
        for n in range(N[tier] + (2 if f == 0 else 1)):
            out += [(f, n, g) for g in (SPLIT if n > 1 else [""])]
    return out


def joined_lines(x, s):
    lines, out, i = [], [], 0
    while i < len(s):
        if one_of(s[i], "\\") and i + 1 < len(s) and one_of(s[i + 1], "\n"):
            x.reach("joined")
            i += 2
            continue
        if one_of(s[i], "\n"):
            lines.append(joined(out))
            out = []
        else:
            out.append(s[i])
        i += 1
    return lines + [joined(out)]


def no_comment(x, s, literals):
    i = 0
    while i < len(s):
        if literals and one_of(s[i], "\"'"):
            i = literal_end(x, s, i)
            continue
        if i + 1 < len(s) and one_of(s[i], "/"):
            x.assume(not one_of(s[i + 1], "/*"))
        if literals and one_of(s[i], "#"):
            x.reach("hash in code")
        i += 1


def skip_blanks(s, i):
    while i < len(s) and one_of(s[i], BLANK):
        i += 1
    return i


def letters(s, i):
    while i < len(s) and one_of(s[i], WORD):
        i += 1
    return i


def reference(x, text, obj):
    """The lines without directives, expanded."""
    out = []
    for line in joined_lines(x, text):
        i = skip_blanks(line, 0)
        if not (i < len(line) and one_of(line[i], "#")):
            no_comment(x, line, True)
            x.reach("code")
            out.append(expand(x, line, obj, {}))
            continue
        out.append("")
        no_comment(x, line, False)
        i = skip_blanks(line, i + 1)
        j = letters(line, i)
        if i == j:
            x.reach("null" if i == len(line) else "other")
            continue
        name = pick(line[i:j], CONDITIONALS + ["define", "undef"])
        x.reach("directive")
        x.assume(name not in CONDITIONALS)
        if name is None:
            # names of directives are letters
            for k in range(i, j):
                x.assume(not one_of(line[k], "0123456789_"))
            x.reach("other")
            continue
        i = skip_blanks(line, j)
        j = letters(line, i)
        x.assume(j > i and not one_of(line[i], "0123456789"))
        word = line[i:j]
        known = pick(word, obj)
        if name == "undef":
            x.assume(skip_blanks(line, j) == len(line))
            x.reach("undef")
            if known is not None:
                del obj[known]
        else:
            x.assume(j == len(line) or one_of(line[j], BLANK))
            x.reach("define")
            body = strip(line[j:])
            no_comment(x, body, True)
            value = strip(expand(x, body, obj, {}))
            if known is not None:
                obj[known] = value
            else:
                # the names in the fixed parts
                x.assume(not isinstance(word, str) or word == "N")
                x.assume(word == "N")
                obj["N"] = value
    return "\n".join(out) if all(isinstance(o, str) for o in out) else _join(out)


def _join(parts):
    out = parts[0]
    for p in parts[1:]:
        out = out + "\n" + p
    return out


def harness(x, case):
    f, n, g = case
    a, b = FRAMES[f]
    s = x.str("text", n, PRINTABLE.replace("\t", "") if "define" in a + b or "de" == a[1:] else PRINTABLE)
    if g:
        x.assume(one_of(s[0], g))
    text = a + s + b
    want = reference(x, text, {"A": "7", "_b": "(8)"})
    _, (got,) = run(x, ["#define A 7\n#define _b (8)\n" + text], skip=("parse_defs", "eval_expr"))
    x.reach("read")
    x.check(same(x, got, "\n\n" + want), "%r is read as %r, C reads %r" % (text, got, want))
