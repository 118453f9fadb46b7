"""Harness side of the checks over symbolic text."""

import string

from symx import env

PRINTABLE = "".join(sorted(set(string.printable) - set("\r\x0b\x0c")))


def setup(symbolic):
    if symbolic:
        from symx import sximport

        sximport.install()


def keep_keys(symbolic):
    """Store symbolic names in tables as they are."""
    if symbolic:
        from symx import symstr

        symstr.KEEP_KEYS = True
        symstr.SYMBOLIC_TABLES.clear()


def parser_class(skip):
    """CParser without the named stages."""
    from pyclibrary.c_parser import CParser

    return type("Stage", (CParser,), {n: (lambda self, *a, **k: None) for n in skip})


def run(x, texts, skip=("parse_defs",), **kw):
    """Put the texts through the real processing -> (parser, resulting texts)."""
    cls = parser_class(skip)
    names = ["t%d.h" % i for i in range(len(texts))]
    paths = [env.write(n, "" if x.symbolic else t) for n, t in zip(names, texts)]
    p = cls(paths, process_all=False, **kw)
    if x.symbolic:
        for k, t in zip(list(p.files), texts):
            p.files[k] = t
    p.process_all()
    return p, [p.files[k] for k in p.files]


def joined(parts):
    out = ""
    for p in parts:
        out = out + p
    return out


def one_of(c, chars):
    """c in chars, for a symbolic or plain character"""
    if isinstance(c, str):
        return c in chars
    from symx.symstr import member

    return member(c.cs[0], frozenset(map(ord, chars)))


WORD = string.ascii_letters + string.digits + "_"
BLANK = " \t"
SOFT = "()[]{},;"  # no blank next to these matters


def literal_end(x, s, i):
    """End of the literal starting at i; texts with an open one are not considered."""
    q, j, n = s[i], i + 1, len(s)
    while True:
        x.assume(j < n)
        x.assume(not one_of(s[j], "\n"))
        if one_of(s[j], "\\"):
            x.assume(j + 1 < n)
            x.assume(not one_of(s[j + 1], "x\n"))
            j += 2
            continue
        if bool(s[j] == q):
            return j + 1
        j += 1


def word_end(s, i):
    j = i
    while j < len(s) and one_of(s[j], WORD):
        j += 1
    return j


def normal(x, s):
    """The text with only those blanks that separate words or operators."""
    out, i, n = [], 0, len(s)
    kind, gap = "soft", False
    while i < n:
        c = s[i]
        if one_of(c, BLANK):
            gap = True
            i += 1
            continue
        if one_of(c, "\n" + SOFT):
            k, j = "soft", i + 1
        elif one_of(c, "\"'"):
            k, j = "soft", literal_end(x, s, i)
        elif one_of(c, WORD):
            k, j = "word", word_end(s, i)
        else:
            k, j = "op", i + 1
        if gap and k == kind and k != "soft":
            out.append(" ")
        out.append(s[i:j])
        kind, gap, i = k, False, j
    return joined(out)


def expand(x, s, obj, fn, hook=None, bare=True, bare_args=True):
    """Macro expansion of one line as C does it, within the stated assumptions.
    obj: name -> replacement, fn: name -> (parameters, body); bare, bare_args: whether
    names in fn may stand without arguments, in the line and in arguments."""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if one_of(c, "\"'"):
            j = literal_end(x, s, i)
            out.append(s[i:j])
            i = j
            if hook:
                hook("literal")
        elif one_of(c, WORD):
            j = word_end(s, i)
            w = s[i:j]
            if one_of(c, string.digits):
                # a number: 1.A and 1e+A are one token in C
                if j < n:
                    x.assume(not one_of(s[j], "."))
                    if one_of(s[j], "+-"):
                        x.assume(not one_of(s[j - 1], "eEpP"))
                out.append(w)
                i = j
                continue
            name = pick(w, obj)
            if name is not None:
                if hook:
                    hook("object")
                out.append(obj[name])
                i = j
                continue
            name = pick(w, fn)
            if name is not None:
                k = j
                while k < n and one_of(s[k], BLANK):
                    k += 1
                if k < n and one_of(s[k], "("):
                    args, i = arguments(x, s, k)
                    params, body = fn[name]
                    x.assume(len(args) == len(params))
                    args = [expand(x, strip(a), obj, fn, hook, bare_args, bare_args) for a in args]
                    if hook:
                        hook("function")
                    out.append(substitute(x, body, params, args))
                    continue
                x.assume(bare)
                if hook:
                    hook("bare")
            out.append(w)
            i = j
        else:
            if one_of(c, ".") and i + 1 < n:
                x.assume(not one_of(s[i + 1], string.digits))
            out.append(c)
            i += 1
    return joined(out)


def pick(w, table):
    for k in table:
        if len(k) == len(w) and bool(w == k):
            return k
    return None


def strip(s):
    i, j = 0, len(s)
    while i < j and one_of(s[i], BLANK):
        i += 1
    while j > i and one_of(s[j - 1], BLANK):
        j -= 1
    return s[i:j]


def arguments(x, s, k):
    """The arguments in the parentheses opening at k -> (list, end)."""
    depth, start, i, args = 0, k + 1, k, []
    while True:
        x.assume(i < len(s))
        c = s[i]
        if one_of(c, "\"'"):
            i = literal_end(x, s, i)
            continue
        if one_of(c, "("):
            depth += 1
        elif one_of(c, ")"):
            depth -= 1
            if depth == 0:
                args.append(s[start:i])
                return args, i + 1
        elif depth == 1 and one_of(c, ","):
            args.append(s[start:i])
            start = i + 1
        i += 1


def substitute(x, body, params, args):
    out, i, n = [], 0, len(body)
    while i < n:
        c = body[i]
        if one_of(c, "\"'"):
            j = literal_end(x, body, i)
            out.append(body[i:j])
        elif one_of(c, WORD):
            j = word_end(body, i)
            w = body[i:j]
            for p, a in zip(params, args):
                if len(p) == len(w) and bool(w == p):
                    out.append(a)
                    break
            else:
                out.append(w)
        else:
            j = i + 1
            out.append(c)
        i = j
    return joined(out)


def plain(x, s):
    """Assume a line without directives, comments, continuations."""
    i, n = 0, len(s)
    while i < n:
        if one_of(s[i], "\"'"):
            i = literal_end(x, s, i)
            continue
        x.assume(not one_of(s[i], "\n#\\"))
        if i + 1 < n and one_of(s[i], "/"):
            x.assume(not one_of(s[i + 1], "/*"))
        i += 1


def same(x, a, b):
    """The same tokens, whatever the blanks."""
    if len(a) == len(b) and (a == b) is True:
        return True
    a, b = normal(x, a), normal(x, b)
    return len(a) == len(b) and a == b
