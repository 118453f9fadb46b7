"""C30 - how declarations are laid out makes no difference."""

import re

from checks.canon import canon
from checks.texts import WORD, run
from checks.texts import setup as text_setup

FUNCTIONS = [
    "CParser.process_all", "CParser.remove_comments", "CParser.preprocess", "CParser.parse_defs", "CParser.build_parser (the whole grammar)",
    "process_typedef, process_variable, process_function, process_struct, process_enum", "pyparsing (executed symbolically as well)",
]
ASSUMPTIONS = [
    "the blanks are symbolic: space, tab or newline, in two places at a time (everywhere else a single space or nothing)",
    "what is recorded for the plain layout is the reference (C04, C08, C11 decide what that has to be)",
]
OUTSIDE = "more than two places laid out at a time; more blanks than the bound; other declarations than those listed; the parts of a number or operator apart"
REACH = ["read"]
N = {"quick": 2, "thorough": 3}

DECLS = [
    "int a ;",
    "const unsigned long int * volatile a , b [ 3 ] , * c [ 2 ] [ 4 ] ;",
    "static int a = - 3 ;",
    "int a [ 2 ] = { 1 , 0x2 } ;",
    "int a = ( 1 + 2 ) << 3 ;",
    'char * a = "b  c" ;',
    "int f ( int a , char const * b ) ;",
    "void f ( void ) ;",
    "struct s * f ( ) ;",
    "int ( * f ) ( int , char * ) ;",
    "int * ( * f [ 3 ] ) ( int a ) ;",
    "extern int f ( int ( * a ) ( void ) , int [ ] , char * * ) ;",
    "static inline int f ( int a ) { return a ; }",
    "typedef unsigned char a , * b ;",
    "typedef struct s { int a ; char * b , c [ 3 ] ; } t , * u ;",
    "struct s { int a : 3 ; unsigned int b : 4 ; struct { int c ; } ; union u d ; } ;",
    "union u { int a ; struct t { char b ; } c ; int ( * d ) ( void ) ; } a ;",
    "enum e { A , B = 3 , C } ;",
    "typedef enum { A = 0x1 , B = A + 1 , } t ;",
    "int __stdcall f ( int a ) ;",
    "int f ( int a = 3 , float b = 1.5 ) ;",
    "struct a ; struct a * b ; int c ;",
    "long long a ; long b ;",
]


def setup(symbolic):
    text_setup(symbolic)


def BOUNDS(tier):
    return "%d declarations, up to %d blanks in any place and up to %d in another one%s" % (len(DECLS), N[tier], N[tier] - 1, "" if tier == "thorough" else " (next to it)")


def gaps(toks):
    """For every place between two tokens the blanks it needs."""
    out = [0]
    for a, b in zip(toks, toks[1:]):
        out.append(1 if a[-1] in WORD and b[0] in WORD else 0)
    return out + [0]


def tokens(decl):
    return re.findall(r'"[^"]*"|\S+', decl)


def cases(tier):
    out = []
    for d, decl in enumerate(DECLS):
        g = gaps(tokens(decl))
        for i in range(len(g)):
            for n in range(g[i], N[tier] + 1):
                others = range(i + 1, len(g) if tier == "thorough" else i + 2)
                for j in others:
                    if i < j < len(g):
                        for m in range(g[j], N[tier]):
                            out.append((d, i, n, j, m))
    return out


_plain = {}


def layout(toks, spaces):
    s = spaces[0]
    for t, b in zip(toks, spaces[1:]):
        s = s + t + b
    return s


def harness(x, case):
    d, i, n, j, m = case
    toks = tokens(DECLS[d])
    g = gaps(toks)
    if d not in _plain:
        p, _ = run(x, [DECLS[d]], skip=())
        _plain[d] = canon(p.defs)
    spaces = [" " if k else "" for k in g]
    spaces[i] = x.str("first", n, " \t\n")
    spaces[j] = x.str("second", m, " \t\n")
    text = layout(toks, spaces)
    p, _ = run(x, [text], skip=())
    x.reach("read")
    got = canon(p.defs)
    x.check(got == _plain[d], "%r is recorded as %r instead of %r" % (text, got, _plain[d]))
