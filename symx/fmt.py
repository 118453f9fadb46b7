"""Spelling of C integer literals."""


def fmt_lit(n, style):
    """style: d|x|X|o followed by a suffix, e.g. 'd', 'dUL', 'xU'."""
    body = {"d": "%d", "x": "0x%x", "X": "0X%X", "o": "0%o"}[style[0]] % n
    return body + style[1:]
