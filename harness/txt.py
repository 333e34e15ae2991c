"""Brace-escaped texts: printable ASCII is itself, {hhhh} is a code point, {a*900} a run of one character.

The encoding is injective and preserves concatenation as long as runs are not split, so the
specification can compare, join, strip and search encoded texts.
"""
from __future__ import annotations

import re

_ESC = re.compile(r"\{([^{}]*)\}")
RUN = 1000


def dec(s: str) -> str:
    def one(m):
        b = m.group(1)
        if "*" in b[1:]:
            ch, n = b.rsplit("*", 1)
            return (ch if len(ch) == 1 else chr(int(ch, 16))) * int(n)
        return chr(int(b, 16))

    return _ESC.sub(one, s) if "{" in s else s


def enc(s: str) -> str:
    if s.isascii() and s.isprintable() and "{" not in s and "}" not in s and len(s) < RUN:
        return s
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        j = i
        while j < n and s[j] == c:
            j += 1
        plain = " " <= c <= "~" and c not in "{}"
        if j - i >= RUN:
            out.append("{%s*%d}" % (c if plain else "%04x" % ord(c), j - i))
        else:
            out.append((c if plain else "{%x}" % ord(c)) * (j - i))
        i = j
    return "".join(out)
