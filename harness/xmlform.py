"""The same XML, written differently."""
from __future__ import annotations

import io
import re
import zipfile

_TOK = re.compile(r"<[^>]*>|[^<]+")
_ATTR = re.compile(r'([\w:.-]+)=("[^"]*"|\'[^\']*\')')
_ATOM = re.compile(r"&[^;]+;|.", re.S)
NAMED = {"&lt;": "<", "&gt;": ">", "&amp;": "&", "&quot;": '"', "&apos;": "'"}


def char(a):
    """The character an atom of source stands for."""
    if len(a) == 1:
        return a
    if a in NAMED:
        return NAMED[a]
    return chr(int(a[3:-1], 16) if a[2] in "xX" else int(a[2:-1]))


def ref(c, r):
    return f"&#{ord(c)};" if r.random() < 0.5 else f"&#x{ord(c):{r.choice('xX')}};"


def text(src, r, p):
    """Character data with references, sections, comments and instructions."""
    out = []
    for a in _ATOM.findall(src):
        if r.random() < p / 4:
            out.append(r.choice(["<!---->", "<!-- <v>9</v> & -->", "<?p?>", "<?pi x > y?>"]))
        c, k = char(a), r.random()
        if k < p:
            if not c.isascii() or c in "]\r" or (c not in "\n\t " and k < p / 2):
                out.append(ref(c, r))
            else:
                out.append(f"<![CDATA[{c}]]>")
        else:
            out.append(a)
    return "".join(out)


def attr(src, q, r, p):
    out = []
    for a in _ATOM.findall(src):
        c = char(a)
        if c == q or (r.random() < p and not (len(a) == 1 and c in "\r\n\t")):
            out.append(ref(c, r))
        else:
            out.append(a)
    return q + "".join(out) + q


def gap(r, p):
    return r.choice(["", "\n", "\r\n  ", "\t", " <!-- between --> ", "<?p between?>"]) if r.random() < p else ""


def rewrite(data: bytes, r, p=0.3) -> bytes:
    s = data.decode()
    s = re.sub(r"^<\?xml[^>]*\?>\s*", "", s)
    out = [gap(r, p).lstrip()] if r.random() < p else []
    toks = _TOK.findall(s)
    stack = []
    for i, t in enumerate(toks):
        if t[0] != "<":
            # white space between elements is not content
            out.append(t if stack and stack[-1] not in ("t", "v", "f", "formula") or not t.strip() and stack[-1] not in ("t", "v") else text(t, r, p))
            continue
        if t[1] == "/":
            stack.pop()
            out.append(t[:-1] + r.choice(["", "", " ", "\n"]) + ">")
        else:
            name = re.match(r"<([\w:.-]+)", t).group(1)
            ats = _ATTR.findall(t)
            if r.random() < p:
                r.shuffle(ats)
            body = "".join(r.choice([" ", " ", "  ", "\n", "\t"]) + n + r.choice(["=", "=", " = "]) + attr(v[1:-1], r.choice("\"'"), r, p / 3) for n, v in ats)
            if t.endswith("/>"):
                out.append(f"<{name}{body}" + (r.choice([" ", ""]) + "/>" if r.random() > p or name == "t" else f"></{name}>"))
            else:
                out.append(f"<{name}{body}>")
                stack.append(name)
        if not stack or stack[-1] not in ("t", "v", "f", "formula"):
            out.append(gap(r, p / 3))
    s = "".join(out)
    how = r.choice(["utf8", "utf8", "bom", "le", "be", "bare", "ascii", "latin", "crlf"])
    decl = lambda e: f'<?xml version={r.choice(chr(34) + chr(39))}1.0"'.replace("'1.0\"", "'1.0'") + (f" encoding='{e}'" if e else "") + r.choice(["", ' standalone="yes"', " "]) + "?>"  # noqa: E731
    if how == "bom":
        return b"\xef\xbb\xbf" + (decl("UTF-8") + s).encode()
    if how in ("le", "be"):
        return {"le": b"\xff\xfe", "be": b"\xfe\xff"}[how] + (decl("UTF-16") + s).encode("utf-16-" + how)
    if how == "bare":
        return s.lstrip().encode()
    if how == "ascii":
        return (decl("US-ASCII") + s).encode("ascii", "xmlcharrefreplace")
    if how == "latin":
        return (decl("iso-8859-1") + s).encode("latin-1", "xmlcharrefreplace")
    return (decl("utf-8") + r.choice(["", "\n"]) + s).encode()


def rewritten(data: bytes, r, p=0.3) -> bytes:
    """A package whose XML parts are written differently."""
    bio = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(data)) as z, zipfile.ZipFile(bio, "w") as w:
        names = z.namelist()
        if r.random() < 0.5:
            r.shuffle(names)
        for n in names:
            b = z.read(n)
            if n.endswith((".xml", ".rels")):
                b = rewrite(b, r, p)
            w.writestr(zipfile.ZipInfo(n), b)
    return bio.getvalue()
