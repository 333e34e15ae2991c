"""What a worker can do with a case: one function per kind, do_<kind>(case) -> observation."""
from __future__ import annotations

import io

import real
import wb as W
from kinds_col import *  # noqa: F401, F403
from kinds_pkg import *  # noqa: F401, F403
from kinds_refuse import *  # noqa: F401, F403
from kinds_scale import *  # noqa: F401, F403
from kinds_sess import *  # noqa: F401, F403
from kinds_text import REL_CHARS, REL_REFS, REL_SRC, rel_text
from kinds_xml import *  # noqa: F401, F403


def do_read(case):
    return real.read_case(case)


def do_recalled(case):
    """A read with a callback, once more, and without one: all the same, or no answer at all."""
    data = W.build(case["book"], case["fmt"])
    one = real.read_case(case, data)
    two = real.read_case(case, data)
    bare = real.read_case({**case, "a": {**case["a"], "cb": False}}, data)
    if one != two or {**one, "cb": 0} != bare:
        return {"ok": False, "err": "UNSTABLE", "cb": -1, "all": [one, two, bare]}
    return one


def _walked(fmt, got):
    """Cells of a walk as [row, stored row]; every delivered row gives a shared and a stored text."""
    out = []
    for (r0, c0, v0), (r1, c1, v1) in zip(got[::2], got[1::2]):
        v1 = v1 if isinstance(v1, str) else bytes(v1).decode()
        i0 = int(v0) if fmt == "xlsx" else int.from_bytes(v0, "little")
        out.append([r0, i0] if (c0, c1) == (0, 2) and r0 == r1 and v1 == f"t{i0}" else [r0, c0, str(v0), r1, c1, v1])
    return out + [list(map(str, x)) for x in got[len(out) * 2:]]


def do_walk(case):
    """Rows delivered by both readers for every request on one worksheet."""
    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook

    rows = []
    for i, r in enumerate(case["rs"]):
        cells = [{"c": 0, "k": "sst", "i": i, "s": 0}, {"c": 2, "k": "str", "t": f"t{i}", "s": 0, "rec": "st"}] if r["ne"] else []
        if not r["ne"] and i % 3 == 1:
            cells = [{"c": 1, "k": "blank", "s": 0}]
        if not r["ne"] and i % 3 == 2:
            cells = [{"c": 0, "k": "sst", "i": len(case["rs"]), "s": 0}]   # a shared error text: nothing to read
        rows.append({"r": r["r"], "cells": cells, "open": i % 2 == 0})
    book = {"sheets": [{"name": "S", "rows": rows}], "styles": {"fmts": {}, "xfs": [0]},
            "sst": [{"runs": [f"s{i}"]} for i in range(len(case["rs"]))] + [{"runs": ["#N/A"]}]}
    out = {}
    for fmt, cls in (("xlsx", XlsxWorkbook), ("xlsb", XlsbWorkbook)):
        res = []
        with cls(io.BytesIO(W.build(book, fmt))) as wbk:
            for q in case["qs"]:
                calls = [0]

                def cb():
                    calls[0] += 1

                try:
                    got = []
                    for c in wbk.iter_worksheet(0, skip_rows=q["skip"], take_rows=q["take"], take_rows_non_empty=q["keep"], row_callback=cb):
                        got.append((c.row, c.col, c.val))
                    res.append({"rows": _walked(fmt, got), "cb": calls[0]})
                except Exception as e:  # noqa: BLE001
                    res.append({"err": real.err_name(e)})
        out[fmt] = res
    return out


STYLE = {"g": 0, "n": 2, "t": 14}


def book_from(case):
    """Workbook of an emitted case: styles are given as classes."""
    book = {"sheets": [{"name": "S", "rows": case["rows"]}], "styles": {"fmts": {}, "xfs": [STYLE[x] for x in case["sty"]]},
            "sst": case["sst"], "pretty": case.get("pretty", False)}
    for part in case.get("absent", ()):
        book[part] = None
    if case.get("unlinked"):
        book["rels"] = [["rId1", "worksheet", "worksheets/sheet1" + (".xml" if case["fmt"] == "xlsx" else ".bin")]]
        book["only_rels"] = True
    return book


def do_tables(case):
    """Every request of an emitted case on its workbook."""
    data = W.build(book_from(case), case["fmt"])
    return {"reads": [real.read_case({"a": {**r["a"], "bare": k % 2 == 1}}, data) for k, r in enumerate(case["reqs"])]}


def do_head(case):
    """The names of a header grid, in both formats."""
    h, grid = case["h"], case["grid"]
    rows, sst = [], []
    for i in range(h):
        cells = []
        for j, col in enumerate(grid):
            if col[i] == "~":
                continue
            t = col[i][1:]
            if (i + j) % 2:
                cells.append({"c": j, "k": "str", "t": t, "s": 0, "rec": "st"})
            else:
                sst.append({"runs": [t]})
                cells.append({"c": j, "k": "sst", "i": len(sst) - 1, "s": 0})
        rows.append({"r": i, "cells": cells})
    rows.append({"r": h, "cells": [{"c": j, "k": "str", "t": f"d{j}", "s": 0} for j in range(len(grid))]})
    book = {"sheets": [{"name": "S", "rows": rows}], "styles": {"fmts": {}, "xfs": [0]}, "sst": sst}
    a = {"skip": 0, "take": 0, "keep": True, "skipcols": [], "header": {"k": "int", "n": h, "names": []}, "after": 0,
         "lookup": {"k": "none"}, "filt": {"k": "none"}, "strat": {"k": "or"}, "conf": "no", "fmts": [], "prec": 6, "nulls": [],
         "dtypes": {"k": "none"}}
    return {f: real.read_case({"a": a}, W.build(book, f)) for f in ("xlsx", "xlsb")}


def _args(**kw):
    a = {"skip": 0, "take": 0, "keep": True, "skipcols": [], "header": {"k": "none", "n": 0, "names": []}, "after": 0,
         "lookup": {"k": "none"}, "filt": {"k": "none"}, "strat": {"k": "or"}, "conf": "no", "fmts": [], "prec": 6, "nulls": [],
         "dtypes": {"k": "none"}}
    a.update(kw)
    return a


def do_pair(case):
    """One workbook stored both ways."""
    return {f: {k: v for k, v in real.read_case({"a": case["a"]}, W.build(case["book"], f)).items() if k not in ("msg", "cb")}
            for f in ("xlsx", "xlsb")}


def do_letters(case):
    """A row whose cells carry given references: columns and values as the walk gives them, and the table."""
    from rxls.reader.xlsx import XlsxWorkbook

    cells = [{"c": x["c"], "ref": x["t"], "k": "str", "t": f"v{x['c']}", "s": 0} for x in case["cells"]]
    book = {"sheets": [{"name": "S", "rows": [{"r": 0, "cells": cells}]}], "styles": {"fmts": {}, "xfs": [0]}, "sst": []}
    data = W.build(book, "xlsx")
    with XlsxWorkbook(io.BytesIO(data)) as wbk:
        walk = [[c.row, c.col, c.val if isinstance(c.val, str) else bytes(c.val).decode()] for c in wbk.iter_worksheet(0)]
    t = real.read_case({"a": _args(skipcols=case["skip"])}, data)
    return {"walk": walk, "table": t}


def do_strp(case):
    """Columns of a date and texts, under one list of formats."""
    texts, cells, sst = case["texts"], [], []
    depth = max(len(x) for x in texts)
    rows = [{"r": 0, "cells": [{"c": j, "k": "num", "x": "43831", "v": {"b": False, "n": 43831, "k": 0}, "s": 1, "rec": "rk"}
                               for j in range(len(texts))]}]
    for i in range(depth):
        cells = []
        for j, col in enumerate(texts):
            if i >= len(col):
                continue
            if case["shared"]:
                sst.append({"runs": [col[i]]})
                cells.append({"c": j, "k": "sst", "i": len(sst) - 1, "s": 0})
            else:
                cells.append({"c": j, "k": "str", "t": col[i], "s": 0, "rec": "st"})
        rows.append({"r": i + 1, "cells": cells})
    book = {"sheets": [{"name": "S", "rows": rows}], "styles": {"fmts": {}, "xfs": [0, 14]}, "sst": sst}
    return real.read_case({"a": _args(conf="temporal", fmts=case["fmts"], fmt1=case.get("fmt1", False))}, W.build(book, case["fmt"]))


# ---------------------------------------------------------------------- module level
def _payload(i, n):
    """Data of a record: looks like headers of other records."""
    unit = bytes(((i * 129 + o) % 256) for o in range(256))
    return (unit * (n // 256 + 1))[:n]


class _Streams:
    """The same bytes as streams of different kinds."""

    def __init__(self, data):
        import tempfile
        import zipfile

        self.tmp = tempfile.TemporaryDirectory(prefix="verif-stream-")
        self.data = data
        self.path = self.tmp.name + "/f"
        self.zip = self.tmp.name + "/z"
        with open(self.path, "wb") as f:
            f.write(data)
        with zipfile.ZipFile(self.zip, "w", zipfile.ZIP_DEFLATED, compresslevel=1) as z:
            z.writestr("p", data)
        self.zf = zipfile.ZipFile(self.zip)

    def open(self, kind):
        if kind == "file":
            return open(self.path, "rb")
        if kind == "zip":
            return self.zf.open("p")
        return io.BytesIO(self.data)

    def close(self):
        self.zf.close()
        self.tmp.cleanup()


def do_scan(case):
    """Writes records one after another and scans the stream, cut and filtered as asked."""
    from rxls.biff import dump_sz, record, scan_biff

    recs = [record.from_data(r["id"], *((d,) if i % 2 else (d[:3], d[3:]))) for i, r in enumerate(case["rs"])
            for d in [_payload(i, r["n"])]]
    out = io.BytesIO()
    ends = [r.dump(out) for r in recs]
    data = out.getvalue()
    if any(r.get("w") for r in case["rs"]):     # sizes in more bytes than needed are written by others
        data = b"".join(bytes(h) + _payload(i, r["n"]) for i, (h, r) in enumerate(zip(case["heads"], case["rs"])))
    heads = [list(r.as_binary()[:len(r.as_binary()) - len(r.data)]) for r in recs]
    sizes = [list(dump_sz(r["n"])) for r in case["rs"]]
    want = {i: (r["id"], _payload(i, r["n"])) for i, r in enumerate(case["rs"])}
    res = []
    for q in case["qs"]:
        with io.BytesIO(data[: q["cut"]]) as f:
            only = None if q["all"] else set(q["only"])
            try:
                got = list(scan_biff(f) if q["all"] and q["cut"] % 2 else scan_biff(f, only))
            except Exception as e:  # noqa: BLE001
                res.append({"err": real.err_name(e)})
                continue
            # indices of the records as they were written, in order (-1: no such record)
            ix, at = [], 0
            for r in got:
                k = next((j for j in range(at, len(recs)) if want[j] == (r.rec_id, r.data)), -1)
                ix.append(k + 1)
                at = max(k + 1, at)
            res.append(ix)
    return {"heads": heads, "sizes": sizes, "ends": ends, "res": res}


def do_stream(case):
    """A long stream of random records in streams of several kinds; contents are told by their hash."""
    import hashlib

    from rxls.biff import record, scan_biff

    out = io.BytesIO()
    heads, ends = [], []
    for r in case["recs"]:
        rec = record.from_data(r["id"], bytes.fromhex(r["seed"]) * (r["n"] // 4) + bytes.fromhex(r["seed"])[: r["n"] % 4])
        b = rec.as_binary()
        if r.get("w"):
            h = list(b[: len(b) - len(rec.data)])
            n = 2 if r["id"] & 128 else 1
            while len(h) - n < r["w"]:
                h[-1] |= 128
                h.append(0)
            heads.append(h)
            out.write(bytes(h) + rec.data)
            ends.append(out.tell())
            continue
        heads.append(list(b[: len(b) - len(rec.data)]))
        ends.append(rec.dump(out))
    st = _Streams(out.getvalue()[: case["cut"]])
    try:
        with st.open(case["kind"]) as f:
            got = [[r.rec_id, r.rec_sz, hashlib.sha256(r.data).hexdigest()[:12]]
                   for r in scan_biff(f, None if case["all"] else set(case["only"]))]
    except Exception as e:  # noqa: BLE001
        got = [[-1, 0, real.err_name(e)]]
    finally:
        st.close()
    return {"heads": heads, "ends": ends, "got": got}


def do_names(case):
    import re

    from rxls.biff import record, scan_biff

    res = []
    for x in case["xs"]:
        by_id = record.from_data(x["id"], b"abc")
        b = by_id.as_binary() + record(1, b"zz").as_binary()
        found = [r.rec_id for r in scan_biff(io.BytesIO(b), {x["id"]})]
        o = {"rec_name": by_id.rec_name, "found": found[:1], "n": int(re.match(r"\d+", repr(by_id)).group())}
        if x["name"] != "Undefined":
            try:
                o["id"] = record.from_data(x["name"]).rec_id
            except KeyError:
                o["id"] = None
        res.append(o)
    return {"res": res}


def do_other_ids(case):
    """Names of ids that are no file form of a record number."""
    from rxls.biff import record

    return {"named": [i for i in range(*case["range"]) if (i >= 128 and not i & 128 or i >= 32768) and record(i, b"").rec_name != "Undefined"]}


def do_unknown_name(case):
    from rxls.biff import record

    try:
        return {"id": record.from_data(case["name"]).rec_id}
    except Exception:  # noqa: BLE001
        return {"id": "KeyError"}


def _wide_text(t):
    return None if t == [-1] else "".join(map(chr, t))


def do_wide(case):
    """Wide strings dumped one after another and loaded again."""
    from rxls.biff import record, scan_biff
    from rxls.biff_recs import BrtBundleSh, xstr

    texts = [_wide_text(t) for t in case["texts"]]
    out = io.BytesIO()
    ends = [(xstr(t) if t is None or i % 2 else xstr.from_string(t)).dump(out) for i, t in enumerate(texts)]
    data = out.getvalue()

    def points(s):
        return [-1] if s is None else [ord(c) for c in s]

    f = io.BytesIO(data)
    loaded, at = [], []
    for _ in texts:
        loaded.append(points(xstr.load(f).s))
        at.append(f.tell())
    parts, values, p = [], [], 0
    for e in ends:
        x = xstr.from_binary(data[p:])
        parts.append(points(x.s))
        values.append(points(x.value))
        p = e
    o = {"bytes": list(data), "ends": ends, "loaded": loaded, "at": at, "parts": parts, "values": values}
    if len(texts) >= 2:
        head = bytes([case.get("state", 1), 0, 0, 0, *case.get("tab", [7, 1, 0, 128])])
        r = record.from_data("BrtBundleSh", head, data, b"\x05\x06" * (len(data) % 3))
        if case.get("scan", True):
            (r,) = scan_biff(io.BytesIO(r.as_binary()))
        b = BrtBundleSh.loadr(r)
        o["sheet"] = [list((b.hsState + (b.iTabID << 32)).to_bytes(8, "little")), points(b.strRelID.s), points(b.strName.s)]
    return o


REL_NS = "http://schemas.openxmlformats.org/package/2006/relationships"


def _scan_rels(body):
    from rxls.rels import Relationship

    doc = f'<?xml version="1.0" encoding="UTF-8"?>\n<Relationships xmlns="{REL_NS}">'.encode() + body + b"</Relationships>"
    return [[r.Id, r.Type, r.Target] for r in Relationship.scan_xml(io.BytesIO(doc))]


def do_rels(case):
    """A document of the specification, and the same relations dumped by the code, both scanned."""
    src = "".join(REL_SRC[t] if t in REL_SRC else REL_REFS[t[1:]] if t[0] == "&" else REL_CHARS.get(t, t) for t in case["doc"])
    return {"foreign": _scan_rels(src.encode()), "own": _own_rels([[rel_text(r[k]) for k in ("id", "type", "target")] for r in case["rels"]])}


def _own_rels(rels):
    from xml.etree import ElementTree

    from rxls.rels import Relationship

    out = io.BytesIO()
    for r in rels:
        Relationship(*r).dump_xml(out)
    b = out.getvalue()
    tree = ElementTree.fromstring(b"<r>" + b + b"</r>")
    seen = [[x.get("Id"), x.get("Type").rsplit("/", 1)[-1], x.get("Target")] for x in tree]
    return {"scan": _scan_rels(b), "xml": seen, "tags": [x.tag for x in tree] == ["Relationship"] * len(rels)}


def do_rel_points(case):
    """Relations of any characters, given as code points."""
    o = _own_rels([["".join(map(chr, r[k])) for k in ("id", "type", "target")] for r in case["rels"]])
    return {"own": [[list(map(ord, x)) for x in r] for r in o["scan"]], "xml": [[list(map(ord, x)) for x in r] for r in o["xml"]]}


def do_part(case):
    from rxls.rels import Relationship

    return {"names": [Relationship("i", "t", rel_text(t)).part_name(rel_text(b)) for t, b in case["xs"]]}


def do_fmt(case):
    """One number in every style of a workbook: the kind of every column."""
    xfs = case["xfs"]
    cells = [{"c": i, "k": "num", "x": "43831.5", "v": {"b": False, "n": 438315, "k": 1}, "s": s, "rec": ("rk", "real", "fnum")[i % 3]}
             for i, s in enumerate(case.get("at") or range(len(xfs)))]
    st = {"fmts": dict(case["fmts"]), "xfs": xfs, "style_xfs": case.get("style_xfs", [0]), "dxfs": case.get("dxfs", []),
          "no_xfid": case.get("no_xfid", False), "aligned": case.get("aligned", False), "no_fmts": case.get("no_fmts", False)}
    book = {"sheets": [{"name": "S", "rows": [{"r": 0, "cells": cells}]}], "styles": st, "sst": []}
    o = real.read_case({"a": _args()}, W.build(book, case["fmt"]))
    if not o["ok"]:
        return {"cls": [o["err"]]}
    want = {"ts": "18262:43200000", "f64": "43831.5", "str": "'43831.5"}
    kind = {"ts": "t", "f64": "n", "str": "g"}
    return {"cls": [kind.get(t, t) if c == [want.get(t)] else f"{t} {c}" for t, c in zip(o["types"], o["cols"])]}


def do_sst(case):
    """Every item of a list of shared strings, and the same items stored with their cells."""
    items = [{"els": it, "ws": "\n  " if case.get("ws") and k % 2 else ""} for k, it in enumerate(case["items"])]
    n = len(items)
    order = case.get("order") or list(range(n))
    sparse = set(case.get("at") or range(n))
    rows = []
    for i in order:
        if i in sparse:
            cells = [{"c": 0, "k": "sst", "i": i, "s": 0}, {"c": 1, "k": "inline", "s": 0, **items[i]}, {"c": 2, "k": "str", "t": "x", "s": 0, "rec": "st"}]
            rows.append({"r": len(rows), "cells": cells})
    book = {"sheets": [{"name": "S", "rows": rows}], "styles": {"fmts": {}, "xfs": [0]}, "sst": items}
    out = {}
    for fmt in ("xlsx", "xlsb"):
        o = real.read_case({"a": _args()}, W.build(book, fmt))
        out[fmt] = o.get("cols") or o
    return out
