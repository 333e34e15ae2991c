"""Sheets of any size: bands of rows written out, read, and told as runs again."""
from __future__ import annotations

import datetime as dt
import io
import re

import real
import wb as W

EPOCH = dt.date(1899, 12, 30)
PAT = re.compile(r"([stb])(\d+)|(\d+)(?:\.0+)?|(\d+)\.50*|(\d{4}-\d\d-\d\d)(?: 00:00:00(?:\.0+)?)?")


def scale_book(bands, pa, pb, alt):
    """The sheet of the bands; alt is the other way to store what can be stored in two ways."""
    rows, sst = [], []
    r = 0

    def shared(t):
        sst.append({"runs": [t]})
        return {"k": "sst", "i": len(sst) - 1, "s": 0}

    for n, a, b in bands:
        if a == "none" and b == "none":
            r += n
            continue
        for r in range(r, r + n):
            cells = []
            if a != "none":
                x = r + 61
                if a == "shared":
                    c = shared(f"s{r}")
                elif a == "text":
                    c = {"k": "inline" if alt and r % 2 else "str", "t": f"t{r}", "s": 0, "rec": "fst" if alt else "st"}
                elif a == "rk":
                    c = {"k": "num", "x": str(x), "v": {"b": False, "n": x, "k": 0}, "s": 1, "rec": "rk"}
                elif a == "int":
                    c = {"k": "num", "x": str(x), "v": {"b": False, "n": x, "k": 0}, "s": 1, "rec": "fnum" if alt else "real"}
                elif a == "frac":
                    c = {"k": "num", "x": f"{x}.5", "v": {"b": False, "n": x * 10 + 5, "k": 1}, "s": 1, "rec": "real" if r % 2 else "rk"}
                elif a == "date":
                    c = {"k": "num", "x": str(x), "v": {"b": False, "n": x, "k": 0}, "s": 2, "rec": "rk" if r % 3 else "real"}
                elif a == "null":
                    c = shared("#N/A") if (r + alt) % 2 else {"k": "err", "e": "#N/A", "s": 0, "rec": "err"}
                elif a == "numtext":
                    c = shared(str(x))
                else:
                    c = {"k": "str", "t": (EPOCH + dt.timedelta(x)).isoformat(), "s": 0, "rec": "st"}
                cells.append({"c": pa, **c})
            if b != "none":
                cells.append({"c": pb, **(shared(f"b{r}") if alt else {"k": "str", "t": f"b{r}", "s": 0, "rec": "st"})})
            cells.sort(key=lambda c: c["c"])
            rows.append({"r": r, "cells": cells})
        r += 1
    return {"sheets": [{"name": "S", "rows": rows}], "styles": {"fmts": {}, "xfs": [0, 2, 14]}, "sst": sst}


def token(v, ty):
    if v is None:
        return "~", 0
    if ty == "str":
        m = PAT.fullmatch(v)
        if not m:
            return repr(v)[:40], 0
        if m[1]:
            return m[1], int(m[2])
        if m[3]:
            return "n", int(m[3]) - 61
        if m[4]:
            return "f", int(m[4]) - 61
        return "d", (dt.date.fromisoformat(m[5]) - EPOCH).days - 61
    if ty == "ts":
        days, ms = divmod(v, 86_400_000)
        return {0: "d", 43_200_000: "e"}.get(ms, f"?{ms}"), days + 25569 - 61
    x = v - 61
    return ("n", int(x)) if x == int(x) else ("f", int(x)) if x - int(x) == 0.5 else (repr(v), 0)


def runs(arr):
    import pyarrow as pa

    arr = arr.combine_chunks() if isinstance(arr, pa.ChunkedArray) else arr
    if isinstance(arr, pa.ChunkedArray):
        arr = arr.chunk(0) if arr.num_chunks else pa.array([], arr.type)
    ty = real.NAMES.get(arr.type, str(arr.type))
    out = []
    for v in (arr.cast(pa.int64()) if ty == "ts" else arr).to_pylist():
        k, r = token(v, ty)
        if out and out[-1][1] == k and (k == "~" or out[-1][2] + out[-1][0] == r):
            out[-1][0] += 1
        else:
            if len(out) >= 40:
                out.append([-1, "...", 0])
                break
            out.append([1, k, r])
    return {"type": ty, "runs": out}


def do_scale(case):
    from rxls.reader import read

    q, pa, pb = case["q"], *case["at"]
    out = {}
    for fmt in case["fmts"]:
        kw = {}
        if q["look"] == "col":
            kw.update(lookup_head=pb, lookup_size=q["size"])
        elif q["look"] == "re":
            kw.update(lookup_head=r"^b\d", lookup_size=q["size"])
        if q["filt"]:
            kw.update(row_filters=[int(pb > pa and case["left"])])
        if q["after"]:
            kw.update(skip_rows_after_header=q["after"])
        try:
            t = read(io.BytesIO(W.build(scale_book(case["bands"], pa, pb, case["alt"]), fmt)), 0, q["head"], skip_rows=q["skip"],
                     take_rows=q["take"], take_rows_non_empty=q["keep"], conflict_resolve=q["conf"], **kw)
            cols = [runs(t.column(i)) for i in range(t.num_columns)]
            names = list(t.column_names)
            if pa > pb and len(cols) == 2:
                cols.reverse()
                names.reverse()
            o = {"ok": True, "len": t.num_rows, "cols": cols}
            if q["head"]:
                o["names"] = [["U", 0] if n.startswith("Unnamed") else list(token(n, "str")) for n in names]
        except Exception as e:  # noqa: BLE001
            o = {"ok": False, "err": real.err_name(e)}
        out[fmt] = o
    return out


def do_mask(case):
    """Every filter of the case on one sheet with all patterns of presence: the rows that are kept."""
    from rxls.reader import read

    n = case["n"]
    rows = [{"r": 0, "cells": [{"c": c, "k": "str", "t": f"h{c}", "s": 0, "rec": "st"} for c in range(n + 1)]}]
    sst = []
    for r in range(2 ** n):
        cells = [{"c": 0, "k": "num", "x": str(r), "v": {"b": False, "n": r, "k": 0}, "s": 1, "rec": "rk"}]
        for i in range(n):
            if r >> i & 1:
                k = (i + case["mix"]) % 4
                if k == 0:
                    sst.append({"runs": [f"s{r}"]})
                    cells.append({"c": i + 1, "k": "sst", "i": len(sst) - 1, "s": 0})
                elif k == 1:
                    cells.append({"c": i + 1, "k": "str", "t": f"t{r}", "s": 0, "rec": "st"})
                else:
                    cells.append({"c": i + 1, "k": "num", "x": str(r), "v": {"b": False, "n": r, "k": 0}, "s": k - 1, "rec": "real"})
        rows.append({"r": r + 1, "cells": cells})
    data = W.build({"sheets": [{"name": "S", "rows": rows}], "styles": {"fmts": {}, "xfs": [0, 2, 14]}, "sst": sst}, case["fmt"])
    res = []
    for q in case["qs"]:
        if q["how"] == "ints":
            f = q["is"]
        elif q["how"] == "names":
            f = [f"h{i}$" for i in q["is"]]
        else:
            f = "h(" + "|".join(map(str, q["is"])) + ")$"
        try:
            t = read(io.BytesIO(data), 0, 1, row_filters=f, row_filters_strategy=q["strat"])
            res.append([int(x) for x in t.column(0).to_pylist()])
        except Exception as e:  # noqa: BLE001
            res.append(real.err_name(e))
    return {"res": res}
