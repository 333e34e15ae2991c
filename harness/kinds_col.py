"""Kinds that work on columns of cells: many numbers at once, slices and encoders."""
from __future__ import annotations

import io
import struct
from fractions import Fraction

import numpy as np
import pyarrow as pa

import real
import wb as W

STR, NUM, SHARED, RK, BOOL, TEMP = 0x10, 0x20, 0x01, 0x01, 0x02, 0x04


def column(vals, xdt, binary, **kw):
    """A column of cells of one kind."""
    from rxls.cell import cell
    from rxls.series import xl_series

    s = xl_series(pa.nulls(0).cast(pa.large_string()), binary, **kw)
    for i, v in enumerate(vals):
        s.add(cell(i, 0, xdt, v))
    return s


def rk_int(n):
    return struct.pack("<I", (n << 2) & 0xFFFFFFFF | 2)


def serial_cells(serials, src):
    """A column of date cells holding the serials (numbers or texts), the way src says."""
    if src == "rk":
        return column([rk_int(n) for n in serials], NUM | RK | TEMP, True)
    if src == "real":
        return column([struct.pack("<d", n) for n in serials], NUM | TEMP, True)
    if src == "exp":
        return column([f"{n:.17e}".replace("e+0", "E").encode() if n % 2 else f"{n:.6E}".encode() for n in serials], NUM | TEMP, False)
    return column([repr(n).encode() for n in serials], NUM | TEMP, False)


def moments(col):
    """Milliseconds since 1970 of a column of moments."""
    arr = col.to_arrow()
    if isinstance(arr, pa.ChunkedArray):
        arr = arr.combine_chunks()
    assert pa.types.is_timestamp(arr.type), str(arr.type)
    assert arr.null_count == 0
    return arr.cast(pa.timestamp("ms")).cast(pa.int64()).to_numpy()


def do_serials(case):
    """The whole serials of a range: where months start, where a serial is not the day after the one before it."""
    serials = range(case["from"], case["to"])
    ms = moments(serial_cells(serials, case["src"]))
    n = np.arange(case["from"], case["to"])
    day = ms // real.DAY
    if len(ms) != len(n):
        return {"len": len(ms)}
    d = day.astype("M8[D]")
    mo = d.astype("M8[M]")
    first = np.flatnonzero((d == mo.astype("M8[D]")) & (n > 0))
    return {"starts": [[int(m) // 12 + 1970, int(m) % 12 + 1, int(n[i])] for i, m in zip(first, mo[first].astype(np.int64))],
            "odd": [int(x) for x in n[1:][np.diff(day) != 1]], "times": [int(x) for x in n[ms % real.DAY != 0][:5]]}


def do_times(case):
    """Times of one day: every millisecond of it that was asked for, and what is not its moment."""
    t = np.arange(case["from"], case["to"], case["step"], dtype=np.int64)
    off = case.get("off", 0)
    x = case["day"] + (t.astype(np.float64) + off) / real.DAY
    if case["src"] == "rkc":   # only hundredths of a day
        col = column([struct.pack("<I", (int(round(v * 100)) << 2) & 0xFFFFFFFF | 3) for v in x], NUM | RK | TEMP, True)
    else:
        col = serial_cells([float(v) for v in x], case["src"])
    ms = moments(col)
    if len(ms) != len(t):
        return {"len": len(ms)}
    day, of = ms // real.DAY, ms % real.DAY
    bad = np.flatnonzero((of != t) | (day != day[0]))
    return {"day": int(day[0]), "bad": [[int(t[i]), int(day[i]), int(of[i])] for i in bad[:3]]}


def do_decimals(case):
    """Date cells with decimal serials in a workbook: one row per serial, one column per way to store it."""
    rows = []
    for i, (w, f, k) in enumerate(case["xs"]):
        n = w * 10 ** k + f
        v = {"b": False, "n": n, "k": k}
        plain = f"{w}.{f:0{k}d}" if k else str(w)
        forms = [plain, repr(n / 10 ** k), f"{n}E-{k}", f"{n / 10 ** k:.16E}", plain + ("00" if k else ".0")]
        cells = []
        if case["fmt"] == "xlsx":
            for j, x in enumerate(forms):
                cells.append({"c": j, "k": "num", "x": x, "v": v, "s": 1})
        else:
            recs = ["real", "fnum"] + (["rk"] if k <= 2 and n * 10 ** ((2 - k) if k else 0) < 2 ** 29 else ["real"])
            for j, rec in enumerate(recs):
                cells.append({"c": j, "k": "num", "x": plain, "v": v, "s": 1, "rec": rec})
        rows.append({"r": i, "cells": cells})
    from kinds import _args

    book = {"sheets": [{"name": "S", "rows": rows}], "styles": {"fmts": {}, "xfs": [0, 14]}, "sst": []}
    o = real.read_case({"a": _args()}, W.build(book, case["fmt"]))
    return {k: o[k] for k in ("ok", "types", "cols", "err") if k in o}


# ---------------------------------------------------------------------- packed numbers
def word(n):
    return struct.pack("<I", n)


HALF = 0x3FE00000   # 0.5: keeps a column of whole numbers a column of floats


def floats(arr):
    if isinstance(arr, pa.ChunkedArray):
        arr = arr.combine_chunks()
    assert pa.types.is_float64(arr.type) and arr.null_count == 0, str(arr.type)
    return arr.to_numpy()


def do_rks(case):
    """Packed numbers in number cells, read as a column and as a workbook; ("text") beside texts; ("head") as headers; ("date") as dates."""
    from rxls.reader import read

    ws, how = case["ws"], case["how"]
    if how == "column":
        v = floats(column([word(HALF), *map(word, ws)], NUM | RK, True).to_arrow())
        return {"x": [(float(x) + 0.0).hex() for x in v[1:]]}
    sty = {"fmts": {}, "xfs": [0, 2, 14]}
    if how == "head":
        rows = [{"r": 0, "cells": [{"c": j, "k": "num", "rk": f"{w:x}", "s": 0, "v": 0, "x": "", "rec": "rk"} for j, w in enumerate(ws)]},
                {"r": 1, "cells": [{"c": j, "k": "str", "t": "v", "s": 0} for j in range(len(ws))]}]
    else:
        cells = [{"c": 0, "k": "num", "rk": f"{w:x}", "s": 2 if how == "date" else 1, "v": 0, "x": "", "rec": "rk"}
                 for w in ([] if how == "date" else [HALF]) + ws]
        if how == "text":
            cells = [{"c": 0, "k": "str", "t": "first", "s": 0}] + cells
        rows = [{"r": i, "cells": [c]} for i, c in enumerate(cells)]
    b = W.build({"sheets": [{"name": "S", "rows": rows}], "styles": sty, "sst": []}, "xlsb")
    t = read(io.BytesIO(b), 0, 1 if how == "head" else 0)
    if how == "head":
        return {"x": list(t.column_names)}
    col = t.column(0)
    if how == "number":
        return {"x": [(float(x) + 0.0).hex() for x in floats(col)[1:]]}
    if how == "text":
        assert pa.types.is_large_string(col.type) and col.null_count == 0
        return {"x": col.to_pylist()[2:]}
    assert pa.types.is_timestamp(col.type) and col.null_count == 0
    return {"x": col.cast(pa.timestamp("ms")).cast(pa.int64()).to_pylist()}


def rk_meaning(w):
    """Bulk form of the meaning of a word, on arrays: checked against the specification's own list in the same run."""
    w = w.astype(np.int64)
    p = w >> 2
    signed = np.where(p >= 2 ** 29, p - 2 ** 30, p)
    s, e, m = p >> 29, (p >> 18) & 0x7FF, p & 0x3FFFF
    mant = np.where(e == 0, m, m + 2 ** 18) * np.where(s == 1, -1, 1)
    with np.errstate(all="ignore"):
        dbl = np.ldexp(mant.astype(np.float64), (np.where(e == 0, 1, e) - 1041).astype(np.int32))
        v = np.where(w & 2, signed.astype(np.float64), dbl)
        v = np.where(w & 1, v / 100.0, v)
    return v, (e != 0x7FF) | ((w & 2) > 0)


def do_rk_sweep(case):
    """Every step-th word of a range."""
    w = np.arange(case["from"], case["to"], case["step"], dtype=np.uint64).astype(np.uint32)
    v, fin = rk_meaning(w)
    w, v = w[fin], v[fin]
    if case.get("direct"):
        from rxls.chunk.casts import rk_to_f8

        with np.errstate(all="ignore"):
            x = rk_to_f8(w)
    else:
        x = floats(column([word(HALF), *map(word, w.tolist())], NUM | RK, True).to_arrow())[1:]
    bad = np.flatnonzero(~(x == v)) if len(x) == len(v) else [0]
    return {"n": len(w), "bad": [[int(w[i]), float(v[i]).hex(), float(x[i]).hex()] for i in bad[:3]]}


def do_rk_listed(case):
    """The bulk form of the meaning on words of the specification's list (an oracle against the oracle)."""
    v, fin = rk_meaning(np.array(case["ws"], dtype=np.uint32))
    return {"x": [(float(x) + 0.0).hex() if f else "" for x, f in zip(v, fin)]}


# ---------------------------------------------------------------------- encoders
def do_rk_codec(case):
    """Numbers of words encoded by the code and decoded again."""
    from rxls.chunk.casts import f8_to_rk, i8_to_rk, rk_to_f8

    w = np.array(case["ws"], dtype=np.uint32)
    v, fin = rk_meaning(w)
    w, v = w[fin], v[fin]
    return _codec(w, v, f8_to_rk, i8_to_rk, rk_to_f8)


def _codec(w, v, f8_to_rk, i8_to_rk, rk_to_f8):
    with np.errstate(all="ignore"):
        e = f8_to_rk(v)
        assert e.dtype == np.uint32 and len(e) == len(v), str(e.dtype)
        back, known = rk_to_f8(e), rk_meaning(e)[0]
    bad = np.flatnonzero(~((back == v) & (known == v)))
    out = {"n": len(w), "bad": [[int(w[i]), float(v[i]).hex(), int(e[i]), float(back[i]).hex()] for i in bad[:3]]}
    ints = v[(w & 3) == 2].astype(np.int64)
    for t in (np.int64, np.int32):
        e = i8_to_rk(ints.astype(t))
        bad = np.flatnonzero(~((rk_to_f8(e) == ints) & (rk_meaning(e)[0] == ints)))
        out["bad"] += [[int(ints[i]), int(e[i])] for i in bad[:3]]
    pos = ints[ints >= 0]
    for t in (np.uint64, np.uint32):
        e = i8_to_rk(pos.astype(t))
        bad = np.flatnonzero(~(rk_to_f8(e) == pos))
        out["bad"] += [[int(pos[i]), int(e[i])] for i in bad[:3]]
    return out


def do_rk_codec_sweep(case):
    """The same for a range of words (those flagged as hundredths of doubles encode nothing of their own)."""
    from rxls.chunk.casts import f8_to_rk, i8_to_rk, rk_to_f8

    w = np.arange(case["from"], case["to"], case["step"], dtype=np.uint64).astype(np.uint32)
    w = w[(w & 3) != 1]
    v, fin = rk_meaning(w)
    return _codec(w[fin], v[fin], f8_to_rk, i8_to_rk, rk_to_f8)


def do_ms_codec(case):
    """Moments encoded as serials and decoded; "w": whole days of the serials, where the specification names them."""
    from rxls.chunk.casts import f8_to_ms_win, ms_to_f8_win

    if "xs" in case:
        ms = np.array([d * real.DAY + t for d, t, _ in case["xs"]], dtype=np.int64)
    else:
        ms = np.arange(case["from"], case["to"], case["step"], dtype=np.int64) + case["day"] * real.DAY
    f = ms_to_f8_win(ms)
    assert f.dtype == np.float64 and len(f) == len(ms)
    back = f8_to_ms_win(f)
    bad = np.flatnonzero(back != ms)
    out = {"n": len(ms), "bad": [[int(ms[i]), repr(float(f[i])), int(back[i])] for i in bad[:3]]}
    if "xs" in case:
        w = np.array([x[2] for x in case["xs"]])
        t = np.array([x[1] for x in case["xs"]])
        off = np.flatnonzero(np.abs((f - w) * real.DAY - t) > 0.1)
        out["bad"] += [[case["xs"][i], repr(float(f[i]))] for i in off[:3]]
    return out


# ---------------------------------------------------------------------- columns and their views
class Column:
    """A column of the code under test: cells are given as (how it is stored, what it holds)."""

    def __init__(self, binary, conf, texts, prec=6):
        from rxls.series import xl_series

        self.binary = binary
        self.s = xl_series(pa.array(texts, pa.large_string()), binary, conflict_resolve=conf, float_precision=prec)

    def add(self, row, store, x):
        from rxls.cell import cell

        b = self.binary
        if store == "h":
            xdt, v = STR | SHARED, struct.pack("<I", x) if b else str(x).encode()
        elif store == "t":
            xdt, v = STR, x.encode()
        elif store == "b":
            xdt, v = NUM | BOOL, bytes((int(x),))
        else:
            xdt = NUM | (TEMP if "d" in store else 0)
            if b and store[0] == "r":
                xdt, v = xdt | RK, struct.pack("<I", int(x, 16))
            else:
                v = struct.pack("<d", float(x)) if b else x.encode()
        return self.s.add(cell(row, 0, xdt, v))

    def view(self, q, text=False):
        kw = {"idx": pa.array(q["mask"], pa.bool_())} if q["m"] else {}
        f = self.s.to_utf8 if text else self.s.to_arrow
        if q["off"] == 0 and (q["len"] == 0 or q["m"]):
            r = f(**kw)
        elif q["m"]:
            # with a mask the length does not matter
            r = f(q["off"], len(q["mask"]), **kw)
        else:
            r = f(q["off"], q["len"])
        return real.values(r)


SHAREDS = ["15", "31/12/1960 23:59", "unused"]
MADE = {1: ("n", "2.5"), 2: ("r", "44000"), 3: ("d", "43831.5"), 4: ("h", 0), 5: ("t", "2020-02-29"), 6: ("t", "word"), 7: ("h", 1)}


def do_series(case):
    """One column: cells are added, views come in between and, at the end, again and again."""
    conf = ("no", "temporal", "numeric", "all")[case["c"] - 1]
    col = Column(case["binary"], conf, SHAREDS)
    n = 0
    for i, op in enumerate(case["ops"]):
        if op[0] == "add":
            store, x = MADE[op[2]]
            if case["binary"] and store == "r":
                x = f"{int(x) << 2 | 2:x}"
            try:
                col.add(op[1], store, x)
            except Exception as e:  # noqa: BLE001
                return {"op": i, "err": real.err_name(e)}
            continue
        n += 1
        q = case["reqs"][op[1]]
        try:
            got = list(col.view(q, op[0] == "u"))
        except Exception as e:  # noqa: BLE001
            got = [real.err_name(e), []]
        if op[0] == "len":
            continue
        if got != op[2]:
            return {"op": i, "ask": [op[0], q], "want": op[2], "got": got}
    return {"n": n}


def do_history(case):
    """A long random history; answers are judged by the specification."""
    col = Column(case["binary"], case["conf"], case["texts"], case["prec"])
    out = []
    for o in case["ops"]:
        if o["o"] == "add":
            try:
                col.add(o["row"], o["k"], o["x"])
                out.append({"t": "", "v": []})
            except Exception as e:  # noqa: BLE001
                out.append({"t": real.err_name(e), "v": ["!"]})
            continue
        try:
            t, v = col.view(o, o["o"] == "utf8")
        except Exception as e:  # noqa: BLE001
            t, v = real.err_name(e), []
        out.append({"t": t, "v": v})
    return {"ans": out}
