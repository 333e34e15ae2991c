"""Runs cases on the real code (public names only) and projects what it observes.

Imported by worker processes under /opt/venv/bin/python with /repo on sys.path.
"""
from __future__ import annotations

import io
import re
import struct
import sys
import warnings
from decimal import Decimal

sys.dont_write_bytecode = True
if "/repo" not in sys.path:
    sys.path.insert(0, "/repo")
warnings.filterwarnings("ignore")

import pyarrow as pa  # noqa: E402

import wb as W  # noqa: E402
from txt import dec, enc  # noqa: E402

TYPES = {
    "str": pa.large_string(), "utf8": pa.string(), "i64": pa.int64(), "i32": pa.int32(), "f64": pa.float64(),
    "ts": pa.timestamp("ms"), "tss": pa.timestamp("s"), "d32": pa.date32(), "bool": pa.bool_(),
}
NAMES = {v: k for k, v in TYPES.items()}
DAY = 86_400_000


def num_str(x) -> str:
    """Shortest decimal of a number, without exponent."""
    if isinstance(x, int):
        return str(x)
    if x != x or x in (float("inf"), float("-inf")):
        return repr(x)
    if x == 0:
        return "0"
    d = format(Decimal(repr(x)).normalize(), "f")
    return d


def values(arr) -> tuple[str, list[str]]:
    if isinstance(arr, pa.ChunkedArray):
        arr = arr.combine_chunks() if arr.num_chunks != 1 else arr.chunk(0)
    t = arr.type
    name = NAMES.get(t, "null" if pa.types.is_null(t) else str(t))
    if name in ("str", "utf8"):
        return name, ["~" if x is None else "'" + enc(x) for x in arr.to_pylist()]
    if name == "ts":
        ints = arr.cast(pa.int64()).to_pylist()
        return name, ["~" if x is None else f"{x // DAY}:{x % DAY}" for x in ints]
    if name == "tss":
        ints = arr.cast(pa.int64()).to_pylist()
        return name, ["~" if x is None else f"{x // 86400}:{x % 86400 * 1000}" for x in ints]
    if name == "d32":
        return name, ["~" if x is None else str(x) for x in arr.cast(pa.int32()).to_pylist()]
    if name in ("i64", "i32", "f64"):
        return name, ["~" if x is None else num_str(x) for x in arr.to_pylist()]
    return name, ["~" if x is None else str(x) for x in arr.to_pylist()]


def err_name(e: BaseException) -> str:
    if isinstance(e, pa.lib.ArrowIndexError):
        return "IndexError"
    return type(e).__name__


def rx(p: dict) -> str:
    s = re.escape(dec(p["s"]))
    t = re.escape(dec(p.get("t", "")))
    return {"exact": f"^{s}$", "pre": f"^{s}", "sub": f"{s}", "suf": f"{s}$", "alt": f"^(?:{s}|{t})$", "dig": r"^\d+$"}[p["k"]]


def rx_match(p: dict) -> str:
    """For anchored matching: substring needs a leading .*"""
    s = re.escape(dec(p["s"]))
    t = re.escape(dec(p.get("t", "")))
    return {"exact": f"^{s}$", "pre": f"{s}", "sub": f".*{s}", "suf": f".*{s}$", "alt": f"(?:{s}|{t})$", "dig": r"\d+$"}[p["k"]]


DEFAULTS = {"skip_rows": 0, "take_rows": 0, "take_rows_non_empty": False, "skip_rows_after_header": 0, "lookup_size": 30,
            "row_filters_strategy": "or", "float_precision": 6, "conflict_resolve": "no"}


def read_kwargs(a: dict) -> tuple[tuple, dict]:
    kw: dict = {}
    h = a["header"]
    if h["k"] == "none":
        header = False if h.get("b") else 0
    elif h["k"] == "int":
        header = True if h.get("b") else h["n"]
    else:
        header = [dec(x) for x in h["names"]]
    kw["skip_rows"] = a["skip"]
    kw["take_rows"] = a["take"]
    kw["take_rows_non_empty"] = a["keep"]
    if a["skipcols"]:
        kw["skip_cols"] = list(a["skipcols"])
    if a["after"]:
        kw["skip_rows_after_header"] = a["after"]
    lk = a["lookup"]
    if lk["k"] == "re":
        kw["lookup_head"] = rx(lk["p"])
        kw["lookup_size"] = lk["size"]
    elif lk["k"] == "col":
        kw["lookup_head"] = lk["n"]
        kw["lookup_size"] = lk["size"]
    f = a["filt"]
    if f["k"] == "one":
        kw["row_filters"] = rx_match(f["ps"][0])
    elif f["k"] == "strs":
        kw["row_filters"] = [rx_match(p) for p in f["ps"]]
    elif f["k"] == "ints":
        kw["row_filters"] = list(f["is"])
    st = a["strat"]
    kw["row_filters_strategy"] = list(st["ops"]) if st["k"] == "list" else st["k"]
    kw["conflict_resolve"] = a["conf"]
    if a["fmts"]:
        fm = tuple(a["fmts"])
        kw["datetime_formats"] = fm[0] if len(fm) == 1 and a.get("fmt1") else fm
    kw["float_precision"] = a["prec"]
    if a["nulls"]:
        ns = [dec(x) for x in a["nulls"]]
        kw["null_values"] = frozenset(ns).__contains__ if a.get("nullfn") else ns
    d = a["dtypes"]
    if d["k"] == "one":
        kw["dtypes"] = TYPES[d["t"]]
    elif d["k"] == "seq":
        kw["dtypes"] = [TYPES[t] for t in d["ts"]]
    elif d["k"] == "map":
        kw["dtypes"] = {dec(n): TYPES[t] for n, t in zip(d["names"], d["ts"])}
    if a.get("bare"):      # what is left out means its default
        kw = {k: v for k, v in kw.items() if k not in DEFAULTS or v != DEFAULTS[k] or type(v) is not type(DEFAULTS[k])}
    return (header,), kw


def book_of(case: dict) -> dict:
    return case["book"]


def table_obs(tab, names=None) -> dict:
    types, cols = [], []
    for i in range(tab.num_columns):
        t, v = values(tab.column(i))
        types.append(t)
        cols.append(v)
    return {"ok": True, "names": [enc(x) for x in tab.column_names], "types": types, "cols": cols}


def read_case(case: dict, data: bytes | None = None) -> dict:
    from rxls.reader import read

    data = data if data is not None else W.build(book_of(case), case["fmt"])
    (header,), kw = read_kwargs(case["a"])
    calls = [0]

    def cb():
        calls[0] += 1

    if case["a"].get("cb", True):
        kw["row_callback"] = cb
    try:
        tab = read(io.BytesIO(data), case.get("sheet", 0), header, **kw)
        obs = table_obs(tab)
    except Exception as e:  # noqa: BLE001
        obs = {"ok": False, "err": err_name(e), "msg": enc(str(e)[:200])}
    obs["cb"] = calls[0]
    return obs
