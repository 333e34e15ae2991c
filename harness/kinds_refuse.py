"""Reads with arguments that cannot be honoured."""
from __future__ import annotations

import io
import tempfile
from pathlib import Path

import real
import wb as W

ODD = {"float": 1.0, "none": None, "text": "1", "list": [1], "number": 3, "tuple": ("a",), "dict": {"a": 0}, "set": {"or"}, "mixed": [0, "a"]}


def fault_value(x):
    k = x["k"]
    if k == "int":
        return x["n"]
    if k in ("name", "text") and x["arg"] in ("sheet", "strat"):
        return x["s"]
    if k == "list" and x["arg"] == "strat":
        return [int(s[1:]) if s[:1] == "#" else s for s in x["ss"]]
    if k == "list" and x["arg"] == "header":
        return [f"h{i}" for i in range(x["n"])]
    if k == "list" and x["arg"] == "dtypes":
        return [real.TYPES["str"]] * x["n"]
    if k == "pattern":
        import re

        return re.compile("a")
    return ODD[k]


def spoilt_file(k, data, folder):
    if k == "absent":
        return str(folder / "no such book.xlsx")
    if k == "folder":
        return folder
    if k == "hollow":
        return io.BytesIO(b"")
    if k == "text":
        return io.BytesIO(b"name,value\na,1\n")
    f = io.BytesIO(data)
    f.close()
    return f


def spoilt_read(data, a, faults):
    """The spoilt read, then the plain one from the same stream."""
    from rxls.reader import read

    (header,), kw = real.read_kwargs(a)
    stream = io.BytesIO(data)
    bad = dict(kw)
    file, sheet, head = stream, 0, header
    with tempfile.TemporaryDirectory(prefix="verif-refuse-") as folder:
        for x in faults:
            if x["arg"] == "file":
                file = spoilt_file(x["k"], data, Path(folder))
                continue
            v = fault_value(x)
            if x["arg"] == "sheet":
                sheet = v
            elif x["arg"] == "header":
                head = v
            else:
                bad[{"skip": "skip_rows", "take": "take_rows", "filt": "row_filters", "strat": "row_filters_strategy", "dtypes": "dtypes"}[x["arg"]]] = v
        out = []
        for f, s, h, k in (file, sheet, head, bad), (stream, 0, header, kw):
            try:
                out.append(real.table_obs(read(f, s, h, **k)))
            except Exception as e:  # noqa: BLE001
                out.append({"ok": False, "err": type(e).__name__ if f is not stream or not isinstance(e, IndexError) else "IndexError"})
                if out[-1]["err"] == "ArrowIndexError":
                    out[-1]["err"] = "IndexError"
    return {"ok": True, "spoilt": out[0], "plain": out[1]}


def do_refuse(case):
    from kinds import book_from

    data = W.build(case["book"] if "book" in case else book_from(case), case["fmt"])
    if "faults" in case:
        return spoilt_read(data, case["a"], case["faults"])
    return {"reads": [spoilt_read(data, case["a"], f["faults"]) for f in case["all"]]}


def do_life(case):
    """One life of a reader: what every step answers."""
    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook

    out = {}
    book = {"sheets": [{"name": "S", "rows": [{"r": 0, "cells": [{"c": 0, "k": "str", "t": "v", "s": 0, "rec": "st"}]}]}],
            "styles": {"fmts": {}, "xfs": [0]}, "sst": [{"runs": ["a"]}]}
    for fmt, cls in ("xlsx", XlsxWorkbook), ("xlsb", XlsbWorkbook):
        r = cls(io.BytesIO(W.build(book, fmt)))
        got = []
        for op in case["log"]:
            try:
                if op == "enter":
                    ans = "self" if r.__enter__() is r else "other"
                elif op == "exit":
                    ans = str(r.__exit__(None, None, None))
                elif op == "sheets":
                    ans = ",".join(r.sheets)
                elif op == "shared":
                    ans = ",".join(r.shared.to_pylist())
                elif op == "styles":
                    ans = "styles" if len(r.styles) == 0 else str(r.styles)
                else:
                    ans = ",".join(x if isinstance(x, str) else bytes(x).decode() for x in (c.val for c in r.iter_worksheet(0)))
            except Exception as e:  # noqa: BLE001
                ans = type(e).__name__
            got.append(ans)
        out[fmt] = got
    return out
