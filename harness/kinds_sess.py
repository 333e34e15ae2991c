"""Kinds about sessions: several readers, iterators and threads on one workbook."""
from __future__ import annotations

import io
import os
import shutil
import struct
import sys
import tempfile
import threading
from pathlib import Path

import real
import wb as W
from txt import dec, enc

_BOOK: dict = {}


def _classes():
    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook

    return {"xlsx": XlsxWorkbook, "xlsb": XlsbWorkbook}


TOKENS = {"sa": {"k": "sst", "i": 0}, "sn": {"k": "sst", "i": 1}, "sc": {"k": "sst", "i": 2}, "d": {"k": "num", "x": "43831", "v": {"b": False, "n": 43831, "k": 0}, "rec": "real"},
          "in": {"k": "str", "t": "null", "rec": "st"}, "ib": {"k": "str", "t": "ib", "rec": "st"}}
SHEETS = [[["sa", "d"], ["sn", "in"], ["ib"]], [["sn"], ["sc", "sn"], ["d"], ["sa"]]]
WINDOWS = {"all": {}, "mid": {"skip_rows": 1, "take_rows": 1}, "keep": {"take_rows_non_empty": True}}


def _token(wbk, fmt, c):
    """The cell of the model a delivered cell is."""
    if c.xdt == 0x11:
        i = int(c.val) if fmt == "xlsx" else struct.unpack("<I", c.val)[0]
        t = {"A": "sa", "null": "sn", "C": "sc"}.get(wbk.shared[i].as_py(), "?")
        return [t if t != "sn" or i == 1 else "?", c.row]
    if c.xdt & 0x04:
        v = float(c.val) if fmt == "xlsx" else struct.unpack("<d", c.val)[0]
        return ["d" if v == 43831 else "?", c.row]
    s = c.val if isinstance(c.val, str) else bytes(c.val).decode()
    return [{"null": "in", "ib": "ib"}.get(s, "?" + s), c.row]


def do_session(case):
    """One history of the model, on both readers."""
    out = {}
    for fmt, cls in _classes().items():
        if fmt not in _BOOK:
            sheets = [{"name": f"S{n + 1}", "rows": [{"r": r, "cells": [{**TOKENS[t], "c": k, "s": 1 if t == "d" else 0} for k, t in enumerate(ts)]}
                                                     for r, ts in enumerate(rows)]} for n, rows in enumerate(SHEETS)]
            _BOOK[fmt] = W.build({"sheets": sheets, "styles": {"fmts": {}, "xfs": [0, 14]}, "sst": [{"runs": [x]} for x in ("A", "null", "C")]}, fmt)
        readers = {1: cls(io.BytesIO(_BOOK[fmt])), 2: cls(io.BytesIO(_BOOK[fmt]), null_values=["null"])}
        its: dict = {}
        got = []
        with readers[1], readers[2]:
            for o in case["log"]:
                wbk = readers.get(o.get("b"))
                kw = {"take_rows_non_empty": False, **WINDOWS[o.get("w", "all")]}
                try:
                    if o["op"] == "start":
                        its[o["i"]] = (wbk, wbk.iter_worksheet(o["s"] - 1 if case.get("byname") else f"S{o['s']}", **kw))
                        ans = []
                    elif o["op"] == "next":
                        c = next(its[o["i"]][1], None)
                        ans = ["end"] if c is None else _token(its[o["i"]][0], fmt, c)
                    elif o["op"] == "close":
                        _, x = its.pop(o["i"])
                        if case.get("close"):
                            x.close()
                        del x
                        ans = []
                    elif o["op"] == "whole":
                        ans = [_token(wbk, fmt, c) for c in wbk.iter_worksheet(o["s"] - 1, **kw)]
                    elif o["op"] == "names":
                        ans = list(wbk.sheets)
                    elif o["op"] == "shared":
                        _ = wbk.shared
                        ans = []
                    else:
                        try:
                            list(wbk.iter_worksheet(o["s"] - 1, row_callback=lambda: 1 / 0))
                            ans = ["ended"]
                        except ZeroDivisionError:
                            ans = ["raised"]
                except Exception as e:  # noqa: BLE001
                    ans = [real.err_name(e)]
                got.append(ans)
        out[fmt] = got
    return out


# ---------------------------------------------------------------------- random sessions
def _cell(wbk, c):
    """What a cell says, however it is stored."""
    v = c.val
    return [c.row, c.col, c.xdt, v if isinstance(v, str) else bytes(v).hex()]


def _walk_kw(a):
    kw = {"skip_rows": a["skip"], "take_rows": a["take"], "take_rows_non_empty": a["keep"]}
    if a["skipcols"]:
        kw["skip_cols"] = list(a["skipcols"])
    return kw


def do_sessions(case):
    """A random session: ops with their answers."""
    from rxls.reader import read

    fmt = case["fmt"]
    cls = _classes()[fmt]
    data = W.build(case["book"], fmt)
    folder = Path(tempfile.mkdtemp(prefix="verif-sess-"))
    sys.setswitchinterval(1e-5 if case.get("switch") else 0.005)
    opened = []
    try:
        path = folder / f"{'книга 1' if case['odd'] else 'book'}.{fmt}"
        path.write_bytes(data)
        stream = io.BytesIO(data)
        opened.append(handle := path.open("rb"))

        def source(k):
            if k == "str":
                return str(path)
            if k == "path":
                return path
            if k == "handle":
                handle.seek(case["seek"] % len(data))
                return handle
            if k == "own":
                return io.BytesIO(data)
            stream.seek(case["seek"] % len(data))
            return stream

        def nulls(b):
            return [dec(x) for x in case["nulls"][b]]

        readers = []
        for b in range(len(case["nulls"])):
            r = cls({"str": str(path), "path": path}.get(case["via"][b]) or io.BytesIO(data), null_values=nulls(b))
            r.__enter__()
            readers.append(r)
        # every walk on its own, with a fresh reader
        lone: dict = {}

        def alone(b, s, a):
            key = (b, s, str(a))
            if key not in lone:
                with cls(io.BytesIO(data), null_values=nulls(b)) as w:
                    lone[key] = [_cell(w, c) for c in w.iter_worksheet(s, **_walk_kw(a))]
            return lone[key]

        its: dict = {}

        def do(o):
            """Answer, and whether the cells are those of a lone walk."""
            k = o["op"]
            if k == "start":
                its[o["i"]] = [readers[o["b"]].iter_worksheet(o["s"], **_walk_kw(o["a"])), alone(o["b"], o["s"], o["a"]), 0]
                return [], True
            if k == "next":
                it = its[o["i"]]
                c = next(it[0], None)
                if c is None:
                    return [], it[2] == len(it[1])
                it[2] += 1
                return [c.row, c.col], it[2] <= len(it[1]) and _cell(None, c) == it[1][it[2] - 1]
            if k == "drop":
                x = its.pop(o["i"])
                if o["how"]:
                    x[0].close()
                return [], True
            if k == "whole":
                got = [_cell(None, c) for c in readers[o["b"]].iter_worksheet(o["s"], **_walk_kw(o["a"]))]
                return [x[:2] for x in got], got == alone(o["b"], o["s"], o["a"])
            if k == "names":
                return [enc(x) for x in readers[o["b"]].sheets], True
            if k == "fail":
                n = [0]

                def cb():
                    n[0] += 1
                    if n[0] == o["k"]:
                        raise KeyError("stop")

                try:
                    for _ in readers[o["b"]].iter_worksheet(o["s"], row_callback=cb, **_walk_kw(o["a"])):
                        pass
                except KeyError:
                    return ["raised"], True
                return ["ended"], True
            if k == "read":
                (header,), kw = real.read_kwargs(o["a"])
                try:
                    return real.table_obs(read(source(o["src"]), o["s"] if o["how"] else case["names_raw"][o["s"]], header, **kw)), True
                except Exception as e:  # noqa: BLE001
                    return {"ok": False, "err": real.err_name(e)}, True
            raise ValueError(k)

        ops = []
        same = True
        for o in case["ops"]:
            if o["op"] == "threads":
                res: dict = {}

                def go(n, part):
                    res[n] = []
                    for x in part:
                        try:
                            res[n].append(do(x))
                        except BaseException as e:  # noqa: BLE001
                            res[n].append(([repr(e)], False))

                ts = [threading.Thread(target=go, args=(n, part), daemon=True) for n, part in enumerate(o["parts"])]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(60)
                if any(t.is_alive() for t in ts):
                    return {"ok": False, "err": "HANG"}
                for n, part in enumerate(o["parts"]):
                    for x, (ans, eq) in zip(part, res[n]):
                        ops.append({**x, "ans": ans})
                        same = same and eq
            else:
                try:
                    ans, eq = do(o)
                except Exception as e:  # noqa: BLE001
                    ans, eq = [repr(e)], False
                ops.append({**o, "ans": ans})
                same = same and eq
        for x in its.values():
            x[0].close()
        for r in readers:
            r.__exit__(None, None, None)
        whole = []
        for f in (stream, handle):
            f.seek(0)
            whole.append(not f.closed and f.read() == data)
        ops.append({"op": "check", "ans": ["same" if same else "different cells"]})
        ops.append({"op": "check", "ans": ["same" if all(whole) and path.read_bytes() == data else "stream unusable"]})
        return {"ok": True, "ops": ops}
    finally:
        for f in opened:
            f.close()
        shutil.rmtree(folder, ignore_errors=True)


def do_crowd(case):
    """Several threads walk one large sheet at a time, on one open reader or one file."""
    from kinds_pkg import _pipe_book

    out = {}
    for fmt, cls in _classes().items():
        key = (fmt, case["rows"], case["width"])
        if key not in _BOOK:
            _BOOK[key] = _pipe_book({"rows": [case["width"]] * case["rows"], "fault": "no", "at": 0, "how": 0}, fmt)
        data = _BOOK[key]
        folder = tempfile.mkdtemp(prefix="verif-crowd-")
        sys.setswitchinterval(1e-4)
        try:
            path = os.path.join(folder, "b." + fmt)
            with open(path, "wb") as f:
                f.write(data)
            src = path if case["path"] else io.BytesIO(data)
            one = cls(src) if case["one"] else None
            res: dict = {}

            def walk(k, take):
                n, bad, end = 0, 0, "closed"
                try:
                    w = one if one is not None else cls(path).__enter__()
                    it = w.iter_worksheet(0)
                    try:
                        while n < take:
                            c = next(it)
                            n += 1
                            v = c.val if isinstance(c.val, str) else bytes(c.val).decode()
                            bad += (v, c.row, c.col) != (f"c{n}", (n - 1) // case["width"], (n - 1) % case["width"])
                        it.close()
                    except StopIteration:
                        end = "ended"
                    if one is None:
                        w.__exit__(None, None, None)
                except Exception as e:  # noqa: BLE001
                    end = repr(e)
                res[k] = [n, bad, end]

            if one is not None:
                one.__enter__()
            ts = [threading.Thread(target=walk, args=(k, t), daemon=True) for k, t in enumerate(case["takes"])]
            for t in ts:
                t.start()
            for t in ts:
                t.join(50)
            if one is not None:
                one.__exit__(None, None, None)
            out[fmt] = [res.get(k, ["HANG"]) for k in range(len(ts))]
        finally:
            shutil.rmtree(folder, ignore_errors=True)
    return out
