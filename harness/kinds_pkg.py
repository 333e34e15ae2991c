"""Kinds about packages: which part a selection reads, incomplete workbooks, failing reads, sessions."""
from __future__ import annotations

import io

import real
import wb as W
from txt import dec, enc


def _aim(t, ext):
    return ("/" if t["abs"] else "") + "/".join(t["segs"]) + ext


def _path(t):
    out = []
    for s in t["segs"] if t["abs"] else ["xl", *t["segs"]]:
        if s == "..":
            del out[-1:]
        elif s != ".":
            out.append(s)
    return "/".join(out)


def _sheet_bytes(text, fmt):
    sh = {"name": "S", "rows": [{"r": 0, "cells": [{"c": 0, "k": "str", "t": text, "s": 0, "rec": "st"}]}]}
    return W.xlsx_sheet(sh) if fmt == "xlsx" else W.xlsb_sheet(sh)


DECOYS = ["xl/sheet1", "worksheets/sheet1", "worksheets/sheet2", "worksheets/sheet10", "xl/xl/worksheets/sheet2", "other/sheet1", "xl/other/sheet1",
          "sheet1", "xl/worksheets/sheet1", "xl/worksheets/sheet2", "xl/worksheets/sheet10", "xl/worksheets/sheet3"]


def package(case, fmt):
    """The package of a case; the only text of every part is its own path."""
    ext = ".xml" if fmt == "xlsx" else ".bin"
    extra = {p + ext: _sheet_bytes(p, fmt) for p in DECOYS}
    by = {r["id"]: r for r in case["rels"]}
    sheets = []
    for i, e in enumerate(case["entries"]):
        r = by[e["rid"]]
        sheets.append({"name": e["name"], "rid": e["rid"], "kind": r["type"], "path": f"unused/{i}", "rows": [], "state": e["state"] if "state" in e else (len(case["rels"]) + i + len(e["name"]) + len(e["rid"])) % 3})
    for r in case["rels"]:
        p = _path(r["target"])
        if r["type"] == "worksheet":
            extra[p + ext] = _sheet_bytes(p, fmt)
        else:
            extra[p + ext] = b"<chartsheet/>" if fmt == "xlsx" else W.rec(0x181) + W.rec(0x182)
    book = {"sheets": sheets, "rels": [[r["id"], r["type"], _aim(r["target"], ext)] for r in case["rels"]], "extra": extra,
            "drop": [s["path"] for s in sheets], "styles": {"fmts": {}, "xfs": [0]}, "sst": []}
    if case.get("strict"):
        book["rels_ns"] = "http://purl.oclc.org/ooxml/officeDocument/relationships"
    return W.build(book, fmt)


def do_package(case):
    """Every selection on the package, in both formats."""
    from rxls.reader import read
    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook

    out = {}
    for fmt, cls in (("xlsx", XlsxWorkbook), ("xlsb", XlsbWorkbook)):
        data = package(case, fmt)
        got, tabs = [], []
        with cls(io.BytesIO(data)) as wbk:
            for k, sel in enumerate(case["sels"]):
                s = sel["i"] if sel["k"] == "i" else dec(sel["n"])
                try:
                    cells = list(wbk.iter_worksheet(s))
                    v = [x.val if isinstance(x.val, str) else bytes(x.val).decode() for x in cells]
                    got.append(v[0].split("/") if len(v) == 1 else v)
                except Exception as e:  # noqa: BLE001
                    got.append([real.err_name(e)])
                if case["tables"] == "all" or k in case["tables"]:
                    try:
                        t = read(io.BytesIO(data), s, 0)
                        tabs.append([k, *[x for c in t.columns for x in c.to_pylist()]])
                    except Exception as e:  # noqa: BLE001
                        tabs.append([k, real.err_name(e)])
            names = [enc(x) for x in wbk.sheets]
        out[fmt] = {"listed": names, "got": got, "tables": [[k, *x[0].split("/")] if len(x) == 1 else [k, *x] for k, *x in tabs]}
    return out


# ---------------------------------------------------------------------- C28: incomplete files
NEAR = ["XL/workbook.xml", "xl/Workbook.bin", "workbook.xml", "xl/worksheets/workbook.bin", "xl/workbook.xml.bak", "word/document.xml"]


def _parts(data):
    import zipfile

    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return {n: z.read(n) for n in z.namelist()}


_OPEN: dict = {}


def _open_parts():
    if not _OPEN:
        book = {"sheets": [{"name": "S", "rows": [{"r": 0, "cells": [{"c": 0, "k": "str", "t": "v", "s": 0, "rec": "st"}]}]}],
                "styles": {"fmts": {}, "xfs": [0]}, "sst": []}
        for fmt in ("xlsx", "xlsb"):
            _OPEN[fmt] = _parts(W.build(book, fmt))
    return _OPEN


def _outcome(fn):
    try:
        got = fn()
    except AssertionError:
        return "AssertionError"
    except Exception:  # noqa: BLE001
        return "error"
    return got


def _read_all(data, reader):
    from rxls.reader import read
    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook

    def go():
        if reader == "read":
            t = read(io.BytesIO(data), 0, 0)
            return "table" if t.num_columns == 1 and t.column(0).to_pylist() == ["v"] else f"table {t.to_pydict()}"
        with (XlsxWorkbook if reader == "xlsx" else XlsbWorkbook)(io.BytesIO(data)) as w:
            got = [x.val if isinstance(x.val, str) else bytes(x.val).decode() for x in w.iter_worksheet(0)]
        return "table" if got == ["v"] else f"table {got}"

    return _outcome(go)


def do_open(case):
    """Opens a file of the given parts."""
    src = _open_parts()
    parts = {"[Content_Types].xml": b"<Types/>"}
    for fmt, ext in (("xlsx", "xml"), ("xlsb", "bin")):
        p = src[fmt]
        names = {ext: f"xl/workbook.{ext}", "rels": f"xl/_rels/workbook.{ext}.rels", "sheet": f"xl/worksheets/sheet1.{ext}",
                 "sst": f"xl/sharedStrings.{ext}", "styles": f"xl/styles.{ext}"}
        for k, n in names.items():
            if k in case["parts"]:
                parts[n] = p[n]
    if "near" in case["parts"]:
        for n in NEAR:
            parts[n] = src["xlsx"]["xl/workbook.xml"] if n.endswith("l") else src["xlsb"]["xl/workbook.bin"]
    data = W._zip(parts)
    if case["archive"] == "cut":
        return {"got": sorted({_read_all(data[:max(0, len(data) * k // 37 - 1)], case["reader"]) for k in range(38)})}
    if case["archive"] == "none":
        return {"got": [_read_all(b"", case["reader"])]}
    if case["archive"] == "text":
        return {"got": [_read_all(b"a;b;c\n1;2;3\n" * 50, case["reader"])]}
    return {"got": [_read_all(data, case["reader"])]}


def do_cuts(case):
    """Every cut of one file: none of them may read as a workbook."""
    data = W._zip(_open_parts()[case["fmt"]])
    return {"got": [n for n in range(case["from"], min(case["to"], len(data))) if _read_all(data[:n], "read") != "error"], "size": len(data)}


# ---------------------------------------------------------------------- C20: schedules and faults
class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


class Halt(BaseException):
    pass


def _errors():
    return [Odd(1, 2), ValueError("v"), KeyError("k"), RuntimeError(), Halt("h"), SystemExit(3), KeyboardInterrupt(), OSError(5, "io"), UnicodeDecodeError("u", b"", 0, 1, "r"),
            EOFError(), MemoryError(), IndexError("i"), AssertionError("a"), AttributeError("x")]


def _pipe_part(case, fmt):
    """The sheet part of a case: texts c1, c2, ... ; damaged before a row when asked for."""
    rows, n = [], 0
    for r, k in enumerate(case["rows"]):
        cells = []
        for j in range(k):
            n += 1
            cells.append({"c": j, "k": "str", "t": f"c{n}", "s": 0, "rec": "st"})
        rows.append({"r": r, "cells": cells, "open": True})
    sh = {"name": "S", "rows": rows}
    if case["fault"] != "text":
        return W.xlsx_sheet(sh) if fmt == "xlsx" else W.xlsb_sheet(sh)
    n, how = case["at"], case["how"]
    if fmt == "xlsx":
        data = W.xlsx_sheet(sh)
        i = -1
        for _ in range(n):
            i = data.find(b"<row", i + 1)
        if n > len(rows):
            i = data.index(b"</sheetData>")
        return [data[:i], data[:i] + b"<", data[:i] + b"</x>" + data[i:], data[:i] + b"\xff\xfe" + data[i:], data[:i] + b"&nosuch;" + data[i:],
                data[:i] + b"<row r=" + data[i:], data[:i] + b"\x00" + data[i:]][how % 7]
    head = W.xlsb_sheet({"name": "S", "rows": rows[:n - 1]})
    i = len(head) - len(W.rec(402) + W.rec(0x1DC, b"\x00" * 48) + W.rec(0x182))
    return head[:i] + [b"", b"\x00", b"\x00\x19\x00\x00", b"\x92", b"\x00\xff\xff\xff\x7f"][how % 5]


def _pipe_book(case, fmt):
    ext = "xml" if fmt == "xlsx" else "bin"
    return W.build({"sheets": [{"name": "S", "rows": []}], "styles": {"fmts": {}, "xfs": [0]}, "sst": [],
                    "extra": {f"xl/worksheets/sheet1.{ext}": _pipe_part(case, fmt)}}, fmt)


def do_pipe(case):
    """Runs one schedule on both readers: who goes when is decided here, through the row callback."""
    import queue
    import threading
    import time

    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook

    out = {}
    for fmt, cls in (("xlsx", XlsxWorkbook), ("xlsb", XlsbWorkbook)):
        boom = _errors()[case["err"] % 14]
        go, here = threading.Semaphore(0), threading.Semaphore(0)
        calls = [0]

        def cb():
            calls[0] += 1
            here.release()
            if fmt == "xlsx":
                go.acquire()
            if case["fault"] == "call" and calls[0] == case["at"]:
                raise boom

        def null(s):
            if case["fault"] == "null" and s == f"c{case['at']}":
                raise boom
            return False

        before = set(threading.enumerate())
        asks: queue.SimpleQueue = queue.SimpleQueue()
        answers: queue.SimpleQueue = queue.SimpleQueue()
        with cls(io.BytesIO(_pipe_book(case, fmt)), null_values=null) as wbk:
            it = wbk.iter_worksheet(0, row_callback=cb)

            def consume():
                while (what := asks.get()) != "stop":
                    try:
                        if what == "close":
                            it.close()
                            answers.put("closed")
                        else:
                            c = next(it)
                            answers.put(c.val if isinstance(c.val, str) else bytes(c.val).decode())
                    except StopIteration:
                        answers.put("ended")
                    except BaseException as e:  # noqa: BLE001
                        answers.put("failed" if case["fault"] == "text" or e is boom else f"other error {e!r}")

            t = threading.Thread(target=consume, daemon=True)
            t.start()
            got, owed, late = [], 0, 0

            def take(limit):
                nonlocal owed
                try:
                    got.append(answers.get(timeout=limit))
                    owed -= 1
                except queue.Empty:
                    pass

            for step in case["log"]:
                if step == "work":
                    go.release()
                    if fmt == "xlsx":
                        here.acquire(timeout=0.003)
                else:
                    if owed:
                        take(5)
                    asks.put(step)
                    owed += 1
                    late += 1
                    if case.get("pause") == late:
                        time.sleep(1.2)
                    if fmt == "xlsx" and late == 1:
                        here.acquire(timeout=1)
                if owed and not answers.empty():
                    take(1)
            for _ in range(99):
                go.release()
            deadline = time.time() + 10
            while owed and time.time() < deadline:
                take(1)
            asks.put("stop")
            hang = owed > 0
        left = [x for x in set(threading.enumerate()) - before if x is not t]
        for x in left:
            x.join(5)
        out[fmt] = {"got": [x for x in got if x not in ("ended", "failed", "closed")], "end": "HANG" if hang else got[-1] if got else "nothing",
                    "left": sum(x.is_alive() for x in left)}
    return out


class _Faulty(io.BytesIO):
    """A file whose k-th read fails."""

    def __init__(self, data, k, boom):
        super().__init__(data)
        self.k, self.boom, self.n = k, boom, 0

    def _count(self):
        self.n += 1
        if self.n == self.k:
            raise self.boom

    def read(self, *a):
        self._count()
        return super().read(*a)

    def readinto(self, b):
        self._count()
        return super().readinto(b)


def _points(n, most, r):
    """Some of the points 1..n+2, the first and the last ones always among them."""
    if n + 2 <= most:
        return list(range(1, n + 3))
    return sorted({1, 2, n - 1, n, n + 1, n + 2, *r.sample(range(3, n - 1), most - 6)})


def do_faults(case):
    """One read, and the same read with every fault in turn."""
    import random
    import threading

    from rxls.reader import read

    r = random.Random(case["id"])
    data = W.build(case["book"], case["fmt"])
    base = real.read_case({**case, "a": {**case["a"], "cb": True}}, data)
    plain = {**base, "cb": 0}
    (header,), kw0 = real.read_kwargs(case["a"])
    before = set(threading.enumerate())
    nulls = {dec(x) for x in case["a"]["nulls"]}

    def run(src, boom, raised, **more):
        try:
            got = real.table_obs(read(src, case.get("sheet", 0), header, **{**kw0, **more}))
        except BaseException as e:  # noqa: BLE001
            if raised():
                return "same" if e is boom else "error"
            got = {"ok": False, "err": real.err_name(e), "msg": enc(str(e)[:200])}
        got["cb"] = 0
        return ("lost " if raised() else "") + ("base" if got == plain else "other")

    def counting(k, boom, value):
        n = [0]

        def fn(*a):
            n[0] += 1
            if n[0] == k:
                raise boom
            return value(*a)

        return fn, n

    out = {"base": base, "calls": [], "nulls": [], "reads": [], "cuts": []}
    errs = _errors()
    for k in _points(base["cb"], 30, r):
        boom = errs[r.randrange(len(errs))]
        fn, n = counting(k, boom, lambda: None)
        out["calls"].append([k, run(io.BytesIO(data), boom, lambda: n[0] >= k, row_callback=fn)])
    fn, n = counting(-1, None, nulls.__contains__)
    out["nulls"].append([0, run(io.BytesIO(data), None, lambda: False, null_values=fn)])
    for k in _points(n[0], 16, r):
        boom = errs[r.randrange(len(errs))]
        fn, m = counting(k, boom, nulls.__contains__)
        out["nulls"].append([int(k <= n[0]), run(io.BytesIO(data), boom, lambda: m[0] >= k, null_values=fn)])
    src = _Faulty(data, -1, None)
    run(src, None, lambda: False)
    total = src.n
    for k in _points(total, 14, r):
        boom = OSError(5, "io") if r.random() < 0.7 else r.choice([x for x in errs if type(x) is not IndexError])   # a file does not raise IndexError
        src = _Faulty(data, k, boom)
        out["reads"].append([int(k <= total), run(src, boom, lambda: src.n >= k)])
    # parts cut short inside a sound archive
    parts = _parts(data)
    ext = "xml" if case["fmt"] == "xlsx" else "bin"
    sheet = f"xl/worksheets/sheet1.{ext}"
    for name, most in ((sheet, 24), (f"xl/sharedStrings.{ext}", 6), ("xl/styles.xml", 4)):
        if name not in parts:
            continue
        whole = parts[name]
        if name == sheet:
            if ext == "xml":
                a, b = whole.index(b"<sheetData"), whole.find(b"</sheetData>")
                b = a + 12 if b < 0 else b + len(b"</sheetData>")     # the cut is inside up to here
            else:
                a, b = len(W.xlsb_sheet({"name": "S", "rows": []})) - len(W.rec(402) + W.rec(0x1DC, b"\x00" * 48) + W.rec(0x182)), 0
                b = len(whole) - len(W.rec(0x1DC, b"\x00" * 48) + W.rec(0x182))
        else:
            a, b = 0, len(whole)
        if a >= b:
            continue
        for n in sorted({0, a, b - 1, *r.sample(range(a, b), min(most, b - a))}):
            got = run(io.BytesIO(W._zip({**parts, name: whole[:n]})), None, lambda: False)
            if got == "other":
                try:
                    read(io.BytesIO(W._zip({**parts, name: whole[:n]})), case.get("sheet", 0), header, **kw0)
                except BaseException:  # noqa: BLE001
                    got = "error"
            out["cuts"].append([int(name == sheet), got])
    left = [x for x in set(threading.enumerate()) - before]
    for x in left:
        x.join(5)
    out["left"] = sum(x.is_alive() for x in left)
    out["ok"] = base["ok"]
    out["err"] = base.get("err", "")
    return out


_BIG: dict = {}


def do_big(case):
    """One read of a large sheet, both formats: taken in part or whole, at different paces."""
    import threading
    import time

    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook

    out = {}
    for fmt, cls in (("xlsx", XlsxWorkbook), ("xlsb", XlsbWorkbook)):
        key = (fmt, case["rows"], case["width"], case["at"] if case["fault"] == "text" else 0)
        if key not in _BIG:
            if len(_BIG) > 3:
                _BIG.clear()
            _BIG[key] = _pipe_book({"rows": [case["width"]] * case["rows"], "fault": case["fault"] if case["fault"] == "text" else "no",
                                    "at": case["at"], "how": case["how"]}, fmt)
        boom = _errors()[case["err"] % 14]
        calls = [0]

        def cb():
            calls[0] += 1
            if case["pace"] == "slow parser" and calls[0] % 997 == 0:
                time.sleep(0.002)
            if case["fault"] == "call" and calls[0] == case["at"]:
                raise boom

        def null(s):
            if case["fault"] == "null" and s == f"c{case['at']}":
                raise boom
            return False

        def rest():
            """Until the parser has done all it can do while nobody takes anything."""
            calm = 0
            while calm < 40 and any(x.is_alive() for x in set(threading.enumerate()) - before):
                k = calls[0]
                time.sleep(0.02)
                calm = 0 if calls[0] != k else calm + 1

        before = set(threading.enumerate())
        n, bad, end = 0, [], "closed"
        with cls(io.BytesIO(_BIG[key]), null_values=null) as wbk:
            it = wbk.iter_worksheet(0, row_callback=cb)
            try:
                while n < case["take"]:
                    c = next(it)
                    n += 1
                    v = c.val if isinstance(c.val, str) else bytes(c.val).decode()
                    if (v, c.row, c.col) != (f"c{n}", (n - 1) // case["width"], (n - 1) % case["width"]) and len(bad) < 3:
                        bad.append([n, v, c.row, c.col])
                    if case["pace"] == "slow consumer" and n % 997 == 0:
                        time.sleep(0.002)
                    if case["pace"] == "stalled" and n == 1:
                        rest()
                if case["how"] % 2:
                    it.close()
                del it
            except StopIteration:
                end = "ended"
            except BaseException as e:  # noqa: BLE001
                end = "failed" if case["fault"] == "text" or e is boom else f"other error {e!r}"
            if case["pace"] == "slow consumer":
                time.sleep(0.02)
        left = [x for x in set(threading.enumerate()) - before]
        for x in left:
            x.join(20)
        out[fmt] = {"got": n, "end": end, "left": sum(x.is_alive() for x in left), "bad": bad}
    return out
