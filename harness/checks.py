"""The check of every property: which models are explored, what is replayed, what is recorded and judged."""
from __future__ import annotations

import json

from ctx import Ctx

CHECKS: dict = {}
NOTES: dict = {}


def check(prop):
    def wrap(fn):
        CHECKS[prop] = fn
        return fn

    return wrap


def spoil(ln):
    """A corrupted copy of a recorded read (None: not usable)."""
    o = ln["obs"]
    if not o.get("ok") or not o["cols"]:
        return None
    for col in o["cols"]:
        for i, v in enumerate(col):
            if v != "~":
                col[i] = v + "?"
                return ln
    return None


def reads(ctx: Ctx, name: str, profile: dict, n: int, tweak=None):
    """Random reads of one profile, judged by ReadTrace."""
    cases = []
    for i in range(n):
        g = ctx.rng(f"{name}:{i}")
        c = g.case(f"{name}{i}", profile)
        if tweak:
            c = tweak(g, c)
        cases.append(c)
    ctx.validate(name, "ReadTrace", "read", cases, corrupt=spoil)


# ---------------------------------------------------------------------- C02: row windows
@check("C02")
def c02(ctx: Ctx):
    em = ctx.model("WalkMC")
    if ctx.deep:
        ctx.model("WalkMC", "WalkMC_deep.cfg")
    by: dict = {}
    for e in em:
        by.setdefault(str(e["rs"]), []).append(e)
    cases = []
    for k, es in by.items():
        cases.append({"rs": es[0]["rs"], "qs": [e["q"] for e in es], "out": [e["out"] for e in es]})

    def want(c, o):
        for fmt in ("xlsx", "xlsb"):
            for q, out, res in zip(c["qs"], c["out"], o.get(fmt) or [{}] * len(c["qs"])):
                w = [[r["row"], r["i"] - 1] for r in out]
                if res.get("rows") != w:
                    return {"fmt": fmt, "q": q, "rows": w, "got": res}
        return None

    ctx.replay("rows of both readers", "walk", cases, want, weight=lambda c: 2 * len(c["qs"]))
    reads(ctx, "window", {"p_window": 1.0, "p_keep": 0.5, "gap": 0.4, "emptyrow": 0.3, "maxrows": 9, "p_conf": 0.2, "p_lookup": 0.1,
                          "p_filter": 0.1, "p_dtypes": 0.05}, ctx.size(600, 8000))
    scale(ctx, "window", ctx.size(300000, 3000000))


def assemble(emitted: list) -> list:
    """Puts the short lines of a model of reads together: one case per workbook."""
    reqs, by, wants = None, {}, {}
    for e in emitted:
        if "reqs" in e:
            reqs = e["reqs"]
        elif "w" in e:
            by[e["k"]] = e["w"]
        else:
            wants.setdefault(e["k"], []).append((e["i"], e["want"]))
    out = []
    for k in sorted(by):
        out.append({**by[k], "reqs": [{"a": reqs[i - 1], "want": w} for i, w in sorted(wants[k], key=lambda x: x[0])]})
    return out


def tables(ctx: Ctx, name: str, emitted: list, limit: float = 60.0):
    """Replay emitted workbooks and requests; every table read must be one of those the model allows."""
    emitted = assemble(emitted)

    def want(c, o):
        got = o.get("reads")
        if got is None:
            return "answers to every request"
        for r, x in zip(c["reqs"], got):
            if not any(same_table(x, w) for w in r["want"]):
                return {"a": {k: v for k, v in r["a"].items()}, "want": r["want"], "got": x}
        return None

    ctx.replay(name, "tables", emitted, want, limit=limit, weight=lambda c: len(c["reqs"]))


def scale(ctx: Ctx, cfg: str, rows: int, fmts=("xlsx", "xlsb"), name: str | None = None, pick=None):
    """Sheets of any size: as many of the emitted ones as a budget of rows allows, of every size, drawn by seed."""
    em = [e for e in ctx.model("ScaleMC", f"ScaleMC_{cfg}.cfg") if not pick or pick(e)]
    g = ctx.rng("scale " + cfg).r
    by: dict = {}
    for e in sorted(em, key=lambda e: json.dumps(e, sort_keys=True)):
        n = sum(b[0] for b in e["bands"] if b[1] != "none" or b[2] != "none" or e["q"]["keep"])
        by.setdefault(0 if n < 1000 else 1 if n < 20000 else 2 if n < 100000 else 3, []).append((n + 40, e))
    cases = []
    for k, part in (0, .1), (1, .4), (2, .4), (3, .1):
        es, left = by.get(k, []), rows * len(fmts) * part
        g.shuffle(es)
        # the kinds of the long bands take turns
        turn: dict = {}
        key = {}
        for n, e in es:
            kinds = str([(b[0] > 1000, b[1]) for b in e["bands"]] if k == 1 else sorted({b[1] for b in e["bands"] if b[0] > 1000}))
            turn[kinds] = key[id(e)] = turn.get(kinds, 0) + 1
        es.sort(key=lambda x: key[id(x[1])])
        for n, e in es:
            left -= n * len(fmts)
            if left < 0 and k == 0:
                break
            pos = g.choice([(0, 1), (1, 0), (0, 300), (16383, 2), (25, 26), (702, 701)])
            cases.append({"bands": e["bands"], "q": e["q"], "want": e["want"], "left": e["left"], "at": list(pos), "alt": g.randrange(2), "fmts": list(fmts)})
            if left < 0:
                break
    cases.sort(key=lambda c: -sum(b[0] for b in c["bands"]))

    def want(c, o):
        w = c["want"]
        e = {"ok": False, "err": w["err"]} if not w["ok"] else {"ok": True, "len": w["len"], "cols": w["a"] + w["b"]}
        if w["ok"] and c["q"]["head"]:
            e["names"] = w["names"]
        for fmt in c["fmts"]:
            if o.get(fmt) != e:
                return {"fmt": fmt, **e}
        return None

    ctx.replay(name or f"sheets of any size: {cfg}", "scale", cases, want, limit=120, weight=lambda c: len(fmts))


def masks(ctx: Ctx):
    """Filters over many columns."""
    em = ctx.model("MaskMC") + (ctx.model("MaskMC", "MaskMC_deep.cfg") if ctx.deep else [])
    g = ctx.rng("masks").r
    by: dict = {}
    for e in sorted(em, key=json.dumps):
        by.setdefault(e["n"], []).append(e)
    cases = []
    for n, es in by.items():
        g.shuffle(es)
        for k in range(0, len(es), 40):
            part, qs = es[k:k + 40], []
            for e in part:
                is_ = list(e["is"])
                if g.random() < .5:
                    g.shuffle(is_)
                one = set(e["ops"])
                qs.append({"is": is_, "how": g.choice(["ints", "names", "one"]),
                           "strat": one.pop() if len(one) == 1 and g.random() < .5 else e["ops"] if len(is_) > 1 else g.choice(["and", "or"])})
            for fmt in ("xlsx", "xlsb"):
                cases.append({"n": n, "fmt": fmt, "mix": g.randrange(4), "qs": qs, "out": [e["out"] for e in part]})

    def want(c, o):
        for q, w, x in zip(c["qs"], c["out"], o.get("res") or [None] * len(c["qs"])):
            if w != x:
                return {**q, "want": w, "got": x}
        return None

    ctx.replay("filters over many columns", "mask", cases, want, weight=lambda c: len(c["qs"]))


def same_table(x: dict, w: dict) -> bool:
    if w["ok"]:
        return x["ok"] and x["names"] == w["names"] and x["types"] == w["types"] and x["cols"] == w["cols"]
    return not x["ok"] and x["err"] == w["err"]


# ---------------------------------------------------------------------- C05: header names
@check("C05")
def c05(ctx: Ctx):
    em = ctx.model("HeadMC") + ctx.model("HeadMC", "HeadMC_1.cfg") + ctx.model("HeadMC", "HeadMC_3.cfg")

    def want(c, o):
        w = {"names": c["names"], "cols": [[f"'d{j}"] for j in range(len(c["grid"]))]}
        for fmt in ("xlsx", "xlsb"):
            x = o.get(fmt, {})
            if {"names": x.get("names"), "cols": x.get("cols")} != w:
                return {"fmt": fmt, **w}
        return None

    ctx.replay("header names", "head", em, want, weight=lambda c: 2)
    reads(ctx, "header", {"p_header": 1.0, "headrows": 4, "hole": 0.35, "maxcols": 6, "minrows": 1, "p_lookup": 0.15, "p_conf": 0.3},
          ctx.size(500, 8000))
    reads(ctx, "wide header", {"p_header": 1.0, "headrows": 2, "hole": 0.15, "mincols": 11, "maxcols": 40, "minrows": 1, "maxrows": 3, "p_conf": 0.2,
                               "p_lookup": 0.1, "p_filter": 0.05, "p_skipcols": 0.05, "headwords": 1}, ctx.size(300, 4000))
    scale(ctx, "head", ctx.size(300000, 3000000))


# ---------------------------------------------------------------------- C06: header lookup
@check("C06")
def c06(ctx: Ctx):
    tables(ctx, "lookup in xlsx", ctx.model("LookMC"))
    tables(ctx, "lookup in xlsb", ctx.model("LookMC", "LookMC_b.cfg"))
    reads(ctx, "lookup", {"p_lookup": 1.0, "p_header": 0.7, "minrows": 2, "maxrows": 9, "headrows": 3, "p_conf": 0.3, "p_filter": 0.1},
          ctx.size(500, 8000))

    def late(g, c):
        """The header looked for stands around the end of the rows that are searched by default."""
        at = g.r.choice([28, 29, 29, 30, 30, 31, g.r.randrange(20, 36)]) + c["a"]["skip"] * g.r.choice([0, 1])
        col = g.r.randrange(2)
        c["rows"] = [x for x in c["rows"] if x["r"] != at] + [{"r": at, "cells": [{"c": col, "k": "str", "t": "here", "s": 0, "rec": "st"}]}]
        c["rows"].sort(key=lambda x: x["r"])
        c["book"]["sheets"][0]["rows"] = c["rows"]
        lk = c["a"]["lookup"]
        if lk["k"] == "re":
            lk["p"] = {"k": "exact", "s": "here"}
        else:
            lk["n"] = col
        lk["size"] = g.r.choice([30, 30, 30, 29, 31])
        return c

    reads(ctx, "late headers", {"p_lookup": 1.0, "p_header": 0.7, "maxrows": 5, "headrows": 0, "p_window": 0.3, "p_filter": 0.1, "p_keep": 0.6,
                                "p_conf": 0.1, "p_dtypes": 0.0, "maxcols": 3}, ctx.size(400, 4000), tweak=late)
    scale(ctx, "look", ctx.size(250000, 3000000))


# ---------------------------------------------------------------------- C01: every cell
@check("C01")
def c01(ctx: Ctx):
    em = ctx.model("CellMC")
    tables(ctx, "kinds of cells", em)
    tables(ctx, "three cells", ctx.model("CellMC", "CellMC_3.cfg"))
    if ctx.deep:
        ctx.model("CellMC", "CellMC_deep.cfg")
    reads(ctx, "cells", {"maxcols": 6, "maxrows": 9, "hole": 0.3, "gap": 0.2, "p_conf": 0.3, "p_lookup": 0.05, "p_filter": 0.05},
          ctx.size(3000, 40000))
    reads(ctx, "tall", {"maxcols": 4, "minrows": 30, "maxrows": 60, "hole": 0.2, "gap": 0.1, "p_conf": 0.3, "p_lookup": 0.05,
                        "p_filter": 0.05}, ctx.size(160, 3000))
    scale(ctx, "plain", ctx.size(250000, 3000000))
    scale(ctx, "plain3", ctx.size(250000, 3000000))


# ---------------------------------------------------------------------- C03: columns
@check("C03")
def c03(ctx: Ctx):
    tables(ctx, "sets of columns", ctx.model("ColsMC"))
    tables(ctx, "up to column XFD", ctx.model("ColsMC", "ColsMC_b.cfg"))
    em = sorted(ctx.model("LetterMC"), key=lambda e: e["c"])
    cases = []
    for k in range(0, len(em), 512):
        part = em[k:k + 512]
        cases.append({"cells": part, "skip": [e["c"] for e in part[::3]]})
        cases.append({"cells": em[k // 512::32], "skip": []})

    def want(c, o):
        w = [[0, e["c"], f"v{e['c']}"] for e in c["cells"]]
        if o.get("walk") != w:
            return {"walk": w}
        cols = [[f"'v{e['c']}"] for e in c["cells"] if e["c"] not in set(c["skip"])]
        if o["table"].get("cols") != cols:
            return {"cols": cols}
        return None

    ctx.replay("column letters", "letters", cases, want, weight=lambda c: len(c["cells"]))
    reads(ctx, "columns", {"maxcols": 8, "hole": 0.5, "p_skipcols": 0.6, "p_conf": 0.2, "p_lookup": 0.1, "p_filter": 0.1}, ctx.size(2500, 40000))


# ---------------------------------------------------------------------- C04: both formats alike
@check("C04")
def c04(ctx: Ctx):
    tables(ctx, "pairs of files", ctx.model("PairMC"))
    cases = []
    for i in range(ctx.size(2500, 40000)):
        g = ctx.rng(f"pair:{i}")
        c = g.case(f"pair{i}", {"pairs": True, "p_conf": 0.6, "p_filter": 0.25, "p_lookup": 0.25, "p_dtypes": 0.2, "maxcols": 5})
        cases.append(c)

    def corrupt(ln):
        o = ln["obs"]["xlsb"]
        if not o["ok"] or not o["cols"] or not o["cols"][0]:
            return None
        o["cols"][0][0] += "?"
        return ln

    ctx.validate("random pairs", "PairTrace", "pair", cases, corrupt=corrupt)
    scale(ctx, "conf", ctx.size(200000, 2000000))
    scale(ctx, "plain", ctx.size(300000, 3000000), pick=lambda e: any(b[1] in ("shared", "null") for b in e["bands"]))


# ---------------------------------------------------------------------- C07: row filters
@check("C07")
def c07(ctx: Ctx):
    tables(ctx, "filters", ctx.model("FiltMC"))
    if ctx.deep:
        ctx.model("FiltMC", "FiltMC_deep.cfg")
    reads(ctx, "filters", {"p_filter": 1.0, "hole": 0.35, "maxcols": 5, "minrows": 1, "maxrows": 9, "p_header": 0.6, "p_conf": 0.4,
                           "p_lookup": 0.1}, ctx.size(3000, 40000))
    masks(ctx)
    scale(ctx, "filter", ctx.size(400000, 3000000))


# ---------------------------------------------------------------------- C08: types
@check("C08")
def c08(ctx: Ctx):
    tables(ctx, "columns without conflicts", ctx.model("TypeMC"))
    reads(ctx, "numbers", {"themes": ["num", "num", "date", "gen"], "p_prec": 0.7, "p_conf": 0.1, "maxcols": 5, "p_filter": 0.1, "p_lookup": 0.05,
                           "headrows": 0}, ctx.size(3000, 40000))
    scale(ctx, "type", ctx.size(1400000, 3000000))


# ---------------------------------------------------------------------- C09: conflicts
@check("C09")
def c09(ctx: Ctx):
    tables(ctx, "mixed columns", ctx.model("ConfMC"))
    tables(ctx, "longer mixed columns", ctx.model("ConfMC", "ConfMC_4.cfg"))
    if ctx.deep:
        ctx.model("ConfMC", "ConfMC_deep.cfg")
    reads(ctx, "conflicts", {"p_conf": 1.0, "deviate": 0.5, "minrows": 2, "maxrows": 10, "p_fmts": 0.2, "p_header": 0.2, "p_lookup": 0.05,
                             "p_filter": 0.1}, ctx.size(3000, 40000))
    scale(ctx, "conf", ctx.size(400000, 3000000))


# ---------------------------------------------------------------------- C10: nulls
@check("C10")
def c10(ctx: Ctx):
    em = ctx.model("NullMC")
    tables(ctx, "null texts", em)
    tables(ctx, "null texts by a function", [{**e, "reqs": [{**a, "nullfn": True} for a in e["reqs"]]} if "reqs" in e else e for e in em])
    tables(ctx, "rows of nulls", ctx.model("NullMC", "NullMC_3.cfg"))
    reads(ctx, "nulls", {"p_nulls": 0.9, "themes": ["word", "numeral", "sst", "num", "err", "gen", "word"], "p_conf": 0.3,
                         "p_lookup": 0.1, "p_filter": 0.1}, ctx.size(3000, 40000))
    scale(ctx, "null", ctx.size(300000, 3000000))


# ---------------------------------------------------------------------- C22: dtypes
@check("C22")
def c22(ctx: Ctx):
    tables(ctx, "requested types", ctx.model("CastMC"))
    reads(ctx, "types", {"p_dtypes": 1.0, "p_conf": 0.4, "maxcols": 4, "p_header": 0.3, "p_lookup": 0.05, "p_filter": 0.1}, ctx.size(3000, 40000))


# ---------------------------------------------------------------------- C25: date texts
@check("C25")
def c25(ctx: Ctx):
    em = ctx.model("StrpMC")
    lists = next(e["lists"] for e in em if "lists" in e)
    texts = {e["t"]: e["want"] for e in em if "t" in e}
    names = sorted(texts)
    stamp0 = "'2020-01-01 00:00:00.000"
    cases = []
    for li, fmts in enumerate(lists):
        good = [t for t in names if texts[t][li] != "~"]
        r = ctx.rng(f"strp{li}").r
        cols = [[t] for t in names]
        if good:
            cols += [[t, r.choice(good)] for t in r.sample(names, min(len(names), 600))]
            cols += [[r.choice(good), r.choice(good), r.choice(good)] for _ in range(600)]
        for k in range(0, len(cols), 250):
            part = cols[k:k + 250]
            b = (k // 250) % 4
            fmt = "xlsb" if b % 2 == 0 else "xlsx"
            if fmt == "xlsx":
                part = [[t for t in c if t == t.strip()] or [names[0].strip()] for c in part]
            cases.append({"fmt": fmt, "shared": b >= 2, "fmts": fmts, "li": li, "texts": part, "fmt1": b == 1})

    def want(c, o):
        if not o.get("ok"):
            return {"ok": True}
        depth = max(len(x) for x in c["texts"])
        for j, col in enumerate(c["texts"]):
            v = [texts[t][c["li"]] if t in texts else "~" for t in col]
            w = ["18262:0"] + v if "~" not in v else [stamp0] + ["'" + t for t in col]
            w += ["~"] * (depth + 1 - len(w))
            ty = "ts" if "~" not in v else "str"
            if o["types"][j] != ty or o["cols"][j] != w:
                return {"texts": col, "type": ty, "col": w, "got": [o["types"][j], o["cols"][j]]}
        return None

    ctx.replay("date texts", "strp", cases, want, weight=lambda c: len(c["texts"]))
    reads(ctx, "stamps", {"themes": ["stamp", "date", "stamp"], "deviate": 0.1, "p_conf": 1.0, "confs": ["temporal", "all", "temporal"],
                          "p_fmts": 0.4, "p_filter": 0.1, "p_lookup": 0.05}, ctx.size(2000, 30000))


# ---------------------------------------------------------------------- C15, C16: record streams
def scans(ctx: Ctx, full: bool):
    """Streams of the bounded models: written, cut, filtered and scanned."""
    ctx.model("BiffMC")
    if ctx.deep:
        ctx.model("BiffMC", "BiffMC_deep.cfg")
    for cfg in ("BiffMC_128.cfg", "BiffMC_3.cfg", "BiffMC_bits.cfg") + (() if full else ("BiffMC_pad.cfg",)):
        by: dict = {}
        for e in ctx.model("BiffMC", cfg):
            if (e["all"] and e["cut"] == (e["ends"] or [0])[-1]) == full:
                by.setdefault(str(e["rs"]), []).append(e)
        cases = []
        for es in by.values():
            big = any(r["n"] > 100000 for r in es[0]["rs"])
            if big and not full and not ctx.deep:
                es = ctx.rng(f"big{es[0]['rs']}").r.sample(es, min(len(es), 12))
            cases.append({"rs": es[0]["rs"], "heads": es[0]["heads"], "ends": es[0]["ends"],
                          "qs": [{"cut": e["cut"], "all": e["all"], "only": e["only"]} for e in es], "want": [e["want"] for e in es]})

        def want(c, o):
            if "res" not in o:
                return "answers"
            if full:
                w = {"heads": c["heads"], "sizes": [h[(2 if r["id"] & 128 else 1):] for h, r in zip(c["heads"], c["rs"])], "ends": c["ends"]}
                if {k: o[k] for k in w} != w:
                    return w
            for q, w, x in zip(c["qs"], c["want"], o["res"]):
                if w != x:
                    return {**q, "want": w, "got": x}
            return None

        ctx.replay(f"streams of {cfg[:-4]}", "scan", cases, want, weight=lambda c: len(c["qs"]))


def streams(ctx: Ctx, name: str, n: int, full: bool):
    import hashlib

    cases = []
    for i in range(n):
        g = ctx.rng(f"{name}:{i}")
        r = g.r
        recs = []
        for _ in range(r.randrange(0, 14)):
            rid = r.choice([r.randrange(128), r.randrange(128, 256) + 256 * r.randrange(256), r.choice([0, 1, 7, 19, 47, 127, 128, 255, 412, 0xFF80, 0xFFFF])])
            c = r.random()
            n_ = r.randrange(0, 130) if c < 0.6 else r.choice([126, 127, 128, 129, 255, 256]) if c < 0.8 else r.randrange(16380, 16390) if c < 0.9 else r.randrange(0, 70000)
            if i % 40 == 0 and c > 0.97:
                n_ = r.randrange(2097150, 2097155)
            if i % 16 == 7 and c > 0.9:     # sizes of few bits
                n_ = sum(1 << b for b in r.sample(range(22), r.randrange(1, 4)))
            seed = bytes(r.randrange(256) for _ in range(4))
            w = 0 if full or i % 5 else r.choice([0, 2, 3, 4])
            recs.append({"id": rid, "n": n_, "w": w, "seed": seed.hex(), "hash": hashlib.sha256(seed * (n_ // 4) + seed[: n_ % 4]).hexdigest()[:12]})
        total = 0
        edges = [0]
        for x in recs:
            h = (2 if x["id"] & 128 else 1) + max(x["w"], 1 if x["n"] < 128 else 2 if x["n"] < 16384 else 3 if x["n"] < 2097152 else 4)
            edges += [total + 1, total + h, total + h + 1]
            total += h + x["n"]
            edges += [total - 1, total, total]
        cut = total if full else min(r.choice([total, r.choice(edges), r.randrange(total + 1)]), total)
        ids = [x["id"] for x in recs]
        only = [] if full else sorted({r.choice(ids) for _ in range(r.randrange(0, 4))} | {r.randrange(128)}) if ids else [1]
        cases.append({"id": f"{name}{i}", "recs": recs, "cut": cut, "all": full or r.random() < 0.3, "only": only, "kind": r.choice(["bytes", "file", "zip"])})

    def corrupt(ln):
        if not ln["obs"]["got"]:
            return None
        ln["obs"]["got"].pop()
        return ln

    ctx.validate(name, "BiffTrace", "stream", cases, corrupt=corrupt)


@check("C15")
def c15(ctx: Ctx):
    scans(ctx, True)
    streams(ctx, "streams", ctx.size(3000, 30000), True)


@check("C16")
def c16(ctx: Ctx):
    scans(ctx, False)
    streams(ctx, "parts of streams", ctx.size(4000, 40000), False)


# ---------------------------------------------------------------------- C17: record names
@check("C17")
def c17(ctx: Ctx):
    em = sorted((e for e in ctx.model("NamesMC") if "n" in e), key=lambda e: e["n"])
    cases = [{"xs": em[k:k + 512]} for k in range(0, len(em), 512)]

    def want(c, o):
        for e, x in zip(c["xs"], o["res"]):
            w = {"rec_name": e["name"], "found": [e["id"]], "n": e["n"]}
            if e["name"] != "Undefined":
                w["id"] = e["id"]
            if x != w:
                return {**e, "want": w, "got": x}
        return None

    ctx.replay("record numbers", "names", cases, want, weight=lambda c: len(c["xs"]))
    ctx.replay("other ids", "other_ids", [{"range": [k, k + 4096]} for k in range(0, 65536, 4096)],
               lambda c, o: None if o == {"named": []} else {"named": []}, weight=lambda c: 4096)
    ctx.replay("other names", "unknown_name", [{"name": x} for x in ("Undefined", "", "brtrowhdr", "BrtRowHdr ", "RowHdr")],
               lambda c, o: None if o == {"id": "KeyError"} else {"id": "KeyError"})


# ---------------------------------------------------------------------- C18: wide strings
@check("C18")
def c18(ctx: Ctx):
    em = ctx.model("StrMC") + ctx.model("StrMC", "StrMC_3.cfg")
    if ctx.deep:
        em += ctx.model("StrMC", "StrMC_deep.cfg")

    def want(c, o):
        w = {"bytes": c["bytes"], "ends": c["ends"], "loaded": c["texts"], "at": c["ends"], "parts": c["texts"],
             "values": [[] if t == [-1] else t for t in c["texts"]]}
        if len(c["texts"]) >= 2:
            w["sheet"] = [[1, 0, 0, 0, 7, 1, 0, 128], c["texts"][0], c["texts"][1]]
        return None if o == w else w

    ctx.replay("wide strings", "wide", em, want)
    cases = []
    for i in range(ctx.size(2000, 20000)):
        r = ctx.rng(f"wide:{i}").r
        pools = [list(range(32, 127)), [0, 1, 10, 0x7F, 0x80, 0xFF, 0x100, 0xFEFF, 0xFFFE, 0xFFFF, 0xD7FF, 0xE000, 0x10000, 0x10FFFF, 0x1F600],
                 list(range(0x400, 0x500)), list(range(0x10000, 0x10100))]
        texts = []
        for _ in range(r.randrange(1, 5)):
            p = r.choice(pools)
            n = r.choice([0, 1, 2, 5, 40, r.randrange(0, 120)]) if r.random() < 0.97 else r.choice([127, 128, 255, 256, 300])
            texts.append([-1] if r.random() < 0.15 else [r.choice(p) for _ in range(n)])
        cases.append({"id": f"w{i}", "texts": texts, "state": r.randrange(3), "tab": [r.randrange(256) for _ in range(4)], "scan": r.random() < 0.8})

    def corrupt(ln):
        ln["obs"]["loaded"][-1] = ln["obs"]["loaded"][-1] + [33]
        return ln

    ctx.validate("any texts", "StrTrace", "wide", cases, corrupt=corrupt)


# ---------------------------------------------------------------------- C27: relations
REL_ALPHABET = [ord(c) for c in "abcXYZ019 .-_/\\:#%?&<>\"'`;=+()[]{}\t\n\r"] + [0x85, 0xA0, 0xE9, 0x416, 0x2028, 0x4E2D, 0xFFFD, 0x1F600, 0x10FFFF]


@check("C27")
def c27(ctx: Ctx):
    em = ctx.model("RelMC") + ctx.model("RelMC", "RelMC_2.cfg")
    if ctx.deep:
        em += ctx.model("RelMC", "RelMC_deep.cfg")
    import kinds_text as kt

    def want(c, o):
        w = [[kt.rel_text(r[k]) for k in ("id", "type", "target")] for r in c["want"]]
        if o.get("foreign") != w:
            return {"foreign": w}
        if o["own"] != {"scan": w, "xml": w, "tags": True}:
            return {"own": w}
        return None

    ctx.replay("relations", "rels", em, want)
    cases = []
    for i in range(ctx.size(3000, 30000)):
        r = ctx.rng(f"rel:{i}").r
        rels = [{k: [r.choice(REL_ALPHABET) for _ in range(r.randrange(0, 12))] for k in ("id", "type", "target")} for _ in range(r.randrange(0, 6))]
        cases.append({"id": f"r{i}", "rels": rels})

    def corrupt(ln):
        if not ln["obs"]["own"]:
            return None
        ln["obs"]["own"].pop(0)
        return ln

    ctx.validate("any relations", "RelTrace", "rel_points", cases, corrupt=corrupt)


# ---------------------------------------------------------------------- C12: number formats
FMT_TOKENS = ["d", "dd", "ddd", "mmm", "m", "yyyy", "yy", "h", "hh", "s", "ss", "AM/PM", "D", "M", "Y", "H", "S", "0", "#", "#,##0", ".00", ".0", ".000", "%",
              "?", "/", " ", "-", ":", ",", "(", ")", "_)", "_-", "* ", "@", "E+00", "General", "[Red]", "[$-409]", "[$-F800]", "[$USD-409]", "[>=100]", "[Color 5]",
              "[h]", "[hh]", "[mm]", "[m]", "[ss]", "[s]", "[H]", "[MM]", "[Ss]", "[dd]", "[Yellow]", "[Magenta]", "[DBNum1]",
              '"d"', '"m;h"', '"\\"', '"[h]"', '""', '" days"', '"{433}."', "\\d", "\\-", "\\ ", '\\"', "\\;", "\\[", "\\\\", "\\h", "{440}", "{20ac}", ";", ";", ";@"]
BUILTIN_IDS = [0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 37, 38, 39, 40, 45, 46, 47, 48, 49]


@check("C12")
def c12(ctx: Ctx):
    em = ctx.model("NumFmtMC") + ctx.model("NumFmtMC", "NumFmtMC_5.cfg")
    if ctx.deep:
        em += ctx.model("NumFmtMC", "NumFmtMC_deep.cfg")
    em.sort(key=lambda e: (len(e["c"]), e["c"]))
    ctx.rng("codes").r.shuffle(em)
    cases = []
    for k in range(0, len(em), 250):
        part = em[k:k + 250]
        # the lists of other styles and formats say the opposite
        other = ["0" if e["k"] == "t" else "yyyy" for e in part]
        for fmt in ("xlsx", "xlsb"):
            cases.append({"fmt": fmt, "fmts": [[164 + i, e["c"]] for i, e in enumerate(part)], "xfs": [0, *range(164, 164 + len(part))],
                          "style_xfs": [0, 14, 2, *range(164 + len(part) - 1, 163, -1)][: (k // 250) % 5 * 60 + 1],
                          "dxfs": [[164 + i, c] for i, c in enumerate(other)] if (k // 250) % 3 else [], "no_xfid": (k // 250) % 4 == 1,
                          "aligned": (k // 250) % 2 == 1, "want": ["g" if fmt == "xlsx" else "n"] + [e["k"] if fmt == "xlsx" or e["k"] == "t" else "n" for e in part]})

    def want(c, o):
        if o.get("cls") == c["want"]:
            return None
        for f, w, x in zip(c["fmts"], c["want"][1:], o.get("cls", [])[1:]):
            if w != x:
                return {"code": f[1], "want": w, "got": x}
        return c["want"]

    ctx.replay("format codes", "fmt", cases, want, weight=lambda c: len(c["xfs"]))
    cases = []
    for i in range(ctx.size(1500, 20000)):
        r = ctx.rng(f"fmt:{i}").r
        nf = r.randrange(0, 8)
        ids = r.sample(range(164, 1000), nf) if r.random() < 0.5 else list(range(164, 164 + nf))
        r.shuffle(ids)
        fmts = [[j, "".join(r.choice(FMT_TOKENS) for _ in range(r.randrange(1, 7)))] for j in ids]
        n = r.choice([1, 2, 5, 12, 30])
        big = i % 100 == 0
        if big:
            n = 300 if i % 200 else 65000
        xfs = [r.choice(ids + BUILTIN_IDS) for _ in range(n)]
        c = {"id": f"f{i}", "fmt": r.choice(["xlsx", "xlsb"]), "fmts": fmts, "xfs": xfs, "style_xfs": [r.choice(ids + BUILTIN_IDS) for _ in range(r.choice([0, 1, 2, 5, 40]))],
             "dxfs": [[r.choice(ids + [14, 2, 165]), r.choice(["0", "yyyy-mm-dd", "@", "0.00", "h:mm"])] for _ in range(r.randrange(0, 5))] if r.random() < 0.6 else [],
             "no_xfid": r.random() < 0.3, "aligned": r.random() < 0.3, "no_fmts": r.random() < 0.5}
        if n > 40:
            c["at"] = sorted({0, 1, 127, 128, 255, 256, 257, n - 1, *r.sample(range(n), 20)} & set(range(n)))
        cases.append(c)

    def corrupt(ln):
        ln["obs"]["cls"][-1] = "t" if ln["obs"]["cls"][-1] != "t" else "n"
        return ln

    # only the styles that are used have to be judged
    def thin(ln):
        if "at" in ln:
            ln["xfs"] = [ln["xfs"][j] for j in ln["at"]]
        return ln

    ctx.validate("styles of workbooks", "FmtTrace", "fmt", cases, corrupt=corrupt, drop=("style_xfs", "dxfs", "at"), thin=thin)


# ---------------------------------------------------------------------- C11: texts
def lengthen(g, c):
    """Long texts, around the sizes of parser buffers."""
    r = g.r
    chars = ["q", "w", "{416}", "{1f600}", "&", "<", "{e9}", "{4e2d}"]

    def longer(t):
        out = t
        for _ in range(r.randrange(1, 4)):
            ch = r.choice(chars)
            n = max(1000, r.choice([1024, 2048, 4096, 8192, 16384, 3000]) + r.randrange(-70, 8))
            h = ch if len(ch) == 1 else "{:04x}".format(int(ch[1:-1], 16))
            piece = "{%s*%d}" % (h, n)
            if piece[:6] not in out:
                out += piece + r.choice("xyz")
        return out

    left = 6
    for it in c["book"]["sst"]:
        if left and r.random() < 0.3:
            it["runs"] = [longer(x) if r.random() < 0.6 else x for x in it["runs"]]
            left -= 1
    for row in c["book"]["rows"] if "rows" in c["book"] else c["book"]["sheets"][0]["rows"]:
        for x in row["cells"]:
            if left and x["k"] in ("str", "inline") and r.random() < 0.3:
                x["t"] = longer(x["t"])
                x.pop("runs", None)
                left -= 1
    return c


@check("C11")
def c11(ctx: Ctx):
    em = ctx.model("SstMC") + ctx.model("SstMC", "SstMC_b.cfg") + ctx.model("SstMC", "SstMC_2.cfg")
    if ctx.deep:
        em += ctx.model("SstMC", "SstMC_deep.cfg")
    em.sort(key=lambda e: json.dumps(e["items"]))
    ctx.rng("items").r.shuffle(em)
    short, big = [e for e in em if "*" not in json.dumps(e["items"])], [e for e in em if "*" in json.dumps(e["items"])]

    def group(es, size):
        for k in range(0, len(es), size):
            part = es[k:k + size]
            its = [x for e in part for x in e["items"]]
            order = list(range(len(its)))
            if (k // size) % 3 == 1:
                order.reverse()
            if (k // size) % 3 == 2:
                ctx.rng(f"order{k}").r.shuffle(order)
            yield {"items": its, "order": order, "ws": (k // size) % 2 == 1, "x": [x for e in part for x in e["x"]], "b": [x for e in part for x in e["b"]]}

    cases = list(group(short, 300)) + list(group(big, 40))
    # one list of more than 65536 items
    its, wx, wb_ = [], [], []
    while len(its) < 66500:
        for e in short:
            its += e["items"]
            wx += e["x"]
            wb_ += e["b"]
    n = len(its)
    at = sorted({0, 1, 255, 256, 65534, 65535, 65536, 65537, n - 1, *ctx.rng("at").r.sample(range(n), 2000)})
    cases.append({"items": its, "at": at, "x": wx, "b": wb_, "big": True})

    def want(c, o):
        at = set(c["at"]) if "at" in c else None
        for fmt, w in (("xlsx", c["x"]), ("xlsb", c["b"])):
            w = [w[i] for i in c.get("order") or range(len(w)) if at is None or i in at]
            got = o.get(fmt)
            if got != [w, w, ["'x"] * len(w)]:
                bad = [(i, a, b) for i, (a, b) in enumerate(zip(w, got[0])) if a != b][:3] if isinstance(got, list) and len(got) == 3 else str(got)[:300]
                return {"fmt": fmt, "shared": bad}
        return None

    ctx.replay("lists of strings", "sst", cases, want, weight=lambda c: len(c.get("at") or c["items"]))
    reads(ctx, "long texts", {"themes": ["word", "sst", "word", "num"], "p_conf": 0.3, "p_lookup": 0.05, "p_filter": 0.1, "maxcols": 4},
          ctx.size(700, 10000), tweak=lengthen)


import checks2  # noqa: E402, F401
import checks3  # noqa: E402, F401
