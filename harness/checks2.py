"""Checks of the number formats of cells, columns, packages, schedules and faults."""
from __future__ import annotations

import json

from checks import NOTES, check, reads, same_table, spoil, tables  # noqa: F401
from ctx import Ctx
from txt import dec


# ---------------------------------------------------------------------- C13: serial dates
@check("C13")
def c13(ctx: Ctx):
    em = ctx.model("SerialMC")
    starts = sorted((e["y"], i + 1, n) for e in em if "starts" in e for i, n in enumerate(e["starts"]))
    first = [x[2] for x in starts]
    last = 2958465
    assert first[0] == 1 and len(starts) == 8100 * 12

    cases = []
    step = 50000
    for k, src in enumerate(("rk", "real", "text", "exp")):
        if src == "exp" and not ctx.deep:
            cases += [{"src": src, "from": a, "to": a + 3000} for a in (0, 24000, 40000, 1000000, 2955466)]
            continue
        cases += [{"src": src, "from": a, "to": min(a + step, last + 1)} for a in range(0, last + 1, step - 1)]
    ctx.rng("order").r.shuffle(cases)

    import bisect

    def want(c, o):
        a, b = bisect.bisect_left(first, c["from"]), bisect.bisect_left(first, c["to"])
        w = {"starts": [list(x) for x in starts[a:b]], "odd": [n for n in ([1] if c["from"] < 1 else []) + [60] if c["from"] < n < c["to"]], "times": []}
        if o == w:
            return None
        for k in w:
            if o.get(k) != w[k]:
                x, y = w[k], o.get(k) or []
                d = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                return {k: x[d:d + 2], "got": y[d:d + 2]}
        return w

    ctx.replay("every day of the calendar", "serials", cases, want, weight=lambda c: c["to"] - c["from"])

    dec = [e for e in em if "w" in e]
    whole = {e["w"]: int(e["want"].split(":")[0]) for e in dec if e["k"] == 0}
    dec = [(e["w"], e["f"], e["k"], e["want"]) for e in dec]
    ctx.rng("decimals").r.shuffle(dec)
    cases = []
    for k in range(0, len(dec), 400):
        for fmt in ("xlsx", "xlsb"):
            cases.append({"fmt": fmt, "xs": [d[:3] for d in dec[k:k + 400]], "want": [d[3] for d in dec[k:k + 400]]})

    def wantd(c, o):
        if o.get("ok") and set(o["types"]) == {"ts"} and all(col == c["want"] for col in o["cols"]):
            return None
        for j, col in enumerate(o.get("cols", [])):
            for x, a, b in zip(c["xs"], c["want"], col):
                if a != b:
                    return {"serial": x, "way": j, "want": a, "got": b}
        return {"types": "ts", "got": str(o)[:200]}

    ctx.replay("decimal serials", "decimals", cases, wantd, weight=lambda c: len(c["xs"]))

    cases = []
    days = sorted(whole)
    for i, d in enumerate(days):
        for j, src in enumerate(("real", "text", "exp")):
            if ctx.deep and src == "real":
                spans = [(a, min(a + 2000000, 86400000), 1) for a in range(0, 86400000, 2000000)]
            else:
                r = ctx.rng(f"t{d}{src}").r
                spans = [(0, 5000, 1), (86395000, 86400000, 1), (r.randrange(3000), 86400000, r.choice([2999, 3001, 3061]))]
                spans += [(a, a + 2000, 1) for a in (r.randrange(86398000),)]
            for a, b, s in spans:
                for off in (0, 0.4, -0.4) if d < 100000 else (0,):
                    if (off < 0 and a == 0) or (ctx.deep and src == "real" and off):
                        continue
                    cases.append({"day": d, "src": src, "from": a, "to": b, "step": s, "off": off})
    ctx.rng("times").r.shuffle(cases)

    def wantt(c, o):
        w = {"day": whole[c["day"]], "bad": []}
        return None if o == w else w

    ctx.replay("times of day", "times", cases, wantt, weight=lambda c: (c["to"] - c["from"]) // c["step"])
    reads(ctx, "dates", {"themes": ["date", "date", "num", "stamp"], "p_conf": 0.3, "maxcols": 4, "p_filter": 0.1, "p_lookup": 0.1},
          ctx.size(1000, 15000))


# ---------------------------------------------------------------------- C14: packed numbers
def near_whole(x, prec=6):
    return x != int(x) and abs(x - round(x)) < 10 ** -(prec - 1)


@check("C14")
def c14(ctx: Ctx):
    from fractions import Fraction

    em = ctx.model("RkMC")
    ctx.model("RkMC", "RkMC_small.cfg")
    if ctx.deep:
        em += ctx.model("RkMC", "RkMC_deep.cfg")
    value = {}
    for e in em:
        for fl, m in enumerate(e["w"]):
            if fl & 2 or e["fin"]:
                value[(e["n"] << 31) | (e["p"] << 2) | fl] = (-1) ** m["s"] * m["m"] * Fraction(2) ** m["e"] / m["d"]
    words = sorted(value)
    ctx.rng("words").r.shuffle(words)
    dbl = {w: q.numerator / q.denominator for w, q in value.items()}

    def parts(ws, size, **kw):
        return [{**kw, "ws": ws[k:k + size]} for k in range(0, len(ws), size)]

    def same(c, o):
        w = [(dbl[x] + 0.0).hex() for x in c["ws"]]
        if o.get("x") == w:
            return None
        return next(({"word": hex(x), "want": a, "got": b} for x, a, b in zip(c["ws"], w, o.get("x", [])) if a != b), {"want": "floats"})

    ctx.replay("columns of packed numbers", "rks", parts(words, 1000, how="column") + parts(words, 700, how="number"), same,
               weight=lambda c: len(c["ws"]))

    def text(c, o):
        for x, t in zip(c["ws"], o.get("x", [])):
            try:
                if float(t) == dbl[x]:
                    continue
            except ValueError:
                pass
            return {"word": hex(x), "want": repr(dbl[x]), "got": t}
        return None if len(o.get("x", [])) == len(c["ws"]) else {"want": "texts"}

    sane = [w for w in words if not near_whole(dbl[w])]
    ctx.replay("packed numbers among texts", "rks", parts(sane, 900, how="text"), text, weight=lambda c: len(c["ws"]))
    heads = [w for w in sane if abs(dbl[w]) < 1e15][: ctx.size(8000, 40000)]
    seen, groups = set(), [[]]
    for w in heads:     # names are made distinct: one column per value
        if dbl[w] in seen or len(groups[-1]) == 300:
            seen = set()
            groups.append([])
        seen.add(dbl[w])
        groups[-1].append(w)
    ctx.replay("packed numbers as headers", "rks", [{"how": "head", "ws": g} for g in groups if g], text, weight=lambda c: len(c["ws"]))

    def moment(w):
        q = Fraction(dbl[w])
        whole = int(q)
        ms = (q - whole) * 86400000
        day = whole - 25569 if whole >= 60 else whole - 25568 if whole >= 1 else 0
        return None if abs(ms - int(ms) - Fraction(1, 2)) < Fraction(1, 10) else day * 86400000 + round(ms)

    dated = {w: moment(w) for w in words if 0 <= dbl[w] <= 2958465}
    dated = {w: m for w, m in dated.items() if m is not None}

    def dates(c, o):
        w = [dated[x] for x in c["ws"]]
        if o.get("x") == w:
            return None
        return next(({"word": hex(x), "want": a, "got": b} for x, a, b in zip(c["ws"], w, o.get("x", [])) if a != b), {"want": "moments"})

    ctx.replay("packed numbers as dates", "rks", parts(sorted(dated), 700, how="date"), dates, weight=lambda c: len(c["ws"]))

    ctx.replay("bulk oracle", "rk_listed", parts(words, 4000), lambda c, o: same(c, o), weight=lambda c: len(c["ws"]))
    top = 2 ** 32
    step, cut = ctx.size(1021, 61), 64
    cases = [{"from": a, "to": a + top // cut, "step": step} for a in range(0, top, top // cut)]
    if ctx.deep:
        cases += [{"from": a, "to": a + 2 ** 23, "step": 1, "direct": True} for a in range(0, top, 2 ** 23)]
    ctx.replay("sweep over all words", "rk_sweep", cases, lambda c, o: None if o.get("bad") == [] else {"bad": []},
               weight=lambda c: (c["to"] - c["from"]) // c["step"], limit=300)
    reads(ctx, "packed", {"fmt": "xlsb", "themes": ["num", "gen", "date", "num"], "p_header": 0.6, "p_conf": 0.4, "maxcols": 5, "deviate": 0.15,
                          "p_filter": 0.1, "p_lookup": 0.1}, ctx.size(1200, 20000))


# ---------------------------------------------------------------------- C26: encoders
@check("C26")
def c26(ctx: Ctx):
    em = ctx.model("RkMC")
    ctx.model("RkMC", "RkMC_small.cfg")
    if ctx.deep:
        em += ctx.model("RkMC", "RkMC_deep.cfg")
    words = sorted({(e["n"] << 31) | (e["p"] << 2) | fl for e in em for fl in (0, 2, 3)})
    ctx.rng("words").r.shuffle(words)
    ok = lambda c, o: None if o.get("bad") == [] else {"bad": []}  # noqa: E731
    ctx.replay("numbers of packed words", "rk_codec", [{"ws": words[k:k + 997]} for k in range(0, len(words), 997)], ok, weight=lambda c: len(c["ws"]))
    # alone: an encoder must not depend on what else is encoded
    few = ctx.rng("few").r.sample(words, min(len(words), 2500))
    ctx.replay("numbers one by one", "rk_codec", [{"ws": [w]} for w in few], ok)
    top, cut = 2 ** 32, 256
    step = ctx.size(251, 1)
    ctx.replay("sweep over all packed numbers", "rk_codec_sweep",
               [{"from": a + (a >> 24) % step, "to": a + top // cut, "step": step} for a in range(0, top, top // cut)], ok,
               weight=lambda c: (c["to"] - c["from"]) // c["step"], limit=300)

    mm = ctx.model("CodecMC")
    mm.sort(key=lambda e: (e["d"], e["t"]))
    ctx.rng("moments").r.shuffle(mm)
    xs = [[e["d"], e["t"], e["w"]] for e in mm]
    cases = [{"xs": xs[k:k + 1000]} for k in range(0, len(xs), 1000)] + [{"xs": [x]} for x in xs[:1500]]
    ctx.replay("moments", "ms_codec", cases, ok, weight=lambda c: len(c["xs"]))
    cases = []
    days = [-25567, -25566, -25510, -25509, -25508, -25507, -1, 0, 1, 2, 18262, 20000, 40000, 2932896]
    for d in days:
        for a in range(0, 86400000, 4320000):
            cases.append({"day": d, "from": a + ctx.rng(f"a{d}{a}").r.randrange(7), "to": a + 4320000, "step": ctx.size(7, 1)})
    r = ctx.rng("days").r
    for d in range(-25567, 2932897, ctx.size(61, 7)):
        t = r.randrange(86400000 - 3000)
        cases.append({"day": d, "from": t, "to": t + 3000, "step": 1009})
    # every day at one time of day
    for d in range(-25567, 2932897, 100000):
        for t in (0, 1, 43200000, 86399999, r.randrange(86400000)):
            cases.append({"day": d, "from": t, "to": (min(100000, 2932897 - d) - 1) * 86400000 + t + 1, "step": 86400000})
    ctx.replay("times of day", "ms_codec", cases, ok, weight=lambda c: max(1, (c["to"] - c["from"]) // c["step"]))


# ---------------------------------------------------------------------- C23: columns and views
STORES = {1: "n", 2: "r", 3: "d", 4: "h", 5: "t", 6: "t", 7: "h"}


def grown(ctx: Ctx, cfg, deep_ops, share=1.0):
    """Histories of the columns of a model: views where the model allows them, repeated in any order at the end."""
    em = ctx.model("SeriesMC", cfg)
    reqs = next(e["reqs"] for e in em if "reqs" in e)
    want: dict = {}
    for e in em:
        if "k" in e:
            want.setdefault((e["c"], tuple(e["k"]), tuple(e["g"])), {})["a" if "a" in e else "u"] = e.get("a") or e.get("u")
    cases = []
    for (c, k, g), w in sorted(want.items()):
        r = ctx.rng(f"{cfg}{c}{k}{g}").r
        for binary in (False, True):
            ops = []

            def views(key, n):
                w = want[(c, *key)]
                for j in (r.sample(range(len(reqs)), int(share * len(reqs))) if n is None else [r.randrange(len(reqs)) for _ in range(n)]):
                    if r.random() < 0.6 or n is None:
                        ops.append(["a", j, [w["a"][j]["t"], w["a"][j]["v"]]])
                    if r.random() < 0.3:
                        ops.append(["u", j, ["str", w["u"][j]]])

            for i, x in enumerate(k):
                if not x:
                    continue
                ops.append(["add", i, x])
                if r.random() < 0.2:     # a row that is there already changes nothing
                    ops.append(["add", r.randrange(i + 1), r.randrange(1, 8)])
                nxt = k[i + 1] if i + 1 < len(k) else 0
                split = i + 1 < len(k) and nxt and g[i + 1] != g[i] and STORES[nxt] == STORES[x]
                free = not nxt or STORES[nxt] != STORES[x] or (STORES[x] in "rn" and STORES[nxt] in "rn" and not binary)
                if split:
                    w = want[(c, k[:i + 1], g[:i + 1])]
                    ops.append(["a", 0, [w["a"][0]["t"], w["a"][0]["v"]]])
                    views((k[:i + 1], g[:i + 1]), r.randrange(1, 4))
                elif free and i + 1 < len(k) and r.random() < 0.5:
                    views((k[:i + 1], g[:i + 1]), r.randrange(1, 4))
            m = len(ops)
            views((k, g), None)
            tail = ops[m:]
            r.shuffle(tail)
            ops[m:] = tail + [r.choice(tail) for _ in range(deep_ops)]
            cases.append({"binary": binary, "c": c, "ops": ops, "reqs": reqs})
    ctx.replay(f"histories of {cfg[:-4]}", "series", cases, lambda c, o: None if "n" in o else o.get("want", "answers"), weight=lambda c: len(c["ops"]))


def history(ctx: Ctx, i: int):
    from fractions import Fraction

    from gen import NUMERALS, STAMPS, WORDS, dectext, number, packed

    g = ctx.rng(f"history:{i}")
    r = g.r
    conf = r.choice(["no", "temporal", "numeric", "all"])
    binary = r.random() < 0.5
    texts = r.sample(NUMERALS, 3) + r.sample(STAMPS, 4) + [w for w in r.sample(WORDS, 4) if "{" not in w]
    theme = r.choice(["mix", "dates", "numbers", "texts", "numerals"])
    stores = {"mix": "nrdhtb", "dates": "ddhtn", "numbers": "nnrb", "texts": "htt", "numerals": "nrht"}[theme]
    pool = {"dates": STAMPS, "numerals": NUMERALS}.get(theme, NUMERALS + STAMPS + [w for w in WORDS if "{" not in w])
    if theme == "dates":
        texts = r.sample(STAMPS, 6)
    if theme == "numerals":
        texts = r.sample(NUMERALS, 5)
    ops, row, store = [], 0, "n"
    masklen = r.choice([6, 12, 24])
    for _ in range(r.randrange(4, ctx.size(22, 40))):
        if r.random() < 0.62 or (not ops and r.random() < 0.9):
            if r.random() < 0.25:
                row += r.randrange(1, 4)
            if r.random() < 0.5:
                store = r.choice(stores)
            if not binary and store == "b":
                store = "n"
            x = {}
            if store in "ht":
                j = r.randrange(len(texts))
                t = texts[j] if store == "h" else r.choice(pool)
                c, x = {"x": "text", "s": t, "g": 0}, j if store == "h" else t
            else:
                dated = conf != "no" or store == "d"
                v = number(r.randrange(2), 0) if store == "b" else g.num(dated=dated, allow_big=False)
                while v["b"]:
                    v = g.num(dated=dated, allow_big=False)
                c, x = {"x": "temp" if store == "d" else "num", "v": {**v, "b": False}, "g": 0}, dectext(v)
                if store == "r":
                    ws = packed(Fraction(v["n"], 10 ** v["k"]))
                    if binary and not ws:
                        store = "n"
                    elif binary:
                        x = r.choice(ws)
                    else:
                        store = "n"
            at = row
            if r.random() < 0.1 and row:
                at = r.randrange(row)      # an older row
            else:
                row += 1
            ops.append({"o": "add", "row": at, "k": store, "c": c, "x": str(x) if store != "h" else x})
        else:
            m = r.random() < 0.4
            off = r.choice([0, 0, r.randrange(0, row + 3)])
            ops.append({"o": r.choice(["arrow", "arrow", "utf8"]), "off": off, "len": 0 if m else r.choice([0, 1, r.randrange(row + 4)]), "m": m,
                        "mask": [r.random() < r.choice([0.2, 0.5, 0.9]) for _ in range(r.randrange(masklen))] if m else []})
    ops += [dict(o) for o in ops if o["o"] != "add"][-3:]
    return {"id": f"h{i}", "binary": binary, "conf": conf, "prec": r.choice([6, 6, 0, 2]), "texts": texts, "ops": ops}


@check("C23")
def c23(ctx: Ctx):
    grown(ctx, "SeriesMC.cfg", 20, ctx.size(60, 100) / 100)
    grown(ctx, "SeriesMC_5.cfg", 10, ctx.size(25, 100) / 100)
    if ctx.deep:
        grown(ctx, "SeriesMC_deep.cfg", 80)

    def corrupt(ln):
        for a in reversed(ln["obs"]["ans"]):
            if a["v"] and ln["ops"][0]["o"] == "add":
                a["v"][0] += "?"
                return ln
        return None

    def thin(ln):
        ln["ops"] = [{k: v for k, v in o.items() if k != "x"} for o in ln["ops"]]
        return ln

    ctx.validate("random histories", "SeriesTrace", "history", [history(ctx, i) for i in range(ctx.size(3000, 40000))], corrupt=corrupt, thin=thin,
                 drop=("texts", "binary"))


# ---------------------------------------------------------------------- C21: callbacks
@check("C21")
def c21(ctx: Ctx):
    em = ctx.model("WalkMC")
    if ctx.deep:
        ctx.model("WalkMC", "WalkMC_deep.cfg")
    by: dict = {}
    for e in em:
        by.setdefault(str(e["rs"]), []).append(e)
    cases = [{"rs": es[0]["rs"], "qs": [e["q"] for e in es], "cb": {"xlsx": [e["cbx"] for e in es], "xlsb": [e["cbb"] for e in es]}}
             for es in by.values()]

    def want(c, o):
        for fmt in ("xlsx", "xlsb"):
            for q, n, res in zip(c["qs"], c["cb"][fmt], o.get(fmt) or [{}] * len(c["qs"])):
                if res.get("cb") != n:
                    return {"fmt": fmt, "q": q, "cb": n, "got": res}
        return None

    ctx.replay("calls for every part and window", "walk", cases, want, weight=lambda c: 2 * len(c["qs"]))

    profile = {"p_window": 0.8, "p_keep": 0.5, "gap": 0.3, "emptyrow": 0.3, "maxrows": 10, "p_conf": 0.2, "p_lookup": 0.2, "p_filter": 0.2,
               "p_header": 0.6, "p_dtypes": 0.1, "p_nulls": 0.3, "p_skipcols": 0.3}
    cases = []
    for i in range(ctx.size(900, 12000)):
        g = ctx.rng(f"calls:{i}")
        c = g.case(f"calls{i}", profile)
        c["a"]["cb"] = True
        cases.append(c)

    def corrupt(ln):
        ln["obs"]["cb"] += 1
        return ln

    ctx.validate("calls during random reads", "ReadTrace", "recalled", cases, corrupt=corrupt)


# ---------------------------------------------------------------------- C19: selection of sheets
def random_package(ctx: Ctx, i: int) -> dict:
    g = ctx.rng(f"package:{i}")
    r = g.r
    n = r.randrange(1, 9)
    names = ["Data", "data", "DATA", "Data ", " Data", "1", "0", "-1", "01", "Sheet1", "Sheet 1", "sheet1", "a&b", "a&amp;b", "<x>", '"q"', "it's",
             "{1f600}", "{41b}{438}{441}{442}", "e{301}", "{e9}", "{a0}", "x{2028}y", "rId1", "S" * 31]
    picked = r.sample(names, n)
    rids = r.sample([f"rId{k}" for k in range(1, 12)] + ["R", "rid1", "x 1", "{44f}", "1"], n)
    dirs = [["worksheets"], [".", "worksheets"], ["..", "xl", "worksheets"], ["sheets", "deep"], ["..", "other"], [".."], ["a", "..", "worksheets"], []]
    files = r.sample([f"sheet{k}" for k in range(1, 12)] + ["Sheet1", "s p", "{44f}"], n)
    rels = []
    for k in range(n):
        if r.random() < 0.4:
            t = {"abs": True, "segs": r.choice([["xl", "worksheets"], ["xl"], ["other"], [], ["xl", ".", "worksheets"], ["xl", "..", "root"]]) + [dec(files[k])]}
        else:
            t = {"abs": False, "segs": r.choice(dirs) + [dec(files[k])]}
        rels.append({"id": dec(rids[k]), "type": r.choice(["worksheet"] * 4 + ["chartsheet", "dialogsheet", "xlMacrosheet"]), "target": t})
    entries = [{"name": picked[k], "rid": rels[k]["id"], "state": r.choice([0, 0, 1, 2])} for k in range(n)]
    r.shuffle(rels)
    if r.random() < 0.5:
        rels.insert(r.randrange(n + 1), {"id": "ghost", "type": "worksheet", "target": {"abs": False, "segs": ["worksheets", "ghost"]}})
    sels = [{"k": "i", "i": k, "n": ""} for k in range(-n - 1, n + 2)] + [{"k": "n", "i": 0, "n": s} for s in names]
    r.shuffle(sels)
    return {"id": f"p{i}", "entries": entries, "rels": rels, "sels": sels, "tables": r.sample(range(len(sels)), 3), "strict": r.random() < 0.3}


@check("C19")
def c19(ctx: Ctx):
    em = ctx.model("PkgMC") + ctx.model("PkgMC", "PkgMC_2.cfg")
    if ctx.deep:
        em += ctx.model("PkgMC", "PkgMC_deep.cfg")
    r = ctx.rng("order").r
    r.shuffle(em)
    em = em[:ctx.size(5000, len(em))]
    cases = [{"entries": e["entries"], "rels": e["rels"], "listed": e["listed"], "sels": [a["sel"] for a in e["answers"]],
              "want": [a["want"] for a in e["answers"]], "tables": [r.randrange(len(e["answers"]))]} for e in em]

    def want(c, o):
        for fmt in ("xlsx", "xlsb"):
            x = o.get(fmt) or {}
            if x.get("listed") != c["listed"]:
                return {"fmt": fmt, "listed": c["listed"], "got": x}
            for s, w, y in zip(c["sels"], c["want"], x["got"]):
                if w != y:
                    return {"fmt": fmt, "sel": s, "want": w, "got": y}
            for k, *y in x["tables"]:
                if y != c["want"][k]:
                    return {"fmt": fmt, "read": c["sels"][k], "want": c["want"][k], "got": y}
        return None

    ctx.replay("every small package", "package", cases, want, weight=lambda c: 2 * len(c["sels"]))

    def corrupt(ln):
        ln["obs"]["xlsb"]["got"][-1] = ["elsewhere"]
        return ln

    ctx.validate("random packages", "PkgTrace", "package", [random_package(ctx, i) for i in range(ctx.size(800, 8000))], corrupt=corrupt)


# ---------------------------------------------------------------------- C28: incomplete workbooks
def broken_read(g, c):
    """Leaves out parts of a random workbook, and points some cells at texts that do not exist."""
    r = g.r
    k = r.random()
    if k < 0.3 and not any(x["k"] == "sst" for row in c["rows"] for x in row["cells"]):
        c["book"]["sst"], c["sst"] = None, []
    elif k < 0.7:
        for row in c["rows"]:
            for x in row["cells"]:
                if x["k"] == "sst" and r.random() < 0.15:
                    c["a"]["conf"] = "no"
                    x["i"] = r.choice([len(c["sst"]), len(c["sst"]) + r.randrange(1, 99), -1, 2 ** 31 - 1])
    if r.random() < 0.3:
        c["book"]["styles"], c["sty"] = None, []
    return c


@check("C28")
def c28(ctx: Ctx):
    em = ctx.model("FaultMC")
    tables(ctx, "parts left out", em)
    tables(ctx, "longer sheets", ctx.model("FaultMC", "FaultMC_3.cfg"))
    if ctx.deep:
        tables(ctx, "all longer sheets", ctx.model("FaultMC", "FaultMC_deep.cfg"))

    def want(c, o):
        return None if o.get("got") == [c["want"]] else [c["want"]]

    ctx.replay("every set of parts", "open", ctx.model("OpenMC"), want)

    cuts = [{"fmt": f, "from": n, "to": n + 200} for f in ("xlsx", "xlsb") for n in range(0, 3000, 200)]
    ctx.replay("every cut of a file", "cuts", cuts, lambda c, o: None if o.get("got") == [] else [], weight=lambda c: 200)
    reads(ctx, "incomplete workbooks", {"p_conf": 0.3, "p_lookup": 0.1, "p_filter": 0.1, "p_dtypes": 0.05, "p_window": 0.4, "maxrows": 6, "hole": 0.3,
                                        "themes": ["sst", "word", "num", "stamp"]}, ctx.size(500, 8000), tweak=broken_read)


# ---------------------------------------------------------------------- C20: complete, or an error
@check("C20")
def c20(ctx: Ctx):
    em = ctx.model("PipeMC") + ctx.model("PipeMC", "PipeMC_4.cfg")
    ctx.model("PipeMC", "PipeMC_live.cfg")
    if ctx.deep:
        ctx.model("PipeMC", "PipeMC_deep.cfg")
    r = ctx.rng("order").r
    cases = [{**e, "err": r.randrange(14), "how": r.randrange(35)} for e in em]
    r.shuffle(cases)
    slow = [c for c in cases if c["log"].count("ask") > 1]
    for k, c in enumerate(slow[::max(1, len(slow) // ctx.size(24, 200))]):
        c["pause"] = 1 + k % 2

    def want(c, o):
        for fmt in ("xlsx", "xlsb"):
            w = {"got": [f"c{i + 1}" for i in range(c["got"])], "end": c["end"], "left": 0}
            if fmt == "xlsb" and not c["rows"] and c["fault"] == "call" and c["end"] == "failed":
                w["end"] = "ended"       # a sheet without rows makes no calls
            if o.get(fmt) != w:
                return {"fmt": fmt, **w}
        return None

    ctx.replay("schedules and faults", "pipe", cases, want, weight=lambda c: 2)

    def corrupt(ln):
        o = ln["obs"]
        n = sum(map(ord, ln["id"])) % 4
        if n == 0 and o["cuts"] and ln["a"]["take"] == 0 and o["base"]["ok"] and o["cuts"][0][0]:
            o["cuts"][0][1] = "base"
        elif n == 1:
            o["reads"][0][1] = "lost base"
        elif n == 2:
            o["nulls"][0][1] = "other"
        elif o["base"]["cb"]:
            o["calls"][0][1] = "error"
        else:
            return None
        return ln

    cases = []
    for i in range(ctx.size(400, 6000)):
        c = ctx.rng(f"faults:{i}").case(f"f{i}", {"p_conf": 0.3, "p_lookup": 0.1, "p_filter": 0.1, "p_dtypes": 0.05, "p_window": 0.4, "maxrows": 8,
                                                  "p_nulls": 0.4, "p_keep": 0.3})
        cases.append(c)
    ctx.validate("faults in random reads", "FaultTrace", "faults", cases, corrupt=corrupt)

    em = ctx.model("BigMC")
    if ctx.deep:
        em += ctx.model("BigMC", "BigMC_deep.cfg")
    em.sort(key=lambda e: (e["rows"], e["fault"], e["at"], e["take"]))
    cases = [{**e, "err": r.randrange(14), "how": r.randrange(35), "pace": p} for e in em for p in ("free", "slow consumer", "slow parser")]

    # a consumer that stops for long: the parser goes on to the end of the sheet, however much there is
    wide = [e for e in ctx.model("BigMC", "BigMC_wide.cfg") if 0 < e["take"] and (e["rows"] < 100000 or e["take"] == 1)]
    cases += [{**e, "err": 0, "how": k, "pace": "stalled"} for e in wide for k in ((0, 1) if e["rows"] < 100000 else (1,))]

    def want_big(c, o):
        for fmt in ("xlsx", "xlsb"):
            if o.get(fmt) != {"got": c["got"], "end": c["end"], "left": 0, "bad": []}:
                return {"fmt": fmt, "got": c["got"], "end": c["end"]}
        return None

    ctx.replay("large sheets", "big", cases, want_big, weight=lambda c: 2)


# ---------------------------------------------------------------------- C24: sessions
def random_session(ctx: Ctx, i: int) -> dict:
    g = ctx.rng(f"session:{i}")
    r = g.r
    p = {"p_conf": 0.3, "p_lookup": 0.1, "p_filter": 0.1, "p_dtypes": 0.1, "p_window": 0.4, "maxrows": 7, "p_nulls": 0.4, "p_keep": 0.3}
    c = g.case(f"s{i}", p)
    env = {"fmt": c["fmt"], "cls": c["sty"], "sst": c["sst"]}
    sheets = [c["rows"]]
    q = {**p, "p_conf": 1.0, "dated_nums": True, "p_dtypes": 0.0}
    for _ in range(r.randrange(0, 3)):
        sheets.append(g.rows(g.columns(q), env, q))
    names = r.sample(["S", "s", "{1f600}", "Sheet 2", "0", "a&b"], len(sheets))
    nulls = [[], sorted({g.pick(g.texts({"rows": s, "sst": c["sst"]})) for s in sheets})][:r.randrange(1, 3)]
    if r.random() < 0.3:
        nulls = nulls + [[]]
    worlds = [{"rows": s, "sst": c["sst"], "sty": c["sty"]} for s in sheets]

    def walk_args(b):
        a = g.args0()
        if r.random() < 0.4:
            a["skip"], a["take"] = r.randrange(0, 4), r.choice([0, 1, 2, 5])
        a["keep"] = r.random() < 0.3
        if r.random() < 0.1:
            a["skipcols"] = [r.randrange(4)]
        a["nulls"] = nulls[b]
        return a

    requests = []
    for _ in range(r.randrange(1, 4)):
        s = r.randrange(len(sheets))
        used = sorted({x["c"] for row in sheets[s] for x in row["cells"]})
        a = c["a"] if s == 0 and r.random() < 0.5 else g.args(worlds[s], used, {**p, "p_conf": 0.0 if s == 0 else 0.3, "p_dtypes": 0.0})
        requests.append((s, a))

    def one(sources):
        b, s = r.randrange(len(nulls)), r.randrange(len(sheets))
        x = r.random()
        if x < 0.45:
            s, a = r.choice(requests)
            return {"op": "read", "s": s, "a": a, "src": r.choice(sources), "how": r.random() < 0.5}
        if x < 0.85:
            return {"op": "whole", "b": b, "s": s, "a": walk_args(b)}
        if x < 0.95:
            return {"op": "fail", "b": b, "s": s, "a": walk_args(b), "k": r.randrange(1, 6)}
        return {"op": "names", "b": b}

    ops, live = [], set()
    for _ in range(r.randrange(6, 24)):
        x = r.random()
        k = r.randrange(3)
        if x < 0.15:
            b = r.randrange(len(nulls))
            ops.append({"op": "start", "i": k, "b": b, "s": r.randrange(len(sheets)), "a": walk_args(b)})
            live.add(k)
        elif x < 0.6 and live:
            ops.append({"op": "next", "i": r.choice(sorted(live))})
        elif x < 0.66 and live:
            k = r.choice(sorted(live))
            live.remove(k)
            ops.append({"op": "drop", "i": k, "how": r.random() < 0.5})
        elif x < 0.95:
            ops.append(one(["str", "path", "handle", "stream", "stream"]))
        elif r.random() < 0.5:
            ops.append({"op": "threads", "parts": [[one(["str", "path", "own"]) for _ in range(r.randrange(1, 4))] for _ in range(r.randrange(2, 5))]})
    if r.random() < 0.3:
        ops.append({"op": "threads", "parts": [[one(["str", "path", "own"]) for _ in range(r.randrange(1, 4))] for _ in range(4)]})
    book = {**c["book"], "sheets": [{"name": n, "rows": s} for n, s in zip(names, sheets)], "sst": c["sst"]}
    return {"id": c["id"], "fmt": c["fmt"], "sheets": sheets, "names": names, "names_raw": [dec(n) for n in names], "sst": c["sst"], "sty": c["sty"], "nulls": nulls,
            "via": [r.choice(["str", "path", "own"]) for _ in nulls], "odd": r.random() < 0.3, "seek": r.choice([0, 0, 7, 10 ** 6]), "switch": r.random() < 0.3,
            "ops": ops, "book": book}


@check("C24")
def c24(ctx: Ctx):
    em = ctx.model("SessMC") + ctx.model("SessMC", "SessMC_5.cfg")
    if ctx.deep:
        em += ctx.model("SessMC", "SessMC_deep.cfg")[::6]
    r = ctx.rng("order").r
    r.shuffle(em)
    em.sort(key=lambda e: -sum(x["op"] in ("next", "whole", "fail") for x in e["log"]))
    cut = ctx.size(16000, 160000)
    em = em[:cut] + r.sample(em[cut:], min(len(em[cut:]), cut // 4))
    cases = [{**e, "byname": n % 2, "close": n // 2 % 2} for n, e in enumerate(em)]

    def want(c, o):
        w = [x["ans"] for x in c["log"]]
        for fmt in ("xlsx", "xlsb"):
            if o.get(fmt) != w:
                return {"fmt": fmt, "answers": w}
        return None

    ctx.replay("every short history", "session", cases, want, weight=lambda c: 2)

    def thin(c):
        return {k: v for k, v in c.items() if k in ("id", "fmt", "sheets", "names", "sst", "sty")}

    def corrupt(ln):
        o = ln["obs"]["ops"]
        k = [n for n, x in enumerate(o) if x["op"] == "next" and x["ans"]]
        if not k or sum(map(ord, ln["id"])) % 2:
            o[-1]["ans"] = ["stream unusable"]
        else:
            o[k[-1]]["ans"] = [o[k[-1]]["ans"][0] + 1, o[k[-1]]["ans"][1]]
        return ln

    ctx.validate("random sessions", "SessTrace", "sessions", [random_session(ctx, i) for i in range(ctx.size(1200, 15000))], corrupt=corrupt, thin=thin)

    big = [e for e in ctx.model("BigMC") if e["fault"] == "no"]
    crowds = []
    for n in range(ctx.size(48, 400)):
        rows = 300 if n % 3 else 6000
        mine = sorted((e for e in big if e["rows"] == rows), key=lambda e: e["take"])
        picks = [r.choice(mine) for _ in range(4)]
        crowds.append({"rows": rows, "width": picks[0]["width"], "takes": [e["take"] for e in picks], "ends": [[e["got"], 0, e["end"]] for e in picks],
                       "one": n % 2 == 0, "path": n // 2 % 2 == 0})

    def want_crowd(c, o):
        for fmt in ("xlsx", "xlsb"):
            if o.get(fmt) != c["ends"]:
                return {"fmt": fmt, "ends": c["ends"]}
        return None

    ctx.replay("threads on large sheets", "crowd", crowds, want_crowd, weight=lambda c: 8)
