"""Checks of requests that cannot be honoured."""
from __future__ import annotations

from checks import check, same_table, spoil
from ctx import Ctx
from txt import enc


# ---------------------------------------------------------------------- C29: refusals
def random_fault(g, arg):
    r = g.r
    x = {"arg": arg, "k": "int", "n": 0, "s": "", "ss": []}
    if arg == "file":
        x["k"] = r.choice(["absent", "folder", "shut", "hollow", "text"])
    elif arg == "sheet":
        if r.random() < 0.5:
            x["n"] = r.choice([-1, 1, -2, 2, 3, 99, -99])
        else:
            x.update(k="name", s=r.choice(["s", "", " S", "S ", "SS", "0", "None"]))
    elif arg in ("skip", "take"):
        x["k"] = r.choice(["int", "int", "float", "none", "text", "list"])
        x["n"] = r.choice([-1, -2, -30, -2 ** 31 + 1]) if x["k"] == "int" else 0
    elif arg == "filt":
        x["k"] = r.choice(["mixed", "tuple", "number", "dict", "pattern"])
    elif arg == "strat":
        x["k"] = r.choice(["text", "none", "number", "set", "list", "list"])
        x["s"] = r.choice(["xor", "", "AND", "Or", "and or"])
        x["ss"] = [r.choice(["and", "or", "and", "or", "xor", "", "#1", "#0"]) for _ in range(r.randrange(5))] if x["k"] == "list" else []
        if x["k"] != "text":
            x["s"] = ""
    else:
        x.update(k="list", n=r.randrange(8))
    return x


@check("C29")
def c29(ctx: Ctx):
    em = ctx.model("RefuseMC") + ctx.model("RefuseMC", "RefuseMC_2.cfg")
    if ctx.deep:
        em += ctx.model("RefuseMC", "RefuseMC_deep.cfg")
    books = {(e["fmt"], e["base"]): e for e in em if "base" in e}
    by: dict = {}
    for e in em:
        if "faults" in e:
            by.setdefault((e["fmt"], e["b"]), {})[str(e["faults"])] = e
    cases = []
    for k, es in sorted(by.items()):
        es = [es[x] for x in sorted(es)]
        b = books[k]
        for n in range(0, len(es), 60):
            cases.append({**b["w"], "a": b["a"], "all": es[n:n + 60], "plain": b["plain"]})
    ctx.rng("order").r.shuffle(cases)

    def want(c, o):
        got = o.get("reads")
        if got is None:
            return "answers to every request"
        for f, x in zip(c["all"], got):
            if not any(same_table(x["plain"], w) for w in c["plain"]):
                return {"faults": f["faults"], "afterwards": c["plain"], "got": x["plain"]}
            s = x["spoilt"]
            if f["errs"]:
                if s["ok"] or s["err"] not in f["errs"]:
                    return {"faults": f["faults"], "errs": f["errs"], "got": s}
            elif not any(same_table(s, w) for w in f["want"]):
                return {"faults": f["faults"], "want": f["want"], "got": s}
        return None

    ctx.replay("arguments that cannot be honoured", "refuse", cases, want, weight=lambda c: len(c["all"]))

    cases = []
    args = ["file", "sheet", "skip", "take", "header", "filt", "strat", "strat", "dtypes"]
    for i in range(ctx.size(1500, 15000)):
        g = ctx.rng(f"refuse:{i}")
        c = g.case(f"f{i}", {"p_filter": 0.5, "p_header": 0.6, "p_lookup": 0.15, "p_window": 0.3, "p_dtypes": 0.1, "p_conf": 0.2, "maxrows": 6, "maxcols": 6})
        c["a"]["cb"] = False
        c["sheets"] = ["S"]
        chosen = []
        for arg in g.r.sample(args, 1 if g.r.random() < 0.7 else 2):
            if arg not in [x["arg"] for x in chosen]:
                chosen.append(random_fault(g, arg))
        # a list of the right length is an argument as good as another
        n = len({x["c"] for row in c["rows"] for x in row["cells"]})
        c["faults"] = [x for x in chosen if x["arg"] not in ("header", "dtypes") or x["n"] > n]
        cases.append(c)

    def corrupt(ln):
        s = ln["obs"]["spoilt"]
        if s["ok"]:
            return None
        ln["obs"]["spoilt"] = {"ok": True, "names": [], "types": [], "cols": []} if len(ln["id"]) % 2 else {"ok": False, "err": "SystemError"}
        return ln

    ctx.validate("spoilt random requests", "RefuseTrace", "refuse", cases, corrupt=corrupt)

    def life(c, o):
        for fmt in ("xlsx", "xlsb"):
            got = o.get(fmt) or []
            if len(got) != len(c["ans"]) or any(not y.endswith("Error") if w == "error" else y != w for w, y in zip(c["ans"], got)):
                return {"fmt": fmt, "ans": c["ans"]}
        return None

    ctx.replay("lives of a reader", "life", ctx.model("LifeMC", "LifeMC_deep.cfg" if ctx.deep else None), life)


# ---------------------------------------------------------------------- C30: forms of XML
@check("C30")
def c30(ctx: Ctx):
    em = ctx.model("XmlMC") + ctx.model("XmlMC", "XmlMC_3.cfg")
    if ctx.deep:
        em += ctx.model("XmlMC", "XmlMC_deep.cfg")
    by: dict = {}
    for e in em:
        by.setdefault(e["site"], []).append(e)
    cases = []
    for site, es in sorted(by.items()):
        es.sort(key=lambda e: e["src"])
        ctx.rng("order " + site).r.shuffle(es)
        for k in range(0, len(es), 40):
            part = es[k:k + 40]
            lead, tail = {"number": ("1", ""), "index": ("i1", "")}.get(site, ("x", "y"))
            cases.append({"site": site, "srcs": [e["src"] for e in part], "want": [lead + enc(e["want"]) + tail for e in part]})

    def want(c, o):
        if o.get("got") == c["want"]:
            return None
        for s, a, b in zip(c["srcs"], c["want"], o.get("got", [])):
            if a != b:
                return {"site": c["site"], "src": s, "want": a, "got": b}
        return {"site": c["site"], "want": c["want"][:3], "got": o}

    ctx.replay("contents in every form", "xml", cases, want, weight=lambda c: len(c["srcs"]))

    cases = []
    for i in range(ctx.size(2000, 25000)):
        g = ctx.rng(f"form:{i}")
        c = g.case(f"x{i}", {"fmt": "xlsb" if i % 12 == 0 else "xlsx", "p_conf": 0.3, "p_lookup": 0.1, "p_filter": 0.1, "maxcols": 5, "headrows": 2, "p_header": 0.5})
        c["book"]["pretty"] = False
        c["form"], c["p"] = g.r.randrange(10 ** 9), g.r.choice([0.05, 0.3, 0.3, 0.9])
        cases.append(c)
    ctx.validate("workbooks in other forms", "ReadTrace", "reform", cases, corrupt=spoil, drop=("book", "form", "p"))
