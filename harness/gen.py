"""Random abstract workbooks and read requests (the case format of spec/ReadTrace.tla)."""
from __future__ import annotations

import random
import struct
from decimal import Decimal
from fractions import Fraction

WORDS = ["alpha", "beta", "b c", "Total", "total", "TOTAL", "row_id", "timestamp", "client", "x", "N", "qty", "end.",
         "{41f}{440}{438}", "{1f600}z", "a&b<c>", 'q"uo', "tab{9}in", "e{301}", "{feff}bom", "{2028}", "100%", "#n/a", "# x"]
NUMERALS = ["12", "007", "1.5", "-3", "0", "5.", "+5", ".5", "44000", "43831.5", "2.0", "00012.50", "-0.25"]
STAMPS = ["2020-01-02", "2020-01-02 03:04:05", "2021-12-31T23:59", "01/02/2020", "1/2/2020", "31.12.1999",
          "31.12.99", "05-06-2007", "05-06-07 08:09", "10:30", "23:59:59", "00:00", "1970-01-01", "1950-03-04",
          "1900-01-01 00:00:00", "2020-02-29", "01/02/20 10:11:12", "2000-02-29 00:00", "1899-12-31"]
ODD = ["2020-13-01", "45/01/2020", "24:00", "2020-01-01 ", "1,5", "12a", "-", "10:61", "2020-1", "3.4.5"]
CUSTOM_FMTS = ["%d.%m.%Y", "%Y-%m-%d", "%H:%M", "%d/%m/%y", "%Y%m%d", "%m-%d-%Y %H:%M:%S", "%d %m %Y", "%T", "%y"]
ERRS = ["#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA", "#SPILL!", "#CALC!", "Err:502"]
TEMPORAL = [14, 15, 16, 17, 18, 19, 20, 21, 22, 45, 46, 47]
NUMERIC = [1, 2, 3, 4, 37, 38, 39, 40, 48]
GENERAL = [0, 9, 10, 11, 12, 49]
T_CODES = ["yyyy-mm-dd", "dd/mm/yyyy;@", "[$-419]d mmm yy", "hh:mm:ss.000", "[h]:mm", "m/d/yy h:mm", '"on "dd.mm.yyyy']
N_CODES = ["0", "0.00", "#,##0.00_);[Red](#,##0.00)", "0.000", '0.00" days"']
G_CODES = ["@", "0%", "General", "# ?/?", '"days"0', "\\d0", "[Red]0", "#,##0"]


def number(n, k):
    while k and n % 10 == 0:
        n //= 10
        k -= 1
    return {"b": False, "n": n, "k": k}


def dectext(v):
    if v["b"]:
        return v["x"]
    s = str(Decimal(v["n"]).scaleb(-v["k"]))
    return format(Decimal(s), "f")


BIG = [("1e+20", False), ("123456789012", True), ("9007199254740993", True), ("1e+300", False), ("5000000000.5", False),
       ("-98765432109876", True), ("9223372036854775808", False), ("4611686018427387904", True), ("-1e+25", False),
       ("3000000000", True), ("9223372036854774784", True)]


def arrow_float_text(x: float) -> str:
    """Text arrow writes for a double: like the shortest form, exponent from 1e10 on."""
    r = Decimal(repr(x)).normalize()
    sign, digits, exp = r.as_tuple()
    n = len(digits) + exp - 1
    ds = "".join(map(str, digits))
    if n >= 10 or n < -6:
        m = ds[0] + ("." + ds[1:] if len(ds) > 1 else "")
        return ("-" if sign else "") + f"{m}e{n:+d}"
    return format(r, "f")


def whole_below(x: float) -> int:
    """The number counts as whole when rounded at fewer decimals than this (99: always)."""
    if abs(x) >= 2.0 ** 63:
        return 0
    if x == int(x):
        return 99
    d = Decimal(repr(x))
    for p in range(0, 20):
        if round(d, p) != int(d):
            return p
    return 20


def plain(x: float) -> str:
    """Shortest decimal, no exponent."""
    return format(Decimal(repr(x)).normalize(), "f")


def bignum(raw, day=0, ms=0):
    x = float(raw)
    return {"b": True, "s": plain(x), "i": str(int(x)), "f": arrow_float_text(x), "wp": whole_below(x), "x": raw,
            "day": day, "ms": ms}


def big(raw, whole):
    return bignum(raw)


def serial(day, ms):
    return bignum(repr(day + ms / 86_400_000), day, ms)


BLANKS = ("{9}", "{a}", "{d}", "{a0}", "{2028}", "{3000}")


def packed(q):
    """Every packed number that stands for a number (a rational), as hex."""
    out = []
    x = q.numerator / q.denominator
    for d in (1, 100):
        n = q * d
        if n.denominator == 1 and -2 ** 29 <= n < 2 ** 29:
            out.append((int(n) << 2) & 0xFFFFFFFF | 2 | (d == 100))
        y = n.numerator / n.denominator
        (b,) = struct.unpack("<Q", struct.pack("<d", y))
        if not b & 0x3FFFFFFFF and y / d == x and (d == 1 or n == Fraction(y)):
            out.append(b >> 32 | (d == 100))
    return [f"{w:x}" for w in out]


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    # ---------------------------------------------------------------- values
    def num(self, dated=False, allow_big=True):
        r = self.r
        c = r.random()
        if dated:
            if c < 0.5:
                return number(r.choice([1, 59, 60, 61, 366, 43831, 44000, 25569, 25568, 2, 73050, r.randrange(1, 60000)]), 0)
            if c < 0.8:
                k = r.randrange(1, 5)
                return number(r.randrange(0, 60000) * 10 ** k + r.randrange(10 ** k), k)
            if c < 0.9:
                k = r.randrange(1, 5)
                return number(r.randrange(0, 10 ** k), k)
            return serial(r.choice([0, 1, 59, 60, 61, 44000, r.randrange(0, 60000)]), r.choice(
                [1, 999, 43_200_001, 86_399_999, 1000 * r.randrange(86400), r.randrange(86_400_000)]))
        if c < 0.35:
            return number(r.choice([0, 1, 2, 5, 10, -1, -7, 100, 999, 12345, 2020, r.randrange(-100000, 100000)]), 0)
        if c < 0.75:
            k = r.randrange(1, 5)
            return number(r.randrange(-10 ** 6, 10 ** 6), k)
        if c < 0.85:
            return number(r.choice([(15, 1), (25, 1), (-5, 1), (1000001, 6), (10000001, 7), (19999999, 7), (1, 7), (5, 4)])[0],
                          0) if c < 0.8 else {"b": False, **dict(zip("nk", r.choice(
                              [(15, 1), (25, 1), (-5, 1), (1000001, 6), (10000001, 7), (19999999, 7), (30000002, 7), (5, 4)])))}
        if allow_big:
            return big(*self.pick(BIG))
        return number(r.randrange(0, 500), 0)

    def text(self, mix):
        c = self.r.random()
        if mix == "word" or (mix == "any" and c < 0.4):
            return self.pick(WORDS)
        if mix == "numeral" or (mix == "any" and c < 0.6):
            return self.pick(NUMERALS)
        if mix == "stamp" or (mix == "any" and c < 0.85):
            return self.pick(STAMPS)
        return self.pick(ODD)

    def trimmed(self, t):
        bad = t.strip() != t or not t or any(t.startswith(b) or t.endswith(b) for b in BLANKS)
        return self.pick(["alpha", "beta", "Total", "x"]) if bad else t

    # ---------------------------------------------------------------- workbook
    def styles(self):
        """(style part, class of each style)"""
        fmts, xfs, cls = {}, [0], ["g"]
        fid = 164
        for _ in range(self.r.randrange(4, 9)):
            kind = self.pick("tng")
            if self.chance(0.5):
                xfs.append(self.pick({"t": TEMPORAL, "n": NUMERIC, "g": GENERAL}[kind]))
            else:
                fmts[fid] = self.pick({"t": T_CODES, "n": N_CODES, "g": G_CODES}[kind])
                xfs.append(fid)
                fid += 1
            cls.append(kind)
        for kind, f in (("t", 14), ("n", 2)):
            if kind not in cls:
                xfs.append(f)
                cls.append(kind)
        return {"fmts": fmts, "xfs": xfs, "style_xfs": [0] * self.r.randrange(1, 4),
                "no_xfid": self.chance(0.2)}, cls

    def style_of(self, cls, kind):
        ids = [i for i, c in enumerate(cls) if c == kind]
        return self.pick(ids)

    def cell(self, col, theme, env, p):
        """theme: dominant kind of the column"""
        r = self.r
        kind = theme if r.random() > p.get("deviate", 0.2) else self.pick(
            ["num", "date", "word", "numeral", "stamp", "odd", "bool", "sst", "err", "blank", "gen", "empty"])
        cls = env["cls"]
        if p.get("pairs") and kind in ("gen", "bool", "empty"):
            kind = "num"
        if kind in ("num", "gen"):
            s = self.style_of(cls, "n" if kind == "num" else "g")
            v = self.num(dated=p.get("dated_nums", False), allow_big=p.get("big", True) and not p.get("dated_nums"))
            return self.mknum(col, v, s, env)
        if kind == "date":
            return self.mknum(col, self.num(dated=True), self.style_of(cls, "t"), env)
        if kind == "bool":
            return {"c": col, "k": "bool", "b": r.randrange(2), "s": r.randrange(len(cls)) if self.chance(0.3) else 0,
                    "rec": self.pick(["bool", "fbool"])}
        if kind == "err":
            return {"c": col, "k": "err", "e": self.pick(ERRS), "s": 0, "rec": self.pick(["err", "ferr"])}
        if kind == "blank":
            return {"c": col, "k": "blank", "s": r.randrange(len(cls))}
        if kind == "empty":
            t = self.pick(["", " ", "{a0}"]) if env["fmt"] == "xlsx" else self.pick(["", "z "])
        elif kind == "sst":
            t = self.text("any")
        else:
            t = self.text(kind)
        if p.get("pairs"):
            t = self.trimmed(t)
        elif self.chance(p.get("pad", 0.05)):
            t = " " + t + " "
        how = self.pick(["sst", "sst", "str", "inline"]) if kind != "sst" else "sst"
        s = r.randrange(len(cls)) if self.chance(0.2) else 0
        if how == "sst":
            return {"c": col, "k": "sst", "i": self.shared(env, t), "s": s}
        if how == "str":
            return {"c": col, "k": "str", "t": t, "s": s, "rec": self.pick(["st", "fst"])}
        c = {"c": col, "k": "inline", "t": t, "s": s}
        if len(t) > 2 and "{" not in t and self.chance(0.4):
            c["runs"] = [t[:1], t[1:]]
        return c

    def mknum(self, col, v, s, env):
        raw = v["x"] if v["b"] else dectext(v)
        rec = self.pick(["real", "fnum", "real"])
        if not v["b"] and v["k"] <= 2 and abs(v["n"]) * 10 ** (2 - v["k"]) < 2 ** 29 and self.chance(0.6):
            rec = "rk"
        c = {"c": col, "k": "num", "x": raw, "v": v, "s": s, "rec": rec}
        if not v["b"] and self.chance(0.5):
            ws = packed(Fraction(v["n"], 10 ** v["k"]))
            if ws:
                c["rec"], c["rk"] = "rk", self.pick(ws)
        return c

    def shared(self, env, t):
        sst = env["sst"]
        for i, x in enumerate(sst):
            if "".join(x["runs"]) == t and self.chance(0.9):
                return i
        item = {"runs": [t]}
        if "{" not in t and len(t) > 1 and self.chance(0.25):
            j = self.r.randrange(1, len(t))
            item = {"runs": [t[:j], t[j:]]}
        if self.chance(0.1):
            item["phon"] = ["pho"]
        if self.chance(0.1):
            item["rich"] = True
        sst.append(item)
        return len(sst) - 1

    def columns(self, p):
        n = self.r.randrange(p.get("mincols", 1), p.get("maxcols", 4) + 1)
        pool = list(range(max(7, p.get("maxcols", 4)))) if not self.chance(p.get("far", 0.1)) else [0, 1, 24, 25, 26, 27, 51, 52, 701, 702, 703, 16383]
        if n > len(pool):
            pool = list(range(p["maxcols"]))
        return sorted(self.r.sample(pool, n))

    def rows(self, cols, env, p):
        r = self.r
        n = r.randrange(p.get("minrows", 0), p.get("maxrows", 7) + 1)
        themes = {c: self.pick(p.get("themes", ["num", "date", "word", "numeral", "stamp", "sst", "gen", "bool"])) for c in cols}
        heads = r.randrange(0, p.get("headrows", 2) + 1)
        words = r.sample(WORDS, r.randrange(1, 4)) if p.get("headwords") else None
        rows, at = [], 0
        for i in range(n):
            if self.chance(p.get("gap", 0.12)):
                at += r.randrange(1, 4)
            cells = []
            for c in cols:
                if self.chance(p.get("hole", 0.2)):
                    continue
                if i < heads:
                    t = self.pick(words) if words else self.text("word") if self.chance(0.85) else self.text("any")
                    if p.get("pairs"):
                        t = self.trimmed(t)
                    cells.append({"c": c, "k": "sst", "i": self.shared(env, t), "s": 0} if self.chance(0.7)
                                 else {"c": c, "k": "str", "t": t, "s": 0, "rec": "st"})
                else:
                    cells.append(self.cell(c, themes[c], env, p))
            if self.chance(p.get("emptyrow", 0.1)):
                cells = []
            row = {"r": at, "cells": cells}
            if self.chance(0.3):
                row["open"] = True
            rows.append(row)
            at += 1
        if env["fmt"] == "xlsx" and self.chance(0.1):
            # cells without references: only where they follow one another from the first column
            for row in rows:
                prev = -1
                for c in row["cells"]:
                    if c["c"] == prev + 1:
                        c["noref"] = True
                    prev = c["c"]
        return rows

    # ---------------------------------------------------------------- request
    def args0(self):
        return {"skip": 0, "take": 0, "keep": False, "skipcols": [], "header": {"k": "none", "n": 0, "names": []}, "after": 0,
                "lookup": {"k": "none", "p": {"k": "sub", "s": ""}, "n": 0, "size": 30},
                "filt": {"k": "none", "ps": [], "is": []}, "strat": {"k": "or", "ops": []}, "conf": "no", "fmts": [],
                "prec": 6, "nulls": [], "dtypes": {"k": "none", "t": "", "ts": [], "names": []}}

    def texts(self, w):
        out = []
        for row in w["rows"]:
            for c in row["cells"]:
                if c["k"] in ("str", "inline"):
                    out.append(c["t"])
                elif c["k"] == "sst":
                    out.append("".join(w["sst"][c["i"]]["runs"]))
        return [t for t in out if t.strip() and "{" not in t] or ["none"]

    def pattern(self, w, miss=0.15):
        if self.chance(miss):
            return {"k": "exact", "s": "no such"}
        t = self.pick(self.texts(w)).strip()
        c = self.r.random()
        if c < 0.1:
            return {"k": "exact", "s": self.pick([t.upper(), t.lower(), t.capitalize(), t.swapcase()])}
        if c < 0.2:
            return {"k": "alt", "s": t, "t": self.pick([self.pick(self.texts(w)).strip(), "no such", t[:-1]])}
        if c < 0.25:
            return {"k": "suf", "s": t[self.r.randrange(len(t)):]}
        if c < 0.3:
            return {"k": "dig", "s": ""}
        if c < 0.55:
            return {"k": "exact", "s": t}
        if c < 0.75:
            return {"k": "pre", "s": t[: self.r.randrange(1, len(t) + 1)]}
        i = self.r.randrange(len(t))
        s = t[i : self.r.randrange(i + 1, len(t) + 1)]
        if not set(s) - set("0123456789abcdef*{}"):     # could be found inside a brace escape
            return {"k": "exact", "s": t}
        return {"k": "sub", "s": s}

    def args(self, w, cols, p):
        r = self.r
        a = self.args0()
        if self.chance(p.get("p_window", 0.3)):
            a["skip"] = r.randrange(0, 4)
            a["take"] = r.choice([0, 0, 1, 2, 3, 5])
        a["keep"] = self.chance(p.get("p_keep", 0.3))
        if self.chance(p.get("p_skipcols", 0.15)) and cols:
            a["skipcols"] = sorted(r.sample(cols, r.randrange(1, len(cols) + 1) if len(cols) > 1 else 1))
            if self.chance(0.3):
                a["skipcols"].append(9999)
        if self.chance(p.get("p_header", 0.5)):
            c = r.random()
            if c < 0.45:
                a["header"] = {"k": "int", "n": 1, "names": [], "b": self.chance(0.5)}
            elif c < 0.8:
                a["header"] = {"k": "int", "n": r.randrange(2, 4), "names": []}
            else:
                n = len(cols) + (r.choice([-1, 1]) if self.chance(0.15) else 0)
                a["header"] = {"k": "list", "n": 0, "names": [f"h{i}" for i in range(max(n, 1))]}
                if self.chance(0.3):     # names may be repeated
                    a["header"]["names"] = [f"h{r.randrange(2)}" for _ in range(max(n, 1))]
        elif self.chance(0.3):
            a["header"]["b"] = True
        if self.chance(p.get("p_after", 0.15)):
            a["after"] = r.randrange(1, 4)
        if self.chance(p.get("p_lookup", 0.2)):
            if self.chance(0.75):
                a["lookup"] = {"k": "re", "p": self.pattern(w), "n": 0, "size": r.choice([30, 30, 1, 2, 3, 5])}
            elif cols:
                a["lookup"] = {"k": "col", "p": {"k": "sub", "s": ""}, "n": self.pick(cols) if self.chance(0.9) else 5000,
                               "size": r.choice([30, 2, 3])}
        if self.chance(p.get("p_filter", 0.2)):
            c = r.random()
            names = [f"Unnamed. {i}" for i in range(len(cols))]
            def pat():
                if a["header"]["k"] == "none" and self.chance(0.8) and names:
                    return {"k": "exact", "s": self.pick(names)}
                if a["header"]["k"] == "list" and self.chance(0.8):
                    return {"k": "exact", "s": self.pick(a["header"]["names"])}
                return self.pattern(w, 0.1)
            if c < 0.3:
                a["filt"] = {"k": "one", "ps": [pat()], "is": []}
            elif c < 0.6:
                a["filt"] = {"k": "strs", "ps": [pat() for _ in range(r.randrange(1, 4))], "is": []}
            else:
                a["filt"] = {"k": "ints", "ps": [], "is": sorted(r.sample(range(len(cols) + 1), r.randrange(1, len(cols) + 2)))}
            c = r.random()
            if c < 0.35:
                a["strat"] = {"k": "and", "ops": []}
            elif c < 0.6:
                m = len(a["filt"]["is"]) if a["filt"]["k"] == "ints" else len(a["filt"]["ps"])
                ops = [self.pick(["and", "or"]) for _ in range(max(0, m - 1))]
                if self.chance(0.1):
                    ops.append("xor")
                a["strat"] = {"k": "list", "ops": ops}
        if self.chance(p.get("p_conf", 0.5)):
            a["conf"] = self.pick(p.get("confs", ["temporal", "numeric", "all"]))
        if self.chance(p.get("p_fmts", 0.1)):
            a["fmts"] = r.sample(CUSTOM_FMTS, r.randrange(1, 4))
            a["fmt1"] = self.chance(0.5)
        if self.chance(p.get("p_prec", 0.15)):
            a["prec"] = r.choice([0, 1, 2, 3, 4, 6, 8])
        if self.chance(p.get("p_nulls", 0.15)):
            a["nulls"] = r.sample(["alpha", "x", "{41f}{440}{438}", "Total", "10:30", "b"] if p.get("pairs") else ["alpha", "x", "12", "N", "0", "10:30", "{41f}{440}{438}", "Total", "5", "#n/a", "# x"], r.randrange(1, 4))
            a["nullfn"] = self.chance(0.4)
        if self.chance(p.get("p_dtypes", 0.1)):
            ts = ["str", "utf8", "i64", "i32", "f64", "ts", "tss", "d32"]
            c = r.random()
            if c < 0.4:
                a["dtypes"] = {"k": "one", "t": self.pick(["str", "utf8", "str", "f64", "i64", "tss"]), "ts": [], "names": []}
            elif c < 0.7:
                n = len(cols) + (1 if self.chance(0.1) else 0)
                a["dtypes"] = {"k": "seq", "t": "", "ts": [self.pick(["str", "utf8", self.pick(ts)]) for _ in range(n)], "names": []}
            else:
                names = [f"Unnamed. {i}" for i in range(len(cols))] + [f"h{i}" for i in range(len(cols))]
                names = r.sample(names, min(len(names), r.randrange(1, 4)))
                a["dtypes"] = {"k": "map", "t": "", "ts": [self.pick(["str", "utf8", self.pick(ts)]) for _ in names], "names": names}
        a["cb"] = self.chance(0.8)
        a["bare"] = self.chance(0.4)
        return a

    def case(self, cid, p):
        fmt = p.get("fmt") or self.pick(["xlsx", "xlsb"])
        styles, cls = self.styles()
        env = {"fmt": fmt, "cls": cls, "sst": []}
        cols = self.columns(p)
        q = dict(p)
        conf = self.chance(p.get("p_conf", 0.5))
        q["p_conf"] = 1.0 if conf else 0.0
        if conf:
            q["dated_nums"] = True   # a number may have to become a moment: stay inside the calendar
        dty = self.chance(p.get("p_dtypes", 0.1))
        q["p_dtypes"] = 1.0 if dty else 0.0
        if dty:
            q["dated_nums"] = True
        rows = self.rows(cols, env, q)
        w = {"rows": rows, "sst": env["sst"], "sty": cls}
        used = sorted({c["c"] for row in rows for c in row["cells"]})
        a = self.args(w, used, q)
        book = {"sheets": [{"name": "S", "rows": rows}], "styles": styles, "sst": env["sst"],
                "pretty": self.chance(0.15), "rels_order": self.chance(0.3)}
        return {"id": cid, "fmt": fmt, "rows": rows, "sst": env["sst"], "sty": cls, "a": a, "book": book}
