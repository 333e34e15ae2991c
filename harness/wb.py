"""Workbook writer: turns an abstract workbook (plain dicts) into real .xlsx / .xlsb bytes.

Standard library only.  Nothing here is imported from the code under test, so the bytes are an
independent reading of ECMA-376 (SpreadsheetML) and [MS-XLSB].

Abstract workbook
-----------------
{"sheets": [ {"name": str, "rows": [row...], "chart": bool?, "target": "rel"|"abs"?} ],
 "styles": {"fmts": {id: code}, "xfs": [numFmtId...], ...},
 "sst": [ {"runs": [str...], "phon": [str...]?} | str ],
 ...}
row  = {"r": 0-based sheet row or None, "cells": [cell...]}
cell = {"c": 0-based col, "s": style index, <payload>}
payload, one of
  {"k": "num", "x": "<raw number text>", "v": number, "rec": "rk"|"real"|"fnum", "rk": uint32?}
  {"k": "bool", "b": 0/1, "rec": "bool"|"fbool"}
  {"k": "sst", "i": index}
  {"k": "str", "t": text, "rec": "st"|"fst"}        (a string stored with the cell)
  {"k": "inline", "t": text, "runs": [text]?}        (xlsx <is>; xlsb rich inline record)
  {"k": "err", "e": "#N/A", "rec": "err"|"ferr"}
  {"k": "blank"}
Every text is in the brace-escaped form of txt.py.
"""
from __future__ import annotations

import io
import struct
import zipfile
from xml.sax.saxutils import escape as _escape, quoteattr as _quoteattr

from txt import dec


def escape(s):
    return _escape(dec(s)).replace("\r", "&#13;")


def quoteattr(s):
    return _quoteattr(dec(s))

MAIN = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
RNS = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
PNS = "http://schemas.openxmlformats.org/package/2006/relationships"

ERR_CODES = {"#NULL!": 0x00, "#DIV/0!": 0x07, "#VALUE!": 0x0F, "#REF!": 0x17, "#NAME?": 0x1D,
             "#NUM!": 0x24, "#N/A": 0x2A, "#GETTING_DATA": 0x2B}


def letters(col: int) -> str:
    out = ""
    col += 1
    while col:
        col, rem = divmod(col - 1, 26)
        out = chr(65 + rem) + out
    return out


# ------------------------------------------------------------------ BIFF12 primitives
def varint(n: int) -> bytes:
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def rec_id(num: int) -> bytes:
    """num is the id as the repository's table writes it: little-endian raw bytes."""
    if num & 0x80:
        return bytes((num & 0xFF, num >> 8))
    return bytes((num,))


def rec(num: int, data: bytes = b"") -> bytes:
    return rec_id(num) + varint(len(data)) + data


def wide(s: str | None) -> bytes:
    if s is None:
        return b"\xff\xff\xff\xff"
    raw = dec(s).encode("utf-16-le", "surrogatepass")
    return struct.pack("<I", len(raw) // 2) + raw


# ------------------------------------------------------------------ package
def _zip(parts: dict[str, bytes]) -> bytes:
    """The package; the parts of every other package are compressed."""
    how = zipfile.ZIP_DEFLATED if sum(map(len, parts.values())) % 2 else zipfile.ZIP_STORED
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, "w") as zf:
        for name, data in parts.items():
            zf.writestr(zipfile.ZipInfo(name), data, compress_type=how, compresslevel=1)
    return bio.getvalue()


def _rels(items) -> bytes:
    body = "".join(
        f'<Relationship Id={quoteattr(i)} Type={quoteattr(t)} Target={quoteattr(g)}/>' for i, t, g in items
    )
    return (f'<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<Relationships xmlns="{PNS}">{body}</Relationships>').encode()


def _sheet_rels(wb: dict, ext: str):
    """[(rid, type, target, path)] in the order of wb["sheets"]; targets never follow sheet order."""
    out = []
    n = len(wb["sheets"])
    perm = wb.get("perm") or list(range(n))
    for i, sh in enumerate(wb["sheets"]):
        kind = sh.get("kind") or ("chartsheet" if sh.get("chart") else "worksheet")
        path = sh.get("path") or f"xl/{kind}s/sheet{perm[i] + 1}.{ext}"
        target = sh.get("aim") or ("/" + path if sh.get("target") == "abs" else path[3:])
        rid = sh.get("rid") or f"rId{perm[i] + 1}"
        out.append((rid, kind, target, path))
    return out


def _items(wb, rels, ext):
    """Elements of the relations part: given ones between the others, or one per sheet and the others last."""
    ns = wb.get("rels_ns", RNS)
    st, sst = ("rIdStyles", f"{ns}/styles", f"styles.{ext}"), ("rIdSst", f"{ns}/sharedStrings", f"sharedStrings.{ext}")
    if "rels" in wb:
        if wb.get("only_rels"):
            return [(i, f"{ns}/{t}", g) for i, t, g in wb["rels"]]
        return [st] + [(i, f"{ns}/{t}", g) for i, t, g in wb["rels"]] + [sst]
    items = [(rid, f"{ns}/{kind}", target) for rid, kind, target, _ in rels] + [st, sst]
    return items[::-1] if wb.get("rels_order") else items


def _els(els, ws="") -> str:
    """Content of a string item: plain text, runs, phonetic hints, phonetic properties."""
    out = []
    for k, x in els:
        t = f'<t xml:space="preserve">{escape(x)}</t>' if x else "<t/>"
        out.append({"t": t, "r": f"<r>{ws}<rPr>{ws}<b/></rPr>{t}{ws}</r>", "p": f'<rPh sb="0" eb="1">{t}{ws}</rPh>',
                    "pp": '<phoneticPr fontId="1"/>'}[k])
    return ws + ws.join(out) + ws


def _si(item) -> str:
    if not isinstance(item, str) and "els" in item:
        body = _els(item["els"], item.get("ws", ""))
        return f"<si>{body}</si>{item.get('ws', '')}" if item["els"] or item.get("ws") else "<si/>"
    if isinstance(item, str):
        return f'<si><t xml:space="preserve">{escape(item)}</t></si>'
    if len(item["runs"]) == 1 and not item.get("rich"):
        body = f'<t xml:space="preserve">{escape(item["runs"][0])}</t>'
    else:
        body = "".join(
            f'<r><rPr><b/></rPr><t xml:space="preserve">{escape(x)}</t></r>' for x in item["runs"]
        )
    body += "".join(f'<rPh sb="0" eb="1"><t>{escape(p)}</t></rPh>' for p in item.get("phon", ()))
    if item.get("phon"):
        body += '<phoneticPr fontId="1"/>'
    return f"<si>{body}</si>"


def runs_of(item) -> list:
    return [x for k, x in item["els"] if k in ("t", "r")] if "els" in item else item["runs"]


def sst_text(item) -> str:
    if not isinstance(item, str) and "els" in item:
        return "".join(runs_of(item))
    return item if isinstance(item, str) else "".join(item["runs"])


def xlsx(wb: dict) -> bytes:
    parts: dict[str, bytes] = {}
    parts["[Content_Types].xml"] = b'<?xml version="1.0" encoding="UTF-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>'
    rels = _sheet_rels(wb, "xml")
    items = _items(wb, rels, "xml")
    parts["xl/_rels/workbook.xml.rels"] = _rels(items)
    sheets = "".join(
        f'<sheet name={quoteattr(sh["name"])} sheetId="{i + 1}"' + ("", ' state="hidden"', ' state="veryHidden"')[int(sh.get("state") or 0)] + f' r:id={quoteattr(rels[i][0])}/>'
        for i, sh in enumerate(wb["sheets"])
    )
    parts["xl/workbook.xml"] = (
        f'<?xml version="1.0" encoding="UTF-8"?><workbook xmlns="{MAIN}" xmlns:r="{RNS}"><sheets>{sheets}</sheets></workbook>'
    ).encode()
    st = wb.get("styles")
    if st is not None:
        fm = "".join(
            f'<numFmt numFmtId="{i}" formatCode={quoteattr(c)}/>' for i, c in st.get("fmts", {}).items()
        )
        cxf = "".join(f'<xf numFmtId="{x}" fontId="0" fillId="0" borderId="0"/>' for x in st.get("style_xfs", [0]))
        fms = f'<numFmts count="{len(st.get("fmts", {}))}">{fm}</numFmts>' if fm or not st.get("no_fmts") else ""
        dx = "".join(f'<dxf><font><b/></font><numFmt numFmtId="{i}" formatCode={quoteattr(c)}/></dxf>' for i, c in st.get("dxfs", ()))
        dx = f'<dxfs count="{len(st["dxfs"])}">{dx}</dxfs><tableStyles count="0"/>' if dx else ""
        xfs = "".join(
            "<xf" + (f' numFmtId="{x}"' if x is not None else "") + ' fontId="0" fillId="0" borderId="0"' + ("" if st.get("no_xfid") else ' xfId="0"')
            + ('><alignment wrapText="1"/></xf>' if st.get("aligned") else "/>")
            for x in st["xfs"]
        )
        parts["xl/styles.xml"] = (
            f'<?xml version="1.0" encoding="UTF-8"?><styleSheet xmlns="{MAIN}">{fms}'
            f"<cellStyleXfs>{cxf}</cellStyleXfs><cellXfs>{xfs}</cellXfs>"
            '<cellStyles><cellStyle name="Normal" xfId="0" builtinId="0"/></cellStyles>' + dx + "</styleSheet>"
        ).encode()
    sst = wb.get("sst")
    if sst is not None:
        parts["xl/sharedStrings.xml"] = (
            f'<?xml version="1.0" encoding="UTF-8"?>\n<sst xmlns="{MAIN}" count="{len(sst)}" uniqueCount="{len(sst)}">'
            + "".join(_si(x) for x in sst)
            + "</sst>"
        ).encode()
    for i, sh in enumerate(wb["sheets"]):
        if sh.get("chart") or sh.get("kind", "worksheet") != "worksheet":
            parts[rels[i][3]] = f'<?xml version="1.0"?><chartsheet xmlns="{MAIN}"/>'.encode()
        else:
            parts[rels[i][3]] = xlsx_sheet(sh, pretty=wb.get("pretty", False))
    for name in wb.get("drop", ()):
        parts.pop(name, None)
    parts.update(wb.get("extra", {}))
    return _zip(parts)


X14 = "http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac"
# what else rows, formulas and sheets have in files: nothing of it is a value
ROWS = ("", ' ht="30" customHeight="1"', ' hidden="1" x14ac:dyDescent="0.25"', ' s="1" customFormat="1"', ' outlineLevel="1" collapsed="1"')
FORMULAS = ('<f>"x"&amp;"y"</f>', "<f>1+1</f>", '<f t="shared" ref="A1:A9" si="0">A1*2</f>', '<f t="shared" si="0"/>', '<f t="array" ref="B1:B3">SUM(A1:A2)</f>',
            "<f ca=\"1\">TODAY()</f>")
AFTER = ('<mergeCells count="1"><mergeCell ref="A1:B1"/></mergeCells><conditionalFormatting sqref="A1"><cfRule type="cellIs" priority="1" operator="equal">'
         '<formula>7</formula></cfRule></conditionalFormatting><dataValidations count="1"><dataValidation type="list" sqref="A1"><formula1>"a,b"</formula1>'
         '</dataValidation></dataValidations><hyperlinks><hyperlink ref="A1" location="B2" display="there"/></hyperlinks>')
BREAKS = '<rowBreaks count="1" manualBreakCount="1"><brk id="2" max="16383" man="1"/></rowBreaks><colBreaks count="1"><brk id="1" max="9"/></colBreaks>'


def xlsx_sheet(sh: dict, pretty: bool = False) -> bytes:
    nl = "\n  " if pretty else ""
    out = [f'<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<worksheet xmlns="{MAIN}" xmlns:r="{RNS}" xmlns:x14ac="{X14}">{nl}'
           f'<sheetPr><pageSetUpPr fitToPage="1"/></sheetPr><dimension ref="A1:B2"/>{nl}<sheetViews><sheetView workbookViewId="0"/></sheetViews>{nl}'
           f'<cols><col min="1" max="3" width="9" hidden="1"/></cols><sheetData>']
    seq = 0
    for row in sh["rows"]:
        r = row["r"] if row.get("r") is not None else seq
        seq = r + 1
        attr = (f' r="{r + 1}"' if row.get("r") is not None else "") + ROWS[r % len(ROWS)]
        if not row["cells"]:
            out.append(f"{nl}<row{attr}/>" if not row.get("open") else f"{nl}<row{attr}></row>")
            continue
        out.append(f"{nl}<row{attr} spans=\"1:9\">")
        for c in row["cells"]:
            ref = f"{c.get('ref') or letters(c['c'])}{r + 1}"
            R = "" if c.get("noref") else f' r="{ref}"'
            s = f' s="{c["s"]}"' if c.get("s") else ""
            s += ("", "", "", ' cm="1"', ' vm="2"')[(r + c["c"]) % 5]
            F = FORMULAS[(r + c["c"]) % len(FORMULAS)]
            v = c["k"]
            if v == "num":
                t = ' t="n"' if c.get("tn") else ""
                f = F if c.get("rec") == "fnum" else ""
                body = f'<c{R}{s}{t}>{f}<v>{c["x"]}</v></c>'
            elif v == "bool":
                f = F if c.get("rec") == "fbool" else ""
                body = f'<c{R}{s} t="b">{f}<v>{c["b"]}</v></c>'
            elif v == "sst":
                body = f'<c{R}{s} t="s"><v>{c.get("ix", c["i"])}</v></c>'
            elif v == "str":
                body = f'<c{R}{s} t="str">{F}<v>{escape(c["t"])}</v></c>'
            elif v == "inline":
                if "els" in c:
                    inner = _els(c["els"], c.get("ws", ""))
                elif c.get("runs"):
                    inner = "".join(f'<r><rPr><b/></rPr><t xml:space="preserve">{escape(x)}</t></r>' for x in c["runs"])
                    inner += '<rPh sb="0" eb="1"><t>phon</t></rPh><phoneticPr fontId="1"/>'
                else:
                    inner = f'<t xml:space="preserve">{escape(c["t"])}</t>'
                body = f'<c{R}{s} t="inlineStr"><is>{inner}</is></c>'
            elif v == "err":
                f = F if c.get("rec") == "ferr" else ""
                body = f'<c{R}{s} t="e">{f}<v>{escape(c["e"])}</v></c>'
            else:
                body = f'<c{R}{s}/>'
            out.append(nl + body)
        out.append(f"{nl}</row>")
    out.append(f"{nl}</sheetData>{nl}" + (AFTER if len(sh["rows"]) % 2 else "") + "<pageMargins left=\"0.7\" right=\"0.7\" top=\"0.75\" bottom=\"0.75\" header=\"0.3\" footer=\"0.3\"/>"
               + (BREAKS if len(sh["rows"]) % 3 else "") + "</worksheet>")
    return "".join(out).encode()


# ------------------------------------------------------------------ xlsb
def rk_of(c: dict) -> int:
    """Integer form of an rk number (or the raw one, when given)."""
    if "rk" in c:
        return int(c["rk"], 16)
    v = c["v"]
    if v["k"] == 0:
        return ((v["n"] << 2) | 2) & 0xFFFFFFFF
    return ((v["n"] * 10 ** (2 - v["k"]) << 2) | 3) & 0xFFFFFFFF


def xlsb(wb: dict) -> bytes:
    parts: dict[str, bytes] = {}
    parts["[Content_Types].xml"] = b'<?xml version="1.0" encoding="UTF-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>'
    rels = _sheet_rels(wb, "bin")
    items = _items(wb, rels, "bin")
    parts["xl/_rels/workbook.bin.rels"] = _rels(items)
    out = [rec(0x183), rec(0x180, b"\x00" * 20), rec(0x18F)]  # BrtBeginBook, BrtFileVersion, BrtBeginBundleShs
    for i, sh in enumerate(wb["sheets"]):
        out.append(rec(412, struct.pack("<II", sh.get("state", 0), i + 1) + wide(rels[i][0]) + wide(sh["name"])))
    out.append(rec(0x190))
    out.append(rec(0x184))
    parts["xl/workbook.bin"] = b"".join(out)
    st = wb.get("styles")
    if st is not None:
        out = [rec(0x296)]  # BrtBeginStyleSheet
        out.append(rec(0x4E7, struct.pack("<I", len(st.get("fmts", {})))))
        for i, c in st.get("fmts", {}).items():
            out.append(rec(44, struct.pack("<H", int(i)) + wide(c)))
        out.append(rec(0x4E8))
        out.append(rec(0x4F2, struct.pack("<I", len(st.get("style_xfs", [0])))))
        for x in st.get("style_xfs", [0]):
            out.append(rec(47, struct.pack("<HHHHH", 0xFFFF, x, 0, 0, 0) + b"\x00" * 6))
        out.append(rec(0x4F3))
        out.append(rec(0x4E9, struct.pack("<I", len(st["xfs"]))))
        for x in st["xfs"]:
            out.append(rec(47, struct.pack("<HHHHH", 0, x or 0, 0, 0, 0) + b"\x00" * 6))
        out.append(rec(0x4EA))
        if st.get("dxfs"):
            out.append(rec(0x3F9, struct.pack("<I", len(st["dxfs"]))))
            for i, c in st["dxfs"]:
                prop = struct.pack("<H", int(i)) + wide(c)
                out.append(rec(0x3FB, struct.pack("<HHHH", 0x8000, 0, 1, 0x26) + struct.pack("<H", len(prop) + 4) + prop))
            out.append(rec(0x3FA))
        out.append(rec(0x297))
        parts["xl/styles.bin"] = b"".join(out)
    sst = wb.get("sst")
    if sst is not None:
        out = [rec(0x19F, struct.pack("<II", len(sst), len(sst)))]
        for x in sst:
            text = sst_text(x)
            tail = b""
            flags = 0
            rr = [] if isinstance(x, str) else runs_of(x)
            if len(rr) > 1 or (not isinstance(x, str) and (x.get("rich") or any(k == "r" for k, _ in x.get("els", ())))):
                flags |= 1
                pos = 0
                runs = b""
                for y in rr:
                    runs += struct.pack("<HH", min(pos, 0xFFFF), 1)
                    pos += len(dec(y))
                tail += struct.pack("<I", len(rr)) + runs
            phon = None if isinstance(x, str) else "".join(y for k, y in x["els"] if k == "p") if "els" in x else "".join(x.get("phon", ()))
            if phon:
                flags |= 2
                tail += wide(phon) + struct.pack("<I", 1) + struct.pack("<HHHHI", 0, 0, 1, 1, 0)
            out.append(rec(19, bytes((flags,)) + wide(text) + tail))
        out.append(rec(0x1A0))
        parts["xl/sharedStrings.bin"] = b"".join(out)
    for i, sh in enumerate(wb["sheets"]):
        parts[rels[i][3]] = rec(0x181) + rec(0x182) if sh.get("chart") or sh.get("kind", "worksheet") != "worksheet" else xlsb_sheet(sh)
    for name in wb.get("drop", ()):
        parts.pop(name, None)
    parts.update(wb.get("extra", {}))
    return _zip(parts)


def num_id(n: int) -> int:
    """Raw id of a record number of the specification."""
    return n if n < 0x80 else n & 0x7F | 0x80 | n >> 7 << 8


def aside(r: int, c: dict) -> bytes:
    """Records among the cells that are no cells: what stands before the cell."""
    k = (r * 3 + c["c"]) % 11
    if k == 4:
        return rec(num_id(49), struct.pack("<I", 1)) + rec(num_id(50), struct.pack("<I", 2))   # BrtCellMeta, BrtValueMeta
    if k == 7:
        return rec(num_id(37), b"\x01\x00\x02\x10") + rec(num_id(1024), b"\x07" * 9) + rec(num_id(38))   # BrtACBegin .. BrtACEnd
    return b""


def formula(r: int, c: dict) -> bytes:
    """What stands behind a cell with a formula."""
    k = (r + c["c"]) % 4
    if k == 1:
        return rec(num_id(427), struct.pack("<IIII", r, r, c["c"], c["c"]) + b"\x07" * 140)   # BrtShrFmla
    if k == 2:
        return rec(num_id(426), struct.pack("<IIII", r, r, c["c"], c["c"]) + b"\x00" * 5)   # BrtArrFmla
    return b""


def xlsb_sheet(sh: dict) -> bytes:
    out = [rec(0x181), rec(0x194, struct.pack("<IIII", 0, 9, 0, 9)), rec(0x191)]  # BrtBeginSheet, BrtWsDim, BrtBeginSheetData
    seq = 0
    for row in sh["rows"]:
        r = row["r"] if row.get("r") is not None else seq
        seq = r + 1
        out.append(rec(0, struct.pack("<IIHBBBI", r, r % 3, 0x12C, 0, (0, 0x10, 0x60)[r % 3], 0, 1) + struct.pack("<II", 0, 9)))
        for c in row["cells"]:
            v = c["k"]
            out.append(aside(r, c))
            head = struct.pack("<I", c["c"]) + struct.pack("<I", c.get("s", 0))[:3] + b"\x00"
            fml = struct.pack("<HII", 0, 0, 0)
            if v == "num":
                kind = c.get("rec", "real")
                if kind == "rk":
                    out.append(rec(2, head + struct.pack("<I", rk_of(c))))
                elif kind == "fnum":
                    out.append(rec(9, head + struct.pack("<d", float(c["x"])) + fml))
                else:
                    out.append(rec(5, head + struct.pack("<d", float(c["x"]))))
            elif v == "bool":
                b = bytes((c["b"],))
                out.append(rec(10, head + b + fml) if c.get("rec") == "fbool" else rec(4, head + b))
            elif v == "sst":
                out.append(rec(7, head + struct.pack("<I", c["i"] & 0xFFFFFFFF)))
            elif v == "str":
                out.append(rec(8, head + wide(c["t"]) + fml) if c.get("rec") == "fst" else rec(6, head + wide(c["t"])))
            elif v == "inline":
                out.append(rec(62, head + b"\x01" + wide("".join(runs_of(c)) if "els" in c else c["t"]) + struct.pack("<I", 1) + struct.pack("<HH", 0, 1)))
            elif v == "err":
                b = bytes((ERR_CODES.get(c["e"], 0x2C),))
                out.append(rec(11, head + b + fml) if c.get("rec") == "ferr" else rec(3, head + b))
            else:
                out.append(rec(1, head))
            if c.get("rec") in ("fnum", "fbool", "fst", "ferr"):
                out.append(formula(r, c))
    out.append(rec(402))
    out.append(rec(0x1DC, b"\x00" * 48))
    out.append(rec(0x182))
    return b"".join(out)


def build(wb: dict, fmt: str) -> bytes:
    return xlsx(wb) if fmt == "xlsx" else xlsb(wb)
