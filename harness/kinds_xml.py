"""Workbooks whose XML is written in other forms."""
from __future__ import annotations

import io
import random
import zipfile

import real
import wb as W
import xmlform
from txt import dec, enc


def do_reform(case):
    """A random read; every XML part is written differently."""
    data = W.build(case["book"], case["fmt"])
    return real.read_case(case, xmlform.rewritten(data, random.Random(case["form"]), case["p"]))


def do_xml(case):
    """Contents at one site, each in a cell of its own."""
    from rxls.reader import read

    site, srcs = case["site"], [dec(s) for s in case["srcs"]]
    cells, items = [], []
    for n, s in enumerate(srcs):
        pos = f'<row r="{n + 1}"><c r="A{n + 1}"'
        if site == "shared":
            items.append(f"<si><t>x{s}y</t></si>" if n % 2 else f"<si><r><t>x</t></r><r><t>{s}y</t></r></si>")
            cells.append(f'{pos} t="s"><v>{n}</v></c></row>')
        elif site == "index":
            cells.append(f'{pos} t="s"><v>1{s}</v></c></row>')
        elif site == "inline":
            cells.append(f'{pos} t="inlineStr"><is><t>x{s}y</t></is></c></row>')
        elif site == "str":
            cells.append(f'{pos} t="str"><f>A1</f><v>x{s}y</v></c></row>')
        else:
            cells.append(f'{pos} s="1"><v>1{s}</v></c></row>')
    if site == "index":
        items = [f"<si><t>i{k}</t></si>" for k in range(1778)]
    book = {"sheets": [{"name": "S", "rows": []}], "styles": {"fmts": {}, "xfs": [0, 2]}, "sst": []}
    bio = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(W.build(book, "xlsx"))) as z, zipfile.ZipFile(bio, "w") as w:
        for name in z.namelist():
            b = z.read(name)
            if name.endswith("sheet1.xml"):
                head, tail = b.split(b"<sheetData>")
                b = head + b"<sheetData>" + "".join(cells).encode() + tail
            elif name.endswith("sharedStrings.xml"):
                b = b.replace(b"</sst>", "".join(items).encode() + b"</sst>")
            w.writestr(zipfile.ZipInfo(name), b)
    try:
        t = read(bio, 0, 0)
    except Exception as e:  # noqa: BLE001
        return {"err": repr(e)[:300]}
    col = t.column(0).to_pylist()
    return {"got": [enc(v) if isinstance(v, str) else real.num_str(v) if v is not None else None for v in col]}
