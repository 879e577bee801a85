#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (from properties.jsonl, the description in
props/<ID>.cpp and the notes below), tools/design_tail.md and the table of planted bugs (tools/caught.json)."""
import json, re
from pathlib import Path
V = Path(__file__).resolve().parent.parent

NOTES = json.load(open(V / "tools" / "design_notes.json"))


def strings(text):
    return "".join(m.encode().decode("unicode_escape") if "\\" in m else m for m in re.findall(r'"((?:[^"\\]|\\.)*)"', text))


def split_top(text):
    # top level elements of an initializer list
    out, depth, cur, q = [], 0, "", False
    i = 0
    while i < len(text):
        ch = text[i]
        if q:
            cur += ch
            if ch == "\\":
                i += 1
                cur += text[i]
            elif ch == '"':
                q = False
        elif ch == '"':
            q = True
            cur += ch
        elif ch in "{(":
            depth += 1
            cur += ch
        elif ch in "})":
            depth -= 1
            cur += ch
        elif ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def descriptor(pid):
    t = (V / "props" / (pid + ".cpp")).read_text()
    body = t[t.index("pbt::Property pbt::property = {") + len("pbt::Property pbt::property = {"):]
    body = body[:body.rindex("}")]
    f = split_top(body)
    probes = [split_top(p.strip()[1:-1]) for p in split_top(f[7].strip()[1:-1])] if len(f) > 7 else []
    assume = [strings(a) for a in split_top(f[8].strip()[1:-1])] if len(f) > 8 else []
    return dict(desc=strings(f[2]), level=strings(f[3]), quick=f[4], thorough=f[5], probes=[(strings(p[0]), strings(p[1])) for p in probes], assume=assume)


out = [(V / "tools" / "design_head.md").read_text().rstrip(), ""]
for line in open(V / "properties.jsonl"):
    p = json.loads(line)
    d = descriptor(p["id"])
    n = NOTES[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
            "*Generated and compared.* " + d["desc"], ""]
    if d["probes"]:
        out += ["*Fixed cases run each time.* " + "; ".join("%s (`%s`)" % (b, a) for a, b in d["probes"]) + ".", ""]
    out += ["*Oracle.* " + n["oracle"], "",
            "*Bounds.* %s cases quick, %s thorough (plus coverage-guided fuzzing there). %s" % (d["quick"], d["thorough"], ("; ".join(d["assume"]) + ".") if d["assume"] else ""), "",
            "*Why tests do not settle it.* " + p["why_tests_cant"] + (" " + n["reach"] if n.get("reach") else ""), ""]
    if n.get("note"):
        out += ["*Notes.* " + n["note"], ""]
out += [(V / "tools" / "design_tail.md").read_text().rstrip(), ""]
c = V / "tools" / "caught.json"
if c.exists():
    rows = json.load(open(c))
    out += ["| planted bug | property | needs | result |", "|---|---|---|---|"]
    for i in sorted(rows):
        m = V / "seeded" / i / "meta.json"
        if not m.exists():
            continue
        meta = json.load(open(m))
        out.append("| %s | %s | %s | %s |" % (i, meta["property"], meta["needs"], rows[i]))
    out.append("")
(V / "DESIGN.md").write_text("\n".join(out))
