"""Writes DESIGN.md from tools/design_*.md, the contracts and the seeded bugs."""
import ast
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
props = [json.loads(x) for x in open("properties.jsonl")]
by = {}
for f in sorted(glob.glob("contracts/*.py")):
    for n in ast.parse(open(f).read()).body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == \
                    "contract":
                kw = {k.arg: k.value for k in d.keywords}
                conc = "prove" in kw and kw["prove"].value is False
                by.setdefault(d.args[0].value, []).append(
                    (n.name, " ".join((ast.get_docstring(n) or "").split()),
                     conc, "bound" in kw, os.path.basename(f)))
manifest = json.load(open("MANIFEST.json"))
na = {x["property"]: x["reason"] for x in manifest.get("not_applicable", [])}
how = json.load(open("tools/design_how.json"))
out = [open("tools/design_head.md").read()]
out.append("\n## 2. Cost\n\nA quick check takes 2-40 s, all of them about "
           "60 s on 8 cores; the thorough tier adds larger ranks, more "
           "dimension patterns, ports and text sizes, and more seeded inputs "
           "(1-10 min each).  Evidence: `evidence/<id>.json` (functions under "
           "contract, obligations by back end, solver seconds, bounded "
           "parts, undischarged cases).\n")
out.append("\n## 3. The properties\n")
for p in props:
    i = p["id"]
    out.append("\n### %s %s\n" % (i, p["title"]))
    if i in na:
        out.append("\nNot applicable: %s\n" % na[i])
        continue
    cs = by.get(i, [])
    out.append("\n%s\n" % how[i])
    out.append("\nContracts (%s): " % ", ".join(sorted({c[4] for c in cs})))
    out.append("; ".join("`%s`%s%s%s" % (
        n, " - " + doc.rstrip(".") if doc else "",
        " [concrete only]" if conc else "", " [bounded]" if b else "")
        for n, doc, conc, b, f in cs) + ".\n")
tail = open("tools/design_tail.md").read()
kf = json.load(open("known_findings.json"))
rows = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (
        m.split("/")[1], d["property"], d["what_it_breaks"], d["needs"]))
b = []
for i in sorted(by):
    x = ["`%s`" % c[0] for c in by[i] if c[2]]
    y = ["`%s`" % c[0] for c in by[i] if c[3] and not c[2]]
    if x:
        b.append("* %s, seeded concrete inputs only: %s" % (i, ", ".join(x)))
    if y:
        b.append("* %s, symbolic values with fixed sizes: %s" % (
            i, ", ".join(y)))
out.append("\n" + tail % dict(
    nfix=sum(k["status"] == "fixed" for k in kf), seeded="\n".join(rows),
    bounded="\n".join(b),
    notclaimed="\n".join("* " + x for x in open(
        "tools/design_notclaimed.txt").read().splitlines())))
open("DESIGN.md", "w").write("".join(out))
