"""DESIGN.md = tools/design_head.md + properties with prose (design_props.md) & facets (from checks/) + tools/design_tail.md + planted bugs"""
import ast
import json
import re
from pathlib import Path

HERE = Path(__file__).resolve().parents[1]
props = [json.loads(x) for x in (HERE / "properties.jsonl").read_text().splitlines()]
sec = (HERE / "tools" / "design_props.md").read_text()
parts = dict(re.findall(r"^## (P\d+)\n(.*?)(?=^## P|\Z)", sec, re.S | re.M))
missing = [p["id"] for p in props if not parts.get(p["id"], "").strip()]
assert not missing, missing

facets: dict = {}
for file in sorted((HERE / "checks").glob("*.py")):
    for node in ast.walk(ast.parse(file.read_text())):
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "facet":
            pid, name = (ast.literal_eval(a) for a in node.args[:2])
            kw = {k.arg: k.value for k in node.keywords}
            txt = "".join(c.value for c in ast.walk(kw["rule"]) if isinstance(c, ast.Constant)) if "rule" in kw else ""
            cnt = " / ".join(str(ast.literal_eval(kw[k])) if k in kw else "all" for k in ("quick", "thorough"))
            facets.setdefault(pid, []).append((name, cnt, txt, file.name, node.lineno))
for val in facets.values():
    val.sort(key=lambda v: v[3:])

out = [(HERE / "tools" / "design_head.md").read_text().rstrip(), "", "# 3. Properties and how each is decided", "",
       "Case numbers are base counts (quick / thorough); the quick tier multiplies them by `QUICK_SCALE` (4) for random facets.", ""]
for p in props:
    out += [f"## {p['id']} — {p['title']}", "", p["statement"], "", parts[p["id"]].strip(), ""]
    out += [f"- facet `{n}` ({f}, {c}): {' '.join(t.split())}" for n, c, t, f, _ in facets.get(p["id"], [])] + [""]
bugs = []
notes = json.loads((HERE / "tools" / "caught.json").read_text()) if (HERE / "tools" / "caught.json").exists() else {}
for d in sorted((HERE / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    bugs.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {notes.get(d.name, '')} |")
out += [(HERE / "tools" / "design_tail.md").read_text().rstrip(), "", "| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|", *bugs, ""]
(HERE / "DESIGN.md").write_text("\n".join(out))
