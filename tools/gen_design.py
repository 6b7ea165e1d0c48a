"""Render DESIGN.md."""
import ast, glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from design_notes import N
rd = lambda *p: open(os.path.join(ROOT, *p)).read()
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
notes = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
seeds = {}
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    seeds[os.path.basename(d)] = json.load(open(d + "/meta.json"))
o = [rd("tools", "design_head.md"), "## 2. Properties and how each is decided\n\n"]
def cases(i):
    out = []
    for n in ast.parse(rd("rtm", "props", i.lower() + ".py")).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "case":
                    kw = {k.arg: ast.unparse(k.value) for k in d.keywords}
                    doc = (ast.get_docstring(n) or "").split("\n\n")[0].replace("\n", " ")
                    out.append((n.name, kw.get("quick"), kw.get("thorough"), doc))
    return out
for p in props:
    i = p["id"]
    tech, note = notes[i]
    oracle, bounds = N[i]
    o.append(f"### {i} — {p['title']}\n\n*Technique:* {tech}.\n\n*Oracle:* {oracle}\n\n")
    o.append("*Workloads* (executions quick / thorough): " + "; ".join(
        f"`{n}` {q}/{t}" + (f" — {d.rstrip('.')}" if d else "") for n, q, t, d in cases(i)) + ".\n\n")
    if bounds != "—":
        o.append(f"*Bounds and what is left out:* {bounds}\n\n")
    c = [s for s, m in seeds.items() if m["property"] == i]
    if c:
        o.append("*Seeded changes caught:* " + ", ".join(f"`{x}`" for x in c) + ".\n\n")
o.append("Why this reaches what unit tests cannot: each statement quantifies over inputs, layouts, histories or schedules. The test "
         "suite samples one or two ordered data sets (all sources first, one source, one target, consecutive labels) per component; the "
         "monitors run thousands of layouts per component and judge every row of every output.\n\n")
o.append("## 3. Defects found and repaired\n\nEach is a `fix:` commit in /repo, found by a monitor, and the monitor reports it again if it returns.\n\n")
for f in kf["fixed"]:
    o.append("* " + f.removeprefix("fixed: ") + "\n")
o.append("\n## 4. Defects recorded, not repaired\n\nListed in `known_findings.json` by property and key (the specific observation); any other "
         "violation of the same property is still reported.\n\n")
for f in kf["findings"]:
    o.append(f"* {f['property']} `{f['key']}` — {f['what']}\n")
o.append("\n## 5. Planted changes\n\n" + rd("tools", "design_mut.md") + "\n| seeded change | property | caught by | needs |\n|---|---|---|---|\n")
for s, m in seeds.items():
    o.append(f"| {s} | {m['property']} | {m['property']} | {m['needs'].replace('|', '/')} |\n")
o.append("\n" + rd("tools", "design_tail.md") + rd("tools", "design_cov.md"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(o))
