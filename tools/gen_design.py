"""Rewrites the planted-bug table and the list of repairs in DESIGN.md from seeded/*/meta.json, tools/caught.json and KNOWN_FINDINGS.txt."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
caught = json.loads((V / "tools/caught.json").read_text())
rows = ["| id | property | what it needs | what breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    f = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d.name} | {m['property']} | {f(m['needs'])} | {f(m['what_it_breaks'])} | {' '.join(caught.get(d.name, [])) or '**missed**'} |")
fixed = [line[7:] for line in (V / "KNOWN_FINDINGS.txt").read_text().splitlines() if line.startswith("fixed:")]
lines = []
for line in fixed:
    m = re.match(r"property=(\S+) (\S+) (.*)", line.strip())
    lines.append(f"* {m[1]} `{m[2]}` {m[3]}")
text = (V / "DESIGN.md").read_text()
def put(name, body):
    global text
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + "\n" + body + "\n" + text[j:]
put("seeded", "\n".join(rows))
put("fixed", "\n".join(lines))
(V / "DESIGN.md").write_text(text)
