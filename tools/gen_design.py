"""Rewrites the generated tables of DESIGN.md from evidence/ and seeded/."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {p["id"]: p["title"] for p in map(json.loads, open(f"{ROOT}/properties.jsonl"))}
numbers = ["| id | property | states | edges | steps judged | s |", "|---|---|---|---|---|---|"]
for i in sorted(titles):
    e = json.load(open(f"{ROOT}/evidence/{i}.json"))
    c = e["coverage"]
    numbers.append(f"| {i} | {titles[i]} | {c['states']} | {c['transitions']} | {c['traces_validated_against_impl']} | {e['wall_s']:.0f} |")
metas = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in glob.glob(f"{ROOT}/seeded/*/meta.json")}
matrix = ["| caught by | change | what it breaks |", "|---|---|---|"]
for i, m in sorted(metas.items(), key=lambda x: (x[1]["property"], x[0])):
    matrix.append(f"| {m['property']} | `{i}` | {m['what_it_breaks'].rstrip('.')} |")
text = open(f"{ROOT}/DESIGN.md").read()
for name, rows in (("numbers", numbers), ("matrix", matrix)):
    text = re.sub(f"<!-- {name} -->.*<!-- /{name} -->", lambda _: f"<!-- {name} -->\n" + "\n".join(rows) + f"\n<!-- /{name} -->", text, flags=re.S)
open(f"{ROOT}/DESIGN.md", "w").write(text)
