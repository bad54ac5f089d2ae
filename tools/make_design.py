"""Puts the table of planted changes into DESIGN.md (between its markers)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for path in sorted(glob.glob(f"{here}/seeded/*/meta.json")):
    m = json.load(open(path))
    i = os.path.basename(os.path.dirname(path))
    rows.append((m["property"], i, m))
text = open(f"{here}/DESIGN.md").read()
star = set(i for l in re.findall(r"^- \*\*([s-z]\d+(?:, [s-z]\d+)*)\*\*", text, re.M) for i in l.split(", "))
table = ["| change | caught by | what it breaks | needs |", "|---|---|---|---|"]
esc = lambda s: s.replace("|", "\\|").replace("\n", " ")
for p, i, m in sorted(rows):
    table.append(f"| {i}{'*' if i.split('-')[0] in star else ''} | {p} | {esc(m['what_it_breaks'])} | {esc(m['needs'])} |")
block = "<!-- table -->\n" + "\n".join(table) + "\n<!-- /table -->"
text = re.sub(r"@@TABLE@@|<!-- table -->.*?<!-- /table -->", lambda _: block, text, flags=re.S)
open(f"{here}/DESIGN.md", "w").write(text)
