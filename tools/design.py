"""Write DESIGN.md from tools/design/ and the lists kept elsewhere."""
import json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda n: open(f"{top}/tools/design/{n}").read()
kf = json.load(open(f"{top}/known_findings.json"))
fixes = []
for line in kf["fixed"]:
    prop, commit, what = line.removeprefix("fixed: property=").split(" ", 2)
    fixes.append(f"* {prop}, {commit}: {what}")
rows = ["| change | needs | caught by |", "|---|---|---|"]
for b in sorted(os.listdir(f"{top}/seeded")):
    m = json.load(open(f"{top}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['needs']} | {m['property']} |")
s = read("head.md").rstrip() + "\n\n" + read("props.md").strip() + "\n\n" + read("tail.md")
s = s.replace("FIXES", "\n".join(fixes)).replace("CATCHES", "\n".join(rows)).replace("MUTANTS", read("mutants.txt").strip())
open(f"{top}/DESIGN.md", "w").write(s)
