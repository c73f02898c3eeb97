"""Prints the table of planted bugs for DESIGN.md (development only)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
rows = ["| id | property | breaks | needs | check |", "|---|---|---|---|---|"]
missed = {l.strip() for l in open(os.path.join(root, "tools", "missed.txt"))} if os.path.exists(os.path.join(root, "tools", "missed.txt")) else set()
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    j = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    one = lambda t: re.sub(r"\s+", " ", t).replace("|", "/")
    rows.append(f"| {i} | {j['property']} | {one(j['what_it_breaks'])} | {one(j['needs'])} | {'missed' if i in missed else j['property'] + ' quick'} |")
head = s[: s.index("## Planted bugs")]
s = head + "## Planted bugs\n\n`seeded/<id>/`, written from the text of the properties. Each was confirmed to pass the\nstable tests; the last column is the check that reports it (VERIF_SEED=1).\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
