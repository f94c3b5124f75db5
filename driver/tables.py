"""Writes the tables of DESIGN.md: the models' sizes and the planted bugs.
caught.txt has the outcomes as the runs left them; this is documentation."""
import json, os, re
from lib import VERIF
import models, vocab

os.chdir(VERIF)


def put(text, name, rows):
    return re.sub(rf"(<!-- {name} -->\n).*?(<!-- end {name} -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), text, flags=re.S)


used = {}
for pid, plans in models.PLANS.items():
    for _, ns in plans:
        for n in ns:
            used.setdefault(n, []).append(pid)
for pid, ns in models.DEEPER.items():
    for n in ns:
        used.setdefault(n, []).append(pid)
rows = ["| model | module | states | runs | replayed by |", "| --- | --- | --- | --- | --- |"]
for n in sorted(vocab.FAMILIES):
    p = os.path.join(models.MC, n + ".stat")
    if os.path.exists(p):
        d = json.load(open(p))
        by = ", ".join(sorted(set(used.get(n, [])))) or ("C18, C19" if n == "cli" else "TLC only")
        rows.append(f"| `{n}` | {vocab.FAMILIES[n]['module']} | {d['distinct']:,} | {d['runs']:,} | {by}{' (thorough)' if n in vocab.DEEP else ''} |")
t = put(open("DESIGN.md").read(), "models", rows)
res = dict(l.split() for l in open("caught.txt")) if os.path.exists("caught.txt") else {}
rows = ["| id | property | needs | breaks | outcome |", "| --- | --- | --- | --- | --- |"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(d, '?')} |".replace("\t", "\\t"))
t = put(t, "seeded", rows)
open("DESIGN.md", "w").write(t)
