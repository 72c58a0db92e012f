"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check uses it)."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)) + '/..'
rows = []
for s in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{s}/meta.json'))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = "<!-- table -->\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /table -->"
p = here + '/DESIGN.md'
d = open(p).read()
d = re.sub(r'SEEDED-TABLE|<!-- table -->.*<!-- /table -->', lambda _: t, d, flags=re.S)
open(p, 'w').write(d)
