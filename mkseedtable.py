"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, 'DESIGN.md')
d = open(p).read()
head = d[:d.index('## Planted bugs')]
rows = []
for sid in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', sid, 'meta.json')))
    c = lambda s: s.strip().replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {sid} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
open(p, 'w').write(head + '''## Planted bugs

Each was written from the text of its property, passes the existing tests and breaks its own
demonstration; the check of the property named reports each of them (quick tier). Some were
missed at first and the check was strengthened until it saw them, such as records whose names
differ in blanks (C23). Mutants of single expressions that survived every check were used in
the same way: they led to the constructors of C02, the requests that do not converge and the
exponentials of large norm of C19, and the diagonal members of C06.

| bug | caught by | needs | breaks |
|---|---|---|---|
''' + '\n'.join(rows) + '\n')
