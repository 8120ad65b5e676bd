"""Development only: fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
rows=[]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m=json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s=open("/verif/DESIGN.md").read()
a=s.index("## Planted bugs")
s=s[:a]+"""## Planted bugs

Each was confirmed in a scratch copy (builds, passes the stable tests, its
demonstration fails only with the change) and is caught by the check of its
property; `tools/testseed.sh ID` repeats that.

| id | caught by | what it breaks | needs |
|---|---|---|---|
"""+"\n".join(rows)+"""

`tools/uncounted/` holds c09-old-linkers (changes a data file; caught by C09) and
c14-gap, c14-open-ended, c14-wasm (change only build constraints; caught by C14),
and c09-emoji-name (its tests vanish rather than fail; caught by C09).
"""
open("/verif/DESIGN.md","w").write(s)
