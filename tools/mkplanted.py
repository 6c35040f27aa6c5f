"""Rewrite the table of planted bugs at the end of DESIGN.md (run by hand)."""
import glob, json
p = '/verif/DESIGN.md'; s = open(p).read()
i=s.find("\n## Planted bugs")
if i>=0: s=s[:i]
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append(f"| {d.split('/')[3]} | {m['what_it_breaks']} | {m['needs']} |")
s=s.rstrip()+"""

## Planted bugs

Each lies in `seeded/<id>/` and was validated in a scratch copy (applies, stable tests pass, demonstration fails with it and
passes without).  Each is caught by the quick check of the property in its name, with VERIF_SEED=1.

| id | breaks | manifests with |
|---|---|---|
"""+"\n".join(rows)+"\n"
open(p,'w').write(s)
