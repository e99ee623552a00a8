"""prints the table of planted bugs for DESIGN.md (not used by any check)"""
import glob, json
r = {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(f))
    r.setdefault(d['property'], []).append((f.split('/')[-2], d['what_it_breaks']))
for k in sorted(r):
    for n, b in r[k]:
        print('* **%s** `%s`: %s' % (k, n, b))
