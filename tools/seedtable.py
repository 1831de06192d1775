"""Rewrites the table of planted bugs in DESIGN.md (documentation only; no check uses it).
usage: seedtable.py RESULTS, where RESULTS holds lines '== <bug> <property> <exit status of the check>'"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r'== (\S+) (P\d+) (\d+)', l)
    if m:
        res.setdefault(m.group(1), {})[m.group(2)] = int(m.group(3))
rows = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded'), key=lambda i: (json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property'], i)):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    by = [p for p, r in sorted(res.get(i, {}).items()) if r == 1]
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '\\|'), ', '.join(by) or '**missed**'))
t = '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->'
p = V + '/DESIGN.md'
s = open(p).read()
s = s.replace('@@TABLE@@', t) if '@@TABLE@@' in s else re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
