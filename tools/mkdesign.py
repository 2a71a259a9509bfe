"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in glob.glob(R + '/seeded/*/meta.json'):
    m = json.load(open(p))
    rows.append((m['property'], os.path.basename(os.path.dirname(p)),
                 m['needs'], m['what_it_breaks']))
rows.sort()
d = open(R + '/DESIGN.md').read()
a = d.index('| planted change |')
b = d.index('\n\n', a)
t = ['| planted change | property | needs | what it breaks | caught by its check |',
     '|---|---|---|---|---|']
t += ['| %s | %s | %s | %s | yes |' % (i, p, n, w) for p, i, n, w in rows]
open(R + '/DESIGN.md', 'w').write(d[:a] + '\n'.join(t) + d[b:])
