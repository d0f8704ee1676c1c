"""fill the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s))
    rows.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], m.get('caught', 'check ' + m['property'])))
p = V + '/DESIGN.md'
t = open(p).read()
i = t.index('## 5.')
open(p, 'w').write(t[:i] + '## 5. Seeds and what catches them\n\n' + '\n'.join(rows) + '\n')
