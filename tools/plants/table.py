"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json and the notes below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
NOTES = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'notes.py')).read())
rows = []
for n in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', n, 'meta.json')))
    rows.append('| %s | %s; needs %s | %s |' % (n, m['what_it_breaks'], m['needs'], NOTES.get(n, m['property'])))
text = HEAD + '\n\n| bug | what it does | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
i = s.find('\n## 5. ')
s = (s if i < 0 else s[:i + 1].rstrip('\n') + '\n') .rstrip('\n') + '\n\n' + text
open(p, 'w').write(s)
