"""Writes the table of planted changes into DESIGN.md (development only)."""
import json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['| Change | Check that catches it | Needs |', '|----|----|----|']
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs']))
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end of seeds -->\n'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- end of seeds -->\n', lambda _: t, s, flags=re.S)
open(f, 'w').write(s)
