# rewrites the table of planted bugs at the end of DESIGN.md
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = os.path.join(here, 'DESIGN.md'); s = open(p).read(); i = s.index('<!-- seeded')
rows = []
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json'))); rows.append('| %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/')[:220]))
open(p, 'w').write(s[:i] + '<!-- seeded: tools/seedtab.py -->\n| bug | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
