"""Rewrites the table of DESIGN.md's section 6 from seeded/*/meta.json."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
rows = []
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s |' % (d, m.get('caught_by', m['property']), m['needs'].replace('|', '/').replace('\n', ' ')))
t = open(HERE + '/DESIGN.md').read()
t = re.sub(r'(\| bug \| caught by \| what it needs \|\n\|---\|---\|---\|\n)(\|.*\n)*', lambda k: k.group(1) + '\n'.join(rows) + '\n', t)
open(HERE + '/DESIGN.md', 'w').write(t)
