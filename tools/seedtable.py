#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeds -->', '| planted bug | what it breaks | caught by |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m.get('caught_by', m['property'])))
rows.append('<!-- /seeds -->')
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->', lambda _: '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
