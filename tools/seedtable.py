"""Rewrites the table of planted bugs at the end of DESIGN.md (for the author; no check uses it)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    one = lambda t: re.sub(r'\s+', ' ', t).replace('|', '/').strip()
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], one(m['needs']), one(m['what_it_breaks'])))
p = V + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n| planted bug | caught by | needs | what it breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = re.sub(r'SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
