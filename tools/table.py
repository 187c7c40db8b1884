"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development only)."""
import glob, json, os, re
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|')))
lines = open('DESIGN.md').read().split('\n')
ix = [i for i, l in enumerate(lines) if re.match(r'\| S\d+ \|', l)]
lines[ix[0]:ix[-1] + 1] = rows
open('DESIGN.md', 'w').write('\n'.join(lines))
