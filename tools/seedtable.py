"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
lines = open(root + '/DESIGN.md').read().split('\n')
i = next(k for k, l in enumerate(lines) if l.startswith('| seed |'))
j = i + 2
while j < len(lines) and lines[j].startswith('|'):
    j += 1
open(root + '/DESIGN.md', 'w').write('\n'.join(lines[:i + 2] + rows + lines[j:]))
