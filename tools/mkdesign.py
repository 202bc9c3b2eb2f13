"""Regenerates the table of planted bugs in DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = dict(l.rstrip('\n').split('|', 1) for l in open(V + '/tools/seed_notes.txt') if '|' in l)
rows = ['| planted bug | property | needs | first missed: what was added |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '), NOTES.get(i, '')))
s = open(V + '/DESIGN.md').read()
a = s.index('<!-- seeds -->') if '<!-- seeds -->' in s else s.index('SEEDTABLE')
b = s.index('<!-- /seeds -->') + len('<!-- /seeds -->') if '<!-- /seeds -->' in s else a + len('SEEDTABLE')
open(V + '/DESIGN.md', 'w').write(s[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->' + s[b:])
