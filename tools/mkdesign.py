"""DESIGN.md = design_head.txt with the table of planted bugs filled in"""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (d.split('/')[-2], m['needs'], m['property']))
s = open(V + '/tools/design_head.txt').read()
open(V + '/DESIGN.md', 'w').write(s.replace('@@TABLE@@', '\n'.join(rows)))
