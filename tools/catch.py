"""regenerates the table of planted bugs in DESIGN.md"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | what it breaks |', '|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d.get('caught_by', d['property']), d['what_it_breaks']))
p = root + '/DESIGN.md'
s = open(p).read()
s = s[:s.index('<!--CATCH-->')] + '<!--CATCH-->\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
