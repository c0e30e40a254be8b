"""refreshes the table of planted bugs in DESIGN.md"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), m['property']))
p = H + '/DESIGN.md'; s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '@@SEEDS@@' in s: s = s.replace('@@SEEDS@@', t)
else: s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
