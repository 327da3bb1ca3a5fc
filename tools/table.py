"""Write the table of planted bugs into DESIGN.md: python3 tools/table.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(HERE + '/tools/detections.json'))
rows = ['| planted bug | property | quick check | what it breaks |', '|---|---|---|---|']
for k in sorted(d, key=lambda k: (d[k][0], k)):
    if os.path.isdir(HERE + '/seeded/' + k):
        p, w, sub, br = d[k]
        rows.append('| %s | %s | %s | %s |' % (k, p, 'caught (%s)' % sub.split('/')[0] if w == 'caught' else w, br.replace('|', '/')))
p = HERE + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- detections -->\n', '<!-- end of detections -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n\n' + s[j:])
print(len(rows) - 2)
