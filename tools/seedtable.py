"""Refresh the table of planted changes in DESIGN.md (between the markers)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted change | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(ROOT + '/seeded/*'), key=lambda d: json.load(open(d + '/meta.json'))['property']):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s%s | %s |' % (os.path.basename(d), m['property'], ''.join(', ' + x for x in m.get('also', [])), m['needs']))
t = open(ROOT + '/DESIGN.md').read()
new = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
t = re.sub('SEEDTABLE|<!-- seeds -->.*?<!-- /seeds -->', lambda m: new, t, flags=re.S)
open(ROOT + '/DESIGN.md', 'w').write(t)
