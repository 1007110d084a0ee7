"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check uses it)."""
import glob, json, re
rows = ['<!-- seeds -->', '| id | property | what it breaks | caught by |', '|---|---|---|---|']
caught = json.load(open('caught.json'))
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[1]
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), caught.get(i, '?')))
rows.append('<!-- /seeds -->')
t = open('DESIGN.md').read()
t = t.replace('@@SEEDS@@', '<!-- seeds -->\n<!-- /seeds -->')
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '\n'.join(rows), t, flags=re.S)
open('DESIGN.md', 'w').write(t)
