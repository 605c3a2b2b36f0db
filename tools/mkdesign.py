"""Refresh the table of planted bugs in DESIGN.md (between the marks)."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
rows = ['<!-- seeded -->', '| planted bug | property (check) | needs |', '|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append(f'| {f.split("/")[1]} | {d["property"]} | {d["needs"]} |')
rows.append('<!-- /seeded -->')
s = open('DESIGN.md').read()
t = '\n'.join(rows)
s = s.replace('@@TABLE@@', t) if '@@TABLE@@' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: t, s, flags=re.S)
open('DESIGN.md', 'w').write(s)
