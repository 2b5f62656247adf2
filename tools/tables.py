#!/usr/bin/env python3
"""tables.py: rewrites the generated tables of DESIGN.md from the harness entries and seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
consts, entries = {}, []
src = [open(f).read() for f in sorted(glob.glob(ROOT + '/harness/harness/*.go'))]
for s in src:
    for m in re.finditer(r'^\s*(?:const )?(\w+)\s*=\s*("[C0-9 ]+")$', s, re.M):
        consts[m.group(1)] = json.loads(m.group(2))
def props(e):
    return ''.join(json.loads(t) if t[0] == '"' else consts[t] for t in re.split(r'\s*\+\s*', e)).split()
for s in src:
    for m in re.finditer(r'Entry\{"(\w+)",\s*((?:"[^"]*"|\w+)(?:\s*\+\s*(?:"[^"]*"|\w+))*),\s*("(?:[^"\\]|\\.)*"),\s*(true|false)', s):
        entries.append((m.group(1), props(m.group(2)), json.loads(m.group(3)), m.group(4) == 'true'))
def cell(s): return s.replace('|', '\\|')
a = ['| Property | Harnesses |', '|---|---|']
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)
    a.append('| %s %s | %s |' % (p['id'], cell(p['title']), ', '.join(n + ('' if q else ' (thorough)') for n, ps, _, q in entries if p['id'] in ps)))
b = ['| Harness | What is explored |', '|---|---|'] + ['| %s | %s |' % (n, cell(t)) for n, _, t, _ in entries]
c = ['| Change | Property | What it needs |', '|---|---|---|']
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f)); c.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], cell(m['needs'])))
d = open(ROOT + '/DESIGN.md').read()
for name, rows in (('properties', a), ('harnesses', b), ('seeded', c)):
    d = re.sub(r'(<!-- table %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), d, flags=re.S)
open(ROOT + '/DESIGN.md', 'w').write(d)
print(len(entries), 'harnesses')
