#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: harnesses and bounds per property, and the
planted bugs each check reports."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
titles = {}
for l in open('properties.jsonl'):
    p = json.loads(l)
    titles[p['id']] = p['title']
na = {n['property']: n['reason'] for n in json.load(open('MANIFEST.json'))['not_applicable']}
hs = {}
for f in sorted(glob.glob('harness/h/*.go')):
    for m in re.finditer(r'((?://.*\n)+)func (\w+)\(\)', open(f).read()):
        c = m.group(1)
        p = re.search(r'gosym:prop (.*)', c)
        if not p: continue
        g = lambda k: [x.strip() for x in re.findall(r'gosym:%s (.*)' % k, c)]
        tier = ' (thorough tier only)' if 'thorough' in g('tier') else ''
        doc = c.splitlines()[0].lstrip('/ ')
        for i in p.group(1).split():
            hs.setdefault(i, []).append('`%s`%s: %s' % (m.group(2), tier, ' '.join(g('bound')) or doc))
def harnesses():
    out = []
    for i in sorted(titles):
        out.append('* **%s %s.** ' % (i, titles[i]) + ('Not applicable: ' + na[i] if i in na else ''))
        out += ['  * ' + h for h in hs.get(i, [])]
    return '\n'.join(out)
def seeds():
    by = {}
    for m in sorted(glob.glob('seeded/*/meta.json')):
        j = json.load(open(m))
        by.setdefault(j['property'], []).append((m.split('/')[1], j))
    out = ['| check | planted bug | what it breaks | needs |', '|---|---|---|---|']
    for i in sorted(by):
        for n, j in by[i]:
            out.append('| %s | %s | %s | %s |' % (i, n, j['what_it_breaks'], j['needs']))
    return '\n'.join(out)
s = open('DESIGN.md').read()
for k, f in (('harnesses', harnesses), ('planted', seeds)):
    a, b = '<!-- %s -->\n' % k, '\n<!-- end %s -->' % k
    s = s[:s.index(a) + len(a)] + f() + s[s.index(b):]
open('DESIGN.md', 'w').write(s)
