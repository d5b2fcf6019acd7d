#!/usr/bin/env python3
"""Rewrites the lists of fixes and planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
fix = []
for d in json.load(open(V + '/known_findings.json')):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', d['what'])
    fix.append((m.group(1), m.group(2), m.group(3)))
fix.sort(key=lambda t: t[0])
f = '\n'.join('- %s %s: %s' % t for t in fix)
b = []
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(p))
    b.append('- **%s** (caught by %s): %s. Needs: %s.' % (p.split('/')[-2], d.get('caught_by', d['property']), d['what_it_breaks'].rstrip('.'), d['needs'].rstrip('.')))
def put(s, tag, body):
    a, z = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    if a not in s: return s.replace(tag.upper() + '\n', a + '\n' + body + '\n' + z + '\n')
    i, j = s.index(a), s.index(z)
    return s[:i] + a + '\n' + body + '\n' + s[j:]
s = put(s, 'fixes', f)
s = put(s, 'seeded', '\n'.join(b))
open(V + '/DESIGN.md', 'w').write(s)
