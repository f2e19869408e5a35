#!/usr/bin/env python3
"""Regenerates the per-property section and the table of planted bugs of DESIGN.md (between the markers)."""
import re, json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
missed = json.load(open(R + '/tools/missed.json'))
out = []
for p in props:
    i = p['id']; fs = sorted(glob.glob(R + '/harness/%s.cpp' % i) + glob.glob(R + '/harness/%s_*.cpp' % i))
    out.append('### %s %s\n' % (i, p['title']))
    for f in fs:
        s = open(f).read()
        par = re.findall(r'sx_param\(\s*"([^"]+)",\s*([^,]+?),\s*([^)]+?)\s*\)', s); seen = []
        for a in par:
            if a not in seen: seen.append(a)
        line = '- `harness/%s`' % os.path.basename(f)
        if seen: line += ' bounds (quick/thorough): ' + ', '.join('%s %s/%s' % a for a in seen) + '.'
        m = re.search(r'// SX-ASSUME: (.*)', s)
        if m: line += ' Assumes: ' + m.group(1) + '.'
        m = re.search(r'// SX-STUBS: (.*)', s)
        if m: line += ' Stubs: ' + m.group(1) + '.'
        m = re.search(r'// SX-REACH: (.*)', s)
        if m: line += ' Witnesses: ' + m.group(1) + '.'
        out.append(line)
    out.append('')
bugs = []
for d in sorted(os.listdir(R + '/seeded')):
    f = R + '/seeded/%s/meta.json' % d
    if not os.path.exists(f): continue
    m = json.load(open(f)); bugs.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), missed.get(d, 'caught')))
s = open(R + '/DESIGN.md').read()
def put(s, name, text):
    a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
    return s[:s.index(a) + len(a)] + '\n' + text + '\n' + s[s.index(b):]
s = put(s, 'properties', '\n'.join(out))
s = put(s, 'planted', '| planted bug | check | what it breaks | outcome |\n|---|---|---|---|\n' + '\n'.join(bugs))
open(R + '/DESIGN.md', 'w').write(s)
