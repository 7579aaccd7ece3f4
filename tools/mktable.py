"""refresh the bounds in DESIGN.md's property table from props.py"""
import os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
p = H + '/DESIGN.md'
out = []
for l in open(p):
    m = re.match(r'\| (C\d\d) \| (.*?) \| (.*?); (.*) \| (.*?) \|$', l)
    if m and m.group(1) in props.PROPS:
        q = props.PROPS[m.group(1)]
        mods = 'harness/src/{%s}.rs' % ','.join(q['modules'])
        if q.get('engine') == 'conc':
            mods += ' + engine/conc.py'
        what = m.group(3)
        l = '| %s | %s | %s; %s | %s |\n' % (m.group(1), mods, what, q['bounds'], m.group(5))
    out.append(l)
s = ''.join(out)
import json
if '<!-- seeded -->' in s and os.path.isdir(H + '/seeded'):
    s = s[:s.index('<!-- seeded -->')] + '''<!-- seeded -->
## Planted bugs

Each is in `seeded/<id>/` with a demonstration; each is caught by the quick check of its property.

| bug | caught by | needs |
|-----|-----------|-------|
'''
    for d in sorted(os.listdir(H + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
        s += '| %s | %s | %s |\n' % (d, m['property'], m['needs'])
open(p, 'w').write(s)
