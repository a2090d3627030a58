#!/usr/bin/env python3
# writes /verif/DESIGN.md: the text below, and per property its bounds from checks/, its findings and its planted bugs
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
known = json.load(open(V + '/known_findings.json'))
seeds = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
HOW = json.load(open(V + '/tools/how.json'))
na = json.load(open(V + '/tools/na.json'))
o = [open(V + '/tools/design_head.md').read().rstrip() + '\n']
o.append('\n## 7. Property by property\n')
for p in props:
    i = p['id']; o.append('\n### %s — %s\n' % (i, p['title']))
    if not os.path.exists(V + '/checks/%s.py' % i):
        r = na.get(i) if isinstance(na, dict) else next((x['reason'] for x in na if x.get('property', x.get('id')) == i), '')
        o.append('\nNot applicable: %s\n' % (r if isinstance(r, str) else r.get('reason', ''))); continue
    d = {}; exec(open(V + '/checks/%s.py' % i).read(), d); s = d['SPEC']
    o.append('\n%s\n' % HOW.get(i, ''))
    o.append('\n- Bounds: %s.\n- Outside: %s.\n' % (s.get('bounds', ''), s.get('outside', '')))
    o.append('- Entries: %s. Models: %s.%s\n' % (', '.join(e['name'].replace('harness_', '') for e in s['entries']), ', '.join(['core'] + [x[:-3] for x in s.get('env', [])]), ' Preemption at shared accesses of: %s.' % ', '.join('`%s`' % x for x in s['preempt']) if s.get('preempt') else ''))
    for k in known:
        if k['property'] == i: o.append('- %s: %s.\n' % ('Repaired' if k['status'] == 'fixed' else 'Known finding', k['what'].replace('fixed: property=%s ' % i, '')))
    for n, m in seeds.get(i, []): o.append('- Planted bug `%s`: %s. Needs: %s.%s\n' % (n, m['what_it_breaks'], m['needs'], ' (' + m['note'] + ')' if m.get('note') else ' Caught.'))
open(V + '/DESIGN.md', 'w').write(''.join(o))
