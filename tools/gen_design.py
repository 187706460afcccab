#!/usr/bin/env python3
"""Writes DESIGN.md: head (tools/design_head.md) + per-property sections + repairs + planted bugs."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, 'tools'))
import specs, design_notes
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
o = [open(H + '/tools/design_head.md').read().rstrip(), '', '## Properties', '']
class G:  # generated jobs need a directory
    pass
import tempfile
catch = json.load(open(H + '/tools/planted.json')) if os.path.exists(H + '/tools/planted.json') else {}
for p in props:
    i = p['id']
    o.append('### %s  %s' % (i, p['title'])); o.append('')
    if i not in specs.PROPS:
        o += ['Not applicable: see the end of this file.', '']; continue
    s = specs.PROPS[i]; n = design_notes.N[i]
    with tempfile.TemporaryDirectory() as d:
        q = s['jobs']('quick', 1, d); t = s['jobs']('thorough', 1, d)
    o += ['* **Decided by**: ' + s.get('technique', 'runtime monitoring: generated workloads under address/undefined-behaviour sanitizers, judged by a reference-model oracle'),
          '* **Workload**: ' + s['rule'],
          '* **Oracle**: ' + n[0],
          '* **Why beyond the tests**: ' + n[1],
          '* **Limits**: ' + n[2],
          '* **Builds**: quick %s; thorough %s. Refuses to answer (exit 2) below %d cases%s.' % ('/'.join(sorted({j['variant'] for j in q})), '/'.join(sorted({j['variant'] for j in t})), s['min'], (' or ' + ', '.join('%s %d' % kv for kv in sorted(s.get('require', {}).items()))) if s.get('require') else ''), '']
o.append(design_notes.INTRO.strip()); o.append('')
o += ['## Repairs in /repo', '', 'Each is one `fix:` commit, recorded in KNOWN_FINDINGS.txt; no finding is open.', '']
for l in open(H + '/KNOWN_FINDINGS.txt'):
    if l.startswith('fixed:'):
        w = l.split(None, 3); o.append('* %s `%s` %s' % (w[1].split('=')[1], w[2], w[3].strip()))
o += ['', '## Planted bugs', '', 'Written from the property text and the code; kept whether or not caught. "caught" is the quick check of the property, seed 1.', '', '| id | property | needs | quick check |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    o.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), catch.get(i, 'not run')))
open(H + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
