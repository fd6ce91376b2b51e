#!/usr/bin/env python3
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
props = {}
for l in open(V + '/properties.jsonl'):
    j = json.loads(l); props[j['id']] = j
o = open(V + '/tools/design_head.md').read()
o += '## Properties\n\n'
o += '| id | property | specs | functions under contract | obligations | solver s | quick s |\n|---|---|---|---|---|---|---|\n'
for k in sorted(PROPS):
    p = PROPS[k]
    e = {}
    try: e = json.load(open(f'{V}/evidence/{k}.json'))
    except Exception: pass
    c = e.get('coverage', {})
    o += f"| {k} | {props[k]['title']} | {', '.join(p['specs'])} | {len(c.get('functions_under_contract', []))} | {c.get('discharged','?')}/{c.get('obligations','?')} | {c.get('solver_ms',0)/1000:.0f} | {e.get('wall_s',0):.0f} |\n"
o += '\n(numbers of the last run when this file was generated; the evidence files are authoritative)\n\n'
for k in sorted(PROPS):
    p, q = PROPS[k], props[k]
    o += f"### {k} {q['title']}\n\n"
    o += f"*Quantifies over* {q['quantifier']['text']}. *Tests cannot settle it:* {q['why_tests_cant']}\n\n"
    o += f"*Proved.* {p['note']}\n\n"
    o += f"*Bounded stand-in ({p['harness']}).* {p['bounded_covers']}.\n\n"
    o += '*Assumed, unchecked.* ' + '; '.join(p['assumptions']) + '.\n\n'
o += open(V + '/tools/design_notes.md').read()
o += '\n## Genuine defects found and repaired\n\n'
for l in open(V + '/known_findings.txt'):
    l = l.strip()
    if l.startswith('fixed:'):
        a = l.split(' ', 3); o += f"* {a[1].split('=')[1]} `{a[2]}` {a[3]}\n"
o += '\n## Planted bugs (`seeded/`)\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
caught = {}
cf = V + '/tools/caught.json'
if os.path.exists(cf): caught = json.load(open(cf))
for d in sorted(glob.glob(V + '/seeded/*/')):
    m = json.load(open(d + 'meta.json')); n = os.path.basename(d[:-1])
    o += f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(n, '?')} |\n"
open(V + '/DESIGN.md', 'w').write(o)
