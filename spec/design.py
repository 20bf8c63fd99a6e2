#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.py, the docstrings of the rules, known-findings.txt and seeded/."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/spec')
import props
docs = {}
for f in glob.glob(V + '/analysis/rules/*.py'):
    for m in re.finditer(r'^def ([A-Z]\d\d)\(c\):\n    """(.*?)"""', open(f).read(), re.S | re.M):
        docs[m[1]] = ' '.join(m[2].split())
find = {}
fixed = {}
for l in open(V + '/known-findings.txt'):
    m = re.match(r'known: property=(\w+) key=(\S+) (.*)', l)
    if m:
        find.setdefault(m[1], []).append((m[2], m[3]))
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m:
        fixed.setdefault(m[1], []).append((m[2], m[3]))
seeds = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(d))
    seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(d)), j))
o = [open(V + '/spec/design_head.md').read()]
o.append('## Properties\n\nFor each: what is analysed, against what, within what bounds; the full statement is in `properties.jsonl`.\n')
for p in props.P:
    if p['na']:
        continue
    i = p['id']
    o.append(f"### {i} – {p['title']}\n")
    o.append(p['statement'] + '\n')
    if i in docs:
        o.append(f"*Decided by:* {docs[i]}\n")
    o.append(f"*Quantifies over* {p['text']}; *technique:* {p['technique'] or p['mech'] if isinstance(p['technique'] or p['mech'], str) else ''}. *Why tests do not settle it:* {p['why']}\n")
    if p['note']:
        o.append(f"*Limits:* {p['note']}\n")
    for k, t in find.get(i, ()):
        o.append(f"*Known finding* `{k}`: {t}\n")
    for k, t in fixed.get(i, ()):
        o.append(f"*Fixed* ({k}): {t}\n")
    for k, j in seeds.get(i, ()):
        o.append(f"*Planted, caught:* `{k}` – {j['what_it_breaks']} (needs: {j['needs']})\n")
o.append('## Not applicable\n')
for p in props.P:
    if p['na']:
        o.append(f"* **{p['id']} {p['title']}** – {p['statement']} *Reason:* {p['na']}\n")
if os.path.exists(V + '/spec/design_tail.md'):
    o.append(open(V + '/spec/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
