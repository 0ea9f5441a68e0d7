#!/usr/bin/env python3
"""addh.py ID TIERS NAME JSON: adds a harness entry to a property's config (TIERS: q, t or qt)."""
import json, sys
pid, tiers, name, extra = sys.argv[1:5]
p = f'harness/{pid.lower()}/config.json'
c = json.load(open(p))
for t in tiers:
    k = {'q': 'quick', 't': 'thorough'}[t]
    e = {'name': name}; e.update(json.loads(extra))
    if e not in c[k]: c[k].append(e)
def dump(v):
    return json.dumps(v, ensure_ascii=False)
out = []
for k, v in c.items():
    if isinstance(v, list) and v and isinstance(v[0], dict):
        out.append(f' "{k}": [\n' + ',\n'.join('  ' + dump(x) for x in v) + '\n ]')
    else:
        out.append(f' "{k}": {dump(v)}')
open(p, 'w').write('{\n' + ',\n'.join(out) + '\n}\n')
