"""Prints the per-property table of DESIGN.md from dd/props.py and specs/."""
import json, sys, re
sys.path.insert(0, '/verif')
from dd import props
for p in props.PROPS:
    try: d = json.load(open(f"/verif/specs/{p['id']}.json"))
    except OSError: continue
    us = d['units']; n = 0
    for u in us.values():
        it = u.get('items') if isinstance(u, dict) else u[1]
        n += len(it or [])
    print(f"| {p['id']} | {p['title']} | {len(us)} | {n} | {', '.join(x.replace('differential-dataflow/src/','').replace('interactive/src/','interactive:').replace('dogsdogsdogs/src/','dogs:') for x in p['files'])} |")
