#!/usr/bin/env python3
"""warms the object cache; every check builds what it needs by itself as well"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS
done = set()
for k in sorted(CHECKS):
    for p in CHECKS[k]['parts']:
        key = (p['variant'], p['harness'])
        if key in done:
            continue
        done.add(key)
        B.build(p['variant'], os.path.join(B.VERIF, 'harness', p['harness']), only=p.get('only'),
                extra_src=[os.path.join(B.VERIF, 'harness', s) for s in p.get('extra_src', [])], extra_flags=p.get('extra_flags', []))
print('built', len(done))
