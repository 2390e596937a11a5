#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property (proptable.py) + design_tail.md"""
import os, props
H = os.path.dirname(os.path.abspath(__file__))
out = [open(os.path.join(H, 'design_head.md')).read()]
cl = {i: (t, n) for i, t, n in props.CLAIMED}
for p in props.PROPS:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    if i in cl:
        out.append('*Decided by*: %s. *Beyond the tests*: %s *Bounds*: %s\n' % (cl[i][0], p['why_tests_cant'], cl[i][1]))
    else:
        out.append('*Not applicable*: %s\n' % props.NA[i])
out.append(open(os.path.join(H, 'design_tail.md')).read())
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
