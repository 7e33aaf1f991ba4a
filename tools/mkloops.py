"""Writes verus/LOOPS: the forms (for, while, loop) of the loops each function's invariants are written for."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vgen, verus_stage
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = vgen.Gen(os.environ.get('VERIF_REPO', '/repo'), os.path.join(root, 'verus'))
g.want_kinds = {}
g.build(verus_stage.order(os.path.join(root, 'verus')))
with open(os.path.join(root, 'verus', 'LOOPS'), 'w') as f:
    for q, k in sorted(g.kinds.items()):
        if k:
            f.write('%s\t%s\n' % (q, k))
