"""Recorded exceptions: one text file per codec, one 'KEY<TAB>VALUE' line each, sorted."""
import os
from . import ir
D = os.path.join(ir.VERIF, 'data')
def load(kind, name):
    p = os.path.join(D, kind, name.replace('/', '_') + '.txt')
    if not os.path.exists(p): return set()
    return {tuple(l.rstrip('\n').split('\t')) for l in open(p)}
def save(kind, name, items):
    p = os.path.join(D, kind, name.replace('/', '_') + '.txt')
    if not items:
        if os.path.exists(p): os.remove(p)
        return
    with open(p, 'w') as f:
        for t in sorted(items): f.write('\t'.join(t) + '\n')
