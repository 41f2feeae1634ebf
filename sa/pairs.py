"""Shared helpers over decoder/encoder tables: first-wins maps, shown as hex text."""
import os
from . import ir, tables
def hexkey(key):
    """table key (ints, 256, '*') -> 'AABB,CC' or None if it has a wildcard"""
    if '*' in key: return None
    return ','.join(bytes(u).hex().upper() for u in split(key))
def split(key):
    r = [[]]
    for x in key:
        if x == 256: r.append([])
        else: r[-1].append(x)
    return r
def hexout(out): return ','.join(o.hex().upper() for o in out)
def fmap(codec):
    """-> ({input hex: output hex (prefixed ? for call-back entries)}, wildcards) , earliest entry wins as in the table compiler"""
    m = {}; wild = []
    for e in tables.table(codec) or []:
        if e.err: continue
        k = hexkey(e.key)
        v = ('?' if e.cb else '') + hexout(e.out)
        if k is None: wild.append((e.key, v)); continue
        if e.ci:
            # case-insensitive entries also accept the other case of each letter; the listed spelling is what is compared
            pass
        m.setdefault(k, v)
    return m, wild
def pairs():
    fr = {c.split('/', 1)[1] for c in ir.codecs() if c.startswith('from/')}
    to = {c.split('/', 1)[1] for c in ir.codecs() if c.startswith('to/')}
    return sorted(fr & to)
