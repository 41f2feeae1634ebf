"""Exhaustive composition of every decoder/encoder table pair of the same charset: for each entry of one table the other
table must map its result back to it (the earliest entry of an input wins, as in the table compiler). One-way mappings
that the charset ships are recorded, entry by entry with their value, in data/oneway; any other non-inverse entry is a violation."""
from .. import ir, pairs, record
def oneway(name):
    d, _ = pairs.fmap('from/' + name); e, _ = pairs.fmap('to/' + name)
    d0 = {k: v.lstrip('?') for k, v in d.items()}; e0 = {k: v.lstrip('?') for k, v in e.items()}
    bad = set()
    for k, v in d0.items():
        if v and e0.get(v) != k: bad.add(('D', k, v))
    for k, v in e0.items():
        if v and d0.get(v) != k: bad.add(('E', k, v))
    return len(d), len(e), bad, d0, e0
def run(rep):
    n = 0; ex = 0; ps = 0
    for a, b in (('HALF', 'FULL'), ('FULL', 'HALF')):     # the two width transforms are inverse without exception
        m, _ = pairs.fmap('inter/' + a); o, _ = pairs.fmap('inter/' + b); n += len(m); ps += 1
        for k, v in m.items():
            if o.get(v) != k: rep.violation(f'{a}:{k}', f'modules/inter/{a}.txt: {k} becomes {v}, but modules/inter/{b}.txt turns {v} into {o.get(v, "nothing")}')
    for p in pairs.pairs():
        nd, ne, bad, d0, e0 = oneway(p)
        if nd + ne == 0: continue            # both sides are native code only
        ps += 1; n += nd + ne
        rec = record.load('oneway', p); ex += len(rec)
        for t in sorted(bad - rec):
            dirn, k, v = t
            if dirn == 'D': rep.violation(f'{p}:decode:{k}', f'modules/from/{p}.txt: {k} decodes to {v}, but modules/to/{p}.txt encodes {v} as {e0.get(v, "nothing")}')
            else: rep.violation(f'{p}:encode:{k}', f'modules/to/{p}.txt: {k} encodes to {v}, but modules/from/{p}.txt decodes {v} as {d0.get(v, "nothing")}')
    rep.floor('table_pairs', ps, 30); rep.floor('entries_composed', n, 400000); rep.cov['recorded_oneway'] = ex
def rec():
    for p in pairs.pairs(): record.save('oneway', p, oneway(p)[2])
