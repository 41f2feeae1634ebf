"""Range tables: every constant table of ranges is sorted, disjoint and inside the code space (read from the IR initialisers),
and every lookup that searches one finds exactly its members: the filters, scorers and codecs are interpreted on every range
and every gap (sa/blocks.py), one block of code points at a time. GB18030: both tables give the same bijection and the codecs
compute with them exactly."""
from .. import ir, terms as T, forms as Fo, formats as f
from ..blocks import Blocks, Plain, boxes, sizes
from ..life import NEXTPHASE, DEADEND
PREFIX = {'UNICODE': 1, 'CNS11643': 2, 'BYTE': 3, 'ANSI': 0x1b}      # unit types (bsdconv.h and the documentation)
GB = [(0x81, 126), (0x30, 10), (0x81, 126), (0x30, 10)]
GB0 = ((0x81 * 10 + 0x30) * 126 + 0x81) * 10 + 0x30
def rangetables(u):
    """name -> rows of the constant tables of records that begin with two 32-bit numbers"""
    r = {}
    for n, g in u.globals.items():
        d = g.get('ditype') or {}; i = g.get('init')
        if g.get('decl') or d.get('k') != 'array' or (d.get('of') or {}).get('k') != 'struct' or not isinstance(i, list) or not i: continue
        sz = d['of'].get('s')
        if sz not in (8, 12) or not all(isinstance(x, list) and len(x) == sz // 4 and all(isinstance(y, int) for y in x) for x in i): continue
        r[n] = i
    return r
def gaps(rows, lo=0, hi=0xffffffff):
    p = lo
    for x in rows:
        if x[0] > p: yield p, x[0] - 1
        p = max(p, x[1] + 1)
    if p <= hi: yield p, hi
def wellformed(rep, rel, name, rows, limit, text):
    prev = -1; ok = True
    for k, r in enumerate(rows):
        a, b = r[0], r[1]; at = f'{rel}: entry {k} of {name} ({text(a)}..{text(b)})'
        if a > b: rep.violation(f'{rel}:{name}:{k}:empty', at + ' is empty'); ok = False
        elif a <= prev: rep.violation(f'{rel}:{name}:{k}:order', at + f' does not lie behind the entry before it (which ends at {text(prev)})'); ok = False
        elif b > limit: rep.violation(f'{rel}:{name}:{k}:limit', at + ' lies outside the code space'); ok = False
        prev = max(prev, b)
    return ok
def U(x): return 'U+%04X' % x
def payload(o, name, size):
    """entries of the table whose third member was read"""
    return {x[1] // size if isinstance(x[1], int) else None for x in o['st'].cl.get('loads', ()) if x[0] == name and (x[1] % size == 8 if isinstance(x[1], int) else True)}
def member(rep, f, rel, t, rows, k, s, cov):
    def label(o):
        try: key = k.ckey(k.clean(k.again(o)), 0)
        except Exception: key = None
        return (o['status'], None if o['out'] is None else len(o['out']), key)
    def blocks(rs):
        for lo, hi in rs:
            for l, h, n in sizes(lo, hi):
                for bx in boxes(l, h, n): yield ((1, 1),) + bx
    M = [(r[0], r[1]) for r in rows]; G = list(gaps(rows)); cnt = []
    for rs in (M, G):
        d = {}
        for bx in blocks(rs):
            ls = {label(o) for o in k.feed(s, bx)}
            if len(ls) == 1: x = ls.pop(); d[x] = d.get(x, 0) + 1
        cnt.append(max(d, key=d.get) if d else None)
    if None in cnt or cnt[0] == cnt[1]: return False
    seen = set()
    for rs, me, other, what in ((M, cnt[0], cnt[1], 'a member'), (G, cnt[1], cnt[0], 'no member')):
        def say(b, o):
            if not seen: seen.add(1); rep.violation(f'{rel}:{t}:lookup', f'{rel} cbconv: treats the unit {f.hexs(b)}, {what} of {t}, as the opposite')
        J = Fo.Judge(lambda bx: k.feed(s, bx), say)
        for bx in blocks(rs): J.block(bx, lambda o: True if label(o) == me else False if label(o) == other else None)
        f.tally(cov, J, rel[8:-2])
    return True
def run(rep):
    nt = nr = nq = nb = 0; J = None; cov = dict(codecs=set())
    for kind, names, fn in (('filter', ir.filters(), 'cbfilter'), ('scorer', ir.scorers(), 'cbscorer')):
        for n in names:
            rel = f'modules/{kind}/{n}.c'; p = Plain(rel, fn); ts = rangetables(p.u); rows = None; typ = 1
            for t, r in ts.items():
                nt += 1; nr += len(r)
                if wellformed(rep, rel, t, r, 0x10ffff, U): rows = r if rows is None else None
                else: rows = False
            if ts and rows is False: continue
            if not ts: typ = PREFIX.get(n)
            elif rows is None: print(f'  {rel}: several range tables, the lookup is not judged'); continue
            if not ts and typ is None: print(f'  {rel}: no range table and no type'); continue
            seen = set()
            def ask(bx):
                return [dict(ret=v, st=s) for s, v in p.ask(bx, 'lookup')]
            def say(b, o):
                if 1 not in seen: seen.add(1); rep.violation(f'{rel}:{fn}:lookup', f'{rel} {fn}: answers {o["ret"]} for the unit {f.hexs(b)}, but the table says {want}')
            def eq(w):
                def e(o):
                    if not isinstance(o['ret'], int):
                        if o['ret'][0] == 'U': return False
                        l, h = T.rng(o['ret'], o['st'].F)
                        return True if l == h == w else None if l <= w <= h else False
                    return o['ret'] == w
                return e
            J = Fo.Judge(ask, say)
            if rows:
                for rs, w in [([r], r[2] if len(r) > 2 else 1) for r in rows] + [([g], 0) for g in gaps(rows)]:
                    want = w
                    for lo, hi in [(x[0], x[1]) for x in rs]:
                        for l, h, k in sizes(lo, hi):
                            for bx in boxes(l, h, k): J.block(((1, 1),) + bx, eq(w))
                want = 0
                if not any(r[0] == 0 for r in rows): J.block(((1, 1),), eq(0))
            elif typ:
                want = 1
                for k in (1, 2, 4): J.block(((typ, typ),) + ((0, 255),) * (k - 1), eq(1))
            want = 0
            for a, b in ((0, typ - 1), (typ + 1, 255)):
                for k in (1, 2, 3, 5): J.block(((a, b),) + ((0, 255),) * (k - 1), eq(0))
            J.block((), eq(0))
            f.tally(cov, J, f'{kind}/{n}'); nq += 1
    # codecs
    for c in ir.codec_units():
        u = ir.load_unit(f'modules/{c}.c'); ts = rangetables(u); rel = f'modules/{c}.c'
        for t, rows in ts.items():
            if not any(x in c for x in ('WIDTH', '_NF', 'GB18030')) and sum(r[0] <= r[1] for r in rows) < len(rows) * .9: continue
            nt += 1; nr += len(rows); gbdec = c == 'from/_GB18030'
            if not wellformed(rep, rel, t, rows, GB0 + 126 * 10 * 126 * 10 - 1 if gbdec else 0x10ffff, str if gbdec else U): continue
            if 'GB18030' in c: continue
            k = Blocks(c); ss = k.start(); seen = set(); size = 4 * len(rows[0])
            if not ss: print(f'  {rel}: cannot be created, its search is not judged'); continue
            if size < 12:
                # no member to look up: the outcome tells members and others apart
                if not member(rep, f, rel, t, rows, k, ss[0], cov): print(f'  {rel}: members of {t} are not told apart, its search is not judged')
                else: nq += 1
                continue
            def say(b, o):
                if t not in seen: seen.add(t); rep.violation(f'{rel}:{t}:lookup', f'{rel} cbconv: for the unit {f.hexs(b)} it uses entries {sorted(payload(o, t, size), key=str)} of {t}, but the entry for it is {want}')
            J = Fo.Judge(lambda bx: k.feed(ss[0], bx), say)
            def used(w):
                def e(o):
                    q = payload(o, t, size)
                    if q == w: return True
                    return None if None in q else False
                return e
            for i, r in enumerate(rows):
                want = i
                for l, h, n in sizes(r[0], r[1]):
                    for bx in boxes(l, h, n): J.block(((1, 1),) + bx, used({i}))
            for lo, hi in gaps(rows):
                want = 'none'
                for l, h, n in sizes(lo, hi):
                    for bx in boxes(l, h, n): J.block(((1, 1),) + bx, used(set()))
            f.tally(cov, J, c); nq += 1
    # GB18030
    d = rangetables(ir.load_unit('modules/from/_GB18030.c')); e = rangetables(ir.load_unit('modules/to/_GB18030.c'))
    if len(d) != 1 or len(e) != 1: raise ir.AnalysisBroken('GB18030: range tables not found')
    d, e = list(d.values())[0], list(e.values())[0]
    a = {(x[2], x[1] - x[0], x[0]) for x in d}; b = {(x[0], x[1] - x[0], x[2]) for x in e}
    for x in sorted(a ^ b): rep.violation(f'GB18030:{x[0]:X}', f'modules/{"from" if x in a else "to"}/_GB18030.c: the range U+{x[0]:04X}.. ({x[1] + 1} characters, four-byte index {x[2]}) is missing in the other direction')
    k = Blocks('to/_GB18030'); s = k.start()[0]
    def enc(off):
        def ex(o):
            if o['status'] != NEXTPHASE: return False
            x = f.only(o)
            if not x: return x
            m = Fo.numeral(x, GB, o['st'].F)
            return m if m is None or m is False else Fo.same(m, f.minus(f.ucs(o['B'][1:], o['st'].F), off))
        return ex
    seen = set()
    def say(bx, o):
        if 'e' not in seen: seen.add('e'); rep.violation('to/_GB18030:computes', f'modules/to/_GB18030.c cbconv: the unit {f.hexs(bx)} leaves {f.shown(o)}, which the range table does not say')
    J = Fo.Judge(lambda bx: k.feed(s, bx), say)
    for x in e:
        for l, h, n in sizes(x[0], x[1]):
            for bx in boxes(l, h, n): J.block(((1, 1),) + bx, enc(x[2] - GB0 - x[0]))
    for lo, hi in gaps(e):
        for l, h, n in sizes(lo, hi):
            for bx in boxes(l, h, n): J.block(((1, 1),) + bx, f.refuse)
    f.tally(cov, J, 'to/_GB18030')
    k = Blocks('from/_GB18030'); s = k.start()[0]; keys = []
    from .. import tables
    t = tables.table('from/_GB18030'); t = t if not isinstance(t, tuple) else t[0]
    for en in t:
        if en.cb and not en.err and len(en.key) > 1 and len(en.out) == 1: keys.append((tuple(en.key[:-1]), en.out[0]))
    def dec(off, nb):
        def ex(o):
            if o['status'] != NEXTPHASE: return False
            x = f.only(o)
            if not x: return x
            if len(x) != nb + 1 or x[0] != 1: return False if isinstance(x[0], int) else None
            m = Fo.numeral(o['B'], GB, o['st'].F)
            return Fo.same(f.ucs(x[1:], o['st'].F), f.minus(m, GB0 + off)) if m else None
        return ex
    def say(bx, o):
        if 'd' not in seen: seen.add('d'); rep.violation('from/_GB18030:computes', f'modules/from/_GB18030.c cbconv: the bytes {f.hexs(bx)} leave {f.shown(o)}, which the range table does not say')
    nk = 0
    # what is listed byte by byte in the table does not reach the callback: judge the callback where no longer key matches
    pre = {}
    for key, out in keys: pre[key] = out
    for key, out in keys:
        if any(isinstance(x, str) for x in key) or out != bytes(key): continue
        nk += 1; i = len(key)
        J = Fo.Judge(lambda bx: k.feed(s, bx, i=i, table=[out]), say)
        for lo, hi, off, isgap in [(x[0], x[1], x[2] - x[0], 0) for x in d] + [(a1, b1, 0, 1) for a1, b1 in gaps(d, 0, GB0 + 126 * 10 * 126 * 10 - 1)]:
            for l, h, n in (sizes(lo + off, hi + off) if not isgap else ((lo, hi, 0),)):
                for bx in Fo.numboxes(max(l - off, GB0) - GB0, h - off - GB0, GB):
                    cut = tuple((max(p, c), min(q, c)) for (p, q), c in zip(bx, key)) + bx[i:]
                    if any(p > q for p, q in cut): continue
                    if isgap: J.block(cut, f.refuse)
                    else: J.block(cut, dec(off, n))
        f.tally(cov, J, 'from/_GB18030')
    rep.cov.update(range_tables=nt, ranges=nr, searches_judged=nq, gb18030_callback_keys=nk)
    rep.floor('range_tables_found', nt, 50); rep.floor('searches', nq, 50); rep.floor('gb18030_keys', nk, 100)
    f.done(rep, cov, 50, 4000)
