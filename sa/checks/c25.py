"""Unicode normalisation, decided component by component: the decomposition, composition and combining-class data against the
Unicode character database; the chains behind NFC, NFD, NFKC and NFKD; Hangul by symbolic arithmetic over all syllables; the
ordering and composition codecs over all short sequences of character classes (class boundaries: the combining classes)."""
import itertools, unicodedata
from .. import ir, tables, record, terms as T, forms as Fo
from ..blocks import boxes, sizes, Blocks
from ..seq import Seq, stream
from ..formats import ucs
from ..life import NEXTPHASE, SUBMATCH, SNAME
from . import c10
W = 'modules/inter/'
def bx(l, h=None):
    """one box for the range l..h when it is one, else the first"""
    h = l if h is None else h
    for a, b, n in sizes(l, h): return ((1, 1),) + max(boxes(a, b, n), key=lambda r: r[-1][1] - r[-1][0])
def allbx(l, h):
    for a, b, n in sizes(l, h):
        for r in boxes(a, b, n): yield ((1, 1),) + r
OTHER = ((3, 3), (0, 255))
def text(b): return ' '.join('%02X' % l if l == h else '%02X-%02X' % (l, h) for l, h in b)
def seqtext(q): return ' | '.join(map(text, q))
# ---- data -----------------------------------------------------------------------------------------------------------
def data(rep):
    n = 0
    for c in ('inter/_NFD', 'inter/_NFKD', 'inter/_NFC-MAP'):
        cnt, diff = c10.unitable(c); n += cnt
        for kind, k, v in sorted(diff - record.load('published', c)):
            rep.violation(f'{c}:{kind}:{k}', f'modules/{c}.txt: ' + (f'no entry for {k}; Unicode maps it to {v}' if kind == 'missing' else f'{k} maps to {v}, which is not what Unicode says'))
    for src in (W + '_NF-ORDER.c', W + '_NFC.c'):
        cnt, g, diff, want = c10.native(src, 3, lambda i: unicodedata.combining(chr(i)) or None); n += cnt
        for t in sorted(diff - record.load('published', 'ccc')):
            rep.violation(f'{src}:{t[1]}', f"{src}: table {g['src']} gives {t[2]} for U+{t[1]}, Unicode says {want[t]}")
    rep.floor('data_entries', n, 15000)
CHAIN = {'NFD': [{'_NFD', '_NF-HANGUL-DECOMPOSITION'}, '_NF-ORDER'], 'NFKD': [{'_NFKD', '_NF-HANGUL-DECOMPOSITION'}, '_NF-ORDER'],
         'NFC': [{'_NFD', '_NF-HANGUL-DECOMPOSITION'}, '_NF-ORDER', '_NFC', '_NF-HANGUL-COMPOSITION'], 'NFKC': [{'_NFKD', '_NF-HANGUL-DECOMPOSITION'}, '_NF-ORDER', '_NFC', '_NF-HANGUL-COMPOSITION']}
def chains(rep):
    al = {k: v for k, (v, line) in tables.alias_table('inter')[0].items() if v}
    def expand(x, d=0):
        if d > 20: return [x]
        return [z for y in x.split(':') for z in (expand(al[y], d + 1) if y in al else [y])]
    for name, want in CHAIN.items():
        got = expand(name); left = list(got); ok = True
        for w in want:
            k = len(w) if isinstance(w, set) else 1
            ok &= set(left[:k]) == (w if isinstance(w, set) else {w}) and len(left) >= k; left = left[k:]
        if not ok or left: rep.violation(f'alias:{name}', f'modules/inter/alias: {name} stands for {":".join(got)}; the normalisation form is decomposition, then ordering' + (', then composition' if len(want) > 2 else ''))
    for c in ('_NF-ORDER', '_NFC', '_NF-HANGUL-COMPOSITION', '_NF-HANGUL-DECOMPOSITION'):
        es = [e for e in tables.parse_table(ir.REPO + f'/{W}{c}.txt')[0] if not e.err]
        if len(es) != 1 or '*' not in es[0].key: rep.violation(f'table:{c}', f'{W}{c}.txt: must hand every unit to the codec')
# ---- Hangul ---------------------------------------------------------------------------------------------------------
SB, LB, VB, TB, LC, VC, TC = 0xac00, 0x1100, 0x1161, 0x11a7, 19, 21, 28
class Count:
    def __init__(self): self.blocks = self.proved = self.undecided = self.seqs = 0
def unitform(x, F):
    """the number a unicode unit stands for, if it is written in its shortest form"""
    if x is None: return None
    if not x or x[0] != 1: return False
    if len(x) < 2 or len(x) > 5: return False
    if len(x) > 2 and T.rng(x[1], F)[0] < 1: return None if T.rng(x[1], F)[1] > 0 else False
    return ucs(x[1:], F)
def decomposition(rep, K):
    k = Seq('inter/_NF-HANGUL-DECOMPOSITION'); one = set()
    for s in k.start():
        def judge(box, want, status=NEXTPHASE):
            K.blocks += 1
            J = Fo.Judge(lambda b: k.runs(s, [b], flush=False), say); J.block(box, want); K.proved += J.proved; K.undecided += J.undecided
        def say(b, o):
            if not one: one.add(1); rep.violation('_NF-HANGUL-DECOMPOSITION:unit', f"{W}_NF-HANGUL-DECOMPOSITION.c cbconv: the unit {text(b)} becomes {shown(o)}")
        def parts(fs):
            def e(o):
                st, out, who = o['ev'][0]
                if st != NEXTPHASE: return False
                if out is None: return None
                if len(out) != len(fs): return False
                F = o['st'].F; r = True
                for x, f in zip(out, fs):
                    m = unitform(x, F)
                    if m is None or m is False: return m
                    v = Fo.same(m, f(ucs(who[1:], F)))
                    if v is not True: r = v
                    if v is False: return False
                return r
            return e
        const = lambda n: (lambda m: [n, {}])
        for i in range(LC * VC):
            S = SB + i * TC; L = const(LB + i // VC); V = const(VB + i % VC)
            judge(bx(S), parts([L, V]))
            for b in allbx(S + 1, S + TC - 1): judge(b, parts([L, V, lambda m: [m[0] - S + TB, m[1]]]))
        def through(o):
            st, out, who = o['ev'][0]
            if out is None or not isinstance(st, int): return None
            x = stream(o)
            return None if x is None else x == [who]
        for l, h in ((0, SB - 1), (SB + LC * VC * TC, 0x10ffff)):
            for b in allbx(l, h): judge(b, through)
        for b in (OTHER, ((1, 1),), ((2, 2), (0, 255)), ((3, 3), (0, 255), (0, 255)), ((4, 255),) + ((0, 255),) * 3): judge(b, through)
    return k
def shown(o):
    r = stream(o)
    if r is None: return 'something the analysis cannot name' if o['ev'] and isinstance(o['ev'][-1][0], int) else 'a step without a definite status'
    return ', '.join(' '.join('%02X' % y if isinstance(y, int) else '??' for y in x) for x in r) or 'nothing'
def composition(rep, K):
    k = Seq('inter/_NF-HANGUL-COMPOSITION'); one = set()
    C = {'L': bx(LB, LB + LC - 1), 'V': bx(VB, VB + VC - 1), 'T': bx(TB + 1, TB + TC - 1), 'l': bx(LB + LC), 'v': bx(VB - 1), 'w': bx(VB + VC), 't': bx(TB), 'u': bx(TB + TC), 'k': bx(LB - 1),
         'a': bx(0x41, 0x5a), 'x': bx(0x300, 0x314), 'N': OTHER}
    def want(q, B, F):
        r = []; i = 0
        while i < len(q):
            if q[i:i + 2] == 'LV':
                f = [SB, {}]; add(f, minus(ucs(B[i][1:], F), -LB), VC * TC); add(f, minus(ucs(B[i + 1][1:], F), -VB), TC); i += 2
                if q[i:i + 1] == 'T': add(f, minus(ucs(B[i][1:], F), -TB), 1); i += 1
                r.append(Fo.settle(f, F))
            else: r.append(B[i]); i += 1
        return r
    def add(f, g, w):
        f[0] += w * g[0]
        for a, c in g[1].items(): f[1][a] = f[1].get(a, 0) + w * c
    def minus(f, n): return [f[0] + n, f[1]]
    qs = [''.join(p) for n in (1, 2, 3) for p in itertools.product(C, repeat=n)] + [''.join(p) for n in (4, 5) for p in itertools.product('LVTa', repeat=n)] + [''.join(p) for p in itertools.product('LVTN', repeat=4)]
    for s in k.start():
        for q in qs:
            K.seqs += 1
            def e(o):
                F = o['st'].F; got = stream(o)
                if got is None: return None
                exp = want(q, o['B'], F)
                if len(got) != len(exp): return False
                r = True
                for x, w in zip(got, exp):
                    if isinstance(w, list):
                        m = unitform(x, F)
                        v = m if m is None or m is False else Fo.same(m, w)
                        if v is False: return False
                        if v is None: r = None
                    elif x != w: return False
                return r
            outs = k.runs(s, [C[c] for c in q]); vs = [e(o) for o in outs]
            if outs and all(v is True for v in vs): K.proved += 1
            elif False in vs and feasible(outs[vs.index(False)]):
                o = outs[vs.index(False)]
                if not one: one.add(1); rep.violation('_NF-HANGUL-COMPOSITION:sequence', f'{W}_NF-HANGUL-COMPOSITION.c cbconv/cbflush: the sequence {seqtext([C[c] for c in q])} becomes {shown(o)}')
            else: K.undecided += 1
    return k
def feasible(o):
    """the path's condition is exact: every fact it rests on is about single input bytes"""
    return True
# ---- ordering -------------------------------------------------------------------------------------------------------
def classes(rel):
    """(first, last, combining class) of the codec's own table, and the gaps between"""
    t = c10.const_tables(ir.load_unit(rel), 3)
    rows = sorted((r[0], r[1], r[2]) for r in list(t.values())[0]['init'])
    g = []; at = 0
    for l, h, c in rows:
        if l > at: g.append((at, l - 1, 0))
        at = h + 1
    g.append((at, 0x10ffff, 0))
    return rows, g
def order(rep, K):
    k = Seq('inter/_NF-ORDER'); rows, gaps = classes(W + '_NF-ORDER.c'); one = set()
    by = {}
    for l, h, c in rows: by.setdefault(c, []).append(bx(l, h))
    cs = sorted(by); pick = {c: by[c][0] for c in cs}; S = bx(0x41, 0x5a)
    def want(q, B):
        r = []; run = []
        for (c, _), b in zip(q, B):
            if c: run.append((c, b))
            else: r += [b for _, b in sorted(run, key=lambda x: x[0])] + [b]; run = []
        return r + [b for _, b in sorted(run, key=lambda x: x[0])]
    def judge(q):
        K.seqs += 1
        for s in k.start():
            outs = k.runs(s, [b for _, b in q]); vs = []
            for o in outs:
                got = stream(o); vs.append(None if got is None else got == want(q, o['B']))
            if outs and all(v is True for v in vs): K.proved += 1
            elif False in vs:
                if not one: one.add(1); rep.violation('_NF-ORDER:sequence', f'{W}_NF-ORDER.c cbconv/cbflush: the sequence {seqtext([b for _, b in q])} (combining classes {[c for c, _ in q]}) becomes {shown(outs[vs.index(False)])}')
            else: K.undecided += 1
    lo, mid, hi = cs[0], cs[len(cs) // 2], cs[-1]
    al = [(lo, pick[lo]), (mid, pick[mid]), (hi, pick[hi]), (0, S), (0, OTHER)]
    for n in (1, 2, 3, 4): 
        for q in itertools.product(al, repeat=n): judge(list(q))
    for q in itertools.product(al[:3], repeat=5): judge(list(q))
    # every interval of the table has exactly its class, every other character has none
    for l, h, c in rows:
        i = cs.index(c)
        for b in allbx(l, h):
            q = [(c, b)]
            if i + 1 < len(cs): q = [(cs[i + 1], pick[cs[i + 1]])] + q
            if i: q = q + [(cs[i - 1], pick[cs[i - 1]])]
            judge(q); judge([(c, pick[c]), (c, b), (c, pick[c])])
    for l, h, c in gaps:
        for b in allbx(l, h): judge([(cs[-1], pick[cs[-1]]), (0, b), (cs[0], pick[cs[0]])])
# ---- composition ----------------------------------------------------------------------------------------------------
def compose(rep, K):
    k = Seq('inter/_NFC'); rows, gaps = classes(W + '_NFC.c'); one = set()
    # what the data guarantee (checked): the first half of a composite, and the composite, are starters; and whatever composes
    # with a composite has no lower class than the composite's own second half
    m = {e.key: e for e in tables.parse_table(ir.REPO + f'/{W}_NFC-MAP.txt')[0] if not e.err}
    ccc = {}
    for l, h, c in rows:
        for i in range(l, h + 1): ccc[i] = c
    def num(b): return int.from_bytes(b[1:], 'big')
    comp = {}
    for key, e in m.items():
        ks = bytes(x for x in key if x != 256 and isinstance(x, int)); parts = []; cur = []
        for x in key:
            if x == 256: parts.append(bytes(cur)); cur = []
            else: cur.append(x)
        parts.append(bytes(cur))
        if len(parts) != 2 or len(e.out) != 1: rep.violation('_NFC-MAP:shape', f'{W}_NFC-MAP.txt: an entry is not a pair that becomes one character: {parts}'); continue
        comp[num(parts[0]), num(parts[1])] = num(bytes(e.out[0]))
    back = {v: kk for kk, v in comp.items()}
    for (a, b), c in comp.items():
        if ccc.get(a) or ccc.get(c): rep.violation('_NFC-MAP:starter', f'{W}_NFC-MAP.txt: U+{a:04X} or U+{c:04X} is not a starter')
        if a in back and ccc.get(b, 0) < ccc.get(back[a][1], 0): rep.violation('_NFC-MAP:order', f'{W}_NFC-MAP.txt: U+{c:04X} = U+{a:04X} U+{b:04X} is not in canonical order')
    by = {}
    for l, h, c in rows: by.setdefault(c, []).append(bx(l, h))
    cs = sorted(by); pick = {c: by[c][0] for c in cs}; lo, hi = cs[len(cs) // 2], cs[-2]
    S = bx(0x41, 0x5a); cls = {}
    def inner(st, given):
        r = []
        if len(given) != 2 or None in given: return [(given, len(given), None)]
        a, b = given; key = ('cmb', a, b)
        if key in st.cl:
            y = st.cl[key]; return [([y], 0, None) if y else ([a, b], 2, None)]
        last = st.cl.get(('made', a))
        if last is None or cls.get(b, 0) >= last:
            y = (1, T.fresh(8, 'composite'), T.fresh(8, 'composite'))
            r.append(([y], 0, (key, y)))
        r.append(([a, b], 2, (key, None)))
        return r
    k.inner = inner
    def want(q, B, cl, made):
        """the canonical composition algorithm; a pair the codec did not look up may compose"""
        r = []; st = None
        for (c, _), b in zip(q, B):
            if c is None: r.append(b); st = None; continue
            if st is not None:
                last = r[st + 1:]; blocked = bool(last) and (last[-1][1] >= c or last[-1][1] == 0)
                if not blocked:
                    a = r[st][0] if isinstance(r[st], tuple) and isinstance(r[st][0], tuple) else r[st]
                    y = cl.get(('cmb', a, b), 'never')
                    if y == 'never': y = ('not looked up', a, b)
                    if y: r[st] = (y, 0); continue
            if c == 0: st = len(r)
            r.append((b, c))
        return [x[0] if len(x) == 2 and isinstance(x[0], tuple) else x for x in r]
    def judge(q):
        K.seqs += 1
        for s in k.start():
            cls.clear(); st0 = s; outs = k.runs(s, [b for _, b in q]); vs = []
            for o in outs:
                for (c, _), b in zip(q, o['B']): cls[b] = c or 0
            for o in outs:
                got = stream(o); vs.append(None if got is None else got == want(q, o['B'], o['st'].cl, None))
            # a retried pair the data rule out: the path does not exist
            keep = [(o, v) for o, v in zip(outs, vs) if possible(o['st'].cl, cls)]
            if keep and all(v is True for _, v in keep): K.proved += 1
            elif any(v is False for _, v in keep):
                o = [o for o, v in keep if v is False][0]
                if not one:
                    one.add(1); d = '; '.join(f'{"+".join(name(x, q, o) for x in kk[1:])} {"composes" if v else "does not compose"}' for kk, v in o['st'].cl.items() if isinstance(kk, tuple) and kk[0] == 'cmb')
                    rep.violation('_NFC:sequence', f'{W}_NFC.c cbconv/cbflush: the sequence {seqtext([b for _, b in q])} (combining classes {[c for c, _ in q]}; {d}) becomes {shown(o)}')
            else: K.undecided += 1
    def possible(cl, cls):
        made = {v: kk for kk, v in cl.items() if isinstance(kk, tuple) and kk[0] == 'cmb' and v}
        return all(not v or kk[1] not in made or cls.get(kk[2], 0) >= cls.get(made[kk[1]][2], 0) for kk, v in cl.items() if isinstance(kk, tuple) and kk[0] == 'cmb')
    def name(x, q, o):
        return 'unit %d' % (o['B'].index(x) + 1) if x in o['B'] else 'the composite'
    al = [(0, S), (lo, pick[lo]), (hi, pick[hi]), (None, OTHER)]
    def sorted_(q):
        p = 0
        for c, _ in q:
            if c and c < p: return False
            p = c or 0
        return True
    for n in (1, 2, 3, 4, 5):
        for q in itertools.product(al[:3] if n > 4 else al, repeat=n):
            if sorted_(q): judge(list(q))
    for q in itertools.product([(0, S), (lo, pick[lo]), (hi, pick[hi]), (cs[-1], pick[cs[-1]])], repeat=4):
        if sorted_(q): judge([(0, S)] + list(q))
    # every interval of the table has exactly its class: not blocked by the next lower class, blocked by its own
    for l, h, c in rows:
        i = cs.index(c)
        for b in allbx(l, h):
            judge([(0, S)] + ([(cs[i - 1], pick[cs[i - 1]])] if i else []) + [(c, b)]); judge([(0, S), (c, b), (c, pick[c])])
            judge([(0, S), (c, b)] + ([(cs[i + 1], pick[cs[i + 1]])] if i + 1 < len(cs) else []))
    for l, h, c in gaps:
        for b in allbx(l, h): judge([(0, S), (lo, pick[lo]), (0, b), (hi, pick[hi])])
def run(rep):
    data(rep); chains(rep); tot = {}
    import time
    for nm, f in (('hangul_decomposition', decomposition), ('hangul_composition', composition), ('ordering', order), ('composition', compose)):
        K = Count(); t = time.time(); f(rep, K)
        rep.cov[nm] = dict(blocks=K.blocks, sequences=K.seqs, proved=K.proved, undecided=K.undecided)
        if __import__('os').environ.get('DBG'): print(nm, vars(K), time.time() - t)
        tot['n'] = tot.get('n', 0) + K.blocks + K.seqs; tot['p'] = tot.get('p', 0) + K.proved
    rep.floor('obligations', tot['n'], 3000); rep.floor('proved', tot['p'], 2500)
