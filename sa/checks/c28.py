"""Codecs of intermediate phases that observe, mark, select or hold text: over sequences of units (each a class of units), the
units that leave are the units that entered, except for exactly what the codec is there to add, take out or move; and the
counters grow by exactly the units they count."""
import functools, itertools, os
from .. import ir, tables, terms as T, forms as Fo
from ..blocks import Blocks
from ..seq import Seq, stream
from ..formats import hexs
from ..life import NEXTPHASE, DEADEND, CONTINUE, SUBMATCH, SNAME, lit, P
from . import c10
A = (0, 255)
OTHER = ((3, 3), A); CNS = ((2, 2), A, A, A); EMPTY = ((1, 1),); ESC = ((0x1b, 0x1b), A, A)
ANYU = ((0, 0), A, A)
def ch(n, m=None):
    m = n if m is None else m; r = []
    while n or m or not r: r.insert(0, (n & 255, m & 255)); n >>= 8; m >>= 8
    return ((1, 1),) + tuple(r)
class Work:
    def __init__(self, rep, name, options=(), inner=None):
        self.rep = rep; self.name = name; self.k = k = Seq(name, options); k.exact = True; k.datum = self.datum; k.verdict = self.verdict; self.data = {}
        if inner: k.inner = inner
        self.cov = rep.c28; self.cov['codecs'].add(name); self.one = set(); self.opt = ' with ' + '&'.join(f'{a}={b}' if b else a for a, b in options) if options else ''; self.score = False
        k.verdict = None; self.ss = k.start(); k.verdict = self.verdict
        if not self.ss: rep.violation(f'{name}:create{self.opt}', f'modules/{name}.c cbcreate{self.opt}: never succeeds')
    def word(self, st, p):
        s = lit(self.k.m, p)
        return s if s is not None else st.cl.get(('key', p[1], 0), ('', b''))[1]
    def datum(self, st, p):
        w = self.word(st, p)
        if w not in self.data:
            try: self.data[w] = [list(bytes.fromhex(x)) for x in w.decode().split('.') if x]
            except ValueError: self.data[w] = [[T.fresh(8, 'argument byte'), T.fresh(8, 'argument byte')], [T.fresh(8, 'argument byte')]]
        return self.data[w]
    def verdict(self, st, a):
        L = self.k; u = a[1]; b = L.content(st, L.m.rd(st, u[1], L.od['data'], 8), L.m.rd(st, u[1], L.od['len'], 8)) if not isinstance(u, int) and u[0] == 'P' else None
        if b is not None: b = tuple(b)
        key = ('verdict', b)
        if key in st.cl: return [(st, st.cl[key])]
        s2 = st.copy(); s2.cl[key] = 0
        if self.score: x = T.fresh(32, 'score'); st.F.rg[x] = (1, 100)
        else: x = 1
        st.cl[key] = x; return [(st, x), (s2, 0)]
    def counts(self, st):
        """value of every counter, by name"""
        return {k[1]: self.k.m.rd(st, k[1], 0, 8) for k in st.cl if isinstance(k, tuple) and k[0] == 'ctrname'}
    def judge(self, q, want, what, why, count=None, states=None):
        """q: [(tag, box)]; want(tags, units, verdict) -> units; count(tags, units, verdict) -> {counter: form or number}"""
        self.cov['sequences'] = self.cov.get('sequences', 0) + 1
        for s in self.ss if states is None else states:
            c0 = self.counts(s); outs = self.k.runs(s, [b for _, b in q]); vs = []
            for o in outs:
                self.F = o['st'].F
                open_ = [i for i, b in enumerate(o['B']) if ('verdict', b) not in o['st'].cl] if self.uses else []
                res = set()
                for fill in itertools.product((0, 1), repeat=len(open_)):
                    ans = lambda i: o['st'].cl.get(('verdict', o['B'][i]), dict(zip(open_, fill)).get(i))
                    res.add(self.agree(o, want([t for t, _ in q], o['B'], ans), count and count([t for t, _ in q], o['B'], ans), c0))
                vs.append(res.pop() if len(res) == 1 else None)
            self.cov['paths'] = self.cov.get('paths', 0) + len(outs)
            if outs and all(v is True for v in vs): self.cov['proved'] = self.cov.get('proved', 0) + 1
            elif False in vs:
                if what not in self.one:
                    self.one.add(what); o = outs[vs.index(False)]; d = [('accepted' if not isinstance(v, int) or v else 'refused') for k, v in o['st'].cl.items() if isinstance(k, tuple) and k[0] == 'verdict']
                    self.rep.violation(f'{self.name}:{what}{self.opt}', f'modules/{self.name}.c{self.opt}: the units {"; ".join(hexs(b) for _, b in q) or "(none)"}' + (f' ({", ".join(d)} by the filter)' if d else '') + f' become {self.tell(o)}' + (f', counters {self.deltas(o, c0)}' if count else '') + f'; {why}')
            else: self.cov['undecided'] = self.cov.get('undecided', 0) + 1; self.cov.setdefault('undecided_in', set()).add(self.name)
    uses = False
    def deltas(self, o, c0):
        r = []
        for c, v in self.counts(o['st']).items():
            d = diff(v, c0.get(c, 0), o['st'].F); r.append(f'{o["st"].cl[("ctrname", c)]} {"+%d" % d[0] if not d[1] else "+?"}')
        return ', '.join(r)
    def tell(self, o):
        r = stream(o)
        if r is None: return 'something without a definite status'
        return '; '.join(' '.join('%02X' % y if isinstance(y, int) else '??' for y in x) or '(empty)' for x in r) or 'nothing'
    def agree(self, o, want, cnt, c0):
        if any(s == DEADEND and out for s, out, _ in o['ev']): return False
        got = stream(o)
        if got is None: return None
        want = [tuple(x) for x in want]; F = o['st'].F
        if len(got) != len(want): return False
        r = True
        for x, y in zip(got, want):
            if len(x) != len(y): return False
            for a, b in zip(x, y):
                if a == b: continue
                v = Fo.same(Fo.canon(a, F), Fo.canon(b, F), F)
                if v is not True and a[0:1] == ('s',) and b[0:1] == ('s',) if not isinstance(a, int) and not isinstance(b, int) else False: v = False   # another unit's byte
                if v is False: return False
                if v is None: r = None
        if cnt is not None:
            st = o['st']; names = {st.cl[('ctrname', c)]: c for c in self.counts(st)}
            for nm, w in cnt.items():
                if nm not in names: return False
                d = diff(self.counts(st)[names[nm]], c0.get(names[nm], 0), F); v = Fo.same(d, w if isinstance(w, list) else [w, {}], F)
                if v is False: return False
                if v is None: r = None
            for nm, c in names.items():
                if nm not in cnt:
                    d = diff(self.counts(st)[c], c0.get(c, 0), F)
                    if d != [0, {}]: return False if not d[1] else None
        return r
def diff(a, b, F):
    f = [0, {}]; Fo.canon(a, F, f, 1); Fo.canon(b, F, f, -1); return Fo.settle(f, F)
def seqs(al, n):
    for k in range(n + 1): yield from itertools.product(al, repeat=k)
same = lambda tags, B, ans: list(B)
ALL = [('c', ch(0x41, 0x5a)), ('w', ch(0x4e00, 0x4eff)), ('o', OTHER), ('e', EMPTY), ('x', CNS)]
def counting(rep):
    for opts, nm, flt in (((), 'COUNT', False), ((('MYCOUNT', 0),), 'MYCOUNT', False), ((('FOR', 'SOMEFILTER'),), 'COUNT', True), ((('FOR', 'SOMEFILTER'), ('MYCOUNT', 0)), 'MYCOUNT', True)):
        w = Work(rep, 'inter/COUNT', opts); w.uses = flt
        for q in seqs(ALL, 3): w.judge(q, same, 'count', 'every unit passes and every ' + ('accepted ' if flt else '') + 'unit is counted once', lambda t, B, ans: {nm: sum(1 for i in range(len(B)) if not flt or ans(i))})
    for opts, nm in (((), 'SCORE'), ((('WITH', 'SOMESCORER'), ('AS', 'MYSCORE')), 'MYSCORE')):
        w = Work(rep, 'inter/SCORE', opts); w.uses = w.score = True
        def total(t, B, ans):
            f = [0, {}]; cur = [w.F]
            for i in range(len(B)):
                v = ans(i)
                if v is not None: Fo.canon(v, cur[0], f, 1)
            return {nm: f}
        for q in seqs(ALL, 3): w.judge(q, same, 'score', 'every unit passes and the counter grows by the scores', total)
    w = Work(rep, 'inter/SCORE', (('WITH', 'TRAINED'),))
    for q in seqs(ALL, 2): w.judge(q, same, 'text', 'every unit passes', None)
    w = Work(rep, 'inter/SCORE-TRAIN')
    for q in seqs(ALL, 2): w.judge(q, same, 'text', 'every unit passes', None)
def bonus(rep):
    """a phrase of the table goes on without the leading bonus, which is added to the score"""
    for c in ('inter/ZH-BONUS', 'inter/ZH-BONUS-PHRASE'):
        for n in (1, 6, 127, 128, 255):
            for rest in ([b'\x01\x41'], [b'\x01\x4e\x00', b'\x01\x4e\x01'], [b'\x01\x4e\x00', b'\x01\x4e\x01', b'\x01\x20'], []):
                w = Work(rep, c); w.k.runs = functools.partial(w.k.runs, table=[bytes([n])] + rest)
                w.judge([ALL[1]], lambda t, B, ans: [tuple(x) for x in rest], 'bonus', f'the phrase goes on without its bonus {n}, which is added to the score', lambda t, B, ans: {'SCORE': n})
def widths(rep):
    rows = sorted(list(c10.const_tables(ir.load_unit('modules/inter/WIDTH.c'), 3).values())[0]['init']); by = {}
    for l, h, c in rows: by.setdefault(c if c < 1 << 31 else c - (1 << 32), []).append(ch(l, h) if (l ^ h) < 256 else ch(l, l | 255) if l | 255 <= h else ch(l))
    names = {1: 'HALF', 2: 'FULL', -1: 'AMBI'}; none = ch(next(h + 1 for (l, h, _), (l2, _, _) in zip(rows, rows[1:]) if l2 > h + 1))
    w = Work(rep, 'inter/WIDTH')
    al = [(names[c], by[c][0]) for c in sorted(by) if c in names] + [(None, OTHER), (None, none), (None, EMPTY)]
    if len(al) < 5: raise ir.AnalysisBroken('WIDTH: the table is not understood')
    def cnt(t, B, ans): return {x: t.count(x) for x in names.values()}
    for q in seqs(al, 3): w.judge(q, same, 'width', 'every unit passes and is counted in its class', cnt)
    # the text is cut where its width exceeds the given one, and nothing follows
    for amb, opts in ((1, ((lambda n: ((str(n), 0),)))), (2, (lambda n: ((str(n), 0), ('AMBI-AS-WIDE', 0)))), (2, (lambda n: (('AMBIGUOUS-AS-WIDE', 0), (str(n), 0))))):
        for n in (0, 1, 2, 3):
            cls = {}
            def inner(st, given):
                u = tuple(given[0]); c = st.cl.get(('class', u)); r = []
                for x in (None, 'HALF', 'FULL', 'AMBI') if c is None else (c[0],): r.append(([list(u)], {x: 1} if x else {}, (('class', u), (x,))))
                return r
            w = Work(rep, 'inter/TRIM-WIDTH', opts(n), inner)
            wd = {None: 0, 'HALF': 1, 'FULL': 2, 'AMBI': amb}
            def trim(o):
                left = n; r = []
                for b in o['B']:
                    c = o['st'].cl.get(('class', b))
                    if left >= 0:
                        if c is None: return None
                        x = wd[c[0]]
                        if x <= left: left -= x; r.append(b)
                        else: left = -1
                return r
            for q in seqs([('u', ch(0x4e00, 0x4eff)), ('o', OTHER)], 3): w.outcome(q, trim, 'trim', f'the text is cut before it is wider than {n}')
def pads(rep):
    rows = sorted(list(c10.const_tables(ir.load_unit('modules/inter/AMBIGUOUS-PAD.c'), 2).values())[0]['init'])
    amb = [('A', ch(l, h) if (l ^ h) < 256 else ch(l)) for l, h in (rows[0], rows[len(rows) // 2], rows[-1])]
    nb = ('n', ch(0xa0)); plain = [('c', ch(0x41, 0x5a)), ('o', OTHER), ('e', EMPTY), ('x', ((3, 3), (0xa0, 0xa0))), ('y', ch(0xa000, 0xa0ff))]
    PAD = (1, 0xa0)
    def padded(t, B, ans):
        r = []
        for x, b in zip(t, B): r += [b, PAD] if x == 'A' else [b]
        return r
    def unpadded(t, B, ans):
        r = []; p = False
        for x, b in zip(t, B):
            if p and x == 'n': p = False; continue
            r.append(b); p = x == 'A'
        return r
    ctl = enum('BSDCONV_CTL_AMBIGUOUS_PAD')
    for name, f, why in (('inter/AMBIGUOUS-PAD', padded, 'one no-break space follows every ambiguous character and nothing else changes'), ('inter/AMBIGUOUS-UNPAD', unpadded, 'a no-break space that follows an ambiguous character is taken out and nothing else changes')):
        w = Work(rep, name)
        for q in seqs(amb[:1] + [nb] + plain[:2], 4): w.judge(q, f, 'pad', why)
        for q in seqs(amb + [nb] + plain, 3): w.judge(q, f, 'pad', why)
        off = []; on = []
        for s in w.ss:
            for v, to in ((0, off), (1, on)):
                x = s.copy(); w.k.begin(x); to += [w.k.clean(y) for y, _ in w.k.run(x, 'cbctl', [P(w.k.ins), ctl, 0, v], 'control')]
        for q in seqs(amb[:1] + [nb] + plain[:2], 3):
            w.judge(q, same, 'off', 'padding is switched off', states=off); w.judge(q, f, 'on', why, states=on)
def enum(name):
    import re
    t = open(os.path.join(ir.REPO, 'src/bsdconv.h')).read(); n = -1
    m = re.search(r'\b' + name + r'\s*=\s*(\d+)', t)
    if m: return int(m.group(1))
    raise ir.AnalysisBroken(f'{name}: no value in bsdconv.h')
def inserting(rep):
    for keys in (('AFTER',), ('BEFORE',), ('BEFORE', 'AFTER'), ()):
        w = Work(rep, 'inter/INSERT', tuple((k, k + 'VAL') for k in keys))
        def f(t, B, ans):
            g = lambda k: w.data[(k + 'VAL').encode()] if k in keys else []
            return [x for b in B for x in g('BEFORE') + [b] + g('AFTER')]
        for q in seqs(ALL, 2): w.judge(q, f, 'insert', 'every unit is there with the given data before and after it')
    def repl(t, B, frm, to):
        r = []; i = 0; n = len(frm)
        while i < len(t):
            if list(t[i:i + n]) == frm: r += to; i += n
            else: r.append(B[i]); i += 1
        return r
    u = {'a': ch(0x61), 'b': ch(0x62), 'c': ch(0x63), 'l': ((1, 1), (0x61, 0x61), A), 'o': ((3, 3), (0x61, 0x61)), 'z': ch(0x41, 0x5a), 'e': EMPTY}; num = {'a': '0161', 'b': '0162', 'c': '0163', 'l': '016162'}
    for frm, to in (('a', '0141'), ('ab', '0141.0142'), ('aa', '0141'), ('aab', '0141.0142.0143'), ('abb', '0141'), ('aba', ''), ('abab', '0141')):
        w = Work(rep, 'inter/REPLACE', (('.'.join(num[x] for x in frm), to or 0),))
        for q in list(seqs('abz', 4 if len(frm) > 1 else 3)) + list(seqs('alo', 2)) + list(seqs('ab', 6 if len(frm) > 2 else 5)):
            w.judge([(x, u[x]) for x in q], lambda t, B, ans: repl(t, B, list(frm), [bytes.fromhex(x) for x in to.split('.') if x]), 'replace', 'every occurrence of the given sequence is replaced and nothing else changes')
def selecting(rep):
    for lim in (None, 0, 1, 2):
        for flt in (False, True):
            w = Work(rep, 'inter/PASS', tuple(([('FOR', 'SOMEFILTER')] if flt else []) + ([('LIMIT', str(lim))] if lim is not None else []))); w.uses = flt
            def passed(o):
                r = []; n = 0
                for (s, out, who) in o['ev']:
                    v = o['st'].cl.get(('verdict', tuple(who))) if flt else 1
                    if v is None: return None
                    ok = v and (not lim or n < lim); n += 1 if ok else 0
                    if ok and (s != NEXTPHASE or [tuple(x) for x in out or []] != [tuple(who)]): return False
                    if not ok and (s != DEADEND or out): return False
                return True
            for q in seqs(ALL[:4], 3): w.steps(q, passed, 'pass', 'a unit is taken over if the filter accepts it and the limit is not reached, and refused otherwise')
    for name in ('inter/NULL', 'to/NULL'):
        w = Work(rep, name)
        for q in seqs(ALL, 2): w.judge(q, lambda t, B, ans: [], 'drop', 'nothing is left')
    for mark in (False, True):
        for flt in (False, True):
            w = Work(rep, 'to/PASS', tuple(([('FOR', 'SOMEFILTER')] if flt else []) + ([('MARK', 0)] if mark else []))); w.uses = flt; lim = None
            def passed(o):
                for (s, out, who) in o['ev']:
                    v = o['st'].cl.get(('verdict', tuple(who))) if flt else 1
                    if v is None: return None
                    if v and (s != NEXTPHASE or [tuple(x) for x in out or []] != [tuple(who)]): return False
                    if not v and (s != DEADEND or out): return False
                return True
            for q in seqs(ALL[:4], 2): w.steps(q, passed, 'pass', 'a unit is taken over if the filter accepts it, and refused otherwise')
def holding(rep):
    H = ('h', ((3, 3), (0x80, 0xff))); L = ('l', ((3, 3), (0, 0x7f))); E = ('e', ESC); C = ('c', ch(0x41, 0x5a)); Z = ('z', EMPTY)
    def defrag(t, B, ans):
        """an ANSI sequence between the two bytes of a character moves behind it"""
        r = []; p = None; held = []
        for x, b in zip(t, B):
            if p is None:
                if x == 'h': p = b; held = []
                else: r.append(b)
            elif x == 'e': held.append(b)
            else: r += [p, b] + held; p = None
        if p is not None: r += [p] + held
        return r
    w = Work(rep, 'inter/BIG5-DEFRAG')
    for q in list(seqs([H, L, E, C], 5)) + list(seqs([H, E, Z, C], 3)): w.judge(q, defrag, 'defrag', 'only the ANSI sequences between the two halves of a character move, behind it')
    for opts in ((), (('MIN-LEN', '2'),), (('MIN-LEN', '3'),), (('BEFORE', 'BEFOREVAL'),), (('AFTER', 'AFTERVAL'), ('MIN-LEN', '2')), (('AFTER', 0), ('FOR', 'SOMEFILTER'))):
        w = Work(rep, 'inter/STRINGS', opts); w.uses = True; o = dict(opts); n = int(o.get('MIN-LEN', 1))
        bef = lambda: w.data[b'BEFOREVAL'] if o.get('BEFORE') else []
        aft = lambda: ([] if o['AFTER'] == 0 else w.data[b'AFTERVAL']) if 'AFTER' in o else [[1, 0x0a]]
        def f(t, B, ans):
            r = []; run = []
            for i in list(range(len(B))) + [None]:
                if i is not None and ans(i): run.append(B[i]); continue
                if run and len(run) >= n: r += bef() + run + aft()
                run = []
            return r
        for q in seqs(ALL[:2], 4): w.judge(q, f, 'strings', f'every run of {n} or more accepted units is there, between the given data, and nothing else')
def derail(rep):
    ws = [('w', ch(x)) for x in (9, 10, 13, 32)]; no = [('c', ch(0x41, 0x5a)), ('o', OTHER), ('e', EMPTY), ('y', ch(0x0920)), ('v', ch(11, 12)), ('u', ch(33)), ('t', ((3, 3), (32, 32)))]
    w = Work(rep, 'inter/WHITESPACE-DERAIL')
    for q in list(seqs(ws[3:] + no[:2], 4)) + list(seqs(ws + no, 2)): w.judge(q, lambda t, B, ans: [b for x, b in zip(t, B) if x != 'w'], 'derail', 'the white space is taken out and nothing else changes')
def outcome(self, q, f, what, why):
    self.judge_paths(q, lambda o: (lambda e: None if e is None else self.agree(o, e, None, {}))(f(o)), what, why)
def judge_paths(self, q, e, what, why):
    self.cov['sequences'] = self.cov.get('sequences', 0) + 1
    for s in self.ss:
        outs = self.k.runs(s, [b for _, b in q]); vs = [e(o) for o in outs]; self.cov['paths'] = self.cov.get('paths', 0) + len(outs)
        if outs and all(v is True for v in vs): self.cov['proved'] = self.cov.get('proved', 0) + 1
        elif False in vs:
            if what not in self.one:
                self.one.add(what); o = outs[vs.index(False)]; d = [f'{x[0]} {"; ".join(str(y) for y in x[1:]) if x[0] == "x" else ""}' for x in ()]
                cl = [str(v[0]) for k, v in o['st'].cl.items() if isinstance(k, tuple) and k[0] == 'class']
                self.rep.violation(f'{self.name}:{what}{self.opt}', f'modules/{self.name}.c{self.opt}: the units {"; ".join(hexs(b) for _, b in q) or "(none)"}' + (f' of the classes {", ".join(cl)}' if cl else '') + f' leave {", ".join(SNAME[x[0]] if isinstance(x[0], int) else str(x[0]) for x in o["ev"])} and {self.tell(o)}; {why}')
        else: self.cov['undecided'] = self.cov.get('undecided', 0) + 1; self.cov.setdefault('undecided_in', set()).add(self.name)
Work.outcome = outcome; Work.judge_paths = judge_paths; Work.steps = judge_paths
def run(rep):
    rep.c28 = cov = dict(codecs=set()); import time
    for f in (counting, bonus, widths, pads, inserting, selecting, holding, derail):
        t = time.time(); f(rep)
        if os.environ.get('DBG'): print(f.__name__, {k: v for k, v in cov.items() if k != 'codecs'}, round(time.time() - t, 1))
    for x in sorted(cov.get('undecided_in', ())): print('  sequences not decided in', x)
    rep.floor('codecs', len(cov['codecs']), 12); rep.floor('sequences', cov['sequences'], 1500)
    for k in ('paths', 'undecided'): rep.cov[k] = cov.get(k, 0)
    rep.floor('proved', cov['proved'], 1200)
