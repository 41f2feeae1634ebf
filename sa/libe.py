"""The conversion engine (bsdconv() in src/libbsdconv.c) against its specification.

The engine is interpreted with tables whose content is not fixed: every transition and every answer of a codec callback is
decided at the moment the engine looks at it, one analysis path per answer, so one run covers every table that behaves
differently on the given input. The outcome of each path is compared with the specification of the engine (class Spec):
longest match with fall-back to the next codec, exactly one byte (unit) rejected and counted when every codec refuses it,
what is held back is released at a mismatch or at the flush, no dependence on the split into chunks."""
from . import terms as T
from .ir import AnalysisBroken
from .absint import P, PathEnd, Choice
from . import lib as LB, libw as W, libm as M
from .life import m_and1

CONTINUE, DEADEND, MATCH, SUBMATCH, SUBROUTINE, SUBMATCH_SUBROUTINE, NEXTPHASE, NOMATCH, NOOP = range(9)
SN = ['CONTINUE', 'DEADEND', 'MATCH', 'SUBMATCH', 'SUBROUTINE', 'SUBMATCH_SUBROUTINE', 'NEXTPHASE', 'NOMATCH', 'NOOP']
NODE = 4096; BASE = 64; REC = 64
class World:
    """kinds: phase types; codecs: number of codecs per phase; opts(world, key, tab) -> the answers to explore"""
    def __init__(self, name, kinds, codecs, opts, flush=True, init=(), cbflush=(), wide=True, maxlen=9, fixed=None):
        self.name = name; self.kinds = kinds; self.codecs = codecs; self.opts = opts; self.init = set(init); self.cbflush = set(cbflush)
        self.wide = wide; self.ids = {}; self.paths = {}; self.uids = {}; self.fixed = fixed or {}
    def node(self, p, c, path):
        t = self.ids.setdefault((p, c), {}); n = t.get(path)
        if n is None: n = t[path] = len(t); self.paths[(p, c, n)] = path
        return n
    def uid(self, *k):
        n = self.uids.get(k)
        if n is None:
            n = self.uids[k] = len(self.uids) + 0x10
            if not self.wide and n > 250: raise AnalysisBroken('too many different units')
        return n
    def unit(self, *k):
        n = self.uid(*k); return (n & 255, n >> 8) if self.wide else (n,)
    def emits(self, p, c, path, how):
        """units a table entry emits; how = number of units, or 'e' for one empty unit"""
        if how == 'e': return [()]
        return [self.unit(p, c, path, i) for i in range(how)]
class Undecided(Exception):
    def __init__(self, key): self.key = key
class Spec:
    """what the engine has to do, given the answers of the tables"""
    def __init__(self, w, tab): self.w = w; self.tab = tab; self.ierr = self.oerr = 0; self.ev = []
    def ask(self, k):
        if k not in self.tab: raise Undecided(k)
        return self.tab[k]
    def trans(self, p, c, path, v):
        a = self.ask(('t', p, c, path, v)); return None if a is None else (path + (v,), a)
    def cb(self, p, c):
        n = self.ncb.get((p, c), 0); self.ncb[(p, c)] = n + 1; a = self.ask(('cb', p, c, n)); self.ev.append(('cbconv', p, c)); return a, n
    def streams(self, segs):
        """every segment ends with a flush"""
        self.ncb = {}; return [u for s in segs for u in self.run(s)]
    def run(self, units):
        for p, k in enumerate(self.w.kinds, 1):
            units = self.from_(p, units) if k == 1 else self.other(p, units, k)
        return [u for u in units if u]
    def step(self, p, c, path, loop, v):
        """-> (path, status, how, loop) or None"""
        t = self.trans(p, c, path, v)
        if t: return t[0], t[1]
        if loop: return path, self.tab.get(('t', p, c, path[:-1], path[-1]))
        return None
    def from_(self, p, units):
        b = [x for u in units for x in u]; out = []; i = 0; n = len(b)
        while i < n:
            c = 0
            while True:
                path = (); last = None; loop = False; k = i; done = False
                while k < n:
                    t = self.step(p, c, path, loop, b[k])
                    if t is None: break
                    path, (st, how) = t; cbn = None
                    if st in (SUBROUTINE, SUBMATCH_SUBROUTINE): st, cbn = self.cb(p, c); loop = True
                    if st == DEADEND: break
                    if st == MATCH: out += self.w.emits(p, c, path, how); i = k + 1; done = True; break
                    if st == NEXTPHASE: out.append(self.w.unit('cb', p, c, cbn)); i = k + 1; done = True; break
                    if st == SUBMATCH: last = (k + 1, path if cbn is None else None, how)
                    k += 1
                else:
                    # the end: what is pending counts as a mismatch
                    if last is None and (p, c) in self.w.init: self.ev.append(('cbinit', p, c))
                if done: break
                if last:
                    if last[1] is not None: out += self.w.emits(p, c, last[1], last[2])
                    else: self.flushed(p, c, out)
                    i = last[0]; break
                if c + 1 < self.w.codecs[p - 1]: c += 1; continue
                self.ierr += 1; i += 1; break
        return out
    def flushed(self, p, c, out):
        if (p, c) in self.w.cbflush: self.ev.append(('cbflush', p, c)); n = sum(1 for e in self.ev if e == ('cbflush', p, c)); out.append(self.w.unit('fl', p, c, n))
    def other(self, p, units, kind):
        u = [x for x in units if x]; out = []; i = 0; n = len(u)
        while i < n:
            c = 0
            while True:
                path = (); last = None; loop = False; k = i; done = False
                while k < n:
                    dead = False; st = how = cbn = None
                    for b in u[k]:
                        t = self.step(p, c, path, loop, b)
                        if t is None: dead = True; break
                        path, (st, how) = t
                        if st in (SUBROUTINE, SUBMATCH_SUBROUTINE): loop = True
                    if dead: break
                    if st in (SUBROUTINE, SUBMATCH_SUBROUTINE): st, cbn = self.cb(p, c)
                    if st == DEADEND: break
                    if st == MATCH: out += self.w.emits(p, c, path, how); i = k + 1; done = True; break
                    if st == NEXTPHASE: out.append(self.w.unit('cb', p, c, cbn)); i = k + 1; done = True; break
                    if st == SUBMATCH: last = (k + 1, path if cbn is None else None, how)
                    if st == CONTINUE and kind == 3: loop = False
                    t = self.step(p, c, path, loop, 256)
                    if t is None: break
                    path = t[0]; k += 1
                else:
                    # the end: the codec forgets what it was in the middle of
                    if kind == 2 and last is None and (p, c) in self.w.init: self.ev.append(('cbinit', p, c))
                if done: break
                if last:
                    if last[1] is not None: out += self.w.emits(p, c, last[1], last[2]); i = last[0]
                    else: self.flushed(p, c, out); i = k + 1
                    break
                if c + 1 < self.w.codecs[p - 1]: c += 1; continue
                if kind == 2: out.append(u[i])
                else: self.oerr += 1
                i += 1; break
        return out

def tabset(st, k, v): st.cl['tab'] = {**st.cl['tab'], k: v}
def decide(l, st, key):
    t = st.cl['tab']
    if key in t: return t[key]
    o = l.world.opts(l.world, key, t)
    raise Choice([lambda s, v=v: tabset(s, key, v) for v in o])
def tabread(l, p, c):
    so = {m['name']: (m['off'], m['size']) for m in l.u.structs['state_st']['members']}; w = l.world
    def field(st, n, r):
        """value of the state field that contains byte r of state n"""
        path = w.paths[(p, c, n)]
        for f, (o, z) in so.items():
            if o <= r < o + z:
                if f in ('beg', 'base', 'end'): v = {'beg': 0, 'end': 257, 'base': n * NODE + BASE}[f]
                elif not path: v = DEADEND if f == 'status' else 0
                else:
                    a = st.cl['tab'][('t', p, c, path[:-1], path[-1])]
                    v = a[0] if f == 'status' else (0 if a[1] in (0, None) else (1 + n) * 4 * REC)
                return (v >> 8 * (r - o)) & 255
        return 0
    def f(st, o, off, sz, ptr):
        if not isinstance(off, int) or off < 0: raise AnalysisBroken('table read at an unknown place')
        n, r = divmod(off, NODE); bs = []
        if (p, c, n) not in w.paths: l.add('C21', 'table-place', f'bsdconv ({l.ctx}): reads a state that the table does not contain'); raise PathEnd()
        for i in range(sz):
            q = r + i
            if q < BASE: bs.append(field(st, n, q)); continue
            v, j = divmod(q - BASE, 4)
            if v > 256: l.add('C21', 'table-place', f'bsdconv ({l.ctx}): reads a transition outside the range of its state'); raise PathEnd()
            path = w.paths[(p, c, n)]; a = decide(l, st, ('t', p, c, path, v))
            bs.append(((0 if a is None else w.node(p, c, path + (v,)) * NODE) >> 8 * j) & 255)
        return int.from_bytes(bytes(bs), 'little')
    return f
def dataread(l, p, c):
    so = {m['name']: (m['off'], m['size']) for m in l.u.structs['data_st']['members']}; w = l.world
    def f(st, o, off, sz, ptr):
        bs = []
        for i in range(sz):
            n, r = divmod(off + i, 4 * REC); k, r = divmod(r, REC); n -= 1
            path = w.paths.get((p, c, n)); a = st.cl['tab'].get(('t', p, c, path[:-1], path[-1])) if path else None
            us = w.emits(p, c, path, a[1]) if a else []
            if k >= len(us): l.add('C21', 'data-place', f'bsdconv ({l.ctx}): reads data that the table does not contain'); raise PathEnd()
            v = {'data': off + i - r + 32, 'len': len(us[k]), 'next': off + i - r + REC if k + 1 < len(us) else 0}
            for nm, (fo, z) in so.items():
                if fo <= r < fo + z: bs.append((v[nm] >> 8 * (r - fo)) & 255); break
            else: bs.append(us[k][r - 32] if 32 <= r < 32 + len(us[k]) else 0)
        return int.from_bytes(bytes(bs), 'little')
    return f
def e_callback(m, st, I, a):
    l = m.life; f = a[0]; w = l.world
    if isinstance(f, int): m.bad(st, 'null-call', I, 'call through a null function pointer', 'callback'); raise PathEnd()
    if f[0] == 'U' or f[1].kind != 'code': m.bad(st, 'uninit-deref', I, 'call through a pointer that was never set', 'callback'); raise PathEnd()
    name, p, c = f[1].name.split(':'); p = int(p); c = int(c); ins = a[1][1]
    pi = m.rd(st, ins, l.oi['phase_index'], 4); ph = st.cl['ph']; ix = m.rd(st, ph, p * l.SP + l.op['index'], 4)
    if pi != p or ix != c: l.add('C03', f'identity:{name}', f'bsdconv ({l.ctx}): {name} of codec {c + 1} of phase {p} is called while phase_index is {pi} and index is {ix} ({l.path(st)})')
    b = p * l.SP; op = l.op; so = op['state']; ss = {x['name']: x for x in l.u.structs['state_rt']['members']}
    if name == 'cbinit': st.cl['ev'] += (('cbinit', p, c),); return [(st, None)]
    def emit(s, by):
        u = M.unit(l, s, list(by), True, f'unit of {name} {p}.{c}'); t = m.rd(s, ph, b + op['data_tail'], 8, True)
        m.wr(s, t[1], l.od['next'], 8, P(u)); m.wr(s, ph, b + op['data_tail'], 8, P(u))
    if name == 'cbflush':
        st.cl['ev'] += (('cbflush', p, c),); n = sum(1 for e in st.cl['ev'] if e == ('cbflush', p, c)); emit(st, w.unit('fl', p, c, n)); return [(st, None)]
    n = sum(1 for e in st.cl['ev'] if e == ('cbconv', p, c)); v = decide(l, st, ('cb', p, c, n))
    st.cl['ev'] += (('cbconv', p, c),)
    cur = m.rd(st, ph, b + op['curr'], 8, True); i = m.rd(st, ph, b + op['i'], 4)
    if isinstance(cur, int) or st.st.get(cur[1]) == 'freed': l.add('C03', 'curr', f'bsdconv ({l.ctx}): {name} is called without a current unit')
    if v == NEXTPHASE: emit(st, w.unit('cb', p, c, n))
    m.wr(st, ph, b + so + ss['status']['off'], 1, v)
    if v == SUBMATCH: m.wr(st, ph, b + so + ss['data']['off'], 8, 0)
    return [(st, None)]
def setup(l, w):
    l.world = w; l.reset(maxsteps=60000000); m = l.m; st = l.state(); m.h['*fp'] = e_callback; m.joins = lambda *a: ()
    m.maxpaths = 200000; m.maxvisit = 4000
    ins = M.instance(l, st, len(w.kinds), w.kinds); ph = st.cl['ph']; st.cl['tab'] = {}; st.cl['ev'] = ()
    for p, k in enumerate(w.kinds, 1):
        n = w.codecs[p - 1]; cd = m.new(st, 'codecs', l.SC * n, f'codecs of phase {p}'); m.wr(st, ph, p * l.SP + l.op['codec'], 8, P(cd)); m.wr(st, ph, p * l.SP + l.op['codecn'], 4, n - 1)
        for c in range(n):
            z = m.new(st, 'etab', None, f'table of codec {c + 1} of phase {p}'); d = m.new(st, 'dz', None, f'data of codec {c + 1} of phase {p}'); w.node(p, c, ())
            m.lazy[z] = tabread(l, p, c); m.lazy[d] = dataread(l, p, c)
            m.wr(st, cd, c * l.SC + l.oc['z'], 8, P(z)); m.wr(st, cd, c * l.SC + l.oc['data_z'], 8, P(d))
            for f in ('cbconv', 'cbflush', 'cbinit', 'cbctl', 'cbdestroy', 'cbcreate'):
                on = f == 'cbconv' or (f == 'cbinit' and (p, c) in w.init) or (f == 'cbflush' and (p, c) in w.cbflush)
                m.wr(st, cd, c * l.SC + l.oc[f], 8, P(m.new(st, 'code', None, f'{f}:{p}:{c}')) if on else 0)
        so = l.op['state']; root = dict(status=DEADEND, data=0, beg=0, end=257, base=BASE)
        for x in l.u.structs['state_rt']['members']: m.wr(st, ph, p * l.SP + so + x['off'], x['size'], root[x['name']])
    return st, ins
def feed(l, st, ins, units, flush, mode=0):
    """hand a list of units to the conversion (several units = what the PASS output mode hands over)"""
    m = l.m; o = lambda f: l.oi['input'] + l.od[f]; prev = None
    for n, by in enumerate(units):
        own = n % 2 == 0
        if n == 0:
            b = m.new(st, 'heap' if own else 'ext', len(by), 'input bytes')
            for i, x in enumerate(by): m.wr(st, b, i, 1, x)
            m.wr(st, ins, o('data'), 8, P(b)); m.wr(st, ins, o('len'), 8, len(by)); m.wr(st, ins, o('flags'), 1, 1 if own else 0); m.wr(st, ins, o('next'), 8, 0)
        else:
            u = M.unit(l, st, list(by), own, f'further input unit {n + 1}')
            if prev is None: m.wr(st, ins, o('next'), 8, P(u))
            else: m.wr(st, prev, l.od['next'], 8, P(u))
            prev = u
    m.wr(st, ins, l.oi['flush'], 1, 1 if flush else 0); m.wr(st, ins, l.oi['output_mode'], 4, mode)
def explore(l, w, calls, ctx, every=False):
    """calls: list of unit lists, the last one (or every one) with the flush"""
    st, ins = setup(l, w); states = [st]; m = l.m; ph = st.cl['ph']
    allu = [[tuple(u) for u in c] for c in calls] if every else [[tuple(u) for c in calls for u in c]]
    for i, c in enumerate(calls):
        nxt = []
        for s in states:
            feed(l, s, ins, c, every or i == len(calls) - 1)
            for s2, _ in l.go(s, 'bsdconv', [P(ins)], ctx): nxt.append(s2)
        states = nxt
    for s in states: judge(l, w, s, ins, allu, ctx, not every and (len(calls) > 1 or any(len(c) > 1 for c in calls) and w.kinds[0] == 1))
    return len(states)
def outcome(l, w, s, ins):
    m = l.m; ph = s.cl['ph']; n = len(w.kinds); out = None; pend = []; bad = None
    for p in range(n + 1):
        h = m.rd(s, ph, p * l.SP + l.op['data_head'], 8, True)[1]; us, b = M.lst(l, s, h); tail = m.rd(s, ph, p * l.SP + l.op['data_tail'], 8, True)
        if b: bad = f'the list of phase {p} contains {b}'; break
        if tail != P(us[-1] if us else h): bad = f'the tail of the list of phase {p} is not its last unit'; break
        by = [M.bytes_of(l, s, u) for u in us]
        if p == n: out = [x for x in by if x]; continue
        if w.kinds[p] == 1:      # a decoder counts the bytes of the first unit it is done with in its own list head
            k = m.rd(s, ph, (p + 1) * l.SP + l.op['data_head'], 8, True)[1]; k = m.rd(s, k, l.od['len'], 8)
            if by: by[0] = by[0][k:] if isinstance(k, int) else ('?',)
        pend += [(p, x) for x in by if x]
    c = [m.rd(s, s.cl[k], 0, 8) for k in ('ierr', 'oerr')]
    return out, pend, c, bad
def judge(l, w, s, ins, units, ctx, split):
    l.cov['obligations'] += 5
    out, pend, (ie, oe), bad = outcome(l, w, s, ins)
    tell = lambda: f'{ctx}; ' + describe(w, s.cl['tab'])
    if bad: l.add('C04', f'{w.name}:list', f'bsdconv ({tell()}): {bad}'); return
    todo = [dict(s.cl['tab'])]; refs = 0
    while todo:
        tab = todo.pop(); sp = Spec(w, tab)
        try: want = sp.streams(units)
        except Undecided as e:
            todo += [{**tab, e.key: v} for v in w.opts(w, e.key, tab)]; refs += 1
            if refs > 2000: raise AnalysisBroken(f'{w.name}: the specification asks for too many answers the engine did not need')
            continue
        if out != want:
            r = 'C22' if split and not l.baseline.get(w.name) else 'C14'
            if not split: l.baseline[w.name] = True
            l.add(r, f'{w.name}:output', f'bsdconv ({tell()}): puts out {show(w, out)} instead of {show(w, want)}' + (f'; still queued: {show(w, [x for _, x in pend])}' if pend else ''))
        if ie != sp.ierr: l.add('C13', f'{w.name}:ierr', f'bsdconv ({tell()}): counts {ie} input errors where {sp.ierr} bytes are rejected')
        if oe != sp.oerr: l.add('C13', f'{w.name}:oerr', f'bsdconv ({tell()}): counts {oe} output errors where {sp.oerr} units are rejected')
        if s.cl['ev'] != tuple(sp.ev): l.add('C03', f'{w.name}:callbacks', f'bsdconv ({tell()}): calls {evs(s.cl["ev"])} instead of {evs(sp.ev)}')
        if pend and not any(e[0] == 'cbflush' for e in sp.ev) and out == want: l.add('C14', f'{w.name}:rest', f'bsdconv ({tell()}): {show(w, [x for _, x in pend])} stays queued after the flush')
        break
    l.leaks(s, [P(ins)])
def evs(e): return ' '.join(f'{n}({p}.{c + 1})' for n, p, c in e) or 'nothing'
def show(w, us):
    inv = {v: k for k, v in w.uids.items()}
    def one(u):
        n = u[0] | (u[1] << 8 if len(u) > 1 else 0) if all(isinstance(x, int) for x in u) else None
        k = inv.get(n)
        if k is None: return '<' + ' '.join(str(x) for x in u) + '>'
        return f'[{k[1]}.{k[2] + 1} {k[0]}{k[3]}]' if k[0] in ('cb', 'fl') else f'[{k[0]}.{k[1] + 1} {"".join(sym(x) for x in k[2])}/{k[3]}]'
    return ' '.join(one(u) for u in us) or 'nothing'
def sym(x): return ',' if x == 256 else f'{x:x}' if x < 16 else f'({x:x})'
def describe(w, tab):
    r = []
    for k, v in tab.items():
        if k[0] == 'cb': r.append(f'cbconv({k[1]}.{k[2] + 1}) #{k[3] + 1} answers {SN[v]}')
        elif v is not None: r.append(f'codec {k[1]}.{k[2] + 1} {"".join(sym(x) for x in k[3] + (k[4],))}={SN[v[0]]}')
    return 'tables ' + '; '.join(r) if r else 'empty tables'

# ---- answers to explore ------------------------------------------------------------------------------------------
def table_opts(maxlen, first=(None, (CONTINUE, 0), (MATCH, 1), (SUBMATCH, 1)), multi=False):
    def f(w, k, tab):
        if k[0] == 'cb': return [DEADEND, CONTINUE, NEXTPHASE] + ([SUBMATCH] if (k[1], k[2]) in w.cbflush else [])
        _, p, c, path, v = k
        if v == 256: return [None] if len([x for x in path if x != 256]) >= maxlen[p] else [None, (CONTINUE, 0)]
        if len([x for x in path if x != 256]) + 1 > maxlen[p]: return [None]
        if len([x for x in path if x != 256]) + 1 == maxlen[p]: return [None, (MATCH, 1)]
        return list(first)
    return f
def cb_opts(limit=5):
    """every first symbol leads to the callback; only its answers vary"""
    def f(w, k, tab):
        if k[0] == 'cb':
            if k[3] >= limit: return [NEXTPHASE]
            return [DEADEND, CONTINUE, NEXTPHASE] + ([SUBMATCH] if (k[1], k[2]) in w.cbflush else [])
        _, p, c, path, v = k
        if (p, c) in w.fixed: return [w.fixed[(p, c)](path, v)]
        return [(SUBROUTINE, 0)] if not path and v != 256 else [None]
    return f
def hold_opts(w, k, tab):
    """a filter that holds units back with SUBMATCH; it answers DEADEND only while it holds some"""
    if k[0] == 't': return [(SUBROUTINE, 0)] if not k[3] and k[4] != 256 else [None]
    a = tab.get(k[:3] + (k[3] - 1,)) if k[3] else None
    if a == DEADEND: return [NEXTPHASE]
    return [NEXTPHASE, SUBMATCH] + ([DEADEND] if a == SUBMATCH and w.name.endswith('back') else [])
one = lambda path, v: (MATCH, 1) if not path and v == 2 else None
DEPTH = {1: 9, 2: 2, 3: 2}      # longest key by number of alternatives
def chunkings(units):
    yield [units]
    for i in range(1, len(units)): yield [units[:i], units[i:]]
def e_from(l):
    l.baseline = {}; thorough = l.tier == 'thorough'
    for name, codecs, streams in (('decoder', [1], [(1, 2, 3), (1, 2, 1), (1, 1, 1)] + ([(1, 2, 3, 4), (1, 2, 1, 2), (1, 1, 2, 1)] if thorough else [])), ('two decoders', [2], [(1, 2), (1, 1)] + ([(1, 2, 1)] if thorough else [])), ('three decoders', [3], [(1, 2)])):
        for b in streams:
            for n, cut in enumerate([None] + list(range(1, len(b)))) :
                w = World(name, [1], codecs, table_opts({1: DEPTH[codecs[0]]}))
                calls = [[b]] if cut is None else [[b[:cut]], [b[cut:]]]
                explore(l, w, calls, f'{name}, input {"".join(sym(x) for x in b)}' + (f' split after {cut}' if cut else ''))
            w = World(name, [1], codecs, table_opts({1: DEPTH[codecs[0]]}))
            explore(l, w, [[b[:1], b[1:]]], f'{name}, input {"".join(sym(x) for x in b)} as a list of two units')
            if len(b) > 2:
                w = World(name, [1], codecs, table_opts({1: DEPTH[codecs[0]]}))
                explore(l, w, [[(x,) for x in b[:-1]], [b[-1:]]], f'{name}, input {"".join(sym(x) for x in b)} as a list of units and a further one')
                explore(l, w, [[(x,)] for x in b], f'{name}, input {"".join(sym(x) for x in b)} byte by byte')
            for cut in range(1, len(b)):
                w = World(name, [1], codecs, table_opts({1: DEPTH[codecs[0]]}))
                explore(l, w, [[b[:cut]], [b[cut:]]], f'{name}, input {"".join(sym(x) for x in b)} flushed after {cut} and at the end', True)
def e_fromcb(l):
    l.baseline = {}; thorough = l.tier == 'thorough'
    for name, codecs, init, fl, fixed in (('decoder with callback', [1], (), (), {}), ('decoder with callbacks', [1], [(1, 0)], [(1, 0)], {}), ('decoder with callbacks and a second one', [2], [(1, 0)], [(1, 0)], {(1, 1): one})):
        for b in [(1, 2, 3)] + ([(1, 2, 1, 2)] if thorough else []):
            for cut in [None] + list(range(1, len(b))):
                w = World(name, [1], codecs, cb_opts(5 if not thorough else 7), init=init, cbflush=fl, fixed=fixed)
                calls = [[b]] if cut is None else [[b[:cut]], [b[cut:]]]
                explore(l, w, calls, f'{name}, input {"".join(sym(x) for x in b)}' + (f' split after {cut}' if cut else ''))
def e_other(l, kind, label):
    l.baseline = {}; thorough = l.tier == 'thorough'
    first = (None, (CONTINUE, 0), (MATCH, 1), (SUBMATCH, 1))
    for name, codecs, streams, ml in ((label, [1], [((1,), (2,), (3,)), ((1,), (2,), (1,)), ((1,), (1,), (1,)), ((1,), (), (2,)), ((), (1,), (2,)), ((1, 2), (3,))] + ([((1,), (2,), (3,), (4,)), ((1,), (2,), (1,), (2,))] if thorough else []), 9),
                                     ('two ' + label + 's', [2], [((1,), (2,)), ((1,), (1,))] + ([((1,), (2,), (1,))] if thorough else []), 2), ('three ' + label + 's', [3], [((1,), (2,))], 2)):
        for us in streams:
            for calls in chunkings(list(us)):
                w = World(name, [kind], codecs, table_opts({1: ml}, first))
                explore(l, w, calls, f'{name}, units {" ".join("".join(sym(x) for x in u) or "(empty)" for u in us)}' + (f' in {len(calls)} calls' if len(calls) > 1 else ''))
                if len(calls) > 1 and all(us):
                    w = World(name, [kind], codecs, table_opts({1: ml}, first))
                    explore(l, w, calls, f'{name}, units {" ".join("".join(sym(x) for x in u) for u in us)} in {len(calls)} calls, each flushed', True)
def e_othercb(l, kind, label):
    l.baseline = {}; thorough = l.tier == 'thorough'
    for name, codecs, fl, fixed, init in ((label + ' with callback', [1], (), {}, ()), (label + ' with callbacks', [1], (), {}, [(1, 0)]), (label + ' with callback and a second one', [2], (), {(1, 1): one}, ()), (label + ' with callbacks and a second one', [2], (), {(1, 1): one}, [(1, 0)])):
        if init and kind != 2: continue
        for us in [((1,), (2,), (3,)), ((1, 4), (2,))]:
            for calls in chunkings(list(us)):
                w = World(name, [kind], codecs, cb_opts(5), cbflush=fl, fixed=fixed, init=init)
                explore(l, w, calls, f'{name}, units {" ".join("".join(sym(x) for x in u) for u in us)}' + (f' in {len(calls)} calls' if len(calls) > 1 else ''))
    if kind == 2:
        for us in [((1,), (2,), (3,)), ((1,), (2, 3))]:
            for every in (False, True):
                for calls in chunkings(list(us)):
                    w = World('filter that holds back' + (' (flushed between)' if every else ''), [2], [1], hold_opts, cbflush=[(1, 0)])
                    explore(l, w, calls, f'filter that holds back, units {" ".join("".join(sym(x) for x in u) for u in us)}' + (f' in {len(calls)} calls' if len(calls) > 1 else '') + (', each flushed' if every else ''), every)
def pipe_opts(w, k, tab):
    _, p, c, path, v = k; kind = w.kinds[p - 1]; n = len([x for x in path if x != 256])
    if v == 256: return [None, (CONTINUE, 0)] if n < 2 and p < len(w.kinds) else [None]
    if n >= 2: return [None]
    if n == 1: return [None, (MATCH, 1)]
    if kind == 1 and p == 1: return [None, (MATCH, 1), (MATCH, 2), (SUBMATCH, 1)]
    if kind == 2: return [None, (MATCH, 1), (SUBMATCH, 1)]
    return [None, (MATCH, 1)]
def e_pipe(l):
    l.baseline = {}
    for name, kinds in (('decoder and encoder', [1, 3]), ('decoder, filter and encoder', [1, 2, 3]), ('two conversions in a row', [1, 3, 1, 3])):
        for b in [(1, 2), (1, 1)] if len(kinds) < 4 else [(1,), (1, 2)]:
            for cut in [None, 1] if len(b) > 1 else [None]:
                w = World(name, kinds, [1] * len(kinds), pipe_opts, wide=False)
                explore(l, w, [[b]] if cut is None else [[b[:1]], [b[1:]]], f'{name}, input {"".join(sym(x) for x in b)}' + (f' split after {cut}' if cut else ''))
W.w_engine_from = e_from; W.w_engine_fromcb = e_fromcb; W.w_engine_pipe = e_pipe
W.w_engine_inter = lambda l: e_other(l, 2, 'filter'); W.w_engine_to = lambda l: e_other(l, 3, 'encoder')
W.w_engine_intercb = lambda l: e_othercb(l, 2, 'filter'); W.w_engine_tocb = lambda l: e_othercb(l, 3, 'encoder')
