"""Judging a codec, filter or scorer over whole blocks of the input space: the input bytes are intervals ("boxes"), one
abstract run per box, the answer is read off symbolically. Boxes are cut so that the answer is a single formula."""
from . import terms as T, ir
from .absint import Machine, State, PathEnd, P
from .ir import AnalysisBroken
from .drive import Drive
from .life import *
from .life import m_and1, newstr, H

def boxes(lo, hi, n):
    """the numbers lo..hi, written as n big-endian bytes, as a list of byte boxes"""
    if n == 0: return [()] if lo == 0 == hi or lo <= hi else []
    if lo > hi: return []
    u = 256 ** (n - 1); a, b = lo // u, hi // u
    if n == 1: return [((lo, hi),)]
    if a == b: return [((a, a),) + r for r in boxes(lo % u, hi % u, n - 1)]
    r = []
    if lo % u: r += [((a, a),) + x for x in boxes(lo % u, u - 1, n - 1)]; a += 1
    e = None
    if hi % u != u - 1: e = [((b, b),) + x for x in boxes(0, hi % u, n - 1)]; b -= 1
    if a <= b: r.append(((a, b),) + ((0, 255),) * (n - 1))
    return r + (e or [])
def value(box):
    """smallest and largest number of a box"""
    l = h = 0
    for a, b in box: l = l * 256 + a; h = h * 256 + b
    return l, h
def sizes(lo, hi):
    """cut lo..hi by the number of bytes the number takes: (lo, hi, bytes)"""
    for n, a, b in ((1, 0, 0xff), (2, 0x100, 0xffff), (3, 0x10000, 0xffffff), (4, 0x1000000, 0xffffffff)):
        if max(lo, a) <= min(hi, b): yield max(lo, a), min(hi, b), n

class Blocks(Drive):
    """one codec with fixed options, fed boxes from its initial state"""
    def __init__(self, codec, options=(), budget=10 ** 9):
        super().__init__(codec, budget); self.options = options
        self.steps = self.paths = 0
    def start(self):
        """-> initial states after creation with the options and initialisation"""
        st = self.world(); m = self.m; u = self.u
        if 'cbcreate' not in u.fns: m.wr(st, self.cd, self.SC + self.oc['priv'], 8, ('U', 'the private pointer of the codec')); r = [(st, 0)]
        else:
            nx = 0
            if u.structs.get('bsdconv_hash_entry'):
                f = {x: u.off('bsdconv_hash_entry', x) for x in ('key', 'ptr', 'next')}
                for nm, v in reversed(self.options):
                    o = m.new(st, 'argnode', u.size('bsdconv_hash_entry'), f'argument {nm}'); k = newstr(m, st, nm); st.cl[('key', k, 0)] = ('is', nm.encode())
                    if isinstance(v, str): t = newstr(m, st, v); st.cl[('key', t, 0)] = ('is', v.encode()); v = P(t)
                    m.wr(st, o, f['key'], 8, P(k)); m.wr(st, o, f['ptr'], 8, v); m.wr(st, o, f['next'], 8, nx); nx = P(o)
            elif self.options: return []
            self.begin(st); r = self.run(st, 'cbcreate', [P(self.ins), nx], 'creation')
        out = []
        for s, ret in r:
            if self.options and s.cl.get('args'): pass
            if not isinstance(ret, int) or ret != 0:
                l, h = T.rng(ret, s.F) if isinstance(ret, int) or ret[0] != 'U' else (1, 1)
                if not l <= 0 <= h: continue
            out += self.afterinit(self.clean(s), None, 'creation')
        return out
    def feed(self, st, box, i=None, table=(), more=False):
        """cbconv on one unit or chunk of the given boxes from st -> outcomes dict(status, out=[bytes terms], st, i)"""
        s = st.copy(); m = self.m; n = len(box)
        s.cl['nopool'] = False; s.cl['usetail'] = False; s.cl['pool'] = (); self.begin(s)
        C, D = self.curr_unit(s, n, 0, [])
        B = []
        for k, (l, h) in enumerate(box):
            if l == h: m.wr(s, D, k, 1, l); B.append(l)
            else:
                x = m.rd(s, D, k, 1); B.append(x)
                if (l, h) != (0, 255): s.F.rg[x] = (l, h)
        self.B = B
        m.wr(s, self.ph, self.pf('i'), 4, (0 if self.kind == 'from' else n) if i is None else i)
        self.table(s, table)
        self.setflags(s, self.flagsof(s) | (F_LOOPBACK if self.kind != 'from' else 0))
        s.cl['loads'] = ()
        return [self.result(x, C, D) for x, _ in self.run(s, 'cbconv', [P(self.ins)], 'block')]
    def table(self, s, vals):
        """the table data of the node that called the codec: a list of byte strings"""
        m = self.m
        if not vals: self.dzlist(s, 0); return
        p = 256
        for k, v in enumerate(vals):
            b = 16 + 12 * k
            m.wr(s, self.dz, b, 4, p); m.wr(s, self.dz, b + 4, 4, len(v)); m.wr(s, self.dz, b + 8, 4, 16 + 12 * (k + 1) if k + 1 < len(vals) else 0)
            for j, c in enumerate(v): m.wr(s, self.dz, p + j, 1, c)
            p += len(v) + 16
        m.wr(s, self.ph, self.pf('state') + self.os['data'], 8, 16)
    def resume(self, o):
        """the engine calls again for the rest of the chunk"""
        s = o['st'].copy(); m = self.m; self.begin(s)
        m.wr(s, self.ph, self.pf('i'), 4, o['i'] + 1); self.B = o['B']
        return [self.result(x, None, None) for x, _ in self.run(s, 'cbconv', [P(self.ins)], 'block')]
    def whole(self, st, box, **kw):
        """the outcome of the whole chunk: CONTINUE before its end goes on"""
        todo = self.feed(st, box, **kw); r = []
        while todo:
            o = todo.pop()
            if o['status'] == CONTINUE and isinstance(o['i'], int) and o['i'] < len(box) - 1: todo += self.resume(o)
            else: r.append(o)
        return r
    def again(self, o):
        """the state after an outcome, ready for the next call"""
        s = o['st'].copy(); self.m.wr(s, self.H, self.od['next'], 8, 0); self.m.wr(s, self.ph, self.pf('data_tail'), 8, P(self.H)); return s
    def flushed(self, st):
        s = st.copy(); self.begin(s)
        return [self.result(x, None, None) for x, _ in self.run(s, 'cbflush', [P(self.ins)], 'block')]
    def result(self, s, C, D):
        m = self.m
        us, bad = self.units(s, m.rd(s, s.cl['tail0'], self.od['next'], 8)); out = []
        for o in us:
            d = m.rd(s, o, self.od['data'], 8); ln = m.rd(s, o, self.od['len'], 8)
            if not isinstance(ln, int):
                l, h = T.rng(ln, s.F); ln = l if l == h else None
            if ln is None or isinstance(d, int) or d[0] != 'P' or not isinstance(d[2], int): out.append(None); continue
            out.append([m.rd(s, d[1], d[2] + k, 1) for k in range(ln)])
        st = m.rd(s, self.ph, self.pf('state') + self.os['status'], 1)
        if not isinstance(st, int) and st[0] != 'U':
            l, h = T.rng(st, s.F); st = l if l == h else st
        return dict(status=st, out=None if bad else out, st=s, i=m.rd(s, self.ph, self.pf('i'), 4), B=list(getattr(self, 'B', [])))
    def onload(self, st, o, off, sz, v, ins):
        if o.kind == 'glob' and 'loads' in st.cl: st.cl['loads'] = st.cl['loads'] + ((o.name, off, sz),)
        return super().onload(st, o, off, sz, v, ins)

class Plain:
    """a filter or scorer: one function of one unit"""
    def __init__(self, rel, fn):
        self.u = ir.load_unit(rel); self.fn = fn; self.rel = rel
        if fn not in self.u.fns: raise AnalysisBroken(f'{rel}: no {fn}')
        self.m = m = Machine(self.u, H, maxpaths=3000, maxvisit=400, maxsteps=600000); m.life = self; self.viol = []; m.report = self.reported
        m.on_store = self.onstore; self.codec = rel; self.kind = 'filter'; self.cb = fn; self.ctx = ''; self.caps = {}; self.cov = dict(steps=0)
        self.od = {f: self.u.off('data_rt', f) for f in ('data', 'len', 'next', 'flags')}; self.SD = self.u.size('data_rt'); self.runs = 0
    def reported(self, kind, ins, msg, detail, st):
        k = (kind, self.m.where(ins))
        if k not in [v[0] for v in self.viol]: self.viol.append((k, 'C18' if kind == 'shared-write' else 'C21', f'{self.m.where(ins)} ({self.fn}, {self.ctx}): {msg}'))
    def onstore(self, st, o, off, sz, v, ins):
        if o.kind != 'alloca': self.m.bad(st, 'shared-write', ins, f'writes to {o.name}', o.name); return True
        return False
    def ask(self, box, ctx, size=None):
        """-> [(state, answer)]"""
        m = self.m; st = State(); n = len(box) if size is None else size; self.ctx = ctx; self.runs += 1
        d = m.new(st, 'data', n, 'the bytes of the unit')
        for k, (l, h) in enumerate(box):
            if l == h: m.wr(st, d, k, 1, l)
            else:
                x = T.fresh(8, f'byte{k}'); m.wr(st, d, k, 1, x)
                if (l, h) != (0, 255): st.F.rg[x] = (l, h)
        c = m.new(st, 'unit', self.SD, 'the unit')
        for f, s, v in (('data', 8, P(d)), ('len', 8, n), ('next', 8, 0), ('flags', 1, 0)): m.wr(st, c, self.od[f], s, v)
        m.stats['steps'] = 0; self.st0 = st
        try: return m.call(st, self.fn, [P(c)])
        except RecursionError: raise AnalysisBroken(f'{self.rel}: recursion limit')

def plains(rep, rule):
    """every filter and scorer on units of 0..6, 9 and 300 bytes of any content: memory rules"""
    n = 0
    for kind, names, fn in (('filter', ir.filters(), 'cbfilter'), ('scorer', ir.scorers(), 'cbscorer')):
        for x in names:
            p = Plain(f'modules/{kind}/{x}.c', fn); n += 1
            for k in (0, 1, 2, 3, 4, 5, 6, 9):
                for lead in ((0, 0), (1, 1), (2, 255)): p.ask((lead,)[:k] + ((0, 255),) * (k - 1), f'unit of {k} bytes')
            for kk, r, msg in p.viol:
                if r == rule: rep.violation(f'{kind}/{x}:{kk[0]}', msg)
    rep.floor('filters_and_scorers', n, 50)
