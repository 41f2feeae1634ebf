"""Life-cycle analysis of native codecs: an abstract client world around the callbacks of one module.

The client drives cbcreate -> cbinit -> {cbconv, cbflush, cbctl}* with the engine's calling conventions (bsdconv() in
src/libbsdconv.c): the reachable private states of the codec are enumerated up to renaming, every callback is interpreted
abstractly (sa/absint.py) from each of them, and the obligations below are checked on every outcome. cbinit and cbdestroy are
interpreted from every reachable state too. What is decided is collected in Life.viol as (rule, key, message)."""
import re, sys, time, os
from . import terms as T, ir, tables
from .absint import Machine, State, PathEnd, P
from .ir import AnalysisBroken

CONTINUE, DEADEND, MATCH, SUBMATCH, SUBROUTINE, SUBMATCH_SUBROUTINE, NEXTPHASE, NOMATCH, NOOP = range(9)
SNAME = 'CONTINUE DEADEND MATCH SUBMATCH SUBROUTINE SUBMATCH_SUBROUTINE NEXTPHASE NOMATCH NOOP'.split()
F_FREE, F_MATCH, F_PENDING, F_LOOPBACK = 1, 1, 2, 4
TYPE = {'from': 1, 'inter': 2, 'to': 3}
CAPC = 40
SCANNED = (0, 1, 3, -2)   # numbers an argument may be
CAPU = 3             # units held back before exploration stops extending

# rule of every report kind, per group of callbacks
CONV = ('cbconv', 'cbflush', 'cbctl')

class Life:
    exact = False       # formatted numbers are followed digit by digit
    verdict = None      # what a filter or scorer answers: verdict(state, arguments) -> [(state, value)]
    datum = None        # what an argument string stands for, as bytes; None: anything
    inner = None        # what an inner conversion makes of the units it is given; None: anything
    def content(self, st, d, ln):
        if not isinstance(ln, int) or isinstance(d, int) or d[0] != 'P' or not isinstance(d[2], int): return None
        return tuple(self.m.rd(st, d[1], d[2] + k, 1) for k in range(ln))
    def __init__(self, codec, budget=4000000, lens=None):
        self.codec = codec; self.kind = codec.split('/')[0]
        self.u = u = ir.load_unit(f'modules/{codec}.c')
        self.m = m = Machine(u, H, maxpaths=3000, maxvisit=400, maxsteps=600000)
        m.life = self; m.report = self.reported; m.on_load = self.onload; m.on_store = self.onstore; m.nullhook = self.nullhook
        m.maxfork = 9; m.mergeafter = 12
        self.viol = []; self.vseen = set(); self.cb = None; self.budget = budget; self.total = 0
        self.cov = dict(states=0, steps=0, outcomes=0, callbacks=0, bounded=0, timeouts=0, emitted=0)
        self.lens = lens
        o = lambda s, f: u.off(s, f)
        self.oi = {f: o('bsdconv_instance', f) for f in ('input', 'output', 'flush', 'phase', 'phasen', 'phase_index', 'hash', 'counter', 'ierr', 'oerr', 'pool', 'output_mode')}
        self.op = {f: o('bsdconv_phase', f) for f in ('match_data', 'bak', 'data_head', 'data_tail', 'curr', 'state', 'index', 'i', 'codec', 'codecn', 'offset', 'flags', 'type')}
        self.oc = {f: o('bsdconv_codec', f) for f in ('dl', 'argv', 'z', 'data_z', 'desc', 'priv', 'fd', 'maplen')}
        self.od = {f: o('data_rt', f) for f in ('data', 'len', 'next', 'flags')}
        self.os = {f: o('state_rt', f) for f in ('status', 'data', 'beg', 'end', 'base')}
        self.SP = u.size('bsdconv_phase'); self.SC = u.size('bsdconv_codec'); self.SD = u.size('data_rt'); self.SI = u.size('bsdconv_instance')
        self.caps = {}
        self.prefixes = self.callback_keys()
    # ---- reports ------------------------------------------------------------------------------------------
    def add(self, rule, key, msg):
        key = f'{self.codec}:{key}'
        if (rule, key) in self.vseen: return
        self.vseen.add((rule, key)); self.viol.append((rule, key, msg))
    def reported(self, kind, ins, msg, detail, st):
        fn = self.cb; where = self.m.where(ins)
        env = any(x in (detail or '') for x in ('argument', 'getenv', 'environment', 'fopen'))
        if kind in ('null-deref', 'maybe-null', 'null-call'):
            rule = 'C17' if env or fn not in CONV else 'C21'
        elif kind == 'use-after-free': rule = 'C02'
        elif kind.startswith('uninit'): rule = 'C05' if fn != 'cbcreate' else 'C17'
        elif kind in ('unbounded-copy',): rule = 'C17'
        elif kind in ('bad-release', 'double-release', 'leak'): rule = 'C02'
        elif kind == 'shared-write': rule = 'C18'
        else: rule = 'C21' if fn in CONV else 'C17'
        self.add(rule, f'{fn}:{kind}:{detail}', f'{where} ({fn}, {self.ctx}): {msg}')
    # ---- tables -------------------------------------------------------------------------------------------
    def callback_keys(self):
        ks = set(); self.cbdata = set()
        for e in tables.table(self.codec) if not isinstance(tables.table(self.codec), tuple) else tables.table(self.codec)[0]:
            if e.err or not e.cb: continue
            ks.add(tuple(e.key)); self.cbdata.add(tuple(len(x) for x in e.out))
        return ks
    # ---- world --------------------------------------------------------------------------------------------
    def world(self):
        """initial state: everything the engine owns"""
        m = self.m; st = State(); n = 2 if self.kind != 'inter' else 3
        self.idx = ix = 2 if self.kind != 'from' else 1
        if self.kind == 'to': n = 2
        self.ins = m.new(st, 'ins', self.SI, 'the conversion'); self.ph = m.new(st, 'phases', self.SP * (n + 1), 'the phase list')
        self.cd = m.new(st, 'codecs', self.SC * 2, 'the codec list')
        self.z = m.new(st, 'z', None, 'the codec table'); self.dz = m.new(st, 'dz', None, 'the codec table data')
        self.desc = m.new(st, 'table', None, 'the codec description')
        m.wr(st, self.ins, self.oi['phase'], 8, P(self.ph)); m.wr(st, self.ins, self.oi['phasen'], 4, n); m.wr(st, self.ins, self.oi['phase_index'], 4, ix)
        for f in ('hash', 'counter'): m.wr(st, self.ins, self.oi[f], 8, 0)
        for f in ('ierr', 'oerr'):
            o = m.new(st, 'ctr', 8, f'the error counter {f.upper()}'); m.wr(st, self.ins, self.oi[f], 8, P(o)); st.cl[('ctr', self.ins, f)] = o
        pb = ix * self.SP
        m.wr(st, self.ph, pb + self.op['codec'], 8, P(self.cd)); m.wr(st, self.ph, pb + self.op['index'], 4, 1); m.wr(st, self.ph, pb + self.op['codecn'], 4, 1)
        m.wr(st, self.ph, pb + self.op['flags'], 1, 0); m.wr(st, self.ph, pb + self.op['type'], 1, TYPE[self.kind]); m.wr(st, self.ph, pb + self.op['match_data'], 8, 0)
        c = self.SC
        m.wr(st, self.cd, c + self.oc['z'], 8, P(self.z)); m.wr(st, self.cd, c + self.oc['data_z'], 8, P(self.dz)); m.wr(st, self.cd, c + self.oc['desc'], 8, P(self.desc)); m.wr(st, self.cd, c + self.oc['argv'], 8, 0)
        m.wr(st, self.cd, c + self.oc['priv'], 8, ('U', 'the private pointer of the codec'))
        self.H = m.new(st, 'unit', self.SD, 'the head of the output list'); self.PH = m.new(st, 'unit', self.SD, 'the head of the input list')
        m.wr(st, self.H, self.od['next'], 8, 0); m.wr(st, self.H, self.od['len'], 8, 0); m.wr(st, self.H, self.od['flags'], 1, 0)
        m.wr(st, self.PH, self.od['next'], 8, 0); m.wr(st, self.PH, self.od['len'], 8, 0); m.wr(st, self.PH, self.od['flags'], 1, 0)
        for o, a in ((self.H, ix), (self.PH, ix - 1)):
            m.wr(st, self.ph, a * self.SP + self.op['data_head'], 8, P(o)); m.wr(st, self.ph, a * self.SP + self.op['data_tail'], 8, P(o))
        m.wr(st, self.ph, pb + self.op['curr'], 8, P(self.PH)); m.wr(st, self.ph, pb + self.op['bak'], 8, P(self.PH)); m.wr(st, self.ph, pb + self.op['i'], 4, 0)
        st.cl['pool'] = (); st.cl['nopool'] = False
        self.fixed = {self.ins, self.ph, self.cd, self.z, self.dz, self.desc, self.H, self.PH}
        self.pf = lambda f: pb + self.op[f]
        return st
    def units(self, st, first):
        """walk a list of units from pointer value first -> list of objects (stops on trouble) and trouble text"""
        r = []; v = first; seen = set()
        while True:
            if v == 0: return r, None
            if isinstance(v, int) or v[0] != 'P': return r, ('uninit' if not isinstance(v, int) and v[0] == 'U' else 'unknown')
            o = v[1]
            if st.maybe.get(o) in ('maybe', 'null'): return r, 'maybe-null'
            if o in seen: return r, 'cycle'
            if st.st.get(o) in ('freed', 'pooled', 'given'): return r, st.st[o] + ' unit ' + o.name
            seen.add(o); r.append(o)
            v = self.m.nrm(st, self.m.rd(st, o, self.od['next'], 8, True))
    # ---- pool ---------------------------------------------------------------------------------------------
    def pooltop(self, st):
        p = st.cl['pool']
        if not p:
            if st.cl['nopool']: return None
            self.m.nobj += 0
            o = self.m.new(st, 'unit', self.SD, 'a unit node from the pool'); st.st[o] = 'pooled'
            st.cl['pool'] = p = (o,)
        return p[-1]
    def onload(self, st, o, off, sz, v, ins):
        if o is self.ins and off == self.oi['pool']:
            t = self.pooltop(st); return P(t) if t else 0
        s = st.st.get(o)
        if s == 'pooled':
            if off == self.od['next'] and sz == 8:
                p = st.cl['pool']
                if o in p:
                    i = p.index(o)
                    if i: return P(p[i - 1])
                    if st.cl['nopool']: return 0
                    n = self.m.new(st, 'unit', self.SD, 'a unit node from the pool'); st.st[n] = 'pooled'
                    st.cl['pool'] = (n,) + p; return P(n)
            self.m.bad(st, 'use-after-free', ins, f'{o.name} is read after it went back to the pool', o.name + ' (pool)')
        elif s == 'given':
            if o.kind == 'unit' and off == self.od['next']: pass
            self.m.bad(st, 'use-after-free', ins, f'{o.name} is read after it was handed on to the engine', o.name + ' (handed on)'); raise PathEnd()
        elif s == 'closed':
            self.m.bad(st, 'use-after-free', ins, f'{o.name} is used after it was closed', o.name)
        if o.kind == 'data' and isinstance(off, int): st.cl['rd'] = st.cl.get('rd', frozenset()) | {off}
        return v
    def onstore(self, st, o, off, sz, v, ins):
        if o is self.ins and off == self.oi['pool']:
            p = st.cl['pool']
            if v == 0 or (not isinstance(v, int) and v[0] == 'P' and v[2] == 0):
                top = p[-1] if p else None
                nxt = p[-2] if len(p) > 1 else None
                if p and ((v == 0 and nxt is None and st.cl['nopool']) or (v != 0 and v[1] is nxt)):
                    st.cl['pool'] = p[:-1]; st.st[top] = 'live'; st.mem.pop(top, None); return True
                if v != 0:
                    n = v[1]
                    if st.st.get(n) == 'pooled':
                        self.m.bad(st, 'double-release', ins, f'{n.name} is put back into the pool twice', n.name); raise PathEnd()
                    if st.st.get(n) == 'given':
                        self.m.bad(st, 'double-release', ins, f'{n.name} is released although the engine has it', n.name); raise PathEnd()
                    if n.kind not in ('unit', 'heap') or n in self.fixed:
                        self.m.bad(st, 'bad-release', ins, f'{n.name} is put into the unit pool', n.name); raise PathEnd()
                    if n.kind == 'heap' and n.size != self.SD:
                        self.m.bad(st, 'bad-release', ins, f'{n.name} ({n.size} bytes) is put into the unit pool', n.name); raise PathEnd()
                    want = st.cells(n).get(self.od['next'], (None,))[0]
                    ok = (top is None and (want == 0 or want is None)) or (top is not None and want == P(top))
                    if not ok and top is None: ok = not isinstance(want, int) and want is not None and want[0] == 'P'
                    if not ok: self.m.bad(st, 'bad-release', ins, f'{n.name} goes into the pool without being linked to it', n.name)
                    st.st[n] = 'pooled'; st.cl['pool'] = p + (n,); return True
            self.m.bad(st, 'bad-release', ins, 'the unit pool is overwritten', 'pool'); return True
        if o.kind == 'ctr' and 'error counter' in o.name: st.cl['counts'] = st.cl.get('counts', ()) + ((o.name, T.sub(v, self.m.rd(st, o, off, sz), 64, st.F), ins.get('line')),)
        s = st.st.get(o)
        if s == 'pooled':
            self.m.bad(st, 'use-after-free', ins, f'{o.name} is written after it went back to the pool', o.name + ' (pool)'); return True
        if s == 'given':
            self.m.bad(st, 'use-after-free', ins, f'{o.name} is written after it was handed on to the engine', o.name + ' (handed on)'); return True
        if o.kind in ('glob', 'z', 'dz', 'table', 'str', 'argnode') or (o.kind == 'data' and not st.cl.get('Dfree')):
            self.m.bad(st, 'shared-write', ins, f'writes to {o.name}, which is not the codec\'s to change', o.name); return True
        return False
    def nullhook(self, st, o):
        """a call that failed: fopen sets errno"""
        if 'the stream from' in o.name:
            e = st.cl.get('errno')
            if e is None: e = st.cl['errno'] = self.m.new(st, 'ext', 4, 'errno')
            n = T.fresh(32, 'errno'); st.F.rg[n] = (1, 133); self.m.wr(st, e, 0, 4, n)
    # ---- cells lazily found in engine objects --------------------------------------------------------------
    # ---- steps --------------------------------------------------------------------------------------------
    def run(self, st, fn, args, ctx):
        self.cb = fn; self.ctx = ctx; self.cov['steps'] += 1
        m = self.m; self.total += m.stats['steps']; m.stats['steps'] = 0
        if fn not in self.u.fns: return None
        try: r = m.call(st, fn, args)
        except RecursionError: raise AnalysisBroken(f'{self.codec}: recursion limit in {fn}')
        self.cov['outcomes'] += len(r); self.cov['callbacks'] += 1
        return r
    def curr_unit(self, st, n, flags, prefix):
        """put one input unit of n bytes in front of the codec"""
        m = self.m
        d = m.new(st, 'data' if not flags & F_FREE else 'heap', n, 'the input bytes')
        if flags & F_FREE: st.cl['Dfree'] = True
        else: st.cl['Dfree'] = False
        st.cl['D'] = d
        for i in range(min(n, 16)):
            v = prefix[i] if i < len(prefix) and prefix[i] != '*' else T.fresh(8, f'byte{i}', ('byte', i))
            m.wr(st, d, i, 1, v)
        if n > 16: st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {d}
        c = m.new(st, 'unit', self.SD, 'the input unit')
        for f, s, v in (('data', 8, P(d)), ('len', 8, n), ('next', 8, 0), ('flags', 1, flags)): m.wr(st, c, self.od[f], s, v)
        # append behind what the engine still queues
        tail = self.PH
        us, bad = self.units(st, m.rd(st, self.PH, self.od['next'], 8))
        if us: tail = us[-1]
        m.wr(st, tail, self.od['next'], 8, P(c))
        m.wr(st, self.ph, (self.idx - 1) * self.SP + self.op['data_tail'], 8, P(c))
        m.wr(st, self.ph, self.pf('curr'), 8, P(c))
        st.cl['C'] = c
        return c, d
    def begin(self, st):
        """engine state before a callback: fresh output list, poisoned status"""
        m = self.m
        tail = self.H
        if st.cl.get('usetail'):
            t = m.new(st, 'unit', self.SD, 'a unit emitted earlier')
            for f, s, v in (('data', 8, 0), ('len', 8, 0), ('next', 8, 0), ('flags', 1, 0)): m.wr(st, t, self.od[f], s, v)
            m.wr(st, self.H, self.od['next'], 8, P(t)); tail = t
        else: m.wr(st, self.H, self.od['next'], 8, 0)
        m.wr(st, self.ph, self.pf('data_tail'), 8, P(tail)); st.cl['tail0'] = tail
        m.wr(st, self.ph, self.pf('data_head'), 8, P(self.H))
        m.wr(st, self.ins, self.oi['phase_index'], 4, self.idx)
        m.wr(st, self.ph, self.pf('state') + self.os['status'], 1, SUBROUTINE)
        m.wr(st, self.ph, self.pf('index'), 4, 1)
        st.cl['rd'] = frozenset()
        return st
    def dzlist(self, st, k):
        """state.data: k table data in a row"""
        m = self.m
        if k == 0: m.wr(st, self.ph, self.pf('state') + self.os['data'], 8, 0); return
        for i in range(k):
            b = 16 + 12 * i
            m.wr(st, self.dz, b, 4, 256 + 16 * i)
            ln = T.fresh(32, 'data length'); st.F.rg[ln] = (1, 8)
            m.wr(st, self.dz, b + 4, 4, ln); m.wr(st, self.dz, b + 8, 4, 16 + 12 * (i + 1) if i + 1 < k else 0)
        m.wr(st, self.ph, self.pf('state') + self.os['data'], 8, 16)
    # ---- reachability -------------------------------------------------------------------------------------
    def reach(self, st, roots):
        """objects reachable from the root values"""
        seen = {}; todo = [v for v in roots]
        while todo:
            v = todo.pop()
            if isinstance(v, int) or v[0] != 'P': continue
            o = v[1]
            if o in seen: continue
            seen[o] = True
            if st.st.get(o) in ('freed', 'given', 'pooled', 'closed') : continue
            for off, (x, s) in st.cells(o).items():
                if not isinstance(x, int) and x[0] == 'P': todo.append(x)
        return seen
    def privval(self, st): return self.m.rd(st, self.cd, self.SC + self.oc['priv'], 8)
    def roots(self, st):
        r = [self.privval(st)] + [v for k, v in st.cl.get('hash', ())]
        return r
    def leaks(self, st, reached, exempt=()):
        for o, s in st.st.items():
            if s == 'live' and o.kind in ('heap', 'unit', 'res') and o not in reached and o not in exempt and o not in self.fixed and st.maybe.get(o) not in ('null',):
                yield o
    # ---- after a callback ---------------------------------------------------------------------------------
    def after(self, st, fn, ctx, C=None, D=None):
        """check what the callback left behind -> dict(status, emitted, ...)"""
        m = self.m; cb = fn; K = f'{fn}:'
        add = lambda rule, key, msg: self.add(rule, K + key, f'modules/{self.codec}.c {fn} ({ctx}): {msg}')
        t0 = st.cl['tail0']
        # the emitted list
        us, bad = self.units(st, m.rd(st, t0, self.od['next'], 8))
        if bad: add('C04', 'list:' + bad, f'the list of emitted units is broken: {bad}')
        tail = m.rd(st, self.ph, self.pf('data_tail'), 8)
        last = us[-1] if us else t0
        if not bad and tail != P(last):
            add('C04', 'tail', f'data_tail does not point at the last emitted unit ({len(us)} emitted)')
        hd = m.rd(st, self.ph, self.pf('data_head'), 8)
        if hd != P(self.H): add('C04', 'head', 'the head of the output list was replaced')
        if t0 is not self.H and m.rd(st, self.H, self.od['next'], 8) != P(t0): add('C04', 'lost', 'units emitted earlier were cut off the output list')
        owners = {}
        def own(o, what):
            if o in owners: add('C04', 'owned-twice', f'{o.name} is owned by {owners[o]} and by {what}')
            owners[o] = what
        listed = {}
        def inlist(o, what):
            if o in listed: add('C04', 'listed-twice', f'{o.name} is in {listed[o]} and in {what}')
            listed[o] = what
        emitted = []
        for o in us:
            inlist(o, 'the output list')
            if o.size != self.SD and o.kind != 'unit': add('C04', 'node', f'{o.name} is not a unit node')
            v = {f: m.nrm(st, m.rd(st, o, self.od[f], 8 if f != 'flags' else 1)) for f in ('data', 'len', 'flags')}
            for f in v:
                if not isinstance(v[f], int) and v[f][0] == 'U':
                    if f == 'data' and v['len'] == 0: continue
                    add('C04', f'unset:{f}', f'an emitted unit has no {f}'); v[f] = None
            fl = v['flags']; d = v['data']; ln = v['len']
            emitted.append((d, ln, fl))
            if ln is not None and d is not None and not isinstance(d, int) and d[0] == 'P':
                do = d[1]; s = st.st.get(do)
                if do.kind == 'alloca': add('C04', 'local', 'an emitted unit points at a local buffer')
                elif s in ('freed', 'closed'): add('C04', 'freed-data', f'an emitted unit points at {do.name}, which was released')
                elif st.maybe.get(do) == 'maybe': add('C04', 'null-data', f'an emitted unit may have no data ({do.name})')
                else:
                    # extent
                    if isinstance(do.size, int) and isinstance(d[2], int):
                        l, h = T.rng(ln, st.F)
                        if h + d[2] > do.size or l < 0: add('C04', 'extent', f'an emitted unit claims up to {h} bytes of {do.name}, which has {do.size}')
                        elif do.kind == 'heap' and do is not D:
                            c = st.cells(do)
                            if do not in st.cl.get('havoc', ()) and not st.cl.get(('zero', do)):
                                for i in range(d[2], d[2] + min(h, 400)):
                                    x = None
                                    for k in range(i, i - 8, -1):
                                        e = c.get(k)
                                        if e is not None and k + e[1] > i: x = e[0]; break
                                    if x is None or (not isinstance(x, int) and x[0] == 'U'):
                                        add('C04', 'uninit-bytes', f'byte {i - d[2]} of an emitted unit was never written (it claims up to {h} bytes of {do.name})'); break
                    elif do.size is not None:
                        dd = T.sub(do.size, T.add(ln, d[2] if isinstance(d[2], int) else d[2], 64, st.F), 64, st.F)
                        l, h = T.rng(dd, st.F)
                        if l < 0: add('C04', 'extent', f'an emitted unit may claim more bytes than {do.name} has')
            elif d == 0 and ln is not None and ln != 0: add('C04', 'null-data', 'an emitted unit has a length but no data')
            if fl is not None:
                f1 = m_and1(fl, st)
                if f1 is None: add('C04', 'flags', 'it is undecided whether an emitted unit owns its data')
                if f1:
                    if d is not None and not isinstance(d, int) and d[0] == 'P':
                        if d[1].kind not in ('heap',) or d[2] != 0 or st.st.get(d[1]) not in ('live', 'lent'): add('C04', 'free-flag', f'an emitted unit marked F_FREE points at {d[1].name}, which cannot be freed by it')
                        else: own(d[1], 'an emitted unit')
        # the queued input
        qs, qbad = self.units(st, m.rd(st, self.PH, self.od['next'], 8))
        if qbad: add('C04', 'input-list:' + qbad, f'the list of input units is broken: {qbad}')
        pt = m.rd(st, self.ph, (self.idx - 1) * self.SP + self.op['data_tail'], 8)
        if not qbad and pt != P(qs[-1] if qs else self.PH): add('C04', 'input-tail', 'the tail of the input list is wrong')
        for o in qs:
            inlist(o, 'the input list')
            d = m.rd(st, o, self.od['data'], 8); fl = m.rd(st, o, self.od['flags'], 1)
            if not isinstance(fl, int) and fl[0] == 'U': add('C04', 'input-unset', 'an input unit lost its flags'); continue
            if m_and1(fl, st) and not isinstance(d, int) and d[0] == 'P': own(d[1], 'the input unit')
        # private graph: nodes held and blocks owned
        reached = self.reach(st, self.roots(st))
        pv = self.privval(st); pobj = pv[1] if not isinstance(pv, int) and pv[0] == 'P' else None
        heldn = [o for o in reached if o is not pobj and (o.kind == 'unit' or (o.kind == 'heap' and self.isnode(st, o)))]
        for o in heldn:
            if st.st.get(o) != 'live' or o in listed: continue
            fl = st.cells(o).get(self.od['flags']); d = st.cells(o).get(self.od['data'])
            if fl is None or d is None: continue
            if m_and1(fl[0], st) and not isinstance(d[0], int) and d[0][0] == 'P': own(d[0][1], 'a unit held back')
        # inner conversions
        inner = []
        for o in reached:
            if o.kind == 'inst' and st.st.get(o) == 'live' and st.maybe.get(o) != 'null':
                nh = st.cl.get(('nh', o))
                if nh is None: continue
                nus, nb = self.units(st, m.rd(st, nh, self.od['next'], 8))
                if nb: add('C04', 'inner-list:' + nb, f'the output list of the inner conversion is broken: {nb}')
                nt = m.rd(st, st.cl[('np', o)], self.SP + self.op['data_tail'], 8)
                st.cl[('ntok', o)] = (nt == P(nus[-1] if nus else nh))
                for x in nus: inlist(x, 'the output list of the inner conversion'); inner.append(x)
        # leaks
        alive = dict(reached); alive[t0] = True
        for o in us + qs + inner:
            alive[o] = True
            if st.st.get(o) in ('live',):
                d = st.cells(o).get(self.od['data'])
                if d and not isinstance(d[0], int) and d[0][0] == 'P' and m_and1(m.rd(st, o, self.od['flags'], 1), st): alive[d[0][1]] = True
        for o in list(alive):
            if o.kind == 'unit' and st.st.get(o) == 'live' and o not in us:
                d = st.cells(o).get(self.od['data']); fl = st.cells(o).get(self.od['flags'])
        for o in self.leaks(st, alive):
            if o is D: add('C02', 'leak:input', 'the bytes of the input unit are lost (never released)')
            else: add('C02', 'leak:' + o.name, f'{o.name} is lost (never released)')
            st.st[o] = 'given'
        shared = self.reach(st, [v for k, v in st.cl.get('hash', ())])      # handed to the partner module through the hash
        # data a held node points at without owning it
        status = m.rd(st, self.ph, self.pf('state') + self.os['status'], 1)
        return dict(status=status, us=us, emitted=emitted, qs=qs, owners=owners, reached=reached, held=[o for o in heldn if o not in listed and o is not t0 and o not in shared and st.st.get(o) == 'live'])
    def isnode(self, st, o):
        return o.kind == 'heap' and o.size == self.SD and self.od['flags'] in st.cells(o)
    def handover(self, st, a, flush_queue):
        """the engine takes the emitted units (and, if the input was consumed, the queue)"""
        for o in a['us']:
            d = st.cells(o).get(self.od['data']); fl = m_and1(self.m.rd(st, o, self.od['flags'], 1), st)
            st.st[o] = 'given'
            if d and not isinstance(d[0], int) and d[0][0] == 'P' and d[0][1].kind == 'heap':
                if fl: st.st[d[0][1]] = 'given'
                elif st.st.get(d[0][1]) == 'live': st.cl['lent'] = st.cl.get('lent', frozenset()) | {d[0][1]}
        if flush_queue:
            for o in a['qs']:
                d = st.cells(o).get(self.od['data'])
                if d and not isinstance(d[0], int) and d[0][0] == 'P':
                    fl = m_and1(self.m.rd(st, o, self.od['flags'], 1), st)
                    if fl or d[0][1].kind == 'data': pass
                    if fl: st.st[d[0][1]] = 'given'
                st.st[o] = 'given'
            self.m.wr(st, self.PH, self.od['next'], 8, 0)
            self.m.wr(st, self.ph, (self.idx - 1) * self.SP + self.op['data_tail'], 8, P(self.PH))
            self.m.wr(st, self.ph, self.pf('curr'), 8, P(self.PH))
    # ---- canonical private state ---------------------------------------------------------------------------
    def canon(self, st, ignore_u=False):
        """(key, list of (obj, off, value) scalars) of the private graph"""
        names = {}; out = []; cells = []
        syms = {}; hv = st.cl.get('havoc', ())
        def sval(x):
            if isinstance(x, int): return str(x)
            if x[0] == 'U': return 'U'
            if x[0] == 'F': return 'F' + x[1]
            if x[0] == 'P': return ref(x)
            l, h = T.rng(x, st.F)
            if l == h: return str(l)
            n = syms.setdefault(x, len(syms)); return f's{n}[{l},{h}]'
        todo = []; pv = self.privval(st); pobj = pv[1] if not isinstance(pv, int) and pv[0] == 'P' else None
        def ref(x):
            o = x[1]; off = x[2] if isinstance(x[2], int) else '?'
            if o.kind in ('glob',): return f'G{o.name}+{off}'
            if o in self.fixed: return f'W{o.name}+{off}'
            s = st.st.get(o)
            if st.maybe.get(o) == 'null': return '0'
            if s in ('given', 'freed', 'closed', 'pooled'): return s
            if o not in names: names[o] = len(names); todo.append((o, None))
            return f'#{names[o]}+{off}'
        def visit():
            while todo:
                o, _ = todo.pop(0)
                mb = st.maybe.get(o)
                cs = []
                if o is not pobj and (o.kind == 'unit' or self.isnode(st, o)):
                    c = {f: (self.m.nrm(st, st.cells(o)[self.od[f]][0]) if self.od[f] in st.cells(o) else ('U', '')) for f in self.od}
                    d = c['data']; ln = c['len']
                    if not isinstance(d, int) and d[0] == 'P' and d[2] == 0 and d[1].kind in ('heap', 'data') and st.st.get(d[1]) == 'live' and d[1] not in names:
                        b0 = st.cells(d[1]).get(0)
                        l, h = T.rng(ln, st.F) if isinstance(ln, int) or ln[0] != 'U' else (0, 0)
                        dd = f'{d[1].kind}:{min(h, 2)}:{sval(self.m.nrm(st, b0[0])) if b0 else "-"}'
                    else: dd = sval(d) + '/' + sval(ln)
                    out.append(f'{names[o]}=node/{"?" if mb == "maybe" else ""}({sval(c["next"])},{sval(c["flags"])},{dd})'); continue
                for off in sorted(st.cells(o)):
                    x, s = st.cells(o)[off]
                    if o.kind not in ('heap', 'unit', 'alloca', 'inst', 'res'): continue
                    if o.kind == 'inst' and off < self.SI: continue
                    v = self.m.nrm(st, x)
                    if not isinstance(v, int) and v[0] == 'U' : v = ('U', '')
                    if o.kind in ('heap', 'unit') and not isinstance(v, int) and v[0] == 'U': continue
                    cs.append(f'{off}:{s}={sval(v)}')
                sz = o.size if isinstance(o.size, int) else '?'
                out.append(f'{names[o]}={o.kind}/{sz}/{"?" if mb == "maybe" else ""}{o.name if o.kind == "res" else ""}{"~" if o in hv else ""}({",".join(cs)})')
        out.append('priv ' + sval(self.m.nrm(st, pv))); visit()
        for k, v in st.cl.get('hash', ()): out.append(f'hash {sval(v)}'); visit()
        fl = self.m.rd(st, self.ph, self.pf('flags'), 1)
        return '|'.join(out), fl, names
    def queued(self, st): return len(self.units(st, self.m.rd(st, self.PH, self.od['next'], 8))[0])
    def clean(self, st):
        """drop everything that is not part of the private graph; forget symbolic values beyond their interval"""
        m = self.m
        reached = self.reach(st, self.roots(st) + [P(self.PH)])
        keep = set(reached) | self.fixed
        for o in list(reached):
            if o.kind == 'inst':
                for k in ('nh', 'np', 'nc'):
                    x = st.cl.get((k, o))
                    if x is not None: keep |= set(self.reach(st, [P(x)]))
        s = State()
        if self.exact: s.F = st.copy().F
        s.cl = {k: v for k, v in st.cl.items() if k in ('pool', 'nopool', 'hash', 'usetail', 'names') or (isinstance(k, tuple) and k[1] in keep)}
        s.cl['pool'] = tuple(o for o in st.cl['pool'][-1:] if False)
        hv = frozenset(o for o in st.cl.get('havoc', ()) if o in keep)
        if hv: s.cl['havoc'] = hv
        ln = frozenset(o for o in st.cl.get('lent', ()) if o in keep)
        if ln: s.cl['lent'] = ln
        s.st = {o: x for o, x in st.st.items() if o in keep}; s.maybe = {o: x for o, x in st.maybe.items() if o in keep}
        ren = {}; pv = self.privval(st); proot = pv[1] if not isinstance(pv, int) and pv[0] == 'P' else None
        for o in keep:
            c = st.mem.get(o)
            if c is None: continue
            if s.st.get(o) in ('given', 'freed', 'pooled', 'closed') and o not in self.fixed: continue
            nc = {}
            if self.exact: s.mem[o] = dict(c); continue
            if self.istext(o, c, proot, o in hv): s.cl['havoc'] = s.cl.get('havoc', frozenset()) | {o}; continue
            for off, (v, z) in c.items():
                if not isinstance(v, int) and v[0] not in 'PFU':
                    l, h = T.rng(v, st.F)
                    if l == h: v = l
                    else:
                        n = ren.get(v)
                        if n is None:
                            w = 8 * z; n = ren[v] = T.fresh(w, 'earlier value')
                            l = max(l, 0); h = min(h, T.mask(w))
                            if l > h: l, h = 0, T.mask(w)
                            if (l, h) != (0, T.mask(w)): s.F.rg[n] = (l, h)
                        v = n
                elif not isinstance(v, int) and v[0] == 'P' and not isinstance(v[2], int):
                    l, h = T.rng(v[2], st.F)
                    n = T.fresh(64, 'earlier offset'); s.F.rg[n] = (max(l, 0), h); v = ('P', v[1], n)
                elif not isinstance(v, int) and v[0] == 'P' and (v[1] not in keep): v = v
                nc[off] = (v, z)
            s.mem[o] = nc; 
        for v in s.mem.values():
            for off, (x, z) in v.items():
                if not isinstance(x, int) and x[0] == 'P' and x[1] not in s.st and x[1] in st.st: s.st[x[1]] = st.st[x[1]]
        return s
    def istext(self, o, c, proot, hv):
        """a byte buffer beside the private structure: its contents are forgotten between calls"""
        return o.kind == 'heap' and o is not proot and (hv or len(c) > 3) and all(z == 1 and (isinstance(v, int) or v[0] not in 'PF') for v, z in c.values())
    def over_caps(self, st):
        """too many distinct constants in one private cell, or too many units held: stop extending"""
        _, _, names = self.canon(st)
        n = 0
        for o, i in names.items():
            if o.kind == 'unit' or (o.kind == 'heap' and self.isnode(st, o)): n += 1
            for off, (v, z) in st.cells(o).items():
                x = v if isinstance(v, int) else v[2] if v[0] == 'P' and isinstance(v[2], int) else None
                if x is None: continue
                c = self.caps.setdefault((i, off), set())
                if x not in c and len(c) >= CAPC: return True
                c.add(x)
        return n > CAPU + 2
    def timeup(self):
        return self.total > self.budget

def m_and1(fl, st):
    """is F_FREE set in the flags value: True/False/None"""
    if isinstance(fl, int): return bool(fl & 1)
    if fl[0] == 'U': return None
    b = T.to_bits(fl, 8, st.F)[0]
    return bool(b) if b in (0, 1) else None

# ---- models of library and API calls -----------------------------------------------------------------------------------
H = {}
def h(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d
def site(st, I, what):
    """stable name of an allocation: function and ordinal of the call in it"""
    return what
def ordinal(m, I, kind):
    fn = I.get('fn', '?'); t = m.__dict__.setdefault('ords', {})
    if not t:
        for n, f in m.u.fns.items():
            cnt = {}
            for b in f['bbs']:
                for x in b['ins']:
                    if x['op'] == 'call':
                        k = (x.get('fn'), x.get('callee')); lst = cnt.setdefault(k, [])
                        pos = (x.get('line'),)
                        if pos not in lst: lst.append(pos)
                        t[id(x)] = (x.get('fn'), x.get('callee'), lst.index(pos) + 1)
    f, c, i = t.get(id(I), (fn, kind, 0)); return f'{kind} in {f}' + (f' #{i}' if i > 1 else '')

@h('malloc')
def _malloc(m, st, I, a):
    n = a[0]
    if not isinstance(n, int):
        l, hh = T.rng(n, st.F)
        if l == hh: n = l
        elif l < 0 or hh > 1 << 40: pass
    o = m.new(st, 'heap', n, ordinal(m, I, 'block')); return [(st, P(o))]
@h('calloc')
def _calloc(m, st, I, a):
    n = T.mul(a[0], a[1], 64, st.F); o = m.new(st, 'heap', n, ordinal(m, I, 'block')); st.cl[('zero', o)] = True; return [(st, P(o))]
@h('free')
def _free(m, st, I, a, who='free'):
    p = a[0]
    if p == 0: return [(st, None)]
    if isinstance(p, int): m.bad(st, 'bad-release', I, 'free of a constant', 'constant'); raise PathEnd()
    if p[0] == 'U': m.bad(st, 'bad-release', I, f'free of a pointer that was never set ({p[1]})', str(p[1])); raise PathEnd()
    if p[0] != 'P': return [(st, None)]
    o, off = p[1], p[2]; s = st.st.get(o)
    if st.maybe.get(o) == 'maybe':
        st.maybe[o] = 'no'
    if o.kind == 'data' or o.kind in ('glob', 'str', 'z', 'dz', 'table', 'ext', 'ins', 'phases', 'codecs', 'argnode', 'alloca') or o in m.life.fixed:
        m.bad(st, 'bad-release', I, f'free of {o.name}, which is not a heap block of the codec', o.name); raise PathEnd()
    if off != 0: m.bad(st, 'bad-release', I, f'free of a pointer into the middle of {o.name}', o.name + ' (inside)'); raise PathEnd()
    if s == 'freed': m.bad(st, 'double-release', I, f'{o.name} is freed twice', o.name); raise PathEnd()
    if s == 'pooled': m.bad(st, 'double-release', I, f'{o.name} is freed while it is in the unit pool', o.name); raise PathEnd()
    if s == 'given': m.bad(st, 'double-release', I, f'{o.name} is freed although the engine has it', o.name); raise PathEnd()
    if o in st.cl.get('lent', ()) and m.life.cb in CONV: m.bad(st, 'bad-release', I, f'{o.name} is freed while units already emitted still point at it', o.name + ' (lent)')
    st.st[o] = 'freed'; return [(st, None)]
@h('realloc')
def _realloc(m, st, I, a):
    n = a[1]
    o = m.new(st, 'heap', n, ordinal(m, I, 'block'))
    p = a[0]
    if p != 0 and not isinstance(p, int) and p[0] == 'P':
        q = p[1]
        if q in st.mem:
            c = st.wcells(o)
            for k, (v, s) in st.mem[q].items():
                if isinstance(n, int) and k + s > n: continue
                c[k] = (v, s)
        if q in st.cl.get('havoc', ()): st.cl['havoc'] = st.cl['havoc'] | {o}
    _free(m, st, I, [p])
    return [(st, P(o))]
# strings: at most 3 characters are distinguished; copying one into a fixed local buffer is judged as unbounded
def newstr(m, st, name):
    o = m.new(st, 'str', 4, name)
    for i in range(3): m.wr(st, o, i, 1, T.fresh(8, name))
    m.wr(st, o, 3, 1, 0); return o
def strlen_(m, st, p, I):
    """-> [(state, length)]"""
    o, off = m.ptr(st, p, I, 'string read')
    if m.on_load: m.on_load(st, o, off, 1, 0, I)
    if o.kind == 'glob':
        s = m.gstring(o)
        if s is not None and isinstance(off, int): return [(st, max(0, len(s) - off))]
    if not isinstance(off, int) or o.kind in ('ext', 'table', 'dz', 'z') : 
        n = T.fresh(64, 'strlen'); st.F.rg[n] = (0, 1 << 20); return [(st, n)]
    r = []; todo = [(st, 0)]
    while todo:
        s, i = todo.pop()
        if o.size is not None and isinstance(o.size, int) and off + i >= o.size:
            m.bad(s, 'out-of-bounds', I, f'{o.name} is read as a string without a terminator', 'string ' + o.name); continue
        if i > 400: continue
        v = m.rd(s, o, off + i, 1)
        if not isinstance(v, int) and v[0] == 'U':
            m.bad(s, 'uninit-use', I, f'{o.name} is read as a string before it was written', 'string ' + o.name); continue
        for s2, z in m.fork_cmp(s, 'eq', v, 0, 8, I):
            if z: r.append((s2, i))
            else: todo.append((s2, i + 1))
    return r
@h('strlen')
def _strlen(m, st, I, a): return strlen_(m, st, a[0], I)
@h('strdup')
def _strdup(m, st, I, a):
    r = []
    for s, n in strlen_(m, st, a[0], I):
        o = m.new(s, 'heap', T.add(n, 1, 64, s.F), ordinal(m, I, 'string'))
        if isinstance(n, int):
            so, off = a[0][1], a[0][2]
            for i in range(n): m.wr(s, o, i, 1, m.rd(s, so, off + i, 1))
            m.wr(s, o, n, 1, 0)
        else: s.cl['havoc'] = s.cl.get('havoc', frozenset()) | {o}
        r.append((s, P(o)))
    return r
def lit(m, p):
    if not isinstance(p, int) and p[0] == 'P' and p[1].kind == 'glob' and isinstance(p[2], int):
        s = m.gstring(p[1]); return s[p[2]:] if s is not None else None
@h('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp')
def _strcmp(m, st, I, a):
    for p in a[:2]: m.ptr(st, p, I, 'string comparison')
    x, y = lit(m, a[0]), lit(m, a[1])
    if x is not None and y is not None:
        return [(st, 0 if x.upper() == y.upper() else 1)]
    if y is None: x, y, a = y, x, [a[1], a[0]]
    if y is None: return [(st, T.fresh(32, 'strcmp'))]
    o = a[0][1]; k = ('key', o, a[0][2]); known = st.cl.get(k, ('not', frozenset()))
    Y = y.upper()
    if known[0] == 'is': return [(st, 0 if known[1] == Y else 1)]
    if Y in known[1]: return [(st, 1)]
    s2 = st.copy(); s2.cl[k] = ('is', Y); st.cl[k] = ('not', known[1] | {Y})
    return [(s2, 0), (st, 1)]
@h('strstr', 'strchr', 'strrchr', 'index')
def _strstr(m, st, I, a):
    for p in a[:1]: m.ptr(st, p, I, 'string search')
    if not isinstance(a[1], int): m.ptr(st, a[1], I, 'string search')
    o, off = a[0][1], a[0][2]
    r = [(st.copy(), 0)]
    v = m.rd(st, o, off, 1)
    for s, z in m.fork_cmp(st, 'ne', v, 0, 8, I):
        if z: r.append((s, a[0]))
    return r
@h('strcpy', 'strcat')
def _strcpy(m, st, I, a):
    so, _ = m.ptr(st, a[1], I, 'string copy'); do, off = m.ptr(st, a[0], I, 'string copy')
    if so.kind == 'str' and do.kind == 'alloca': m.bad(st, 'unbounded-copy', I, f'{so.name} of any length is copied into {do.name} ({do.size} bytes)', so.name)
    if m.on_store: m.on_store(st, do, off, 1, 0, I)
    st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {do}
    return [(st, a[0])]
def fmtlen(m, st, I, fmt, args):
    """-> (min,max) bytes written without the terminator"""
    lo = hi = 0; i = 0; k = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%': lo += 1; hi += 1; i += 1; continue
        j = i + 1; zero = width = 0; prec = None
        while fmt[j] in '0-+ #': j += 1
        w = ''
        while fmt[j].isdigit(): w += fmt[j]; j += 1
        width = int(w) if w else 0
        if fmt[j] == '.':
            j += 1; p = ''
            while fmt[j].isdigit(): p += fmt[j]; j += 1
            prec = int(p or 0)
        lng = 0
        while fmt[j] in 'lzhjt': lng += fmt[j] in 'lzj'; j += 1
        t = fmt[j]; i = j + 1
        if t == '%': lo += 1; hi += 1; continue
        a = args[k] if k < len(args) else None; k += 1
        if a is not None and not isinstance(a, int) and a[0] == 'U': m.bad(st, 'uninit-use', I, f'formats a value that was never set ({a[1]})', str(a[1]))
        if t in 'di':
            l, hh = T.srange(a, 64 if lng else 32, st.F); ns = [len(str(l)), len(str(hh))]; a1, b1 = (min(ns) if l > 0 or hh < 0 else 1), max(ns)
        elif t in 'uxXo':
            l, hh = T.urange(a, 64 if lng else 32, st.F); f = {'u': '%d', 'x': '%x', 'X': '%X', 'o': '%o'}[t]; a1, b1 = len(f % l), len(f % hh)
        elif t == 'c': a1 = b1 = 1
        elif t == 's':
            m.ptr(st, a, I, 'string format'); s = lit(m, a)
            if s is not None: a1 = b1 = len(s)
            else: a1, b1 = 0, 1 << 30
            if prec is not None: b1 = min(b1, prec)
        else: a1, b1 = 0, 64
        lo += max(a1, width); hi += max(b1, width)
    return lo, hi
def hexdigit(n, F, base=55):
    """the character of a digit 0..15 (base 55: capitals, 87: small letters)"""
    if isinstance(n, int): return n + 48 if n < 10 else n + base
    l, h = T.rng(n, F)
    if h < 10 or l > 9: return T.add(n, 48 if h < 10 else base, 8, F)
    t = T.op('hexdigit', 8, n, base); F.rg.setdefault(t, (48, base + 15)); return t
def digits(m, st, fmt, args, I):
    """what a format made of text, %u, %d, %X, %02X, %o, %c writes: [(state, [characters])], None when it has anything else"""
    todo = [(st, [], 0, 0)]; done = []
    while todo:
        s, cs, i, k = todo.pop()
        if i >= len(fmt): done.append((s, cs)); continue
        if fmt[i] != '%': todo.append((s, cs + [ord(fmt[i])], i + 1, k)); continue
        q = re.match(r'%(0?)(\d*)(hh|h|l|ll|z)?([uidXxoc%])', fmt[i:])
        if not q: return None
        i += q.end(); z, w, lng, t = q.groups()
        if t == '%': todo.append((s, cs + [37], i, k)); continue
        if k >= len(args): return None
        a = args[k]; k += 1; W = 64 if lng in ('l', 'll', 'z') else 32; w = int(w or 0)
        if t == 'c': todo.append((s, cs + [T.from_bits(T.to_bits(a, 8, s.F), s.F)], i, k)); continue
        if not isinstance(a, int) and a[0] in 'UPF': return None
        l, h = T.urange(a, W, s.F)
        if t in 'di' and h >> (W - 1):      # it may be negative: one path for either sign
            for s2, neg in m.fork_cmp(s, 'slt', a, 0, W, I):
                f2 = '%' + z + (str(w) if w else '') + {32: '', 64: 'l'}[W] + 'u'
                if w and neg: return None
                sub = digits(m, s2, f2, [m.arith1(s2, 'sub', 0, a, W) if neg else a], I)
                if sub is None: return None
                for s3, ds in sub: todo.append((s3, cs + [45] * neg + ds, i, k))
            continue
        if w and not z and l < 10 ** w: return None
        base = {'u': 10, 'd': 10, 'i': 10, 'X': 16, 'x': 16, 'o': 8}[t]; n0 = 1
        while base ** n0 <= l: n0 += 1
        n = n0
        while n == n0 or base ** (n - 1) <= h:
            s2 = s.copy(); lo, hi = (base ** (n - 1) if n > 1 else 0), base ** n - 1
            if isinstance(a, int): ok = lo <= a <= hi
            else: ok = T.assume('uge', a, lo, W, s2.F) and T.assume('ule', a, min(hi, T.mask(W)), W, s2.F)
            if ok:
                ds = []
                for j in reversed(range(n)):
                    if base == 10:
                        x = m.arith1(s2, 'urem', m.arith1(s2, 'udiv', a, 10 ** j, W), 10, W) if j else m.arith1(s2, 'urem', a, 10, W)
                        ds.append(x + 48 if isinstance(x, int) else T.add(x, 48, W, s2.F))
                    else:
                        b = 4 if base == 16 else 3; x = T.from_bits((T.to_bits(a, W, s2.F) + [0] * b)[j * b:j * b + b], s2.F)
                        ds.append(hexdigit(x, s2.F, 87 if t == 'x' else 55))
                todo.append((s2, cs + [48] * (w - n if z else 0) + ds, i, k))
            n += 1
    return done
@h('sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk')
def _sprintf(m, st, I, a):
    n = I['callee']
    if n == 'snprintf': dst, cap, fmt, args = a[0], a[1], a[2], a[3:]
    else: dst, cap, fmt, args = a[0], None, a[1], a[2:]
    f = lit(m, fmt)
    if f is None: raise AnalysisBroken(f'{m.u.src}: format string at line {I.get("line")} is not constant')
    lo, hi = fmtlen(m, st, I, f.decode('latin1'), args)
    if m.life.exact and cap is None:
        done = digits(m, st, f.decode('latin1'), args, I)
        if done is not None:
            r = []; o, off = m.ptr(st, dst, I, 'write')
            for s, cs in done:
                try: m.bounds(s, o, off, len(cs) + 1, I, 'formatted write')
                except PathEnd: continue
                if m.on_store and m.on_store(s, o, off, 1, 0, I): continue
                if not isinstance(off, int): s.cl['havoc'] = s.cl.get('havoc', frozenset()) | {o}
                else:
                    for i, c in enumerate(cs): m.wr(s, o, off + i, 1, c)
                    m.wr(s, o, off + len(cs), 1, 0)
                r.append((s, len(cs)))
            return r
    if cap is not None and isinstance(cap, int): hi = min(hi, max(cap - 1, 0)); lo = min(lo, hi)
    o, off = m.ptr(st, dst, I, 'write')
    r = []
    for k in sorted({lo, hi}):
        s = st.copy() if k != hi else st
        try: m.bounds(s, o, off, k + 1, I, 'formatted write')
        except PathEnd: continue
        if m.on_store and m.on_store(s, o, off, 1, 0, I): continue
        if isinstance(off, int):
            for i in range(min(k, 600)):
                v = T.fresh(8, 'digit'); s.F.rg[v] = (32, 126); m.wr(s, o, off + i, 1, v)
            m.wr(s, o, off + k, 1, 0)
        else: s.cl['havoc'] = s.cl.get('havoc', frozenset()) | {o}
        r.append((s, k))
    return r
@h('fprintf', 'printf', 'fputs', 'fputc', 'puts', 'putchar')
def _fprintf(m, st, I, a):
    if I['callee'] == 'fprintf':
        usefile(m, st, I, a[0])
        f = lit(m, a[1])
        if f: fmtlen(m, st, I, f.decode('latin1'), a[2:])
    return [(st, T.fresh(32, 'printed'))]
def usefile(m, st, I, p):
    if not isinstance(p, int) and p[0] == 'P' and p[1].kind == 'glob': return
    o, off = m.ptr(st, p, I, 'stream operation')
    if st.st.get(o) == 'closed': m.bad(st, 'use-after-free', I, f'{o.name} is used after fclose', o.name); raise PathEnd()
@h('fflush', 'fseek', 'ftell', 'rewind', 'feof', 'ferror')
def _fflush(m, st, I, a): usefile(m, st, I, a[0]); return [(st, T.fresh(32, 'io'))]
@h('fopen')
def _fopen(m, st, I, a):
    for p in a: m.ptr(st, p, I, 'string read')
    o = m.new(st, 'res', 8, 'the stream from ' + ordinal(m, I, 'fopen')); st.maybe[o] = 'maybe'; return [(st, P(o))]
@h('fclose')
def _fclose(m, st, I, a):
    p = a[0]
    o, off = m.ptr(st, p, I, 'fclose')
    if o.kind == 'glob': return [(st, 0)]
    if o.kind != 'res': m.bad(st, 'bad-release', I, f'fclose of {o.name}, which the codec did not open', o.name)
    if st.st.get(o) == 'closed': m.bad(st, 'double-release', I, f'{o.name} is closed twice', o.name); raise PathEnd()
    st.st[o] = 'closed'; return [(st, 0)]
@h('fread')
def _fread(m, st, I, a):
    usefile(m, st, I, a[3]); o, off = m.ptr(st, a[0], I, 'read into'); n = T.mul(a[1], a[2], 64, st.F)
    if isinstance(n, int) and isinstance(off, int):
        m.bounds(st, o, off, n, I, 'read into')
        if m.on_store: m.on_store(st, o, off, n, 0, I)
        none = st.copy()    # the end of the file: nothing is written
        for i in range(min(n, 64)): m.wr(st, o, off + i, 1, T.fresh(8, 'file byte'))
        if n: return [(st, a[2]), (none, 0)]
    else: st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {o}
    return [(st, T.fresh(64, 'count'))]
@h('fwrite', 'write')
def _fwrite(m, st, I, a):
    if I['callee'] == 'fwrite': usefile(m, st, I, a[3]); n = T.mul(a[1], a[2], 64, st.F); p = a[0]
    else: p, n = a[1], a[2]
    o, off = m.ptr(st, p, I, 'read')
    if isinstance(n, int) and isinstance(off, int): m.bounds(st, o, off, n, I, 'read')
    return [(st, T.fresh(64, 'count'))]
@h('getenv')
def _getenv(m, st, I, a):
    n = lit(m, a[0]); k = ('env', n); o = st.cl.get(k)
    if o is None:
        o = newstr(m, st, f'environment variable {n.decode() if n else "?"} (getenv)'); st.maybe[o] = 'maybe'; st.cl[k] = o
    return [(st, P(o))]
def known(m, st, p):
    t = lit(m, p)
    if t is None and p[2] == 0:
        t = st.cl.get(('key', p[1], 0)); t = t[1] if t and t[0] == 'is' else None
    return t
def number(t):
    x = re.match(rb'\s*([-+]?\d+)', t); return int(x.group(1)) if x else None
@h('__isoc99_sscanf', 'sscanf', '__isoc23_sscanf')
def _sscanf(m, st, I, a):
    m.ptr(st, a[0], I, 'string scan')
    if m.life.exact and lit(m, a[1]) in (b'%d', b'%i', b'%u') and (t := known(m, st, a[0])) is not None:
        v = number(t)
        if v is not None: m.store(st, a[2], v & T.mask(32), 4, I)
        return [(st, 0 if v is None else 1)] if t.strip() else [(st, T.mask(32))]
    r = [(st.copy(), 0)]
    for v in SCANNED:
        s = st.copy()
        for p in a[2:]: m.store(s, p, v & T.mask(32), 4, I)
        r.append((s, len(a) - 2))
    return r
@h('atoi', 'strtol', 'strtoul', 'atol')
def _atoi(m, st, I, a):
    m.ptr(st, a[0], I, 'string scan')
    if m.life.exact and (t := known(m, st, a[0])) is not None and (len(a) < 3 or a[1] == 0 and a[2] in (0, 10)): return [(st, (number(t) or 0) & T.mask(32 if I['callee'] == 'atoi' else 64))]
    return [(st, T.fresh(32, 'number'))]
@h('__errno_location')
def _errno(m, st, I, a):
    o = st.cl.get('errno')
    if o is None: o = st.cl['errno'] = m.new(st, 'ext', 4, 'errno')
    return [(st, P(o))]
@h('memcpy', 'memmove')
def _memcpy(m, st, I, a): m.copymem(st, a[0], a[1], a[2], I); return [(st, a[0])]
@h('memcmp', 'bcmp')
def _memcmp(m, st, I, a):
    for p in a[:2]:
        o, off = m.ptr(st, p, I, 'read')
        if isinstance(a[2], int) and isinstance(off, int) and a[2]:
            m.bounds(st, o, off, a[2], I, 'read')
            if o.kind == 'data' and m.on_load: 
                for i in range(a[2]): m.on_load(st, o, off + i, 1, 0, I)
    return [(st, T.fresh(32, 'memcmp'))]
# table accesses: the bytes of a loaded codec table are arbitrary but well-formed (C08)
def _llvmcopy(m, st, I, a):
    s = a[1]
    if not isinstance(s, int) and s[0] == 'P' and s[1].kind == 'z' and isinstance(a[2], int):
        do, off = m.ptr(st, a[0], I, 'copy to'); L = m.life
        if isinstance(off, int):
            m.bounds(st, do, off, a[2], I, 'copy to')
            if a[2] == 4: m.wr(st, do, off, 4, T.fresh(32, 'table offset'))
            else:
                b = T.fresh(8, 'table status'); st.F.vs[b] = frozenset({CONTINUE, DEADEND, MATCH}); st.F.rg[b] = (0, 2)
                u = m.u
                for f, z in (('data', 4), ('beg', 2), ('end', 2), ('base', 4)):
                    if u.structs.get('state_st'):
                        m.wr(st, do, off + u.off('state_st', f), z, T.fresh(z * 8, 'table ' + f))
                m.wr(st, do, off + (u.off('state_st', 'status') if u.structs.get('state_st') else 0), 1, b)
            return [(st, a[0])]
    if not isinstance(s, int) and s[0] == 'P' and s[1].kind == 'dz' and isinstance(a[2], int) and not isinstance(s[2], int) and a[2] == 12:
        do, off = m.ptr(st, a[0], I, 'copy to')
        if isinstance(off, int):
            m.bounds(st, do, off, 12, I, 'copy to')
            m.wr(st, do, off, 4, T.fresh(32, 'table data offset'))
            ln = T.fresh(32, 'table data length'); st.F.rg[ln] = (1, 64); m.wr(st, do, off + 4, 4, ln)
            d = st.cl.get('dzdepth', 0)
            s2 = st.copy(); m.wr(st, do, off + 8, 4, 0); st.cl['dzdepth'] = 0
            if d >= 2: return [(st, a[0])]
            n = T.fresh(32, 'table data next'); s2.F.rg[n] = (1, T.mask(32)); m.wr(s2, do, off + 8, 4, n); s2.cl['dzdepth'] = d + 1
            return [(st, a[0]), (s2, a[0])]
    return m.intrinsic(st, I['callee'], I, a)
for _n in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memcpy.p0.p0.i32'): H[_n] = _llvmcopy
H['llvm.experimental.noalias.scope.decl'] = lambda m, st, I, a: [(st, None)]
# filters, scorers, loaded codecs, inner conversions
@h('load_filter', 'load_scorer')
def _loadf(m, st, I, a):
    m.ptr(st, a[0], I, 'string read')
    o = m.new(st, 'res', 16, 'the ' + I['callee'][5:] + ' from ' + ordinal(m, I, I['callee'])); st.maybe[o] = 'maybe'
    m.wr(st, o, 0, 8, T.fresh(64, 'so')); m.wr(st, o, 8, 8, T.fresh(64, 'filter function'))
    return [(st, P(o))]
@h('unload_filter', 'unload_scorer')
def _unloadf(m, st, I, a):
    p = a[0]
    o, off = m.ptr(st, p, I, I['callee'])
    if st.st.get(o) == 'closed': m.bad(st, 'double-release', I, f'{o.name} is unloaded twice', o.name); raise PathEnd()
    if o.kind != 'res' or I['callee'][7:] not in o.name: m.bad(st, 'bad-release', I, f'{I["callee"]} of {o.name}', o.name)
    st.st[o] = 'closed'; return [(st, None)]
@h('*fp')
def _fp(m, st, I, a):
    # a filter or scorer: reads the unit, returns anything
    if m.life.verdict is not None: return m.life.verdict(st, a)
    for p in a[1:]:
        if not isinstance(p, int) and p[0] == 'P':
            o, off = m.ptr(st, p, I, 'filter call')
            if m.on_load: m.on_load(st, o, off, 1, 0, I)
    return [(st, T.fresh(32, 'verdict'))]
@h('loadcodec')
def _loadcodec(m, st, I, a):
    L = m.life; o, off = m.ptr(st, a[0], I, 'loadcodec')
    d = m.load(st, ('P', o, off + L.oc['desc']), 8, I, True)
    m.ptr(st, d, I, 'string read')
    s2 = st.copy()
    r = m.new(st, 'res', 8, 'the codec from ' + ordinal(m, I, 'loadcodec'))
    z, dz = L.tableof(st, lit(m, d)) if hasattr(L, 'tableof') else (L.z, L.dz)
    m.wr(st, o, off + L.oc['dl'], 8, P(r)); m.wr(st, o, off + L.oc['z'], 8, P(z)); m.wr(st, o, off + L.oc['data_z'], 8, P(dz))
    m.wr(st, o, off + L.oc['fd'], 4, T.fresh(32, 'fd')); m.wr(st, o, off + L.oc['maplen'], 8, T.fresh(64, 'maplen'))
    return [(st, 1), (s2, 0)]
@h('unloadcodec')
def _unloadcodec(m, st, I, a):
    L = m.life; o, off = m.ptr(st, a[0], I, 'unloadcodec')
    d = m.load(st, ('P', o, off + L.oc['dl']), 8, I, True)
    if isinstance(d, int) or d[0] != 'P': m.bad(st, 'bad-release', I, 'unloadcodec of a codec that was not loaded', 'unloadcodec'); return [(st, None)]
    if st.st.get(d[1]) == 'closed': m.bad(st, 'double-release', I, f'{d[1].name} is unloaded twice', d[1].name); raise PathEnd()
    st.st[d[1]] = 'closed'; return [(st, None)]
_CS = {}
def countspec(c):
    """"TABLE,COUNT#X": (units per entry, units it maps to) when every entry of TABLE agrees on them"""
    if c is None: return None
    c = c.decode('latin1') if isinstance(c, bytes) else c
    if c in _CS: return _CS[c]
    r = None; q = re.fullmatch(r'([\w-]+),COUNT#(\w+)', c)
    if q and os.path.exists(ir.REPO + '/modules/inter/' + q.group(1) + '.txt') and not os.path.exists(ir.REPO + '/modules/inter/' + q.group(1) + '.c'):
        sh = {(sum(x == 256 for x in e.key) + 1 if '*' not in e.key else 0, len(e.out)) for e in tables.parse_table(ir.REPO + '/modules/inter/' + q.group(1) + '.txt')[0] if not e.err}
        if len(sh) == 1 and 0 not in next(iter(sh)): r = next(iter(sh)) + (q.group(2),)
    _CS[c] = r; return r
@h('bsdconv_create')
def _create(m, st, I, a):
    m.ptr(st, a[0], I, 'string read'); L = m.life
    o = m.new(st, 'inst', L.SI, 'the inner conversion from ' + ordinal(m, I, 'bsdconv_create'))
    o2 = m.new(st, 'inst-phases', 2 * L.SP, 'the phases of the inner conversion'); nh = m.new(st, 'inst-head', L.SD, 'the output head of the inner conversion')
    st.maybe[o] = 'maybe'
    m.wr(st, o, L.oi['phase'], 8, P(o2)); m.wr(st, o, L.oi['phasen'], 4, 1)
    m.wr(st, o2, L.SP + L.op['data_head'], 8, P(nh)); m.wr(st, o2, L.SP + L.op['data_tail'], 8, P(nh)); m.wr(st, nh, L.od['next'], 8, 0)
    m.wr(st, o, L.oi['input'] + L.od['data'], 8, 0); m.wr(st, o, L.oi['output_mode'], 4, 0)
    st.cl[('nh', o)] = nh; st.cl[('np', o)] = o2; st.cl[('ntok', o)] = True; st.cl[('cs', o)] = countspec(lit(m, a[0]))
    return [(st, P(o))]
def inst(m, st, p, I, what):
    o, off = m.ptr(st, p, I, what)
    if o.kind != 'inst': return None
    if st.st.get(o) == 'closed': m.bad(st, 'use-after-free', I, f'{o.name} is used after bsdconv_destroy', o.name); raise PathEnd()
    return o
def dropinner(m, st, o, I):
    """the inner conversion releases whatever is in its output list"""
    L = m.life; nh = st.cl[('nh', o)]
    us, bad = L.units(st, m.rd(st, nh, L.od['next'], 8))
    if bad: m.bad(st, 'double-release', I, f'the inner conversion releases units that are not its own any more ({bad})', 'inner list')
    for x in us:
        d = st.cells(x).get(L.od['data'])
        if m_and1(m.rd(st, x, L.od['flags'], 1), st) and d and not isinstance(d[0], int) and d[0][0] == 'P': st.st[d[0][1]] = 'freed'
        st.st[x] = 'freed'
    m.wr(st, nh, L.od['next'], 8, 0); m.wr(st, st.cl[('np', o)], L.SP + L.op['data_tail'], 8, P(nh)); st.cl[('ntok', o)] = True
@h('bsdconv_init')
def _init(m, st, I, a):
    o = inst(m, st, a[0], I, 'bsdconv_init')
    if o is None: return [(st, None)]
    dropinner(m, st, o, I); m.wr(st, o, m.life.oi['flush'], 1, 0); return [(st, None)]
@h('bsdconv_destroy')
def _destroy(m, st, I, a):
    o = inst(m, st, a[0], I, 'bsdconv_destroy')
    if o is None: return [(st, None)]
    dropinner(m, st, o, I); st.st[o] = 'closed'; st.st[st.cl[('nh', o)]] = 'closed'; st.st[st.cl[('np', o)]] = 'closed'; return [(st, None)]
@h('bsdconv')
def _bsdconv(m, st, I, a):
    L = m.life; o = inst(m, st, a[0], I, 'bsdconv')
    if o is None: return [(st, None)]
    b = L.oi['input']
    d = m.load(st, ('P', o, b + L.od['data']), 8, I, True)
    if d != 0:
        vals = {f: m.load(st, ('P', o, b + L.od[f]), 8 if f != 'flags' else 1, I) for f in ('len', 'next', 'flags')}
        for f, v in vals.items():
            if not isinstance(v, int) and v[0] == 'U': m.bad(st, 'uninit-use', I, f'the inner conversion is run with input.{f} not set', 'input.' + f); raise PathEnd()
        def take(dv, fl):
            if not isinstance(dv, int) and dv[0] == 'P':
                if st.st.get(dv[1]) in ('freed', 'given'): m.bad(st, 'use-after-free', I, f'the inner conversion is given {dv[1].name}, which is not the codec\'s any more', dv[1].name); raise PathEnd()
                if m_and1(fl, st):
                    st.st[dv[1]] = 'given'
        take(d, vals['flags'])
        nx = vals['next']; k = 0; given = [L.content(st, d, vals['len'])] if L.inner else []
        while nx != 0 and not isinstance(nx, int) and nx[0] == 'P' and k < 6:
            x = nx[1]
            if st.st.get(x) != 'live': m.bad(st, 'use-after-free', I, f'the inner conversion is given {x.name}, which is not the codec\'s any more', x.name); raise PathEnd()
            if L.inner: given.append(L.content(st, m.rd(st, x, L.od['data'], 8), m.rd(st, x, L.od['len'], 8)))
            take(m.rd(st, x, L.od['data'], 8), m.rd(st, x, L.od['flags'], 1))
            n2 = m.nrm(st, m.rd(st, x, L.od['next'], 8)); st.st[x] = 'given'; nx = n2; k += 1
            if not isinstance(nx, int) and nx[0] == 'U': m.bad(st, 'uninit-use', I, 'the list given to the inner conversion is not terminated', 'input list'); raise PathEnd()
        m.wr(st, o, b + L.od['data'], 8, 0)
        nin = 1 + k if nx == 0 else None
    else: nin = 0; given = []
    nh = st.cl[('nh', o)]; np_ = st.cl[('np', o)]
    tail = m.rd(st, np_, L.SP + L.op['data_tail'], 8)
    cur, bad = L.units(st, m.rd(st, nh, L.od['next'], 8))
    if bad or tail != P(cur[-1] if cur else nh):
        m.bad(st, 'use-after-free', I, 'the inner conversion appends to a tail that is no longer in its list', 'inner tail'); raise PathEnd()
    r = []
    fl = m.rd(st, o, L.oi['flush'], 1)
    cs = st.cl.get(('cs', o)); opts = [(k, None) for k in (0, 1, 2)]
    if cs and nin is not None and fl == 1: opts = [(nin - cs[0] * q + cs[1] * q, nin - cs[0] * q) for q in range(nin // cs[0] + 1)]
    alts = [(k, counted, own, None, None) for k, counted in opts for own in ((True, False) if k else (True,))]
    if L.inner and nin is not None and fl == 1:     # the caller of the analysis says what the inner conversion makes of these units
        alts = [(len(out), counted, True, out, note) for out, counted, note in L.inner(st, given)]
    for k, counted, own, out, note in alts:
            s = st.copy(); prev = cur[-1] if cur else nh
            for j in range(k):
                x = m.new(s, 'unit', L.SD, 'a unit from the inner conversion')
                if own: y = m.new(s, 'heap', 8, 'bytes from the inner conversion'); 
                else: y = m.new(s, 'dz', None, 'table data of the inner conversion')
                s.cl['havoc'] = s.cl.get('havoc', frozenset()) | {y}
                if out is not None:
                    ln = len(out[j])
                    for q, c in enumerate(out[j]): m.wr(s, y, q, 1, c)
                else: ln = T.fresh(64, 'inner length'); s.F.rg[ln] = (1, 8)
                for f, z, v in (('data', 8, P(y)), ('len', 8, ln), ('next', 8, 0), ('flags', 1, 1 if own else 0)): m.wr(s, x, L.od[f], z, v)
                m.wr(s, prev, L.od['next'], 8, P(x)); m.wr(s, np_, L.SP + L.op['data_tail'], 8, P(x)); prev = x
            if counted is not None:
                cnt = counted if isinstance(counted, dict) else {cs[2]: counted}
                for key, x in list(s.cl.items()):
                    if isinstance(key, tuple) and key[0] == 'ctr' and key[1] is o:
                        w = lit(m, ('P', key[2], 0)); w = w.decode('latin-1') if isinstance(w, bytes) else w
                        if isinstance(counted, dict): m.wr(s, x, 0, 8, T.add(m.rd(s, x, 0, 8), cnt.get(w, 0), 64, s.F))
                        elif w in cnt: m.wr(s, x, 0, 8, cnt[w])
            if note: s.cl[note[0]] = note[1]
            r.append((s, None))
    return r
@h('bsdconv_counter')
def _counter(m, st, I, a):
    inst(m, st, a[0], I, 'bsdconv_counter'); m.ptr(st, a[1], I, 'string read')
    t = lit(m, a[1]); t = t.upper().decode('latin-1') if isinstance(t, bytes) else None
    if t in ('IERR', 'OERR') and a[0][1] is m.life.ins and ('ctr', m.life.ins, t.lower()) in st.cl: return [(st, P(st.cl[('ctr', m.life.ins, t.lower())]))]
    k = ('ctr', a[0][1], a[1][1]); o = st.cl.get(k)
    if o is None:
        o = m.new(st, 'ctr', 8, 'a counter'); st.cl[k] = o
        if m.life.exact:
            st.cl[('ctrname', o)] = t or st.cl.get(('key', a[1][1], 0), ('', b'?'))[1].decode('latin-1'); m.wr(st, o, 0, 8, T.fresh(64, 'count so far'))
    return [(st, P(o))]
@h('bsdconv_counter_reset')
def _creset(m, st, I, a):
    inst(m, st, a[0], I, 'bsdconv_counter_reset')
    if a[1] != 0: m.ptr(st, a[1], I, 'string read')
    for o in list(st.mem):
        if o.kind != 'ctr': continue
        if m.life.exact:
            if any(isinstance(k, tuple) and k[0] == 'ctr' and k[1] is a[0][1] and v is o for k, v in st.cl.items()) and (a[1] == 0 or st.cl.get(('ctrname', o), '').encode() == known(m, st, a[1])): m.wr(st, o, 0, 8, 0)
        else: st.wcells(o).clear()
    return [(st, None)]
@h('bsdconv_module_check', 'bsdconv_codec_check', 'bsdconv_module_vital')
def _mcheck(m, st, I, a):
    m.ptr(st, a[1], I, 'string read'); return [(st.copy(), 1), (st, 0)]
@h('bsdconv_hash_has')
def _hhas(m, st, I, a): return [(st, 1 if any(k == lit(m, a[1]) for k, v in st.cl.get('hash', ())) else 0)]
@h('bsdconv_hash_get')
def _hget(m, st, I, a):
    for k, v in st.cl.get('hash', ()):
        if k == lit(m, a[1]): return [(st, v)]
    return [(st, 0)]
@h('bsdconv_hash_set')
def _hset(m, st, I, a):
    k = lit(m, a[1]); st.cl['hash'] = tuple((x, v) for x, v in st.cl.get('hash', ()) if x != k) + ((k, a[2]),); return [(st, None)]
@h('bsdconv_hash_del')
def _hdel(m, st, I, a):
    k = lit(m, a[1]); st.cl['hash'] = tuple((x, v) for x, v in st.cl.get('hash', ()) if x != k); return [(st, None)]
def newunits(m, st, n, name, known=None):
    L = m.life; head = 0
    for j in reversed(range(n)):
        x = m.new(st, 'unit', L.SD, 'a unit of ' + name)
        if known is not None:
            y = m.new(st, 'heap', len(known[j]), 'bytes of ' + name); ln = len(known[j])
            for q, c in enumerate(known[j]): m.wr(st, y, q, 1, c)
        else:
            y = m.new(st, 'heap', 8, 'bytes of ' + name); st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {y}
            ln = T.fresh(64, 'argument length'); st.F.rg[ln] = (1, 8)
        for f, z, v in (('data', 8, P(y)), ('len', 8, ln), ('next', 8, head), ('flags', 1, 1)): m.wr(st, x, L.od[f], z, v)
        head = P(x)
    return head
@h('str2data')
def _str2data(m, st, I, a):
    m.ptr(st, a[0], I, 'string read'); nm = ordinal(m, I, 'str2data'); r = []
    if m.life.datum is not None:
        us = m.life.datum(st, a[0]); m.store(st, a[1], 0, 4, I); return [(st, newunits(m, st, len(us), nm, us))]
    for n, e in ((1, 0), (2, 0), (0, 0), (0, 22), (1, 22)):
        if lit(m, a[0]) is not None and (e or not n): continue
        s = st.copy(); v = newunits(m, s, n, nm)
        m.store(s, a[1], e, 4, I); r.append((s, v))
    return r
@h('str2datum')
def _str2datum(m, st, I, a):
    m.ptr(st, a[0], I, 'string read'); L = m.life
    o, off = m.ptr(st, a[1], I, 'write'); s2 = st.copy()
    if m.life.datum is not None:
        u = m.life.datum(st, a[0])[0]; y = m.new(st, 'heap', len(u), ordinal(m, I, 'str2datum'))
        for q, c in enumerate(u): m.wr(st, y, q, 1, c)
        for f, z, v in (('data', 8, P(y)), ('len', 8, len(u)), ('next', 8, 0), ('flags', 1, 1)): m.wr(st, o, off + L.od[f], z, v)
        return [(st, 0)]
    y = m.new(st, 'heap', 8, ordinal(m, I, 'str2datum')); st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {y}
    ln = T.fresh(64, 'argument length'); st.F.rg[ln] = (0, 8)
    for f, z, v in (('data', 8, P(y)), ('len', 8, ln), ('next', 8, 0), ('flags', 1, 1)): m.wr(st, o, off + L.od[f], z, v)
    return [(st, 0), (s2, 22)]
