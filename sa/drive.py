"""The client of a codec: explores the reachable private states of one module and checks every outcome (see sa/life.py)."""
import time, re
import hashlib
from . import terms as T, ir
from .absint import State, PathEnd, P
from .ir import AnalysisBroken
from .life import *
from . import lib
from .life import m_and1, newstr
MAXCFG = 48; MAXSTATES = 150
ALLST = {'from': {0, 1, 2, 3, 6, 8}, 'inter': {0, 1, 2, 3, 6, 7, 8}, 'to': {0, 1, 2, 3, 6, 7, 8}}

def narrow(xs):
    """three of the narrowest input boxes, spread over their range"""
    vol = lambda x: sum((h - l + 1).bit_length() - 1 for l, h in x)
    m = min(map(vol, xs)); ys = sorted({x for x in xs if vol(x) <= m + 3})
    return [ys[j] for j in sorted({0, len(ys) // 2, len(ys) - 1})]
def meets(a, b):
    """do two input boxes share an input?"""
    return all(l1 <= h2 and l2 <= h1 for (l1, h1), (l2, h2) in zip(a, b))
def alike(a, b):
    """the same label up to bytes whose value the analysis has forgotten"""
    a, b = a[0], b[0]
    if '*' not in a and '*' not in b: return False
    x = re.findall(r"'[^']*'|[^']+", a); y = re.findall(r"'[^']*'|[^']+", b)
    return len(x) == len(y) and all(p == q or ('*' in p or '*' in q) and p.split(':')[0] == q.split(':')[0] for p, q in zip(x, y))
class Node:
    """one reachable private state"""
    __slots__ = ('id', 'st', 'key', 'cfg', 'depth', 'trace', 'steps', 'pend', 'dead', 'rest', 'init', 'sub', 'done', 'ctl', 'longs')
    def __init__(self, id, st, key, cfg, depth, trace):
        self.id = id; self.st = st; self.key = key; self.cfg = cfg; self.depth = depth; self.trace = trace
        self.ctl = False; self.longs = {}; self.steps = {}; self.dead = False; self.rest = False; self.init = None; self.sub = False; self.done = False

class Drive(Life):
    # ---- creation -------------------------------------------------------------------------------------------
    def args(self, st, n):
        """argument list of n entries -> pointer"""
        m = self.m; u = self.u; nx = 0
        if not u.structs.get('bsdconv_hash_entry'): return 0
        f = {x: u.off('bsdconv_hash_entry', x) for x in ('key', 'ptr', 'next')}
        for i in range(n, 0, -1):
            o = m.new(st, 'argnode', u.size('bsdconv_hash_entry'), f'argument {i}')
            k = newstr(m, st, f'the name of argument {i}'); st.cl['args'] = st.cl.get('args', ()) + (o, k); v = newstr(m, st, f'the value of argument {i} (argument without "=")'); st.maybe[v] = 'maybe'; st.cl['args'] += (v,)
            m.wr(st, o, f['key'], 8, P(k)); m.wr(st, o, f['ptr'], 8, P(v)); m.wr(st, o, f['next'], 8, nx); nx = P(o)
        return nx
    def create(self):
        """-> list of (state, label)"""
        base = self.world(); good = []
        if 'cbcreate' not in self.u.fns:
            st = base; self.m.wr(st, self.cd, self.SC + self.oc['priv'], 8, ('U', 'the private pointer of the codec')); return [(st, 'no cbcreate')]
        for n in (0, 1, 2):
            if n and not self.u.structs.get('bsdconv_hash_entry'): break
            for pool in ((True, False) if n == 0 else (True,)):
                st = base.copy(); st.cl['nopool'] = not pool
                a = self.args(st, n); self.begin(st)
                self.m.maxfork = 12
                r = self.run(st, 'cbcreate', [P(self.ins), a], f'{n} arguments')
                self.m.maxfork = 9
                for s, ret in r:
                    s.cl['nopool'] = False
                    for o in s.cl.get('args', ()): s.st[o] = 'freed'        # the caller releases the argument list
                    l, h = T.rng(ret, s.F) if not (not isinstance(ret, int) and ret[0] == 'U') else (0, 1)
                    if not isinstance(ret, int) and ret[0] == 'U': self.add('C17', 'cbcreate:ret', f'modules/{self.codec}.c cbcreate ({n} arguments): returns a value that was never set'); continue
                    ok = l <= 0 <= h; bad = not (l == h == 0)
                    reached = self.reach(s, self.roots(s))
                    if bad and not ok:
                        for o in list(s.st):
                            if s.st[o] == 'live' and o.kind in ('heap', 'unit', 'res', 'inst') and o not in self.fixed and s.maybe.get(o) != 'null':
                                self.add('C02', 'cbcreate:leak-on-failure:' + o.name, f'modules/{self.codec}.c cbcreate ({n} arguments) fails but keeps {o.name} (cbdestroy is not called after a failed cbcreate)')
                    else:
                        for o in self.leaks(s, reached): self.add('C02', 'cbcreate:leak:' + o.name, f'modules/{self.codec}.c cbcreate ({n} arguments): {o.name} is lost')
                        s.trail = (); good.append((s, f'cbcreate with {n} arguments'))
        return good
    # ---- engine side ----------------------------------------------------------------------------------------
    def flagsof(self, st):
        v = self.m.rd(st, self.ph, self.pf('flags'), 1); return v if isinstance(v, int) else 0
    def setflags(self, st, v): self.m.wr(st, self.ph, self.pf('flags'), 1, v)
    def dropqueue(self, st):
        """the engine releases every queued input unit"""
        us, bad = self.units(st, self.m.rd(st, self.PH, self.od['next'], 8))
        for o in us:
            d = st.cells(o).get(self.od['data']); fl = m_and1(self.m.rd(st, o, self.od['flags'], 1), st)
            if d and not isinstance(d[0], int) and d[0][0] == 'P' and fl: st.st[d[0][1]] = 'given'
            st.st[o] = 'given'
        self.m.wr(st, self.PH, self.od['next'], 8, 0)
        self.m.wr(st, self.ph, (self.idx - 1) * self.SP + self.op['data_tail'], 8, P(self.PH))
        self.m.wr(st, self.ph, self.pf('curr'), 8, P(self.PH))
    def give(self, st, a):
        self.handover(st, a, False); t = st.cl.get('tail0')
        if t is not None and t is not self.H: st.st[t] = 'given'
        self.m.wr(st, self.H, self.od['next'], 8, 0); self.m.wr(st, self.ph, self.pf('data_tail'), 8, P(self.H))
    def shape(self):
        """constraints on the unit a callback sees first: (prefix bytes, lengths)"""
        if hasattr(self, '_shape'): return self._shape
        pre = None; ls = set(); exact = True; full = len(self.prefixes)
        for k in self.prefixes:
            k = list(k)
            while 256 in k: k = k[k.index(256) + 1:]
            if '*' in k: exact = False
            ls.add(len(k))
            c = [x for x in k]
            if pre is None: pre = c
            else:
                i = 0
                while i < min(len(pre), len(c)) and pre[i] == c[i]: i += 1
                pre = pre[:i]
        pre = [x for x in (pre or [])]
        while pre and pre[-1] == '*': pre.pop()
        if '*' in pre: pre = pre[:pre.index('*')]
        mn = min(ls) if ls else 1
        self._shape = (pre, mn, sorted(ls) if exact else None); return self._shape
    def variants(self, st, depth=0):
        """the situations in which the engine may call cbconv"""
        fl = self.flagsof(st); r = []
        dzs = sorted({0 if k == 0 else 1 if k == 1 else 2 for k in (len(x) for x in self.cbdata)}) or [0]
        if self.kind == 'from':
            for n, i in ((1, 0), (2, 0), (2, 1)):
                for dz in dzs: r.append(dict(n=n, i=i, dz=dz))
            r.append(dict(n=1, i=0, dz=dzs[0], uf=1)); r.append(dict(n=1, i=0, dz=dzs[-1], nopool=True)); r.append(dict(n=1, i=0, dz=dzs[0], usetail=True, nopool=True)); r.append(dict(n=1, i=0, dz=dzs[-1], uf=2))
            if depth < 8: r.append(dict(n=8, i=0, dz=dzs[0], long=True))
            return r
        pre, mn, exact = self.shape()
        if fl & F_PENDING and fl & F_LOOPBACK: pre, mn, exact = [], 1, None
        lens = self.lens or [1, 2, 3, 4, 5, 6, 9, 300]
        if exact: lens = exact
        lens = [x for x in lens if x >= mn] or [mn]
        std = 3 if 3 in lens else lens[0]
        if depth > 1 or depth and self.classes:
            for n in sorted({lens[0], std}):
              for c in self.classes.get(n, [None]): r.append(dict(n=n, i=n, dz=dzs[0], pre=pre, **({'cls': c} if c else {})))
            r.append(dict(n=std, i=std, dz=dzs[-1], pre=pre, uf=1, nopool=True)); r.append(dict(n=std, i=std, dz=dzs[-1], pre=pre, usetail=True))
            if std in self.classes:
                for v in r[-2:]: v['cls'] = self.classes[std][len(self.classes[std]) // 2]
            return r
        for n in lens:
            for dz in dzs: r.append(dict(n=n, i=n, dz=dz, pre=pre))
        r.append(dict(n=std, i=std, dz=dzs[-1], pre=pre, uf=1)); r.append(dict(n=std, i=std, dz=dzs[-1], pre=pre, uf=1, nopool=True))
        r.append(dict(n=std, i=std, dz=dzs[-1], pre=pre, usetail=True)); r.append(dict(n=std, i=std, dz=dzs[0], pre=pre, uf=2))
        return r
    def ctxname(self, v):
        s = f'unit of {v["n"]} bytes'
        if self.kind == 'from': s = f'chunk of {v["n"]} bytes, at byte {v["i"]}'
        if v.get('uf', 0) & 1: s += ', owned by the unit'
        if v.get('uf', 0) & 2: s += ', marked'
        if v.get('dz'): s += f', {v["dz"]} table data'
        if v.get('nopool'): s += ', empty pool'
        if v.get('usetail'): s += ', after an emitted unit'
        return s
    # ---- labels ---------------------------------------------------------------------------------------------
    def label(self, st, a, D, n):
        """what can be observed of an outcome, with symbols renamed"""
        names = {}; memo = {}
        def sv(x, d=0):
            """terms share their parts, so every part is written once; a long description is shortened to its digest"""
            if isinstance(x, int): return str(x)
            if x[0] in 'BOL':
                r = memo.get((id(x), d))
                if r is None:
                    r = sv1(x, d)
                    if len(r) > 400:      # the digest leaves out which byte is meant: the order of the bytes follows it
                        bs = ' '.join(dict.fromkeys(re.findall(r'\bb[0-9]+\b', r)))
                        r = f"#{hashlib.sha256(re.sub(r'\bb[0-9]+\b', 'b', r).encode()).hexdigest()[:20]}<{bs}>{'*' * ('*' in r)}"
                    memo[id(x), d] = r
                return r
            return sv1(x, d)
        def sv1(x, d):
            if x[0] == 'U': return 'U'
            if x[0] == 'P':
                if x[1] is D: return f'D+{sv(x[2])}'
                if x[1].kind in ('glob',): return x[1].name
                return x[1].kind
            if x[0] == 'F': return x[1]
            if x[0] == 's': 
                t = T.symtag(x)
                if t: return f'b{t[1]}'
                if T.symname(x) == 'earlier byte': return '*'
                if x not in names: names[x] = len(names)
                return f's{names[x]}'
            if d > 12: return '..'
            if x[0] == 'L':      # a sum: in an order that does not depend on when its symbols were made
                ts = sorted(x[2], key=lambda q: (not T.symtag(q[0]), str(T.symtag(q[0])), -q[1])) if isinstance(x[2], tuple) else x[2]
                return f'L({x[1]},' + ','.join(f'{sv(q, d + 1)}*{c}' for q, c in ts) + ')'
            if x[0] in 'BOL':
                return x[0] + '(' + ','.join(sv(y, d + 1) if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in 'sBOLPU' else str(y) if not isinstance(y, tuple) else '(' + ','.join(sv(z, d + 1) if isinstance(z, tuple) and z and isinstance(z[0], str) else str(z) if not isinstance(z, tuple) else '/'.join(map(lambda q: sv(q, d+1) if isinstance(q, tuple) and q and isinstance(q[0], str) else str(q), z)) for z in y) + ')' for y in x[1:]) + ')'
            return str(x[0])
        out = []
        for d, ln, fl in a['emitted']:
            e = []
            if d is not None and not isinstance(d, int) and d[0] == 'P' and d[1].kind == 'heap' and isinstance(d[2], int) and d[1] is not D:
                c = st.cells(d[1])
                lim = T.rng(ln, st.F)[1] if ln is not None else 0
                offs = [x for x in sorted(c) if d[2] <= x < d[2] + lim][:12]
                if d[1] in st.cl.get('havoc', ()): offs = range(d[2], d[2] + min(lim, 12))
                for off in offs: e.append(f'{off}:{sv(c[off][0])}' if off in c else f'{off}:*')
            out.append((sv(ln) if ln is not None else '?', sv(fl) if fl is not None else '?', sv(d) if d is not None else '?', tuple(e)))
        byt = []
        for i in range(min(n, 8)):
            b = st.cl.get('B', ())
            if i < len(b):
                v = b[i]
                byt.append(T.rng(v, st.F) if not isinstance(v, int) else (v, v))
        s = a['status']
        return (s if isinstance(s, int) else 'sym', tuple(out), tuple(byt))
    # ---- exploration ----------------------------------------------------------------------------------------
    def node(self, st, cfg, depth, trace):
        """intern the state -> Node or None when bounded"""
        key = self.ckey(st, cfg)
        n = self.nodes.get(key)
        if n is not None: return n
        k = self.percfg.get(cfg, 0)
        if depth > 0 and k >= (self.maxstates if self.cov['configs'] <= 1 else self.maxstates // 3) or self.over_caps(st): self.cov['bounded'] += 1; return None
        n = Node(len(self.nodes), st, key, cfg, depth, trace); self.nodes[key] = n; self.percfg[cfg] = k + 1; self.todo.append(n); return n
    def ckey(self, st, cfg):
        k, fl, names = self.canon(st)
        return (cfg, fl if isinstance(fl, int) else '?', k)
    def explore(self):
        self.maxstates = MAXSTATES if self.budget < 10000000 else 4 * MAXSTATES
        self.percfg = {}; self.classes = {}; self.nodes = {}; self.todo = []; self.fresh = {}; cfgs = {}; self.cov['configs'] = 0
        self.pairs = []
        for st, lab in self.create():
            s0 = self.clean(st)
            self.destroy(s0, lab + ', never initialised')
            for s1 in self.settle(s0):
              fl = self.afterinit(s1, None, lab)
              for f in fl:
                  k, _, _ = self.canon(f)
                  if k in cfgs: continue
                  if len(cfgs) >= MAXCFG: self.cov['bounded'] += 1; continue
                  cfgs[k] = len(cfgs)
                  n = self.node(f, len(cfgs) - 1, 0, lab)
                  if n: self.fresh[n.cfg] = n
        self.cov['configs'] = len(cfgs)
        while self.todo:
            if self.timeup(): self.cov['timeouts'] += 1; self.cov['bounded'] += len(self.todo); break
            n = self.todo.pop(0); self.step(n); n.done = not self.timeup()
        self.cov['states'] = len(self.nodes)
        return self
    def settle(self, st):
        """decide every "may have failed" of the configuration"""
        todo = [st]; r = []
        while todo:
            s = todo.pop(); mb = [o for o in self.reach(s, self.roots(s)) if s.maybe.get(o) == 'maybe']
            if not mb or len(r) + len(todo) > 8: r.append(s); continue
            for v in ('no', 'null'):
                x = s.copy(); x.maybe[mb[0]] = v
                if v == 'null':
                    for o in list(x.mem):
                        for off, (c, z) in list(x.cells(o).items()):
                            if not isinstance(c, int) and c[0] == 'P' and c[1] is mb[0]: self.m.wr(x, o, off, z, 0)
                todo.append(x)
        return r
    def afterinit(self, st, node, trace):
        """run cbinit from st -> cleaned states"""
        s = st.copy(); self.begin(s); self.dropqueue(s); self.setflags(s, 0); s.cl['usetail'] = False
        if 'cbinit' not in self.u.fns: return [self.clean(s)]
        r = []
        for s2, _ in self.run(s, 'cbinit', [P(self.ins)], trace):
            a = self.after(s2, 'cbinit', trace)
            if a['us']: self.add('C05', 'cbinit:emits', f'modules/{self.codec}.c cbinit emits units')
            self.setflags(s2, 0); r.append(self.clean(s2))
        return r
    def destroy(self, st, trace):
        s = st.copy(); self.begin(s); self.dropqueue(s)
        if 'cbdestroy' not in self.u.fns:
            outs = [(s, None)]
        else: outs = self.run(s, 'cbdestroy', [P(self.ins)], trace)
        for s2, _ in outs:
            for o in list(s2.st):
                if s2.st[o] == 'live' and o.kind in ('heap', 'unit', 'res', 'inst') and o not in self.fixed and s2.maybe.get(o) != 'null':
                    self.add('C02', 'cbdestroy:leak:' + o.name, f'modules/{self.codec}.c cbdestroy ({trace}): {o.name} is not released')
            for k, v in s2.cl.get('hash', ()):
                pass
    def prep(self, st, v):
        s = st.copy(); m = self.m
        s.cl['nopool'] = bool(v.get('nopool')); s.cl['usetail'] = bool(v.get('usetail')); s.cl['pool'] = ()
        if 'nopool' not in v: s.cl['pool'] = ()
        self.begin(s)
        C, D = self.curr_unit(s, v['n'], v.get('uf', 0), v.get('pre', []))
        for i, (l, h) in enumerate(v.get('cls', ())):
            x = m.rd(s, D, i, 1)
            if not isinstance(x, int) and x[0] == 's': s.F.rg[x] = (l, h)
        s.cl['B'] = tuple(m.rd(s, D, i, 1) for i in range(min(v['n'], 8)))
        m.wr(s, self.ph, self.pf('i'), 4, v['i'])
        self.dzlist(s, v['dz'])
        fl = self.flagsof(s) | F_LOOPBACK
        if self.kind != 'from' or True: self.setflags(s, self.flagsof(s) | (F_LOOPBACK if self.kind != 'from' else 0))
        return s, C, D
    def step(self, n):
        """every call the engine may make from this state"""
        m = self.m; st = n.st; tr = n.trace
        fl = self.flagsof(st)
        # release and re-initialisation
        self.destroy(st, f'after {tr}')
        ii = self.afterinit(st, n, f'after {tr}')
        n.init = [(self.node(x, n.cfg, n.depth + 1, 'cbinit') if x is not None else None) for x in ii]
        for v in self.variants(st, n.depth):
            if self.timeup(): break
            if n.depth == 0 and ('uf' in v or 'nopool' in v or 'usetail' in v) and v['n'] in self.classes:
                for c in self.classes[v['n']]: self.callconv(n, dict(v, cls=c), tr)
            else: self.callconv(n, v, tr)
        if fl & F_MATCH and m.rd(st, self.ph, self.pf('match_data'), 8) == 0:
            n.steps['flush'] = self.flush(n, st, f'after {tr}', 'end')
        if 'cbctl' in self.u.fns:
            for c in (0, 3, 4, 7):
                s = st.copy(); self.begin(s); f = m.new(s, 'ext', None, 'the pointer given to bsdconv_ctl'); arg = T.fresh(64, 'ctl value')
                for s2, _ in self.run(s, 'cbctl', [P(self.ins), c, P(f), arg], f'ctl {c}; after {tr}'):
                    a = self.after(s2, 'cbctl', f'ctl {c}'); s3 = self.clean(s2)
                    # values handed in by the caller stay what they are
                    if n.depth < 2:
                        k = len(self.nodes); t = self.node(s3, n.cfg, n.depth + 1, f'bsdconv_ctl({c}), {tr}')
                        if t is not None and len(self.nodes) > k: t.ctl = True
    def callconv(self, n, v, tr):
        st = n.st; s, C, D = self.prep(st, v); ctx = self.ctxname(v)
        full = f'{ctx}; after {tr}' if n.depth else f'{ctx}; {tr}'
        base = 'uf' not in v and 'nopool' not in v and 'usetail' not in v
        if 'cbconv' not in self.u.fns: return
        outs = self.run(s, 'cbconv', [P(self.ins)], full)
        if not outs and not self.timeup(): self.cov['bounded'] += 1
        if 'long' in v:
            # a long chunk: only whether bytes behind the one at issue are looked at
            for s2, _ in outs:
                i1 = self.m.rd(s2, self.ph, self.pf('i'), 4); x = self.m.rd(s2, self.ph, self.pf('state') + self.os['status'], 1)
                if not isinstance(i1, int) or x == NOOP: continue
                self.cov['lookahead'] = self.cov.get('lookahead', 0) + 1
                lim = min(i1, v['n'] - 1); rd = [x for x in s2.cl.get('rd', ()) if x > lim]
                if rd: self.add('C22', 'cbconv:reads-ahead', f'modules/{self.codec}.c cbconv ({full}): the outcome at byte {lim} depends on byte {rd[0]} of the chunk')
                elif 2 <= i1 < 5 and isinstance(x, int) and x not in (CONTINUE, SUBROUTINE):
                    l = self.label(s2, self.after(s2, 'cbconv', full, C, D), D, v['n']); n.longs.setdefault(v['dz'], set()).add((tuple(l[2][:i1 + 1]), i1, x, cut(l)))
            return
        lab = []
        for s2, _ in outs:
            o = self.outcome(n, s2, v, C, D, full, base)
            if o: lab.append(o)
        if not base: return
        if 'cls' not in v: n.steps[(v['n'], v['i'], v['dz'])] = lab
        if n.depth == 0 and len(lab) > 40 and v['n'] not in self.classes:
            # many outcomes: from later states, a few input ranges of each kind of outcome are followed
            by = {}
            for l, i1, s1, tt in lab: by.setdefault((s1, len(l[1])), []).append(l[2])
            self.classes[v['n']] = [y for k, x in sorted(by.items(), key=str) for y in narrow(x)]
    def outcome(self, n, s, v, C, D, full, base):
        m = self.m; K = self.kind
        a = self.after(s, 'cbconv', full, C, D); self.unheld(n, a)
        status = a['status']
        if not isinstance(status, int):
            if status[0] == 'U': self.add('C03', 'cbconv:status-unset', f'modules/{self.codec}.c cbconv ({full}): leaves a status that was never set'); return None
            vs = s.F.vs.get(status)
            l, h = T.rng(status, s.F)
            if vs is None: vs = set(range(l, h + 1)) if h - l < 16 else None
            if vs is None: self.add('C03', 'cbconv:status-unknown', f'modules/{self.codec}.c cbconv ({full}): leaves an undetermined status'+(repr(status)[:300] if __import__('os').environ.get('DBG') else '')); return None
            res = []
            for x in sorted(vs):
                s2 = s.copy()
                if not T.assume('eq', status, x, 8, s2.F): continue
                m.wr(s2, self.ph, self.pf('state') + self.os['status'], 1, x); b = dict(a); b['status'] = x
                res.append(self.proceed(n, s2, v, C, D, full, base, b, x))
            return res[0] if res else None
        return self.proceed(n, s, v, C, D, full, base, a, status)
    def unheld(self, n, a):
        """units that belong to the configuration (arguments) are not input held back"""
        f = self.fresh.get(n.cfg)
        if f is not None: a['held'] = [o for o in a['held'] if o not in f.st.st]
    def proceed(self, n, s, v, C, D, full, base, a, status):
        m = self.m; K = self.kind; name = SNAME[status] if status < 9 else str(status)
        w = f'modules/{self.codec}.c cbconv ({full})'
        if status == SUBROUTINE: self.add('C03', 'cbconv:no-status', f'{w}: returns without setting a status (the engine calls it again for ever)'); return None
        if status not in ALLST[K]: self.add('C03', f'cbconv:status:{name}', f'{w}: leaves the status {name}, which the engine does not handle here'); return None
        for what, by, line in s.cl.get('counts', ()):
            if self.codec not in MAY_COUNT: self.add('C13', 'cbconv:counts', f'{w}: line {line} changes {what}, which is the engine\'s to count')
            elif by != 1: self.add('C13', 'cbconv:counts', f'{w}: line {line} changes {what} by something other than one')
        if self.codec in MAY_COUNT and len(s.cl.get('counts', ())) > 1: self.add('C13', 'cbconv:counts-twice', f'{w}: counts one unit {len(s.cl["counts"])} times')
        if K != 'inter' and status == DEADEND and a['us'] and not self.flagsof(s) & F_MATCH: self.add('C13', 'cbconv:emits-and-refuses', f'{w}: emits {len(a["us"])} units and refuses the input, which is then counted as an error as well')
        s.cl.pop('counts', None)
        lab = self.label(s, a, D, v['n'])
        i1 = m.rd(s, self.ph, self.pf('i'), 4)
        self.cov['emitted'] += len(a['us'])
        if K == 'from':
            if not isinstance(i1, int): self.add('C22', 'cbconv:position', f'{w}: the input position is undetermined')
            elif status != NOOP:
                if i1 > v['n'] or (i1 == v['n'] and status not in (CONTINUE, SUBMATCH)) or i1 < v['i']: self.add('C21', 'cbconv:position', f'{w}: leaves the input position at {i1} of {v["n"]} with {name}')
                lim = min(i1, v['n'] - 1)
                rd = [x for x in s.cl.get('rd', ()) if x > lim or x < v['i']]
                if rd: self.add('C22', 'cbconv:reads-ahead', f'{w}: the outcome at byte {lim} depends on byte {rd[0]} of the chunk')
        fl = self.flagsof(s); wasmatch = fl & F_MATCH
        if status in (NEXTPHASE, MATCH, NOMATCH) or (status == DEADEND and not wasmatch):
            # the unit leaves the codec: nothing it owned may be needed any more
            for d, ln, f1 in a['emitted']:
                if d is not None and not isinstance(d, int) and d[0] == 'P' and d[1] is D and f1 is not None and not m_and1(f1, s):
                    if m_and1(m.rd(s, C, self.od['flags'], 1), s) and status != NOMATCH: self.add('C04', 'cbconv:borrowed', f'{w}: an emitted unit points at the input bytes, which the engine is about to release')
        self.give(s, a)
        # engine flags
        nxt = None; drop = False
        if status == CONTINUE:
            fl |= F_PENDING
            if K == 'to': fl &= ~F_LOOPBACK
            if K == 'from': fl |= F_LOOPBACK
            if a['held'] and not wasmatch: self.add('C14', 'cbconv:held-on-CONTINUE', f'{w}: keeps {a["held"][0].name} with CONTINUE, so a flush never releases it')
        elif status == SUBMATCH:
            md = m.rd(s, self.ph, self.pf('state') + self.os['data'], 8)
            fl |= F_MATCH | F_PENDING
            if K == 'from': fl |= F_LOOPBACK
            m.wr(s, self.ph, self.pf('match_data'), 8, md)
            if md == 0 and 'cbflush' not in self.u.fns: self.add('C14', 'cbconv:no-flush', f'{w}: answers SUBMATCH but has no cbflush, so what it holds is never released')
            self.setbak(s)
        elif status in (NEXTPHASE, MATCH): fl = 0; m.wr(s, self.ph, self.pf('match_data'), 8, 0); drop = True
        elif status == DEADEND:
            fl &= ~(F_PENDING | F_LOOPBACK)
            if not wasmatch: drop = True
            else:
                self.setflags(s, fl)
                if m.rd(s, self.ph, self.pf('match_data'), 8) == 0:
                    r = []
                    for t in self.flushfrom(n, self.clean(s), full, 'mismatch', bool(a['us'])): r.append(t)
                    return (lab, i1, status, tuple(sorted(x for x in r if x is not None)))
                drop = K == 'from'
        elif status == NOMATCH: drop = True; 
        elif status == NOOP: pass
        if status in (NEXTPHASE, MATCH, NOMATCH, DEADEND) and a['held'] and status != DEADEND:
            self.add('C14', f'cbconv:held-on-{name}', f'{w}: keeps {a["held"][0].name} with {name}: a flush never releases it')
        if drop: self.dropqueue(s)
        if K == 'from' and status in (DEADEND,): fl &= ~F_MATCH
        self.setflags(s, fl)
        if K != 'from' or not drop: self.trimqueue(s)
        s2 = self.clean(s); 
        if len(self.ckey(s2, n.cfg)) and n.depth < 64:
            t = self.node(s2, n.cfg, n.depth + 1, f'{name} on {v["n"]} bytes, {n.trace}' if n.depth < 3 else f'{name} on {v["n"]} bytes, ...')
        else: t = None; self.cov['bounded'] += 1
        if t is not None:
            if status == DEADEND: t.dead = True
            if status in (NEXTPHASE,): t.rest = True
            if status == SUBMATCH: t.sub = True
        return (lab, i1, status, (t.id if t else None,))
    def setbak(self, s):
        m = self.m
        if self.kind == 'from': m.wr(s, self.ph, self.pf('bak'), 8, m.rd(s, self.ph, self.pf('curr'), 8)); return
        cur = m.rd(s, self.ph, self.pf('curr'), 8)
        nx = m.rd(s, cur[1], self.od['next'], 8) if not isinstance(cur, int) and cur[0] == 'P' else 0
        if nx != 0 and not isinstance(nx, int) and nx[0] == 'P': m.wr(s, self.ph, self.pf('bak'), 8, nx)
        else:
            t = m.new(s, 'unit', self.SD, 'the placeholder behind the held input')
            for f, z, v in (('data', 8, 0), ('len', 8, 0), ('next', 8, 0), ('flags', 1, 0)): m.wr(s, t, self.od[f], z, v)
            pt = self.ph, (self.idx - 1) * self.SP + self.op['data_tail']
            tail = m.rd(s, pt[0], pt[1], 8)
            if not isinstance(tail, int) and tail[0] == 'P': m.wr(s, tail[1], self.od['next'], 8, P(t))
            m.wr(s, pt[0], pt[1], 8, P(t)); m.wr(s, self.ph, self.pf('bak'), 8, P(t))
    def trimqueue(self, s):
        """keep at most three queued units in the model"""
        us, bad = self.units(s, self.m.rd(s, self.PH, self.od['next'], 8))
        refs = self.reach(s, self.roots(s))
        while len(us) > 3 and us[0] not in refs:
            o = us.pop(0)
            self.m.wr(s, self.PH, self.od['next'], 8, P(us[0]))
    def flush(self, n, st, trace, why):
        return self.flushfrom(n, st, trace, why)
    def flushfrom(self, n, st, trace, why, came=False):
        """cbflush -> successor node ids"""
        m = self.m; r = []
        if 'cbflush' not in self.u.fns: return r
        s = st.copy(); s.cl['nopool'] = False; s.cl['usetail'] = False
        fl = self.flagsof(s) & ~(F_PENDING | F_LOOPBACK); self.setflags(s, fl); self.begin(s)
        ctx = f'{why}; {trace}'
        for s2, _ in self.run(s, 'cbflush', [P(self.ins)], ctx):
            a = self.after(s2, 'cbflush', ctx); self.unheld(n, a)
            if a['held']: self.add('C14', 'cbflush:held', f'modules/{self.codec}.c cbflush ({ctx}): still keeps {a["held"][0].name}')
            if not a['us'] and not came and self.codec not in FLUSH_MAY_DROP:
                self.add('C14', 'cbflush:nothing', f'modules/{self.codec}.c cbflush ({ctx}): a held match is flushed but nothing comes out')
            self.give(s2, a)
            if why == 'end': self.dropqueue(s2)
            self.setflags(s2, self.flagsof(s2) & ~F_MATCH)
            s3 = self.clean(s2)
            t = self.node(s3, n.cfg, n.depth + 1, f'flush, {n.trace}' if n.depth < 3 else 'flush, ...')
            if t is not None: t.rest = True
            r.append(t.id if t else None)
        return r
    # ---- equivalence ----------------------------------------------------------------------------------------
    def viactl(self, n):
        """what bsdconv_ctl attached belongs to the configuration and survives an initialisation"""
        return 'bsdconv_ctl' in n.trace or n.ctl or n.depth > 3 and any(x.ctl for x in self.nodes.values())
    def refined(self, t, f):
        """t knows more about the configuration than f: then only what t can do and f cannot counts"""
        for o in f.st.st:
            if o in self.fixed or o not in t.st.st: continue
            if t.st.maybe.get(o) != f.st.maybe.get(o): return True
            cf, ct = f.st.cells(o), t.st.cells(o)
            for off, (v, z) in cf.items():
                if isinstance(v, int) or v[0] in 'PFU' or off not in ct: continue
                w = ct[off][0]
                if not isinstance(w, int) and w[0] in 'PFU': continue
                if T.rng(v, f.st.F) != T.rng(w, t.st.F): return True
        return False
    def differ(self, a, b, oneway=False):
        """True if some sequence of calls definitely tells the states apart (unexplored states never do)"""
        if a is b: return False
        k = (a.id, b.id, oneway); r = self.dmemo.get(k)
        if r is not None: return r
        self.dmemo[k] = False      # assume equal while looking
        r = self.differ1(a, b, oneway)
        self.dmemo[k] = r
        return r
    def differ1(self, a, b, oneway):
        if not a.done or not b.done: return False
        fa, fb = self.flagsof(a.st), self.flagsof(b.st)
        if (fa & F_MATCH) != (fb & F_MATCH): return 'one holds a match'
        for k in sorted(set(a.steps) & set(b.steps), key=str):
            x, y = a.steps[k], b.steps[k]
            if k == 'flush':
                continue
            X = {}; Y = {}
            for d, src in ((X, x), (Y, y)):
                for l, i1, s, tt in src: d.setdefault((str(l[:2]), str(i1), s), []).append((l[2], tt))
            for p, q, go in ((X, Y, True), (Y, X, not oneway)):
                for l in p if go else ():
                    same = {b2 for b2, _ in q.get(l, ())}
                    for bx, _ in p[l]:
                        if bx in same: continue
                        # the answers the other state gives to an input of this box
                        c = [l2 for l2 in q if any(meets(bx, b2) for b2, _ in q[l2])]
                        if c and l not in c and not any(alike(l, l2) for l2 in c): return f'call {k}: {l[0][:160]}'
            for l in X:
                if l in Y and len(X[l]) == 1 and len(Y[l]) == 1 and meets(X[l][0][0], Y[l][0][0]):
                    tx, ty = X[l][0][1], Y[l][0][1]
                    if len(tx) == 1 and len(ty) == 1 and tx[0] is not None and ty[0] is not None:
                        r = self.differ(self.byid[tx[0]], self.byid[ty[0]], oneway)
                        if r: return f'call {k}, then {r}'
        return False
    def relational(self):
        """C05 (initialisation reaches the fresh state), C26 (a rejection leaves nothing behind)"""
        self.dmemo = {}; self.byid = {n.id: n for n in self.nodes.values()}
        if self.kind == 'from' and self.codec not in WHOLE_CHUNK: self.chunking()
        for _ in range(2):
            # memo entries made under the assumption of equality are only final in the second round
            self.dmemo = {k: v for k, v in self.dmemo.items() if v}
            for n in self.nodes.values():
                f = self.fresh.get(n.cfg)
                if f is None or n.init is None or self.viactl(n): continue
                for t in n.init:
                    if t is None: continue
                    r = self.differ(t, f, self.refined(t, f))
                    if r: self.add('C05', 'cbinit:stale', f'modules/{self.codec}.c: after {n.trace}, the state left by cbinit behaves differently from a new conversion ({r})')
            if self.kind == 'from':
                rest = {}
                for n in self.nodes.values():
                    if n.rest or n is self.fresh.get(n.cfg): rest.setdefault(n.cfg, []).append(n)
                for n in self.nodes.values():
                    if n.dead:
                        rs = [self.differ(n, x) for x in rest.get(n.cfg, [])]
                        if rs and all(rs): self.add('C26', 'cbconv:after-DEADEND', f'modules/{self.codec}.c: after {n.trace}, the decoder does not start afresh ({rs[0]})')
    def chunking(self):
        """C22: the outcome at a byte depends neither on its place in the chunk nor on where the chunk ends"""
        self.cov['chunk_comparisons'] = 0
        for n in self.nodes.values():
            if not n.done: continue
            for dz in {k[2] for k in n.steps if k != 'flush'}:
                one = n.steps.get((1, 0, dz)); mid = n.steps.get((2, 1, dz)); two = n.steps.get((2, 0, dz))
                if not one: continue
                # the second byte of a chunk against the first byte of the next chunk
                sh = lambda l, i, s: (re.sub(r'\bb1\b', 'b0', str(l[:2])), i if s == CONTINUE or s == NEXTPHASE else 0, s)
                for a, b in ((mid, one), (one, mid)):
                    off = 1 if a is mid else 0; offb = 1 - off
                    for l, i1, s, _ in a or ():
                        bx = l[2][off:off + 1]; c = [(sh(l2, j - offb, s2)) for l2, j, s2, _ in b or () if meets(bx, l2[2][offb:offb + 1])]
                        self.cov['chunk_comparisons'] += 1
                        me = sh(l, i1 - off, s)
                        if c and me not in c and not any(me[1:] == x[1:] and alike((me[0],), (x[0],)) for x in c):
                            self.add('C22', 'cbconv:place', f'modules/{self.codec}.c cbconv (after {n.trace}): the outcome for byte {bx[0][0]}..{bx[0][1]} depends on its place in the chunk ({SNAME[me[2]]} at place {off}, {", ".join(sorted({SNAME[x[2]] for x in c}))} otherwise)')
                # two bytes in one chunk against one by one
                for l, i1, s, _ in two or ():
                    c = []; unknown = False
                    if i1 == 0: continue                      # decided by the first byte (reads-ahead)
                    for l1, j1, s1, t1 in one:
                        if not meets(l[2][:1], l1[2]): continue
                        if s1 not in (CONTINUE, SUBMATCH) or len(t1) != 1 or t1[0] is None or not self.byid[t1[0]].done: unknown |= s1 in (CONTINUE, SUBMATCH); continue
                        y = self.byid[t1[0]].steps.get((1, 0, dz))
                        if y is None: unknown = True; continue
                        c += [((s2, cut(l2)), len(l1[1])) for l2, j2, s2, _ in y if meets(l[2][1:2], l2[2])]
                    self.cov['chunk_comparisons'] += 1
                    if unknown: continue
                    me = (s, cut(l))
                    ok = any(me[0] == x[0] and (k or len(me[1]) == len(x[1]) and all(p == q or '?' in (p[0], q[0]) for p, q in zip(me[1], x[1]))) for x, k in c)
                    if not ok: self.add('C22', 'cbconv:split', f'modules/{self.codec}.c cbconv (after {n.trace}): bytes {l[2][:2]} in one chunk give {SNAME[s]}, one by one {", ".join(sorted({SNAME[x[0]] for x, _ in c})) or "the first byte is already decided"}')
                # several bytes in one chunk against one by one
                for box, i1, s, em in n.longs.get(dz, ()):
                    self.cov['chunk_comparisons'] += 1; cur = {(n.id, False)}; unknown = False
                    for k in range(i1 + 1):
                        nxt = set(); c = []
                        for i, had in cur:
                            y = self.byid[i].steps.get((1, 0, dz)) if self.byid[i].done else None
                            if y is None: unknown = True; continue
                            for l1, j1, s1, t1 in y:
                                if not meets(box[k:k + 1], l1[2]): continue
                                if k == i1: c.append((s1, cut(l1), had))
                                elif s1 in (CONTINUE, SUBMATCH):
                                    if len(t1) != 1 or t1[0] is None: unknown = True
                                    else: nxt.add((t1[0], had or len(l1[1]) > 0))
                        cur = nxt
                    if unknown or any(s == x and (h or len(em) == len(e) and all(p == q or '?' in (p[0], q[0]) for p, q in zip(em, e))) for x, e, h in c): continue
                    self.add('C22', 'cbconv:split', f'modules/{self.codec}.c cbconv (after {n.trace}): bytes {box} in one chunk give {SNAME[s]} with {len(em)} units, one by one {", ".join(sorted({f"{SNAME[x]} with {len(e)} units" + " of other size" * (x == s and len(e) == len(em)) for x, e, _ in c})) or "an earlier byte already decides"}')
def cut(l):
    """what a unit given out looks like from outside: its length and flags"""
    return tuple((x[0] if x[0].isdigit() else '?', x[1]) for x in l[1])
# from/PASS hands a chunk on as one opaque unit by design: it decodes nothing, so where a chunk ends is its business
WHOLE_CHUNK = {'from/PASS'}
MAY_COUNT = ('from/ANY', 'to/ANY')      # the documented ERROR option
FLUSH_MAY_DROP = {'inter/STRINGS'}

def analyse(codec, budget=1500000):
    d = Drive(codec, budget); d.explore(); d.relational()
    return d
