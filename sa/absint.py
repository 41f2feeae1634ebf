"""Path-partitioned abstract interpreter over the normalised IR.

Abstract state: SSA environment, a store mapping (object, offset) to abstract values (sa/terms.py), interval/bit facts, the
life-cycle state of every object (heap block, file, nested conversion, ...) and a log of effects. Objects are named by their
allocation; contents of memory the analysis did not see written are named symbols. Loops are followed while the abstract
state decides them and up to a bound otherwise (the bound being hit is counted and reported in the evidence).
No source code is executed and no constraint solver is involved: branches are decided by the interval/bit domain or split."""
from . import terms as T
from .ir import AnalysisBroken
from .terms import Facts

class Obj:
    """immutable description of an abstract object"""
    __slots__ = ('id', 'kind', 'size', 'name', 'site', 'data')
    def __init__(self, id, kind, size, name, site=None, data=None):
        self.id = id; self.kind = kind; self.size = size; self.name = name; self.site = site; self.data = data
    def __repr__(self): return f'<{self.kind} {self.name}#{self.id}>'
    def __lt__(self, o): return self.id < o.id

class PathEnd(Exception): pass
class Choice(Exception):
    """the answer to a question about the environment is open: one path per answer"""
    def __init__(self, opts): self.opts = opts

class State:
    __slots__ = ('env', 'mem', 'own', 'F', 'st', 'maybe', 'preds', 'log', 'trail', 'cnt', 'cl', 'frame')
    def __init__(self):
        self.env = {}; self.mem = {}; self.own = set(); self.F = Facts(); self.st = {}; self.maybe = {}
        self.preds = {}; self.log = (); self.trail = (); self.cnt = {}; self.cl = {}; self.frame = 0
    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.mem = dict(self.mem); s.own = set(); self.own = set(); s.F = self.F.copy()
        s.st = dict(self.st); s.maybe = dict(self.maybe); s.preds = dict(self.preds); s.log = self.log; s.trail = self.trail
        s.cnt = dict(self.cnt); s.cl = dict(self.cl); s.frame = self.frame
        return s
    def cells(self, o): return self.mem.get(o, {})
    def wcells(self, o):
        c = self.mem.get(o)
        if c is None: c = {}; self.mem[o] = c; self.own.add(o)
        elif o not in self.own: c = dict(c); self.mem[o] = c; self.own.add(o)
        return c
    def emit(self, *ev): self.log = self.log + (ev,)

def P(o, off=0): return ('P', o, off)

class Machine:
    def __init__(self, unit, handlers=None, maxpaths=4000, maxvisit=24, maxsteps=400000):
        self.u = unit; self.h = dict(handlers or {}); self.maxpaths = maxpaths; self.maxvisit = maxvisit
        self.nobj = 0; self.report = lambda *a: None; self.stats = dict(paths=0, steps=0, bound_hits=0, truncated=0)
        self.globs = {}; self.on_load = None; self.on_store = None; self.maxsteps = maxsteps; self.on_branch = None
        self.lazy = {}; self.interned = {}; self.maxfork = 26; self.mergeafter = 30
        self.joinb = {}; self.live = {}; self.seen = {}; self.keep = []
        for n, f in unit.fns.items():
            for bi, b in enumerate(f['bbs']):
                for ii in b['ins']: ii['bb'] = bi
    # ---- objects -------------------------------------------------------------------------------------------
    def new(self, st, kind, size, name, site=None, data=None, status='live'):
        self.nobj += 1
        o = Obj(self.nobj, kind, size, name, site, data); st.st[o] = status; return o
    def glob(self, name):
        o = self.globs.get(name)
        if o is None:
            g = self.u.globals.get(name)
            self.nobj += 1
            o = Obj(self.nobj, 'glob', g['size'] if g else None, name, None, g); self.globs[name] = o
            if g and g.get('init') is not None and not g['decl']:
                o.data = dict(g=g, flat=flatten(g))
        return o
    def gstring(self, o):
        """constant C string at a global"""
        d = o.data.get('flat') if isinstance(o.data, dict) else None
        if not d: return None
        s = bytearray(); i = 0
        while i in d and d[i][1] == 1:
            if d[i][0] == 0: return bytes(s)
            s.append(d[i][0] & 255); i += 1
        if not d and o.data.get('g', {}).get('size') == 1: return b''
        return None
    # ---- values --------------------------------------------------------------------------------------------
    def val(self, st, o):
        k = o['k']
        if k == 'i':
            v = st.env.get((st.frame, o['n']))
            if v is None: raise AnalysisBroken(f'{self.u.src}: value %{o["n"]} undefined')
            return self.nrm(st, v)
        if k == 'int': return o['v'] & T.mask(o['w'])
        if k == 'arg': return self.nrm(st, st.env[(st.frame, 'a', o['n'])])
        if k == 'null' or k == 'zero': return 0
        if k == 'func': return ('F', o['n'])
        if k == 'glob': return P(self.glob(o['n']), o.get('off', 0))
        if k == 'undef': return ('U', 'undef')
        if k == 'cexpr_p2i': return self.val(st, o['a'])
        return T.fresh(64, 'const?')
    def nrm(self, st, v):
        if type(v) is tuple and v[0] == 'P' and st.maybe.get(v[1]) == 'null': return 0
        return v
    def where(self, ins): return f"{ins.get('file', self.u.src)}:{ins.get('line', '?')}"
    def bad(self, st, kind, ins, msg, detail=''):
        self.report(kind, ins, msg, detail, st)
    # ---- memory --------------------------------------------------------------------------------------------
    def ptr(self, st, v, ins, what):
        """check a pointer about to be dereferenced; -> (obj, off)"""
        if isinstance(v, int):
            self.bad(st, 'null-deref', ins, f'{what} through a null pointer' if v == 0 else f'{what} through constant address {v}', what); raise PathEnd()
        if v[0] == 'U':
            self.bad(st, 'uninit-deref', ins, f'{what} through a pointer that was never set ({v[1]})', what); raise PathEnd()
        if v[0] == 'F': raise PathEnd()
        if v[0] != 'P':
            o = self.opaque(st, v)
            v = P(o, 0)
        o, off = v[1], v[2]
        if st.maybe.get(o) == 'maybe':
            self.bad(st, 'maybe-null', ins, f'{what} through {o.name}, which may be null here', o.name)
            st.maybe[o] = 'no'
        s = st.st.get(o)
        if s == 'freed':
            self.bad(st, 'use-after-free', ins, f'{what} in {o.name} after it was released', o.name); raise PathEnd()
        return o, off
    def opaque(self, st, v):
        """object behind a pointer-valued symbol"""
        for o in (x for x in st.cl.get('opaque', {}).items()):
            if o[0] == v: return o[1]
        if v[0] == 'L' and len(v[2]) == 1: pass
        o = self.new(st, 'ext', None, 'memory at ' + (T.symname(v) if v[0] == 's' else 'computed address'))
        d = dict(st.cl.get('opaque', {})); d[v] = o; st.cl['opaque'] = d
        return o
    def bounds(self, st, o, off, sz, ins, what):
        size = o.size
        if size is None: return True
        if isinstance(off, int) and isinstance(size, int) and isinstance(sz, int):
            o2 = off - (1 << 64) if off >> 63 else off
            if o2 < 0 or o2 + sz > size:
                self.bad(st, 'out-of-bounds', ins, f'{what} at offset {o2} (size {sz}) of {o.name}, which has {size} bytes', what + ' ' + o.name); raise PathEnd()
            return True
        l, h = T.rng(off, st.F); sl, sh = T.rng(size, st.F)
        if l >= 0 and (not isinstance(size, int) or not isinstance(sz, int)):
            d = T.sub(T.sub(size, off, 64, st.F), sz, 64, st.F)
            if T.rng(d, st.F)[0] >= 0 and not (isinstance(d, tuple) and d[0] == 'B'): return True
        if not isinstance(sz, int): sz = min(T.rng(sz, st.F)[1], 1 << 20)
        if l < 0 or h + sz > sl:
            # maybe
            self.bad(st, 'maybe-out-of-bounds', ins, f'{what} at offset [{l},{h}] (size {sz}) of {o.name}, which has {size if isinstance(size, int) else sl} bytes', what + ' ' + o.name)
            if l + sz > sh or h < 0: raise PathEnd()
            if isinstance(size, int): T.setrange(off, 0, size - sz, st.F)
        return True
    def load(self, st, p, sz, ins, ptr=False):
        o, off = self.ptr(st, p, ins, 'read')
        self.bounds(st, o, off, sz, ins, 'read')
        if not isinstance(off, int):
            l, h = T.rng(off, st.F)
            if l == h: off = l
        v = self.rd(st, o, off, sz, ptr, ins)
        if self.on_load: v = self.on_load(st, o, off, sz, v, ins)
        return self.nrm(st, v)
    def rd(self, st, o, off, sz, ptr=False, ins=None):
        if not isinstance(off, int): return self.rdsym(st, o, off, sz, ins)
        c = st.mem.get(o)
        if c is not None:
            e = c.get(off)
            if e is not None and e[1] == sz: return e[0]
            r = self.compose(st, c, o, off, sz)
            if r is not None: return r
        if o.kind == 'glob':
            d = o.data.get('flat') if isinstance(o.data, dict) else None
            if d is not None:
                e = d.get(off)
                if e is not None and e[1] == sz: return self.initval(e[0])
                if e is None or e[1] > sz or True:
                    r = self.compose(st, {k: x for k, x in d.items() if off - 8 < k < off + sz and isinstance(x[0], int)}, o, off, sz)
                    if r is not None: return r
                    if 0 <= off and off + sz <= (o.size or 0) and not any(off - 8 < k < off + sz for k in d): return 0
        return self.missing(st, o, off, sz, ptr)
    def initval(self, x):
        if isinstance(x, int): return x
        if isinstance(x, dict):
            if x['k'] == 'glob': return P(self.glob(x['n']), x.get('off', 0))
            if x['k'] == 'func': return ('F', x['n'])
            if x['k'] in ('null', 'zero'): return 0
        return T.fresh(64, 'init')
    def compose(self, st, c, o, off, sz):
        """value spanning or inside other cells, if fully covered by integer cells"""
        bits = []; i = off
        while i < off + sz:
            hit = None
            for k in range(i, i - 16, -1):
                e = c.get(k)
                if e is not None:
                    if k + e[1] > i: hit = (k, e)
                    if hit or k < i: break
            if hit is None: return None
            k, (v, s) = hit
            if not isinstance(v, int) and v[0] == 'U': return v
            n = min(k + s - i, off + sz - i)
            b = T.to_bits(v, s * 8, st.F)
            bits += b[(i - k) * 8:(i - k + n) * 8]; i += n
        return T.from_bits(bits, st.F)
    def missing(self, st, o, off, sz, ptr):
        """content nobody wrote in the analysed code"""
        f = self.lazy.get(o) or self.lazy.get(o.kind)
        if f is not None:
            v = f(st, o, off, sz, ptr)
        elif o.kind in ('heap', 'alloca'):
            v = ('U', o.name) if not st.cl.get(('zero', o)) else 0
            if o in st.cl.get('havoc', ()): v = T.fresh(sz * 8, 'earlier byte')
        else: v = self.unknown(o, off, sz)
        if o.kind == 'z' and sz == 1 and not isinstance(v, int) and v not in st.F.vs: st.F.vs[v] = frozenset({0, 1, 2}); st.F.rg[v] = (0, 2)
        if o.kind not in ('ext', 'glob'): st.wcells(o)[off] = (v, sz)
        return v
    def unknown(self, o, off, sz):
        """the (one) symbol standing for memory nobody wrote"""
        k = (o, off, sz); v = self.interned.get(k)
        if v is None: v = self.interned[k] = T.fresh(sz * 8, f'{o.name}+{off}')
        return v
    def rdsym(self, st, o, off, sz, ins):
        l, h = T.rng(off, st.F)
        if o.kind == 'glob' and isinstance(o.data, dict) and o.data.get('flat') is not None and h - l < 70000:
            vs = set(); row = []
            d = o.data['flat']; step = 1
            c, dd = T.lin(off)
            if len(dd) == 1:
                t = list(dd)[0]
                if t[0] == 'B' and dd[t] == 1 and t[1][0] == 0 and any(t[1]):
                    z = next(i for i, b in enumerate(t[1]) if b != 0); dd = {T.from_bits(list(t[1][z:]), st.F): 1 << z}
            ks = [abs(k) for k in dd.values()]
            if len(ks) == 1: step = ks[0]
            x = l
            while x <= h and len(vs) < 300:
                e = d.get(x)
                if e is None or e[1] != sz: vs = None; break
                if not isinstance(e[0], int): vs = None; break
                vs.add(e[0]); row.append(e[0]); x += step
            if vs and len(ks) == 1 and len(row) > 1 and x > h and list(dd.values())[0] > 0:
                by = row[1] - row[0]
                if all(row[i + 1] - row[i] == by for i in range(len(row) - 1)):     # an arithmetic progression: the entry is linear in the index
                    t = list(dd)[0]; return T.mklin(row[0] - by * ((l - c) // step), {t: by}) if by else row[0]
            if vs:
                t = T.op('load', sz * 8, o.name, off, tuple(sorted(vs)))
                st.F.vs.setdefault(t, frozenset(vs)); return t
        # some cell of the object: uninitialised only if nothing in the object is initialised
        c = st.mem.get(o)
        if o.kind in ('heap', 'alloca') and not c and o not in st.cl.get('havoc', ()) and not st.cl.get(('zero', o)): return ('U', o.name)
        t = T.fresh(sz * 8, f'{o.name}[..]')
        if o.kind == 'z' and sz == 1: st.F.vs[t] = frozenset({0, 1, 2}); st.F.rg[t] = (0, 2)      # the only one-byte field of a table state is its status (C08)
        return t
    def store(self, st, p, v, sz, ins):
        o, off = self.ptr(st, p, ins, 'write')
        self.bounds(st, o, off, sz, ins, 'write')
        if not isinstance(off, int):
            l, h = T.rng(off, st.F)
            if l == h: off = l
        if self.on_store:
            if self.on_store(st, o, off, sz, v, ins): return
        self.wr(st, o, off, sz, v)
    def wr(self, st, o, off, sz, v):
        if not isinstance(off, int):
            l, h = T.rng(off, st.F)
            c = st.wcells(o)
            for k in list(c):
                if l - 8 < k <= h: del c[k]
            st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {o}
            return
        c = st.wcells(o)
        if c:
            for k in range(off - 7, off + sz):
                e = c.get(k)
                if e is None or (k == off and e[1] == sz): continue
                if k + e[1] <= off: continue
                # split the overlapped cell into bytes when it is an integer
                vv, s = e; del c[k]
                if isinstance(vv, int) or vv[0] in 'sBOL':
                    b = T.to_bits(vv, s * 8, st.F)
                    for j in range(s):
                        if not off <= k + j < off + sz: c[k + j] = (T.from_bits(b[j * 8:j * 8 + 8], st.F), 1)
                elif vv[0] == 'U':
                    for j in range(s):
                        if not off <= k + j < off + sz: c[k + j] = (vv, 1)
            if sz > 8:
                pass
        c[off] = (v, sz)
    def copymem(self, st, d, s, n, ins):
        """memcpy of n bytes"""
        do, doff = self.ptr(st, d, ins, 'copy to'); so, soff = self.ptr(st, s, ins, 'copy from')
        if not isinstance(n, int):
            l, h = T.rng(n, st.F)
            if l == h: n = l
            else:
                self.bounds(st, so, soff, n, ins, 'copy from'); self.bounds(st, do, doff, n, ins, 'copy to')
                st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {do}
                for k in list(st.wcells(do)): del st.wcells(do)[k]
                return
        if n == 0: return
        self.bounds(st, so, soff, n, ins, 'copy from'); self.bounds(st, do, doff, n, ins, 'copy to')
        if not isinstance(soff, int) or not isinstance(doff, int):
            st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {do}; return
        if self.on_store and self.on_store(st, do, doff, n, ('copy', so, soff), ins): return
        cells = []
        src = st.mem.get(so) or {}
        covered = set()
        lay = self.layout(st, so, soff, n)
        for off, sz in lay:
            v = self.rd(st, so, soff + off, sz, False, ins)
            if self.on_load: v = self.on_load(st, so, soff + off, sz, v, ins)
            cells.append((off, sz, v))
        for off, sz, v in cells: self.wr(st, do, doff + off, sz, v)
    def layout(self, st, o, base, n):
        """chunks in which to copy n bytes from o+base"""
        c = st.mem.get(o) or {}
        if o.kind == 'glob' and isinstance(o.data, dict) and o.data.get('flat'): c = {**o.data['flat'], **c}
        r = []; i = 0
        while i < n:
            e = c.get(base + i)
            if e is not None and e[1] <= n - i: r.append((i, e[1])); i += e[1]; continue
            # guess: natural chunks from the copied struct, else up to the next cell
            nxt = min([k - base for k in c if base + i < k < base + n] + [n])
            f = self.lazy.get(('layout', o)) or self.lazy.get(('layout', n))
            s = None
            if f: s = f(base + i if f.__code__.co_argcount == 1 else i)
            if s is None:
                s = 1
                for q in (8, 4, 2):
                    if (base + i) % q == 0 and i + q <= nxt: s = q; break
            s = min(s, n - i)
            r.append((i, s)); i += s
        return r
    # ---- interpretation ------------------------------------------------------------------------------------
    def call(self, st, fn, args):
        """interpret fn; -> list of (state, ret)"""
        f = self.u.fns.get(fn)
        if f is None: raise AnalysisBroken(f'{self.u.src}: function {fn} not found')
        outs = []
        st.frame += 1; fr = st.frame
        if fr > 40: self.stats['truncated'] += 1; return []
        for i, a in enumerate(args): st.env[(fr, 'a', i)] = a
        for k in [k for k in st.cnt if k[0] >= fr]: del st.cnt[k]
        work = [(st, 0, 0, None)]
        self.seen[fr] = {}; self.base = getattr(self, 'base', {}); self.base[fr] = (st.F.copy(), dict(st.preds))
        while work:
            st, b, pc, prev = work.pop()
            if len(outs) + len(work) > self.maxpaths: self.stats['truncated'] += 1; break
            self.run(f, fn, st, b, pc, prev, work, outs, fr)
        res = []
        for s, r in outs:
            s.frame = fr - 1
            for k in [k for k in s.env if k[0] == fr]: del s.env[k]
            res.append((s, r))
        return res
    def run(self, f, fn, st, b, pc, prev, work, outs, fr):
        bbs = f['bbs']
        while True:
            if pc == 0:
                key = (fr, fn, b); n = st.cnt.get(key, 0) + 1; st.cnt[key] = n
                if n > self.maxvisit: self.stats['bound_hits'] += 1; return
                # phis
                ins = bbs[b]['ins']; i = 0; new = []
                while i < len(ins) and ins[i]['op'] == 'phi':
                    for blk, v in ins[i]['inc']:
                        if blk == prev: new.append((ins[i]['id'], self.val(st, v))); break
                    i += 1
                for k, v in new: st.env[(fr, k)] = v
                pc = i
                if b in self.joins(fn, f) and self.merge(f, fn, fr, b, st): return
            ins = bbs[b]['ins']
            while pc < len(ins):
                I = ins[pc]; op = I['op']
                self.stats['steps'] += 1
                try:
                    if op == 'br':
                        if 'cond' not in I: prev, b, pc = b, I['t'], 0; break
                        c = self.val(st, I['cond'])
                        br = self.branch(st, c, I)
                        if not br: return
                        if len(br) > 1:
                            k = (fr, fn, 'f', I['id']); n = st.cnt.get(k, 0) + 1
                            if n > self.maxfork: self.stats['bound_hits'] += 1; return
                            for s, _ in br: s.cnt[k] = n
                        nxt = [(s, I['t'] if x else I['f']) for s, x in br]
                        for s, tb in nxt[1:]: work.append((s, tb, 0, b))
                        st, nb = nxt[0]; prev, b, pc = b, nb, 0; break
                    if op == 'switch':
                        nxt = self.switch(st, I)
                        if not nxt: return
                        for s, tb in nxt[1:]: work.append((s, tb, 0, b))
                        st, nb = nxt[0]; prev, b, pc = b, nb, 0; break
                    if op == 'ret':
                        r = self.val(st, I['a'][0]) if I['a'] else None
                        self.stats['paths'] += 1; outs.append((st, r)); return
                    if op == 'unreachable': return
                    if op == 'call':
                        rs = self.docall(st, I)
                        if not rs: return
                        for s, r in rs[1:]:
                            if r is not None: s.env[(fr, I['id'])] = r
                            elif I['ty'] != 'void': s.env[(fr, I['id'])] = T.fresh(64, 'ret')
                            work.append((s, b, pc + 1, prev))
                        st, r = rs[0]
                        if I['ty'] != 'void': st.env[(fr, I['id'])] = r if r is not None else T.fresh(tw(I['ty']), 'ret')
                        pc += 1; continue
                    v = self.step(st, I)
                    if v is not None:
                        if isinstance(v, list):       # split
                            for s, x in v[1:]:
                                s.env[(fr, I['id'])] = x; work.append((s, b, pc + 1, prev))
                            st, x = v[0]; st.env[(fr, I['id'])] = x
                        else: st.env[(fr, I['id'])] = v
                except PathEnd: return
                except Choice as e:
                    for up in e.opts:
                        s = st.copy(); up(s); work.append((s, b, pc, prev))
                    return
                pc += 1
            else:
                return
            if self.stats['steps'] > self.maxsteps: self.stats['truncated'] += 1; work.clear(); return
    def ctype(self, st, p, I):
        """the classification table behind isdigit() and its like: one path per stretch of characters with the same answer"""
        flat = p[1].data['flat']; mask = 0xffff
        for f in self.u.fns.values():
            us = [J for bb in f.get('bbs', ()) for J in bb['ins']] if any(J is I for bb in f.get('bbs', ()) for J in bb['ins']) else []
            todo = {I['id']}; ms = []
            for J in us:
                for x in J.get('a', ()):
                    if isinstance(x, dict) and x.get('k') == 'i' and x.get('n') in todo:
                        if J['op'] in ('zext', 'sext'): todo.add(J['id'])
                        elif J['op'] == 'and': ms += [y['v'] for y in J['a'] if isinstance(y, dict) and y.get('k') == 'int'] or [0xffff]
                        else: ms.append(0xffff)
            if us and len(ms) == 1: mask = ms[0] & 0xffff
        runs = []
        for o in range(0, 768, 2):
            v = flat[o][0] & mask
            if runs and runs[-1][1] == v: runs[-1][2] = o
            else: runs.append([o, v, o])
        r = []; rest = [st]
        l, h = T.rng(p[2], st.F)
        if l < 0 or h > 767: raise AnalysisBroken(f'isdigit and its like on a value out of range at {self.where(I)}')
        for lo, v, hi in runs:
            nxt = []
            for s in rest:
                for s2, z in self.fork_cmp(s, 'ule', p[2], hi + 1, 64, I):
                    if z: r.append((s2, v))
                    else: nxt.append(s2)
            rest = nxt
        return r
    def joins(self, fn, f):
        """blocks that can be entered from two places"""
        r = self.joinb.get(fn)
        if r is None:
            n = {}
            for bb in f['bbs']:
                I = bb['ins'][-1]
                for x in ([I['t']] + ([I['f']] if 'f' in I else []) if I['op'] == 'br' else [I['def']] + [c[1] for c in I['cases']] if I['op'] == 'switch' else []): n[x] = n.get(x, 0) + 1
            r = self.joinb[fn] = {b for b, k in n.items() if k > 1}
        return r
    def merge(self, f, fn, fr, b, st):
        """prune a path whose relevant state was seen at this block; after many visits the path facts are forgotten"""
        lv = self.liveness(fn, f)[b]
        env = tuple((k, st.env[(fr, k)]) for k in lv if (fr, k) in st.env)
        outer = tuple(sorted(((k, v) for k, v in st.env.items() if k[0] < fr), key=lambda x: (x[0][0], str(x[0][1:]))))
        mem = tuple(sorted((o.id, id(c)) for o, c in st.mem.items()))
        key = (b, env, hash(outer), mem, tuple(sorted((o.id, x) for o, x in st.st.items())), tuple(sorted((o.id, x) for o, x in st.maybe.items())),
               st.log, tuple(sorted(((repr(k), repr(v)) for k, v in st.cl.items()))) if st.cl else ())
        sn = self.seen[fr]; e = sn.get(key)
        if e is None: e = sn[key] = [0, [c for c in st.mem.values()], []]
        if e[0] >= self.mergeafter:
            if e[0] > self.mergeafter: return True
            e[0] += 1
            F, pr = self.base[fr]; st.F = F.copy(); st.preds = dict(pr); return False
        e[0] += 1
        return False
    def liveness(self, fn, f):
        if fn in self.live: return self.live[fn]
        bbs = f['bbs']; n = len(bbs); use = []; dfn = []; succ = []; phiuse = [set() for _ in range(n)]
        def regs(o):
            if isinstance(o, dict):
                if o.get('k') == 'i': yield o['n']
                elif 'k' in o:
                    for x in o.values():
                        if isinstance(x, (dict, list)): yield from regs(x)
            elif isinstance(o, list):
                for x in o: yield from regs(x)
        for b in bbs:
            u = set(); d = set(); sc = []
            for I in b['ins']:
                if I['op'] == 'phi':
                    for blk, v in I['inc']: phiuse[blk] |= set(regs(v))
                    d.add(I['id']); continue
                for k, x in I.items():
                    if k in ('a', 'args', 'cond', 'base', 'var', 'fp', 'n', 'cases') and isinstance(x, (dict, list)): u |= {r for r in regs(x) if r not in d}
                d.add(I['id'])
                if I['op'] == 'br': sc = [I['t']] + ([I['f']] if 'f' in I else [])
                if I['op'] == 'switch': sc = [I['def']] + [c[1] for c in I['cases']]
            use.append(u); dfn.append(d); succ.append(sc)
        phid = [{I['id'] for I in b['ins'] if I['op'] == 'phi'} for b in bbs]
        live = [set(u) for u in use]; ch = True
        while ch:
            ch = False
            for i in reversed(range(n)):
                o = set(phiuse[i])
                for s2 in succ[i]: o |= live[s2] - phid[s2]
                x = use[i] | (o - dfn[i])
                if not x <= live[i]: live[i] |= x; ch = True
        # registers needed at the start of the block body: uses, phi results still used, and pass-through
        r = []
        for i in range(n):
            o = set(phiuse[i])
            for s2 in succ[i]: o |= live[s2] - phid[s2]
            allu = set()
            for I in bbs[i]['ins']:
                for k, x in I.items():
                    if k in ('a', 'args', 'cond', 'base', 'var', 'fp', 'n') and isinstance(x, (dict, list)): allu |= set(regs(x))
            r.append(sorted(live[i] | (phid[i] & (allu | o))))
        self.live[fn] = r
        return r
    def step(self, st, I):
        op = I['op']; F = st.F
        if op == 'load':
            p = self.val(st, I['a'][0])
            if not isinstance(p, int) and p[0] == 'P' and p[1].name == '#ctype' and not isinstance(p[2], int): return self.ctype(st, p, I)
            return self.load(st, p, I['sz'], I, I['ty'] == 'ptr')
        if op == 'store':
            v = self.val(st, I['a'][0]); p = self.val(st, I['a'][1])
            w = tw(I['sty'])
            if I['sty'].startswith('i') and not isinstance(v, int) and v[0] == 'L':
                l, h = T.rng(v, F)
                if l < 0 and h < 0: c, d = T.lin(v); v = T.mklin(c + (1 << w), d)
            self.store(st, p, v, I['sz'], I); return None
        if op == 'getelementptr':
            b = self.val(st, I['base'])
            off = I['off']; t = off & T.mask(64)
            for x, s in I['var']:
                x = self.val(st, x)
                if not isinstance(x, int) and x[0] == 'U':
                    self.bad(st, 'uninit-index', I, f'address computed from a value that was never set ({x[1]})', str(x[1])); x = T.fresh(64, 'index')
                t = T.add(t, T.mul(x, s & T.mask(64), 64, F), 64, F)
            return self.padd(st, b, t)
        if op == 'alloca':
            n = self.val(st, I['n'])
            sz = I['size'] if I['size'] >= 0 else (I['es'] * n if isinstance(n, int) else T.mul(n, I['es'], 64, F))
            key = ('alloca', st.frame, I['id'])
            o = self.new(st, 'alloca', sz, 'local ' + I.get('var', 'buffer'), I)
            st.cl.setdefault('allocas', ()); st.cl['allocas'] = st.cl['allocas'] + ((st.frame, o),)
            return P(o, 0)
        if op == 'icmp': return self.icmp(st, I)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a = self.val(st, I['a'][0]); b = self.val(st, I['a'][1]); w = tw(I['ty'])
            return self.arith(st, op, a, b, w, I)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            a = self.val(st, I['a'][0])
            if not isinstance(a, int) and a[0] in 'U': return a
            w0, w = tw(I.get('from', I['ty'])), tw(I['ty'])
            if not isinstance(a, int) and a[0] in 'PF':
                if op == 'trunc': return T.from_bits([(a, i) for i in range(w)], F)
                return a
            if not isinstance(a, int) and a[0] == 'cmp':
                r = self.fork_bool(st, a, I)
                v = [(s, (1 if x else 0) if op != 'sext' else (T.mask(w) if x else 0)) for s, x in r]
                return v if v else self.die()
            if op == 'zext': return T.zext(a, w0, w, F)
            if op == 'sext': return T.sext(a, w0, w, F)
            if op == 'trunc': return T.trunc(a, w, F)
            return a
        if op == 'select':
            c = self.val(st, I['a'][0])
            r = self.fork_bool(st, c, I)
            if not r: raise PathEnd()
            return [(s, self.val(s, I['a'][1] if x else I['a'][2])) for s, x in r]
        if op in ('extractvalue', 'insertvalue', 'fence'): return T.fresh(64, op)
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fadd', 'fmul', 'fdiv', 'fsub', 'fcmp', 'fpext', 'fptrunc', 'fneg'): return T.fresh(64, op)
        raise AnalysisBroken(f'{self.u.src}: instruction {op} not modelled')
    def die(self): raise PathEnd()
    def padd(self, st, b, t):
        if isinstance(b, int):
            if isinstance(t, int): return (b + t) & T.mask(64)
            return T.add(b, t, 64, st.F)
        if b[0] == 'P': return ('P', b[1], self.soff(T.add(b[2], t, 64, st.F)))
        if t == 0: return b
        if b[0] == 'U': return b
        if b[0] == 'F': return b
        o = self.opaque(st, b); return P(o, self.soff(t))
    def soff(self, v):
        return v - (1 << 64) if isinstance(v, int) and v >> 63 else v
    def arith(self, st, op, a, b, w, I):
        F = st.F
        for x in (a, b):
            if not isinstance(x, int) and x[0] == 'U':
                self.bad(st, 'uninit-use', I, f'computation with a value that was never set ({x[1]})', str(x[1])); return T.fresh(w, 'uninit')
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, int) and x[0] == 'cmp':
                r = self.fork_bool(st, x, I)
                return [(s, self.arith1(s, op, (1 if v else 0) if x is a else a, (1 if v else 0) if x is b else b, w)) for s, v in r]
        return self.arith1(st, op, a, b, w)
    def arith1(self, st, op, a, b, w):
        F = st.F
        pa = not isinstance(a, int) and a[0] == 'P'; pb = not isinstance(b, int) and b[0] == 'P'
        if pa and pb and op == 'sub':
            if a[1] is b[1]: return T.sub(a[2] if not isinstance(a[2], int) else a[2] & T.mask(64), b[2] if not isinstance(b[2], int) else b[2] & T.mask(64), w, F)
            return T.fresh(w, 'ptrdiff')
        if pa and op == 'add': return self.padd(st, a, b)
        if pb and op == 'add': return self.padd(st, b, a)
        if pa and op == 'sub' and not pb: return self.padd(st, a, T.neg(b, 64, F))
        if pa or pb or (not isinstance(a, int) and a[0] == 'F') or (not isinstance(b, int) and b[0] in 'F'): return T.fresh(w, 'ptrarith')
        if op == 'add': return T.add(a, b, w, F)
        if op == 'sub': return T.sub(a, b, w, F)
        if op == 'mul': return T.mul(a, b, w, F)
        if op in ('and', 'or', 'xor'): return T.bitop(op, a, b, w, F)
        if op == 'shl': return T.shl(a, b, w, F)
        if op == 'lshr': return T.lshr(a, b, w, F)
        if op == 'ashr': return T.ashr(a, b, w, F)
        if isinstance(a, int) and isinstance(b, int) and b:
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = T.signed(a, w), T.signed(b, w); q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == 'sdiv' else x - q * y) & T.mask(w)
        l, h = T.srange(a, w, F)
        if op in ('sdiv', 'srem') and l >= 0: op = {'sdiv': 'udiv', 'srem': 'urem'}[op]
        if op == 'udiv' and isinstance(b, int) and b:
            l, h = T.rng(a, F)
            if l >= 0 and l // b == h // b: return l // b
        if op == 'udiv' and isinstance(b, int) and b and b & (b - 1) == 0: return T.lshr(a, b.bit_length() - 1, w, F)
        if op == 'urem' and isinstance(b, int) and b:
            l, h = T.rng(a, F)
            if 0 <= l and h < b: return a
            if l >= 0 and l // b == h // b: return T.sub(a, l // b * b, w, F)
            if b & (b - 1) == 0: return T.bitop('and', a, b - 1, w, F)
        if op == 'udiv' and isinstance(b, int) and b and not isinstance(a, int) and a[0] == 'L':
            # (k*b*t + c) / b
            c, d = T.lin(a)
            if all(k % b == 0 for k in d.values()) and c >= 0 and T.rng(a, F)[0] >= 0: return T.mklin(c // b, {t: k // b for t, k in d.items()})
        return T.op(op, w, a, b)
    # ---- branches ------------------------------------------------------------------------------------------
    def icmp(self, st, I):
        a = self.val(st, I['a'][0]); b = self.val(st, I['a'][1]); w = tw(I['cty'])
        p = I['pred']
        if p not in T.INV: return T.fresh(1, 'fcmp')
        return ('cmp', p, a, b, w)
    def fork_bool(self, st, c, I):
        """-> [(state, bool)] feasible"""
        if isinstance(c, int): return [(st, bool(c & 1))]
        if c[0] == 'U':
            self.bad(st, 'uninit-branch', I, f'decision on a value that was never set ({c[1]})', str(c[1]))
            return [(st.copy(), True), (st, False)]
        if c[0] == 'cmp': return self.fork_cmp(st, c[1], c[2], c[3], c[4], I)
        if c[0] == 'P' or c[0] == 'F': return [(st, True)]
        return self.fork_cmp(st, 'ne', c, 0, 1 if T.width(c) == 1 else T.width(c), I)
    def branch(self, st, c, I): return self.fork_bool(st, c, I)
    def fork_cmp(self, st, p, a, b, w, I):
        a = self.nrm(st, a); b = self.nrm(st, b)
        for x in (a, b):
            if not isinstance(x, int) and x[0] == 'cmp':       # comparison of a boolean
                o = b if x is a else a
                r = []
                for s, v in self.fork_bool(st, x, I):
                    xv = 1 if v else 0
                    r += self.fork_cmp(s, p, xv if x is a else a, xv if x is b else b, w, I)
                return r
        for x in (a, b):
            if not isinstance(x, int) and x[0] == 'U':
                self.bad(st, 'uninit-branch', I, f'decision on a value that was never set ({x[1]})', str(x[1]))
                return [(st.copy(), True), (st, False)]
        pa = not isinstance(a, int) and a[0] == 'P'; pb = not isinstance(b, int) and b[0] == 'P'
        if pa or pb:
            if not pa: a, b, pa, pb, p = b, a, pb, pa, T.SWAP[p]
            if b == 0 and p in ('eq', 'ne'):
                m = st.maybe.get(a[1])
                if m == 'maybe':
                    s2 = st.copy(); s2.maybe[a[1]] = 'null'; st.maybe[a[1]] = 'no'
                    self.nullhook(s2, a[1])
                    return [(st, p == 'ne'), (s2, p == 'eq')]
                return [(st, p == 'ne')]
            if pb and a[1] is b[1]:
                return self.fork_cmp(st, p, T.add(0, a[2] if not isinstance(a[2], int) else a[2] & T.mask(64), 64, st.F), b[2] if not isinstance(b[2], int) else b[2] & T.mask(64), 64, I)
            if pb and p in ('eq', 'ne') and (a[1].kind not in ('ext',) or b[1].kind not in ('ext',)): return [(st, p == 'ne')]
            if isinstance(b, int) and p in ('eq', 'ne'): return [(st, p == 'ne')]
        if not isinstance(a, int) and a[0] == 'F' or not isinstance(b, int) and b[0] == 'F':
            if p in ('eq', 'ne'):
                if a == b: return [(st, p == 'eq')]
                if (isinstance(a, int) or a[0] == 'F') and (isinstance(b, int) or b[0] == 'F'): return [(st, p == 'ne')]
        d = T.decide(p, a, b, w, st.F) if not (pa or pb) else None
        if d is not None: return [(st, d)]
        k = (p, a, b); q = st.preds.get(k)
        if q is None:
            q = st.preds.get((T.INV[p], a, b)); q = (not q) if q is not None else None
        if q is None: q = st.preds.get((T.SWAP[p], b, a))
        if q is not None: return [(st, q)]
        s2 = st.copy(); r = []
        for s, pr, v in ((st, p, True), (s2, T.INV[p], False)):
            if pa or pb or T.assume(pr, a, b, w, s.F):
                s.preds[k] = v
                s.trail = (I.get('line'), v, s.trail)
                r.append((s, v))
        return r
    def nullhook(self, st, o): pass
    def switch(self, st, I):
        c = self.val(st, I['cond'])
        if isinstance(c, int):
            for v, b in I['cases']:
                if v == c: return [(st, b)]
            return [(st, I['def'])]
        if c[0] == 'U':
            self.bad(st, 'uninit-branch', I, f'decision on a value that was never set ({c[1]})', str(c[1]))
            c = T.fresh(32, 'uninit')
        if c[0] == 'cmp':
            r = []
            for s, v in self.fork_bool(st, c, I):
                t = I['def']
                for cv, b in I['cases']:
                    if cv == (1 if v else 0): t = b
                r.append((s, t))
            return r
        r = []; w = T.width(c) if c[0] not in 'LP' else 32
        cur = st
        for v, b in I['cases']:
            if T.decide('eq', c, v, 64, cur.F) is False: continue
            s = cur.copy()
            if T.assume('eq', c, v, 64, s.F): s.trail = (I.get('line'), v, s.trail); r.append((s, b))
            if not T.assume('ne', c, v, 64, cur.F): cur = None; break
        if cur is not None: r.append((cur, I['def']))
        return r
    # ---- calls ---------------------------------------------------------------------------------------------
    def docall(self, st, I):
        args = [self.val(st, a) for a in I['args']]
        n = I.get('callee')
        if n is None:
            f = self.val(st, I['fp'])
            if not isinstance(f, int) and f[0] == 'F': n = f[1]
            else:
                h = self.h.get('*fp')
                if h: return h(self, st, I, [f] + args)
                if isinstance(f, int): self.bad(st, 'null-call', I, 'call through a null function pointer'); raise PathEnd()
                return [(st, T.fresh(64, 'ret'))]
        if n in self.h: return self.h[n](self, st, I, args)
        if n.startswith('llvm.'): return self.intrinsic(st, n, I, args)
        if n in self.u.fns: return self.call(st, n, args)
        raise AnalysisBroken(f'{self.u.src}: call to {n} at line {I.get("line")} is not modelled')
    def intrinsic(self, st, n, I, a):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'): self.copymem(st, a[0], a[1], a[2], I); return [(st, a[0])]
        if n.startswith('llvm.memset'):
            o, off = self.ptr(st, a[0], I, 'memset'); sz = a[2]
            if isinstance(sz, int) and isinstance(off, int):
                if sz: self.bounds(st, o, off, sz, I, 'memset')
                c = st.wcells(o)
                for k in list(c):
                    if off <= k < off + sz: del c[k]
                if isinstance(a[1], int) and a[1] == 0:
                    if off == 0 and sz == o.size: st.cl[('zero', o)] = True
                    else:
                        for k in range(off, off + sz): c[k] = (0, 1)
                else:
                    for k in range(off, off + min(sz, 4096)): c[k] = (a[1], 1)
            return [(st, a[0])]
        if n.startswith('llvm.bswap'):
            w = tw(I['ty']); b = T.to_bits(a[0], w, st.F); r = []
            for i in range(w // 8 - 1, -1, -1): r += b[i * 8:i * 8 + 8]
            return [(st, T.from_bits(r, st.F))]
        if n.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            w = tw(I['ty']); r = []
            p = {'llvm.smax': 'sgt', 'llvm.smin': 'slt', 'llvm.umax': 'ugt', 'llvm.umin': 'ult'}[n[:9]]
            return [(s, a[0] if v else a[1]) for s, v in self.fork_cmp(st, p, a[0], a[1], w, I)]
        return [(st, T.fresh(64, n))]

def tw(ty):
    if ty.startswith('i') and ty[1:].isdigit(): return int(ty[1:])
    return 64
def flatten(g):
    """initialiser -> {offset: (value, size)} using the IR type string and debug type"""
    d = {}
    init = g.get('init')
    def go(x, off, ty):
        if isinstance(ty, list):       # array of (elem ty, n, elem size)
            _, el, n, es = ty
            if isinstance(x, dict) and 'zero' in x: return
            for i, y in enumerate(x): go(y, off + i * es, el)
        elif isinstance(x, list):
            # struct: natural alignment of int/ptr members
            o = off
            for y in x: d[o] = (y, 4); o += 4
        elif isinstance(x, dict) and 'zero' in x: return
        else: d[off] = (x, ty)
    import re
    t = g['type']
    def parse(t, size):
        m = re.match(r'^\[(\d+) x (.*)\]$', t)
        if m:
            n = int(m.group(1)); es = size // n if n else 0
            return ['a', parse(m.group(2), es), n, es]
        m = re.match(r'^i(\d+)$', t)
        if m: return max(1, int(m.group(1)) // 8)
        if t == 'ptr': return 8
        return size
    go(init, 0, parse(t, g['size']))
    if isinstance(init, dict) and 'zero' in init: return d
    return d
