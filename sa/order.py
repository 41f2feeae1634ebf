"""Byte order, width and definite assignment of compiled-table fields.

A flow-insensitive value-flow analysis of the typed IR (front-end output, field accesses keep their record type) of the table
compiler, the library, every codec and the debugger. The byte-order helpers are made visible as calls by tool/inc/byteorder.h.
For every field of the on-disk records and for the words of successor tables it collects how writers fill it (through which
helper) and how readers use it (through which helper, or as it is); all of them must agree."""
from . import ir
from .ir import AnalysisBroken
from .libk import HDR
DISK = ('%struct.data_st', '%struct.state_st')
ENC = {'sa_htole32': 'le32', 'sa_htole16': 'le16'}; DEC = {'sa_le32toh': 'le32', 'sa_le16toh': 'le16'}
CAST = ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze')
class Flow:
    def __init__(self, rel):
        self.rel = rel; self.u = u = ir.load_unit(rel, ('-include', HDR, '-Wno-int-conversion'), typed=True)
        self.use = {}       # field -> {(kind, where)}: readers
        self.twice = set()  # values already in host order handed to a helper once more
        self.fill = {}      # field -> {(kind, where)}: writers
        self.names = {}
        for s in DISK:
            for m in (u.structs.get(s[8:]) or {}).get('members', ()): self.names[(s, m['off'])] = (s[8:] + '.' + m['name'], m['size'])
        c = u.structs.get('bsdconv_codec'); self.zoff = {m['off'] for m in c['members'] if m['name'] in ('z', 'data_z')} if c else set()
        self.ins = {}
        for fn, f in u.fns.items():
            for b in f['bbs']:
                for I in b['ins']: self.ins[(fn, I['id'])] = I
        self.lab = {}; self.solve(); self.writers()
    def node(self, fn, o):
        if o['k'] == 'i': return (fn, 'i', o['n'])
        if o['k'] == 'arg': return (fn, 'a', o['n'])
        if o['k'] == 'cexpr_p2i': return self.node(fn, o['a'])
        return None
    def root(self, fn, o, deep=0):
        """the local or global an address lies in"""
        if o['k'] == 'glob': return ('g', o['n'])
        if o['k'] != 'i' or deep > 20: return None
        I = self.ins[(fn, o['n'])]
        if I['op'] == 'alloca': return ('l', fn, I['id'])
        if I['op'] == 'getelementptr': return self.root(fn, I['base'], deep + 1)
        if I['op'] in ('bitcast',): return self.root(fn, I['a'][0], deep + 1)
        return None
    def rtype(self, r):
        if r is None: return None
        if r[0] == 'g': return (self.u.globals.get(r[1]) or {}).get('type')
        return self.ins[(r[1], r[2])].get('aty')
    def place(self, fn, o):
        """(record type, offset) an address denotes, when it is a field"""
        if o['k'] == 'glob':
            t = self.rtype(('g', o['n'])); return (t, o.get('off', 0)) if t and t.startswith('%struct.') else None
        if o['k'] != 'i': return None
        I = self.ins[(fn, o['n'])]
        if I['op'] == 'getelementptr' and I['sty'].startswith('%struct.'): return (I['sty'], I['off'])
        if I['op'] == 'alloca' and I.get('aty') in DISK: return (I['aty'], 0)
        if I['op'] == 'bitcast': return self.place(fn, I['a'][0])
        return None
    def get(self, n): return self.lab.get(n, frozenset()) if n else frozenset()
    def add(self, n, s):
        if n is None or not s: return
        o = self.lab.get(n, frozenset())
        if not s <= o: self.lab[n] = o | s; self.ch = True
    def solve(self):
        for it in range(60):
            self.ch = False
            for (fn, i), I in self.ins.items(): self.flow(fn, I)
            if not self.ch: break
        else: raise AnalysisBroken(f'{self.rel}: the value flow does not settle')
        for (fn, i), I in self.ins.items(): self.sink(fn, I)
    def flow(self, fn, I):
        op = I['op']; me = (fn, 'i', I['id']); g = lambda o: self.get(self.node(fn, o))
        if op == 'load':
            p = I['a'][0]; pl = self.place(fn, p)
            if pl and pl[0] in DISK:
                if self.names.get(pl, ('', 1))[1] > 1: self.add(me, frozenset({('D',) + pl}))
                return
            if pl and pl[0] == '%struct.bsdconv_codec' and pl[1] in self.zoff: self.add(me, frozenset({('Z',)})); return
            if pl: self.add(me, self.get(('f',) + pl))
            r = self.root(fn, p)
            if r: self.add(me, self.get(('m', r)))
            if ('Z',) in g(p) and I['sz'] > 1: self.add(me, frozenset({('S',)}))
        elif op == 'store':
            r = self.root(fn, I['a'][1])
            pl = self.place(fn, I['a'][1])
            if r and not pl: self.add(('m', r), g(I['a'][0]))
            if pl and pl[0] not in DISK: self.add(('f',) + pl, g(I['a'][0]) & {('H',)})
        elif op == 'phi':
            for b, v in I['inc']: self.add(me, g(v))
        elif op == 'select':
            for v in I['a'][1:]: self.add(me, g(v))
        elif op in CAST: self.add(me, g(I['a'][0]))
        elif op == 'getelementptr': self.add(me, g(I['base']) & {('Z',)})
        elif op in ('add', 'sub'):
            for v in I['a']: self.add(me, g(v) & {('Z',)})
        elif op == 'call':
            c = I.get('callee')
            if c in DEC: self.add(me, frozenset({('H',)})); return
            if c in ENC: return
            if c and c.startswith('llvm.memcpy'):
                d, s, n = I['args'][:3]; r = self.root(fn, d); t = self.rtype(r)
                if ('Z',) in g(s) and r and t not in DISK and not (t or '').startswith('%struct.') and n.get('v') in (2, 4, 8) and not self.place(fn, d): self.add(('m', r), frozenset({('S',)}))
                rs = self.root(fn, s)
                if r and rs and not self.place(fn, d): self.add(('m', r), self.get(('m', rs)))
            elif c in self.u.fns:
                for k, a in enumerate(I['args']): self.add((c, 'a', k), g(a))
                self.add(me, self.get(('ret', c)))
        elif op == 'ret' and I['a']: self.add(('ret', fn), g(I['a'][0]))
    def sink(self, fn, I):
        op = I['op']
        def raw(o, what):
            for l in self.get(self.node(fn, o)):
                if l[0] in 'DS': self.note(self.use, l, 'as it is', I, what)
        if op == 'getelementptr':
            if not I['sty'].startswith('%struct.'): raw(I['base'], 'address')
            for v, s in I['var']: raw(v, 'address')
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            for v in I['a']: raw(v, 'arithmetic')
        elif op == 'icmp':
            for a, b in (I['a'], I['a'][::-1]):
                if not (b['k'] in ('null', 'zero') or (b['k'] == 'int' and b['v'] == 0)): raw(a, 'comparison')
        elif op == 'switch': raw(I['cond'], 'comparison')
        elif op == 'store':
            r = self.root(fn, I['a'][1]); pl = self.place(fn, I['a'][1])
            if (r is None or pl) and not (pl and pl[0] in DISK): raw(I['a'][0], 'stored')
        elif op == 'load': raw(I['a'][0], 'address')
        elif op == 'call':
            c = I.get('callee')
            if c in DEC:
                ls = self.get(self.node(fn, I['args'][0]))
                if ('H',) in ls and not any(l[0] in 'DS' for l in ls): self.twice.add((f'{I.get("file", self.rel)}:{I.get("line")}', fn, DEC[c]))
                for l in ls:
                    if l[0] in 'DS': self.note(self.use, l, DEC[c], I, 'read')
            elif c in ENC or (c and c.startswith('llvm.')) or c in self.u.fns: pass
            else:
                for a in I['args']: raw(a, f'argument of {c}')
    def note(self, d, l, kind, I, what):
        n = self.names.get(l[1:], ('?',))[0] if l[0] == 'D' else 'successor word'
        d.setdefault(n, set()).add((kind, f'{I.get("file", self.rel)}:{I.get("line")}', I.get('fn') or '?', what))
    # ---- writers -------------------------------------------------------------------------------------------
    def origin(self, fn, o, seen):
        if o['k'] in ('null', 'zero') or (o['k'] == 'int' and o['v'] == 0): return {'zero'}
        if o['k'] != 'i': return {'as it is'}
        k = (fn, o['n'])
        if k in seen: return set()
        seen.add(k); I = self.ins[k]; op = I['op']
        if op in CAST: return self.origin(fn, I['a'][0], seen)
        if op == 'phi': return set().union(*[self.origin(fn, v, seen) for b, v in I['inc']])
        if op == 'select': return self.origin(fn, I['a'][1], seen) | self.origin(fn, I['a'][2], seen)
        if op == 'call' and I.get('callee') in ENC: return {ENC[I['callee']]}
        if op == 'call' and I.get('callee') in self.u.fns:
            c = I['callee']; r = set()
            for (f2, i), J in self.ins.items():
                if f2 == c and J['op'] == 'ret' and J['a']: r |= self.origin(c, J['a'][0], seen)
            return r
        if op == 'load':
            r = self.root(fn, I['a'][0]); pl = self.place(fn, I['a'][0])
            if r and r[0] == 'l' and not pl:
                s = set()
                for (f2, i), J in self.ins.items():
                    if J['op'] == 'store' and f2 == fn and self.root(f2, J['a'][1]) == r: s |= self.origin(f2, J['a'][0], seen) if J['a'][0]['k'] != 'arg' else {'as it is'}
                return s or {'as it is'}
        return {'as it is'}
    def writers(self):
        words = set()
        for (fn, i), I in self.ins.items():
            if I['op'] == 'call' and I.get('callee') in ('fwrite', 'write', 'fwrite_unlocked'):
                a = I['args'][0 if I['callee'] != 'write' else 1]; r = self.root(fn, a); t = self.rtype(r)
                if r and t and t not in DISK and (t.startswith('[') and ('i32' in t or 'i16' in t)): words.add(r)
        for (fn, i), I in self.ins.items():
            if I['op'] != 'store': continue
            pl = self.place(fn, I['a'][1]); l = None
            if pl and pl[0] in DISK and self.names.get(pl, ('', 1))[1] > 1: l = ('D',) + pl
            elif self.root(fn, I['a'][1]) in words: l = ('S',)
            if l:
                for k in self.origin(fn, I['a'][0], set()): self.note(self.fill, l, k, I, 'written')
