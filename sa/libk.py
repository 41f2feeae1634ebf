"""The table compiler (src/bsdconv-mktable.c) interpreted over described table sources; the file it writes, byte by byte."""
from . import ir, terms as T
from .ir import AnalysisBroken
from .absint import P, PathEnd
from .lib import Lib, H
from . import life as L, libc
import os
HDR = os.path.join(ir.VERIF, 'tool', 'inc', 'byteorder.h')
KH = {k: v for k, v in H.items() if k.startswith('str') or k in ('malloc', 'calloc', 'free', 'realloc', 'memcpy', 'memset', 'memcmp', '__errno_location', 'sprintf')}
libc.into(KH, ('memcmp', 'bcmp'))
def hh(*n):
    def d(f):
        for x in n: KH[x] = f
        return f
    return d
if 'memset' in L.H: KH['memset'] = L.H['memset']
@hh('fopen')
def _fopen(m, st, I, a):
    md = (L.lit(m, a[1]) or b'?').decode(); o = m.new(st, 'file', None, 'source' if md[0] == 'r' else 'table'); st.cl[('pos', o)] = 0
    if md[0] != 'r': st.cl['outfile'] = o
    return [(st, P(o))]
@hh('fclose')
def _fclose(m, st, I, a): o, _ = m.ptr(st, a[0], I, 'close'); st.st[o] = 'freed'; return [(st, 0)]
@hh('fgets')
def _fgets(m, st, I, a):
    l = m.life; d, off = m.ptr(st, a[0], I, 'line read'); k = st.cl.get('line', 0)
    if k >= len(l.lines): return [(st, 0)]
    st.cl['line'] = k + 1; s = l.lines[k] + '\n'
    m.bounds(st, d, off, len(s) + 1, I, 'line read')
    for i, c in enumerate(s + '\0'): m.wr(st, d, off + i, 1, l.digit(st, c) if 'G' <= c <= 'Z' and not s.startswith('#') else ord(c))
    return [(st, a[0])]
@hh('fseek')
def _fseek(m, st, I, a):
    o, _ = m.ptr(st, a[0], I, 'seek')
    if not isinstance(a[1], int) or a[2] != 0: raise AnalysisBroken(f'fseek at {m.where(I)}: place unknown')
    st.cl[('pos', o)] = a[1]; return [(st, 0)]
def put(m, st, I, o, off, v, sz):
    st.cl['out'] = st.cl.get('out') or {}
    st.cl['out'][off] = (v, sz, m.where(I))
@hh('fputc', 'putc')
def _fputc(m, st, I, a):
    o, _ = m.ptr(st, a[1], I, 'write'); p = st.cl[('pos', o)]; put(m, st, I, o, p, T.trunc(a[0], 8, st.F) if not isinstance(a[0], int) else a[0] & 255, 1); st.cl[('pos', o)] = p + 1; return [(st, a[0])]
@hh('fwrite')
def _fwrite(m, st, I, a):
    o, _ = m.ptr(st, a[3], I, 'write'); s, off = m.ptr(st, a[0], I, 'copy from'); n = a[1] * a[2] if isinstance(a[1], int) and isinstance(a[2], int) else None
    if n is None: raise AnalysisBroken(f'fwrite at {m.where(I)}: size unknown')
    if n: m.bounds(st, s, off, n, I, 'copy from')
    p = st.cl[('pos', o)]; c = st.mem.get(s) or {}; i = 0
    while i < n:
        e = c.get(off + i)
        if e is not None and e[1] <= n - i: put(m, st, I, o, p + i, e[0], e[1]); i += e[1]; continue
        v = m.rd(st, s, off + i, 1); put(m, st, I, o, p + i, v, 1); i += 1
    st.cl[('pos', o)] = p + n; return [(st, a[2])]
@hh('printf', 'puts', 'fprintf', 'perror')
def _nop(m, st, I, a): return [(st, 0)]
@hh('exit')
def _exit(m, st, I, a): raise PathEnd()
def swap(n):
    def f(m, st, I, a): return [(st, T.op(n, 16 if '16' in n else 32, a[0]))]
    return f
KH['sa_htole16'] = swap('le16'); KH['sa_htole32'] = swap('le32')
class Mk(Lib):
    def __init__(self):
        super().__init__(); self.u = ir.load_unit('src/bsdconv-mktable.c', ('-include', HDR, '-Wno-int-conversion')); self.cb = 'mktable'
    def digit(self, st, c):
        """a digit of the source that stands for any of A..F"""
        v = self.digs.get(c)
        if v is None: v = self.digs[c] = T.fresh(8, f"digit '{c}'")
        st.F.rg[v] = (0x41, 0x46); return v
    def byte(self, s):
        if not 'G' <= s[0] <= 'Z': return int(s, 16)
        F = self.last.F; n = [self.nib[self.digs[c]] for c in s]
        return T.add(T.mul(n[0], 16, 32, F), n[1], 32, F)
    def rdsym(self, st, o, off, sz, ins):
        if o.kind == 'glob' and sz == 1 and o.name.strip('@') == 'table':
            c, d = T.lin(off)
            if c == 0 and len(d) == 1:
                k, f = next(iter(d.items()))
                if f == 1 and k in self.nib0:
                    v = self.nib[k]; st.F.rg[v] = (10, 15); return v
        e = (st.mem.get(o) or {}).get(off)
        if e is not None and e[1] == sz: return e[0]
        if st.cl.get(('zero', o)): return 0
        return self.rdsym0(st, o, off, sz, ins)
    def wrsym(self, st, o, off, sz, v):
        if isinstance(off, int) or not st.cl.get(('zero', o)): return self.wr0(st, o, off, sz, v)
        st.wcells(o)[off] = (v, sz)
    def compile(self, lines, ctx):
        self.digs = {c: T.fresh(8, f"digit '{c}'") for s in lines for c in s if 'G' <= c <= 'Z'}; self.nib = {v: T.fresh(8, 'value of ' + c) for c, v in self.digs.items()}; self.nib0 = set(self.nib)
        self.lines = lines; m = self.reset(KH, 1 << 40); m.maxvisit = 1 << 30; m.maxfork = 1 << 30
        self.rdsym0 = m.rdsym; self.wr0 = m.wr; m.rdsym = self.rdsym; m.wr = self.wrsym
        m.joinb = {fn: set() for fn in self.u.fns}       # one path: nothing to merge
        st = self.state(); v = m.new(st, 'argvec', 32, 'argv')
        for i, s in enumerate(('mktable', 'in', 'out')): m.wr(st, v, 8 * i, 8, self.string(st, s, f'argv[{i}]'))
        rs = self.go(st, 'main', [3, P(v)], ctx)
        if not rs and self.viol: return None
        if len(rs) != 1: raise AnalysisBroken(f'mktable ({ctx}): {len(rs)} paths')
        self.last = rs[0][0]; return self.last.cl.get('out', {})

# ---- the worlds: shapes of table sources --------------------------------------------------------------------------------
# keys are given bytes ('*' any, ',' end of a unit, leading '!' any case); output digits G..Z stand for any hexadecimal digit
# A..F each (different letters for different bytes), so that a statement about a shape holds for every choice of data.
SHAPES = [
    ('one key', ['61\t01GG']), ('two keys', ['61\t01GG', '7F\t01HH']), ('the ends of the byte range', ['00\t01GG', 'FF\t01HH']),
    ('same data twice', ['61\t01GG', '62\t01GG']), ('data sharing its end', ['61\tHHGG', '62\tIIGG', '63\tGG']), ('data that is the end of other data', ['63\tGG', '61\tHHGG', '62\tIIHHGG']),
    ('data of several units', ['61\t01GG,01HH', '62\t01GG', '63\t01HH', '64\tKK,01GG,01HH']), ('several units sharing their ends', ['61\tGG,HH,II', '62\tHH,II', '63\tII', '64\tGG']),
    ('the same data in units and in one', ['61\tGG,HH', '62\tGGHH']), ('a unit twice', ['61\tGG,GG', '62\tGG']),
    ('longer key', ['6162\t01GG']), ('prefix first', ['61\t01GG', '6162\t01HH']), ('prefix last', ['6162\t01HH', '61\t01GG']), ('prefix in the middle', ['6162\t01HH', '61\t01GG', '6163\t01II']),
    ('three lengths', ['61\t01GG', '6162\t01HH', '616263\t01II', '6170\t01GG']), ('branches', ['6162\tGG', '6180\tHH', '9062\tII', '9080\tKK']),
    ('units', ['0161,\t01GG', '0161,0162,\t01HH']), ('unit ends inside', ['0161,0162,\t01HH', '0161,\t01GG', '0163,\t01II']),
    ('callback', ['61\t?']), ('callback with data', ['61\t?GG', '62\t?HH', '63\t?GG']), ('callback and plain key', ['61\t?', '62\t01GG']),
    ('any byte', ['*\t01GG']), ('any byte to a callback', ['*\t?']), ('any byte last', ['61\t01GG', '*\t?']), ('any byte first', ['*\t?', '61\t01GG']),
    ('any byte first, longer key', ['*\t?', '6162\t01GG']), ('any byte last, longer key', ['6162\t01GG', '*\t?']), ('any byte first, longer and shorter key', ['*\t?', '6162\t01HH', '61\t01GG']),
    ('any byte inside', ['61*\t?GG', '62*63\t01HH']), ('two any bytes', ['61**\t?', '616263\t01GG']), ('callback over a prefix', ['6162\t01GG', '61\t?HH']), ('prefix under a callback', ['61\t?HH', '6162\t01GG']),
    ('repeated key', ['61\t01GG', '61\t01HH']), ('repeated key after a longer one', ['61\t01GG', '6162\t01II', '61\t01HH']),
    ('any case', ['!2662\t01GG']), ('any case, exact one wins', ['!2642\t01GG', '!2662\t01HH']), ('any case, exact one first', ['!2662\t01HH', '!2642\t01GG']), ('any case, longer', ['!62\t01GG', '!6263\t01HH']),
    ('any case, written in capitals', ['!2641\t01GG', '!5A61\t01HH']), ('any case, next to the letters', ['!5B\t01GG', '!40\t01HH', '!7B\t01II', '!60\t01KK']), ('any case, ends of the alphabet', ['!7A5A\t01GG', '!6141\t01HH']),
    ('comment and spaces', ['#61\t01II', '61 \t 01GG # note', '62\t01HH#note', '#'])]
def parse(lines):
    r = []
    for s in lines:
        if s.startswith('#'): continue
        f = s.replace('\t', ' ').split(); k, o = f[0], f[1].split('#')[0]; ci = k.startswith('!'); k = k.lstrip('!'); key = []; i = 0
        while i < len(k):
            if k[i] == '*': key.append('*'); i += 1
            elif k[i] == ',': key.append(256); i += 1
            else: key.append(int(k[i:i + 2], 16)); i += 2
        cb = o.startswith('?'); o = o.lstrip('?'); r.append((ci, key, cb, o.split(',') if o else []))
    return r
def fold(c): return c + 32 if 65 <= c <= 90 else c - 32 if 97 <= c <= 122 else None
def match(ci, b, c):
    """how well the byte c fits the place b of a key: None, 0 (other case), 1"""
    if b == '*' or b == c: return 1
    if ci and b != 256 and fold(c) == b: return 0
    return None
def check(l, name, lines, out, order):
    u = l.u; S = {m['name']: (m['off'], m['size']) for m in u.structs['state_st']['members']}; D = {m['name']: (m['off'], m['size']) for m in u.structs['data_st']['members']}
    bad = lambda key, msg: l.add('C23', key, f'table of shape "{name}": {msg}')
    code = {n: u.enums[n] for n in ('CONTINUE', 'DEADEND', 'MATCH', 'SUBMATCH', 'SUBROUTINE', 'SUBMATCH_SUBROUTINE')}; names = {v: k for k, v in code.items()}
    for off, (v, sz, w) in sorted(out.items()):
        if not isinstance(v, int) and v[0] == 'U': return bad(f'uninit:{v[1]}', f'{w} writes bytes that were never set ({v[1]}) at offset {off} of the compiled table')
    def get(off, sz, fld):
        l.cov['obligations'] += 1
        e = out.get(off)
        if e is None or e[1] != sz:
            if e is None and not any(o < off + sz and off < o + x[1] for o, x in out.items()): bad('hole', f'the {fld} at offset {off} is not in the file'); raise KeyError
            bad('overlap', f'the {fld} at offset {off} is overlaid by something else'); raise KeyError
        v = e[0]; k = order.get(fld)
        if isinstance(v, int):
            if k in ('le32', 'le16') and v != 0: bad('order', f'{e[2]} writes {fld} in host byte order, readers expect it little-endian'); raise KeyError
            return v
        if v[0] == 'O' and v[1] in ('le32', 'le16'):
            if k is not None and k != v[1]: bad('order', f'{e[2]} writes {fld} through {v[1]}, readers use it {k}'); raise KeyError
            return v[3][0]
        return v
    ents = parse(lines); seen = {}
    def state(off, alive, depth, path):
        """alive: (entry, level) pairs whose key agrees with the path so far"""
        key = (off, tuple(alive), depth)
        if key in seen: return
        seen[key] = 1
        end = [(e, lv) for e, lv in alive if len(ents[e][1]) == depth]; more = [(e, lv) for e, lv in alive if len(ents[e][1]) > depth]
        ok = [x for x in end if not ents[x[0]][2]] or end
        best = max(ok, key=lambda x: (x[1], -x[0])) if ok else None
        cb = best is not None and ents[best[0]][2]
        want = 'DEADEND' if depth == 0 else 'CONTINUE' if best is None else (('SUBMATCH_SUBROUTINE' if cb else 'SUBMATCH') if more else ('SUBROUTINE' if cb else 'MATCH'))
        got = get(off + S['status'][0], 1, 'state_st.status')
        p = ' '.join('end of unit' if x == 256 else f'{x:02X}' for x in path) or 'the start'
        if names.get(got, got) != want: bad(f'status:{want}', f'after {p} the state is {names.get(got, got)} instead of {want}'); return
        d = get(off + S['data'][0], 4, 'state_st.data')
        if best is not None:
            i = 0
            for unit in ents[best[0]][3]:
                if not isinstance(d, int) or d == 0: bad('data-short', f'after {p} the data end after {i} units of {len(ents[best[0]][3])}'); return
                n = get(d + D['len'][0], D['len'][1], 'data_st.len'); x = get(d + D['data'][0], 4, 'data_st.data')
                if n != len(unit) // 2: bad('data-len', f'after {p} unit {i + 1} of the data has {n} bytes instead of {len(unit) // 2}'); return
                for j in range(n):
                    v = get(x + j, 1, 'data byte'); w = l.byte(unit[2 * j:2 * j + 2])
                    if v != w and T.deq(v, w, 8, l.last.F) is not True: bad('data-byte', f'after {p} byte {j + 1} of unit {i + 1} of the data is not the one of the source'); return
                d = get(d + D['next'][0], 4, 'data_st.next'); i += 1
            if d != 0 and ents[best[0]][3]: bad('data-long', f'after {p} the data go on after the {i} units of the source'); return
            if d != 0 and not ents[best[0]][3]: bad('data-none', f'after {p} there are data although the source gives none'); return
        base = get(off + S['base'][0], 4, 'state_st.base'); b = get(off + S['beg'][0], 2, 'state_st.beg'); e = get(off + S['end'][0], 2, 'state_st.end')
        for c in range(257):
            nx = [(x, lv + match(ents[x][0], ents[x][1][depth], c)) for x, lv in more if match(ents[x][0], ents[x][1][depth], c) is not None]
            t = get(base + 4 * (c - b), 4, 'successor word') if base and b <= c < e else 0
            if bool(t) != bool(nx): bad('missing' if nx else 'extra', f'after {p} the table {"does not go on" if nx else "goes on"} with {"end of unit" if c == 256 else f"{c:02X}"}'); return
            if nx: state(t, nx, depth + 1, path + (c,))
    try: state(0, [(i, 0) for i in range(len(ents))], 0, ())
    except KeyError: pass
def readers():
    """field -> how the library reads it"""
    from . import order
    r = {}
    for k, v in order.Flow('src/libbsdconv.c').use.items():
        ks = {x[0] for x in v}; r[k] = next((x for x in sorted(ks) if x.startswith('le')), 'as it is')
    return r
SLOW = ['two any bytes', 'any byte inside']       # first, so that they do not share a world with each other
def run(l, part, of):
    order = readers(); sh = sorted(SHAPES, key=lambda s: SLOW.index(s[0]) if s[0] in SLOW else len(SLOW)); lost = []
    for name, lines in sh[part::of]:
        try:
            out = l.compile(lines, f'table of shape "{name}"')
            if out is not None: check(l, name, lines, out, order)
        except AnalysisBroken as e: lost.append(str(e))
    if lost: raise AnalysisBroken(f'{len(lost)} shapes: {lost[0]}')
