"""Typestate and resource analysis of the library itself (src/libbsdconv*.c).

Every public call is interpreted abstractly (sa/absint.py) from a described world: letters of names are symbols, every call
that can fail is split into success and failure, the functions of the public interface are replaced by their contract when
another one calls them (each contract is what the analysis of that function establishes). On every path the analysis follows
the working directory, every acquired resource, every byte of every string and list it can name."""
import os
from . import ir, terms as T
from .ir import AnalysisBroken
from .absint import Machine, State, P, PathEnd
from . import life as L
from .life import h as _h, ordinal, lit

FROM, INTER, TO, FILTER, SCORER = 1, 2, 3, 4, 5
TYPES = {1: 'FROM', 2: 'INTER', 3: 'TO', 4: 'FILTER', 5: 'SCORER', 0: '_INPUT', 9: '9 (unknown)'}
RES = ('heap', 'fd', 'map', 'dl', 'dir', 'file', 'unit', 'inst')
H = {k: L.H[k] for k in ('malloc', 'calloc', 'free', 'realloc', 'strdup', 'strlen', 'memcpy', 'memcmp') if k in L.H}
def hh(*n):
    def d(f):
        for x in n: H[x] = f
        return f
    return d
class Lib:
    def __init__(self):
        self.u = ir.load_unit('src/libbsdconv.c')
        self.viol = []; self.seen = set(); self.cov = dict(functions=[], worlds=0, paths=0, truncated=0, obligations=0); self.ctx = ''; self.fn = ''
        self.cb = 'library'; self.fixed = set(); self.total = 0
        self.reset()
        o = self.u.off
        self.oi = {f: o('bsdconv_instance', f) for f in ('input', 'output', 'flush', 'phase', 'phasen', 'phase_index', 'hash', 'counter', 'ierr', 'oerr', 'pool', 'output_mode')}
        self.op = {m['name']: m['off'] for m in self.u.structs['bsdconv_phase']['members']}
        self.oc = {m['name']: m['off'] for m in self.u.structs['bsdconv_codec']['members']}
        self.od = {m['name']: m['off'] for m in self.u.structs['data_rt']['members']}
        self.oh = {m['name']: m['off'] for m in self.u.structs['bsdconv_hash_entry']['members']}
        self.on = {m['name']: m['off'] for m in self.u.structs['bsdconv_counter_entry']['members']}
        self.SP = self.u.size('bsdconv_phase'); self.SC = self.u.size('bsdconv_codec'); self.SD = self.u.size('data_rt'); self.SI = self.u.size('bsdconv_instance')
    def reset(self, extra=None, maxsteps=1500000):
        """a fresh machine; extra replaces models (None removes one, so that the function itself is interpreted)"""
        h = dict(H); h.update(extra or {}); h = {k: v for k, v in h.items() if v}
        self.m = m = Machine(self.u, h, maxpaths=40000, maxvisit=400, maxsteps=maxsteps)
        m.life = self; m.report = self.reported; m.maxfork = 400; m.mergeafter = 1 << 30; m.on_store = self.onstore
        m.lazy['argv'] = lambda *a: None
        self.used = {}
        return m
    # ---- reports -------------------------------------------------------------------------------------------
    def add(self, rule, key, msg):
        key = f'{self.fn}:{key}'
        if (rule, key) in self.seen: return
        self.seen.add((rule, key)); self.viol.append((rule, key, msg))
    KIND = {'use-after-free': 'C02', 'bad-release': 'C02', 'double-release': 'C02', 'leak': 'C02', 'null-deref': 'C17', 'maybe-null': 'C17', 'null-call': 'C17',
            'uninit-deref': 'C17', 'uninit-use': 'C17', 'uninit-branch': 'C17', 'uninit-index': 'C17', 'out-of-bounds': 'C21', 'maybe-out-of-bounds': 'C21', 'unbounded-copy': 'C21', 'shared-write': 'C18'}
    rules = {}
    def reported(self, kind, ins, msg, detail, st):
        rule = self.rules.get(kind) or self.KIND.get(kind) or 'C21'
        self.add(rule, f'{ins.get("fn")}:{kind}:{detail}', f'{self.m.where(ins)} ({self.fn}, {self.ctx}): {msg}')
    def onstore(self, st, o, off, sz, v, ins):
        if o.kind in ('str', 'map', 'z', 'dz') or (o.kind == 'glob' and (o.data or {}).get('g', {}).get('const')):
            self.m.bad(st, 'shared-write', ins, f'{o.name} is modified', o.name)
        return False
    # ---- running -------------------------------------------------------------------------------------------
    def go(self, st, fn, args, ctx):
        self.fn = fn; self.ctx = ctx
        if fn not in self.cov['functions']: self.cov['functions'].append(fn)
        self.cov['worlds'] += 1
        s0 = self.m.stats['truncated'] + self.m.stats['bound_hits']
        r = self.m.call(st, fn, args)
        self.cov['paths'] += len(r); self.cov['truncated'] += self.m.stats['truncated'] + self.m.stats['bound_hits'] - s0
        if not r and not self.viol and not getattr(self, 'exits', None): raise AnalysisBroken(f'{fn} ({ctx}): no path reaches the end')
        return r
    def state(self):
        st = State(); st.cl['cwd'] = 'entry'; st.cl['fds'] = (); return st
    # ---- strings -------------------------------------------------------------------------------------------
    def string(self, st, s, name, kind='str'):
        """a caller's string: upper/lower case letters of the template stand for any letter"""
        o = self.m.new(st, kind, len(s) + 1, name)
        for i, c in enumerate(s):
            v = ord(c)
            if c.isalpha(): v = self.letter(st, c)
            self.m.wr(st, o, i, 1, v)
        self.m.wr(st, o, len(s), 1, 0); return P(o)
    syms = {}
    def letter(self, st, c):
        v = self.syms.get(c)
        if v is None: v = self.syms[c] = T.fresh(8, f"letter '{c}'")
        st.F.rg[v] = (0x41, 0x5a) if c.isupper() else (0x61, 0x7a)
        return v
    def read(self, st, p, limit=200):
        """content of a string as template text, or None"""
        if isinstance(p, int) or p[0] != 'P': return None
        o, off = p[1], p[2]; r = ''; inv = {v: k for k, v in self.syms.items()}
        for i in range(limit):
            v = self.m.rd(st, o, off + i, 1)
            if v == 0: return r
            if isinstance(v, int): r += chr(v)
            elif v in inv: r += inv[v]
            else:
                u = [c for c, s in self.syms.items() if T.deq(T.sub(s, 32, 8, st.F), v, 8, st.F) is True]
                r += u[0].upper() if u else '?'
        return r + '...'
    # ---- leaks ---------------------------------------------------------------------------------------------
    def reach(self, st, roots):
        seen = set(); todo = []
        def push(v):
            if isinstance(v, int): return
            if v[0] == 'P' and v[1] not in seen: seen.add(v[1]); todo.append(v[1])
            for s, o in st.cl['fds']:
                if v == s and o not in seen: seen.add(o)
        for r in roots: push(r)
        while todo:
            o = todo.pop()
            if o.kind != 'alloca' and st.st.get(o) == 'freed': continue
            for k, (v, s) in (st.mem.get(o) or {}).items(): push(v)
        return seen
    def leaks(self, st, roots, rule='C02', what='at its return'):
        self.cov['obligations'] += 1
        ok = self.reach(st, roots)
        for o, s in st.st.items():
            if s == 'live' and o.kind in RES and o not in ok and st.maybe.get(o) != 'null':
                self.add(rule, f'leak:{o.kind}:{o.name}', f'{self.fn} ({self.ctx}): {o.name} ({o.kind}) is neither released nor reachable {what} ({self.path(st)})')
    def path(self, st):
        r = []; t = st.trail
        while t and len(r) < 12: r.append(f'{t[0]}:{"T" if t[1] is True else "F" if t[1] is False else t[1]}'); t = t[2]
        ev = [f'{e[0]} {e[1]}' for e in st.log][-8:]
        return 'path ' + (' '.join(ev) if ev else ' '.join(reversed(r)) or 'straight')
    def cwd(self, st):
        self.cov['obligations'] += 1
        if st.cl['cwd'] != 'entry':
            self.add('C01', 'cwd', f'{self.fn} ({self.ctx}): returns with the working directory {st.cl["cwd"]} ({self.path(st)})')
    def done(self, st, roots=()):
        self.leaks(st, list(roots)); self.cwd(st)

def used(m, I):
    """is the result of the call looked at?"""
    t = m.life.used
    fn = I.get('fn')
    if not t:
        for n, f in m.u.fns.items():
            def walk(x):
                if isinstance(x, dict):
                    if x.get('k') == 'i': t.setdefault((f_id, x['n']), True)
                    for y in x.values(): walk(y)
                elif isinstance(x, (list, tuple)):
                    for y in x: walk(y)
            f_id = id(f)
            for b in f['bbs']:
                for x in b['ins']:
                    x['ffid'] = f_id
                    for k, y in x.items():
                        if k != 'id': walk(y)
    return t.get((I.get('ffid'), I['id']), False)
def fork(st): return st.copy(), st
def fail2(m, st, I, what, bad, good):
    """split: the call fails with `bad` or succeeds with good(state)"""
    a, b = fork(st); a.emit(what, 'fails'); b.emit(what, 'succeeds')
    return [(b, good(b)), (a, bad)]

# ---- process environment ----------------------------------------------------------------------------------------------
@hh('getcwd')
def _getcwd(m, st, I, a):
    if a[0] != 0:
        return [(st, a[0])]
    o = m.new(st, 'heap', 4097, 'saved working directory'); st.cl[('cwdof', o)] = st.cl['cwd']; st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {o}
    st.cl[('slen', o)] = (1, 4096); return [(st, P(o))]
@hh('chdir')
def _chdir(m, st, I, a):
    o, off = m.ptr(st, a[0], I, 'directory name read')
    back = st.cl.get(('cwdof', o))
    new = back if back is not None and off == 0 else f'changed at line {I.get("line")}'
    if used(m, I):
        s2, st = fork(st); s2.emit('chdir', 'fails'); st.cl['cwd'] = new
        return [(st, 0), (s2, T.mask(32))]
    st.cl['cwd'] = new; return [(st, 0)]
@hh('getenv')
def _getenv(m, st, I, a):
    k = ('env', lit(m, a[0]))
    if k in st.cl: return [(st, st.cl[k])]
    def good(s):
        o = m.new(s, 'str', None, 'environment value'); s.cl[('slen', o)] = (0, 1 << 20); s.cl[k] = P(o); return P(o)
    r = fail2(m, st, I, 'getenv', 0, good)
    for s, v in r: s.cl[k] = v
    return r
@hh('realpath')
def _realpath(m, st, I, a):
    m.ptr(st, a[0], I, 'path read')
    d, off = m.ptr(st, a[1], I, 'path write')
    m.bounds(st, d, off, 4096, I, 'path write')
    def good(s): s.cl[('slen', d)] = (1, 4095); s.cl['havoc'] = s.cl.get('havoc', frozenset()) | {d}; return a[1]
    return fail2(m, st, I, 'realpath', 0, good)
@hh('fopen')
def _fopen(m, st, I, a):
    m.ptr(st, a[0], I, 'file name read'); return fail2(m, st, I, 'fopen', 0, lambda s: P(m.new(s, 'file', None, ordinal(m, I, 'file'))))
def release(kind):
    def f(m, st, I, a):
        o, off = m.ptr(st, a[0], I, 'release')
        if o.kind != kind: m.bad(st, 'bad-release', I, f'{I.get("callee")} of {o.name}, which is no {kind}', o.name); raise PathEnd()
        st.st[o] = 'freed'; return [(st, 0)]
    return f
H['fclose'] = release('file'); H['closedir'] = release('dir'); H['dlclose'] = release('dl')
@hh('opendir')
def _opendir(m, st, I, a):
    m.ptr(st, a[0], I, 'directory name read'); return fail2(m, st, I, 'opendir', 0, lambda s: P(m.new(s, 'dir', None, 'directory')))
@hh('readdir')
def _readdir(m, st, I, a):
    o, _ = m.ptr(st, a[0], I, 'directory read'); n = st.cl.get('entries', 0)
    if n >= m.life.maxent: return [(st, 0)]
    a_, b = fork(st); b.cl['entries'] = n + 1
    e = b.cl.get('dirent')
    if e is None: e = b.cl['dirent'] = m.new(b, 'ext', m.u.size('dirent') if 'dirent' in m.u.structs else None, 'directory entry')
    return [(b, P(e)), (a_, 0)]
@hh('fgets')
def _fgets(m, st, I, a):
    d, off = m.ptr(st, a[0], I, 'line read'); o, _ = m.ptr(st, a[2], I, 'file read')
    if o.kind != 'file': m.bad(st, 'bad-release', I, 'read from something that is no file', o.name)
    n = a[1]
    if isinstance(n, int): m.bounds(st, d, off, n, I, 'line read')
    k = st.cl.get('lines', 0)
    if k >= m.life.maxlines: return [(st, 0)]
    a_, b = fork(st); b.cl['lines'] = k + 1; b.cl['havoc'] = b.cl.get('havoc', frozenset()) | {d}; b.cl[('slen', d)] = (1, (n - 1) if isinstance(n, int) else 255)
    for x in list(b.wcells(d)): del b.wcells(d)[x]
    return [(b, a[0]), (a_, 0)]
@hh('open')
def _open(m, st, I, a):
    m.ptr(st, a[0], I, 'file name read')
    def good(s):
        f = T.fresh(32, 'descriptor'); s.F.rg[f] = (0, 1 << 20); o = m.new(s, 'fd', None, 'descriptor'); s.cl['fds'] = s.cl['fds'] + ((f, o),); return f
    return fail2(m, st, I, 'open', T.mask(32), good)
@hh('close')
def _close(m, st, I, a):
    for s, o in st.cl['fds']:
        if s == a[0]:
            if st.st[o] == 'freed': m.bad(st, 'double-release', I, 'descriptor is closed twice', 'descriptor')
            st.st[o] = 'freed'; return [(st, 0)]
    m.bad(st, 'bad-release', I, 'close of something that is no open descriptor', 'descriptor'); return [(st, 0)]
@hh('fstat')
def _fstat(m, st, I, a):
    d, off = m.ptr(st, a[1], I, 'status write')
    m.wr(st, d, off + (m.u.off('stat', 'st_size') if 'stat' in m.u.structs else 48), 8, T.fresh(63, 'file size')); st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {d}
    return [(st, 0)]
@hh('mmap')
def _mmap(m, st, I, a):
    def good(s): o = m.new(s, 'map', None, 'mapping'); s.cl[('maplen', o)] = a[1]; return P(o)
    return fail2(m, st, I, 'mmap', T.mask(64), good)
@hh('munmap')
def _munmap(m, st, I, a):
    o, off = m.ptr(st, a[0], I, 'release')
    if o.kind != 'map' or off != 0: m.bad(st, 'bad-release', I, 'munmap of something that is no mapping', o.name)
    elif st.cl.get(('maplen', o)) != a[1]: m.bad(st, 'bad-release', I, 'munmap of a different length than was mapped', o.name)
    st.st[o] = 'freed'; return [(st, 0)]
@hh('dlopen')
def _dlopen(m, st, I, a): m.ptr(st, a[0], I, 'file name read'); return fail2(m, st, I, 'dlopen', 0, lambda s: P(m.new(s, 'dl', None, 'shared object')))
@hh('dlsym')
def _dlsym(m, st, I, a):
    o, _ = m.ptr(st, a[0], I, 'symbol lookup'); n = (lit(m, a[1]) or b'?').decode()
    if o.kind != 'dl': m.bad(st, 'bad-release', I, 'symbol lookup in something that is no shared object', o.name)
    if m.life.symfork: return fail2(m, st, I, 'dlsym ' + n, 0, lambda s: ('F', '@' + n))
    return [(st, ('F', '@' + n))]
@hh('__errno_location')
def _errno(m, st, I, a):
    o = st.cl.get('errno')
    if o is None: o = st.cl['errno'] = m.new(st, 'errno', 4, 'errno'); m.wr(st, o, 0, 4, 0)
    return [(st, P(o))]
@hh('printf', 'qsort', 'puts', 'putchar', 'fprintf', 'perror')
def _nop(m, st, I, a): return [(st, 0)]
@hh('mkstemp')
def _mk(m, st, I, a): m.ptr(st, a[0], I, 'template'); return [(st, T.fresh(32, 'fd'))]
# ---- strings of known shape ------------------------------------------------------------------------------------------
def slen(m, st, o): return st.cl.get(('slen', o))
def chars(m, st, p, I, what='string read'):
    """bytes of the string at p, without the terminator; None when only a length range is known"""
    o, off = m.ptr(st, p, I, what)
    if o.kind == 'glob':
        s = m.gstring(o)
        if s is not None and isinstance(off, int): return list(s[off:])
    if slen(m, st, o): return None
    if o.size is None or not isinstance(off, int): return None
    r = []
    while True:
        if isinstance(o.size, int) and off + len(r) >= o.size:
            m.bad(st, 'out-of-bounds', I, f'{o.name} is read as a string without a terminator', 'string ' + o.name); raise PathEnd()
        v = m.rd(st, o, off + len(r), 1)
        if v == 0: return r
        if not isinstance(v, int) and v[0] == 'U': m.bad(st, 'uninit-use', I, f'{o.name} is read as a string before it was written', 'string ' + o.name); raise PathEnd()
        if not isinstance(v, int) and T.rng(v, st.F)[0] <= 0 and T.deq(v, 0, 8, st.F) is None: return None
        r.append(v)
        if len(r) > 4000: return None
def isch(st, v, c):
    """is the byte v the character c?"""
    return T.deq(v, c, 8, st.F) if not isinstance(v, int) else v == c
@hh('strlen')
def _strlen(m, st, I, a):
    s = chars(m, st, a[0], I)
    if s is not None: return [(st, len(s))]
    n = T.fresh(64, 'length'); o, off = m.ptr(st, a[0], I, 'string read'); lo, hi = slen(m, st, o) or (0, 1 << 20); st.F.rg[n] = (0 if off else lo, hi); st.cl[('len', n)] = o; return [(st, n)]
@hh('strdup')
def _strdup(m, st, I, a):
    s = chars(m, st, a[0], I)
    if s is None:
        o0, off = m.ptr(st, a[0], I, 'string read'); o = m.new(st, 'heap', None, ordinal(m, I, 'string')); st.cl[('slen', o)] = slen(m, st, o0) or (0, 1 << 20)
        st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {o}; return [(st, P(o))]
    o = m.new(st, 'heap', len(s) + 1, ordinal(m, I, 'string'))
    for i, v in enumerate(s): m.wr(st, o, i, 1, v)
    m.wr(st, o, len(s), 1, 0); return [(st, P(o))]
def put(m, st, I, d, off, s, what):
    m.bounds(st, d, off, len(s) + 1, I, what)
    for i, v in enumerate(s): m.wr(st, d, off + i, 1, v)
    m.wr(st, d, off + len(s), 1, 0)
@hh('strcpy')
def _strcpy(m, st, I, a):
    d, off = m.ptr(st, a[0], I, 'string copy'); s = chars(m, st, a[1], I)
    if s is None: longcopy(m, st, I, d, off, (0, 0), m.ptr(st, a[1], I, 'string read')[0]); return [(st, a[0])]
    put(m, st, I, d, off, s, 'string copy'); return [(st, a[0])]
def longcopy(m, st, I, d, off, have, so):
    lo, hi = slen(m, st, so) or (0, 1 << 20); hi += have[1]
    if d.size is not None:
        z = d.size if isinstance(d.size, int) else None
        fits = z is not None and hi + 1 + (off if isinstance(off, int) else 0) <= z
        if z is None:      # allocated from the length of the same string
            c, dd = T.lin(d.size); fits = any(st.cl.get(('len', k)) == so for k in dd) and c >= have[1] + 1
        if not fits: m.bad(st, 'unbounded-copy', I, f'{so.name} (up to {hi} bytes and a terminator) is copied into {d.name} of {d.size if isinstance(d.size, int) else "computed"} bytes', so.name + ' into ' + d.name)
    st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {d}; st.cl[('slen', d)] = (lo + have[0], hi)
@hh('strcat')
def _strcat(m, st, I, a):
    d, off = m.ptr(st, a[0], I, 'string copy'); h0 = slen(m, st, d); s = chars(m, st, a[1], I)
    if h0 is None:
        old = chars(m, st, a[0], I, 'string copy')
        if old is None: raise AnalysisBroken(f'strcat at {m.where(I)}: content of {d.name} unknown')
        if s is None: longcopy(m, st, I, d, off + len(old), (len(old), len(old)), m.ptr(st, a[1], I, 'string read')[0]); return [(st, a[0])]
        put(m, st, I, d, off + len(old), s, 'string copy'); return [(st, a[0])]
    n = len(s) if s is not None else (slen(m, st, m.ptr(st, a[1], I, 'string read')[0]) or (0, 1 << 20))[1]
    if isinstance(d.size, int) and h0[1] + n + 1 > d.size:
        m.bad(st, 'unbounded-copy', I, f'{n} bytes are appended to {d.name}, which can already hold {h0[1]} of its {d.size} bytes', d.name)
    elif d.size is not None and not isinstance(d.size, int):
        c, dd = T.lin(d.size)
        if not (any(st.cl.get(('len', k)) is not None for k in dd) and c >= n + 1 + st.cl.get(('app', d), 0)):
            m.bad(st, 'unbounded-copy', I, f'{n} bytes are appended to {d.name}, which was not allocated for them', d.name)
    st.cl[('slen', d)] = (h0[0] + n, h0[1] + n); st.cl[('app', d)] = st.cl.get(('app', d), 0) + n
    return [(st, a[0])]
@hh('sprintf', '__sprintf_chk')
def _sprintf(m, st, I, a):
    d, off = m.ptr(st, a[0], I, 'formatted write'); f = lit(m, a[1])
    if f is None: raise AnalysisBroken(f'format at {m.where(I)} is not constant')
    const = len(f.replace(b'%s', b'')); args = a[2:]; syms = []
    for x in args:
        s = chars(m, st, x, I)
        if s is not None: const += len(s)
        else: syms.append(m.ptr(st, x, I, 'string read')[0])
    z = d.size
    if z is None: return [(st, T.fresh(32, 'n'))]
    if isinstance(z, int): ok = not syms and const + 1 <= z
    else:
        c, dd = T.lin(z); have = [st.cl.get(('len', k)) for k in dd for _ in range(dd[k])]
        ok = all(x in have for x in syms) and c >= const + 1
    if not ok: m.bad(st, 'unbounded-copy', I, f'formatted text does not fit {d.name}', d.name)
    st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {d}; st.cl[('slen', d)] = (0, 1 << 20)
    return [(st, T.fresh(32, 'n'))]
@hh('strchr', 'index')
def _strchr(m, st, I, a):
    s = chars(m, st, a[0], I)
    if s is not None and not isinstance(a[1], int) and all(isinstance(v, int) for v in s):
        c = T.trunc(a[1], 8, st.F)
        if all(isch(st, c, v) is False for v in list(s) + [0]): return [(st, 0)]
    if s is None or not isinstance(a[1], int):
        b, st = fork(st); return [(b, 0), (st, ('P', a[0][1], T.fresh(64, 'place')))]
    for i, v in enumerate(s):
        z = isch(st, v, a[1] & 255)
        if z is None: raise AnalysisBroken(f'strchr at {m.where(I)}: undecided')
        if z: return [(st, ('P', a[0][1], a[0][2] + i))]
    return [(st, ('P', a[0][1], a[0][2] + len(s)) if a[1] & 255 == 0 else 0)]
@hh('strstr')
def _strstr(m, st, I, a):
    m.ptr(st, a[0], I, 'string search'); m.ptr(st, a[1], I, 'string search')
    b, st = fork(st); return [(b, 0), (st, a[0])]
@hh('strsep', '__strsep_g', '__strsep')
def _strsep(m, st, I, a):
    o, off = m.ptr(st, a[0], I, 'string split'); p = m.nrm(st, m.rd(st, o, off, 8, True)); d = lit(m, a[1])
    if p == 0: return [(st, 0)]
    s = chars(m, st, p, I, 'string split')
    if s is None:
        b, st = fork(st); m.wr(b, o, off, 8, 0)
        po = p[1]; m.wr(st, o, off, 8, ('P', po, T.fresh(64, 'place')))
        return [(b, p), (st, p)]
    for i, v in enumerate(s):
        z = [isch(st, v, c) for c in d]
        if None in z: raise AnalysisBroken(f'strsep at {m.where(I)}: undecided')
        if any(z):
            if m.on_store: m.on_store(st, p[1], p[2] + i, 1, 0, I)
            if p[1].kind in ('str', 'glob'): m.bad(st, 'shared-write', I, f'{p[1].name} is modified', p[1].name)
            m.wr(st, p[1], p[2] + i, 1, 0); m.wr(st, o, off, 8, ('P', p[1], p[2] + i + 1)); return [(st, p)]
    m.wr(st, o, off, 8, 0); return [(st, p)]
@hh('strcmp', 'strcasecmp')
def _strcmp(m, st, I, a):
    x = chars(m, st, a[0], I, 'string comparison'); y = chars(m, st, a[1], I, 'string comparison')
    if x is not None and y is not None:
        if I.get('callee') == 'strcasecmp':
            up = lambda v: v - 32 if isinstance(v, int) and 97 <= v <= 122 else v
            x = [up(v) for v in x]; y = [up(v) for v in y]
        if len(x) != len(y): return [(st, 1)]
        q = [True if u == v else (u == v if isinstance(u, int) and isinstance(v, int) else T.deq(u, v, 8, st.F)) for u, v in zip(x, y)]
        if False in q: return [(st, 1)]
        if None not in q: return [(st, 0)]
    k = ('cmp', a[0], a[1], tuple(map(str, x or ())), tuple(map(str, y or ())))
    if k in st.cl: return [(st, st.cl[k])]
    b, st = fork(st); b.cl[k] = 0; st.cl[k] = 1
    return [(b, 0), (st, 1)]

# ---- contracts of the public interface, used where another public call calls it -----------------------------------------
@hh('bsdconv_module_check')
def _mcheck(m, st, I, a):
    m.ptr(st, a[1], I, 'name read'); s2, st = fork(st); s2.emit('module', 'missing'); st.emit('module', 'found'); return [(st, 1), (s2, 0)]
@hh('bsdconv_module_vital')
def _mvital(m, st, I, a):
    m.ptr(st, a[1], I, 'name read'); s2, st = fork(st); st.emit('it is', 'vital'); return [(s2, 0), (st, 1)]
@hh('bsdconv_solve_alias')
def _solve(m, st, I, a):
    m.ptr(st, a[1], I, 'name read'); n = st.cl.get('solved', 0); st.cl['solved'] = n + 1
    r = []
    b, st = fork(st); b.emit('alias', 'unknown'); r.append((b, 0))
    exp = m.life.expansions[n] if n < len(m.life.expansions) else None
    if exp is not None:
        c, st = fork(st); c.emit('alias', f'to {exp}'); o = m.life.string(c, exp, 'alias expansion', 'heap'); r.append((c, o))
    same = chars(m, st, a[1], I)
    o = m.new(st, 'heap', len(same) + 1 if same is not None else None, 'alias expansion')
    if same is not None:
        for i, v in enumerate(same): m.wr(st, o, i, 1, v)
        m.wr(st, o, len(same), 1, 0)
    else: st.cl[('slen', o)] = (0, 1 << 20)
    st.emit('alias', 'to itself'); r.append((st, P(o)))
    return r
from . import libc
libc.into(H, ('memcmp', 'bcmp')); libc.into(L.H, ('memcmp', 'bcmp'))
