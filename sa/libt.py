"""The command-line converter (src/bsdconv.c) against a model of the file system.

main() is interpreted abstractly from described argument vectors. Names are strings whose letters are symbols; a name leads to
an inode, an inode holds the original text, nothing, or a result under construction. Every call that can fail is split into
success and failure, reads deliver up to two chunks before the end or an error, writes can fail at every hand-over, so that every
path also is a fault history; the invariant is checked after every call that changes the file system, i.e. at every point at
which the process can die."""
from . import ir, terms as T
from . import libc
from .ir import AnalysisBroken
from .absint import P, PathEnd
from .lib import Lib, H, fail2, fork, chars, used
from . import lib as LB, life as L

class Tool(Lib):
    KIND = dict(Lib.KIND)
    def __init__(self, rel='src/bsdconv.c'):
        super().__init__()
        self.u = ir.load_unit(rel); self.exits = []
        self.cb = 'tool'
    def start(self, argv):
        self.reset(TH); st = self.state(); m = self.m
        m.maxfork = 60
        st.cl['fs'] = (); st.cl['tmps'] = 0; self.exits = []
        for n in ('stdin', 'stdout', 'stderr'):
            o = m.new(st, 'file', None, n); st.wcells(m.glob(n))[0] = (P(o), 8)
            st.cl[('f', o)] = (n, False, False)
        ps = [self.word(st, a, f'argv[{i}]') for i, a in enumerate(argv)]
        v = m.new(st, 'argvec', 8 * (len(argv) + 1), 'argv')
        for i, p in enumerate(ps): m.wr(st, v, 8 * i, 8, p)
        m.wr(st, v, 8 * len(argv), 8, 0)
        return st, ps, P(v)
    def word(self, st, a, n):
        if a[0] != '-': return self.string(st, a, n, 'str')
        o = self.m.new(st, 'str', len(a) + 1, n)
        for i, c in enumerate(a): self.m.wr(st, o, i, 1, ord(c))
        self.m.wr(st, o, len(a), 1, 0); return P(o)
    def file(self, st, p, k):
        st.cl['fs'] = st.cl['fs'] + ((tuple(chars(self.m, st, p, {}, 'name')), f'orig:{k}'),)
        st.cl['args'] = st.cl.get('args', ()) + ((tuple(chars(self.m, st, p, {}, 'name')), k),)

def hh(*n):
    def d(f):
        for x in n: TH[x] = f
        return f
    return d
TH = {k: v for k, v in H.items() if k.startswith('str') or k in ('malloc', 'calloc', 'free', 'realloc', 'memcpy', 'memcmp', '__errno_location', 'sprintf', '__sprintf_chk', 'getenv')}
libc.into(TH, ('memcmp', 'bcmp'))
TH['bsdconv_malloc'] = H['malloc']; TH['bsdconv_free'] = H['free']
def find(st, name):
    for n, i in st.cl['fs']:
        if n == name: return i
    return None
def setname(st, name, ino):
    st.cl['fs'] = tuple((n, i) for n, i in st.cl['fs'] if n != name) + (((name, ino),) if ino is not None else ())
def name(m, st, p, I):
    s = chars(m, st, p, I, 'file name')
    if s is None: raise AnalysisBroken(f'file name at {m.where(I)} is not known')
    return tuple(s)
def inv(m, st, I, what):
    """every named file is the whole original or a whole, closed result"""
    l = m.life; l.cov['obligations'] += 1; n0 = len(l.seen); inv1(m, l, st, I, what)
    if len(l.seen) > n0: raise PathEnd()
def inv1(m, l, st, I, what):
    for n, k in st.cl.get('args', ()):
        i = find(st, n)
        if i is None: l.add('C12', f'{I.get("callee")}:gone', f'{m.where(I)}: after {what} the named file does not exist: a process ending here, or a later failure, loses it ({l.path(st)})')
        elif i == f'orig:{k}':
            if st.cl.get(('dmg', i)): l.add('C12', f'{I.get("callee")}:damaged', f'{m.where(I)}: after {what} the original text is no longer whole while the named file still is that one ({l.path(st)})')
        else:
            c = st.cl.get(('res', i)) or (None, 'nothing was converted into it')
            if c[1]: l.add('C12', f'{I.get("callee")}:incomplete', f'{m.where(I)}: after {what} the named file is a result of which {c[1]} ({l.path(st)})')
            elif c[0] != f'orig:{k}': l.add('C12', f'{I.get("callee")}:other', f'{m.where(I)}: after {what} the named file holds the result of another input ({l.path(st)})')
            a = st.cl.get(('stat', f'orig:{k}'))
            if a is not None:
                if st.cl.get(('own', i)) != a[:2]: l.add('C12', 'owner', f'{m.where(I)}: the replacement was not given owner and group of the original ({l.path(st)})')
                if st.cl.get(('mod', i)) != a[2]: l.add('C12', 'mode', f'{m.where(I)}: the replacement was not given the permission bits of the original, or lost them to a later change of owner ({l.path(st)})')
            else: l.add('C12', 'attributes', f'{m.where(I)}: the replacement is put in place although owner and permission bits of the original were not obtained ({l.path(st)})')
def fobj(m, st, p, I, what):
    o, _ = m.ptr(st, p, I, what)
    if o.kind != 'file': m.bad(st, 'bad-release', I, f'{what}: {o.name} is no stream', o.name); raise PathEnd()
    return o
def fst(st, o): return st.cl[('f', o)]            # inode, error seen, end seen
@hh('fopen', 'fopen64')
def _fopen(m, st, I, a):
    n = name(m, st, a[0], I); md = (L.lit(m, a[1]) or b'?').decode()
    bad, st = fork(st); bad.emit('fopen', 'fails')
    ino = find(st, n)
    if md[0] == 'r' and ino is None: return [(bad, 0)]
    o = m.new(st, 'file', None, 'input stream' if md[0] == 'r' else 'output stream')
    if md[0] != 'r' or '+' in md:
        if ino is None:
            st.cl['tmps'] += 1; ino = f'made:{st.cl["tmps"]}'; setname(st, n, ino); st.cl[('tmpname', ino)] = n
        else:
            st.cl[('dmg', ino)] = True; inv(m, st, I, f'opening it for writing ("{md}")')
    st.cl[('f', o)] = (ino, False, False); st.cl['open'] = st.cl.get('open', ()) + (o,)
    return [(st, P(o)), (bad, 0)]
@hh('mkstemp', 'mkstemp64', 'mkostemp', 'bsdconv_mkstemp')
def _mkstemp(m, st, I, a):
    n = name(m, st, a[0], I); o, off = m.ptr(st, a[0], I, 'template'); l = m.life
    if list(n[-6:]) != [88] * 6: l.add('C12', 'template', f'{m.where(I)}: the template of the temporary file does not end in XXXXXX'); return [(st, T.mask(32))]
    bad, st = fork(st); bad.emit('mkstemp', 'fails')
    for i in range(6):
        v = T.fresh(8, 'suffix'); st.F.rg[v] = (0x30, 0x7a); m.wr(st, o, off + len(n) - 6 + i, 1, v)
    st.cl['tmps'] += 1; ino = f'made:{st.cl["tmps"]}'; nn = name(m, st, a[0], I); setname(st, nn, ino); st.cl[('tmpname', ino)] = nn
    fd = T.fresh(32, 'descriptor'); st.F.rg[fd] = (3, 1 << 20); st.cl['fdino'] = st.cl.get('fdino', ()) + ((fd, ino),)
    return [(st, fd), (bad, T.mask(32))]
def fdino(m, st, fd, I):
    for f, i in st.cl.get('fdino', ()):
        if f == fd: return i
    m.bad(st, 'bad-release', I, f'{I.get("callee")} of something that is no open descriptor', 'descriptor'); raise PathEnd()
@hh('fdopen')
def _fdopen(m, st, I, a):
    ino = fdino(m, st, a[0], I); bad, st = fork(st); bad.emit('fdopen', 'fails')
    o = m.new(st, 'file', None, 'output stream'); st.cl[('f', o)] = (ino, False, False); st.cl['open'] = st.cl.get('open', ()) + (o,)
    return [(st, P(o)), (bad, 0)]
@hh('fileno')
def _fileno(m, st, I, a):
    o = fobj(m, st, a[0], I, 'stream'); ino = fst(st, o)[0]
    for f, i in st.cl.get('fdino', ()):
        if i == ino: return [(st, f)]
    fd = T.fresh(32, 'descriptor'); st.F.rg[fd] = (0, 1 << 20); st.cl['fdino'] = st.cl.get('fdino', ()) + ((fd, ino),); return [(st, fd)]
@hh('close')
def _close(m, st, I, a): fdino(m, st, a[0], I); return [(st, 0)]
def dostat(m, st, I, ino, buf):
    bad, st = fork(st); bad.emit(I['callee'], 'fails')
    d, off = m.ptr(st, buf, I, 'status write'); s = m.u.structs['stat']
    v = {}
    for x in s['members']:
        if x['name'] in ('st_uid', 'st_gid', 'st_mode'): v[x['name']] = t = T.fresh(32, x['name']); m.wr(st, d, off + x['off'], 4, t)
        elif x['name'] in ('st_size', 'st_dev', 'st_ino', 'st_nlink', 'st_blocks'): m.wr(st, d, off + x['off'], 8, T.fresh(63, x['name']))
    st.cl[('stat', ino)] = (v['st_uid'], v['st_gid'], v['st_mode'])
    return [(st, 0), (bad, T.mask(32))]
@hh('fstat', 'fstat64')
def _fstat(m, st, I, a): return dostat(m, st, I, fdino(m, st, a[0], I), a[1])
@hh('stat', 'stat64', 'lstat')
def _stat(m, st, I, a):
    ino = find(st, name(m, st, a[0], I))
    return dostat(m, st, I, ino, a[1]) if ino else [(st, T.mask(32))]
def defined(m, st, I, vs):
    for v in vs:
        if not isinstance(v, int) and v[0] == 'U': m.bad(st, 'uninit-use', I, f'{I["callee"]} is given a value that was never set', I['callee']); raise PathEnd()
def attr(what, by):
    def f(m, st, I, a):
        ino = fdino(m, st, a[0], I) if by == 'fd' else find(st, name(m, st, a[0], I))
        defined(m, st, I, a[1:])
        if what == 'own': st.cl[('own', ino)] = (a[1], a[2]); st.cl.pop(('mod', ino), None)
        else:
            v = a[1]; q = st.cl.get(('stat', ino)); st.cl[('mod', ino)] = v
            for k, s in list(st.cl.items()):
                if isinstance(k, tuple) and k[0] == 'stat' and not isinstance(v, int) and v != s[2] and T.deq(T.bitop('and', v, 0o7777, 32, st.F), T.bitop('and', s[2], 0o7777, 32, st.F), 32, st.F) is True: st.cl[('mod', ino)] = s[2]
        return [(st, 0), ] if not used(m, I) else [(st, 0), (st.copy(), T.mask(32))]
    return f
TH['fchown'] = attr('own', 'fd'); TH['chown'] = TH['lchown'] = attr('own', 'name'); TH['fchmod'] = attr('mod', 'fd'); TH['chmod'] = attr('mod', 'name')
@hh('fread', 'fread_unlocked')
def _fread(m, st, I, a):
    o = fobj(m, st, a[3], I, 'read'); ino, err, eof = fst(st, o); l = m.life
    n = T.mul(a[1], a[2], 64, st.F)
    d, off = m.ptr(st, a[0], I, 'read into'); m.bounds(st, d, off, n, I, 'read into')
    if a[1] != 1: raise AnalysisBroken(f'fread at {m.where(I)}: items of {a[1]} bytes')
    if st.cl.get('pend'): l.add('C29', 'dropped', f'{m.where(I)}: the next chunk is read before the one read last was converted ({l.path(st)})')
    r = []; k = st.cl.get(('rd', o), 0)
    def nothing(s, e, f):
        # what has ended or failed stays so: asking again and again for nothing is a loop without end
        z = st.cl.get(('zero', o), 0) + 1
        if z > 3: l.add('C29', 'endless', f'{m.where(I)}: the input is read again and again after it {"failed" if e else "ended"} ({l.path(s)})'); return
        s.cl[('zero', o)] = z; s.emit('fread', 'error' if e and not f else 'end'); s.cl[('f', o)] = (ino, e, f); s.cl['pend'] = None; r.append((s, 0))
    if not eof and not err and k < l.chunks:      # a whole chunk, or fewer bytes because the input ends or fails there
        top = T.rng(n, st.F)[1]
        for e, f in ((False, False), (False, True), (True, False)):
            s = st.copy()
            if e or f: v = T.fresh(64, 'chunk length'); s.F.rg[v] = (1, top - 1)
            else: v = n
            s.cl[('rd', o)] = k + 1; s.cl[('f', o)] = (ino, e, f); s.emit('fread', 'chunk' + ' before the error' * e + ' before the end' * f)
            s.cl['havoc'] = s.cl.get('havoc', frozenset()) | {d}; s.cl['pend'] = (o, d, off, v); r.append((s, v))
    if not eof: nothing(st.copy(), True, eof)
    if not err: nothing(st, err, True)
    if not r: raise PathEnd()
    return r
@hh('ferror', 'ferror_unlocked')
def _ferror(m, st, I, a): return [(st, 1 if fst(st, fobj(m, st, a[0], I, 'stream'))[1] else 0)]
@hh('feof', 'feof_unlocked')
def _feof(m, st, I, a): return [(st, 1 if fst(st, fobj(m, st, a[0], I, 'stream'))[2] else 0)]
def wfail(m, st, o):
    ino, e, f = fst(st, o); st.cl[('f', o)] = (ino, True, f)
@hh('fflush')
def _fflush(m, st, I, a):
    if a[0] == 0: return [(st, 0)]
    o = fobj(m, st, a[0], I, 'stream'); ino, err, eof = fst(st, o)
    if not str(ino).startswith('made'): return [(st, 0)]
    s = st.copy(); s.emit('fflush', 'fails'); wfail(m, s, o)
    return [(st, 0), (s, T.mask(32))]
@hh('fsync', 'fdatasync')
def _fsync(m, st, I, a):
    ino = fdino(m, st, a[0], I); s = st.copy(); s.emit('fsync', 'fails'); return [(st, 0), (s, T.mask(32))]
@hh('fclose')
def _fclose(m, st, I, a):
    o = fobj(m, st, a[0], I, 'close'); ino, err, eof = fst(st, o); st.st[o] = 'freed'
    st.cl['open'] = tuple(x for x in st.cl.get('open', ()) if x != o)
    if not str(ino).startswith('made'): return [(st, 0)]
    s = st.copy(); s.emit('fclose', 'fails')
    cv = st.cl.get('conv'); w = None
    into = st.cl.get(('into', o))
    if into is None: w = 'nothing was converted into it'
    else:
        src, done, rerr = into
        if err: w = 'a write failed'
        elif not done: w = 'the input was not converted to its end'
        elif rerr: w = 'reading the input failed'
    s.cl[('res', ino)] = (into and into[0], 'writing out the last bytes failed'); inv(m, s, I, 'closing the result')
    st.cl[('res', ino)] = (into and into[0], w); inv(m, st, I, 'closing the result')
    return [(st, 0), (s, T.mask(32))]
@hh('unlink', 'remove')
def _unlink(m, st, I, a):
    n = name(m, st, a[0], I); ino = find(st, n); s = st.copy(); s.emit(I['callee'], 'fails')
    if ino: s.cl[('tried', ino)] = True
    if ino is None: return [(s, T.mask(32))]
    setname(st, n, None); st.emit(I['callee'], 'done'); inv(m, st, I, 'removing a name')
    return [(st, 0), (s, T.mask(32))]
@hh('rename')
def _rename(m, st, I, a):
    x = name(m, st, a[0], I); y = name(m, st, a[1], I); s = st.copy(); s.emit('rename', 'fails')
    ino = find(st, x)
    if ino is None: return [(s, T.mask(32))]
    for o in st.cl.get('open', ()):
        if fst(st, o)[0] == ino and str(ino).startswith('made') and ('res', ino) not in st.cl: st.cl[('res', ino)] = (None, 'the last bytes were not written out yet')
    setname(st, x, None); setname(st, y, ino); st.emit('rename', 'done'); inv(m, st, I, 'renaming')
    return [(st, 0), (s, T.mask(32))]
@hh('open', 'open64', 'creat', 'creat64')
def _open(m, st, I, a):
    n = name(m, st, a[0], I); fl = 0x241 if I['callee'].startswith('creat') else a[1]
    if not isinstance(fl, int): raise AnalysisBroken(f'{I["callee"]} at {m.where(I)}: undetermined flags')
    bad, st = fork(st); bad.emit('open', 'fails'); ino = find(st, n)
    if ino is None and not fl & 0x40 or ino is not None and fl & 0xc0 == 0xc0: return [(bad, T.mask(32))]
    if ino is None:
        st.cl['tmps'] += 1; ino = f'made:{st.cl["tmps"]}'; setname(st, n, ino); st.cl[('tmpname', ino)] = n
    elif fl & 3: st.cl[('dmg', ino)] = True; inv(m, st, I, 'opening it for writing')
    fd = T.fresh(32, 'descriptor'); st.F.rg[fd] = (3, 1 << 20); st.cl['fdino'] = st.cl.get('fdino', ()) + ((fd, ino),)
    return [(st, fd), (bad, T.mask(32))]
@hh('truncate', 'ftruncate', 'truncate64', 'ftruncate64')
def _truncate(m, st, I, a):
    ino = find(st, name(m, st, a[0], I)) if I['callee'].startswith('t') else fdino(m, st, a[0], I)
    s = st.copy(); s.emit(I['callee'], 'fails')
    if ino is not None: st.cl[('dmg', ino)] = True; inv(m, st, I, 'cutting it'); return [(st, 0), (s, T.mask(32))]
    return [(s, T.mask(32))]
@hh('link', 'symlink', 'freopen', 'system', 'execv', 'fork', 'fputs', 'fputc', 'fwrite', 'write')
def _other(m, st, I, a):
    if I['callee'] in ('fputs', 'fputc', 'fwrite'):
        o = fobj(m, st, a[-1], I, 'stream')
        if not str(fst(st, o)[0]).startswith('made') and not str(fst(st, o)[0]).startswith('orig'): return [(st, 1)]
    raise AnalysisBroken(f'{I["callee"]} at {m.where(I)} is not modelled')
@hh('printf', 'puts', 'putchar', 'perror', 'vprintf', 'setmode', 'setlocale')
def _nop(m, st, I, a): return [(st, 0)]
@hh('fprintf', '__fprintf_chk')
def _fprintf(m, st, I, a):
    o = fobj(m, st, a[0], I, 'message'); ino = str(fst(st, o)[0])
    if ino == 'stdout' or ino.startswith(('made', 'orig')): m.life.add('C29', 'mixed', f'{m.where(I)}: a message is written into the converted text ({m.life.path(st)})')
    return [(st, 0)]
@hh('exit', '_exit')
def _exit(m, st, I, a): m.life.exits.append((st, a[0])); raise PathEnd()
# ---- contract of the library as the tool sees it -----------------------------------------------------------------------
@hh('bsdconv_create')
def _create(m, st, I, a):
    m.ptr(st, a[0], I, 'conversion read'); l = m.life
    def good(s):
        o = m.new(s, 'inst', l.SI, 'conversion'); s.cl['havoc'] = s.cl.get('havoc', frozenset()) | {o}
        nx = 0
        for i in range(2):
            e = m.new(s, 'ext', None, 'counter'); k = m.new(s, 'str', 2, 'counter name'); m.wr(s, k, 0, 1, 65); m.wr(s, k, 1, 1, 0)
            s.wcells(e)[l.on['key']] = (P(k), 8); s.wcells(e)[l.on['next']] = (nx, 8); nx = P(e)
        m.wr(s, o, l.oi['counter'], 8, nx); s.cl['ready'] = None; return P(o)
    return fail2(m, st, I, 'bsdconv_create', 0, good)
@hh('bsdconv_error')
def _error(m, st, I, a):
    o = m.new(st, 'heap', 2, 'error text'); m.wr(st, o, 0, 1, 65); m.wr(st, o, 1, 1, 0); return [(st, P(o))]
@hh('bsdconv_init')
def _init(m, st, I, a):
    o, _ = m.ptr(st, a[0], I, 'conversion'); l = m.life; oi = l.oi
    for f, n in (('data', 8), ('len', 8), ('flags', 1)): m.wr(st, o, oi['input'] + l.od[f], n, 0)
    m.wr(st, o, oi['output'] + l.od['data'], 8, 0); m.wr(st, o, oi['output'] + l.od['len'], 8, 0); m.wr(st, o, oi['output_mode'], 4, 0); m.wr(st, o, oi['flush'], 1, 0)
    st.cl['ready'] = 'fresh'; return [(st, None)]
@hh('bsdconv_destroy')
def _destroy(m, st, I, a):
    o, off = m.ptr(st, a[0], I, 'conversion'); st.st[o] = 'freed'; return [(st, None)]
@hh('bsdconv')
def _bsdconv(m, st, I, a):
    l = m.life; oi, od = l.oi, l.od; o, _ = m.ptr(st, a[0], I, 'conversion'); w = m.where(I); l.cov['obligations'] += 1
    rd = lambda f: m.rd(st, o, oi['input'] + od[f], 1 if f == 'flags' else 8, f in ('data', 'next'))
    d, n, nx, fl = rd('data'), rd('len'), rd('next'), rd('flags'); fsh = m.rd(st, o, oi['flush'], 1)
    rdy = st.cl.get('ready'); pend = st.cl.get('pend')
    if rdy not in ('fresh', 'going'): l.add('C29', 'init', f'{w}: a text is converted with a conversion that was {"never initialised" if rdy is None else "not initialised again after the end of the text before it"} ({l.path(st)})'); raise PathEnd()
    if not isinstance(fsh, int): raise AnalysisBroken(f'{w}: flush flag {fsh[0]}')
    if pend:
        fo, bo, off, v = pend
        if n != v: l.add('C29', 'length', f'{w}: the length handed over is not what was read ({l.path(st)})')
        if d == 0 or isinstance(d, int) or d[1] != bo or d[2] != off: l.add('C29', 'chunk', f'{w}: what is handed over is not the chunk read last ({l.path(st)})')
    elif not (isinstance(n, int) and n == 0): l.add('C29', 'again', f'{w}: bytes are handed over that were not read from the input, or were handed over before ({l.path(st)})')
    if not isinstance(d, int) and d[0] == 'P':
        if not isinstance(nx, int) or nx: m.bad(st, 'uninit-use', I, 'bsdconv with an input unit whose successor is not cleared', 'input.next')
        if st.st.get(d[1]) == 'freed': m.bad(st, 'use-after-free', I, 'the input handed over was released', d[1].name)
        if not isinstance(fl, int): raise AnalysisBroken(f'{w}: flags of the input {fl[0]}')
        if fl & 1:
            if d[1].kind != 'heap' or d[2] != 0: m.bad(st, 'bad-release', I, f'{d[1].name} is handed over to be released, but is no heap block', d[1].name)
            st.st[d[1]] = 'freed'
        elif d[1].kind == 'heap': st.cl['borrowed'] = st.cl.get('borrowed', ()) + (d[1],)
        elif d[1].kind == 'alloca': l.add('C29', 'borrowed', f'{w}: a local buffer is lent to a conversion that may keep the bytes beyond the next chunk ({l.path(st)})')
    src = None
    srcs = [x for x in st.cl if isinstance(x, tuple) and x[0] == 'rd']
    mode = m.rd(st, o, oi['output_mode'], 4); out = m.rd(st, o, oi['output'] + od['data'], 8, True)
    if mode != l.FILE: l.add('C29', 'mode', f'{w}: output mode {mode} is not the stream mode'); raise PathEnd()
    fo = fobj(m, st, out, I, 'output'); ino = fst(st, fo)[0]
    cur = pend[0] if pend else st.cl.get('cur')
    if not pend and cur is None or not pend and rdy == 'fresh': cur = st.cl.get('last')
    st.cl['cur'] = cur; st.cl['ready'] = 'going'; st.cl['pend'] = None
    inf = st.cl.get('reading')
    into = st.cl.get(('into', fo))
    end = fsh != 0
    s_ino = st.cl.get('insrc')
    i_ino, i_err, i_eof = fst(st, s_ino) if s_ino else (None, False, False)
    if end and not (i_eof or i_err): l.add('C29', 'early', f'{w}: the conversion is ended although the input is not at its end ({l.path(st)})')
    if not end and i_eof: pass
    if end: st.cl['ready'] = 'ended'; st.cl['ends'] = st.cl.get('ends', ()) + ((i_ino, ino),)
    if into and into[0] != i_ino and ino not in ('stdout',): l.add('C29', 'mixed', f'{w}: the texts of two inputs go into one file ({l.path(st)})')
    st.cl[('into', fo)] = (i_ino, end, i_err)
    m.wr(st, o, oi['input'] + od['data'], 8, 0); m.wr(st, o, oi['input'] + od['len'], 8, 0); m.wr(st, o, oi['input'] + od['flags'], 1, 0)
    r = [(st, None)]
    if str(ino).startswith('made') and not fst(st, fo)[1]:
        s = st.copy(); s.emit('write', 'fails'); wfail(m, s, fo); r.append((s, None))
    return r
_fread0 = TH['fread']
def _fread1(m, st, I, a):
    o = fobj(m, st, a[3], I, 'read')
    if st.cl.get('insrc') != o: st.cl['insrc'] = o
    return _fread0(m, st, I, a)
TH['fread'] = TH['fread_unlocked'] = _fread1
@hh('bsdconv_modules_list')
def _mlist(m, st, I, a):
    o = m.new(st, 'heap', 24, 'list')
    for i in range(2):
        e = m.new(st, 'heap', 2, 'entry'); m.wr(st, e, 0, 1, 65); m.wr(st, e, 1, 1, 0); m.wr(st, o, 8 * i, 8, P(e))
    m.wr(st, o, 16, 8, 0); st.cl['lists'] = st.cl.get('lists', ()) + (a[0],); return [(st, P(o))]

# ---- the worlds -----------------------------------------------------------------------------------------------------
def run(l, tier='quick'):
    l.FILE = 3; l.maxent = 2; l.maxlines = 2; l.symfork = True; l.expansions = []
    e = l.u.enums if isinstance(l.u.enums, dict) else {}
    for k, v in e.items():
        if k == 'BSDCONV_FILE': l.FILE = v
        elif isinstance(v, dict) and 'BSDCONV_FILE' in v: l.FILE = v['BSDCONV_FILE']
    for argv, files, what in (
            (['tool'], [], 'no argument'),
            (['tool', '-l'], [], 'list of modules'),
            (['tool', 'ab:cd', '-l'], [], 'list of modules after a conversion'),
            (['tool', 'ab:cd'], [], 'standard input'),
            (['tool', 'ab:cd', '-i'], [], 'in-place without a file'),
            (['tool', 'ab:cd', 'file'], [3 - 1], 'one file'),
            (['tool', 'ab:cd', 'file', 'gh'], [2, 3], 'two files'),
            (['tool', 'ab:cd', '-i', 'file'], [3], 'one file in place'),
            (['tool', 'ab:cd', '-i', 'd/file', 'gh'], [3, 4], 'two files in place'),
            (['tool', 'ab:cd', '-i', '-i', 'file'], [4], 'one file in place, flag repeated')):
        l.chunks = 2 if len(files) < 2 or tier == 'thorough' else 1
        st, ps, v = l.start(argv)
        for k in files: l.file(st, ps[k], k)
        inplace = '-i' in argv
        rs = l.go(st, 'main', [len(argv), v], what)
        for s, code in rs + l.exits: final(l, s, code, files, inplace, argv)
        l.cov['paths'] += len(l.exits)
def final(l, st, code, files, inplace, argv):
    l.cov['obligations'] += 3
    if not isinstance(code, int): l.add('C12', 'exit-status', f'main ({l.ctx}): exit status undetermined'); return
    ok = code == 0; left = [n for n in st.cl['fs'] if str(n[1]).startswith('made') and n[0] not in [a[0] for a in st.cl.get('args', ())]]
    for n, i in left:
        if not st.cl.get(('tried', i)): l.add('C12', 'left-behind', f'main ({l.ctx}): ends with status {code} and leaves its temporary file behind ({l.path(st)})')
    if argv[1:] and '-l' in argv:
        if ok and len(st.cl.get('lists', ())) < 3: l.add('C29', 'list', f'main ({l.ctx}): modules are not listed ({l.path(st)})')
        return
    if not argv[1:]:
        if ok: l.add('C29', 'usage', 'main without arguments reports success')
        return
    if not ok: return
    if inplace:
        for n, k in st.cl.get('args', ()):
            if find(st, n) == f'orig:{k}': l.add('C12', 'unreported', f'main ({l.ctx}): reports success although argv[{k}] was not replaced ({l.path(st)})')
    ends = st.cl.get('ends', ())
    want = [f'orig:{k}' for k in files] or ['stdin']
    if [x[0] for x in ends] != want: l.add('C29', 'ends', f'main ({l.ctx}): reports success with the conversions ended for {[x[0] for x in ends]} instead of {want} ({l.path(st)})')
    if not inplace or not files:
        for i, o in ends:
            if o != 'stdout': l.add('C29', 'output', f'main ({l.ctx}): the text goes to {o} instead of standard output ({l.path(st)})')
    for o in st.cl.get('open', ()):
        if st.st.get(o) == 'live': l.add('C29', 'open', f'main ({l.ctx}): {o.name} is still open at the end ({l.path(st)})')
def world(rel='src/bsdconv.c', tier='quick'):
    l = Tool(rel); run(l, tier); return l
