"""Further functions of the C library, for code that is written with them instead of a loop. Each is described by what the standard says of it; what depends on undecided bytes splits the path."""
from . import terms as T, absint as A
from .ir import AnalysisBroken
from .absint import P, PathEnd
from . import life as L, lib as B
M = {}
def hh(*n):
    def d(f):
        for x in n: M[x] = f
        return f
    return d
ICASE = ('strcasecmp', 'strncasecmp')
def up(v): return v - 32 if isinstance(v, int) and 97 <= v <= 122 else v
def is_(m, st, I, v, c):
    """[(state, is the byte v the byte c?)]"""
    if isinstance(v, int) and isinstance(c, int): return [(st, v == c)]
    return m.fork_cmp(st, 'eq', v, c, 8, I)
def oneof(m, st, I, v, set_):
    """[(state, is the byte v among set_?)]"""
    r = []; todo = [(st, 0)]
    while todo:
        s, i = todo.pop()
        if i >= len(set_): r.append((s, False)); continue
        for s2, z in is_(m, s, I, v, set_[i]):
            if z: r.append((s2, True))
            else: todo.append((s2, i + 1))
    return r
def setof(m, st, p, I):
    s = L.lit(m, p)
    if s is None: s = B.chars(m, st, p, I, 'set of characters')
    if s is None: raise AnalysisBroken(f'set of characters at {m.where(I)} is not known')
    return list(s)
def hilen(m, st, p, I):
    o, _ = m.ptr(st, p, I, 'string read'); return (B.slen(m, st, o) or (0, 1 << 20))[1]
def span(m, st, I, a, want):
    s = B.chars(m, st, a[0], I); c = setof(m, st, a[1], I)
    if s is None: n = T.fresh(64, 'span'); st.F.rg[n] = (0, hilen(m, st, a[0], I)); return [(st, n)]
    r = []; todo = [(st, 0)]
    while todo:
        q, i = todo.pop()
        if i >= len(s): r.append((q, i)); continue
        for q2, z in oneof(m, q, I, s[i], c):
            if z is want: todo.append((q2, i + 1))
            else: r.append((q2, i))
    return r
@hh('strspn')
def _strspn(m, st, I, a): return span(m, st, I, a, True)
@hh('strcspn')
def _strcspn(m, st, I, a): return span(m, st, I, a, False)
def at(p, i, F=None): return ('P', p[1], T.add(p[2], i, 64, F) if not isinstance(p[2], int) else p[2] + i)
@hh('strpbrk')
def _strpbrk(m, st, I, a):
    s = B.chars(m, st, a[0], I)
    if s is None: b, st = B.fork(st); return [(b, 0), (st, ('P', a[0][1], T.fresh(64, 'place')))]
    return [(q, at(a[0], i) if i < len(s) else 0) for q, i in span(m, st, I, a, False)]
@hh('strrchr', 'rindex', 'strchrnul')
def _strrchr(m, st, I, a):
    s = B.chars(m, st, a[0], I)
    if s is None or not isinstance(a[1], int):
        b, st = B.fork(st); return [(b, 0), (st, ('P', a[0][1], T.fresh(64, 'place')))]
    c = a[1] & 255; nul = I.get('callee') == 'strchrnul'; r = []
    if c == 0: return [(st, at(a[0], len(s)))]
    todo = [(st, 0 if nul else len(s) - 1)]
    while todo:
        q, i = todo.pop()
        if not 0 <= i < len(s): r.append((q, at(a[0], len(s)) if nul else 0)); continue
        for q2, z in is_(m, q, I, s[i], c):
            if z: r.append((q2, at(a[0], i)))
            else: todo.append((q2, i + 1 if nul else i - 1))
    return r
def differs(st, I):
    n = T.fresh(32, 'order'); T.assume('ne', n, 0, 32, st.F); return n
def compare(m, st, I, x, y, fold=False):
    """two lists of bytes of equal length -> [(state, 0 or another number)]"""
    r = []; todo = [(st, 0)]
    while todo:
        q, i = todo.pop()
        if i >= len(x): r.append((q, 0)); continue
        u, v = (up(x[i]), up(y[i])) if fold else (x[i], y[i])
        if isinstance(u, int) and isinstance(v, int):
            if u == v: todo.append((q, i + 1))
            else: r.append((q, 1 if u > v else T.mask(32)))
            continue
        if u == v: todo.append((q, i + 1)); continue
        for q2, z in m.fork_cmp(q, 'eq', u, v, 8, I):
            if z: todo.append((q2, i + 1))
            else: r.append((q2, differs(q2, I)))
    return r
@hh('strncmp', 'strncasecmp')
def _strncmp(m, st, I, a):
    x = B.chars(m, st, a[0], I, 'string comparison'); y = B.chars(m, st, a[1], I, 'string comparison'); n = a[2]
    if x is None or y is None or not isinstance(n, int):
        k = ('cmp', a[0], a[1], str(n))
        if k in st.cl: return [(st, st.cl[k])]
        b, st = B.fork(st); b.cl[k] = 0; st.cl[k] = 1
        return [(b, 0), (st, 1)]
    x = (x + [0])[:n]; y = (y + [0])[:n]; k = min(len(x), len(y))
    return compare(m, st, I, x[:k], y[:k], I.get('callee') == 'strncasecmp')
@hh('memcmp', 'bcmp')
def _memcmp(m, st, I, a):
    n = a[2]; xs = []
    for p in a[:2]:
        o, off = m.ptr(st, p, I, 'read')
        if isinstance(n, int) and n and isinstance(off, int): m.bounds(st, o, off, n, I, 'read')
        if not isinstance(n, int) or not isinstance(off, int) or n > 256: xs.append(None); continue
        v = []
        for i in range(n):
            c = m.rd(st, o, off + i, 1)
            if m.on_load: c = m.on_load(st, o, off + i, 1, c, I)
            v.append(m.nrm(st, c))
        xs.append(None if any(not isinstance(c, int) and c[0] == 'P' for c in v) else v)
    if None in xs: return [(st, T.fresh(32, 'memcmp'))]
    for v in xs:
        for c in v:
            if not isinstance(c, int) and c[0] == 'U': m.bad(st, 'uninit-use', I, f'compares bytes that were never set ({c[1]})', str(c[1])); return [(st, T.fresh(32, 'memcmp'))]
    return compare(m, st, I, xs[0], xs[1])
@hh('memchr')
def _memchr(m, st, I, a):
    o, off = m.ptr(st, a[0], I, 'read'); n = a[2]
    if not isinstance(n, int) or not isinstance(off, int) or not isinstance(a[1], int) or n > 256:
        b, st = B.fork(st); return [(b, 0), (st, ('P', o, T.fresh(64, 'place')))]
    r = []; todo = [(st, 0)]
    if n: m.bounds(st, o, off, n, I, 'read')
    while todo:
        q, i = todo.pop()
        if i >= n: r.append((q, 0)); continue
        for q2, z in is_(m, q, I, m.nrm(q, m.rd(q, o, off + i, 1)), a[1] & 255):
            if z: r.append((q2, ('P', o, off + i)))
            else: todo.append((q2, i + 1))
    return r
@hh('strnlen')
def _strnlen(m, st, I, a):
    s = B.chars(m, st, a[0], I); n = a[1]
    if s is not None and isinstance(n, int): return [(st, min(n, len(s)))]
    k = T.fresh(64, 'length'); st.F.rg[k] = (0, min(hilen(m, st, a[0], I), n if isinstance(n, int) else 1 << 20)); return [(st, k)]
@hh('stpcpy')
def _stpcpy(m, st, I, a):
    s = B.chars(m, st, a[1], I)
    if s is None:
        B.H['strcpy'](m, st, I, a); n = T.fresh(64, 'length'); st.F.rg[n] = (0, hilen(m, st, a[1], I)); return [(st, at(a[0], n, st.F))]
    d, off = m.ptr(st, a[0], I, 'string copy'); B.put(m, st, I, d, off, s, 'string copy'); return [(st, at(a[0], len(s)))]
@hh('strncpy')
def _strncpy(m, st, I, a):
    d, off = m.ptr(st, a[0], I, 'string copy'); s = B.chars(m, st, a[1], I); n = a[2]
    m.bounds(st, d, off, n, I, 'string copy')
    if s is None or not isinstance(n, int) or not isinstance(off, int):
        st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {d}; st.cl[('slen', d)] = (0, n if isinstance(n, int) else 1 << 20); return [(st, a[0])]
    for i in range(n): m.wr(st, d, off + i, 1, s[i] if i < len(s) else 0)
    return [(st, a[0])]
@hh('strncat')
def _strncat(m, st, I, a):
    d, off = m.ptr(st, a[0], I, 'string copy'); old = B.chars(m, st, a[0], I, 'string copy'); s = B.chars(m, st, a[1], I); n = a[2]
    if old is None or s is None or not isinstance(n, int):
        if s is not None and not isinstance(n, int): raise AnalysisBroken(f'strncat at {m.where(I)}: length unknown')
        return B.H['strcat'](m, st, I, a[:2])
    B.put(m, st, I, d, off + len(old), s[:n], 'string copy'); return [(st, a[0])]
@hh('strndup')
def _strndup(m, st, I, a):
    s = B.chars(m, st, a[0], I); n = a[1]
    if s is None or not isinstance(n, int):
        o0, _ = m.ptr(st, a[0], I, 'string read'); o = m.new(st, 'heap', None, L.ordinal(m, I, 'string')); st.cl[('slen', o)] = (0, hilen(m, st, a[0], I))
        st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {o}; return [(st, P(o))]
    s = s[:n]; o = m.new(st, 'heap', len(s) + 1, L.ordinal(m, I, 'string'))
    for i, v in enumerate(s + [0]): m.wr(st, o, i, 1, v)
    return [(st, P(o))]
@hh('mempcpy')
def _mempcpy(m, st, I, a): m.copymem(st, a[0], a[1], a[2], I); return [(st, at(a[0], a[2], st.F))]
@hh('memmove', 'memcpy')
def _memmove(m, st, I, a): m.copymem(st, a[0], a[1], a[2], I); return [(st, a[0])]
@hh('strtok_r', '__strtok_r')
def _strtok_r(m, st, I, a):
    o, off = m.ptr(st, a[2], I, 'string split'); p = a[0] if a[0] != 0 else m.nrm(st, m.rd(st, o, off, 8, True)); d = setof(m, st, a[1], I)
    if p == 0: return [(st, 0)]
    s = B.chars(m, st, p, I, 'string split')
    if s is None: raise AnalysisBroken(f'strtok_r at {m.where(I)}: text unknown')
    r = []; todo = [(st, 0, None)]
    while todo:
        q, i, b = todo.pop()
        if i >= len(s):
            m.wr(q, o, off, 8, at(p, len(s))); r.append((q, 0 if b is None else at(p, b))); continue
        for q2, z in oneof(m, q, I, s[i], d):
            if z and b is not None: m.wr(q2, p[1], p[2] + i, 1, 0); m.wr(q2, o, off, 8, at(p, i + 1)); r.append((q2, at(p, b)))
            else: todo.append((q2, i + 1, b if z or b is not None else i))
    return r
@hh('snprintf', '__snprintf_chk')
def _snprintf(m, st, I, a):
    cap = a[1]; fmt, args = (a[2], a[3:]) if I.get('callee') == 'snprintf' else (a[4], a[5:])
    d, off = (None, 0) if a[0] == 0 else m.ptr(st, a[0], I, 'formatted write'); f = L.lit(m, fmt)
    if f is None: raise AnalysisBroken(f'format at {m.where(I)} is not constant')
    out = []; i = k = 0
    while i < len(f):
        if f[i] != 37: 
            if out is not None: out.append(f[i])
            i += 1; continue
        c = f[i + 1:i + 2]; i += 2
        if c == b'%':
            if out is not None: out.append(37)
            continue
        x = args[k] if k < len(args) else 0; k += 1
        s = B.chars(m, st, x, I) if c == b's' else list(str(x if x < 1 << 31 else x - (1 << 32)).encode()) if c == b'd' and isinstance(x, int) else [x & 255] if c == b'c' and isinstance(x, int) else None
        out = out + s if out is not None and s is not None else None
    n = len(out) if out is not None else None
    if n is None: n = T.fresh(32, 'length'); st.F.rg[n] = (0, 1 << 20)
    if d is None or cap == 0: return [(st, n)]
    z = d.size
    if isinstance(cap, int):
        if isinstance(z, int) and out is None: m.bounds(st, d, off, cap, I, 'formatted write')
        elif out is not None: m.bounds(st, d, off, min(cap, len(out) + 1), I, 'formatted write')
    if out is not None and isinstance(cap, int) and isinstance(off, int):
        for j, v in enumerate(out[:cap - 1] + [0]): m.wr(st, d, off + j, 1, v)
        return [(st, n)]
    st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {d}; st.cl[('slen', d)] = (0, cap - 1 if isinstance(cap, int) else 1 << 20)
    return [(st, n)]
@hh('toupper', 'tolower')
def _case(m, st, I, a):
    v = a[0]; lo, hi, dl = (97, 122, -32) if I['callee'] == 'toupper' else (65, 90, 32)
    if isinstance(v, int): return [(st, v + dl if lo <= v <= hi else v)]
    r = []
    for s, z in m.fork_cmp(st, 'uge', v, lo, 32, I):
        if not z: r.append((s, v)); continue
        for s2, y in m.fork_cmp(s, 'ule', v, hi, 32, I): r.append((s2, T.add(v, dl, 32, s2.F) if y else v))
    return r
@hh('__ctype_b_loc')
def _ctype(m, st, I, a):
    o = m.globs.get('#ctype')
    if o is None:
        import string
        m.nobj += 1; t = {}
        for i in range(-128, 256):
            v = 0
            if 0 <= i < 128:
                c = chr(i)
                v = (1 << 8) * c.isupper() | (1 << 9) * c.islower() | (1 << 10) * c.isalpha() | (1 << 11) * c.isdigit() | (1 << 12) * (c in string.hexdigits) | (1 << 13) * (c in ' \t\n\r\v\f') | (1 << 14) * (32 <= i < 127) | (1 << 15) * (32 < i < 127) | 1 * (c in ' \t') | 2 * (i < 32 or i == 127) | 4 * (c in string.punctuation) | 8 * c.isalnum()
            t[256 + 2 * i] = (v, 2)
        o = m.globs['#ctype'] = A.Obj(m.nobj, 'glob', 768, '#ctype', None, dict(flat=t))
        m.nobj += 1; m.globs['#ctypep'] = A.Obj(m.nobj, 'glob', 8, '#ctypep', None, dict(flat={0: (dict(k='glob', n='#ctype', off=256), 8)}))
    return [(st, P(m.globs['#ctypep']))]
@hh('access', 'faccessat')
def _access(m, st, I, a):
    m.ptr(st, a[0], I, 'file name read'); return B.fail2(m, st, I, 'access', T.mask(32), lambda s: 0)
@hh('abort', '__assert_fail')
def _abort(m, st, I, a): raise PathEnd()
@hh('abs', 'labs')
def _abs(m, st, I, a):
    if isinstance(a[0], int): w = 32 if I['callee'] == 'abs' else 64; return [(st, a[0] if a[0] >> (w - 1) == 0 else (1 << w) - a[0])]
    return [(st, T.fresh(32, 'abs'))]
# the functions that were there keep their description; memcmp gets the exact one wherever strings are described byte by byte
def into(H, better=()):
    for n, f in M.items():
        if n not in H or n in better: H[n] = f
