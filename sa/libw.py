"""The worlds from which the public calls of the library are analysed (see sa/lib.py)."""
import os, json, hashlib
from . import ir, terms as T
from .ir import AnalysisBroken
from .absint import P, PathEnd
from .lib import Lib, TYPES, FROM, INTER, TO, FILTER, SCORER, fail2, fork, chars, slen
from . import lib as LB

def raw(x, names):
    """interpret these functions instead of using their contract"""
    return {n: None for n in names} | x

# ---- C01/C02/C17: module lookup ------------------------------------------------------------------------------------
def w_lookup(l):
    for t in (FROM, INTER, TO, FILTER, SCORER, 0, 9):
        l.reset({'bsdconv_module_check': None}); st = l.state()
        n = l.string(st, 'ab-C', 'name')
        for s, r in l.go(st, 'bsdconv_module_check', [t, n], f'type {TYPES[t]}'):
            l.done(s)
            o = {e[1] for e in s.log if e[0] == 'fopen'}
            want = 1 if 'succeeds' in o else 0
            if r != want: l.add('C17', 'result', f'bsdconv_module_check ({l.ctx}): answers {r} where the file {"exists" if want else "is missing"} ({l.path(s)})')
    l.maxent = 2; l.maxlines = 1
    for t in (FROM, INTER, TO, FILTER, SCORER, 0, 9):
        l.reset(); st = l.state()
        for s, r in l.go(st, 'bsdconv_modules_list', [t], f'type {TYPES[t]}'):
            l.done(s, [r]); termlist(l, s, r)
    # long listings, one path: the list grows past its first allocation
    for n in (6, 7, 8, 9, 16, 17):
        for t in (FROM, FILTER):
            l.reset({'readdir': lambda m, st, I, a, n=n: always(m, st, n), 'strstr': lambda m, st, I, a, t=t: [(st, a[0] if t == FILTER else 0)],
                     'strcmp': lambda m, st, I, a: [(st, 1)], 'strsep': lambda m, st, I, a: [(st, m.rd(st, a[0][1], a[0][2], 8, True))], 'fopen': lambda m, st, I, a: [(st, 0)], 'opendir': lambda m, st, I, a: [(st, P(m.new(st, 'dir', None, 'directory')))]})
            st = l.state()
            for s, r in l.go(st, 'bsdconv_modules_list', [t], f'type {TYPES[t]}, {n} directory entries'):
                l.done(s, [r]); termlist(l, s, r)
    for t in (FROM, INTER, TO, FILTER, SCORER, 0, 9):
        l.reset({'bsdconv_solve_alias': None, 'bsdconv_create': c_create, 'bsdconv_init': c_init, 'bsdconv': c_bsdconv, 'bsdconv_counter': c_counter, 'bsdconv_destroy': c_destroy}); st = l.state()
        n = l.string(st, 'ab-C', 'name'); l.m.on_store = endmark
        for s, r in l.go(st, 'bsdconv_solve_alias', [t, n], f'type {TYPES[t]}'):
            l.done(s, [r])
            if r != 0 and r is not None and not isinstance(r, int) and s.cl.get('nul') is not True:
                z = [v for k, (v, w) in (s.mem.get(r[1]) or {}).items() if v == 0]
                if not z: l.add('C17', 'terminator', f'bsdconv_solve_alias ({l.ctx}): the name handed out is not terminated')
def endmark(st, o, off, sz, v, I):
    if o.name == 'output' and v == 0 and off == st.cl.get('outlen'): st.cl['nul'] = True
def always(m, st, n):
    k = st.cl.get('entries', 0)
    if k >= n: return [(st, 0)]
    st.cl['entries'] = k + 1; e = st.cl.get('dirent')
    if e is None:
        e = st.cl['dirent'] = m.new(st, 'ext', None, 'directory entry')
    return [(st, P(e))]
def termlist(l, s, r):
    l.cov['obligations'] += 1
    if isinstance(r, int) or r[0] != 'P': return l.add('C17', 'result', f'{l.fn} ({l.ctx}): no list is returned')
    i = 0; seen = set()
    while i < 4000:
        v = l.m.nrm(s, l.m.rd(s, r[1], r[2] + 8 * i, 8, True))
        if v == 0: return
        if isinstance(v, int) or v[0] != 'P': return l.add('C17', 'list-end', f'{l.fn} ({l.ctx}): the list is not terminated (entry {i}: {v[0]}) ({l.path(s)})')
        if s.st.get(v[1]) == 'freed' or v in seen: return l.add('C02', 'list-entry', f'{l.fn} ({l.ctx}): entry {i} of the list is released or listed twice')
        seen.add(v); i += 1
# contracts for solve_alias
def c_create(m, st, I, a):
    def good(s):
        o = m.new(s, 'inst', m.u.size('bsdconv_instance'), 'conversion'); s.cl['havoc'] = s.cl.get('havoc', frozenset()) | {o}; s.cl['phase'] = 'created'; return P(o)
    m.ptr(st, a[0], I, 'conversion read'); return fail2(m, st, I, 'bsdconv_create', 0, good)
def c_init(m, st, I, a):
    o, _ = m.ptr(st, a[0], I, 'conversion'); st.cl['phase'] = 'ready'
    for f, n in (('data', 8), ('len', 8), ('flags', 1)): m.wr(st, o, m.life.oi['input'] + m.life.od[f], n, 0); 
    m.wr(st, o, m.life.oi['output'] + m.life.od['data'], 8, 0); m.wr(st, o, m.life.oi['output'] + m.life.od['len'], 8, 0); m.wr(st, o, m.life.oi['output_mode'], 4, 0); m.wr(st, o, m.life.oi['flush'], 1, 0)
    return [(st, None)]
def c_bsdconv(m, st, I, a):
    o, _ = m.ptr(st, a[0], I, 'conversion'); l = m.life; oi, od = l.oi, l.od
    if st.cl.get('phase') != 'ready': m.bad(st, 'uninit-use', I, 'bsdconv on a conversion that was not initialised', 'conversion')
    d = m.rd(st, o, oi['input'] + od['data'], 8, True); n = m.rd(st, o, oi['input'] + od['len'], 8); nx = m.rd(st, o, oi['input'] + od['next'], 8, True); fl = m.rd(st, o, oi['input'] + od['flags'], 1)
    if d != 0:
        do, off = m.ptr(st, d, I, 'input'); m.bounds(st, do, off, n, I, 'input')
        if nx != 0: m.bad(st, 'uninit-use', I, 'bsdconv with an input unit whose successor is not cleared', 'input.next')
        if fl == 1: st.st[do] = 'given'          # the conversion now owns it
    m.wr(st, o, oi['input'] + od['data'], 8, 0)
    mode = m.rd(st, o, oi['output_mode'], 4)
    if mode == 1:
        extra = m.rd(st, o, oi['output'] + od['len'], 8); ln = T.fresh(64, 'output length'); st.F.rg[ln] = (0, 1 << 30); st.cl['outlen'] = ln
        b = m.new(st, 'heap', T.add(ln, extra, 64, st.F), 'output'); st.cl['havoc'] = st.cl.get('havoc', frozenset()) | {b}
        m.wr(st, o, oi['output'] + od['data'], 8, P(b)); m.wr(st, o, oi['output'] + od['len'], 8, ln)
    else: m.bad(st, 'uninit-use', I, f'output mode {mode}', 'mode')
    return [(st, None)]
def c_counter(m, st, I, a):
    m.ptr(st, a[0], I, 'conversion'); m.ptr(st, a[1], I, 'key')
    o = m.new(st, 'ext', 8, 'counter'); return [(st, P(o))]
def c_destroy(m, st, I, a):
    o, off = m.ptr(st, a[0], I, 'conversion')
    st.st[o] = 'freed'
    return [(st, None)]

# ---- C01/C02/C17/C21: loading ---------------------------------------------------------------------------------------
def w_load(l):
    l.expansions = ['xyz']
    for k in ('filter', 'scorer'):
        l.reset(); l.m.maxvisit = 6; l.symfork = True; st = l.state(); n = l.string(st, 'ab-C', 'name')
        for s, r in l.go(st, f'load_{k}', [n], 'any name'):
            l.done(s, [r])
            if isinstance(r, int): continue
            sz = l.u.structs[f'bsdconv_{k}']; off = {m['name']: m['off'] for m in sz['members']}
            fp = l.m.rd(s, r[1], off[f'cb{k}'], 8, True)
            if isinstance(fp, int) or fp[0] != 'F': l.add('C17', 'entry-point', f'load_{k}: succeeds although the module has no cb{k} ({l.path(s)})')
            elif fp != ('F', f'@cb{k}'): l.add('C08', 'entry-point', f'load_{k}: cb{k} is set to the symbol {fp[1][1:]}')
            if l.viol: pass
            for s2, _ in l.go(s, f'unload_{k}', [r], 'after a successful load'): l.done(s2)
    for t in (FROM, INTER, TO):
        l.reset(); l.symfork = False; st = l.state()
        for fk in (0,):
            cd = l.m.new(st, 'codecs', l.SC, 'codec'); d = l.string(st, 'ab-C', 'codec name'); l.m.wr(st, cd, l.oc['desc'], 8, d); l.m.wr(st, cd, l.oc['argv'], 8, 0)
            for s, r in l.go(st, 'loadcodec', [P(cd), t], f'type {TYPES[t]}'):
                l.cwd(s)
                if r == 0: l.leaks(s, [], what='after the load failed'); continue
                if r != 1: l.add('C17', 'result', f'loadcodec ({l.ctx}): answers {r}'); continue
                l.leaks(s, [P(cd)])
                for f in ('cbconv', 'cbflush', 'cbcreate', 'cbinit', 'cbctl', 'cbdestroy'):
                    v = l.m.rd(s, cd, l.oc[f], 8, True); dl = any(o.kind == 'dl' for o in s.st)
                    l.cov['obligations'] += 1
                    if v != (('F', '@' + f) if dl else 0): l.add('C08', f'symbol:{f}', f'loadcodec ({l.ctx}): {f} of the codec is {v[1] if not isinstance(v, int) and len(v) > 1 else v} ({l.path(s)})')
                z, dz = l.m.rd(s, cd, l.oc['z'], 8, True), l.m.rd(s, cd, l.oc['data_z'], 8, True)
                if isinstance(z, int) or z[0] != 'P' or z[1].kind != 'map' or z != dz: l.add('C08', 'table', f'loadcodec ({l.ctx}): the table is not the mapping of the file')
                for s2, _ in l.go(s, 'unloadcodec', [P(cd)], f'after loading a codec, type {TYPES[t]}'): l.leaks(s2, [], what='after unloading'); l.cwd(s2)

# ---- C02/C17/C21/C24: conversion strings ----------------------------------------------------------------------------
SHAPES = ['a', 'a:b', 'a:b:c', 'a,b:c', 'a:b,c:d', 'a,b:c,d', 'a:b|c:d', 'a:b|c', 'a|b', 'a|b:c', 'a#p:b', 'a:b#p=q&r:c', 'a,b#p:c#q,d', 'aa:bb', 'a:b:c:d', 'a|b|c', 'a,b,c:d']
BAD = ['', ':', 'a:', ':a', 'a::b', 'a,:b', ',a', 'a,,b:c', 'a:b,', 'a|', '|a', 'a:b|', 'a:b,c,:d', '#p:a', 'a:#p', 'a:b,#p', 'a:b:,c', 'a,b:c,d:e,', 'a||b']
def structure(c):
    """the phases a conversion string stands for: [(type, [(name, args)])]"""
    r = []
    for seg in c.split('|'):
        ph = seg.split(':')
        for i, p in enumerate(ph):
            t = INTER if len(ph) == 1 else FROM if i == 0 else TO if i == len(ph) - 1 else INTER
            cs = []
            for x in p.split(','):
                n, _, arg = x.partition('#'); cs.append((n, arg if '#' in x else None))
            r.append((t, cs))
    return r
def join(st):
    """canonical text of a structure"""
    r = ''; inside = False
    for i, (t, cs) in enumerate(st):
        if i: r += ':' if inside and t != FROM else '|'
        inside = True if t == FROM else False if t == TO else inside
        r += ','.join(n + ('#' + a if a else '') for n, a in cs)
    return r
def valid(c): return c != '' and all(n for _, cs in structure(c) for n, a in cs)
def rd_structure(l, s, ins):
    m = l.m; n = m.rd(s, ins, l.oi['phasen'], 4); ph = m.rd(s, ins, l.oi['phase'], 8, True); r = []
    for i in range(1, n + 1):
        b = i * l.SP; t = m.rd(s, ph[1], b + l.op['type'], 1 if l.op_sz('type') == 1 else 4); cn = m.rd(s, ph[1], b + l.op['codecn'], 4); cd = m.rd(s, ph[1], b + l.op['codec'], 8, True); cs = []
        for j in range(cn + 1):
            d = m.rd(s, cd[1], j * l.SC + l.oc['desc'], 8, True); a = m.rd(s, cd[1], j * l.SC + l.oc['argv'], 8, True)
            cs.append((l.read(s, d), None if a == 0 else l.read(s, a)))
        r.append((t, cs))
    return r
def op_sz(self, f): return next(m['size'] for m in self.u.structs['bsdconv_phase']['members'] if m['name'] == f)
Lib.op_sz = op_sz
def w_strings(l):
    for c in SHAPES + BAD:
        l.reset(); st = l.state(); p = l.string(st, c, 'conversion string')
        for s, r in l.go(st, 'bsdconv_unpack', [p], f'"{c}"'):
            l.done(s, [r]); l.cov['obligations'] += 1
            if (r != 0) != valid(c): l.add('C24', 'accepts', f'bsdconv_unpack: {"refuses" if r == 0 else "accepts"} "{c}"'); continue
            if r == 0: continue
            try: got = rd_structure(l, s, r[1])
            except (TypeError, IndexError): got = 'an incomplete structure'
            if got != structure(c): l.add('C24', 'structure', f'bsdconv_unpack: "{c}" is read as {got}'); continue
            before = got
            for s2, q in l.go(s, 'bsdconv_pack', [r], f'unpacked from "{c}"'):
                l.leaks(s2, [r, q]); l.cov['obligations'] += 1
                txt = l.read(s2, q)
                if txt != join(structure(c)): l.add('C24', 'text', f'bsdconv_pack: "{c}" becomes "{txt}"')
                if rd_structure(l, s2, r[1]) != before: l.add('C24', 'modifies', f'bsdconv_pack: the conversion "{c}" itself is changed')
    edits(l)
def pidx(n, k): return k if 0 <= k < n else n if k >= n else (k + n if k + n >= 0 else None)
def edits(l):
    shapes = ['a:b', 'a:b:c', 'a,b:c', 'a:b,c:d', 'a:b|c:d', 'a#p:b', 'a', 'a:b,c#q,d:e']
    for c in shapes:
        S = structure(c); n = len(S)
        for k in (-n - 2, -n - 1, -n, -1, 0, 1, n - 1, n, n + 1):
            i = pidx(n, k)
            for fn in ('bsdconv_insert_phase', 'bsdconv_replace_phase'):
                E = [(t, list(cs)) for t, cs in S]
                if fn == 'bsdconv_insert_phase':
                    E = None if i is None else E[:i] + [(INTER, [('x', None)])] + E[i:]
                elif i is None or i >= n: E = None
                else: E[i] = (INTER, [('x', None)])
                one(l, fn, c, [INTER, k & T.mask(32)], k, E)
            ncs = [len(cs) for t, cs in S]
            for kc in sorted({-3, -2, -1, 0, 1, 2, 3}):
                for fn in ('bsdconv_insert_codec', 'bsdconv_replace_codec'):
                    E = [(t, list(cs)) for t, cs in S]
                    if i is None or i >= n: E = None
                    else:
                        j = pidx(ncs[i], kc)
                        if j is None or (fn == 'bsdconv_replace_codec' and j >= ncs[i]): E = None
                        elif fn == 'bsdconv_insert_codec': E[i][1].insert(j, ('x', None))
                        else: E[i][1][j] = ('x', None)
                    one(l, fn, c, [k & T.mask(32), kc & T.mask(32)], (k, kc), E)
def one(l, fn, c, tail, k, E):
    l.reset({'bsdconv_unpack': None}); st = l.state(); p = l.string(st, c, 'conversion string'); x = l.string(st, 'x', 'codec name')
    for s, r in l.go(st, fn, [p, x] + tail, f'"{c}", index {k}'):
        l.done(s, [r]); l.cov['obligations'] += 1
        want = None if E is None else join(E); got = None if r == 0 else l.read(s, r)
        if got != want: l.add('C24', 'edit', f'{fn}: "{c}" with index {k} gives "{got}" instead of "{want}"')

# ---- C02/C17: creation and destruction ------------------------------------------------------------------------------
def codec_id(l, st, o, off):
    """which codec of the conversion does the pointer denote"""
    return None
def w_create(l):
    for c, exps in (('a:b', ['c']), ('a,b:c', []), ('a#p=q&r:b', ['x']), ('a:b:c', []), (' a:\tb\n', []), ('a:', []), ('a:b,', ['x:y']), ('a#p:b', ['c,d', 'e'])):
        l.expansions = exps
        x = raw({'loadcodec': m_loadcodec, 'unloadcodec': m_unloadcodec, 'bsdconv_counter': m_counter}, ['bsdconv_unpack'])
        if len(exps) == 0 and c.count(':') + c.count(',') > 1: x['bsdconv_module_check'] = lambda m, st, I, a: [(m.ptr(st, a[1], I, 'name read') and st, 1)]
        l.reset(x, maxsteps=6000000); st = l.state(); p = l.string(st, c, 'conversion string'); st.cl['codecs'] = ()
        l.m.h['*fp'] = m_callback
        for s, r in l.go(st, 'bsdconv_create', [p], json.dumps(c)):
            l.cwd(s); l.cov['obligations'] += 1
            l.fn, l.ctx = 'bsdconv_create', json.dumps(c)
            if r == 0:
                l.leaks(s, [], what='after creation failed'); balance(l, s, False)
                if l.m.rd(s, s.cl['errno'], 0, 4) == 0 if s.cl.get('errno') else True: l.add('C17', 'no-error', f'bsdconv_create ({l.ctx}): fails without setting an error ({l.path(s)})')
                continue
            l.leaks(s, [r]); balance(l, s, True)
            fresh(l, s, r[1])
            for how in ('unused', 'in use'):
                s2 = s.copy()
                if how == 'in use':
                    for s2, _ in l.go(s2, 'bsdconv_init', [r], 'after creation'): break
                    dirty(l, s2, r[1])
                for s3, _ in l.go(s2, 'bsdconv_destroy', [r], f'{how}, {json.dumps(c)}'):
                    l.leaks(s3, [], what='after destruction'); l.cwd(s3); balance(l, s3, False)
def fresh(l, s, ins):
    """creation leaves every phase with an empty list head"""
    m = l.m; ph = m.rd(s, ins, l.oi['phase'], 8, True); n = m.rd(s, ins, l.oi['phasen'], 4)
    for i in range(n + 1):
        h = m.nrm(s, m.rd(s, ph[1], i * l.SP + l.op['data_head'], 8, True)); l.cov['obligations'] += 1
        if isinstance(h, int) or h[0] != 'P': l.add('C02', 'head', f'bsdconv_create ({l.ctx}): phase {i} has no list head'); continue
        if m.rd(s, h[1], l.od['next'], 8, True) != 0 or m.rd(s, h[1], l.od['flags'], 1) != 0: l.add('C04', 'head', f'bsdconv_create ({l.ctx}): the list head of phase {i} is not empty')
    for f in ('ierr', 'oerr'):
        v = m.rd(s, ins, l.oi[f], 8, True)
        if isinstance(v, int) or v[0] != 'P' or v[1].name != f'counter {f.upper()}': l.add('C13', f, f'bsdconv_create ({l.ctx}): {f} does not refer to the counter {f.upper()}')
def addunit(l, s, ph, i, k):
    """append a unit to the list of phase i"""
    m = l.m; h = m.rd(s, ph, i * l.SP + l.op['data_head'], 8, True)[1]
    while m.rd(s, h, l.od['next'], 8, True) != 0: h = m.rd(s, h, l.od['next'], 8, True)[1]
    o = m.new(s, 'heap', l.SD, f'pending unit {k} of phase {i}'); b = m.new(s, 'heap' if k % 2 else 'dz', 4, f'bytes of pending unit {k} of phase {i}')
    m.wr(s, o, l.od['next'], 8, 0); m.wr(s, o, l.od['flags'], 1, k % 2); m.wr(s, o, l.od['data'], 8, P(b)); m.wr(s, o, l.od['len'], 8, 4); m.wr(s, h, l.od['next'], 8, P(o))
    m.wr(s, ph, i * l.SP + l.op['data_tail'], 8, P(o))
    return o
def dirty(l, s, ins):
    m = l.m; ph = m.rd(s, ins, l.oi['phase'], 8, True)[1]; n = m.rd(s, ins, l.oi['phasen'], 4)
    for i in range(n + 1):
        addunit(l, s, ph, i, 1); addunit(l, s, ph, i, 2)
    for f in ('hash',):
        e = m.new(s, 'heap', l.u.size('bsdconv_hash_entry'), 'hash entry'); k = m.new(s, 'heap', 2, 'hash key'); m.wr(s, e, l.oh['key'], 8, P(k)); m.wr(s, e, l.oh['ptr'], 8, 0); m.wr(s, e, l.oh['next'], 8, m.rd(s, ins, l.oi['hash'], 8, True)); m.wr(s, ins, l.oi['hash'], 8, P(e))
    for k in range(2):
        o = m.new(s, 'heap', l.SD, 'pooled unit'); m.wr(s, o, l.od['next'], 8, m.rd(s, ins, l.oi['pool'], 8, True)); m.wr(s, o, l.od['flags'], 1, 1); m.wr(s, o, l.od['data'], 8, ('U', 'stale')); m.wr(s, ins, l.oi['pool'], 8, P(o))
def m_loadcodec(m, st, I, a):
    l = m.life; o, off = m.ptr(st, a[0], I, 'codec')
    d = m.rd(st, o, off + l.oc['desc'], 8, True); m.ptr(st, d, I, 'codec name')
    m.bounds(st, o, off, l.SC, I, 'codec')
    k = len(st.cl['codecs']); bad, st = fork(st); bad.emit(f'load {k}', 'fails'); seterr(m, bad); st.emit(f'load {k}', 'succeeds')
    fd = m.new(st, 'map', None, f'loaded codec {k}'); st.cl['codecs'] = st.cl['codecs'] + ((k, o, off, a[1]),); st.cl[('codec', k)] = 'loaded'
    m.wr(st, o, off + l.oc['z'], 8, P(fd)); m.wr(st, o, off + l.oc['data_z'], 8, P(fd)); m.wr(st, o, off + l.oc['dl'], 8, 0)
    plain, st = fork(st); st.emit(f'codec {k}', 'has code')
    for f in ('cbconv', 'cbflush', 'cbcreate', 'cbinit', 'cbctl', 'cbdestroy'):
        m.wr(plain, o, off + l.oc[f], 8, 0); m.wr(st, o, off + l.oc[f], 8, P(m.new(st, 'code', None, f'{f}:{k}')))
    if a[1] not in (1, 2, 3): m.bad(st, 'uninit-use', I, f'codec is loaded as type {a[1]}', 'type')
    return [(st, 1), (plain, 1), (bad, 0)]
def seterr(m, st): m.wr(st, LB._errno(m, st, {}, [])[0][1][1], 0, 4, 95)
def ident(m, st, o, off):
    for k, co, coff, t in st.cl['codecs']:
        if co == o and coff == off: return k
def m_unloadcodec(m, st, I, a):
    o, off = m.ptr(st, a[0], I, 'codec'); k = ident(m, st, o, off)
    if k is None: m.bad(st, 'bad-release', I, f'a codec that was not loaded is unloaded', 'codec'); return [(st, None)]
    s = st.cl[('codec', k)]
    if s == 'unloaded': m.bad(st, 'double-release', I, 'a codec is unloaded twice', 'codec')
    if s == 'created': m.bad(st, 'bad-release', I, 'a codec is unloaded before its destroy callback ran', 'codec')
    z = m.rd(st, o, off + m.life.oc['z'], 8, True)
    if not isinstance(z, int) and z[0] == 'P': st.st[z[1]] = 'freed'
    st.cl[('codec', k)] = 'unloaded'; return [(st, None)]
def m_callback(m, st, I, a):
    l = m.life; f = a[0]
    if isinstance(f, int): m.bad(st, 'null-call', I, 'call through a null function pointer', 'callback'); raise PathEnd()
    if f[0] == 'U' or f[1].kind != 'code': m.bad(st, 'uninit-deref', I, 'call through a pointer that was never set', 'callback'); raise PathEnd()
    name, k = f[1].name.split(':'); k = int(k)
    ins, off = m.ptr(st, a[1], I, 'conversion')
    # the callback finds its codec through phase_index and index
    ph = m.rd(st, ins, l.oi['phase'], 8, True); pi = m.rd(st, ins, l.oi['phase_index'], 4)
    co = None
    if isinstance(pi, int) and not isinstance(ph, int) and ph[0] == 'P':
        po, _ = m.ptr(st, ph, I, 'phase list')
        ix = m.rd(st, po, pi * l.SP + l.op['index'], 4); cl = m.rd(st, po, pi * l.SP + l.op['codec'], 8, True)
        if isinstance(ix, int) and not isinstance(cl, int) and cl[0] == 'P': o2, f2 = m.ptr(st, cl, I, 'codec list'); co = ident(m, st, o2, f2 + ix * l.SC)
    if co != k: m.bad(st, 'uninit-use', I, f'{name} of a codec is called while phase_index and index do not denote it', name)
    s = st.cl[('codec', k)]
    if s == 'unloaded': m.bad(st, 'use-after-free', I, f'{name} of a codec is called after the codec was unloaded', name); raise PathEnd()
    if name == 'cbcreate':
        if s != 'loaded': m.bad(st, 'double-release', I, 'cbcreate is called twice', name)
        if a[2] != 0:
            v = a[2]; n = 0
            while v != 0 and n < 9:
                o, of = m.ptr(st, v, I, 'argument list'); key = m.rd(st, o, of + l.oh['key'], 8, True); val = m.rd(st, o, of + l.oh['ptr'], 8, True)
                chars(m, st, key, I); val == 0 or chars(m, st, val, I); st.emit('argument', f'{l.read(st, key)}={l.read(st, val) if val != 0 else None}')
                v = m.nrm(st, m.rd(st, o, of + l.oh['next'], 8, True)); n += 1
        pool(l, st, ins)
        bad, st = fork(st); bad.emit(f'create {k}', 'fails'); st.cl[('codec', k)] = 'created'; return [(st, 0), (bad, 22)]
    if name == 'cbdestroy':
        if s != 'created': m.bad(st, 'double-release', I, f'cbdestroy of a codec that is {s}', name)
        st.cl[('codec', k)] = 'destroyed'; return [(st, None)]
    if name == 'cbinit':
        if s != 'created': m.bad(st, 'uninit-use', I, f'cbinit of a codec that is {s}', name)
        st.emit('cbinit', k); return [(st, None)]
    return [(st, None)]
def pool(l, st, ins):
    """a codec's creation may leave recycled units behind"""
    o = l.m.new(st, 'heap', l.SD, 'pooled unit'); p = l.m.rd(st, ins, l.oi['pool'], 8, True)
    if not isinstance(p, int) and p[0] == 'U': l.m.bad(st, 'uninit-use', {'fn': 'bsdconv_create'}, 'the unit pool is used before it is set', 'pool')
    l.m.wr(st, o, l.od['next'], 8, p); l.m.wr(st, ins, l.oi['pool'], 8, P(o))
def m_counter(m, st, I, a):
    l = m.life; o, _ = m.ptr(st, a[0], I, 'conversion'); n = LB.lit(m, a[1]); p = m.rd(st, o, l.oi['counter'], 8, True)
    if not isinstance(p, int) and p[0] == 'U': m.bad(st, 'uninit-use', I, 'the counter list is used before it is set', 'counter')
    e = m.new(st, 'heap', l.u.size('bsdconv_counter_entry'), 'counter ' + (n or b'?').decode().upper()); k = m.new(st, 'heap', 5, 'counter key')
    m.wr(st, e, l.on['key'], 8, P(k)); m.wr(st, e, l.on['val'], 8, 0); m.wr(st, e, l.on['next'], 8, p); m.wr(st, o, l.oi['counter'], 8, P(e))
    return [(st, P(e, l.on['val']))]
def balance(l, s, alive):
    for k, o, off, t in s.cl['codecs']:
        z = s.cl[('codec', k)]; l.cov['obligations'] += 1
        code = any(e == (f'codec {k}', 'has code') for e in s.log)
        want = ('created' if code else 'loaded') if alive else 'unloaded'
        if z != want: l.add('C02', f'codec:{z}', f'{l.fn} ({l.ctx}): codec {k} is left {z} instead of {want} ({l.path(s)})')
    if not alive: return

def run(l):
    l.maxent = 2; l.maxlines = 2; l.symfork = True; l.expansions = []
    for w in WORLDS: w(l)
    return l
WORLDS = [w_lookup, w_load, w_strings, w_create]

# ---- C12/C29: the command-line converter (sa/libt.py) ----------------------------------------------------------------
def w_tool(l):
    from . import libt
    t = libt.world(tier=l.tier); l.viol += t.viol; l.cov = t.cov

def _mk(i):
    def f(l):
        from . import libk
        libk.run(l, i, 5)
    return f
for _i in range(5): globals()[f'w_mktable_{_i}'] = _mk(_i)
