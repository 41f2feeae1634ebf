"""Maps, counters, hex data, re-initialisation and output hand-over (see sa/libw.py)."""
import itertools
from . import terms as T
from .absint import P
from . import lib as LB, libw as W
from .life import m_and1

def cstr(l, st, s, name):
    o = l.m.new(st, 'str', len(s) + 1, name)
    for i, c in enumerate(s): l.m.wr(st, o, i, 1, ord(c))
    l.m.wr(st, o, len(s), 1, 0); return P(o)
def text(l, st, p):
    r = ''
    if isinstance(p, int) or p[0] != 'P': return None
    for i in range(60):
        v = l.m.rd(st, p[1], p[2] + i, 1)
        if v == 0: return r
        r += chr(v) if isinstance(v, int) else '?'
    return r
def instance(l, st, n=1, types=(3,)):
    """a conversion of n phases whose lists are empty"""
    m = l.m; ins = m.new(st, 'ins', l.SI, 'conversion'); ph = m.new(st, 'phases', l.SP * (n + 1), 'phase list')
    for f, z in (('hash', 8), ('counter', 8), ('pool', 8)): m.wr(st, ins, l.oi[f], z, 0)
    m.wr(st, ins, l.oi['phase'], 8, P(ph)); m.wr(st, ins, l.oi['phasen'], 4, n); m.wr(st, ins, l.oi['flush'], 1, 0); m.wr(st, ins, l.oi['output_mode'], 4, 0); m.wr(st, ins, l.oi['phase_index'], 4, 1)
    for u in ('input', 'output'):
        for f, z in (('data', 8), ('len', 8), ('next', 8), ('flags', 1)): m.wr(st, ins, l.oi[u] + l.od[f], z, 0)
    for f in ('ierr', 'oerr'): c = m.new(st, 'cnt', 8, f); m.wr(st, c, 0, 8, 0); m.wr(st, ins, l.oi[f], 8, P(c)); st.cl[f] = c
    prev = None
    for i in range(n + 1):
        h = m.new(st, 'unit0', l.SD, f'list head of phase {i}'); b = i * l.SP
        for f, z in (('data', 8), ('len', 8), ('next', 8), ('flags', 1)): m.wr(st, h, l.od[f], z, 0)
        for f in ('data_head', 'data_tail'): m.wr(st, ph, b + l.op[f], 8, P(h))
        m.wr(st, ph, b + l.op['flags'], 1, 0); m.wr(st, ph, b + l.op['offset'], 4, 0); m.wr(st, ph, b + l.op['index'], 4, 0); m.wr(st, ph, b + l.op['codecn'], 4, 0); m.wr(st, ph, b + l.op['match_data'], 8, 0); m.wr(st, ph, b + l.op['i'], 4, 0)
        m.wr(st, ph, b + l.op['type'], l.op_sz('type'), 0 if i == 0 else types[i - 1])
        if prev is not None: m.wr(st, ph, b + l.op['curr'], 8, P(prev)); m.wr(st, ph, b + l.op['bak'], 8, P(prev))
        if i:
            cd = m.new(st, 'codecs', l.SC, f'codecs of phase {i}'); m.wr(st, ph, b + l.op['codec'], 8, P(cd)); z = m.new(st, 'z', None, f'table of phase {i}')
            for f in ('z', 'data_z'): m.wr(st, cd, l.oc[f], 8, P(z))
            for f in ('cbconv', 'cbflush', 'cbinit', 'cbctl', 'cbdestroy', 'cbcreate'): m.wr(st, cd, l.oc[f], 8, 0)
        prev = h
    st.cl['ph'] = ph
    return ins
def lst(l, st, head):
    """units behind a list head -> (objects, trouble)"""
    m = l.m; r = []; v = m.nrm(st, m.rd(st, head, l.od['next'], 8, True))
    while v != 0:
        if isinstance(v, int) or v[0] != 'P': return r, 'a successor that was never set'
        if st.st.get(v[1]) == 'freed': return r, 'a released unit'
        if v[1] in r: return r, 'a cycle'
        r.append(v[1]); v = m.nrm(st, m.rd(st, v[1], l.od['next'], 8, True))
        if len(r) > 50: return r, 'an endless list'
    return r, None
def unit(l, st, data, own, name):
    m = l.m; o = m.new(st, 'heap', l.SD, name); b = m.new(st, 'heap' if own else 'dz', len(data) if own else len(data) + 3, 'bytes of ' + name)
    for i, x in enumerate(data): m.wr(st, b, i, 1, x)
    m.wr(st, o, l.od['data'], 8, P(b)); m.wr(st, o, l.od['len'], 8, len(data)); m.wr(st, o, l.od['next'], 8, 0); m.wr(st, o, l.od['flags'], 1, 1 if own else 0)
    return o
def bytes_of(l, st, o):
    d = l.m.rd(st, o, l.od['data'], 8, True); n = l.m.rd(st, o, l.od['len'], 8)
    if not isinstance(n, int): return ('?',)
    if n == 0: return ()
    if isinstance(d, int) or d[0] != 'P' or st.st.get(d[1]) == 'freed': return ('released',)
    return tuple(l.m.rd(st, d[1], d[2] + i, 1) for i in range(n))

# ---- C15 -----------------------------------------------------------------------------------------------------------
def entries(l, s, ins):
    m = l.m; r = []; v = m.nrm(s, m.rd(s, ins, l.oi['hash'], 8, True))
    while v != 0:
        if isinstance(v, int) or v[0] != 'P': return None, 'an entry that was never set'
        if s.st.get(v[1]) == 'freed': return None, 'a released entry'
        k = m.rd(s, v[1], l.oh['key'], 8, True)
        if isinstance(k, int) or s.st.get(k[1]) == 'freed': return None, 'an entry whose key is released'
        if k[1].kind == 'str': return None, "an entry that refers to the caller's key"
        r.append((text(l, s, k), m.nrm(s, m.rd(s, v[1], l.oh['ptr'], 8, True)))); v = m.nrm(s, m.rd(s, v[1], l.oh['next'], 8, True))
        if len(r) > 20: return None, 'a cycle'
    return r, None
KEYS = ['1', '2', '12', '3']
def w_hash(l):
    for n in range(0, 4):
        base = KEYS[:n]
        ops = [(o, k) for o in ('get', 'has', 'del', 'set') for k in KEYS[:n + 1]]
        for seq in itertools.product(ops, repeat=2):
            l.reset(); st = l.state(); ins = instance(l, st); model = {}
            plan = [('set', k) for k in base] + list(seq)
            ctx = ', '.join(f'{o} "{k}"' for o, k in plan)
            for i, (o, k) in enumerate(plan):
                key = cstr(l, st, k, 'key'); args = [P(ins), key]
                if o == 'set': v = P(l.m.new(st, 'ext', 8, f'value {i}')); args.append(v)
                out = l.go(st, 'bsdconv_hash_' + o, args, ctx); l.cov['obligations'] += 1
                if len(out) != 1: break
                st, r = out[0]
                if o == 'set': model[k] = v
                elif o == 'get' and r != model.get(k, 0): l.add('C15', 'get', f'bsdconv_hash_get: after {ctx.rsplit(",", len(plan) - i)[0] or "nothing"}: get "{k}" gives {name(r)} instead of {name(model.get(k, 0))}')
                elif o == 'has' and r != (1 if k in model else 0): l.add('C15', 'has', f'bsdconv_hash_has: {ctx}: has "{k}" answers {r}')
                elif o == 'del': model.pop(k, None)
                e, bad = entries(l, st, ins)
                if bad: l.add('C15', 'list', f'bsdconv_hash_{o}: {ctx}: the list contains {bad}'); break
                if sorted(x for x, _ in e) != sorted(model) or dict(e) != model:
                    l.add('C15', f'content:{o}', f'bsdconv_hash_{o}: {ctx}: the entries are {[(a, name(b)) for a, b in e]} instead of {[(a, name(b)) for a, b in model.items()]}'); break
                l.leaks(st, [P(ins), key], rule='C02')
def name(v): return v[1].name if not isinstance(v, int) and v[0] == 'P' else 'nothing' if v == 0 else str(v)
def w_counter(l):
    K = ['ierr', 'IERR', 'Oerr', 'x', 'xy']
    ops = [('counter', k) for k in K] + [('reset', None)] + [('reset', k) for k in ('ierr', 'xy')]
    for seq in itertools.product(ops, repeat=3):
        l.reset(); st = l.state(); ins = instance(l, st); where = {}; val = {}
        ctx = ', '.join(f'{o} {k}' for o, k in seq)
        for i, (o, k) in enumerate(seq):
            key = cstr(l, st, k, 'key') if k is not None else 0
            out = l.go(st, 'bsdconv_counter' + ('_reset' if o == 'reset' else ''), [P(ins), key], ctx); l.cov['obligations'] += 1
            if len(out) != 1: break
            st, r = out[0]
            if o == 'counter':
                u = k.upper()
                if isinstance(r, int) or r[0] != 'P': l.add('C15', 'counter-null', f'bsdconv_counter: {ctx}: no counter is returned'); break
                if u in where and where[u] != r: l.add('C15', 'counter-moved', f'bsdconv_counter: {ctx}: the counter {u} has moved')
                if u not in where and r in where.values(): l.add('C15', 'counter-shared', f'bsdconv_counter: {ctx}: {u} shares the counter of another key')
                v = l.m.rd(st, r[1], r[2], 8)
                if u not in where and v != 0: l.add('C15', 'counter-start', f'bsdconv_counter: {ctx}: the new counter {u} does not start at zero')
                if u in where and v != val[u]: l.add('C15', 'counter-value', f'bsdconv_counter: {ctx}: the value of {u} has changed')
                where[u] = r; val[u] = 7 + i; l.m.wr(st, r[1], r[2], 8, val[u])      # the caller counts
            else:
                for u in where:
                    if k is None or k.upper() == u: val[u] = 0
                if k is not None and k.upper() not in where: pass
            for u, a in where.items():
                if st.st.get(a[1]) == 'freed': l.add('C15', 'counter-freed', f'bsdconv_counter{"_reset" if o == "reset" else ""}: {ctx}: the counter {u} is released'); break
                if l.m.rd(st, a[1], a[2], 8) != val[u]: l.add('C15', 'counter-other', f'bsdconv_counter{"_reset" if o == "reset" else ""}: {ctx}: {u} is {l.m.rd(st, a[1], a[2], 8)} instead of {val[u]}'); break
            l.leaks(st, [P(ins), key])
# ---- C21/C02: hex data ----------------------------------------------------------------------------------------------
def w_data(l):
    for c in ('', '1', '12', '123', '1234', '1x', 'x', '12x', 'xy', '123x', '9f', 'AB'):
        l.reset(); st = l.state(); d = l.m.new(st, 'ext', l.SD, 'unit'); p = l.string(st, c, 'hex string')
        for s, r in l.go(st, 'str2datum', [p, P(d)], f'"{c}"'):
            l.leaks(s, [P(d)]); dat(l, s, d, r, c)
    for c in ('', '1', '12', '1234', '12.34', '1.2', '.', '1.', '.1', '12.x', 'x.12', '12.34.56', '12..34', '12.345', '1x.2'):
        l.reset(); st = l.state(); ins = instance(l, st); e = l.m.new(st, 'ext', 4, 'result'); p = l.string(st, c, 'hex string')
        for s, r in l.go(st, 'str2data', [p, P(e), P(ins)], f'"{c}"'):
            l.leaks(s, [P(ins), r]); code = l.m.rd(s, e, 0, 4)
            if not isinstance(code, int): l.add('C17', 'status', f'str2data ({l.ctx}): the result code is not set'); continue
            v = r; n = 0
            if code == 0:
                for part in (c.split('.') if c else []):
                    if isinstance(v, int) or v[0] != 'P': l.add('C04', 'units', f'str2data ({l.ctx}): fewer units than parts'); break
                    dat(l, s, v[1], 0, part); v = l.m.nrm(s, l.m.rd(s, v[1], l.od['next'], 8, True))
                if v != 0: l.add('C04', 'end', f'str2data ({l.ctx}): the list of units is not terminated')
            elif r != 0: l.add('C17', 'status', f'str2data ({l.ctx}): fails but hands out units')
    for a in (0,):
        l.reset(); st = l.state(); d = l.m.new(st, 'ext', l.SD, 'unit')
        for s, r in l.go(st, 'str2datum', [0, P(d)], 'no string'):
            if r == 0: l.add('C17', 'missing', 'str2datum accepts a missing string')
        st = l.state(); ins = instance(l, st); e = l.m.new(st, 'ext', 4, 'result')
        for s, r in l.go(st, 'str2data', [0, P(e), P(ins)], 'no string'):
            if l.m.rd(s, e, 0, 4) == 0 or r != 0: l.add('C17', 'missing', 'str2data accepts a missing string')
    for fn in ('getCodecDir', 'bsdconv_error'):
        l.reset(); st = l.state()
        for s, r in l.go(st, fn, [], 'any environment'): l.done(s, [r])
def dat(l, s, d, r, c):
    if r != 0: return
    m = l.m; l.cov['obligations'] += 1
    p = m.rd(s, d, l.od['data'], 8, True); n = m.rd(s, d, l.od['len'], 8); fl = m.rd(s, d, l.od['flags'], 1)
    if n != len(c) // 2: l.add('C04', 'length', f'{l.fn} ({l.ctx}): the unit has {n} bytes instead of {len(c) // 2}'); return
    if isinstance(p, int) or p[0] != 'P' or p[1].kind != 'heap' or s.st.get(p[1]) != 'live' or fl != 1: l.add('C04', 'ownership', f'{l.fn} ({l.ctx}): the unit does not own live bytes'); return
    if c.isdigit():
        got = [m.rd(s, p[1], p[2] + i, 1) for i in range(n)]
        if got != list(bytes.fromhex(c[:n * 2])): l.add('C04', 'bytes', f'{l.fn} ({l.ctx}): the unit is {got}')
# ---- C05: re-initialisation ----------------------------------------------------------------------------------------
def w_init(l):
    """bsdconv_init from an instance in the middle of a stream"""
    l.expansions = []
    x = W.raw({'loadcodec': W.m_loadcodec, 'unloadcodec': W.m_unloadcodec, 'bsdconv_counter': W.m_counter, 'bsdconv_module_check': lambda m, st, I, a: [(st, 1)]}, ['bsdconv_unpack'])
    l.reset(x); st = l.state(); p = l.string(st, 'a:b,c:d', 'conversion string'); st.cl['codecs'] = (); l.m.h['*fp'] = W.m_callback
    made = [(s, r) for s, r in l.go(st, 'bsdconv_create', [p], '"a:b,c:d"') if r != 0]
    made = [x for x in made if sum('has code' in str(e) for e in x[0].log) in (0, 4)] + made[1:4]
    for s, r in made:
        ins = r[1]; ref = None
        for how in ('as created', 'in the middle of a stream'):
            s2 = s.copy()
            if how != 'as created':
                W.dirty(l, s2, ins); ph = l.m.rd(s2, ins, l.oi['phase'], 8, True)[1]
                for f, z in (('data', 8), ('len', 8), ('next', 8), ('flags', 1)):
                    for u in ('input', 'output'): l.m.wr(s2, ins, l.oi[u] + l.od[f], z, ('U', 'left from the last stream'))
                for f, z in (('flush', 1), ('output_mode', 4), ('phase_index', 4)): l.m.wr(s2, ins, l.oi[f], z, ('U', f'{f} left from the last stream'))
                for i in range(4):
                    for f in l.u.structs['bsdconv_phase']['members']:
                        if f['name'] in ('codec', 'codecn', 'type', 'data_head', 'data_tail'): continue
                        if i == 0 and f['name'] not in ('flags', 'offset', 'match_data'): continue
                        if f['name'] == 'state':
                            for g in l.u.structs['state_rt']['members']: l.m.wr(s2, ph, i * l.SP + f['off'] + g['off'], g['size'], ('U', 'state left from the last stream'))
                        else: l.m.wr(s2, ph, i * l.SP + f['off'], f['size'], ('U', f'{f["name"]} of phase {i} left from the last stream'))
                    h = l.m.rd(s2, ph, i * l.SP + l.op['data_head'], 8, True)[1]; l.m.wr(s2, h, l.od['len'], 8, 5)
            owned = [o for o in s2.st if o.name.startswith(('pending', 'bytes of pending')) and s2.st[o] == 'live' and o.kind == 'heap']
            s2.log = ()
            for s3, _ in l.go(s2, 'bsdconv_init', [r], how):
                got = snap(l, s3, ins); l.cov['obligations'] += len(got)
                inits = [e[1] for e in s3.log if e[0] == 'cbinit']; code = [k for k, *_ in s3.cl['codecs'] if s3.cl[('codec', k)] == 'created']
                if sorted(inits) != sorted(code): l.add('C05', 'cbinit', f'bsdconv_init ({how}): the init callback runs for codecs {inits}, the conversion has {code}')
                for k, v in got.items():
                    if not isinstance(v, int) and v[0] == 'U': l.add('C05', f'stale:{k}', f'bsdconv_init ({how}): {k} keeps its value from the last stream')
                for o in owned:
                    if s3.st[o] == 'live' and o not in l.reach(s3, [r]): l.add('C02', f'leak:{o.name}', f'bsdconv_init ({how}): {o.name} is neither released nor reachable')
                if ref is None: ref = got
                elif ref != got:
                    for k in got:
                        if got[k] != ref.get(k): l.add('C05', f'differs:{k}', f'bsdconv_init: {k} is {show(got[k])} after a stream was cut off, {show(ref.get(k))} in a new conversion')
                for s4, _ in l.go(s3, 'bsdconv_destroy', [r], f're-initialised {how}'): l.leaks(s4, [], what='after destruction')
def show(v): return v if isinstance(v, int) else v[1].name if v[0] == 'P' else str(v[1])
def snap(l, s, ins):
    m = l.m; r = {}
    for u, fs in (('input', ('data', 'len', 'flags')), ('output', ('data', 'len'))):
        for f in fs: r[f'{u}.{f}'] = m.rd(s, ins, l.oi[u] + l.od[f], 1 if f == 'flags' else 8)
    for f, z in (('flush', 1), ('output_mode', 4)): r[f] = m.rd(s, ins, l.oi[f], z)
    ph = m.rd(s, ins, l.oi['phase'], 8, True)[1]; n = m.rd(s, ins, l.oi['phasen'], 4)
    for i in range(n + 1):
        b = i * l.SP; h = m.rd(s, ph, b + l.op['data_head'], 8, True)
        r[f'phase {i}: first pending unit'] = m.nrm(s, m.rd(s, h[1], l.od['next'], 8, True)); r[f'phase {i}: data_head.len'] = m.rd(s, h[1], l.od['len'], 8)
        r[f'phase {i}: data_tail'] = m.rd(s, ph, b + l.op['data_tail'], 8, True)
        if i:
            for f, z in (('flags', 1), ('offset', 4), ('index', 4), ('match_data', 8), ('curr', 8)): r[f'phase {i}: {f}'] = m.rd(s, ph, b + l.op[f], z, z == 8)
            so = l.op['state']
            for g in l.u.structs['state_rt']['members']: r[f'phase {i}: state.{g["name"]}'] = m.rd(s, ph, b + so + g['off'], g['size'], g['name'] == 'data')
    return r
# ---- C16: output ---------------------------------------------------------------------------------------------------
def w_output(l):
    B = list(range(1, 60))
    combos = [(), (0,), (1,), (4,), (2, 3), (3, 0, 2), (1, 2, 3), (0, 0), (5, 1)]
    for lens in combos:
        tot = sum(lens)
        cases = [('HOLD', 0, None, None), ('NULL', 5, None, None), ('FILE', 3, None, None), ('FD', 4, None, None), ('PASS', 6, None, None)]
        cases += [('AUTOMALLOC', 1, x, None) for x in (0, 1, 7)] + [('PREMALLOCED', 2, None, None), ('PREMALLOCED', 2, 0, None)] + [('PREMALLOCED', 2, n, True) for n in range(1, tot + 3)]
        for mode, num, n, buf in cases: out1(l, lens, mode, num, n, buf)
def out1(l, lens, mode, num, n, buf):
    ctx = f'mode {mode}' + (f' with {"a buffer of" if buf else "extra"} {n} bytes' if n is not None else '') + f', {len(lens)} pending units of {list(lens)} bytes'
    l.reset({'fwrite': m_write, 'write': m_write}); st = l.state(); m = l.m; ins = instance(l, st); ph = st.cl['ph']; b = l.SP
    head = m.rd(st, ph, b + l.op['data_head'], 8, True)[1]; t = head; us = []; k = 1; want = []
    for i, ln in enumerate(lens):
        data = list(range(k, k + ln)); k += ln; want += [tuple(data)]
        u = unit(l, st, data, i % 2 == 0, f'unit {i + 1}'); m.wr(st, t, l.od['next'], 8, P(u)); t = u; us.append(u)
    m.wr(st, ph, b + l.op['data_tail'], 8, P(t)); owned = {u: m.rd(st, u, l.od['data'], 8, True)[1] for u in us if m.rd(st, u, l.od['flags'], 1) == 1}
    m.wr(st, ins, l.oi['output_mode'], 4, num); od = lambda f: l.oi['output'] + l.od[f]
    B = inso = None
    if mode == 'AUTOMALLOC': m.wr(st, ins, od('len'), 8, n)
    if mode == 'PREMALLOCED':
        m.wr(st, ins, od('len'), 8, n or 0)
        if buf: B = m.new(st, 'ext', n, 'output buffer'); m.wr(st, ins, od('data'), 8, P(B))
    if mode == 'FILE': m.wr(st, ins, od('data'), 8, P(m.new(st, 'file', None, 'output file')))
    if mode == 'FD': m.wr(st, ins, od('data'), 8, 1)
    if mode == 'PASS':
        inso = instance(l, st); m.wr(st, ins, od('data'), 8, P(inso))
        st.cl['ph'] = ph
    flat = [x for u in want for x in u]
    for s, _ in l.go(st, 'bsdconv', [P(ins)], ctx):
        l.cov['obligations'] += 4; err = lambda k, t: l.add('C16', f'{mode}:{k}', f'bsdconv ({ctx}): {t}')
        left, bad = lst(l, s, head); tail = m.rd(s, ph, b + l.op['data_tail'], 8, True)
        if bad: err('list', f'the output list contains {bad}'); continue
        if tail != P(left[-1] if left else head): err('tail', f'the tail of the output list is {name(tail)}, not its last unit'); continue
        rest = [bytes_of(l, s, u) for u in left]; ol = m.rd(s, ins, od('len'), 8); odd = m.rd(s, ins, od('data'), 8, True)
        drained = want; 
        if mode == 'HOLD' or (mode == 'PREMALLOCED' and not buf):
            drained = []
            if mode == 'HOLD' and ol != 0: err('length', f'output.len is {ol}')
            if mode == 'PREMALLOCED' and ol != len(flat): err('length', f'the size query answers {ol} instead of {len(flat)}')
        elif mode == 'AUTOMALLOC':
            if isinstance(odd, int) or odd[0] != 'P' or odd[1].kind != 'heap': err('data', 'no buffer is handed out'); continue
            if ol != len(flat): err('length', f'output.len is {ol} instead of {len(flat)}'); continue
            if odd[1].size != len(flat) + n: err('size', f'the buffer has {odd[1].size} bytes instead of {len(flat) + n}')
            got = [m.rd(s, odd[1], i, 1) for i in range(len(flat))]
            if got != flat: err('bytes', f'the buffer holds {got}')
            if m_and1(m.rd(s, ins, od('flags'), 1), s) is not True: err('flags', 'the buffer is not marked as owned')
        elif mode == 'PREMALLOCED':
            drained = []; i = 0
            for u in want:
                if i + len(u) > n: break
                drained.append(u); i += len(u)
            if ol != i: err('length', f'output.len is {ol} instead of {i}'); continue
            got = [m.rd(s, B, j, 1) for j in range(i)]
            if got != [x for u in drained for x in u]: err('bytes', f'the buffer holds {got}')
            if m_and1(m.rd(s, ins, od('flags'), 1), s) is not False: err('flags', "the caller's buffer is marked as owned by the conversion")
        elif mode in ('FILE', 'FD'):
            got = [x for e in s.log if e[0] == 'write' for x in e[1]]
            if got != flat: err('bytes', f'{got} is written')
        elif mode == 'PASS':
            got = []; v = None
            if lens:
                iu = l.oi['input']; 
                first = dict(d=m.rd(s, inso, iu + l.od['data'], 8, True), n=m.rd(s, inso, iu + l.od['len'], 8), f=m.rd(s, inso, iu + l.od['flags'], 1), x=m.nrm(s, m.rd(s, inso, iu + l.od['next'], 8, True)))
                d, k2 = first['d'], first['n']
                got.append(tuple(m.rd(s, d[1], d[2] + i, 1) for i in range(k2)) if isinstance(k2, int) and not isinstance(d, int) and s.st.get(d[1]) != 'freed' else ('released',))
                v = first['x']; own = []
                if m_and1(first['f'], s): own.append(d[1])
                while v not in (0, None):
                    if isinstance(v, int) or v[0] != 'P' or s.st.get(v[1]) == 'freed': err('list', 'the units passed on are not terminated'); break
                    got.append(bytes_of(l, s, v[1])); 
                    if m_and1(m.rd(s, v[1], l.od['flags'], 1), s): own.append(m.rd(s, v[1], l.od['data'], 8, True)[1])
                    v = m.nrm(s, m.rd(s, v[1], l.od['next'], 8, True))
                for o in own:
                    if own.count(o) > 1: err('owner', 'two units passed on own the same bytes')
            if got != want: err('bytes', f'the next conversion receives {got}')
            # nobody else may release the bytes passed on
        if rest != want[len(drained):]: err('rest', f'{len(rest)} units stay queued instead of {len(want) - len(drained)}'); continue
        nd = len(want) - len(left)
        for i, u in enumerate(us):
            d = owned.get(u)
            if i < len(drained) and mode != 'PASS' and d is not None and s.st[d] != 'freed': err('leak', f'the bytes of unit {i + 1} are not released')
            if i >= len(drained) and d is not None and s.st[d] == 'freed': err('early', f'the bytes of unit {i + 1} are released although it stays queued')
        l.leaks(s, [P(ins), P(inso) if inso else 0, odd])
def m_write(m, st, I, a):
    fn = I.get('callee')
    d, n = (a[0], T.mul(a[1], a[2], 64, st.F)) if fn == 'fwrite' else (a[1], a[2])
    if n == 0: return [(st, 0)]
    o, off = m.ptr(st, d, I, 'output read'); m.bounds(st, o, off, n, I, 'output read')
    st.emit('write', tuple(m.rd(st, o, off + i, 1) for i in range(n)) if isinstance(n, int) else ('?',))
    return [(st, n if fn != 'fwrite' else a[2])]
W.WORLDS += [w_hash, w_counter, w_data, w_init, w_output]
for f in (w_hash, w_counter, w_data, w_init, w_output): setattr(W, f.__name__, f)
