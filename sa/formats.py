"""The published Unicode transformation formats as positional systems, and their comparison with the codecs (C19, C20)."""
from . import terms as T, forms as Fo, ir
from .blocks import Blocks, boxes, sizes
from .life import DEADEND, NEXTPHASE, CONTINUE, SUBMATCH, SNAME
c = (0x80, 64)
U8 = [(0x80, 0x7ff, [(0xc0, 32), c], 0), (0x800, 0xd7ff, [(0xe0, 16), c, c], 0), (0xe000, 0xffff, [(0xe0, 16), c, c], 0), (0x10000, 0x10ffff, [(0xf0, 8), c, c, c], 0)]
b = (0, 256)
U16 = [(0, 0xd7ff, [b, b], 0), (0xe000, 0xffff, [b, b], 0), (0x10000, 0x10ffff, [(0xd8, 4), b, (0xdc, 4), b], -0x10000)]
U32 = [(0, 0xd7ff, [b] * 4, 0), (0xe000, 0x10ffff, [b] * 4, 0)]
U2 = U16[:2]
def le(segs, n): return [(l, h, d, o, n) for l, h, d, o in segs]
# codec -> (segments (first, last, digits, value offset), bytes per code unit when little-endian, else 0)
ENC = {'to/_UTF-8': (U8, 0), 'to/UTF-16BE': (U16, 0), 'to/UTF-16LE': (U16, 2), 'to/UTF-32BE': (U32, 0), 'to/UTF-32LE': (U32, 4), 'to/UCS-2BE': (U2, 0), 'to/UCS-2LE': (U2, 2)}
DEC = {'from/_UTF-8': (U8, 0), 'from/UTF-16BE': (U16, 0), 'from/UTF-16LE': (U16, 2), 'from/UTF-32BE': (U32, 0), 'from/UTF-32LE': (U32, 4)}
def swap(x, n):
    """reverse the bytes of every code unit"""
    if not n: return list(x)
    r = []
    for i in range(0, len(x), n): r += list(x[i:i + n])[::-1]
    return r
def ucs(bs, F):
    f = [0, {}]; w = 1
    for x in reversed(bs): Fo.canon(x, F, f, w); w *= 256
    return Fo.settle(f, F)
def minus(f, n): return [f[0] + n, f[1]]
def hexs(box): return ' '.join('%02X' % l for l, h in box)
def shown(o):
    s = SNAME[o['status']] if isinstance(o['status'], int) and 0 <= o['status'] < 9 else 'an unknown status'
    u = ['?' if x is None else ' '.join('%02X' % v if isinstance(v, int) else '??' for v in x) for x in o['out'] or []]
    return s + (' and emits ' + ', '.join(u) if u else ' and emits nothing')
def only(o):
    """the single unit an outcome emits: its bytes, None when unknown, False when there is none or more than one"""
    if o['out'] is None: return None
    if len(o['out']) != 1: return False
    return o['out'][0]
def encode_expect(digits, off, n):
    def e(o):
        if o['status'] != NEXTPHASE: return False
        x = only(o)
        if x is None or x is False: return x
        F = o['st'].F
        if len(x) != len(digits): return False
        m = Fo.numeral(swap(x, n), digits, F)
        if m is None or m is False: return m
        return Fo.same(m, minus(ucs(o['B'][1:], F), off), F)
    return e
def decode_expect(digits, off, n, nb):
    def e(o):
        if o['status'] != NEXTPHASE: return False
        if isinstance(o['i'], int) and o['i'] != len(digits) - 1: return False
        x = only(o)
        if x is None or x is False: return x
        if len(x) != 1 + nb or x[0] != 1: return False if isinstance(x[0], int) else None
        F = o['st'].F
        m = Fo.numeral(swap(o['B'], n), digits, F)
        if m is None or m is False: return None
        return Fo.same(ucs(x[1:], F), minus(m, -off), F)
    return e
def refuse(o):
    return o['status'] == DEADEND and not o['out'] if isinstance(o['status'], int) and o['out'] is not None else None
def planes(lo, hi):
    """cut at the 0x10000 boundaries, and where the number of bytes changes"""
    while lo <= hi:
        e = min(hi, lo | 0xffff)
        yield from sizes(lo, e)
        lo = e + 1
def encoder(name, rep, cov):
    k = Blocks(name); ss = k.start(); segs, n = ENC[name]; one = set()
    def say(b, o): 
        if not one: rep(f'{name}:encode', f'modules/{name}.c cbconv: the unit {hexs(b)} leaves {shown(o)}; the standard has {std(name, b)}'); one.add(1)
    for s in ss:
        J = Fo.Judge(lambda bx: k.feed(s, bx), say)
        covered = []
        for lo, hi, digits, off in segs:
            for l, h, nb in planes(lo, hi):
                if name == 'to/_UTF-8' and h < 0x80: continue
                for bx in boxes(l, h, nb): J.block(((1, 1),) + bx, encode_expect(digits, off, n))
        # what is beyond the code space never becomes another character
        same = encode_expect([b] * 4, 0, n); ex = (lambda o: refuse(o) or same(o)) if segs is U32 else refuse
        for l, h, nb in sizes(0x110000, 0xffffffff):
            for bx in boxes(l, h, nb): J.block(((1, 1),) + bx, ex)
        if segs is U2:
            for l, h, nb in sizes(0x10000, 0x10ffff):
                for bx in boxes(l, h, nb): J.block(((1, 1),) + bx, refuse)
        tally(cov, J, name)
    return k
def std(name, box):
    v = 0
    for l, h in box[1:]: v = v * 256 + l
    for lo, hi, digits, off in ENC[name][0]:
        if lo <= v <= hi:
            x = v + off; r = []
            for o, q in reversed(digits): r.insert(0, o + x % q); x //= q
            return ' '.join('%02X' % y for y in swap(r, ENC[name][1]))
    return 'no such character in this format'
def decoder(name, rep, cov, options=()):
    k = Blocks(name, options); ss = k.start(); segs, n = DEC[name]; one = set(); w = f' with {"+".join(x for x, _ in options)}' if options else ''
    def say(b, o):
        if not one: rep(f'{name}:decode', f'modules/{name}.c cbconv{w}: the bytes {hexs(b)} leave {shown(o)}, at byte {o["i"]}; the standard has {hexstd(segs, n, b)}'); one.add(1)
    for s in ss:
        J = Fo.Judge(lambda bx: k.feed(s, bx), say)
        for lo, hi, digits, off in segs:
            for l, h, nb in planes(lo, hi):
                for bx in Fo.numboxes(l + off, h + off, digits):
                    J.block(tuple(swap(bx, n)), decode_expect(digits, off, n, nb))
        tally(cov, J, name)
    return k
def hexstd(segs, n, box):
    for lo, hi, digits, off in segs:
        if len(digits) != len(box): continue
        x = 0; ok = True
        for (l, _), (o, q) in zip(swap(box, n), digits): ok &= o <= l < o + q; x = x * q + l - o
        if ok and lo <= x - off <= hi: return 'U+%04X' % (x - off)
    return 'no character for them'
def tally(cov, J, name):
    cov['codecs'].add(name)
    for a in ('blocks', 'runs', 'proved', 'undecided'): cov[a] = cov.get(a, 0) + getattr(J, a)
    if J.undecided: cov.setdefault('undecided_in', set()).add(name)
A = (0, 255); C = (0x80, 0xbf); NC = ((0, 0x7f), (0xc0, 0xff))
def illformed():
    """the classes of byte sequences which are not UTF-8 (a sequence is extended to six bytes by anything)"""
    r = [('ASCII byte', [(0, 0x7f)]), ('stray continuation byte', [C]), ('overlong', [(0xc0, 0xc1), C]), ('overlong', [(0xe0, 0xe0), (0x80, 0x9f), C]), ('surrogate', [(0xed, 0xed), (0xa0, 0xbf), C]),
         ('overlong', [(0xf0, 0xf0), (0x80, 0x8f), C, C]), ('super', [(0xf4, 0xf4), (0x90, 0xbf), C, C]), ('super', [(0xf5, 0xf7), C, C, C]),
         ('longer overlong', [(0xf8, 0xf8), (0x80, 0x87), C, C, C]), ('longer', [(0xf8, 0xf8), (0x88, 0xbf), C, C, C]), ('longer', [(0xf9, 0xfb), C, C, C, C]),
         ('longer overlong', [(0xfc, 0xfc), (0x80, 0x83), C, C, C, C]), ('longer', [(0xfc, 0xfc), (0x84, 0xbf), C, C, C, C]), ('longer', [(0xfd, 0xfd), C, C, C, C, C]), ('invalid lead byte', [(0xfe, 0xff)])]
    for lead, n in (((0xc0, 0xdf), 1), ((0xe0, 0xef), 2), ((0xf0, 0xf7), 3), ((0xf8, 0xfb), 4), ((0xfc, 0xfd), 5)):
        for i in range(n):
            for x in NC: r.append(('missing continuation byte', [lead] + [C] * i + [x]))
    return r
HOLDS = {'OVERLONG': ('overlong',), 'SUPER': ('super', 'longer'), 'CESU': ('surrogate',), 'LOOSE': ('surrogate',), 'NUL': ()}
# what an option admits, in documented terms
ADMITS = {('OVERLONG',): [(1, 0x7f, [(0xc0, 32), c], 0), (1, 0x7ff, [(0xe0, 16), c, c], 0), (1, 0xd7ff, [(0xf0, 8), c, c, c], 0), (0xe000, 0xffff, [(0xf0, 8), c, c, c], 0)],
          ('SUPER',): [(0x110000, 0x1fffff, [(0xf0, 8), c, c, c], 0), (0x200000, 0x3ffffff, [(0xf8, 4), c, c, c, c], 0), (0x4000000, 0x7fffffff, [(0xfc, 2), c, c, c, c, c], 0)],
          ('LOOSE',): [(0xd800, 0xdfff, [(0xe0, 16), c, c], 0)],
          ('CESU',): [(0x10000, 0x10ffff, [(0xed, 1), (0xa0, 16), c, (0xed, 1), (0xb0, 16), c], -0x10000)],
          ('NUL', 'OVERLONG'): [(0, 0, [(0xc0, 32), c], 0), (0, 0, [(0xe0, 16), c, c], 0), (0, 0, [(0xf0, 8), c, c, c], 0)]}
def utf8(rep, cov):
    name = 'from/_UTF-8'
    for opts in ((), ('OVERLONG',), ('SUPER',), ('CESU',), ('LOOSE',), ('NUL',), ('NUL', 'OVERLONG')):
        k = Blocks(name, [(x, 0) for x in opts]); ss = k.start(); w = f' with {"+".join(opts)}' if opts else ' in its default mode'
        if not ss: raise ir.AnalysisBroken(f'{name}: cannot be created{w}')
        seen = set()
        for s in ss:
            for what, seq in illformed():
                if any(what in HOLDS[x] for x in opts) or opts == ('NUL', 'OVERLONG'): continue
                def say(b, o):
                    if (what, opts) not in seen: seen.add((what, opts)); rep(f'{name}:accepts:{what}:{"+".join(opts)}', f'modules/{name}.c cbconv{w}: the ill-formed sequence {hexs(b)} ({what}) leaves {shown(o)}')
                J = Fo.Judge(lambda bx: k.whole(s, bx), say)
                bx = tuple(seq) + (A,) * (6 - len(seq))
                J.block(bx, refuse); tally(cov, J, name)
                if opts: continue
                # the rejected sequence leaves nothing behind
                for o in k.feed(s, bx):
                    if o['status'] != DEADEND or not isinstance(o['i'], int): continue
                    s2 = k.clean(k.again(o))
                    def say2(b, o2):
                        if 'left' not in seen: seen.add('left'); rep(f'{name}:left', f'modules/{name}.c cbconv: after an ill-formed sequence ({what}), the bytes {hexs(b)} leave {shown(o2)} instead of {hexstd(U8, 0, b)}')
                    J = Fo.Judge(lambda bx: k.feed(s2, bx), say2)
                    for lo, hi, digits, off in U8:
                        for l, h, nb in planes(lo, min(hi, 0xffff)) if lo < 0x10000 else ((lo, lo | 0xffff, 3),):
                            for b2 in Fo.numboxes(l, h, digits): J.block(tuple(b2), decode_expect(digits, off, 0, nb))
                    tally(cov, J, name)
            cov['modes'] = cov.get('modes', 0) + 1
            # what stays admitted, and what the option admits
            for lo, hi, digits, off in U8 + ADMITS.get(opts, []):
                def say3(b, o):
                    if ('acc', opts) not in seen: seen.add(('acc', opts)); rep(f'{name}:refuses:{"+".join(opts)}', f'modules/{name}.c cbconv{w}: the bytes {hexs(b)} leave {shown(o)} instead of {hexstd(U8 + ADMITS.get(opts, []), 0, b)}')
                J = Fo.Judge(lambda bx: k.whole(s, bx), say3)
                for l, h, nb in planes(lo, min(hi, 0x1fffff)) if hi < 0x200000 else [(lo, lo + 0xffffff, 4), (hi - 0xffffff, hi, 4)] if lo > 0xffffff else [(0x200000, 0xffffff, 3), (0x1000000, hi, 4)]:
                    for b2 in Fo.numboxes(l + off, h + off, digits): J.block(tuple(b2), decode_expect(digits, off, 0, nb))
                tally(cov, J, name)
def carried(rep, cov):
    """what is no character is refused or carried over unchanged"""
    for name, seqs in (('from/UTF-16BE', [[(0xdc, 0xdf), A], [(0xd8, 0xdb), A, (0, 0xdb), A], [(0xd8, 0xdb), A, (0xe0, 255), A]]), ('from/UTF-32BE', [[(0, 0), (0, 0), (0xd8, 0xdf), A], [(0, 0), (0x11, 0xff), A, A], [(1, 255), A, A, A]])):
        for nm, n in ((name, 0), (name.replace('BE', 'LE'), 2 if '16' in name else 4)):
            k = Blocks(nm); seen = set()
            def say(b, o):
                if not seen: seen.add(1); rep(f'{nm}:carried', f'modules/{nm}.c cbconv: the bytes {hexs(b)}, which are no character, leave {shown(o)}')
            for s in k.start():
                for q in seqs:
                    def e(o):
                        r = refuse(o)
                        if r is True or r is None: return r
                        x = only(o)
                        if o['status'] != NEXTPHASE or not x or not isinstance(x[0], int): return False if x is not None else None
                        if x[0] != 1: return False
                        m = Fo.numeral(swap(o['B'], n), [b] * len(q), o['st'].F)
                        return Fo.same(ucs(x[1:], o['st'].F), m) if m else None
                    J = Fo.Judge(lambda bx: k.feed(s, bx), say); J.block(tuple(swap(q, n)), e); tally(cov, J, nm)
def done(rep, cov, codecs, blocks):
    u = sorted(cov.pop('undecided_in', ())); rep.cov.update({k: len(v) if isinstance(v, set) else v for k, v in cov.items()}, undecided_in=u)
    for x in u: print('  blocks not decided in', x)
    rep.floor('codecs', len(cov['codecs']), codecs); rep.floor('blocks', cov['blocks'], blocks)
