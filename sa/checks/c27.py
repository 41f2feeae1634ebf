"""Codecs that compute what they emit instead of looking it up: every block of inputs of every notation is interpreted
abstractly and the emitted bytes are compared, as formulas in the input bytes, with the published formula of the notation."""
import itertools, os
from .. import ir, tables, terms as T, forms as Fo
from ..blocks import Blocks, sizes
from ..seq import Seq, stream
from ..formats import ucs, hexs, shown, refuse, tally, only
from ..life import NEXTPHASE, DEADEND, CONTINUE, SUBMATCH, NOOP, SNAME, hexdigit, lit
from .c25 import unitform
DIG = [((0x30, 0x39), 0x30), ((0x41, 0x46), 0x37), ((0x61, 0x66), 0x57)]
DIG0 = [((0x30, 0x30), 0x30), ((0x31, 0x39), 0x30)] + DIG[1:]; DEC = DIG[:1]; OCT = [((0x30, 0x37), 0x30)]
def outside(cls, also=()):
    """the bytes not in the classes, as boxes"""
    used = sorted([c for c, _ in cls] + [(x, x) for x in also]); r = []; at = 0
    for l, h in used:
        if l > at: r.append((at, l - 1))
        at = max(at, h + 1)
    if at < 256: r.append((at, 255))
    return r
def number(bs, base, offs, F):
    f = [0, {}]; w = 1
    for b, o in reversed(list(zip(bs, offs))): Fo.canon(b, F, f, w); f[0] -= w * o; w *= base
    return Fo.settle(f, F)
class Work:
    def __init__(self, rep, name, options=()):
        self.rep = rep; self.name = name; self.k = k = Blocks(name, options); k.exact = True; k.datum = self.datum; self.data = {}
        self.cov = rep.c27; self.one = set(); self.opt = ' with ' + '&'.join(f'{a}={b}' if b else a for a, b in options) if options else ''
        self.ss = k.start()
        if not self.ss: rep.violation(f'{name}:create{self.opt}', f'modules/{name}.c cbcreate{self.opt}: never succeeds')
    def datum(self, st, p):
        s = lit(self.k.m, p)
        if s is not None: return [bytes.fromhex(x) for x in s.decode().split(',') if x] if s else [b'']
        w = st.cl.get(('key', p[1], 0), ('', b''))[1]
        if w not in self.data: self.data[w] = [T.fresh(8, 'argument byte'), T.fresh(8, 'argument byte')]
        return [self.data[w]]
    def judge(self, box, expect, what, want):
        def say(b, o):
            if what not in self.one: self.one.add(what); self.rep.violation(f'{self.name}:{what}{self.opt}', f'modules/{self.name}.c cbconv{self.opt}: {hexs(b)} leaves {shown(o)}; {want}')
        for s in self.ss:
            J = Fo.Judge(lambda b: self.k.whole(s, b) if self.name.startswith('from/') else self.k.feed(s, b), say, 3000)
            J.block(tuple(box), expect); tally(self.cov, J, self.name)
def emits(f, n=None):
    """one unit, which is the bytes f(input bytes, facts) give, after exactly n input bytes"""
    def e(o):
        if o['status'] != NEXTPHASE: return False
        if n is not None and o['i'] != n - 1: return False if isinstance(o['i'], int) else None
        x = only(o)
        if x is None or x is False: return x
        w = f(o['B'], o['st'].F)
        return None if w is None else eq(x, w, o['st'].F)
    return e
def eq(x, w, F):
    if len(x) != len(w): return False
    r = True
    for a, b in zip(x, w):
        if a == b: continue
        if isinstance(a, int) and isinstance(b, int): return False
        v = Fo.same(Fo.canon(a, F), Fo.canon(b, F), F)
        if v is False: return False
        if v is None: r = None
    return r
def char(f, n=None):
    """one unicode unit in shortest form whose number is f(input bytes, facts)"""
    def e(o):
        if o['status'] != NEXTPHASE: return False
        if n is not None and o['i'] != n - 1: return False if isinstance(o['i'], int) else None
        x = only(o)
        if x is None or x is False: return x
        m = unitform(x, o['st'].F)
        if m is None or m is False: return m
        return Fo.same(m, f(o['B'], o['st'].F), o['st'].F)
    return e
def waits(o): return o['status'] == CONTINUE and not o['out']
def refused(n):
    def e(o):
        r = refuse(o)
        return r
    return e
def prod(*cl): return itertools.product(*cl)
# ---- decoders -------------------------------------------------------------------------------------------------------
def escape_decode(rep):
    w = Work(rep, 'from/ESCAPE')
    def c(x): return (ord(x), ord(x))
    def byteform(pre, cls, base):
        k = len(pre)
        for q in prod(*cls):
            offs = [o for _, o in q]
            w.judge([c(x) for x in pre] + [b for b, _ in q], emits(lambda B, F: [3, ('form', number(B[k:], base, offs, F))], k + len(q)), pre + 'byte', f'the notation {pre}{"N" * len(q)} is the byte with that number')
    for pre in ('%', '\\x'): byteform(pre, [DIG, DIG], 16)
    for q in prod([((0x30, 0x33), 0x30)], OCT, OCT): byteform('\\', [[x] for x in q], 8)
    for a in OCT: 
        for b in ((0x34, 0x37),): w.judge([c('\\'), b, (0x30, 0x37), (0x30, 0x37)], refused(4), 'octal', 'octal numbers over \\377 are no byte')
    for pre in ('%u', '\\u'):
        for q in prod(DIG0, DIG0, DIG0, DIG0):
            offs = [o for _, o in q]; k = len(pre)
            w.judge([c(x) for x in pre] + [b for b, _ in q], char(lambda B, F: number(B[k:], 16, offs, F), k + 4), pre, f'the notation {pre}NNNN is the character with that number')
    stuck = [('', outside([], (37, 92))), ('%', outside(DIG, (ord('u'),))), ('\\', outside(OCT, (ord('u'), ord('x')))), ('\\x', outside(DIG)), ('%4', outside(DIG)), ('\\x4', outside(DIG)), ('\\1', outside(OCT)), ('\\12', outside(OCT))]
    for pre in ('%u', '\\u'): stuck += [(pre + '12f'[:n], outside(DIG)) for n in range(4)]
    for pre, bs in stuck:
        for b in bs: w.judge([c(x) for x in pre] + [b], refused(len(pre) + 1), 'reject', 'that is no escape sequence')
    for pre in ('%', '\\', '%u', '\\u', '\\x', '%4', '\\1', '\\12', '%u1', '%u12', '\\u12f'): w.judge([c(x) for x in pre], waits, 'prefix', 'more bytes are needed')
_eq = eq
def eq(x, w, F):
    """bytes against bytes or ('form', positional form)"""
    if len(x) != len(w): return False
    r = True
    for a, b in zip(x, w):
        if not isinstance(b, int) and b[0] == 'form': v = Fo.same(Fo.canon(a, F), b[1], F)
        else: v = _eq([a], [b], F)
        if v is False: return False
        if v is None: r = None
    return r
def entity(rep):
    w = Work(rep, 'from/ASCII-NUMERIC-HTML-ENTITY'); semi = (59, 59)
    for n in range(1, 11):
        for lo, hi, _ in sizes(0, min(10 ** n - 1, 0x7fffffff)):
            for bx in Fo.numboxes(lo, hi, [(48, 10)] * n): w.judge(list(bx) + [semi], char(lambda B, F: number(B[:-1], 10, [48] * n, F), n + 1), 'decimal', 'the reference is the character with that decimal number')
    x = (ord('x'), ord('x'))
    for n in (1, 2, 3, 4):
        for q in prod(*[DIG0] * n):
            offs = [o for _, o in q]
            w.judge([x] + [b for b, _ in q] + [semi], char(lambda B, F: number(B[1:-1], 16, offs, F), n + 2), 'hexadecimal', 'the reference is the character with that hexadecimal number')
    for n in (5, 6):
        for q in prod(DIG0, DIG):
            offs = [q[0][1]] + [48] * (n - 2) + [q[1][1]]
            for mid in ([(0x30, 0x30)] * (n - 3) + [(0x31, 0x39)], [(0x31, 0x39)] + [(0x30, 0x39)] * (n - 3)): w.judge([x, q[0][0]] + mid + [q[1][0], semi], char(lambda B, F: number(B[1:-1], 16, offs, F), n + 2), 'hexadecimal', 'the reference is the character with that hexadecimal number')
    def c(s): return [(ord(y), ord(y)) for y in s]
    for pre, cls in (('', DEC), ('1', DEC), ('12', DEC), ('x', DIG), ('x1', DIG), ('xf0', DIG)):
        for b in outside(cls, tuple(ord(y) for y in ('x' if pre == '' else '') + (';' if pre not in ('', 'x') else ''))): w.judge(c(pre) + [b], refused(len(pre) + 1), 'reject', 'that is no numeric character reference')
    # numbers too large for a character never become another character
    for s in ('4294967295', '4294967296', '4294967361', '9999999999', '12345678901', '42949672961', '18446744073709551617'): w.judge(c(s) + [semi], toobig(int(s)), 'overflow', 'that number is no character')
    for s in ('100000041', '1ffffffff', 'fffffffff', '10000000000000041'): w.judge(c('x' + s) + [semi], toobig(int(s, 16)), 'overflow', 'that number is no character')
def toobig(v):
    def e(o):
        if o['status'] in (DEADEND, CONTINUE): return not o['out']
        x = only(o)
        return x is not None and x is not False and x[0] == 1 and all(isinstance(y, int) for y in x) and int.from_bytes(bytes(x[1:]), 'big') == v
    return e
UDA = [(0xFA, 0xFE, 0x40, 0xE000, 0xFA), (0x8E, 0xA0, 0x40, 0xE311, 0x8E), (0x81, 0x8D, 0x40, 0xEEB8, 0x81), (0xC6, 0xC8, 0x40, 0xF672, 0xC6)]
def uda(rep):
    w = Work(rep, 'from/CP950-UDA'); lead = []
    for l, h, t0, base, y in UDA:
        lead.append(((l, h), 0)); w.judge([(l, h)], waits, 'lead', 'the second byte is needed')
        for tl, th, off in ((0x40, 0x7e, 0x40), (0xa1, 0xfe, 0x62)):
            if l == 0xc6 and tl == 0x40:
                w.judge([(0xc6, 0xc6), (tl, th)], refused(2), 'reject', 'that is outside the user-defined areas'); rows = (0xc7, 0xc8)
            else: rows = (l, h)
            w.judge([rows, (tl, th)], char(lambda B, F: lin2(B, F, base - 157 * y - off), 2), 'area', 'Microsoft code page 950 assigns 157 private-use characters per lead byte to this area')
        for tl, th in ((0, 0x3f), (0x7f, 0xa0), (0xff, 0xff)): w.judge([(l, h), (tl, th)], refused(2), 'trail', 'that is no trail byte of code page 950')
    for b in outside(lead): w.judge([b], refused(1), 'reject', 'that is outside the user-defined areas')
def lin2(B, F, c):
    f = [c, {}]; Fo.canon(B[0], F, f, 157); Fo.canon(B[1], F, f, 1); return Fo.settle(f, F)
# ---- encoders -------------------------------------------------------------------------------------------------------
def hex2(b, F, base=55):
    bs = T.to_bits(b, 8, F); return [hexdigit(T.from_bits(bs[4:], F), F, base), hexdigit(T.from_bits(bs[:4], F), F, base)]
def decimal(f):
    """one unit: fixed bytes around a decimal number"""
    def e(o):
        if o['status'] != NEXTPHASE: return False
        x = only(o)
        if x is None or x is False: return x
        pre, suf, val = f(o['B'], o['st'].F); F = o['st'].F
        if len(x) <= len(pre) + len(suf) or list(x[:len(pre)]) != list(pre) or list(x[len(x) - len(suf):]) != list(suf): return False
        ds = x[len(pre):len(x) - len(suf)]
        if len(ds) > 1:
            l, h = T.rng(ds[0], F)
            if h <= 48: return False
            if l <= 48: return None
        m = Fo.numeral(ds, [(48, 10)] * len(ds), F)
        if m is None or m is False: return m
        return Fo.same(m, val, F)
    return e
def escape_encode(rep):
    A = (0, 255)
    def args(w): return w.data.get(b'PREFIXVAL'), w.data.get(b'SUFFIXVAL')
    for mode in ('16', 'HEX', None):
        for withargs in (False, True):
            opts = ([('MODE', mode)] if mode else []) + ([('PREFIX', 'PREFIXVAL'), ('SUFFIX', 'SUFFIXVAL')] if withargs else [])
            w = Work(rep, 'to/ESCAPE', tuple(opts))
            pre = (lambda: w.data[b'PREFIXVAL']) if withargs else (lambda: [37, 117]); suf = (lambda: w.data[b'SUFFIXVAL']) if withargs else (lambda: [])
            for n in (1, 2, 3, 4): w.judge([(1, 1)] + [A] * n, emits(lambda B, F: pre() + [y for b in B[1:] for y in hex2(b, F)] + suf()), 'hex', 'prefix, the bytes of the character in hexadecimal, suffix')
            for b in ([(0, 0), A], [(2, 255), A], [(3, 3), A], [(3, 3), A, A]): w.judge(b, refuse, 'reject', 'the codec is for characters only')
    for mode in ('10', 'DEC'):
        w = Work(rep, 'to/ESCAPE', (('MODE', mode), ('PREFIX', 'PREFIXVAL'), ('SUFFIX', 'SUFFIXVAL')))
        for n in (1, 2, 3): w.judge([(1, 1)] + [(1, 255) if n > 1 else A] + [A] * (n - 1), decimal(lambda B, F: (w.data[b'PREFIXVAL'], w.data[b'SUFFIXVAL'], ucs(B[1:], F))), 'decimal', 'prefix, the number of the character in decimal, suffix')
    for mode, kind in (('16', 'hex'), ('HEX', 'hex'), ('10', 'dec'), ('DEC', 'dec'), ('8', 'oct'), ('OCT', 'oct')):
        for whom in ('BYTE', '3'):
            w = Work(rep, 'to/ESCAPE', (('FOR', whom), ('MODE', mode), ('PREFIX', 'PREFIXVAL'), ('SUFFIX', 'SUFFIXVAL')))
            P = lambda: w.data[b'PREFIXVAL']; S = lambda: w.data[b'SUFFIXVAL']
            if kind == 'hex': w.judge([(3, 3), A], emits(lambda B, F: P() + hex2(B[1], F) + S()), 'byte', 'prefix, the byte in hexadecimal, suffix')
            elif kind == 'dec': w.judge([(3, 3), A], decimal(lambda B, F: (P(), S(), ucs(B[1:], F))), 'byte', 'prefix, the byte in decimal, suffix')
            else: w.judge([(3, 3), A], emits(lambda B, F: P() + [T.add(T.from_bits((T.to_bits(B[1], 8, F) + [0])[3 * j:3 * j + 3], F), 48, 8, F) for j in (2, 1, 0)] + S()), 'byte', 'prefix, the byte as three octal digits, suffix')
            for b in ([(0, 2), A], [(4, 255), A], [(3, 3)], [(3, 3), A, A], [(1, 1), A]): w.judge(b, refuse, 'reject', 'the codec is for single bytes only')
    w = Work(rep, 'to/ESCAPE', (('FOR', 'UNICODE'),)); w.judge([(1, 1), A], emits(lambda B, F: [37, 117] + hex2(B[1], F)), 'hex', 'prefix and the bytes of the character in hexadecimal')
def raw(rep):
    A = (0, 255)
    w = Work(rep, 'to/RAW')
    for n in (1, 2, 3, 4, 5, 9): w.judge([A] + [A] * n, emits(lambda B, F: B[1:]), 'bytes', 'the bytes behind the type tag')
    w = Work(rep, 'to/BSDCONV')
    for n in (1, 2, 3, 5): w.judge([A] * n, emits(lambda B, F: [y for b in B for y in hex2(b, F)]), 'hex', 'every byte of the unit in hexadecimal')
    w = Work(rep, 'to/ASCII-HTML-UNICODE-IMG'); pre = list(b'<img class="unicode_img" src="http://www.unicode.org/cgi-bin/refglyph?24-'); suf = list(b'" />')
    for n in (1, 2, 3, 4):
        w.judge([(1, 1), (16, 255)] + [A] * (n - 1), emits(lambda B, F: pre + [y for b in B[1:] for y in hex2(b, F)] + suf), 'image', 'a reference to the glyph of the character')
        w.judge([(1, 1), (0, 15)] + [A] * (n - 1), emits(lambda B, F: pre + hex2(B[1], F)[1:] + [y for b in B[2:] for y in hex2(b, F)] + suf), 'image', 'a reference to the glyph of the character')
    for b in ([(0, 0), A], [(2, 255), A], [(2, 255), A, A]): w.judge(b, refuse, 'reject', 'only characters have a glyph')
def constant(rep):
    """the ANY codecs emit what they are told, for every input"""
    A = (0, 255)
    for c, dflt in (('from/ANY', [[1, 0x3f]]), ('to/ANY', [[0x3f]])):
        for opts, want in (((), dflt), ((('013F', None),), None), ((('DROP', None),), [])):
            w = Work(rep, c, tuple((a, 0 if b is None else b) for a, b in opts))
            def e(o):
                if o['status'] != NEXTPHASE: return False
                if o['out'] is None or None in o['out']: return None
                exp = want if want is not None else [w.data[b'013F']]
                return [list(x) for x in o['out']] == [list(x) for x in exp]
            if c.startswith('from'): w.judge([A], e, 'any', 'it stands for the configured replacement')
            else:
                for n in (1, 2, 4): w.judge([A] * n, e, 'any', 'it stands for the configured replacement')
def run(rep):
    rep.c27 = cov = dict(codecs=set()); import time
    for f in (escape_decode, entity, uda, escape_encode, raw, constant):
        t = time.time(); n0 = cov.get('blocks', 0); f(rep)
        if os.environ.get('DBG'): print(f.__name__, cov.get('blocks', 0) - n0, {k: v for k, v in cov.items() if k != 'codecs'}, round(time.time() - t, 1))
    rep.floor('codecs', len(cov['codecs']), 8); rep.floor('blocks', cov['blocks'], 500)
    for k in ('runs', 'proved', 'undecided'): rep.cov[k] = cov.get(k, 0)
    rep.floor('proved', cov['proved'], 500)
