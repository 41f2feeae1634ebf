"""Every entry of every charset table with an independently published definition available offline (the C library's and
Python's charset codecs) and of every Unicode case, decomposition, composition, combining-class and East Asian width table
(Python's unicodedata) is compared with that definition, in both directions (wrong value, extra entry, missing entry).
Vendor differences of this project are recorded entry by entry, with their value, in data/published; anything else is a violation."""
import ctypes, unicodedata, html.entities
from .. import ir, tables, pairs, record

# ---- published charsets --------------------------------------------------------------------------------------------
class Iconv:
    lib = ctypes.CDLL(None, use_errno=True)
    lib.iconv_open.restype = ctypes.c_void_p; lib.iconv_open.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
    lib.iconv.restype = ctypes.c_size_t
    lib.iconv.argtypes = [ctypes.c_void_p] + [ctypes.c_void_p] * 4
    def __init__(self, frm):
        self.cd = self.lib.iconv_open(b'UTF-32BE', frm.encode())
        if self.cd == ctypes.c_void_p(-1).value: raise ir.AnalysisBroken(f'the C library has no {frm} charset to compare with')
    def decode(self, b):
        self.lib.iconv(self.cd, None, None, None, None)
        src = ctypes.create_string_buffer(b, len(b)); dst = ctypes.create_string_buffer(64)
        ps = ctypes.c_char_p(ctypes.addressof(src)); pd = ctypes.c_char_p(ctypes.addressof(dst))
        p1 = ctypes.c_void_p(ctypes.addressof(src)); p2 = ctypes.c_void_p(ctypes.addressof(dst))
        n1 = ctypes.c_size_t(len(b)); n2 = ctypes.c_size_t(64)
        r = self.lib.iconv(self.cd, ctypes.byref(p1), ctypes.byref(n1), ctypes.byref(p2), ctypes.byref(n2))
        if r == ctypes.c_size_t(-1).value: return None
        return dst.raw[:64 - n2.value].decode('utf-32-be')
def py(enc, pre=lambda b: b):
    def f(b):
        try: s = pre(b).decode(enc)
        except (UnicodeDecodeError, ValueError): return None
        return s
    return f
def hi(b): return bytes(x | 0x80 for x in b)
def ibm(n):
    ic = Iconv(n)
    def f(b):
        s = ic.decode(b if len(b) == 1 else b'\x0e' + b + b'\x0f')
        return s if s and len(s) == 1 else None
    return f
def ones(): return [bytes([a]) for a in range(256)]
def twos(lo=0x21): return [bytes([a, b]) for a in range(lo, 256) for b in range(lo, 256)]
def both(): return ones() + twos()
# name -> (decoder of one byte sequence, domain of byte sequences to look for missing entries)
ORACLE = {
 'ASCII': (py('ascii'), ones), 'IBM-37': (py('cp037'), ones), 'FALLBACK-UNICODE': (py('latin-1'), ones), '_ISO-8859-1': (py('latin-1'), lambda: ones()[0xa0:]),
 '_CP874': (py('cp874'), lambda: ones()[0x80:]), '_CP932': (py('cp932'), twos), '_CP949': (py('cp949'), twos), '_CP936': (py('gbk'), twos), '_GBK': (py('gb18030'), twos),
 '_GB18030': (py('gb18030'), twos), '_CP950': (py('cp950'), twos), '_GB2312': (py('gb2312', hi), lambda: [bytes([a, b]) for a in range(0x21, 0x7f) for b in range(0x21, 0x7f)]),
 '_HKSCS1999': (py('big5hkscs'), None), '_HKSCS2001': (py('big5hkscs'), None), '_HKSCS2004': (py('big5hkscs'), None),
 '_JIS0201': (py('shift_jisx0213'), None), '_SHIFT-JIS': (py('shift_jis'), twos),
 '_JIS0208': (py('euc_jp', hi), lambda: [bytes([a, b]) for a in range(0x21, 0x7f) for b in range(0x21, 0x7f)]),
 '_JIS0212': (py('euc_jp', lambda b: b'\x8f' + hi(b)), lambda: [bytes([a, b]) for a in range(0x21, 0x7f) for b in range(0x21, 0x7f)]),
 '_BIG5E': (py('big5hkscs'), None), '_BIG5-2003': (py('big5hkscs'), None), '_BIG5-ETEN': (py('big5hkscs'), None),
 '_UAO241': (py('big5hkscs'), None), '_UAO250': (py('big5hkscs'), None),
}
for i in range(1251, 1259): ORACLE[f'_CP{i}'] = (py(f'cp{i}'), lambda: ones()[0x80:])
for i in (930, 933, 935, 937, 939): ORACLE[f'IBM-{i}'] = (lambda n=i: ibm(f'IBM{n}'), lambda: ones() + twos(0x41))
def oracle(name):
    if name not in ORACLE: return None, None
    f, dom = ORACLE[name]
    if name.startswith('IBM-9'): f = f()
    return f, dom
def uni(s): return ','.join('01' + (lambda h: h if len(h) % 2 == 0 else '0' + h)('%X' % ord(c)) for c in s)
def charset(c):
    """-> (entries compared, set of (kind, key, value))"""
    ph, name = c.split('/'); f, dom = oracle(name)
    if f is None: return None
    m, _ = pairs.fmap(c); diff = set(); n = 0; memo = {}
    def dec(h):
        if h not in memo:
            s = f(bytes.fromhex(h)); memo[h] = uni(s) if s else ''
        return memo[h]
    for k, v in m.items():
        b, u = (k, v) if ph == 'from' else (v, k)
        cbout = v.startswith('?')
        b = b.lstrip('?'); u = u.lstrip('?')
        if ',' in b: b = b.replace(',', '')
        n += 1
        if not b and cbout: diff.add(('callback', k, v)); continue     # the value is computed by native code
        if dec(b) != u: diff.add(('value', k, v))
    if dom is not None and ph == 'from':
        for b in dom():
            h = b.hex().upper()
            if h not in m:
                u = dec(h)
                if u and ',' not in u: n += 1; diff.add(('missing', h, u))
    if dom is not None and ph == 'to':
        for b in dom():
            u = dec(b.hex().upper())
            if u and ',' not in u and u not in m: n += 1; diff.add(('missing', u, b.hex().upper()))
    return n, diff
# ---- Unicode data ---------------------------------------------------------------------------------------------------
def allchars():
    for i in range(0x110000):
        if 0xd800 <= i < 0xe000: continue
        yield chr(i)
def umap(fn): return {uni(c): uni(fn(c)) for c in allchars() if fn(c) != c}
def nfx(form):
    def f(c): return c if 0xac00 <= ord(c) <= 0xd7a3 else unicodedata.normalize(form, c)
    return f
def nfcmap():
    r = {}
    for c in allchars():
        d = unicodedata.decomposition(c)
        if d and not d.startswith('<') and len(d.split()) == 2:
            s = ''.join(chr(int(x, 16)) for x in d.split())
            if unicodedata.normalize('NFC', c) == c: r[uni(s)] = uni(c)
    return r
def entities(to):
    r = {}
    for n, cp in html.entities.name2codepoint.items():
        b = ('&' + n + ';')
        if to: r[uni(chr(cp))] = b.encode().hex().upper()
        else: r[b.encode().hex().upper()] = uni(chr(cp))
    return r
UNITABLES = {'inter/LOWER': lambda: umap(str.lower), 'inter/UPPER': lambda: umap(str.upper), 'inter/CASEFOLD': lambda: umap(str.casefold),
  'inter/_NFD': lambda: umap(nfx('NFD')), 'inter/_NFKD': lambda: umap(nfx('NFKD')), 'inter/_NFC-MAP': nfcmap,
  'from/ASCII-NAMED-HTML-ENTITY': lambda: entities(False), 'to/ASCII-NAMED-HTML-ENTITY': lambda: entities(True)}
def unitable(c):
    o = UNITABLES[c](); m, _ = pairs.fmap(c); diff = set()
    for k, v in m.items():
        if o.get(k) != v: diff.add(('value', k, v))
    for k, v in o.items():
        if k not in m: diff.add(('missing', k, v))
    return len(m) + len(o), diff
# ---- native tables (constants in the compiler's IR) ------------------------------------------------------------------
def s32(x): return x - (1 << 32) if x >= 1 << 31 else x
def expand(init):
    r = {}
    for row in init:
        for i in range(row[0], row[1] + 1): r.setdefault(i, s32(row[2]) if len(row) > 2 else 1)
    return r
def const_tables(u, ncol):
    return {n: g for n, g in u.globals.items() if not g['decl'] and isinstance(g.get('init'), list) and g['init'] and all(isinstance(r, list) and len(r) == ncol and all(isinstance(x, int) for x in r) for r in g['init'])}
NATIVE = [('modules/inter/_NF-ORDER.c', 3, 'ccc', lambda i: unicodedata.combining(chr(i)) or None),
          ('modules/inter/_NFC.c', 3, 'ccc', lambda i: unicodedata.combining(chr(i)) or None),
          ('modules/inter/WIDTH.c', 3, 'eaw', lambda i: {'W': 2, 'F': 2, 'A': -1, 'Na': 1, 'H': 1, 'N': 1}[unicodedata.east_asian_width(chr(i))]),
          ('modules/inter/AMBIGUOUS-PAD.c', 2, 'amb', lambda i: 1 if unicodedata.east_asian_width(chr(i)) == 'A' else None),
          ('modules/inter/AMBIGUOUS-UNPAD.c', 2, 'amb', lambda i: 1 if unicodedata.east_asian_width(chr(i)) == 'A' else None)]
def native(src, ncol, fn):
    ts = const_tables(ir.load_unit(src), ncol)
    if len(ts) != 1: raise ir.AnalysisBroken(f'{src}: expected one constant table with {ncol} columns, found {sorted(ts)}')
    g = list(ts.values())[0]; t = expand(g['init']); runs = []
    for i in range(0x110000):
        w = fn(i) if not 0xd800 <= i < 0xe000 else None; h = t.get(i)
        if w == h: continue
        if runs and runs[-1][1] == i - 1 and runs[-1][2] == h and runs[-1][3] == w: runs[-1][1] = i
        else: runs.append([i, i, h, w])
    return len(t), g, {('range', '%X-%X' % (a, b), str(h)) for a, b, h, w in runs}, {('range', '%X-%X' % (a, b), str(h)): w for a, b, h, w in runs}
def run(rep):
    n = 0; tabs = 0; nrec = 0
    for c in ir.codecs():
        if c in UNITABLES: r = unitable(c)
        elif c.split('/')[0] != 'inter': r = charset(c)
        else: r = None
        if r is None: continue
        cnt, diff = r; tabs += 1; n += cnt
        rc = record.load('published', c); nrec += len(rc)
        for kind, k, v in sorted(diff - rc):
            if kind == 'missing': rep.violation(f'{c}:missing:{k}', f'modules/{c}.txt: no entry for {k}; the published definition maps it to {v}')
            else: rep.violation(f'{c}:{kind}:{k}', f'modules/{c}.txt: {k} maps to {v}, which is neither the published value nor a recorded difference')
    for src, ncol, nm, fn in NATIVE:
        cnt, g, diff, want = native(src, ncol, fn); tabs += 1; n += cnt
        rc = record.load('published', nm); nrec += len(rc)
        for t in sorted(diff - rc):
            rep.violation(f'{src}:{t[1]}', f"{src}: table {g['src']} gives {t[2]} for U+{t[1]}, Unicode says {want[t]}")
    rep.floor('tables', tabs, 54); rep.floor('entries_compared', n, 500000); rep.cov['recorded_differences'] = nrec
def rec():
    for c in ir.codecs():
        if c in UNITABLES: r = unitable(c)
        elif c.split('/')[0] != 'inter': r = charset(c)
        else: continue
        if r: record.save('published', c, r[1])
    for src, ncol, nm, fn in NATIVE: record.save('published', nm, native(src, ncol, fn)[2])
