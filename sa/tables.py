"""Parse codec tables (modules/*/*.txt) exactly as bsdconv-mktable's grammar reads them, plus alias files."""
import os, re
from . import ir
HEX = set('0123456789abcdefABCDEF')

class Entry:
    __slots__ = ('key', 'out', 'cb', 'ci', 'line', 'err')
    # key: tuple of ints 0..255, 256 (datum separator) or '*' ; out: tuple of data (bytes)

def parse_hex(s, what, star):
    """-> (list, error)"""
    r = []; i = 0
    while i < len(s):
        c = s[i]
        if c == '*' and star: r.append('*'); i += 1
        elif c == ',': r.append(256); i += 1
        elif c in HEX and i + 1 < len(s) and s[i+1] in HEX:
            r.append(int(s[i:i+2], 16)); i += 2
        else: return r, f'{what}: bad digit at column {i+1} of {s!r}'
    return r, None

_line = re.compile(rb'^(!?)([0-9A-Fa-f,]+)[\t ]+(\??)([0-9A-Fa-f,]*)(?=[\t\r\n# ]|$)')
def fast(lb):
    """common well-formed line without wildcards -> (ci,key,cb,out) or None"""
    m = _line.match(lb)
    if not m: return None
    try:
        ks = [bytes.fromhex(x.decode()) for x in m.group(2).split(b',')]
        o = m.group(4)
        out = tuple([bytes.fromhex(x.decode()) for x in o.split(b',')]) if o else ()
    except ValueError: return None
    key = []
    for i, k in enumerate(ks):
        if i: key.append(256)
        key.extend(k)
    if not key: return None
    return (bool(m.group(1)), tuple(key), bool(m.group(3)), out)

def parse_table(path):
    """yields Entry; every physical line is accounted for"""
    ents = []; skipped = 0
    with open(path, 'rb') as f: raw = f.read()
    nl = raw.count(b'\n') + 1
    for n, lb in enumerate(raw.split(b'\n'), 1):
        if n == nl and lb == b'': continue
        e = Entry(); e.line = n; e.err = None; e.key = (); e.out = (); e.cb = False; e.ci = False
        if lb.startswith(b'#'):
            if len(lb) + 1 > 1022: e.err = f'comment line of {len(lb)} bytes is split by the 1024-byte line buffer'; ents.append(e)
            skipped += 1; continue
        if len(lb) + 1 <= 1023:
            q = fast(lb)
            if q is not None:
                e.ci, e.key, e.cb, e.out = q; ents.append(e); continue
        try: l = lb.decode('ascii')
        except UnicodeDecodeError:
            # bytes after the output column are never read; decode permissively and judge the columns
            l = lb.decode('latin-1')
        if len(lb) + 1 > 1023: e.err = f'line of {len(lb)} bytes is truncated by the 1024-byte line buffer'; ents.append(e); continue
        # strsep on "\t "
        m = re.match(r'^([^\t ]*)[\t ]+([^\t\r\n# ]*)', l)
        if not m:
            e.err = 'line has no output column (the table compiler dereferences a missing field)'; ents.append(e); continue
        k, o = m.group(1), m.group(2)
        rest = l[m.end():]
        if o == '' and rest == '' and not l[m.start(2):]:
            e.err = 'line has no output column (the table compiler dereferences a missing field)'; ents.append(e); continue
        if k.startswith('!'): e.ci = True; k = k[1:]
        kk, err = parse_hex(k, 'input', True)
        if err: e.err = err
        elif not kk: e.err = 'empty input sequence'
        if o.startswith('?'): e.cb = True; o = o[1:]
        oo, err = parse_hex(o, 'output', False)
        if err and not e.err: e.err = err
        e.key = tuple(kk)
        d = []; cur = []
        for x in oo:
            if x == 256: d.append(bytes(cur)); cur = []
            else: cur.append(x)
        if oo: d.append(bytes(cur))
        e.out = tuple(d)
        ents.append(e)
    return ents, skipped

_cache = {}
def table(codec):
    """entries of modules/<codec>.txt"""
    if codec not in _cache:
        p = os.path.join(ir.REPO, 'modules', codec + '.txt')
        if not os.path.exists(p): return None
        _cache[codec] = parse_table(p)
    return _cache[codec][0]

def alias_file(kind):
    """modules/<kind>/alias -> list of (name, target, line)"""
    p = os.path.join(ir.REPO, 'modules', kind, 'alias')
    if not os.path.exists(p): raise ir.AnalysisBroken(f'{p} is gone')
    r = []
    for n, l in enumerate(open(p, encoding='latin-1'), 1):
        if l.startswith('#'): continue
        f = l.rstrip('\n').split('\t')
        r.append((f[0], f[-1].strip() if len(f) > 1 else '', n, l))
    return r

def text_of(units):
    """data units of type 01 (or raw 7-bit) -> string"""
    s = ''
    for u in units:
        if len(u) < 2 or u[0] != 1: return None
        s += chr(int.from_bytes(u[1:], 'big'))
    return s
def alias_table(kind):
    """modules/inter/ALIAS-<KIND>.txt -> {name: (target|None if callback, line)}"""
    t = table('inter/ALIAS-' + kind.upper())
    if t is None: raise ir.AnalysisBroken(f'modules/inter/ALIAS-{kind.upper()}.txt is gone')
    r = {}; errs = []
    for e in t:
        if e.err: errs.append((e.line, e.err)); continue
        ks = []; cur = []
        bad = False
        for x in e.key:
            if x == 256: ks.append(bytes(cur)); cur = []
            elif x == '*': bad = True; break
            else: cur.append(x)
        ks.append(bytes(cur))
        k = None if bad else text_of(ks)
        if k is None: errs.append((e.line, 'alias name is not a sequence of characters')); continue
        v = None if e.cb else text_of(e.out)
        if v is None and not e.cb: errs.append((e.line, 'alias target is not a sequence of characters')); continue
        if k in r: errs.append((e.line, f'alias {k} defined again (first at line {r[k][1]})'))
        else: r[k] = (v, e.line)
    return r, errs
