"""Abstract values of the interpreter: constants, symbols, linear sums, bit vectors with per-bit provenance, pointers.

An integer value of width w is the mathematical number in [0,2^w).
  int                      constant
  ('s', id, w)             symbol
  ('L', c, ((t,k),...))    c + sum k*t            (mathematical; may be negative: then it stands for its value mod 2^w)
  ('B', (bit0, bit1,...))  bits, lowest first: 0, 1 or (base, i) = bit i of the term `base`
  ('O', op, w, args)       anything else (named by its operands, so equal computations are equal)
  ('P', obj, off)          pointer
  ('F', name)              function
  ('U', what)              never-written memory
"""
import hashlib
import itertools
_n = itertools.count()
class Term(tuple):
    """a term built from terms: its parts are shared, so what is computed by walking all of them is kept"""
    def __hash__(self):
        try: return self.h
        except AttributeError: h = self.h = tuple.__hash__(self); return h
    def __repr__(self):
        try: return self.r
        except AttributeError:
            r = tuple.__repr__(self)
            if len(r) > 200: r = f"('{self[0]}', #{hashlib.sha256(r.encode()).hexdigest()[:24]})"
            self.r = r; return r
    def __reduce__(self): return (Term, (tuple(self),))
SYM = {}
def fresh(w, name, tag=None):
    i = next(_n); SYM[i] = (name, tag); return ('s', i, w)
def symname(t): return SYM[t[1]][0]
def symtag(t): return SYM[t[1]][1] if isinstance(t, tuple) and t[0] == 's' else None
def is_int(t): return isinstance(t, int)
def mask(w): return (1 << w) - 1

class Facts:
    """interval, exclusion and known-bit facts about terms, along one path"""
    __slots__ = ('rg', 'ne', 'kb', 'vs')
    def __init__(self): self.rg = {}; self.ne = {}; self.kb = {}; self.vs = {}
    def copy(self):
        f = Facts(); f.rg = dict(self.rg); f.ne = dict(self.ne); f.kb = dict(self.kb); f.vs = dict(self.vs); return f

def width(t):
    if t[0] in 's': return t[2]
    if t[0] == 'O': return t[2]
    if t[0] == 'B': return len(t[1])
    return 64

def rng(t, F):
    """interval of the mathematical value"""
    if isinstance(t, int): return (t, t)
    k = t[0]
    if k == 'L':
        lo = hi = t[1]
        for b, c in t[2]:
            l, h = rng(b, F)
            if c > 0: lo += c * l; hi += c * h
            else: lo += c * h; hi += c * l
        f = (F.rg.get(t) if F.rg else None)
        if f: lo = max(lo, f[0]); hi = min(hi, f[1])
        return (lo, hi)
    if k == 'B':
        lo = hi = 0
        for i, b in enumerate(bitvals(t[1], F)):
            if b == 1: lo |= 1 << i; hi |= 1 << i
            elif b != 0: hi |= 1 << i
        # runs of bits of base terms: use the intervals of the bases
        if hi != lo:
            bits = t[1]; i = 0; n = len(bits); sl = sh = 0
            while i < n:
                b = bits[i]
                if b == 0 or b == 1:
                    if b: sl += 1 << i; sh += 1 << i
                    i += 1; continue
                base, frm = b; j = i + 1
                while j < n and (q := bits[j]) != 0 and q != 1 and q[0] is base and q[1] == frm + j - i: j += 1
                l, h = brange(base, F) if F.rg or F.vs or F.kb or base[0] != 's' else (0, mask(base[2])); w = j - i
                if l >= 0 and h >> (frm + w) == l >> (frm + w):
                    d = l >> (frm + w) << w
                    sl += ((l >> frm) - d) << i; sh += ((h >> frm) - d) << i
                else: sh += mask(w) << i
                i = j
            lo = max(lo, sl); hi = min(hi, sh)
        f = (F.rg.get(t) if F.rg else None)
        if f: lo = max(lo, f[0]); hi = min(hi, f[1])
        return (lo, hi)
    if k in 'sO':
        f = (F.rg.get(t) if F.rg else None); w = t[2]
        lo, hi = f if f else defrange(t, F)
        v = (F.vs.get(t) if F.vs else None)
        if v: lo = max(lo, min(v)); hi = min(hi, max(v))
        kb = (F.kb.get(t) if F.kb else None)
        if kb:
            m, val = kb
            lo2 = kbmin(lo, m, val); hi2 = mask(w) - kbmin(mask(w) - hi, m, ~val & m)
            lo, hi = lo2, hi2
        return (lo, hi)
    return (0, mask(64))
def kbmin(lo, m, val):
    """smallest x >= lo with x & m == val"""
    for _ in range(200):
        d = (lo & m) ^ val
        if not d: return lo
        i = d.bit_length() - 1
        lo = ((lo >> i) | 1) << i if val >> i & 1 else ((lo >> (i + 1)) + 1) << (i + 1)
    return lo
def defrange(t, F):
    if t[0] == 's': return (0, mask(t[2]))
    op, w, a = t[1], t[2], t[3]
    if op in ('urem',) and isinstance(a[1], int) and a[1]: return (0, a[1] - 1)
    if op in ('udiv',) and isinstance(a[1], int) and a[1]:
        l, h = rng(a[0], F)
        if l >= 0: return (l // a[1], h // a[1])
    if op == 'load' and len(a) == 3 and isinstance(a[2], tuple): return (min(a[2]), max(a[2]))
    if op in ('and',):
        h = [y for x, y in (rng(x, F) for x in a) if x >= 0] + [mask(w)]; return (0, min(h))
    return (0, mask(w))
def field(bits):
    """bits = one contiguous run of one base (zeros elsewhere) -> (base, from, n, shift)"""
    base = None; frm = n = sh = 0
    state = 0
    for i, b in enumerate(bits):
        if b == 0:
            if state == 1: state = 2
            continue
        if b == 1: return None
        if state == 2: return None
        if state == 0: base, frm = b; sh = i; n = 1; state = 1
        else:
            if b[0] != base or b[1] != frm + n: return None
            n += 1
    return (base, frm, n, sh) if state else None
def bitval(b, F):
    if b in (0, 1): return b
    base, i = b
    kb = (F.kb.get(base) if F.kb else None)
    if kb and kb[0] >> i & 1: return kb[1] >> i & 1
    l, h = brange(base, F)
    if l >= 0:
        if h >> i == 0: return 0
        if l >> i == h >> i: return l >> i & 1
    return b
def bitvals(bits, F):
    """bitval of each bit, evaluating the interval of every base once"""
    r = []; memo = {}; last = None; kb = x = None
    for b in bits:
        if b == 0 or b == 1: r.append(b); continue
        base, i = b
        if base is not last:
            e = memo.get(id(base))          # hashing a deep term is what costs
            if e is None: e = memo[id(base)] = [F.kb.get(base) if F.kb else None, None]
            last = base
        kb = e[0]
        if kb and kb[0] >> i & 1: r.append(kb[1] >> i & 1); continue
        if e[1] is None: e[1] = brange(base, F)
        l, h = e[1]
        if l >= 0:
            if h >> i == 0: r.append(0); continue
            if l >> i == h >> i: r.append(l >> i & 1); continue
        r.append(b)
    return r
def brange(t, F):
    if t[0] in 'sO':
        f = (F.rg.get(t) if F.rg else None)
        lo, hi = f if f else defrange(t, F)
        v = (F.vs.get(t) if F.vs else None)
        if v: lo = max(lo, min(v)); hi = min(hi, max(v))
        return lo, hi
    return rng(t, F)
def to_bits(t, w, F):
    """list of w bits"""
    if isinstance(t, int): return [(t >> i) & 1 for i in range(w)]
    if t[0] == 'B':
        b = bitvals(t[1][:w], F)
        return b + [0] * (w - len(b))
    if t[0] == 'P' or t[0] == 'F': return [(t, i) for i in range(w)]
    if t[0] == 'L':
        # disjoint sum? (known bits of the terms count as part of the constant)
        c = t[1]; r = [0] * w; ok = True
        for b, k in t[2]:
            if k <= 0 or k & (k - 1): ok = False; break
            s = k.bit_length() - 1
            x = [0] * s + to_bits(b, w - s, F) if s < w else [0] * w
            for i in range(w):
                if x[i] == 0: continue
                if x[i] == 1: c += 1 << i
                elif r[i] == 0: r[i] = x[i]
                else: ok = False; break
            if not ok: break
        if ok and 0 <= c <= mask(w) and all(r[i] == 0 or not c >> i & 1 for i in range(w)):
            return [r[i] if r[i] != 0 else c >> i & 1 for i in range(w)]
        return bitvals([(t, i) for i in range(w)], F)
    n = min(w, width(t)); return bitvals([(t, i) for i in range(n)], F) + [0] * (w - n)
def from_bits(bits, F):
    bits = bitvals(bits, F)
    if all(b in (0, 1) for b in bits): return sum(b << i for i, b in enumerate(bits))
    r = field(bits)
    if r:
        base, frm, n, sh = r
        if frm == 0 and sh == 0:
            l, h = rng(base, F)
            if l >= 0 and h >> n == 0: return base
    else:
        # constants of the base's known high bits folded in: compare with the base's own bits
        bases = {b[0] for b in bits if isinstance(b, tuple)}
        if len(bases) == 1:
            base = next(iter(bases))
            if base[0] != 'P' and to_bits(base, len(bits), F) == bits:
                l, h = rng(base, F)
                if l >= 0 and h >> len(bits) == 0: return base
    while bits[-1] == 0: bits.pop()
    return Term(('B', tuple(bits)))
def lin(t, F=None):
    """-> (const, {term: coef})"""
    if isinstance(t, int): return t, {}
    if t[0] == 'L':
        if F is None or not any(x[0] == 'B' for x, _ in t[2]): return t[1], dict(t[2])
        c, d = t[1], {}
        for x, k in t[2]:
            c1, d1 = lin(x, F); c += k * c1
            for y, k1 in d1.items(): d[y] = d.get(y, 0) + k * k1
        return c, d
    if t[0] == 'B' and F is not None:
        # constant bits around the low bits of a small symbol: the symbol plus a constant
        base = None; c = 0; n = 0
        for i, b in enumerate(t[1]):
            if isinstance(b, int): c |= b << i
            elif b[1] == i == n and (base is None or b[0] == base): base = b[0]; n = i + 1
            else: return 0, {t: 1}
        if base is not None and base[0] == 's' and 0 <= rng(base, F)[0] and rng(base, F)[1] < 1 << n: return c, {base: 1}
    return 0, {t: 1}
def mklin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d: return c
    if c == 0 and len(d) == 1:
        t, k = next(iter(d.items()))
        if k == 1: return t
    return Term(('L', c, tuple(sorted(d.items(), key=repr))))
def signed(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v
def wrap(t, w, F):
    """normalise a mathematical value into width w"""
    if isinstance(t, int): return t & mask(w)
    if t[0] == 'L' and not t[2]: return t[1] & mask(w)
    return t
def add(a, b, w, F):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & mask(w)
    if isinstance(b, int) and b >> (w - 1) & 1: b = signed(b, w)     # x + (2^w - k) is x - k
    if isinstance(a, int) and a >> (w - 1) & 1: a = signed(a, w)
    if not (isinstance(a, int) and a < 0) and not (isinstance(b, int) and b < 0):
        A = to_bits(a, w, F) if not (not isinstance(a, int) and a[0] == 'L') else None
        B = to_bits(b, w, F) if not (not isinstance(b, int) and b[0] == 'L') else None
        if A is not None and B is not None and all(x == 0 or y == 0 for x, y in zip(A, B)):
            return from_bits([x if y == 0 else y for x, y in zip(A, B)], F)
    ca, da = lin(a, F); cb, db = lin(b, F)
    for t, k in db.items(): da[t] = da.get(t, 0) + k
    r = mklin(ca + cb, da)
    l, h = rng(r, F)
    if isinstance(r, int): return r & mask(w)
    if l >= (1 << w): return mklin(ca + cb - (1 << w), da)
    return r
def neg(a, w, F):
    if isinstance(a, int): return (-a) & mask(w)
    c, d = lin(a); return mklin(-c, {t: -k for t, k in d.items()})
def sub(a, b, w, F):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & mask(w)
    if isinstance(b, int): b = signed(b, w)
    ca, da = lin(a, F); cb, db = lin(b, F)
    for t, k in db.items(): da[t] = da.get(t, 0) - k
    r = mklin(ca - cb, da)
    return r & mask(w) if isinstance(r, int) else r
def op(name, w, *args): return Term(('O', name, w, args))
def mul(a, b, w, F):
    if isinstance(a, int) and isinstance(b, int): return (a * b) & mask(w)
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        k = signed(b, w)
        if k == 0: return 0
        if k == 1: return a
        if k > 0 and k & (k - 1) == 0 and a[0] in 'sBO': return shl(a, k.bit_length() - 1, w, F)
        c, d = lin(a); return mklin(c * k, {t: q * k for t, q in d.items()})
    return op('mul', w, a, b)
def shl(a, n, w, F):
    if not isinstance(n, int): return op('shl', w, a, n)
    if n >= w: return 0
    return from_bits(([0] * n + to_bits(a, w, F))[:w], F)
def lshr(a, n, w, F):
    if not isinstance(n, int): return op('lshr', w, a, n)
    if n >= w: return 0
    b = to_bits(a, w, F); return from_bits(b[n:] + [0] * n, F)
def ashr(a, n, w, F):
    if not isinstance(n, int): return op('ashr', w, a, n)
    b = to_bits(a, w, F); n = min(n, w - 1); return from_bits(b[n:] + [b[-1]] * n, F)
def bitop(name, a, b, w, F):
    if isinstance(a, int) and isinstance(b, int): return {'and': a & b, 'or': a | b, 'xor': a ^ b}[name]
    A = to_bits(a, w, F); B = to_bits(b, w, F); r = []; o = None
    for i, (x, y) in enumerate(zip(A, B)):
        if name == 'and':
            z = 0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else None
        elif name == 'or':
            z = 1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else None
        else:
            z = y if x == 0 else x if y == 0 else 0 if x == y else (1 - x if isinstance(x, int) and isinstance(y, int) else None)
        if z is None:
            if o is None: o = op(name, w, a, b)
            z = (o, i)
        r.append(z)
    return from_bits(r, F)
def trunc(a, w, F):
    if isinstance(a, int): return a & mask(w)
    l, h = rng(a, F)
    if 0 <= l and h <= mask(w): return a
    if a[0] == 'L':
        # keep the sum: it stands for its value mod 2^w
        return a if l >= -(1 << (w - 1)) and h < (1 << w) else from_bits([(a, i) for i in range(w)], F)
    return from_bits(to_bits(a, 64, F)[:w], F)
def zext(a, w0, w, F):
    if isinstance(a, int): return a
    if a[0] == 'L':
        l, h = rng(a, F)
        if l >= 0 and h <= mask(w0): return a
        k = l >> w0
        if h >> w0 == k: c, d = lin(a); return mklin(c - (k << w0), d)
        return op('zext', w0, a)
    return a
def sext(a, w0, w, F):
    if isinstance(a, int): return signed(a, w0) & mask(w)
    l, h = rng(a, F)
    if a[0] == 'L':
        if -(1 << (w0 - 1)) <= l and h < 1 << (w0 - 1): return a
        if l >= 1 << (w0 - 1) and h < 1 << w0: c, d = lin(a); return mklin(c - (1 << w0), d)
        a = from_bits([(a, i) for i in range(w0)], F); l, h = rng(a, F)
    if 0 <= l and h < 1 << (w0 - 1): return a
    b = to_bits(a, w0, F); return from_bits(b + [b[-1]] * (w - w0), F)

# ---- comparisons ----------------------------------------------------------------------------------------------------
def srange(t, w, F):
    """interval of the signed reading"""
    t = renorm(t, F)
    if isinstance(t, int): v = signed(t & mask(w), w); return (v, v)
    if t[0] == 'B' and len(t[1]) == w and bitval(t[1][-1], F) not in (0, 1):
        j = w - 1
        while j and t[1][j - 1] == t[1][-1]: j -= 1
        return (-(1 << j), (1 << j) - 1)
    l, h = rng(t, F); m = 1 << (w - 1)
    if -m <= l and h < m: return (l, h)
    if t[0] != 'L':
        if l >= m: return (l - 2 * m, h - 2 * m)
        v = (F.vs.get(t) if F.vs else None)
        if v: s = [signed(x, w) for x in v]; return (min(s), max(s))
    return (-m, m - 1)
def urange(t, w, F):
    t = renorm(t, F)
    l, h = rng(t, F)
    if l >= 0 and h <= mask(w): return (l, h)
    if h < 0 and l >= -(1 << w): return (l + (1 << w), h + (1 << w))
    return (0, mask(w))
INV = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
def decide(pred, a, b, w, F):
    if pred in ('eq', 'ne'):
        r = deq(a, b, w, F)
        return r if r is None or pred == 'eq' else not r
    f = srange if pred[0] == 's' else urange
    if a == b: return pred[1:] in ('le', 'ge')
    al, ah = f(a, w, F); bl, bh = f(b, w, F)
    p = pred[1:]
    if p in ('gt', 'ge'): al, ah, bl, bh = bl, bh, al, ah; p = {'gt': 'lt', 'ge': 'le'}[p]
    if p == 'lt':
        if ah < bl: return True
        if al >= bh: return False
    else:
        if ah <= bl: return True
        if al > bh: return False
    return None
def deq(a, b, w, F):
    a = renorm(a, F); b = renorm(b, F)
    if a == b: return True
    if isinstance(a, int) and isinstance(b, int): return (a - b) & mask(w) == 0
    if isinstance(a, int): a, b = b, a
    al, ah = urange(a, w, F); bl, bh = urange(b, w, F)
    if ah < bl or bh < al: return False
    if al == ah == bl == bh: return True
    if isinstance(b, int):
        if b in F.ne.get(a, ()): return False
        v = (F.vs.get(a) if F.vs else None)
        if v is not None and b not in v: return False
        if a[0] == 'L' and len(a[2]) == 1:
            t, k = a[2][0]; c = congruent(a, b, w, F)
            if k in (1, -1) and len(c) == 1 and (c[0] - a[1]) * k in F.ne.get(t, ()): return False
        if a[0] == 'L' and not congruent(a, b, w, F): return False
    A = to_bits(a, w, F); B = to_bits(b, w, F)
    if any(x in (0, 1) and y in (0, 1) and x != y for x, y in zip(A, B)): return False
    if a[0] == 'L' or (not isinstance(b, int) and b[0] == 'L'):
        d = sub(a, b, w, F)
        if isinstance(d, int): return d == 0
        l, h = rng(d, F)
        if -(-l >> w) << w > h: return False          # no multiple of 2^w in the range
    return None
def congruent(a, c, w, F):
    """the numbers in a's range that stand for the w-bit constant c (at most two are listed)"""
    l, h = rng(a, F); x = l + (c - l) % (1 << w)
    return [y for y in (x, x + (1 << w)) if y <= h]
def renorm(t, F):
    return from_bits(list(t[1]), F) if not isinstance(t, int) and t[0] == 'B' else t
def setrange(t, lo, hi, F):
    """intersect; False if empty"""
    t = renorm(t, F)
    if isinstance(t, int): return lo <= t <= hi
    if t[0] in 'PFU': return True
    l, h = rng(t, F); lo = max(lo, l); hi = min(hi, h)
    v = (F.vs.get(t) if F.vs else None)
    if v is not None:
        v = frozenset(x for x in v if lo <= x <= hi)
        if not v: return False
        F.vs[t] = v
    ne = F.ne.get(t, ())
    while lo <= hi and lo in ne: lo += 1
    while lo <= hi and hi in ne: hi -= 1
    if lo > hi: return False
    if (lo, hi) != (l, h): F.rg[t] = (lo, hi)
    if t[0] == 'L' and len(t[2]) == 1:
        b, k = t[2][0]
        if k > 0: return setrange(b, -((t[1] - lo) // k) if (lo - t[1]) % k == 0 else (lo - t[1] + k - 1) // k, (hi - t[1]) // k, F)
        k = -k
        return setrange(b, (t[1] - hi + k - 1) // k, (t[1] - lo) // k, F)
    if t[0] == 'B':
        r = field(t[1])
        if r:
            base, frm, n, sh = r
            fl = (lo + mask(sh)) >> sh; fh = hi >> sh      # the field itself: its value is t >> sh
            if fl > fh: return False
            bl, bh = rng(base, F)
            if bl >= 0 and bh >> (frm + n) == 0:
                if not setrange(base, fl << frm, (fh << frm) | mask(frm), F): return False
            else:
                for i in reversed(range(n)):
                    if fl >> i == fh >> i:
                        if not setbit(t[1][sh + i], fl >> i & 1, F): return False
                    else: break
            lo = fl << sh; hi = fh << sh
        elif lo == hi: return setbits(t, lo, len(t[1]), F)
        else:
            # known leading bits
            w = len(t[1]); known = [i for i in range(w)]
            for i in reversed(range(w)):
                if lo >> i == hi >> i:
                    if not setbit(t[1][i], lo >> i & 1, F): return False
                else: break
        n = renorm(t, F)
        if n != t: return setrange(n, lo, hi, F)
    return True
def setbit(b, v, F):
    if b in (0, 1): return b == v
    base, i = b
    if base[0] in 'PF': return True
    cur = bitval(b, F)
    if cur in (0, 1): return cur == v
    m, val = F.kb.get(base, (0, 0))
    F.kb[base] = (m | 1 << i, val | v << i)
    if base[0] in 'sO':
        # tighten the interval from leading known bits
        l, h = rng(base, F)
        if l > h: return False
        vs = (F.vs.get(base) if F.vs else None)
        if vs is not None:
            vs = frozenset(x for x in vs if x >> i & 1 == v)
            if not vs: return False
            F.vs[base] = vs
    return True
def setbits(t, c, w, F):
    for i, b in enumerate(to_bits(t, w, F)):
        if not setbit(b, c >> i & 1, F): return False
    return True
def assume(pred, a, b, w, F):
    """add the fact to F; False if it cannot hold"""
    d = decide(pred, a, b, w, F)
    if d is not None: return d
    a = renorm(a, F); b = renorm(b, F)
    if isinstance(a, int): a, b, pred = b, a, SWAP[pred]
    if isinstance(a, int): return decide(pred, a, b, w, F)
    if a[0] in 'PF' or (not isinstance(b, int) and b[0] in 'PF'): return True
    if pred == 'eq':
        if isinstance(b, int):
            c = b
            if a[0] == 'L':
                cc = congruent(a, c, w, F)
                if len(cc) != 1: return bool(cc)
                c = cc[0]
            if not setrange(a, c, c, F): return False
            if a[0] in 'BO' and c >= 0: return setbits(a, c, w, F)
            return True
        al, ah = rng(a, F); bl, bh = rng(b, F)
        if al >= 0 and bl >= 0 and ah <= mask(w) and bh <= mask(w): return setrange(a, bl, bh, F) and setrange(b, al, ah, F)
        return True
    if pred == 'ne':
        if isinstance(b, int): return exclude(a, b, w, F)
        return True
    sg = pred[0] == 's'; p = pred[1:]
    if sg:
        bl, bh = srange(b, w, F); al, ah = srange(a, w, F)
    else:
        bl, bh = urange(b, w, F); al, ah = urange(a, w, F)
    rl, rh = rng(a, F)
    lo, hi = al, ah
    if p == 'lt': hi = min(hi, bh - 1)
    if p == 'le': hi = min(hi, bh)
    if p == 'gt': lo = max(lo, bl + 1)
    if p == 'ge': lo = max(lo, bl)
    if lo > hi: return False
    if (rl, rh) == (al, ah): ok = setrange(a, lo, hi, F)
    elif sg and lo >= 0 and rl > hi - (1 << w) and rh < lo + (1 << w): ok = setrange(a, lo, hi, F)          # full-width symbol known non-negative
    elif sg and hi < 0 and a[0] != 'L': ok = setrange(a, lo + (1 << w), hi + (1 << w), F)
    else: ok = True
    if not ok: return False
    if not isinstance(b, int):
        rl, rh = rng(b, F)
        lo, hi = bl, bh
        if p == 'lt': lo = max(lo, al + 1)
        if p == 'le': lo = max(lo, al)
        if p == 'gt': hi = min(hi, ah - 1)
        if p == 'ge': hi = min(hi, ah)
        if lo > hi: return False
        if (rl, rh) == (bl, bh): return setrange(b, lo, hi, F)
    return True
def exclude(a, c, w, F):
    a = renorm(a, F)
    if isinstance(a, int): return a != c
    l, h = rng(a, F)
    if a[0] == 'L':
        cs = congruent(a, c, w, F)
        if not cs: return True
        if len(cs) == 1 and len(a[2]) == 1 and a[2][0][1] in (1, -1): t, k = a[2][0]; return exclude(t, (cs[0] - a[1]) * k, 64, F)
        if len(cs) == 1 and cs[0] in (l, h): F.ne[a] = F.ne.get(a, frozenset()) | {cs[0]}; return setrange(a, l, h, F)
        F.ne[a] = F.ne.get(a, frozenset()) | {c}
        return True
    v = (F.vs.get(a) if F.vs else None)
    if v is not None:
        v = v - {c}
        if not v: return False
        F.vs[a] = v
    if a[0] == 'B':
        unk = [b for b in a[1] if bitval(b, F) not in (0, 1)]
        if any(v in (0, 1) and v != (c >> j & 1) for j, v in enumerate(bitvals(a[1], F))) or c < 0 or c >> len(a[1]): return True      # cannot be c anyway
        if len(unk) == 1:
            i = [j for j, b in enumerate(a[1]) if b == unk[0]][0]
            return setbit(unk[0], 1 - (c >> i & 1), F)
    F.ne[a] = F.ne.get(a, frozenset()) | {c}
    if c == l or c == h: return setrange(a, l, h, F)
    return True
