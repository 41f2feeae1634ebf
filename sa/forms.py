"""Exact comparison of what a path computes with positional formulas, and the judging of input blocks by bisection.

canon() writes an integer term as constant + sum of weights of single input bits (and of atoms it does not understand), so
equal numbers built in different ways (shifts and masks, sums, div and mod) get equal forms. judge() decides a block of the
input space: if the form of the answer is the expected one on every path the block is proved; otherwise the block is halved,
down to single inputs, where every byte is a constant and the comparison is exact. Only a single input is reported."""
from . import terms as T

def canon(t, F, acc=None, k=1):
    top = acc is None
    if top: acc = [0, {}]
    if isinstance(t, int): acc[0] += k * t
    elif t[0] == 's':
        for i, b in enumerate(T.bitvals([(t, i) for i in range(t[2])], F)): bit(acc, b, k << i)
    elif t[0] == 'L':
        acc[0] += k * t[1]
        for x, c in t[2]: canon(x, F, acc, k * c)
    elif t[0] == 'B': bits(T.bitvals(t[1], F), F, acc, k)
    elif t[0] == 'O' and t[1] == 'urem' and isinstance(t[3][1], int) and t[3][1]:
        canon(t[3][0], F, acc, k); div(t[3][0], t[3][1], F, acc, -k * t[3][1])
    elif t[0] == 'O' and t[1] == 'udiv' and isinstance(t[3][1], int) and t[3][1]: div(t[3][0], t[3][1], F, acc, k)
    else: put(acc, t, k)
    if top: return settle(acc, F)
def settle(acc, F):
    """where every undecided bit of a computed term is there with its own weight, the term itself is there"""
    while True:
        by = {}
        for a, w in acc[1].items():
            if a[0] == 'b' and a[1][0] != 's' and w: by.setdefault(a[1], {})[a[2]] = w
        done = True
        for base, ws in by.items():
            real = T.to_bits(base, 64 if base[0] == 'L' else T.width(base), F); l, h = T.rng(base, F)
            free = [j for j in range(len(real)) if not isinstance(real[j], int)]
            j0 = min(ws)
            if l < 0 or sorted(ws) != free or ws[j0] % (1 << j0) or any(w != (ws[j0] >> j0) << j for j, w in ws.items()): continue
            if any(real[j] != (base, j) for j in free): pass
            elif base[0] not in 'LO' or base[0] == 'O' and base[1] not in ('urem', 'udiv'): continue
            W = ws[j0] >> j0
            for j in ws: del acc[1][('b', base, j)]
            acc[0] -= W * sum(1 << j for j in range(len(real)) if real[j] == 1)
            canon(base, F, acc, W); done = False
        if done: break
    return [acc[0], {a: w for a, w in acc[1].items() if w}]
def put(acc, a, k): acc[1][a] = acc[1].get(a, 0) + k
def bit(acc, b, w):
    if b == 0: return
    if b == 1: acc[0] += w
    else: put(acc, ('b',) + b, w)
def bits(bs, F, acc, k):
    by = {}
    for i, b in enumerate(bs):
        if b == 0: continue
        if b == 1: acc[0] += k << i
        elif b[0][0] == 's': put(acc, ('b',) + b, k << i)
        else: by.setdefault(b[0], []).append((b[1], i))
    for base, ps in by.items():
        real = T.to_bits(base, 64 if base[0] == 'L' else T.width(base), F)
        rest = []
        for j, i in ps:
            r = real[j] if j < len(real) else 0
            if r == 0: continue
            if r == 1: acc[0] += k << i
            elif r[0] is not base and r[0] != base: bits([0] * i + [r], F, acc, k)
            else: rest.append((j, i))
        for j, i in rest: put(acc, ('b', base, j), k << i)
def span(f, F):
    l = h = f[0]
    for a, w in f[1].items():
        x, y = (0, 1) if a[0] == 'b' else a[3] if a[0] == 'div' else T.rng(a, F)
        l += w * (x if w > 0 else y); h += w * (y if w > 0 else x)
    return l, h
def div(x, c, F, acc, k):
    """k * floor(x / c)"""
    while not isinstance(x, int) and x[0] == 'O' and x[1] == 'udiv' and isinstance(x[3][1], int) and x[3][1]: c *= x[3][1]; x = x[3][0]
    f = canon(x, F); q = {a: w // c for a, w in f[1].items() if w % c == 0}; r = [f[0] % c, {a: w for a, w in f[1].items() if w % c}]
    acc[0] += k * (f[0] // c)
    for a, w in q.items(): put(acc, a, k * w)
    l, h = span(r, F)
    if l // c == h // c: acc[0] += k * (l // c)
    else: put(acc, ('div', tuple(sorted(r[1].items(), key=repr)) + (r[0],), c, (l // c, h // c)), k)

def numeral(bs, digits, F):
    """the number written by the bytes bs in the positional system digits = [(offset, radix)...] -> form, or None when a
    byte may be outside its digit range, or False when it certainly is"""
    if len(bs) != len(digits): return False
    f = [0, {}]; w = 1
    for b, (o, r) in reversed(list(zip(bs, digits))):
        if not isinstance(b, int) and b[0] == 'U': return False
        l, h = T.rng(b, F)
        if h < o or l > o + r - 1: return False
        if l < o or h > o + r - 1: return None
        canon(b, F, f, w); f[0] -= w * o; w *= r
    return settle(f, F)
def same(a, b, F=None):
    if a == b: return True
    if F is not None and (a[1] or b[1]):
        # a sum all of whose bits the path has decided is a constant
        d = {x: a[1].get(x, 0) - b[1].get(x, 0) for x in {**a[1], **b[1]}}; d = {x: w for x, w in d.items() if w}; c = a[0] - b[0]
        for t in list(F.kb) + list(F.rg):
            if t[0] != 'L': continue
            bs = T.to_bits(t, 64, F)
            if any(not isinstance(x, int) for x in bs): continue
            e = canon(t, F)
            if set(e[1]) != set(d): continue
            x0 = next(iter(d)); q, r = divmod(d[x0], e[1][x0])
            if r == 0 and all(d[x] == q * e[1][x] for x in d) and c == q * (e[0] - sum(1 << i for i, x in enumerate(bs) if x)): return True
    return False if not a[1] and not b[1] else None
def numboxes(lo, hi, digits):
    """the numbers lo..hi written in the system digits, as byte boxes"""
    if not digits: return [()]
    if lo > hi: return []
    (o, r), rest = digits[0], digits[1:]; u = 1
    for _, x in rest: u *= x
    a, b = lo // u, hi // u
    if not rest: return [((o + lo, o + hi),)]
    if a == b: return [((o + a, o + a),) + x for x in numboxes(lo % u, hi % u, rest)]
    out = []
    if lo % u: out += [((o + a, o + a),) + x for x in numboxes(lo % u, u - 1, rest)]; a += 1
    end = []
    if hi % u != u - 1: end = [((o + b, o + b),) + x for x in numboxes(0, hi % u, rest)]; b -= 1
    if a <= b: out.append(((o + a, o + b),) + tuple((p, p + q - 1) for p, q in rest))
    return out + end

class Judge:
    def __init__(self, run, say, limit=4000):
        """run(box) -> outcomes; say(box) reports a single input"""
        self.run = run; self.say = say; self.limit = limit; self.blocks = self.runs = self.undecided = self.proved = 0; self.bad = 0
    def block(self, box, expect, stop=1):
        """expect(outcome) -> True, False or None (cannot tell)"""
        self.blocks += 1; n0 = self.bad; todo = [box]; used = 0
        while todo:
            b = todo.pop(); used += 1; self.runs += 1
            if used > self.limit: self.undecided += 1; return
            outs = self.run(b); vs = [expect(o) for o in outs]
            if outs and all(v is True for v in vs): self.proved += 1; continue
            w = max(range(len(b)), key=lambda i: b[i][1] - b[i][0]) if b else 0
            if not b or b[w][0] == b[w][1]:
                if False in vs and True not in vs and None not in vs:
                    self.bad += 1; self.say(b, [o for o, v in zip(outs, vs) if v is False][0])
                    if self.bad - n0 >= stop: return
                else: self.undecided += 1
                continue
            l, h = b[w]; m = (l + h) // 2
            lo, hi = b[:w] + ((l, m),) + b[w + 1:], b[:w] + ((m + 1, h),) + b[w + 1:]
            todo += [hi, lo]
