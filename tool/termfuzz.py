#!/usr/bin/env python3
"""Self-test of the term algebra (not a check of any property): random expressions and branch conditions over symbols with a
hidden concrete value; no fact that is true of the hidden values may be refused, and no decision may contradict them."""
import sys, random
sys.path.insert(0, '/verif')
from sa import terms as T
from sa.absint import Machine, State
class U: src = 'x'
def conc(op, a, b, w):
    M = T.mask(w); s = lambda v: T.signed(v, w)
    if op == 'add': return a + b & M
    if op == 'sub': return a - b & M
    if op == 'mul': return a * b & M
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return a << b & M
    if op == 'lshr': return a >> b
    if op == 'ashr': return s(a) >> b & M
def holds(p, a, b, w):
    if p in ('eq', 'ne'): return (a == b) == (p == 'eq')
    if p[0] == 's': a, b = T.signed(a, w), T.signed(b, w)
    return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]]
def main(n, seed):
    m = Machine.__new__(Machine); bad = 0
    for it in range(n):
        R = random.Random(seed * 1000003 + it); st = State(); F = st.F; hist = []
        pool = []
        for i in range(3):
            w = R.choice([8, 8, 8, 32]); v = R.choice([R.getrandbits(w), R.getrandbits(w) & 0xff, R.choice([0, 1, 2, 127, 128, 255])]); pool.append((T.fresh(w, f's{i}'), v & T.mask(w), w, f's{i}={v}'))
        for k in range(R.randint(3, 18)):
            t, v, w, d = R.choice(pool)
            c = R.random()
            try:
                if c < .15 and w < 64:
                    w2 = R.choice([x for x in (16, 32, 64) if x > w] or [64])
                    if R.random() < .6: pool.append((T.zext(t, w, w2, F), v, w2, f'zext{w2}({d})'))
                    else: pool.append((T.sext(t, w, w2, F), T.signed(v, w) & T.mask(w2), w2, f'sext{w2}({d})'))
                elif c < .2 and w > 8: w2 = R.choice([x for x in (8, 16, 32) if x < w]); pool.append((T.trunc(t, w2, F), v & T.mask(w2), w2, f'trunc{w2}({d})'))
                elif c < .6:
                    op = R.choice(['add', 'sub', 'mul', 'and', 'and', 'or', 'xor', 'shl', 'lshr', 'lshr', 'ashr'])
                    o = [x for x in pool if x[2] == w]
                    if op in ('shl', 'lshr', 'ashr'): b = R.randint(0, min(w - 1, 12)); bt, bv, bd = b, b, str(b)
                    elif op == 'mul': b = R.choice([2, 3, 4, 10, 28, 588]); bt, bv, bd = b, b, str(b)
                    elif R.random() < .6: b = R.choice([1, 2, 3, 0x3f, 0xc0, 0xf0, 0x80, 0x10, 0xd800, 0x1100, 0xfc, 0x0f, R.getrandbits(8)]) & T.mask(w); bt, bv, bd = b, b, hex(b)
                    else: bt, bv, _, bd = R.choice(o)
                    if w < 32 and op in ('add', 'sub', 'mul', 'shl'): continue         # C computes in int
                    if w == 32 and op in ('add', 'sub', 'mul', 'shl') and not (op == 'shl' and v < 1 << 24) :
                        x = {'add': T.signed(v, w) + T.signed(bv, w), 'sub': T.signed(v, w) - T.signed(bv, w), 'mul': T.signed(v, w) * T.signed(bv, w), 'shl': v << bv}[op]
                        if not -(1 << 31) <= x < 1 << 31: continue              # undefined behaviour
                    r = m.arith1(st, op, t, bt, w)
                    pool.append((r, conc(op, v, bv, w), w, f'({d} {op}{w} {bd})'))
                else:
                    p = R.choice(['eq', 'ne', 'ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'])
                    if R.random() < .8: b = R.choice([v, v + 1, v - 1, R.getrandbits(8), 0x80, 0]) & T.mask(w); bt, bv, bd = b, b, hex(b)
                    else: bt, bv, _, bd = R.choice([x for x in pool if x[2] == w])
                    t2 = m.nrm(st, t) if hasattr(m, 'nrm') else t
                    tv = holds(p, v, bv, w); hist.append((p, d, bd, tv))
                    dc = T.decide(p, T.renorm(t, F) if not isinstance(t, int) else t, bt if isinstance(bt, int) else T.renorm(bt, F), w, F)
                    if dc is not None and dc != tv: print('DECIDE wrong', it, p, d, bd, 'true value', tv, 'hist', hist[:-1]); bad += 1; break
                    if not T.assume(p if tv else T.INV[p], t if isinstance(t, int) else T.renorm(t, F), bt if isinstance(bt, int) else T.renorm(bt, F), w, F): print('ASSUME refused', it, p, d, bd, tv, 'hist', hist[:-1]); bad += 1; break
            except Exception as e:
                import traceback; traceback.print_exc(); print('CRASH', it, d); bad += 1; break
            ok = True
            for t, v, w, d in pool:
                l, h = T.rng(T.renorm(t, F) if not isinstance(t, int) else t, F)
                if not l + (v - l) % (1 << w) <= h: print('RANGE wrong', it, d, 'value', v, 'range', (l, h), 'hist', hist); ok = False; break
            if not ok: bad += 1; break
        if bad > 8: break
    print('done', n, 'bad', bad)
    return bad
sys.exit(1 if main(int(sys.argv[1]) if len(sys.argv) > 1 else 20000, int(sys.argv[2]) if len(sys.argv) > 2 else 1) else 0)
