"""White space taken out and put back: DERAIL's record (which white space, behind how many units) and RERAIL's use of it are
interpreted abstractly over sequences of units and over every short queue; together they restore the order of the text."""
import itertools
from .. import ir, terms as T
from ..absint import P
from ..seq import Seq, stream
from ..ir import AnalysisBroken
from ..life import *
from .c28 import ch, OTHER, EMPTY, seqs
D, R = 'inter/WHITESPACE-DERAIL', 'inter/WHITESPACE-RERAIL'
class Rail(Seq):
    def priv(self, st):
        p = self.m.rd(st, self.cd, self.SC + self.oc['priv'], 8)
        return p[1] if not isinstance(p, int) and p[0] == 'P' else None
    NAMES = ['queue', 'last', 'rerail', 'offsetA', 'offsetB']
    def fld(self, f):
        ms = self.u.structs['my_s']['members']
        for m in ms:
            if m['name'] == f: return m['off']
        if len(ms) == 5: return sorted(m['off'] for m in ms)[self.NAMES.index(f)]
        raise AnalysisBroken(f'modules/inter/WHITESPACE.h: no member {f}')
    def queue(self, st):
        """[(offset, bytes)] of the queue, or None"""
        o = self.priv(st); m = self.m; r = []; v = m.rd(st, o, self.fld('queue'), 8); tail = P(o, self.fld('queue'))
        while v != 0:
            if isinstance(v, int) or v[0] != 'P' or len(r) > 8: return None
            d = m.rd(st, v[1], self.od['data'], 8); n = m.rd(st, v[1], self.od['len'], 8)
            if isinstance(d, int) or d[0] != 'P': return None
            b = self.content(st, m.rd(st, d[1], self.od['data'], 8), m.rd(st, d[1], self.od['len'], 8))
            r.append((n, None if b is None else tuple(b))); tail = P(v[1], self.od['next']); v = m.rd(st, v[1], self.od['next'], 8)
        last = m.rd(st, o, self.fld('last'), 8)
        return r, None if isinstance(last, int) or last[0] != 'P' else (last[1], last[2]) == (tail[1], tail[2])
    def put(self, st, lens, b):
        """a queue of marked units with the given offsets, RERAIL having passed b units on"""
        st = st.copy(); m = self.m; o = self.priv(st); at = (o, self.fld('queue')); marks = []
        for j, n in enumerate(lens):
            q = m.new(st, 'unit', self.SD, f'queue entry {j}'); w = m.new(st, 'unit', self.SD, f'white space {j}'); B = m.new(st, 'heap', 2, f'the bytes of white space {j}')
            m.wr(st, B, 0, 1, 1); m.wr(st, B, 1, 1, 0x20 + 0x60 + j); marks.append((1, 0x80 + j))
            for x, d, ln in ((q, P(w), n), (w, P(B), 2)):
                m.wr(st, x, self.od['data'], 8, d); m.wr(st, x, self.od['len'], 8, ln); m.wr(st, x, self.od['next'], 8, 0); m.wr(st, x, self.od['flags'], 1, 0)
            m.wr(st, at[0], at[1], 8, P(q)); at = (q, self.od['next'])
        m.wr(st, o, self.fld('last'), 8, P(*at)); m.wr(st, o, self.fld('offsetB'), 8, b)
        return st, marks
def hexu(us): return '; '.join(' '.join(f'{c:02X}' if isinstance(c, int) else '??' for c in u) for u in us) if us is not None else '?'
def derail(rep, cov):
    k = Rail(D); k.exact = True; one = set()
    def say(key, msg):
        if key not in one: one.add(key); rep.violation(f'{D}:{key}', f'modules/{D}.c cbconv: {msg}')
    ss = k.start()
    if not ss: say('create', 'cbcreate never succeeds'); return
    ws = [('w', ch(x)) for x in (9, 10, 13, 32)]; no = [('c', ch(0x41, 0x5a)), ('o', OTHER), ('e', EMPTY), ('u', ch(33))]
    for s in ss:
        for rail in (False, True):
            s1 = s.copy(); o = k.priv(s1)
            if o is None: say('state', 'has no state of its own'); return
            nxt = (k.idx + 1) * k.SP
            k.m.wr(s1, o, k.fld('rerail'), 8, P(k.ph, nxt) if rail else 0); k.m.wr(s1, k.ph, nxt + k.op['flags'], 1, 0)
            for q in list(seqs(ws[3:] + no[:2], 4)) + list(seqs(ws + no, 2)):
                for out in k.runs(s1, [b for _, b in q], flush=False):
                    cov['obligations'] += 1; want = []; n = 0
                    for (t, _), b in zip(q, out['B']):
                        if t == 'w': want.append((n, tuple(b)))
                        else: n += 1
                    got = k.queue(out['st']); txt = hexu([[l if l == h else T.fresh(8, 'x') for l, h in b] for _, b in q]) or 'nothing'
                    if got is None: say('queue', f'after the units {txt} the queue of white space cannot be followed'); continue
                    if got[0] != want: say('record', f'after the units {txt} the queue holds {len(got[0])} units of white space, behind {", ".join(str(x[0]) for x in got[0]) or "no"} units of text, instead of {len(want)}, behind {", ".join(str(x[0]) for x in want) or "no"}'); continue
                    if got[1] is False: say('tail', f'after the units {txt} the place for the next entry is not the end of the queue'); continue
                    if rail:
                        f = k.m.rd(out['st'], k.ph, nxt + k.op['flags'], 1)
                        if isinstance(f, int) and want and not f & F_PENDING: say('pending', f'after the units {txt} the phase that puts white space back is not marked as having something to add at the end')
def rerail(rep, cov):
    k = Rail(R); k.exact = True; one = set()
    def say(key, msg, fn='cbconv'):
        if key not in one: one.add(key); rep.violation(f'{R}:{key}', f'modules/{R}.c {fn}: {msg}')
    ss = k.start()
    if not ss: say('create', 'cbcreate never succeeds', 'cbcreate'); return
    for s in ss:
        o = k.priv(s); p = k.m.rd(s, o, k.fld('rerail'), 8)
        if isinstance(p, int) or p[0] != 'P' or (p[1], p[2]) != (k.ph, k.idx * k.SP): say('self', 'does not tell the other side which phase puts white space back', 'cbinit')
        for b in (0, 1, 2):
            for n in range(4):
                for lens in itertools.combinations_with_replacement(range(max(0, b - 1), b + 4), n):
                    st, marks = k.put(s, lens, b); txt = f'white space that stood behind {", ".join(map(str, lens)) or "no"} units waits and {b} units have passed'
                    for box in (ch(0x41, 0x5a), OTHER, EMPTY):
                        for out in k.runs(st, [box], flush=False):
                            cov['obligations'] += 1; x = tuple(out['B'][0])
                            want = [w for w, l in zip(marks, lens) if l <= b] + [x] + [w for w, l in zip(marks, lens) if l == b + 1]; rest = [(l, w) for w, l in zip(marks, lens) if l > b + 1]
                            got = stream(out)
                            if got is None: say('status', f'where {txt}, a unit leaves no definite result'); continue
                            if got != want: say('order', f'where {txt}, a unit {hexu([x])} leaves {hexu(got)} instead of {hexu(want)} (80.. being the white space)'); continue
                            if k.m.rd(out['st'], o, k.fld('offsetB'), 8) != b + 1: say('count', f'where {txt}, the unit is not counted'); continue
                            q = k.queue(out['st'])
                            if q is None or q[0] != rest: say('rest', f'where {txt}, what waits after the unit is {"unclear" if q is None else len(q[0])} instead of {len(rest)} units of white space'); continue
                            if q[1] is False: say('tail', f'where {txt}, after the unit the place for the next entry is not the end of the queue'); continue
                            fl = k.flagsof(out['st'])
                            if isinstance(fl, int) and bool(fl & F_PENDING) != bool(rest): say('pending', f'where {txt}, after the unit the phase is {"not " if rest else ""}marked as having something to add at the end'); continue
                    st2 = k.again(dict(st=st))
                    for out in k.flushed(st2):
                        cov['obligations'] += 1
                        if out['out'] is None or None in out['out'] or [tuple(x) for x in out['out']] != marks: say('end', f'where {txt}, the end of the text gives {hexu(out["out"])} instead of all of it in order', 'cbflush'); continue
                        q = k.queue(out['st'])
                        if q is None or q[0] or q[1] is False: say('end-rest', f'where {txt}, the end of the text leaves the queue not empty', 'cbflush')
def run(rep):
    cov = rep.c31 = dict(obligations=0)
    derail(rep, cov); n = cov['obligations']; rerail(rep, cov)
    rep.floor('obligations', cov['obligations'], 500); rep.cov['derail'] = n
