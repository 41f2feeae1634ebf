"""Codecs of intermediate phases over short sequences of units: every unit is a class of characters (a box), one abstract run
per sequence and decision, the emitted units are read back as the input units they are made of."""
from . import terms as T
from .blocks import Blocks
from .absint import P
from .life import *
from .ir import AnalysisBroken
SN = SNAME

class Seq(Blocks):
    """runs(units): all outcomes of feeding the boxes one after the other and flushing.
    -> [dict(ev=[(status, [bytes terms])...], st, B=[bytes terms of each input unit], flush)]"""
    def unit(self, s, box):
        m = self.m; n = len(box); C, D = self.curr_unit(s, n, 0, []); B = []
        for k, (l, h) in enumerate(box):
            if l == h: m.wr(s, D, k, 1, l); B.append(l)
            else:
                x = m.rd(s, D, k, 1); B.append(x)
                if (l, h) != (0, 255): s.F.rg[x] = (l, h)
        m.wr(s, self.ph, self.pf('i'), 4, n)
        return tuple(B)
    def follow(self, s):
        """a unit the codec itself has put behind the current one"""
        c = self.m.rd(s, self.ph, self.pf('curr'), 8)
        nx = self.m.rd(s, c[1], self.od['next'], 8)
        return nx if not isinstance(nx, int) and nx[0] == 'P' else None
    def again_unit(self, s, by):
        m = self.m; C, D = self.curr_unit(s, len(by), 0, [])
        for k, x in enumerate(by): m.wr(s, D, k, 1, x)
        m.wr(s, self.ph, self.pf('i'), 4, len(by)); return tuple(by)
    def runs(self, st, units, table=(), flush=True, limit=64):
        """the engine around the codec: a refused unit is passed on; while the codec wants to see more (CONTINUE) the units wait,
        and when it then refuses, the first of them is passed on and the others are offered again; so it is at the flush, where
        the codec is initialised first"""
        m = self.m; done = []
        s0 = st.copy(); s0.cl['nopool'] = False; s0.cl['usetail'] = False; s0.cl['pool'] = ()
        todo = [(s0, [], list(range(len(units))), [], [None] * len(units), [], 0)]
        while todo:
            s, more, rest, ev, B, wait, n = todo.pop()
            s = s.copy(); m.wr(s, self.H, self.od['next'], 8, 0); m.wr(s, self.ph, self.pf('data_tail'), 8, P(self.H)); self.begin(s)
            if n > limit: done.append(dict(ev=ev, st=s, B=B, flush=None, endless=True)); continue
            nx = self.follow(s) if n and not wait and not more else None
            if nx is not None:
                m.wr(s, self.ph, self.pf('curr'), 8, nx); b = self.content(s, m.rd(s, nx[1], self.od['data'], 8), m.rd(s, nx[1], self.od['len'], 8))
                m.wr(s, self.ph, self.pf('i'), 4, len(b) if b else 0); who = b
            elif more: who = self.again_unit(s, more[0]); more = more[1:]
            elif rest:
                who = self.unit(s, units[rest[0]]); B = list(B); B[rest[0]] = who; rest = rest[1:]
            elif wait and flush:
                for x in (self.run(s, 'cbinit', [P(self.ins)], 'flush') if 'cbinit' in self.u.fns else [(s, None)]):
                    todo.append((x[0], wait[1:], [], ev + [('P', [], wait[0])], B, [], n + 1))
                continue
            else:
                if not flush or 'cbflush' not in self.u.fns: done.append(dict(ev=ev, st=s, B=B, flush=None)); continue
                self.setflags(s, self.flagsof(s) & ~(F_PENDING | F_LOOPBACK))
                for x, _ in self.run(s, 'cbflush', [P(self.ins)], 'flush'):
                    r = self.result(x, None, None); done.append(dict(ev=ev, st=x, B=B, flush=r['out'], fstatus=r['status']))
                continue
            self.table(s, table); self.setflags(s, self.flagsof(s) | F_LOOPBACK); s.cl['loads'] = ()
            for x, _ in self.run(s, 'cbconv', [P(self.ins)], 'unit'):
                r = self.result(x, None, None); t = r['status']
                if t == CONTINUE: todo.append((x, more, rest, ev + [(t, r['out'], who)], B, wait + [who], n + 1))
                elif t == DEADEND and wait: todo.append((x, wait[1:] + [who] + more, rest, ev + [('P', r['out'], wait[0])], B, [], n + 1))
                else: todo.append((x, more, rest, ev + [(t, r['out'], who)], B, [], n + 1))
        return done
def stream(o):
    """the units that leave the phase, in order (the engine passes on a unit that an intermediate codec refuses); None: unknown"""
    r = []; held = False
    for st, out, who in o['ev']:
        if out is None or None in out or not (isinstance(st, int) or st == 'P'): return None
        r += [tuple(x) for x in out]
        if st == 'P': r.append(tuple(who))
        elif st == DEADEND:
            if held: return None        # the engine flushes what is held first: not modelled here
            r.append(tuple(who))
        elif st == SUBMATCH: held = True
        elif st in (NEXTPHASE, MATCH): held = False
        elif st == CONTINUE: pass
        else: return None
    if o['flush'] is not None:
        if None in o['flush']: return None
        r += [tuple(x) for x in o['flush']]
    elif o.get('endless'): return None
    return r
