"""Code extension: the stateful decoders and encoders are interpreted abstractly from every mode they can be in; every escape
sequence, every proper prefix of one, every byte in every mode and every length of table data is decided."""
import os, re
from .. import ir, tables, terms as T, forms as Fo
from ..absint import P
from ..blocks import Blocks
from ..life import *
from ..seq import Seq
# ISO-2022-JP-1 / ISO registry of escape sequences: what each designates, and the value a byte in 21..7E is looked up under
SETS = {b'\x1b(B': ('ASCII', None, 0), b'\x1b(J': ('JIS X 0201 Roman', '_JIS0201', 0), b'\x1b(I': ('JIS X 0201 Katakana', '_JIS0201', 0x80),
        b'\x1b$@': ('JIS C 6226-1978', '_JIS0208', 0), b'\x1b$B': ('JIS X 0208-1983', '_JIS0208', 0), b'\x1b$(D': ('JIS X 0212-1990', '_JIS0212', 0)}
show = lambda s: ' '.join('ESC' if c == 0x1b else chr(c) if isinstance(c, int) and 0x20 < c < 0x7f else f'{c:02X}' for c in s)

sn = lambda o: SNAME[o["status"]] if isinstance(o["status"], int) else "an undecided status"
class Tabs(Blocks):
    """every codec loaded by the codec has a table of its own, and reads of tables are noted"""
    def tableof(self, st, desc):
        desc = (desc or b'?').decode('latin1')
        st.cl['tabs'] = st.cl.get('tabs', ())
        for n, z, d in st.cl['tabs']:
            if n == desc: return z, d
        z = self.m.new(st, 'z', None, f'the table of {desc}'); d = self.m.new(st, 'dz', None, f'the table data of {desc}')
        st.cl['tabs'] += ((desc, z, d),); self.tabnames[z] = (desc, 'z'); self.tabnames[d] = (desc, 'data'); self.fixed |= {z, d}
        return z, d
    tabnames = {}
    def onload(self, st, o, off, sz, v, ins):
        if o in self.tabnames: st.cl['reads'] = st.cl.get('reads', ()) + (self.tabnames[o] + (off, sz),)
        return super().onload(st, o, off, sz, v, ins)
    def step(self, st, box):
        st = self.again(dict(st=st)); st.cl['reads'] = (); return self.feed(st, (box,))
def pieces(bs):
    """a set of bytes as ranges"""
    r = []
    for b in sorted(bs):
        if r and r[-1][1] == b - 1: r[-1] = (r[-1][0], b)
        else: r.append((b, b))
    return r

def jis(rep, cov, name='from/_JIS'):
    k = Tabs(name); k.tabnames = {}; k.exact = True; one = set()
    def say(key, msg):
        if key not in one: one.add(key); rep.violation(f'{name}:{key}', f'modules/{name}.c cbconv: {msg}')
    ss = k.start()
    if not ss: rep.violation(f'{name}:create', f'modules/{name}.c: cbcreate never succeeds'); return
    prefixes = {s[:i] for s in SETS for i in range(1, len(s))}
    def ctl(o): return o['status'], o['out']
    def escape(st, seq, ctx):
        """all states after the sequence"""
        todo = [st]
        for i, c in enumerate(seq):
            new = []
            for s in todo:
                for o in k.step(s, (c, c)):
                    cov['obligations'] += 1; last = i == len(seq) - 1; want = NEXTPHASE if last else CONTINUE
                    if o['status'] != want or o['out'] != []:
                        say(f'sequence:{show(seq)}', f'{show(seq[:i + 1])} {ctx} leaves {sn(o)} with {"output" if o["out"] else "no output"} instead of {SNAME[want]}; the sequence designates {SETS[seq][0]}')
                        return None
                    if last:
                        tab = SETS[seq][1]
                        for n, kind, off, sz in o['st'].cl.get('reads', ()):
                            if n != tab: say(f'sequence:{show(seq)}', f'{show(seq)} {ctx} prepares the table {n} instead of {tab or "none"}'); return None
                    new.append(o['st'])
            todo = new
        return todo
    def inmode(sts, seq, ctx):
        """bytes that are not the start of an escape sequence"""
        what, tab, add = SETS[seq]
        for box in ((0, 0x1a), (0x1c, 0x20), (0x21, 0x5f), (0x60, 0x7e), (0x7f, 0x7f), (0x80, 0xff)):
            for s in sts:
                emitted = tab is None
                for o in k.step(s, box):
                    cov['obligations'] += 1; F = o['st'].F; B = o['B'][0]; reads = o['st'].cl.get('reads', ())
                    b = f'{box[0]:02X}..{box[1]:02X}'
                    if tab is None:
                        if o['status'] != DEADEND or o['out'] != []: say(f'mode:{show(seq)}', f'after {show(seq)} {ctx} ({what}) a byte {b} is not left to the ASCII table'); return
                        if reads: say(f'mode:{show(seq)}', f'after {show(seq)} {ctx} ({what}) a byte {b} is looked up in {reads[0][0]}'); return
                        continue
                    for n, kind, off, sz in reads:
                        if n != tab: say(f'mode:{show(seq)}', f'after {show(seq)} {ctx} ({what}) a byte {b} is looked up in {n} instead of {tab}'); return
                    if not reads: say(f'mode:{show(seq)}', f'after {show(seq)} {ctx} ({what}) a byte {b} is not looked up in {tab}'); return
                    # the entry read is the one of the byte: the address moves by four for each value of the byte
                    if box == (0x21, 0x5f):
                        for n, kind, off, sz in reads:
                            if kind != 'z' or isinstance(off, int): continue
                            f = Fo.canon(off, F); w = {a[2]: x for a, x in f[1].items() if a[0] == 'b' and a[1] == B}
                            if not w and ('b', B) not in f[1]: continue
                            cov['obligations'] += 1
                            base = f[0] % (1 << 64); plain = sum(x * ((0x21 >> j) & 1) for j, x in w.items()) + (f[1].get(B, 0) * 0x21)
                            if (base + plain) % (1 << 64) != 4 * (0x21 + add): say(f'mode:{show(seq)}', f'after {show(seq)} {ctx} ({what}) the byte 21 is looked up as {((base + plain) % (1 << 64)) // 4 % 65536:02X} instead of {0x21 + add:02X}'); return
                    if o['status'] == NEXTPHASE:
                        if o['out'] is None or o['out'] or any(x[1] == 'data' for x in reads): emitted = True
                    elif o['out']: say(f'mode:{show(seq)}', f'after {show(seq)} {ctx} ({what}) a byte {b} emits data although the table has not decided'); return
                if not emitted: say(f'mode:{show(seq)}', f'after {show(seq)} {ctx} ({what}) no byte {b} is ever decoded'); return
    for s in ss: inmode([s], b'\x1b(B', 'at the start')
    # every sequence from every mode, then every byte
    for first in [None] + list(SETS):
        base = ss if first is None else [x for s in ss for x in (escape(s, first, 'at the start') or [])]
        ctx = 'at the start' if first is None else f'after {show(first)}'
        for s in base:
            for p in sorted(prefixes):
                # walk to the prefix, then every other byte is refused
                st = [s]
                for c in p: st = [o['st'] for x in st for o in k.step(x, (c, c)) if o['status'] == CONTINUE]
                go = {q[len(p)] for q in SETS if q.startswith(p) and len(q) > len(p)}
                for l, h in pieces(set(range(256)) - go):
                    for x in st:
                        for o in k.step(x, (l, h)):
                            cov['obligations'] += 1
                            if o['status'] != DEADEND or o['out'] != []: say(f'unknown:{show(p)}', f'{show(p)} {ctx} followed by a byte {l:02X}..{h:02X}, which is no sequence of the standard, leaves {sn(o)} instead of being refused')
            for q in SETS:
                r = escape(s, q, ctx)
                if r: cov['sequences'] += 1; inmode(r, q, ctx)
    for kk, rule, msg in k.viol: cov['notes'] += 1

class Sh(Blocks):
    """one call with table data of given bytes"""
    def call(self, st, data):
        s = self.again(dict(st=st)); r = self.feed(s, ((0x40, 0xfe),) if self.kind == 'from' else ((1, 1), (0, 255)), table=data)
        return r
def ebcdic_from(rep, cov, name):
    k = Sh(name); ss = k.start(); say = lambda key, msg: rep.violation(f'{name}:{key}', f'modules/{name}.c cbconv: {msg}')
    if not ss: say('create', 'cbcreate never succeeds'); return
    seen = set()
    def go(s, double, path, depth):
        for data, nd in ((b'\x01\x0e', True), (b'\x01\x0f', False)):
            for o in k.call(s, [data]):
                cov['obligations'] += 1
                if o['status'] != NEXTPHASE or o['out'] != []: say('shift', f'shift code {data[1]:02X} after {path} leaves {sn(o)} {"with output " if o["out"] else ""}instead of being taken out'); return
                if depth: go(o['st'], nd, f'{path}, {"SO" if nd else "SI"}', depth - 1)
        for data in ([b'\x01\x41'], [b'\x01\x30\x42'], [b'\x01\x00'], [b'\x02\x0e'], [b'\x01\x0e\x0f'], [b'\x01\x0f\x0e'], [b'\x01\x10'], [b'\x01\x0d'], [b'\x01\x41', b'\x01\x0e']):
            for o in k.call(s, data):
                cov['obligations'] += 1; want = SUBMATCH if double else MATCH
                if o['status'] != want or o['out'] != []:
                    say('double' if double else 'single', f'{path}: a table entry with data {",".join(x.hex() for x in data)} leaves {sn(o)} instead of {SNAME[want]} ({"two-byte codes: the next byte may complete a longer one" if double else "one-byte codes"})'); return
                if depth: pass
    for s in ss: go(s, False, 'the start', 3)
    cov['sequences'] += 1
def ebcdic_to(rep, cov, name):
    k = Sh(name); ss = k.start(); one = set()
    def say(key, msg):
        if key not in one: one.add(key); rep.violation(f'{name}:{key}', f'modules/{name}.c: {msg}')
    if not ss: say('create', 'cbcreate never succeeds'); return
    def same(out, want):
        if out is None: return None
        return [tuple(x) if x is not None else None for x in out] == [tuple(x) for x in want]
    def go(s, double, path, depth):
        for data in (b'\x41', b'\x42\x43'):
            want = ([b'\x0e'] if len(data) == 2 and not double else [b'\x0f'] if len(data) == 1 and double else []) + [data]
            for o in k.call(s, [data]):
                cov['obligations'] += 1; nd = len(data) == 2
                if same(o['out'], want) is not True: say('shift', f'cbconv: {path}, a {len(data)}-byte code {data.hex()} is written as {"something undecided" if o["out"] is None else " ".join(bytes(x).hex() if x and all(isinstance(c, int) for c in x) else "?" for x in o["out"]) or "nothing"} instead of {" ".join(x.hex() for x in want)}'); return
                pend = k.flagsof(o['st']) & F_PENDING
                if isinstance(pend, int) and bool(pend) != nd: say('pending', f'cbconv: {path}, after a {len(data)}-byte code the phase is {"not " if nd else ""}marked as having something to add at the end'); return
                if depth: go(o['st'], nd, f'{path}, a {len(data)}-byte code', depth - 1)
        for o in k.flushed(k.again(dict(st=s))):
            cov['obligations'] += 1; want = [b'\x0f'] if double else []
            if same(o['out'], want) is not True: say('end', f'cbflush: at the end of a text ({path}) {"something undecided" if o["out"] is None else " ".join("?" if x is None else "".join(f"{c:02x}" if isinstance(c, int) else "??" for c in x) for x in o["out"]) or "nothing"} is written instead of {"0f, the return to one-byte codes" if double else "nothing"}'); return
            if depth: go(o['st'], False, f'{path}, end of the text', 0)
    for s in ss: go(s, False, 'the start', 3)
    cov['sequences'] += 1

def run(rep):
    cov = rep.c30 = dict(obligations=0, sequences=0, notes=0, codecs=0)
    units = set(ir.codec_units())
    inc = lambda u: re.search(r'^#include\s+"EBCDIC\.c"', open(f'{ir.REPO}/modules/{u}.c', encoding='latin-1').read(), re.M)
    todo = [(jis, 'from/_JIS')] if 'from/_JIS' in units else []
    for u in sorted(units):
        if re.match(r'(from|to)/IBM-93\d$', u): todo.append((ebcdic_from if u.startswith('from/') else ebcdic_to, u))
    for f, u in todo: f(rep, cov, u); cov['codecs'] += 1
    # an alias whose decoder knows escape sequences has an encoder that writes them
    al = {ph: tables.aliases(ph) if hasattr(tables, 'aliases') else aliases(ph) for ph in ('from', 'to')}
    for n, parts in sorted(al['to'].items()):
        if n in al['from'] and '_JIS' in re.split(r'[,:]', al['from'][n]):
            cov['obligations'] += 1
            if not any(f'to/{p}' in units for p in re.split(r'[,:]', parts)):
                rep.violation(f'to:{n}:no-designation', f'modules/to/alias: the encoder {n} ({parts}) writes two-byte codes without the escape sequence that announces them, so the decoder {n} ({al["from"][n]}) reads them as ASCII')
    rep.floor('codecs', cov['codecs'], 11); rep.floor('sequences', cov['sequences'], 20); rep.floor('obligations', cov['obligations'], 300)
def aliases(ph):
    r = {}
    for l in open(f'{ir.REPO}/modules/{ph}/alias', encoding='latin-1'):
        f = l.split()
        if len(f) == 2 and not l.startswith('#'): r[f[0]] = f[1]
    return r
