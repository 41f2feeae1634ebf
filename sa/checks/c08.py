"""Every line of every codec table of the build is parsed under the table compiler's grammar (hex pairs, '*', ',', '!',
'?', 1023-byte lines); units must carry a known type tag in canonical (shortest) form; a table has call-back entries
exactly when the codec ships native code, whose IR must define the conversion routine; every module the build lists
has its source, and every entry point it defines has the interface's signature (from the compiler's IR); the loader
binds every entry point to the symbol of its own name (sa/libw.py)."""
import os
from .. import ir, tables, libs
SIG = dict(cbconv=('void', ['ptr']), cbflush=('void', ['ptr']), cbcreate=('i32', ['ptr', 'ptr']), cbinit=('void', ['ptr']),
           cbctl=('void', ['ptr', 'i32', 'ptr', 'i64']), cbdestroy=('void', ['ptr']), cbfilter=('i32', ['ptr']), cbscorer=('i32', ['ptr']))
def noncanon(u):
    """type 01 unit that is not in shortest form"""
    return len(u) >= 3 and u[0] == 1 and u[1] == 0
def units_of(key):
    cur = []
    for x in key:
        if x == 256: yield cur; cur = []
        else: cur.append(x)
    yield cur
def run(rep):
    nlines = nent = nunits = 0; ncb = 0
    cs = ir.codecs()
    if len(set(cs)) != len(cs): rep.violation('Makefile:dup', 'a codec is listed twice in the Makefile')
    for c in cs:
        t = tables.table(c); f = f'modules/{c}.txt'
        if t is None: rep.violation(f'{f}:missing', f'{f}: codec is built but has no table'); continue
        ph = c.split('/')[0]; cbs = 0
        for e in t:
            nlines += 1
            if e.err: rep.violation(f'{f}:parse:{e.err}', f'{f}:{e.line}: {e.err}'); continue
            nent += 1; cbs += e.cb
            where = f'{f}:{e.line}'; kid = '-'.join('*' if x == '*' else '%02X' % x if x < 256 else ',' for x in e.key)
            if ph in ('inter', 'to'):
                # input side is a sequence of units: each starts with its type tag
                for u in units_of(e.key):
                    nunits += 1
                    if not u: rep.violation(f'{f}:{kid}:empty-unit', f'{where}: empty input unit'); continue
                    if u[0] == '*' or (u[0] in (0, 2, 3, 4, 5, 6, 0x1b)): continue
                    if u[0] != 1: rep.violation(f'{f}:{kid}:tag', f'{where}: input unit with unknown type tag {u[0]:02X}'); continue
                    if len(u) == 1: rep.violation(f'{f}:{kid}:bare', f'{where}: character unit without a character'); continue
                    if len(u) > 2 and u[1] == 0: rep.violation(f'{f}:{kid}:noncanonical', f'{where}: character with a leading zero byte never matches (units are in shortest form)')
            if ph in ('from', 'inter') and not e.cb:
                if any(x == 0 for x in (len(u) for u in e.out)): rep.violation(f'{f}:{kid}:empty-out', f'{where}: empty output unit')
                for u in e.out:
                    nunits += 1
                    if not u: continue
                    if u[0] not in (0, 1, 2, 3, 4, 0x1b): rep.violation(f'{f}:{kid}:outtag', f'{where}: output unit with unknown type tag {u[0]:02X}')
                    if u[0] != 0 and len(u) == 1: rep.violation(f'{f}:{kid}:bare-out', f'{where}: output unit has a type tag but no content')
                    if noncanon(u): rep.violation(f'{f}:{kid}:noncanonical-out', f'{where}: output character {u.hex()} has a leading zero byte')
                    if u[0] == 1 and len(u) == 4 and int.from_bytes(u[1:], 'big') > 0x10ffff: rep.violation(f'{f}:{kid}:range', f'{where}: output beyond the Unicode code space')
                    if u[0] == 1 and len(u) > 4: rep.violation(f'{f}:{kid}:range', f'{where}: output beyond the Unicode code space')
        src = os.path.exists(os.path.join(ir.REPO, 'modules', c + '.c'))
        if cbs and not src: rep.violation(f'{f}:callback-without-code', f'{f}: {cbs} call-back entries, but modules/{c}.c does not exist: they can never be served')
        ncb += cbs
        if src:
            u = ir.load_unit(f'modules/{c}.c')
            has = 'cbconv' in u.sigs and not u.sigs['cbconv']['internal']
            if cbs and not has: rep.violation(f'modules/{c}.c:no-cbconv', f'modules/{c}.c: the table hands input to native code, but no conversion routine is exported')
            if has and not cbs: rep.violation(f'{f}:code-without-callback', f'{f}: native code exists but no table entry reaches it')
            check_sigs(rep, u)
    for c in ir.filters() + ir.scorers():
        kind = 'filter' if c in ir.filters() else 'scorer'
    nmod = 0
    for kind, lst, entry in (('filter', ir.filters(), 'cbfilter'), ('scorer', ir.scorers(), 'cbscorer')):
        for m in lst:
            nmod += 1
            u = ir.load_unit(f'modules/{kind}/{m}.c')
            if entry not in u.sigs or u.sigs[entry]['internal']: rep.violation(f'modules/{kind}/{m}.c:no-{entry}', f'modules/{kind}/{m}.c does not export {entry}')
            check_sigs(rep, u)
    rep.floor('table_lines', nlines, 733000); rep.cov['entries'] = nent; rep.cov['units_checked'] = nunits; rep.cov['callback_entries'] = ncb
    libs.run(rep, 'C08', ['w_load'], 1)
    rep.floor('codecs', len(cs), 157); rep.floor('filters_scorers', nmod, 55)
def check_sigs(rep, u):
    for f, (ret, ps) in SIG.items():
        if f in u.sigs:
            s = u.sigs[f]
            if s['ret'] != ret or s['params'] != ps:
                rep.violation(f'{u.src}:{f}:signature', f"{u.src}: {f} has signature {s['ret']}({', '.join(s['params'])}), the loader calls it as {ret}({', '.join(ps)})")
