"""Agreement of the table compiler with the readers of compiled tables. (1) Byte-order value flow (sa/order.py) over the typed IR of the compiler, the library, the debugger and every codec: every field is written and read through the same helper, none is converted twice. (2) main() of src/bsdconv-mktable.c interpreted abstractly over shapes of table sources whose output digits are symbolic (sa/libk.py): the file it writes, walked as the engine does, holds exactly the keys and data of the source, and no byte that was never set."""
import concurrent.futures as cf
from .. import ir, libs, order
def flow(rel):
    try: f = order.Flow(rel)
    except ir.AnalysisBroken as e: return rel, None, None, None, str(e)
    return rel, f.use, f.fill, f.twice, None
def run(rep):
    us = ['src/bsdconv-mktable.c', 'src/libbsdconv.c', 'src/bsdconv-dbg.c'] + [f'modules/{c}.c' for c in ir.codec_units()]
    use, fill, lost = {}, {}, []
    with cf.ProcessPoolExecutor(max_workers=8) as ex:
        for rel, u, f, tw, err in ex.map(flow, us):
            if err: lost.append(err); continue
            for k, v in u.items(): use.setdefault(k, set()).update(v)
            for k, v in f.items(): fill.setdefault(k, set()).update(v)
            for w, fn, how in tw: rep.violation(f'twice:{fn}:{w.split(":")[0]}', f'{w} ({fn}): a value that is already in host byte order goes through {how} once more')
    n = 0
    for k in sorted(set(use) | set(fill)):
        wr = {x[0] for x in fill.get(k, ()) if x[0] != 'zero'}; rd = use.get(k, set()); n += len(rd) + len(fill.get(k, ()))
        if len(wr) > 1: rep.violation(f'writers:{k}', f'{k} is written in different byte orders: ' + '; '.join(f'{x[0]} at {x[1]} ({x[2]})' for x in sorted(fill[k])))
        elif wr:
            w = next(iter(wr))
            for kind, where, fn, what in sorted(rd):
                if kind != w: rep.violation(f'reader:{k}:{fn}', f'{where} ({fn}): {k} is used {kind} ({what}), but the table compiler writes it {w}')
    rep.cov['units'] = len(us); rep.cov['byte_order_sites'] = n; rep.cov['units_not_analysed'] = lost
    rep.cov['fields_written_and_read'] = sorted(k for k in use if k in fill)
    rep.floor('byte_order_fields', sum(1 for k in use if k in fill), 4)
    libs.run(rep, 'C23', libs.MK, 0)
