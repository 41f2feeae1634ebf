"""Runs the worlds of sa/libw.py and sa/libm.py in parallel and hands the findings of one property to a report."""
import os, sys, json, hashlib, signal, concurrent.futures as cf
from . import ir
ENGINE = ['w_engine_' + x for x in ('pipe', 'to', 'inter', 'from', 'fromcb', 'intercb', 'tocb')]
MK = [f'w_mktable_{i}' for i in range(5)]
NAMES = ENGINE + MK + ['w_tool', 'w_strings', 'w_create', 'w_output', 'w_counter', 'w_hash', 'w_lookup', 'w_load', 'w_data', 'w_init']
def digest():
    h = hashlib.sha256()
    fs = [os.path.join(ir.VERIF, 'sa', f) for f in sorted(os.listdir(os.path.join(ir.VERIF, 'sa'))) if f.endswith('.py')]
    fs += [os.path.join(ir.VERIF, 'tool', x) for x in ('irdump.cpp', 'inc/byteorder.h')]
    p = os.path.join(ir.REPO, 'src'); fs += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(('.c', '.h'))]
    for f in fs: h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()[:24]
def one(a):
    name, tier = a
    sys.setrecursionlimit(10000)
    f = os.path.join(ir.VERIF, 'build', 'sweep', f'lib.{name}.{tier}.{digest()}.json')
    if os.path.exists(f): return json.load(open(f))
    from . import lib, libw, libm, libe, libk
    l = libk.Mk() if name in MK else lib.Lib(); l.maxent = 2; l.maxlines = 2; l.symfork = True; l.expansions = []; l.tier = tier
    broken = None
    def late(*_): raise ir.Late
    signal.signal(signal.SIGVTALRM, late); signal.setitimer(signal.ITIMER_VIRTUAL, 600 if tier != 'thorough' else 2000)
    try:
        try: getattr(libw, name)(l)
        finally: signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except ir.Late: broken = 'its time was up'
    except ir.AnalysisBroken as e: broken = str(e)
    except Exception as e:
        import traceback
        broken = f'internal error: {type(e).__name__}: {e} at {traceback.extract_tb(e.__traceback__)[-1].name}'
    r = dict(name=name, viol=[list(v) for v in l.viol], cov=l.cov, broken=broken)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    tmp = f'{f}.{os.getpid()}'; json.dump(r, open(tmp, 'w')); os.replace(tmp, f)
    return r
def run(rep, rule, names, least=1):
    with cf.ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1)) as ex: rs = list(ex.map(one, [(n, rep.tier) for n in names]))
    for r in rs:
        for ru, key, msg in r['viol']:
            if ru == rule: rep.violation('library:' + key, msg)
        if r['broken']: print(f'  not analysed to the end: {r["name"]}: {r["broken"]}')
    ok = [r for r in rs if not r['broken']]
    c = rep.cov; fn = sorted({f for r in rs for f in r['cov']['functions']})
    c['library_functions'] = fn
    for k in ('worlds', 'paths', 'obligations', 'truncated'): c['library_' + k] = sum(r['cov'][k] for r in rs)
    c['library_worlds_not_analysed'] = [f'{r["name"]}: {r["broken"]}' for r in rs if r['broken']]
    rep.floor('library_world_groups_analysed', len(ok), least)
