"""Runs the codec driver (sa/drive.py) over many units in parallel and hands the findings of one property to a report."""
import os, sys, json, hashlib, signal, subprocess, concurrent.futures as cf
from . import ir
BIG = ['inter/_NFC', 'from/_GB18030', 'inter/TRIM-WIDTH', 'to/ASCII-HTML-INFO', 'inter/AMBIGUOUS-UNPAD', 'from/_JIS', 'inter/AMBIGUOUS-PAD', 'inter/STRINGS', 'inter/_NF-ORDER']
QUICK, THOROUGH = 3000000, 20000000
LIMIT = {QUICK: 300, THOROUGH: 600}      # seconds of work on one unit; what has been found until then counts

def digest(codec):
    """everything the result of one unit depends on"""
    h = hashlib.sha256()
    fs = [os.path.join(ir.VERIF, 'sa', f) for f in sorted(os.listdir(os.path.join(ir.VERIF, 'sa'))) if f.endswith('.py')]
    fs += [os.path.join(ir.VERIF, 'tool', 'irdump.cpp')]
    for d in ('src', 'modules/from', 'modules/inter', 'modules/to'):
        p = os.path.join(ir.REPO, d)
        fs += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith('.h')]
    for k in ('from', 'inter', 'to'):
        p = os.path.join(ir.REPO, 'modules', k)
    fs += [os.path.join(ir.REPO, 'modules', codec + x) for x in ('.c', '.txt')]
    if codec == 'inter/_NFC': fs.append(os.path.join(ir.REPO, 'modules/inter/_NFC-MAP.txt'))
    for f in fs:
        h.update(f.encode() + b'\0')
        if os.path.exists(f): h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]
def one(a):
    codec, budget = a
    sys.setrecursionlimit(10000)
    f = os.path.join(ir.VERIF, 'build', 'sweep', f'{codec.replace("/", "_")}.{budget}.{digest(codec)}.json')
    if os.path.exists(f): return json.load(open(f))
    from . import drive
    def late(*_): raise ir.Late
    signal.signal(signal.SIGVTALRM, late); signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT.get(budget, 600))
    d = None
    try:
        d = drive.Drive(codec, budget)
        try: d.explore(); d.relational()
        except ir.Late: d.cov['timeouts'] += 1
        finally: signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        r = dict(codec=codec, viol=[list(v) for v in d.viol], cov=dict(d.cov, steps=d.cov['steps'], instructions=d.total + d.m.stats['steps'], paths=d.m.stats['paths']), broken=None)
    except ir.AnalysisBroken as e: r = dict(codec=codec, viol=[], cov={}, broken=str(e))
    except Exception as e:
        import traceback
        r = dict(codec=codec, viol=[], cov={}, broken=f'internal error: {type(e).__name__}: {e} at {traceback.extract_tb(e.__traceback__)[-1].name}')
    os.makedirs(os.path.dirname(f), exist_ok=True)
    tmp = f'{f}.{os.getpid()}'; json.dump(r, open(tmp, 'w')); os.replace(tmp, f)
    return r
def results(tier, units=None):
    us = ir.codec_units() if units is None else units
    us = sorted(us, key=lambda c: (BIG.index(c) if c in BIG else len(BIG), c))
    b = THOROUGH if tier == 'thorough' else QUICK
    with cf.ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1)) as ex: return list(ex.map(one, [(u, b) for u in us]))
def run(rep, rule, units=None, minimum=60):
    """report the findings of `rule`; every unit that could be analysed counts"""
    rs = results(rep.tier, units); ok = [r for r in rs if not r['broken']]
    rules = (rule,) if isinstance(rule, str) else rule
    for r in rs:
        for ru, key, msg in r['viol']:
            if ru in rules: rep.violation(key, msg)
    tot = {}
    for r in ok:
        for k, v in r['cov'].items():
            if isinstance(v, int): tot[k] = tot.get(k, 0) + v
    for r in rs:
        if r['broken']: print(f'  not analysed: {r["codec"]}: {r["broken"]}')
    rep.cov['units_not_analysed'] = [f'{r["codec"]}: {r["broken"]}' for r in rs if r['broken']]
    rep.cov['private_states'] = tot.get('states', 0); rep.cov['configurations'] = tot.get('configs', 0)
    rep.cov['callback_runs'] = tot.get('callbacks', 0); rep.cov['outcomes_judged'] = tot.get('outcomes', 0)
    rep.cov['emitted_units_judged'] = tot.get('emitted', 0); rep.cov['instructions_interpreted'] = tot.get('instructions', 0)
    rep.cov['lookahead_judged'] = tot.get('lookahead', 0); rep.cov['state_extensions_not_followed'] = tot.get('bounded', 0); rep.cov['units_out_of_budget'] = sum(1 for r in ok if r['cov'].get('timeouts'))
    rep.cov['units'] = [r['codec'] for r in ok]
    rep.floor('codec_units_analysed', len(ok), minimum)
    return rs
