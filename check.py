#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]
Runs the static analysis of one property on /repo's current source.
exit 0: holds on everything analysed (known findings are printed as KNOWN-FINDING lines)
exit 1: VIOLATION lines; exit 2: the analysis is broken (anchor vanished, instance count too low, ...)"""
import sys, os, json, time, importlib, subprocess, traceback, signal, multiprocessing
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(10000)
from sa import ir
class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.viol = []; self.cov = {}; self.assume = []; self.floors = []; self.broken = None
    def violation(self, key, msg):
        """key: stable identity of the failing construct (file/function/rule/instance, no line numbers)"""
        if not any(k == key for k, _ in self.viol): self.viol.append((key, msg))
    def floor(self, name, n, minimum):
        """instance count confirmed by hand; fewer means the anchor vanished"""
        self.cov[name] = n
        if n < minimum: raise ir.AnalysisBroken(f'{name}: {n} instances, at least {minimum} expected')
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    subprocess.run(['bash', os.path.join(VERIF, 'setup.sh')], check=True)
    rep = Report(pid, tier)
    def late(*_):      # never without an answer: what was found until then is reported, what was not analysed is said
        for c in multiprocessing.active_children(): c.kill()
        raise ir.Late()
    signal.signal(signal.SIGALRM, late); signal.alarm(820 if tier != 'thorough' else 3000)
    try:
        mod = importlib.import_module('sa.checks.' + pid.lower())
        mod.run(rep)
    except ir.AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={pid}: {e}'); rep.broken = str(e)
    except ir.Late:
        print(f'  stopped after {int(time.time() - t0)} s: the rest was not analysed'); rep.cov['stopped_early'] = True
    except Exception:
        traceback.print_exc(); print(f'ANALYSIS-BROKEN property={pid}: internal error'); sys.exit(2)
    signal.alarm(0)
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    known = {k['key']: k for k in kf['findings'] if k['property'] == pid}
    new = [(k, m) for k, m in rep.viol if k not in known]
    for k, m in rep.viol:
        if k in known: print(f'KNOWN-FINDING: property={pid} {known[k]["what"]} [{k}]')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
    cov = dict(rep.cov); cov.setdefault('explanation', mod.__doc__.strip())
    if rep.broken: cov['analysis_broken'] = rep.broken
    cov['known_findings_reported'] = [k for k, _ in rep.viol if k in known]
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')),
              level='other', coverage=cov, assumptions=rep.assume, wall_s=round(time.time() - t0, 3), violations=len(new))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    with open(replay, 'w') as f:
        for k, m in new: f.write(f'{k}\n    {m}\n')
    if new:
        for k, m in new[:50]: print(f'  {k}: {m}')
        print(f'VIOLATION property={pid} replay={replay}')
        sys.exit(1)
    if rep.broken: sys.exit(2)
    print(f'OK property={pid} ' + ' '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, int)))
main()
