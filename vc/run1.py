"""Prove one harness; print the result as JSON on stdout.  usage: run1.py file.ll harness timeout_ms tier budget_s"""
import sys, json, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import llvmir, symex
def main():
    ll, h, tmo, tier, budget = sys.argv[1:6]
    out = dict(harness=h)
    try:
        m = llvmir.Module(ll)
        if h not in m.funcs: out['err'] = 'harness missing'; print(json.dumps(out)); return
        end = time.time() + float(budget)
        def go(patience): return symex.run_harness(m, h, timeout=int(tmo), tier=tier, verbose=int(os.environ.get('VC_V', '0')), deadline=end, patience=patience)
        def refuted(ex): return any(o.status == 'sat' for o in ex.obligs)
        ex, err, dt = go(1)
        if ex.weak and (err or refuted(ex)) and dt * 3 < end - time.time():
            ex2, err2, dt2 = go(4)        # invariant candidates were given up for want of time: once more, with patience
            if not err2 or err: ex, err, dt = ex2, err2, dt + dt2
        if ex.weak:                       # an obligation that fails after that is not refuted, only unproved
            for o in ex.obligs:
                if o.status == 'sat': o.status = 'unproved: the solver gave up on %d invariant candidates' % ex.weak
        out.update(err=err, time=dt, queries=ex.nq, qtime=ex.qtime, backends=ex.backends, reach=ex.reach, functions=sorted(ex.used), models=sorted(ex.models_used), contracts=sorted(ex.contracts_used), loops=[dict(fn=l['fn'], line=l['line'], kept=len(l['kept']), cands=l['cands']) for l in ex.loopinfo],
                   obligs=[dict(label=o.label, where=o.where, status=o.status, time=round(o.time, 3), backend=o.backend, kind=o.detail, model=o.model) for o in ex.obligs])
    except symex.ToolLimit as e: out['err'] = 'tool limit: %s' % e
    except MemoryError: out['err'] = 'out of memory'
    print(json.dumps(out))
main()
