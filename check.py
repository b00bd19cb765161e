#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree. Exit 0 / 1, see DESIGN.md."""
import json, os, sys, time, hashlib, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vxlib, plans
from vxlib import VERIF, BUILD, Broken

def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            if l.strip(): out.append(json.loads(l))
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    wd = os.path.join(BUILD, 'work', prop)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    vxlib.build_vx()
    plan = plans.plan(prop, tier, seed, wd)
    # ---- the deciding step: every obligation generated from the current source
    results = []
    with cf.ThreadPoolExecutor(max_workers=plan.get('jobs', 3)) as ex:
        for r in ex.map(lambda u: one(u, wd, tier), plan['units']):
            results.append(r)
    for note in plan.get('lost', []):
        print('LOST %s: %s (bounded stand-in only)' % note)
    for r in results:
        print('UNIT %-28s %-8s %3d obligations discharged, %d not, solver %d ms%s' % (r.unit.name, r.status, r.verified, r.errors, r.smt_ms,
              (', canary %d/%d' % (r.canary[0], r.canary[1])) if r.canary else ''), flush=True)
        if r.reason: print('   ', r.reason[:600])
        for f in r.failures: print('    FAILED %s (%s:%d): %s: %s' % (f[0], f[1], f[2], f[3], f[4][:240]))
        for f in r.other_failures: print('    note: fails, but is another property\'s obligation: %s: %s' % (f[0], f[3]))
    failed = [r for r in results if r.status == 'failed']
    # ---- bounded runs of the real code: they supply the failing input, and stand in for what is out of reach
    bounded = []
    for b in plan['bounded']:
        bounded.append(b())
    kf = [k for k in known() if k.get('property') == prop and k.get('status') == 'open']
    concrete, hit = [], {}
    for b in bounded:
        print('BOUNDED %-24s %s cases, %s non-trivial, %d failing; %s' % (b['name'], b.get('cases'), b.get('nontrivial'), len(b['fails']), b.get('note', '')), flush=True)
        for f in b['fails']:
            k = next((k for k in kf if k['match'] in f), None)
            if k: hit[k['match']] = k
            else: concrete.append((b, f))
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    status = 0
    if concrete or failed:
        status = 1
        rd = os.path.join(VERIF, 'replays'); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s.json' % prop)
        json.dump({
            'property': prop, 'repo': vxlib.REPO,
            'failing_inputs': [{'run': b['name'], 'case': f, 'replay_cmd': b.get('cmd')} for b, f in concrete[:20]],
            'failed_obligations': [{'unit': r.unit.name, 'function': f[0], 'source': '%s:%d' % (f[1], f[2]), 'obligation': f[3], 'at': f[4]} for r in failed for f in r.failures],
            'verifier_output': '\n'.join(r.output for r in failed)[:60000],
        }, open(rp, 'w'), indent=1)
        for b, f in concrete[:3]: print('FAILING INPUT (%s): %s' % (b['name'], f[:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if concrete else ' no-failing-input-found'))
    write_evidence(prop, tier, seed, results, bounded, plan, time.time() - t0, len(concrete) + sum(len(r.failures) for r in failed))
    sys.exit(status)

def one(u, wd, tier):
    r = vxlib.verify(u, wd)
    if r.status in ('proved', 'partial') and u.canaried:
        vxlib.canary(u, wd, r)
    return r

def write_evidence(prop, tier, seed, results, bounded, plan, wall, nviol):
    fns = [f for r in results for f in r.functions]
    proofs = [f for f in fns if f[1] in ('exec', 'proof')]
    trusted = sorted(set(t for r in results for t in r.trusted)) + plan.get('trusted', [])
    woven = sorted(set('%s:%s %s' % (w[1], w[2], w[0]) for r in results for w in r.woven))
    cov = {
        'obligations': sum(r.verified + r.errors for r in results),
        'discharged': sum(r.verified for r in results),
        'checker_cmd': results[0].cmd if results else 'none',
        'checker': 'Verus 0.2026.09.13 (back end: bundled Z3), one run per unit; an obligation is one function or lemma with all its conditions',
        'trusted_base': trusted,
        'functions_under_contract': woven,
        'functions_lost_to_bounded': ['%s: %s' % x for r in results for x in r.lost_fns] + ['%s: %s' % n for n in plan.get('lost', [])]
            + ['%s: %s' % (r.unit.name, r.reason) for r in results if r.status == 'lost' and not r.lost_fns],
        'units': [{'unit': r.unit.name, 'status': r.status, 'verified': r.verified, 'errors': r.errors, 'wall_ms': r.ms, 'solver_ms': r.smt_ms,
                   'canary_rejected': r.canary[0] if r.canary else None, 'reason': r.reason[:400]} for r in results],
        'solver_ms': sum(r.smt_ms for r in results),
        'slowest': sorted(([f[0], f[2]] for f in proofs), key=lambda x: -x[1])[:5],
        'bounded_runs': [{k: v for k, v in b.items() if k != 'fails'} | {'failing': len(b['fails'])} for b in bounded],
        'evaluations': sum(int(b.get('cases') or 0) for b in bounded),
        'distinct_nontrivial': sum(int(b.get('nontrivial') or 0) for b in bounded),
        'rule': plan.get('rule', 'bounded runs: exhaustive enumeration within the stated bound; non-trivial as said by each run'),
        'samples': [s for b in bounded for s in b.get('samples', [])][:8] or woven[:5],
        'explanation': plan.get('explanation', ''),
    }
    level = plan.get('level', 'proof')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': plan.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    try:
        main()
    except Broken as e:
        print('CHECK BROKEN: %s' % e)
        sys.exit(2)
