#!/usr/bin/env python3
"""Run the static checks of one property:  check.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED=n, KYM_REPO=/repo)"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:'):
                body = line[len('finding:'):].strip()
                head, _, text = body.partition(' | ')
                kv = dict(x.split('=', 1) for x in head.split() if '=' in x)
                if kv.get('property') == pid:
                    out[kv['key']] = text
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from sa import lemma
    mod = importlib.import_module('sa.checks.' + pid.lower())
    only = sys.argv[2:]
    budget = float(os.environ.get('VERIF_BUDGET', 0)) or (getattr(mod, 'BUDGET_QUICK', 420) if tier == 'quick' else getattr(mod, 'BUDGET_THOROUGH', 840))
    results = []
    obs = list(mod.obligations(tier, seed)) if hasattr(mod, 'obligations') else []
    if only:
        obs = [o for o in obs if any(x in o.id for x in only)]
    if obs:
        results += lemma.run_obs(obs, tier, seed, budget)
    if hasattr(mod, 'rules') and not only:
        results += mod.rules(tier, seed)
    kn = known(pid)
    viol, knownhits, anchors, und = [], [], [], []
    for r in results:
        if r['status'] == 'violated':
            (knownhits if r['id'] in kn else viol).append(r)
        elif r['status'] == 'anchor' and not r.get('optional'):
            anchors.append(r)
        elif r['status'] in ('undecided', 'anchor'):
            und.append(r)
    held = [r for r in results if r['status'] == 'held']
    functions = {}
    for r in results:
        for f, fs in (r.get('files') or {}).items():
            functions.setdefault(f, set()).update(fs)
    cov = dict(
        explanation=getattr(mod, 'EXPLANATION', '') or (mod.__doc__ or ''),
        rule_instances=len(results), held=len(held), undecided=len(und),
        by_identity=sum(1 for r in held if r.get('proved')),
        finite_models=sum(r.get('models', 0) for r in results),
        models_with_values=sum(r.get('values', 0) for r in results),
        models_with_exceptions=sum(r.get('raises', 0) for r in results),
        models_undecided=sum(r.get('undecided', 0) for r in results),
        graph_nodes=sum(r.get('nodes', 0) for r in results),
        decisions_seen=sum(r.get('decisions', 0) for r in results),
        decisions_both_ways=sum(r.get('both', 0) for r in results),
        sites=sum(r.get('sites', 0) for r in results),
        functions_analysed=sum(len(v) for v in functions.values()),
        files=sorted(functions),
        instances=[{k: v for k, v in dict(id=r['id'], status=r['status'], anchor=r.get('anchor'), models=r.get('models'), nodes=r.get('nodes'),
                    sites=r.get('sites'), identity=r.get('proved'), wall=r.get('wall'), reasons=r.get('und') or None, note=r.get('note') or None).items() if v not in (None, '')}
                   for r in results],
        known_findings=[r['id'] for r in knownhits],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=['denotations of the NumPy/SciPy/PyTorch/TensorFlow/JAX calls the package makes are those of sa/libmodel.py',
                           'real arithmetic: rounding, memory layout and device placement are not modelled'])
    if not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s: %d instances, %d held (%d by graph identity), %d undecided, %d finite models, %d graph nodes, %d functions, %.1fs' % (
        pid, len(results), len(held), cov['by_identity'], len(und), cov['finite_models'], cov['graph_nodes'], cov['functions_analysed'], time.time() - t0))
    for r in und:
        print('  undecided %s: %s' % (r['id'], '; '.join(r.get('und') or [])[:300]))
    for r in knownhits:
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kn[r['id']], r['id']))
    if only or os.environ.get('VERIF_VERBOSE'):
        for r in results:
            print('   ', r['id'], r['status'], 'models', r.get('models'), 'raises', r.get('raises'), 'und', r.get('undecided'), 'wall', r.get('wall'), 'both', r.get('both'), '/', r.get('decisions'), (r.get('und') or '')[:3])
    for r in viol:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (pid, r['id'].replace('/', '_').replace(' ', '_')))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, rule=r['id'], anchor=r.get('anchor'), statement=r.get('note'), **(r['viol'] or {})), f, indent=1, default=str)
        v = r['viol'] or {}
        print('  %s at %s\n    %s\n    instance: %s' % (r['id'], '; '.join(v.get('where') or []) or r.get('anchor'), v.get('msg'), v.get('model')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if viol:
        return 1
    if anchors:
        for r in anchors:
            print('ANALYSIS-BROKEN %s: %s' % (r['id'], '; '.join(r['und'])))
        return 2
    floor = getattr(mod, 'FLOOR', 1)
    if not only and len(held) + len(knownhits) < floor:
        print('ANALYSIS-BROKEN: only %d instances decided, expected at least %d' % (len(held), floor))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
