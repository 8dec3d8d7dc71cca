#!/usr/bin/env python3
"""check.py <property id>...   decide properties on /repo's current working tree"""
import sys, os, traceback, json, time, importlib, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import gc
gc.disable()  # terms are acyclic
from tools import build
from engine.core import Engine
from engine.rules import Ctx, Bad


def known():
    p = os.path.join(HERE, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def run(pid, tier, seed, dump):
    t0 = time.time()
    eng = Engine(dump)
    eng.others = [Engine(os.path.join(os.path.dirname(dump), 'openid4vp_frontend.json'))]
    mod = importlib.import_module('rules.' + pid.lower())
    # generic elements per collection of unknown length
    eng.ELEMS = 3 if tier == 'thorough' else getattr(mod, 'QUICK_ELEMS', 2)
    ctx = Ctx(pid, eng, tier)
    try:
        mod.check(ctx)
    except Bad as b:
        ctx.bad('setup', b.what)
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'):
            raise
        tb = traceback.extract_tb(x.__traceback__)[-1]
        ctx.bad('setup', f'not decided: {type(x).__name__}: {x} ({os.path.basename(tb.filename)}:{tb.lineno})')
    kf = {f['key'] for f in known()['findings'] if f['property'] == pid}
    new = [v for v in ctx.viol if v['key'] not in kf]
    old = [v for v in ctx.viol if v['key'] in kf]
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    st = eng.stats
    cov = {
        'explanation': getattr(mod, 'METHOD', '') or 'path-partitioned interprocedural dataflow over the MIR of the current tree; see DESIGN.md',
        'obligations': len(ctx.obl), 'discharged': len(ctx.obl) - len({v['rule'] for v in ctx.viol}),
        'rules': ctx.obl,
        'functions_analysed': len(st['functions']), 'functions': sorted(st['functions'])[:400], 'basic_blocks': len(st['blocks']),
        'block_visits': st['steps'], 'call_sites_evaluated': st['calls'],
        'outcome_classes': sum(o.get('paths', 0) for o in ctx.obl), 'spec_cases': sum(o.get('cases', 0) for o in ctx.obl),
        'opaque_functions': dict(sorted(st['opaque'].items(), key=lambda x: -x[1])[:60]),
        'samples': ctx.samples,
    }
    rec = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
           'assumptions': ['functions of other crates behave as their model in engine/models.py says; unmodelled ones are opaque functions of their arguments',
                           f'collections of unknown length are analysed with 0 to {eng.ELEMS} generic elements'],
           'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(rec, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    for v in old:
        print(f'KNOWN-FINDING: property={pid} {v["key"]}')
    rc = 0
    for i, v in enumerate(new):
        rp = os.path.join(ev, f'{pid}.violation{i}.json')
        json.dump(v, open(rp, 'w'), indent=1, default=str)
        print(f'VIOLATION property={pid} replay={rp}')
        print(f'  rule {v["rule"]} at {v["where"]}: {v["what"]}')
        for k, x in list(v['detail'].items())[:6]:
            print(f'    {k}: {str(x)[:600]}')
        rc = 1
    if not new:
        print(f'{pid}: held ({len(ctx.obl)} obligations, {cov["outcome_classes"]} outcome classes, {cov["spec_cases"]} cases, {len(st["functions"])} functions, {rec["wall_s"]} s)')
    return rc


def main():
    ids = [x.upper() for x in sys.argv[1:]]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    d = build.dump()
    if d is None:
        # the tree does not compile: no verdict
        print('the crate does not compile; see build/build.log', file=sys.stderr)
        sys.exit(2)
    rc = 0
    for pid in ids:
        if pid == 'C30' and os.path.exists(os.path.join(os.path.dirname(d), 'nojwe')):
            print('src/core/jwe.rs does not compile against stubs/josekit; see build/build.log', file=sys.stderr)
            sys.exit(2)
        rc |= run(pid, tier, seed, d)
    sys.exit(rc)


if __name__ == '__main__':
    main()
