#!/usr/bin/env python3-vt
"""Check entry:  run.py <property id> [--tier quick|thorough] [--only SUBSTR]

exit 0: no obligation of the property failed      exit 1: VIOLATION line(s) printed
"""
import argparse
import importlib
import json
import os
import re
import shutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vt'))
sys.path.insert(0, os.path.join(HERE, 'harness'))

import build as B  # noqa
import core  # noqa

BUDGET = {'quick': 600, 'thorough': 840}


def configs(mod, tier):
    c = list(getattr(mod, 'CFGS', core.B.MAIN3))
    if c == ['sym']:
        return c
    if tier == 'thorough' and hasattr(mod, 'THOROUGH_CFGS'):
        return list(mod.THOROUGH_CFGS)
    # the optimiser's output too: what undefined behaviour turns into, and a second encoding of the same functions
    opt = c if tier == 'thorough' else [x for x in c if x in ('sse3', 'cxx11sse41')]
    return c + (['native'] if tier == 'thorough' and c == list(core.B.MAIN3) else []) + [x + '+O2' for x in opt]


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop and f.get('status') == 'known']


def known_match(f, v):
    return v['harness'] == f['harness'] and (f.get('configs') is None or v['config'] in f['configs']) and re.search(f['what'], v['what'])


def save_replay(prop, v):
    d = os.path.join(HERE, 'replays', prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (v['harness'], v['config']))
    with open(p, 'w') as f:
        json.dump(dict(v, property=prop), f, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    a = ap.parse_args()
    tier = a.tier if a.tier in BUDGET else 'quick'
    t0 = time.time()
    mod = importlib.import_module(a.prop.lower())
    tag = '%s-%s' % (a.prop, tier)
    wd = B.workdir(tag)
    shutil.rmtree(wd, ignore_errors=True)
    B.workdir(tag)
    try:
        if hasattr(mod, 'main'):
            outs, extra = mod.main(tier, t0 + BUDGET[tier])
        else:
            hs = [h for h in mod.harnesses(tier) if a.only in h.name]
            outs = core.run_harnesses(tag, hs, configs(mod, tier), tier, prelude=getattr(mod, 'PRELUDE', None),
                                      flags_of=getattr(mod, 'flags_of', None), deadline=t0 + BUDGET[tier])
            extra = {}
            if tier == 'thorough' and hasattr(mod, 'thorough_extra'):
                outs2, extra = mod.thorough_extra(tag, t0 + BUDGET[tier])
                outs += outs2
    finally:
        if not os.environ.get('VT_KEEP'):
            shutil.rmtree(wd, ignore_errors=True)
    known = load_known(a.prop)
    seen = set()
    bad = []
    for o in outs:
        for v in o.violations:
            f = next((f for f in known if known_match(f, v)), None)
            if f:
                seen.add(f['id'])
            else:
                bad.append(v)
    evidence(a.prop, tier, outs, bad, known, seen, mod, t0, extra)
    for f in known:
        if f['id'] in seen:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, f['summary']))
    und = [(o, u) for o in outs for u in o.undecided]
    print('%s %s: %d harness runs, %d paths, %d obligations, %d solver queries (%.1f s in the solver), %d undecided, %d violations, %.1f s'
          % (a.prop, tier, len(outs), sum(o.paths for o in outs), sum(o.assertions for o in outs), sum(o.queries for o in outs),
             sum(o.solver_s for o in outs), len(und), len(bad), time.time() - t0))
    for o, u in und[:10]:
        print('  undecided: %s/%s: %s' % (o.h, o.cfg, u.strip().split('\n')[-1][:200] if 'internal' in u else u[:200].strip()))
    for v in bad[:20]:
        print('  %s [%s]: %s (%s)' % (v['harness'], v['config'], v['what'], v['replay']))
        print('VIOLATION property=%s replay=%s' % (a.prop, save_replay(a.prop, v)))
    if not any(o.paths for o in outs):
        print('nothing could be checked')
        return 2
    return 1 if bad else 0


def evidence(prop, tier, outs, bad, known, seen, mod, t0, extra):
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    chk = next((c for c in man['checks'] if c['property'] == prop), {})
    funcs = sorted({f for o in outs for f in o.funcs})
    dm = [x for x in core.demangle(funcs) if x and not x.startswith('_mm') and 'vt::' not in x and 'simde' not in x]
    asserts = sum(o.assertions for o in outs)
    und = [{'harness': o.h, 'config': o.cfg, 'reason': u[-400:] if 'internal' in u else u[:400]} for o in outs for u in o.undecided]
    mism = ['%s/%s: %s' % (o.h, o.cfg, m) for o in outs for m in o.mismatch]
    slow = sorted(outs, key=lambda o: -o.wall)[:12]
    cov = {
        'states': sum(o.paths for o in outs),
        'transitions': sum(o.steps for o in outs),
        'traces_validated_against_impl': sum(o.validated for o in outs),
        'meaning': 'states = completed symbolic paths; transitions = LLVM IR instructions executed symbolically; '
                   'traces_validated_against_impl = concrete inputs on which the encoding reproduced the output of the compiled library '
                   '(bit for bit where the path has no hardware approximation or libm call)',
        'harnesses': len({o.h for o in outs}), 'configurations': sorted({o.cfg for o in outs}), 'harness_runs': len(outs),
        'obligations': asserts, 'queries': sum(o.queries for o in outs), 'solver_s': round(sum(o.solver_s for o in outs), 3),
        'harness_runs_with_reachability_witness': sum(1 for o in outs if o.witness),
        'harness_runs_without_reachability_witness': ['%s/%s' % (o.h, o.cfg) for o in outs if not o.witness][:40],
        'undecided': und, 'encoding_mismatches': mism,
        'functions_encoded': dm[:400],
        'bounds': getattr(mod, 'BOUNDS', 'straight-line and finitely branching code: every path is explored; no loop is cut'),
        'samples': [{'harness': o.h, 'config': o.cfg, 'paths': o.paths, 'obligations': o.assertions, 'queries': o.queries,
                     'solver_s': round(o.solver_s, 4), 'wall_s': round(o.wall, 3)} for o in slow],
        'explanation': getattr(mod, '__doc__', '') or '',
    }
    cov.update(extra)
    ev = {
        'property': prop, 'tier': tier, 'seed': core.SEED, 'level': chk.get('level', 'model_checking'), 'coverage': cov,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


ASSUME = [
    'arithmetic is decided over the real numbers: rounding, overflow and underflow are outside the claim except where the property says otherwise '
    '(C18 bounds the approximation error, bit-exact properties use the IEEE bit patterns)',
    'the code encoded is clang-18 LLVM IR with the flags of the library targets, unoptimised and (configurations named +O2) after clang -O2; the g++ build is trusted to agree and is sampled by traces_validated_against_impl',
    'libm functions are their mathematical functions; rcp/rsqrt are exact reciprocals over the reals (error bounded in C18)',
]

if __name__ == '__main__':
    sys.exit(main())
