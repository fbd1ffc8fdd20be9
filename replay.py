#!/usr/bin/env python3-vt
"""replay.py FILE: runs the recorded input of a violation against the real code of /repo's current tree"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vt'))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import build as B  # noqa
import core  # noqa
v = json.load(open(sys.argv[1]))
mod = importlib.import_module(v['property'].lower())
print('property', v['property'], 'harness', v['harness'], 'configuration', v['config'])
print('code:', v.get('code'))
print('found:', v['what'], '|', v['replay'])
for i in v['inputs']:
    print('   %s = %s (%.9g)' % (i['lane'], i['bits'], i['value']))
hs = [h for t in ('quick', 'thorough') for h in (mod.harnesses(t) if hasattr(mod, 'harnesses') else []) if h.name == v['harness']][:1]
if hs:
    nat = core.Native(hs, 'replay', getattr(mod, 'PRELUDE', None), getattr(mod, 'flags_of', None))
    for var in ('O0', 'O2', 'asan'):
        st, o, err = nat.run(v['config'], var, hs[0].name, hs[0].nout(), [int(i['bits'], 16) for i in v['inputs']])
        print(var, st, [core.TM.bits_f32(x) for x in o] if o else err)
        if o:
            rn = hs[0].kw.get('runner', core.Runner)(hs[0], v['config'], None, nat, 'quick')
            print('   judged:', rn.judge_bits([int(i['bits'], 16) for i in v['inputs']], o))
