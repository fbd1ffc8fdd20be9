#!/usr/bin/env python3-vt
"""setup: confirms that the compilers and the solver are there and that the engine encodes and refutes a trivial claim"""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'vt'))
import shutil  # noqa
import build as B  # noqa
import core  # noqa
from build import H  # noqa

good = H('st_good', [('a', 'float'), ('b', 'float')], [('r', 'float')], 'float r = (a + b) * (a - b);',
         lambda c, I, O: c.eq('r', O['r'][0], I['a'][0] * I['a'][0] - I['b'][0] * I['b'][0]))
bad = H('st_bad', [('a', 'float'), ('b', 'float')], [('r', 'float')], 'float r = (a + b) * (a - b);',
        lambda c, I, O: c.eq('r', O['r'][0], I['a'][0] * I['a'][0] + I['b'][0]))
outs = core.run_harnesses('selftest', [good, bad], ['sse3'], 'quick', prelude='#include <cmath>\n#include <xmmintrin.h>\n#include <cstring>\nnamespace vt {\n'
                          'template <class T> T ld(const float* f) { return f[0]; }\ntemplate <class T> void st(float* o, T r) { o[0] = r; }\n}\n', workers=1)
shutil.rmtree(B.workdir('selftest'), ignore_errors=True)
res = {o.h: o for o in outs}
ok = not res['st_good'].violations and not res['st_good'].undecided and len(res['st_bad'].violations) == 1
print('selftest', 'ok' if ok else 'FAILED', [o.undecided for o in outs])
sys.exit(0 if ok else 1)
