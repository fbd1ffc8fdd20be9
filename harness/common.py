"""helpers shared by the property files"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vt'))
from build import H, ENT, MAIN3  # noqa
from core import mv, lanes_of, lane_names, ZERO_LANES  # noqa
from ga import MV, LANES  # noqa

FINITE3 = 'abc'


def eqlanes(c, ent, got, want_mv, label='', skip=(), scale=None):
    """every lane of an entity equals the corresponding coefficient; coefficients outside the entity must vanish"""
    names = lane_names(ent)
    if ent == 'dual':
        names = ['1', 'e0123']
    for i, n in enumerate(names):
        if i in skip:
            continue
        w = want_mv.get(n, 0)
        c.eq('%s%s' % (label, n), got[i], w)


def bin_gp(name, a, b, r, op='*', fn=None, skip=(), **kw):
    def spec(c, I, O):
        x, y = mv(a, I['a']), mv(b, I['b'])
        eqlanes(c, r, O['r'], fn(x, y), skip=skip)
    return H(name, [('a', a), ('b', b)], [('r', r)], '%s r = a %s b;' % (r, op), spec, **kw)
