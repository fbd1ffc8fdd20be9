"""C06: plane reflections p(X) are the sandwich with the plane"""
from common import *


def harnesses(tier):
    hs = []

    def refl(x, sign, **kw):
        def spec(c, I, O):
            p, X = mv('plane', I['p']), mv(x, I['x'])
            w = p * X * p
            eqlanes(c, x, O['r'], w if sign > 0 else -w)
        return H('reflect_%s' % x, [('p', 'plane'), ('x', x)], [('r', x)], '%s r = p(x);' % x, spec, **kw)
    hs += [refl('plane', 1), refl('line', 1), refl('point', 1)]
    return hs
