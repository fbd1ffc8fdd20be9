"""C01: operator* is the geometric product of R(3,0,1) for every documented operand pair"""
from common import *


def harnesses(tier):
    gp = lambda x, y: x * y
    hs = []
    for a, b, r in [('plane', 'plane', 'motor'), ('plane', 'point', 'motor'), ('point', 'plane', 'motor'), ('branch', 'branch', 'rotor'),
                    ('line', 'line', 'motor'), ('rotor', 'rotor', 'rotor'), ('dual', 'line', 'line'), ('line', 'dual', 'line'),
                    ('rotor', 'translator', 'motor'), ('translator', 'rotor', 'motor'), ('translator', 'translator', 'translator'),
                    ('rotor', 'motor', 'motor'), ('motor', 'rotor', 'motor'), ('translator', 'motor', 'motor'), ('motor', 'translator', 'motor'),
                    ('motor', 'motor', 'motor')]:
        hs.append(bin_gp('gp_%s_%s' % (a, b), a, b, r, '*', gp))

    # the product of two points is the translator between them, made unit (weight divided out)
    def pp(c, I, O):
        m = mv('point', I['a']) * mv('point', I['b'])
        w = m.get('1')
        iw = c.inv(w)
        for i, n in enumerate(lane_names('translator')):
            if i:
                c.eq(n, O['r'][i], m.get(n, 0) * iw)
        c.eq('lane0', O['r'][0], 0)

    def pre(c, I):
        c.assume_ne(I['a'][0])
        c.assume_ne(I['b'][0])
    hs.append(H('gp_point_point', [('a', 'point'), ('b', 'point')], [('r', 'translator')], 'translator r = a * b;', pp, pre=pre))
    return hs
