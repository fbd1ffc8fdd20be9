"""C10: inverses are two-sided and division is multiplication by the inverse"""
from common import *


def n2(l, idx):
    s = 0
    for i in idx:
        s = s + l[i] * l[i]
    return s


IDX = {'plane': (1, 2, 3), 'branch': (1, 2, 3), 'line': (1, 2, 3), 'rotor': (0, 1, 2, 3), 'motor': (0, 1, 2, 3), 'point': (0,)}


def nz(e, v):
    def pre(c, I):
        if e in IDX:
            c.assume_pos(n2(I[v], IDX[e]))
    return pre


def is_mv(c, label, m, want):
    for n in ('1', 'e23', 'e31', 'e12', 'e0123', 'e01', 'e02', 'e03', 'e0', 'e1', 'e2', 'e3', 'e123', 'e032', 'e013', 'e021'):
        a, b = m.get(n, c.P(0)), want.get(n, c.P(0))
        if isinstance(a, int) and isinstance(b, int):
            continue
        c.eq('%s %s' % (label, n), a, b)


def harnesses(tier):
    hs = []
    one = lambda c: MV.from_named({'1': c.P(1)})
    for form, code in (('', '%s r = x; r.invert();'), ('_copy', '%s r = x.inverse();')):
        for e in ('plane', 'branch', 'line', 'rotor', 'translator', 'motor'):
            def spec(c, I, O, e=e):
                X, Y = mv(e, I['x']), mv(e, O['r'])
                is_mv(c, 'x*inv', X * Y, one(c))
                is_mv(c, 'inv*x', Y * X, one(c))
            hs.append(H('inverse_%s%s' % (e, form), [('x', e)], [('r', e)], code % e, spec, pre=nz(e, 'x')))

        def pspec(c, I, O):
            for i in range(4):
                c.eq('lane%d' % i, O['r'][i] * I['x'][0] * I['x'][0], I['x'][i])
        hs.append(H('inverse_point%s' % form, [('x', 'point')], [('r', 'point')], code % 'point', pspec, pre=nz('point', 'x')))
    for a, b, r in [('plane', 'plane', 'motor'), ('branch', 'branch', 'rotor'), ('rotor', 'rotor', 'rotor'), ('translator', 'translator', 'translator'),
                    ('line', 'line', 'motor'), ('motor', 'rotor', 'motor'), ('motor', 'translator', 'motor'), ('motor', 'motor', 'motor')]:
        def spec(c, I, O, a=a, b=b, r=r):
            is_mv(c, 'quotient*b', mv(r, O['r']) * mv(b, I['b']), mv(a, I['a']))
        hs.append(H('div_%s_%s' % (a, b), [('a', a), ('b', b)], [('r', r)], '%s r = a / b;' % r, spec, pre=nz(b, 'b')))

    def pp(c, I, O):
        a, b = I['a'], I['b']
        m = mv('point', a) * mv('point', b)
        iw = c.inv(m.get('1'))
        for i, n in enumerate(lane_names('translator')):
            c.eq(n, O['r'][i], m.get(n, 0) * iw if i else 0)

    def prep(c, I):
        c.assume_ne(I['a'][0])
        c.assume_ne(I['b'][0])
    hs.append(H('div_point_point', [('a', 'point'), ('b', 'point')], [('r', 'translator')], 'translator r = a / b;', pp, pre=prep))
    return hs
