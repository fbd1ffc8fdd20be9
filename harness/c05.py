"""C05: applying a rotor / translator / motor is the sandwich product m X ~m"""
from common import *


def norm_rotor(c, q):
    """unit rotor: scalar^2 = 1 - x^2 - y^2 - z^2"""
    c.square_is(q[0], 1 - q[1] * q[1] - q[2] * q[2] - q[3] * q[3])


def motor_param(var='m'):
    """normalised motor = unit rotor times translator: covers every normalised motor"""
    def pm(c):
        r = [c.var('%s_%d' % (var, i)) for i in range(4)]
        norm_rotor(c, r)
        t = [c.free('%s_t%d' % (var, i)) for i in (1, 2, 3)]
        M = MV.from_named({'1': r[0], 'e23': r[1], 'e31': r[2], 'e12': r[3]}) * \
            MV.from_named({'1': r[0] * 0 + 1, 'e01': t[0], 'e02': t[1], 'e03': t[2]})
        d = {}
        for i, n in enumerate(lane_names('motor')):
            d['%s_%d' % (var, i)] = c.reduce(M.get(n, r[0] * 0))
        return d
    return pm


def harnesses(tier):
    hs = []

    def sw(op, x, **kw):
        def spec(c, I, O):
            m, X = mv(op, I['m']), mv(x, I['x'])
            w = m * X * m.rev()
            eqlanes(c, x, O['r'], w)
        return H('sw_%s_%s' % (op, x), [('m', op), ('x', x)], [('r', x)], '%s r = m(x);' % x, spec, **kw)
    for x in ('plane', 'branch', 'line', 'point', 'direction'):
        hs.append(sw('rotor', x))
    for x in ('plane', 'line', 'point'):
        hs.append(sw('translator', x))
    for x in ('plane', 'line', 'point', 'direction'):
        hs.append(sw('motor', x))

    def org(c, I, O):
        m = mv('motor', I['m'])
        w = m * MV.from_named({'e123': c.P(1)}) * m.rev()
        for i, n in enumerate(LANES['p3']):
            c.eq(n, O['r'][i], c.reduce(w.get(n, c.P(0))))
    hs.append(H('sw_motor_origin', [('m', 'motor')], [('r', 'point')], 'point r = m(origin{});', org, param=motor_param()))
    return hs
