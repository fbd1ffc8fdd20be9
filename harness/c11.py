"""C11: exponentials, logarithms and square roots are inverse to each other and follow the closed forms of the algebra"""
from common import *
from c05 import norm_rotor
from c08 import rotor_param

PI2 = 9.86961


def n2(l, idx=(1, 2, 3)):
    s = 0
    for i in idx:
        s = s + l[i] * l[i]
    return s


def unit_motor(c):
    """every unit motor, by its lanes: |p1| = 1 and the Study condition m0 m4 = m1 m5 + m2 m6 + m3 m7"""
    m = [c.var('m_%d' % i) for i in range(8)]
    c.square_is(m[3], 1 - m[0] * m[0] - m[1] * m[1] - m[2] * m[2])
    c.product_is(m[3], m[7], m[0] * m[4] - m[1] * m[5] - m[2] * m[6])
    return {}


def harnesses(tier):
    hs = []
    add = lambda *a, **k: hs.append(H(*a, **k))

    # exp(branch) = cos|b| + sin|b|/|b| b
    def exp_b(c, I, O):
        b = I['b']
        u = c.sqrt(n2(b))
        s, co = c.sincos(u)
        c.eq('scalar', O['r'][0], co)
        for i in (1, 2, 3):
            c.eq('lane%d' % i, c.mul(O['r'][i], u), c.mul(s, b[i]))
    add('exp_branch', [('b', 'branch')], [('r', 'rotor')], 'rotor r = exp(b);', exp_b, pre=lambda c, I: c.assume_pos(n2(I['b'])))
    add('exp_branch_zero', [('b', 'branch')], [('r', 'rotor')], 'rotor r = exp(b);',
        lambda c, I, O: [c.eq('lane%d' % i, O['r'][i], 1 if i == 0 else 0) for i in range(4)], fixed={'b_1': 0.0, 'b_2': 0.0, 'b_3': 0.0})

    # exp(ideal line) = 1 + t
    def exp_i(c, I, O):
        for i in range(4):
            c.eq('lane%d' % i, O['r'][i], I['l'][i])
    add('exp_ideal', [('l', 'ideal_line')], [('r', 'translator')], 'translator r = exp(l);', exp_i)
    add('log_translator', [('l', 'translator')], [('r', 'ideal_line')], 'ideal_line r = log(l);', exp_i)

    # exp(line): (u + v e0123) n  ->  (cos u - v sin u e0123) + (sin u + v cos u e0123) n
    def exp_l(c, I, O):
        L = mv('line', I['l'])
        u = c.sqrt(n2(I['l']))
        iu = c.inv(u)
        d = 0
        for i in (1, 2, 3):
            d = d + I['l'][i] * I['l'][4 + i]
        v = -c.mul(d, iu)
        # n = (u + v e0123)^-1 L, with (u + v e0123)^-1 = 1/u - v/u^2 e0123
        N = MV.from_named({'1': iu, 'e0123': -c.mul(v, c.mul(iu, iu))}) * L
        s, co = c.sincos(u)
        W = MV.from_named({'1': s, 'e0123': c.mul(v, co)}) * N
        for i, n in enumerate(lane_names('motor')):
            w = W.get(n, c.P(0))
            if n == '1':
                w = co
            if n == 'e0123':
                w = -c.mul(v, s)
            c.eq(n, O['r'][i], c.simp(w))
    add('exp_line', [('l', 'line')], [('r', 'motor')], 'motor r = exp(l);', exp_l, pre=lambda c, I: c.assume_pos(n2(I['l'])), tol=1e-4)

    def exp_l0(c, I, O):
        for i in range(8):
            c.eq('lane%d' % i, O['r'][i], 1 if i == 0 else I['l'][i])
    add('exp_line_ideal', [('l', 'line')], [('r', 'motor')], 'motor r = exp(l);', exp_l0, fixed={'l_1': 0.0, 'l_2': 0.0, 'l_3': 0.0})

    # exp(log r) = r
    same = lambda n, v='r', w='m': (lambda c, I, O: [c.eq('lane%d' % i, O[v][i], I[w][i]) for i in range(n)])
    rot = lambda c, I: c.assume_or_ne(I['m'][1:4])
    add('exp_log_rotor', [('m', 'rotor')], [('r', 'rotor')], 'rotor r = exp(log(m));', same(4), param=rotor_param(), pre=rot)

    def upto(n):
        def spec(c, I, O):
            for i in range(n):
                c.eq('lane%d' % i, O['r'][i], c.mul(I['m'][i], I['m'][0]))
        return spec

    def sgn(c, I):
        x = I['m'][0]
        c.assume_ge(x * x, 1)
        c.assume_ge(-x * x, -1)
    z3l = {'m_1': 0.0, 'm_2': 0.0, 'm_3': 0.0}
    add('exp_log_rotor_none', [('m', 'rotor')], [('r', 'rotor')], 'rotor r = exp(log(m));', upto(4), fixed=z3l, pre=sgn,
        gen=lambda r: {'m_0': r.choice([1.0, -1.0])})

    def bl(c, I, O):
        c.le('principal', n2(O['r']), c.P(Fr('9.86961')) if not c.numeric else PI2)
        c.eq('no scalar', O['r'][0], 0)
    add('log_rotor_principal', [('m', 'rotor')], [('r', 'branch')], 'branch r = log(m);', bl, param=rotor_param(), pre=rot)

    # exp(log m) = m
    add('exp_log_motor', [('m', 'motor')], [('r', 'motor')], 'motor r = exp(log(m));', same(8), param=unit_motor, pre=rot, tol=2e-4)
    add('exp_log_motor_none', [('m', 'motor')], [('r', 'motor')], 'motor r = exp(log(m));', upto(8), fixed=dict(z3l, m_4=0.0), pre=sgn,
        gen=lambda r: {'m_0': r.choice([1.0, -1.0])})

    def halfturn(c):
        # unit motor with scalar exactly 0: half turn about a line, with a translation
        x, y = c.var('m_1'), c.var('m_2')
        z = c.var('m_3')
        c.square_is(z, 1 - x * x - y * y)
        t = [c.free('m_t%d' % i) for i in (1, 2, 3)]
        M = MV.from_named({'e23': x, 'e31': y, 'e12': z}) * MV.from_named({'1': z * 0 + 1, 'e01': t[0], 'e02': t[1], 'e03': t[2]})
        return {'m_%d' % i: c.reduce(M.get(n, z * 0)) for i, n in enumerate(lane_names('motor')) if n != '1'}
    add('exp_log_motor_halfturn', [('m', 'motor')], [('r', 'motor')], 'motor r = exp(log(m));', same(8), param=halfturn, fixed={'m_0': 0.0}, tol=2e-4,
        gen=lambda r: r.choice([{'m_1': 0.0, 'm_2': 0.0, 'm_3': 1.0}, {'m_1': 0.6, 'm_2': 0.0, 'm_3': 0.8}, {'m_1': -1.0, 'm_2': 0.0, 'm_3': 0.0},
                                {'m_1': 0.0, 'm_2': -0.8, 'm_3': 0.6}]))

    def ll(c, I, O):
        c.le('principal', n2(O['r']), c.P(Fr('9.86961')) if not c.numeric else PI2)
        c.eq('no scalar', O['r'][0], 0)
        c.eq('no pseudoscalar', O['r'][4], 0)
    add('log_motor_principal', [('m', 'motor')], [('r', 'line')], 'line r = log(m);', ll, param=unit_motor, pre=rot)

    # halving the logarithm and squaring gives the motion back
    def sq(op):
        def spec(c, I, O):
            S = mv(op, [c.simp(c.P(x)) for x in O['r']])
            R = S * S
            M = mv(op, I['m'])
            for n in lane_names(op):
                c.eq(n, c.simp(R.get(n, c.P(0))), M.get(n, 0))
        return spec
    add('half_log_rotor', [('m', 'rotor')], [('r', 'rotor')], 'rotor r = exp(log(m) * 0.5f);', sq('rotor'), param=rotor_param(), pre=rot)
    add('half_log_motor', [('m', 'motor')], [('r', 'motor')], 'motor r = exp(log(m) * 0.5f);', sq('motor'), param=unit_motor, pre=rot, tol=2e-4)

    # square roots
    def pre1(c, I):
        c.assume_pos(I['m'][0] + 1)
    add('sqrt_rotor', [('m', 'rotor')], [('r', 'rotor')], 'rotor r = sqrt(m);', sq('rotor'), param=rotor_param(), pre=pre1)
    add('sqrt_motor', [('m', 'motor')], [('r', 'motor')], 'motor r = sqrt(m);', sq('motor'), param=unit_motor, pre=pre1, tol=2e-4)
    add('sqrt_translator', [('m', 'translator')], [('r', 'translator')], 'translator r = sqrt(m);', sq('translator'))

    def ub(c):
        x, y, z = (c.var('m_%d' % i) for i in (1, 2, 3))
        c.square_is(z, 1 - x * x - y * y)
        return {}

    def sqb(c, I, O):
        R = mv('rotor', O['r']) * mv('rotor', O['r'])
        for i, n in enumerate(lane_names('branch')):
            c.eq(n, c.simp(R.get(n, c.P(0))), I['m'][i])
    add('sqrt_branch', [('m', 'branch')], [('r', 'rotor')], 'rotor r = sqrt(m);', sqb, param=ub)
    return hs


from fractions import Fraction as Fr  # noqa
