"""C12: constructors and conversions denote exactly the documented multivector, rotation, translation or screw motion"""
from common import *
from c05 import norm_rotor
from c08 import rotor_param
from fractions import Fraction as Fr


def n2(l, idx=(1, 2, 3)):
    s = 0
    for i in idx:
        s = s + l[i] * l[i]
    return s


def unit_line(c):
    """every normalised line: unit direction, and direction orthogonal to moment"""
    l = [c.var('l_%d' % i) for i in range(8)]
    c.square_is(l[3], 1 - l[1] * l[1] - l[2] * l[2])
    c.product_is(l[3], l[7], -l[1] * l[5] - l[2] * l[6])
    return {}


def harnesses(tier):
    hs = []
    add = lambda *a, **k: hs.append(H(*a, **k))
    V = lambda s: [(x, 'float') for x in s]

    def lanes(res, want):
        def spec(c, I, O):
            for i, w in enumerate(want):
                c.eq('lane%d' % i, O['r'][i], I[w][0] if isinstance(w, str) else c.P(w))
        return spec
    for name, ins, ty, code, want in [
            ('plane_ctor', 'abcd', 'plane', 'plane r{a, b, c, d};', 'dabc'),
            ('point_ctor', 'abc', 'point', 'point r{a, b, c};', [1, 'a', 'b', 'c']),
            ('ideal_line_ctor', 'abc', 'ideal_line', 'ideal_line r{a, b, c};', [0, 'a', 'b', 'c']),
            ('branch_ctor', 'abc', 'branch', 'branch r{a, b, c};', [0, 'a', 'b', 'c']),
            ('line_ctor', 'abcdef', 'line', 'line r{a, b, c, d, e, f};', [0, 'd', 'e', 'f', 0, 'a', 'b', 'c']),
            ('motor_ctor', 'abcdefgh', 'motor', 'motor r{a, b, c, d, e, f, g, h};', 'abcdhefg'),
            ('dual_ctor', 'ab', 'dual', 'dual r{a, b};', 'ab')]:
        add(name, V(ins), [('r', ty)], code, lanes(ty, want))
    add('origin_point', V('a'), [('r', 'point')], 'point r = origin{};', lanes('point', [1, 0, 0, 0]))

    def conv(name, ins, ty, code, want):
        def spec(c, I, O):
            for i, w in enumerate(want):
                c.eq('lane%d' % i, O['r'][i], I[w[0]][w[1]] if isinstance(w, tuple) else c.P(w))
        add(name, ins, [('r', ty)], code, spec)
    R4 = [('a', i) for i in range(4)]
    conv('line_from_branch', [('a', 'branch')], 'line', 'line r{a};', R4 + [0] * 4)
    conv('line_from_ideal', [('a', 'ideal_line')], 'line', 'line r{a};', [0] * 4 + R4)
    conv('motor_from_rotor', [('a', 'rotor')], 'motor', 'motor r{a};', R4 + [0] * 4)
    conv('motor_from_translator', [('a', 'translator')], 'motor', 'motor r{a};', [1, 0, 0, 0] + R4)
    conv('motor_assign_rotor', [('a', 'rotor'), ('b', 'motor')], 'motor', 'motor r = b; r = a;', R4 + [0] * 4)
    conv('motor_assign_translator', [('a', 'translator'), ('b', 'motor')], 'motor', 'motor r = b; r = a;', [1, 0, 0, 0] + R4)

    def dirc(c, I, O):
        v = [I[k][0] for k in 'abc']
        s = c.sqrt(n2(v, (0, 1, 2)))
        c.eq('lane0', O['r'][0], 0)
        for i in range(3):
            c.eq('lane%d' % (i + 1), c.mul(O['r'][i + 1], s), v[i])
    add('direction_ctor', V('abc'), [('r', 'direction')], 'direction r{a, b, c};', dirc,
        pre=lambda c, I: c.assume_pos(n2([I[k][0] for k in 'abc'], (0, 1, 2))))

    axis = lambda c, I: c.assume_pos(n2([I[k][0] for k in 'xyz'], (0, 1, 2)))

    def rot(c, I, O):
        v = [I[k][0] for k in 'xyz']
        u = c.sqrt(n2(v, (0, 1, 2)))
        s, co = c.sincos(I['a'][0] * half(c))
        c.eq('scalar', O['r'][0], co)
        for i in range(3):
            c.eq('lane%d' % (i + 1), c.mul(O['r'][i + 1], u), c.mul(s, v[i]))
    add('rotor_ctor', V('axyz'), [('r', 'rotor')], 'rotor r{a, x, y, z};', rot, pre=axis)

    def trn(c, I, O):
        v = [I[k][0] for k in 'xyz']
        u = c.sqrt(n2(v, (0, 1, 2)))
        c.eq('lane0', O['r'][0], 0)
        for i in range(3):
            c.eq('lane%d' % (i + 1), c.mul(O['r'][i + 1], u), -I['a'][0] * v[i] * half(c))
    add('translator_ctor', V('axyz'), [('r', 'translator')], 'translator r{a, x, y, z};', trn, pre=axis)

    # what the constructed motions do to points
    def moved(c, I, O):
        v = [I[k][0] for k in 'xyz']
        u = c.sqrt(n2(v, (0, 1, 2)))
        for i in range(3):
            c.eq('moved by distance along axis', c.mul(O['r'][i + 1] - I['p'][i + 1], u), I['a'][0] * v[i])
        c.eq('w', O['r'][0], 1)
    add('translator_moves', V('axyz') + [('p', 'point')], [('r', 'point')], 'point r = translator{a, x, y, z}(p);', moved, pre=axis, fixed={'p_0': 1.0})

    def screw(c, I, O):
        a, d = I['a'][0] * half(c), I['d'][0] * half(c)
        s, co = c.sincos(a)
        L = mv('line', I['l'])
        # exp((-a + d e0123) l) for a unit line l
        W = MV.from_named({'1': -s, 'e0123': c.mul(d, co)}) * L
        for i, n in enumerate(lane_names('motor')):
            w = W.get(n, c.P(0))
            if n == '1':
                w = w + co
            if n == 'e0123':
                w = w + c.mul(d, s)
            c.eq(n, O['r'][i], c.simp(w))
    for sg in (1, -1):
        def pm(c, sg=sg):
            unit_line(c)
            return {'a_0': c.var('a_0') if sg > 0 else -c.var('a_n')}
        add('motor_screw_%s' % ('pos' if sg > 0 else 'neg'), V('ad') + [('l', 'line')], [('r', 'motor')], 'motor r{a, d, l};', screw, param=pm, tol=1e-4,
            pre=lambda c, I, sg=sg: c.assume_pos(I['a'][0] * sg))

    # without rotation the screw is the translation by d along the axis
    def screw0(c, I, O):
        for i in range(4):
            c.eq('lane%d' % i, O['r'][i], 1 if i == 0 else 0)
        for i in range(1, 4):
            c.eq('moves along the axis %d' % i, O['r'][4 + i], T0 * I['d'][0] * half(c) * I['l'][i])
        c.eq('lane4', O['r'][4], 0)
    add('motor_screw_pure_translation', V('ad') + [('l', 'line')], [('r', 'motor')], 'motor r{a, d, l};', screw0, param=unit_line, fixed={'a_0': 0.0})

    # Euler angles
    def eul(c, I, O):
        (sr, cr), (sp, cp), (sy, cy) = (c.sincos(I['e'][i] * half(c)) for i in range(3))
        q = lambda s, co, n: MV.from_named({'1': co, n: s})
        # intrinsic yaw-pitch-roll: as quaternions qz * qy * qx with i j = k; the bivectors multiply in the opposite order
        W = quat(quat((cy, 0, 0, sy), (cp, 0, sp, 0)), (cr, sr, 0, 0))
        for i in range(4):
            c.eq('lane%d' % i, O['r'][i], c.simp(c.P(W[i])))
    add('rotor_from_euler', [('e', 'euler_angles')], [('r', 'rotor')], 'rotor r{e};', eul)

    def trip(c, I, O):
        for i in range(4):
            for j in range(i, 4):
                c.eq('same rotation %d%d' % (i, j), c.simp(O['r'][i] * O['r'][j]), I['m'][i] * I['m'][j])

    def off_gimbal(c, I):
        m = I['m']
        t = m[0] * m[2] - m[1] * m[3]
        k = c.P(Fr('0.4999')) if not c.numeric else 0.4999
        c.hint(2 * t)
        c.assume_ge(k, t)
        c.assume_ge(t, -k)
    add('euler_roundtrip', [('m', 'rotor')], [('r', 'rotor')], 'rotor r{m.as_euler_angles()};', trip, param=rotor_param(), pre=off_gimbal, tol=1e-4)

    def gimbal(sign):
        def pm(c):
            # b0 b2 - b1 b3 = sign/2 with unit norm  <=>  b2 = sign b0, b3 = -sign b1, b0^2 + b1^2 = 1/2
            x, y = c.var('m_0'), c.var('m_1')
            c.square_is(x, half(c) - y * y)
            return {'m_2': x * sign, 'm_3': -y * sign}
        return pm
    def tripg(c, I, O):
        # the code's pi/2 is a rounded constant
        k = c.P(Fr(1, 10 ** 5))
        for i in range(4):
            for j in range(i, 4):
                l, r = c.simp(O['r'][i] * O['r'][j]), I['m'][i] * I['m'][j]
                c.le('same rotation %d%d' % (i, j), l - r, k)
                c.le('same rotation %d%d' % (i, j), r - l, k)
    for sg, n in ((1, 'up'), (-1, 'down')):
        add('euler_gimbal_%s' % n, [('m', 'rotor')], [('r', 'rotor')], 'rotor r{m.as_euler_angles()};', tripg, param=gimbal(sg), tol=1e-3,
            gen=lambda r: r.choice([{'m_0': 0.5, 'm_1': 0.5}, {'m_0': 0.5, 'm_1': -0.5}, {'m_0': -0.5, 'm_1': 0.5}, {'m_0': 0.7071067811865476, 'm_1': 0.0}]))

    # documented ranges of the returned angles
    def rng(c, I, O):
        k = c.P(Fr('1.570797')) if not c.numeric else 1.570797
        c.le('pitch <= pi/2', O['r'][1], k)
        c.le('pitch >= -pi/2', -k, O['r'][1])
    add('euler_pitch_range', [('m', 'rotor')], [('r', 'euler_angles')], 'euler_angles r = m.as_euler_angles();', rng, param=rotor_param(),
        pre=lambda c, I: c.hint(2 * (I['m'][0] * I['m'][2] - I['m'][1] * I['m'][3])))
    return hs


T0 = -1


def half(c):
    return 0.5 if c.numeric else c.P(Fr(1, 2))


def quat(a, b):
    return (a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0])
