"""C08: matrix conversions carry exactly the action of the rotor / motor on homogeneous points"""
from common import *
from c05 import norm_rotor, motor_param

PN = ('e032', 'e013', 'e021', 'e123')


def rotor_param(var='m'):
    def pm(c):
        r = [c.var('%s_%d' % (var, i)) for i in range(4)]
        norm_rotor(c, r)
        return {}
    return pm


def image(op, m, x, y, z, w):
    m = mv(op, m)
    return m * MV.from_named({'e032': x, 'e013': y, 'e021': z, 'e123': w}) * m.rev()


def harnesses(tier):
    hs = []

    def cols(op, mat, normalized):
        def spec(c, I, O):
            one, zero = c.P(1), c.P(0)
            for k in range(4):
                v = [one if i == k else zero for i in range(4)]
                p = image(op, I['m'], *v)
                for i, n in enumerate(PN):
                    c.eq('col%d row%d' % (k, i), O['M'][4 * k + i], c.simp(p.get(n, zero)))
        kw = {}
        if normalized:
            kw['param'] = motor_param() if op == 'motor' else rotor_param()
        return H('%s_%s%s' % (op, mat, '_unit' if normalized else ''), [('m', op)], [('M', mat)], '%s M = m.as_%s();' % (mat, mat), spec, **kw)

    def app(op, mat, normalized):
        def spec(c, I, O):
            x, y, z, w = I['v']
            p = image(op, I['m'], x, y, z, w)
            for i, n in enumerate(PN):
                c.eq(n, O['r'][i], c.simp(p.get(n, c.P(0))))
        kw = {}
        if normalized:
            kw['param'] = motor_param() if op == 'motor' else rotor_param()
        return H('%s_%s_apply%s' % (op, mat, '_unit' if normalized else ''), [('m', op), ('v', 'v4')], [('r', 'v4')],
                 '__m128 r = m.as_%s()(v);' % mat, spec, **kw)
    for op in ('rotor', 'motor'):
        for mat in ('mat3x4', 'mat4x4'):
            norm = mat == 'mat3x4'
            hs += [cols(op, mat, norm), app(op, mat, norm)]
            if not norm:
                hs += [cols(op, mat, True)]

    # applying a stored matrix is the ordinary column-major product
    for mat in ('mat3x4', 'mat4x4'):
        def mul(c, I, O):
            for i in range(4):
                s = 0
                for k in range(4):
                    s = s + I['c%d' % k][i] * I['v'][k]
                c.eq('row%d' % i, O['r'][i], s)
        hs.append(H('%s_mul' % mat, [('c0', 'v4'), ('c1', 'v4'), ('c2', 'v4'), ('c3', 'v4'), ('v', 'v4')], [('r', 'v4')],
                    '%s M; M.cols[0] = c0; M.cols[1] = c1; M.cols[2] = c2; M.cols[3] = c3; __m128 r = M(v);' % mat, mul))

        def data(c, I, O):
            for k in range(4):
                for i in range(4):
                    c.eq('data', O['r%d' % k][i], I['c%d' % k][i])
    # converting and applying agrees with applying the motion
    def agree(c, I, O):
        for i in range(4):
            c.eq('lane%d' % i, O['a'][i], O['b'][i])
    for op in ('rotor', 'motor'):
        for mat in ('mat3x4', 'mat4x4'):
            hs.append(H('%s_%s_agrees' % (op, mat), [('m', op), ('x', 'float'), ('y', 'float'), ('z', 'float')], [('a', 'v4'), ('b', 'v4')],
                        '__m128 a = m.as_%s()(_mm_set_ps(1.f, z, y, x)); point p = m(point{x, y, z}); __m128 b = KLN_SWIZZLE(p.p3_, 0, 3, 2, 1);' % mat,
                        agree, param=motor_param() if op == 'motor' else rotor_param()))
    return hs
