"""C17: unit motions compose, invert, and preserve distances, angles, incidence and joins"""
from common import *
from c05 import motor_param, norm_rotor
from c08 import rotor_param


def two(op):
    def pm(c):
        d = {}
        for v in 'mn':
            d.update((motor_param(v) if op == 'motor' else rotor_param(v))(c))
        return d
    return pm


def harnesses(tier):
    hs = []
    XS = {'rotor': ('plane', 'branch', 'line', 'point', 'direction'), 'motor': ('plane', 'line', 'point', 'direction'),
          'translator': ('plane', 'line', 'point')}

    def same(e, x='a', y='b'):
        def spec(c, I, O):
            for i in range(ENT[e]):
                c.eq('lane%d' % i, c.simp(O[x][i]), c.simp(O[y][i]))
        return spec
    # (n m)(x) = n(m(x)), for every kind of motion
    for o1 in ('rotor', 'translator', 'motor'):
        for o2 in ('rotor', 'translator', 'motor'):
            for x in ('plane', 'line', 'point', 'direction'):
                if 'translator' in (o1, o2) and x == 'direction':
                    continue
                def pm(c, o1=o1, o2=o2):
                    d = {}
                    for v, o in (('m', o1), ('n', o2)):
                        if o != 'translator':
                            d.update((motor_param(v) if o == 'motor' else rotor_param(v))(c))
                    return d
                hs.append(H('compose_%s_%s_%s' % (o2, o1, x), [('m', o1), ('n', o2), ('x', x)], [('a', x), ('b', x)],
                            '%s a = (n * m)(x); %s b = n(m(x));' % (x, x), same(x), param=pm, cost=5))
    # ~m undoes m
    for op in ('rotor', 'motor'):
        for x in XS[op]:
            def spec(c, I, O, x=x):
                for i in range(ENT[x]):
                    c.eq('lane%d' % i, c.simp(O['r'][i]), I['x'][i])
            hs.append(H('undo_%s_%s' % (op, x), [('m', op), ('x', x)], [('r', x)], '%s r = (~m)(m(x));' % x, spec, param=motor_param() if op == 'motor' else rotor_param()))
    for x in XS['translator']:
        def spec(c, I, O, x=x):
            for i in range(ENT[x]):
                c.eq('lane%d' % i, c.simp(O['r'][i]), I['x'][i])
        hs.append(H('undo_translator_%s' % x, [('m', 'translator'), ('x', x)], [('r', x)], '%s r = m.inverse()(m(x));' % x, spec))

    def pmof(op):
        return {'motor': motor_param(), 'rotor': rotor_param()}.get(op)
    for op in ('rotor', 'translator', 'motor'):
        p = pmof(op)
        # distances between points
        def dist(c, I, O):
            s = 0
            t = 0
            for i in (1, 2, 3):
                s = s + (O['a'][i] - O['b'][i]) ** 2
                t = t + (I['x'][i] - I['y'][i]) ** 2
            c.eq('w', c.simp(O['a'][0]), 1)
            c.eq('distance^2', c.simp(s), t)
        hs.append(H('distance_%s' % op, [('m', op), ('x', 'point'), ('y', 'point')], [('a', 'point'), ('b', 'point')], 'point a = m(x); point b = m(y);', dist,
                    param=p, fixed={'x_0': 1.0, 'y_0': 1.0}))
        # angles between planes, and incidence of a point with a plane
        def ang(c, I, O):
            s = 0
            t = 0
            for i in (1, 2, 3):
                s = s + O['a'][i] * O['b'][i]
                t = t + I['x'][i] * I['y'][i]
            c.eq('angle', c.simp(s), t)
        hs.append(H('angle_%s' % op, [('m', op), ('x', 'plane'), ('y', 'plane')], [('a', 'plane'), ('b', 'plane')], 'plane a = m(x); plane b = m(y);', ang, param=p))
        def inc(c, I, O):
            s = 0
            t = 0
            for i in range(4):
                s = s + O['a'][i] * O['b'][i]
                t = t + I['x'][i] * I['y'][i]
            c.eq('incidence', c.simp(s), t)
        hs.append(H('incidence_%s' % op, [('m', op), ('x', 'point'), ('y', 'plane')], [('a', 'point'), ('b', 'plane')], 'point a = m(x); plane b = m(y);', inc, param=p))
        # motions commute with join and meet
        for nm, xs, r, expr in (('join_pp', ('point', 'point'), 'line', '(%s & %s)'), ('join_pl', ('point', 'line'), 'plane', '(%s & %s)'),
                                ('meet_pp', ('plane', 'plane'), 'line', '(%s ^ %s)'), ('meet_pl', ('plane', 'line'), 'point', '(%s ^ %s)')):
            code = '%s a = m(%s); %s b = %s;' % (r, expr % ('x', 'y'), r, expr % ('m(x)', 'm(y)'))
            hs.append(H('%s_%s' % (nm, op), [('m', op), ('x', xs[0]), ('y', xs[1])], [('a', r), ('b', r)], code, same(r), param=p, cost=4))
    # reflecting twice in unit planes is the motion given by their product
    def up(v):
        def pm(c):
            l = [c.var('%s_%d' % (v, i)) for i in range(4)]
            c.square_is(l[3], 1 - l[1] * l[1] - l[2] * l[2])
            return {}
        return pm
    def up2(c):
        up('p')(c)
        up('q')(c)
        return {}
    for x in ('plane', 'line', 'point'):
        # (p q) x ~(p q) = p (q x q) p
        hs.append(H('two_reflections_%s' % x, [('p', 'plane'), ('q', 'plane'), ('x', x)], [('a', x), ('b', x)],
                    '%s a = (p * q)(x); %s b = p(q(x));' % (x, x), same(x), param=up2, cost=5))
        def inv(c, I, O, x=x):
            for i in range(ENT[x]):
                c.eq('lane%d' % i, c.simp(O['r'][i]), I['x'][i])
        hs.append(H('reflection_involution_%s' % x, [('p', 'plane'), ('x', x)], [('r', x)], '%s r = p(p(x));' % x, inv, param=up('p')))
    # the translator between two points, and the square-root of it
    def pt(c, I, O):
        for i in (1, 2, 3):
            c.eq('lane%d' % i, O['r'][i], I['y'][i])
        c.eq('w', O['r'][0], 1)
    hs.append(H('point_ratio_moves', [('x', 'point'), ('y', 'point')], [('r', 'point')], 'point r = sqrt(y * x)(x);', pt, fixed={'x_0': 1.0, 'y_0': 1.0}))
    return hs
