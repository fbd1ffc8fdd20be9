"""C09: norms are the documented lengths and normalisation only rescales, to unit length"""
from common import *


def n2(l, idx):
    s = 0
    for i in idx:
        s = s + l[i] * l[i]
    return s


NRM = {'plane': (1, 2, 3), 'direction': (1, 2, 3), 'branch': (1, 2, 3), 'rotor': (0, 1, 2, 3)}


def harnesses(tier):
    hs = []
    for form, code in (('', '%s r = x; r.normalize();'), ('_copy', '%s r = x.normalized();')):
        for e, idx in NRM.items():
            def spec(c, I, O, e=e, idx=idx):
                s = c.sqrt(n2(I['x'], idx))
                for i in range(4):
                    c.eq('lane%d' % i, c.mul(O['r'][i], s), I['x'][i])

            def pre(c, I, idx=idx):
                c.assume_pos(n2(I['x'], idx))
            hs.append(H('normalize_%s%s' % (e, form), [('x', e)], [('r', e)], code % e, spec, pre=pre))

        def spec(c, I, O):
            for i in range(4):
                c.eq('lane%d' % i, O['r'][i] * I['x'][0], I['x'][i])
        hs.append(H('normalize_point%s' % form, [('x', 'point')], [('r', 'point')], code % 'point', spec, pre=lambda c, I: c.assume_ne(I['x'][0])))
        for e, idx in (('line', (1, 2, 3)), ('motor', (0, 1, 2, 3))):
            def spec(c, I, O, e=e):
                X, N = mv(e, I['x']), mv(e, O['r'])
                q = N * N.rev()
                c.eq('unit scalar', q.get('1'), 1)
                c.eq('unit pseudoscalar', q.get('e0123', c.P(0)), 0)
                # X = (s + t e0123) N with (s + t e0123)^2 = X ~X
                xx = X * X.rev()
                s = c.sqrt(xx.get('1'))
                t = xx.get('e0123', c.P(0)) * c.inv(2 * s)
                B = MV.from_named({'1': s, 'e0123': t}) * N
                eqlanes(c, e, [B.get(n, c.P(0)) for n in lane_names(e)], X, label='rescaled ')

            def pre(c, I, idx=idx):
                c.assume_pos(n2(I['x'], idx))
            hs.append(H('normalize_%s%s' % (e, form), [('x', e)], [('r', e)], code % e, spec, pre=pre))

    def norm(name, e, expr, fn, **kw):
        hs.append(H(name, [('x', e)], [('r', 'float')], 'float r = %s;' % expr, lambda c, I, O: c.eq('norm', O['r'][0], fn(c, I['x'])), **kw))
    norm('norm_plane', 'plane', 'x.norm()', lambda c, l: c.sqrt(n2(l, (1, 2, 3))))
    norm('norm_line', 'line', 'x.norm()', lambda c, l: c.sqrt(n2(l, (1, 2, 3))))
    norm('norm2_line', 'line', 'x.squared_norm()', lambda c, l: n2(l, (1, 2, 3)))
    norm('norm_branch', 'branch', 'x.norm()', lambda c, l: c.sqrt(n2(l, (1, 2, 3))))
    norm('norm2_branch', 'branch', 'x.squared_norm()', lambda c, l: n2(l, (1, 2, 3)))
    norm('norm_ideal', 'ideal_line', 'x.ideal_norm()', lambda c, l: c.sqrt(n2(l, (1, 2, 3))))
    norm('norm2_ideal', 'ideal_line', 'x.squared_ideal_norm()', lambda c, l: n2(l, (1, 2, 3)))

    # documented metric meaning
    def dist_pp(c, I, O):
        a, b = I['a'], I['b']
        c.eq('distance^2', O['r'][0], n2([a[i] - b[i] for i in range(3)], range(3)))
    hs.append(H('distance_points', [('a', 'v3'), ('b', 'v3')], [('r', 'float')],
                'float r = (point{in[0], in[1], in[2]} & point{in[3], in[4], in[5]}).squared_norm(); out[0] = r;', dist_pp, raw=True))

    # distance from a point to a normalised line is the norm of the plane they span
    def dist_pl(c, I, O):
        x, l = I['x'], I['l']
        d, m = l[1:4], l[5:8]          # direction and moment lanes of a unit simple line
        cr = [x[1] * d[2] - x[2] * d[1], x[2] * d[0] - x[0] * d[2], x[0] * d[1] - x[1] * d[0]]
        # squared distance: |x cross d - m0|^2 for the moment m0 of the line (up to the orientation convention of the algebra)
        J = (MV.from_named({'e123': c.P(1), 'e032': x[0], 'e013': x[1], 'e021': x[2]}).dual() ^ mv('line', l).dual()).dual()
        c.eq('norm', O['r'][0], c.sqrt(J.get('e1', c.P(0)) ** 2 + J.get('e2', c.P(0)) ** 2 + J.get('e3', c.P(0)) ** 2))
    hs.append(H('distance_point_line', [('x', 'v3'), ('l', 'line')], [('r', 'float')],
                'line l = vt::ld<line>(in + 3); out[0] = (point{in[0], in[1], in[2]} & l).norm();', dist_pl, raw=True))
    return hs
