"""C16: projections: the documented formula, incidence with the target, and the footpoint is the nearest point"""
from common import *


def harnesses(tier):
    hs = []

    def proj(a, b, f, **kw):
        def spec(c, I, O):
            w = f(mv(a, I['a']), mv(b, I['b']))
            eqlanes(c, a, O['r'], w)
        hs.append(H('project_%s_%s' % (a, b), [('a', a), ('b', b)], [('r', a)], '%s r = project(a, b);' % a, spec, **kw))
    for a, b in (('point', 'line'), ('point', 'plane'), ('line', 'plane')):
        proj(a, b, lambda x, y: (x | y) ^ y)
    for a, b in (('plane', 'point'), ('line', 'point'), ('plane', 'line')):
        proj(a, b, lambda x, y: (x | y) | y)

    # point on plane: the projected point is incident, and displaced along the plane's normal only
    def pp(c, I, O):
        a, b, r = I['a'], I['b'], O['r']
        c.eq('incident', b[0] * r[0] + b[1] * r[1] + b[2] * r[2] + b[3] * r[3], 0)
        d = [r[i] * a[0] - a[i] * r[0] for i in (1, 2, 3)]
        n = b[1:4]
        c.eq('along normal x', d[1] * n[2] - d[2] * n[1], 0)
        c.eq('along normal y', d[2] * n[0] - d[0] * n[2], 0)
        c.eq('along normal z', d[0] * n[1] - d[1] * n[0], 0)
    hs.append(H('footpoint_plane', [('a', 'point'), ('b', 'plane')], [('r', 'point')], 'point r = project(a, b);', pp))

    # point on a line through two points: the footpoint lies on the line, and the connection is perpendicular to it
    def pl(c, I, O):
        a, p, q, r = I['a'], I['p'], I['q'], O['r']
        d = [q[i] - p[i] for i in (1, 2, 3)]
        f = [r[i] - r[0] * p[i] for i in (1, 2, 3)]
        g = [r[i] - r[0] * a[i] for i in (1, 2, 3)]
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            c.eq('on line %d' % i, f[j] * d[k] - f[k] * d[j], 0)
        c.eq('perpendicular', g[0] * d[0] + g[1] * d[1] + g[2] * d[2], 0)
    hs.append(H('footpoint_line', [('a', 'point'), ('p', 'point'), ('q', 'point')], [('r', 'point')], 'point r = project(a, p & q);', pl,
                fixed={'a_0': 1.0, 'p_0': 1.0, 'q_0': 1.0}))

    # plane through a point, parallel to a plane
    def ppt(c, I, O):
        a, b, r = I['a'], I['b'], O['r']
        c.eq('incident', r[0] * b[0] + r[1] * b[1] + r[2] * b[2] + r[3] * b[3], 0)
        for i in (1, 2, 3):
            for j in (1, 2, 3):
                if i < j:
                    c.eq('parallel %d%d' % (i, j), r[i] * a[j] - r[j] * a[i], 0)
    hs.append(H('plane_through_point', [('a', 'plane'), ('b', 'point')], [('r', 'plane')], 'plane r = project(a, b);', ppt))
    # line through a point, parallel to a line
    def lpt(c, I, O):
        L, b = mv('line', O['r']), mv('point', I['b'])
        j = (b.dual() ^ L.dual()).dual()
        for n in LANES['p0']:
            c.eq('incident %s' % n, j.get(n, c.P(0)), 0)
        for i in (1, 2, 3):
            for k in (1, 2, 3):
                if i < k:
                    c.eq('parallel %d%d' % (i, k), O['r'][i] * I['a'][k] - O['r'][k] * I['a'][i], 0)
    hs.append(H('line_through_point', [('a', 'line'), ('b', 'point')], [('r', 'line')], 'line r = project(a, b);', lpt))
    # the projection of a line lies in the plane
    def lip(c, I, O):
        m = mv('line', O['r']) ^ mv('plane', I['b'])
        for n in LANES['p3']:
            c.eq('in plane %s' % n, m.get(n, c.P(0)), 0)
    hs.append(H('line_in_plane', [('a', 'line'), ('b', 'plane')], [('r', 'line')], 'line r = project(a, b);', lip))
    # the plane through the line
    def ptl(c, I, O):
        m = mv('line', I['b']) ^ mv('plane', O['r'])
        for n in LANES['p3']:
            c.eq('contains line %s' % n, m.get(n, c.P(0)), 0)

    def simple(c):
        # a line with direction orthogonal to moment, every one with nonzero e12 component
        l = [c.var('b_%d' % i) for i in range(8)]
        c.product_is(l[3], l[7], -l[1] * l[5] - l[2] * l[6])
        return {}
    hs.append(H('plane_through_line', [('a', 'plane'), ('b', 'line')], [('r', 'plane')], 'plane r = project(a, b);', ptl, param=simple))
    return hs
