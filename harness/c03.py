"""C03: operator& is the join (regressive product), ! the Poincare dual"""
from common import *


def harnesses(tier):
    f = lambda x, y: (x.dual() ^ y.dual()).dual()
    hs = [bin_gp('join_%s_%s' % (a, b), a, b, r, '&', f) for a, b, r in [
        ('point', 'point', 'line'), ('point', 'line', 'plane'), ('line', 'point', 'plane'), ('point', 'branch', 'plane'),
        ('branch', 'point', 'plane'), ('point', 'ideal_line', 'plane'), ('ideal_line', 'point', 'plane'), ('plane', 'point', 'dual'),
        ('point', 'plane', 'dual')]]
    for a, r in [('plane', 'point'), ('point', 'plane'), ('line', 'line'), ('ideal_line', 'branch'), ('branch', 'ideal_line'), ('dual', 'dual')]:
        def spec(c, I, O, a=a, r=r):
            eqlanes(c, r, O['r'], mv(a, I['a']).dual())
        hs.append(H('dual_%s' % a, [('a', a)], [('r', r)], '%s r = !a;' % r, spec))

    # geometry of the joins: the operands are incident with the result
    def inc_pp(c, I, O):
        l = mv('line', O['r'])
        for k in 'ab':
            m = mv('point', I[k])
            j = (m.dual() ^ l.dual()).dual()
            for n in LANES['p0']:
                c.eq('%s on line %s' % (k, n), j.get(n, 0), 0)
    hs.append(H('join_incident_pp', [('a', 'point'), ('b', 'point')], [('r', 'line')], 'line r = a & b;', inc_pp))

    def inc_3p(c, I, O):
        p = mv('plane', O['r'])
        for k in 'abd':
            c.eq('%s on plane' % k, (mv('point', I[k]) ^ p).get('e0123', 0), 0)
    hs.append(H('join_incident_3p', [('a', 'point'), ('b', 'point'), ('d', 'point')], [('r', 'plane')], 'plane r = a & (b & d);', inc_3p))

    def inc_meet(c, I, O):
        x = mv('point', O['r'])
        for k in 'abd':
            c.eq('%s through point' % k, (mv('plane', I[k]) ^ x).get('e0123', 0), 0)
    hs.append(H('meet_incident_3', [('a', 'plane'), ('b', 'plane'), ('d', 'plane')], [('r', 'point')], 'point r = (a ^ b) ^ d;', inc_meet))
    return hs
