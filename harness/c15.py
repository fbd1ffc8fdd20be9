"""C15: loads, stores and accessors move exactly the named coefficients, through pointers with no more than float alignment"""
from common import *

ACC = {
    'plane': {'x': 1, 'e1': 1, 'y': 2, 'e2': 2, 'z': 3, 'e3': 3, 'd': 0, 'e0': 0},
    'point': {'x': 1, 'e032': 1, 'y': 2, 'e013': 2, 'z': 3, 'e021': 3, 'w': 0, 'e123': 0},
    'direction': {'x': 1, 'y': 2, 'z': 3},
    'branch': {'x': 1, 'e23': 1, 'e32': -1, 'y': 2, 'e31': 2, 'e13': -2, 'z': 3, 'e12': 3, 'e21': -3},
    'ideal_line': {'e01': 1, 'e10': -1, 'e02': 2, 'e20': -2, 'e03': 3, 'e30': -3},
    'rotor': {'scalar': 0, 'e23': 1, 'e32': -1, 'e31': 2, 'e13': -2, 'e12': 3, 'e21': -3},
    'translator': {'e01': 1, 'e10': -1, 'e02': 2, 'e20': -2, 'e03': 3, 'e30': -3},
    'line': {'e23': 1, 'e32': -1, 'e31': 2, 'e13': -2, 'e12': 3, 'e21': -3, 'e01': 5, 'e10': -5, 'e02': 6, 'e20': -6, 'e03': 7, 'e30': -7},
    'motor': {'scalar': 0, 'e23': 1, 'e32': -1, 'e31': 2, 'e13': -2, 'e12': 3, 'e21': -3, 'e0123': 4,
              'e01': 5, 'e10': -5, 'e02': 6, 'e20': -6, 'e03': 7, 'e30': -7},
    'dual': {'scalar': 0, 'e0123': 1},
}


def harnesses(tier):
    hs = []
    for e, acc in ACC.items():
        names = list(acc)

        def spec(c, I, O, names=names, acc=acc):
            for k, n in enumerate(names):
                i = acc[n]
                c.eq(n, O['r%d' % k][0], I['a'][i] if i >= 0 else -I['a'][-i])
        hs.append(H('acc_%s' % e, [('a', e)], [('r%d' % k, 'float') for k in range(len(names))],
                    ' '.join('float r%d = a.%s();' % (k, n) for k, n in enumerate(names)), spec, full_lanes=True))

    def ident(n, a='a', r='r'):
        return lambda c, I, O: [c.eq('lane%d' % i, O[r][i], I[a][i]) for i in range(n)]
    one = lambda c, I, O: c.eq('scalar', O['r'][0], 1)
    hs.append(H('acc_translator_scalar', [('a', 'translator')], [('r', 'float')], 'float r = a.scalar();', one))
    # loads: in/out are only 4-byte aligned
    for nm, e, code in (('plane_load', 'plane', 'plane r; r.load(in);'), ('plane_data_ctor', 'plane', 'plane r{in};'),
                        ('point_load', 'point', 'point r; r.load(in);'), ('direction_data_ctor', 'direction', 'direction r{in};'),
                        ('rotor_load', 'rotor', 'rotor r; r.load_normalized(in);'), ('translator_load', 'translator', 'translator r; r.load_normalized(in);'),
                        ('motor_load', 'motor', 'motor r; r.load(in);')):
        hs.append(H(nm, [('a', e)], [('r', e)], code + ' vt::st<%s>(out, r);' % e, ident(ENT[e]), raw=True, full_lanes=True))
    for e in ('point', 'rotor', 'branch'):
        hs.append(H(e + '_store', [('a', e)], [('r', e)], '%s r = vt::ld<%s>(in); r.store(out);' % (e, e), ident(4), raw=True, full_lanes=True))
        # a store writes exactly four floats
        hs.append(H(e + '_store_guard', [('a', 'v8')], [('r', 'v8')],
                    '%s r = vt::ld<%s>(in + 2); for (int i = 0; i != 8; ++i) out[i] = in[i]; r.store(out + 2);' % (e, e), ident(8), raw=True))
    # wrapping a register keeps its lanes
    for e, m in (('plane', 'p0_'), ('point', 'p3_'), ('direction', 'p3_'), ('branch', 'p1_'), ('ideal_line', 'p2_'), ('rotor', 'p1_')):
        hs.append(H(e + '_register', [('a', 'v4')], [('r', e)], '%s r{a};' % e, ident(4)))
    for e in ('line', 'motor'):
        hs.append(H(e + '_register', [('a', 'v4'), ('b', 'v4')], [('r', e)], '%s r{a, b};' % e,
                    lambda c, I, O: [c.eq('lane%d' % i, O['r'][i], (I['a'] + I['b'])[i]) for i in range(8)]))
    # matrices: columns and flat data are the same storage, column-major
    for m in ('mat3x4', 'mat4x4'):
        hs.append(H(m + '_data', [('c0', 'v4'), ('c1', 'v4'), ('c2', 'v4'), ('c3', 'v4')], [('r', 'v8'), ('s', 'v8')],
                    '%s M; for (int i = 0; i != 4; ++i) M.cols[i] = _mm_loadu_ps(in + 4 * i); for (int i = 0; i != 16; ++i) out[i] = M.data[i];' % m,
                    lambda c, I, O: [c.eq('data%d' % i, (O['r'] + O['s'])[i], I['c%d' % (i // 4)][i % 4]) for i in range(16)], raw=True))
    # swizzles of a point to Cartesian order used by the documentation: store after load is the identity
    hs.append(H('point_store_load', [('a', 'point')], [('r', 'point')], 'float b[4]; point p = vt::ld<point>(in); p.store(b); point q; q.load(b); vt::st<point>(out, q);',
                ident(4), raw=True, full_lanes=True))
    return hs
