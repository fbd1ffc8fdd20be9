"""C18: results that go through the hardware's approximate reciprocal and reciprocal square root are accurate to about 20 bits

The instructions rcpps/rsqrtps are modelled as any value within the architectural relative error 1.5 * 2^-12 of the exact one,
independently per call and lane; the remaining arithmetic is exact."""
from fractions import Fraction
from common import *
from c09 import n2, NRM

REL = Fraction(1, 2 ** 20)
BOUNDS = 'every path; the approximation error of each rcpps/rsqrtps result is symbolic within its architectural bound; rounding of the other operations is outside'
ASSUMPTIONS = ['rcpps and rsqrtps have relative error at most 1.5 * 2^-12 (Intel and AMD architecture manuals)']


def gen(rng):
    return {'%s_%d' % (v, i): round(rng.uniform(0.5, 3.0) * rng.choice((1, -1)), 3) for v in 'abxs' for i in range(8)}


KW = dict(eps=True, exact=True, tol=3e-6, gen=gen)


def harnesses(tier):
    hs = []

    def add(name, ins, outs, code, spec, **kw):
        hs.append(H(name, ins, outs, code, spec, **dict(KW, **kw)))
    for form, code in (('', '%s r = x; r.normalize();'), ('_copy', '%s r = x.normalized();')):
        for e, idx in NRM.items():
            def spec(c, I, O, e=e, idx=idx):
                s = c.sqrt(n2(I['x'], idx))
                for i in range(4):
                    c.near('lane%d' % i, c.mul(O['r'][i], s), I['x'][i], REL)
            add('acc_normalize_%s%s' % (e, form), [('x', e)], [('r', e)], code % e, spec, pre=lambda c, I, idx=idx: c.assume_pos(n2(I['x'], idx)))

        def spec(c, I, O):
            for i in range(4):
                c.near('lane%d' % i, c.mul(O['r'][i], I['x'][0]), I['x'][i], REL)
        add('acc_normalize_point%s' % form, [('x', 'point')], [('r', 'point')], code % 'point', spec, pre=lambda c, I: c.assume_ne(I['x'][0]))
        for e, idx in (('line', (1, 2, 3)), ('motor', (0, 1, 2, 3))):
            def spec(c, I, O, e=e, idx=idx):
                x = I['x']
                b2 = n2(x, idx)
                s = c.sqrt(b2)
                sg = lambda i: 1 if e == 'line' or i else -1
                bc = sum((x[i] * x[i + 4] * sg(i) for i in (range(1, 4) if e == 'line' else range(4))), c.P(0))
                X = mv(e, x)
                q = (X * X.rev()).get('e0123', c.P(0))
                # N = X (1/s - q / (2 s^3) e0123), computed in the algebra
                D = [MV.from_named({'1': b2 * 2}) * X, MV.from_named({'e0123': -q}) * X]
                for i, n in enumerate(lane_names(e)):
                    c.near('lane%d' % i, c.mul(c.mul(O['r'][i], s), b2 * 2), [d.get(n, c.P(0)) for d in D], REL)
            add('acc_normalize_%s%s' % (e, form), [('x', e)], [('r', e)], code % e, spec, pre=lambda c, I, idx=idx: c.assume_pos(n2(I['x'], idx)))
    for name, e, expr in (('norm_plane', 'plane', 'x.norm()'), ('norm_line', 'line', 'x.norm()'), ('norm_branch', 'branch', 'x.norm()'),
                          ('norm_ideal', 'ideal_line', 'x.ideal_norm()')):
        def spec(c, I, O):
            s = c.sqrt(n2(I['x'], (1, 2, 3)))
            c.near('norm', c.mul(O['r'][0], s), c.mul(s, s), REL)
        add('acc_' + name, [('x', e)], [('r', 'float')], 'float r = %s;' % expr, spec, pre=lambda c, I: c.assume_pos(n2(I['x'], (1, 2, 3))))
    for e in ('plane', 'point', 'direction', 'line', 'branch', 'ideal_line', 'rotor', 'translator', 'motor'):
        def spec(c, I, O, e=e):
            for i in range(ENT[e]):
                c.near('lane%d' % i, c.mul(O['r'][i], I['s'][0]), I['x'][i], REL)
        nz = lambda c, I: c.assume_ne(I['s'][0])
        add('acc_div_' + e, [('x', e), ('s', 'float')], [('r', e)], '%s r = x / s;' % e, spec, pre=nz)
        add('acc_diveq_' + e, [('x', e), ('s', 'float')], [('r', e)], '%s r = x; r /= s;' % e, spec, pre=nz)
        add('acc_divi_' + e, [('x', e), ('s', 'int')], [('r', e)], '%s r = x / s;' % e, spec, pre=nz)
        add('acc_divieq_' + e, [('x', e), ('s', 'int')], [('r', e)], '%s r = x; r /= s;' % e, spec, pre=nz)
    for e, idx in (('plane', (1, 2, 3)), ('branch', (1, 2, 3)), ('rotor', (0, 1, 2, 3))):
        for form, code in (('', '%s r = x; r.invert();'), ('_copy', '%s r = x.inverse();')):
            def spec(c, I, O, e=e, idx=idx):
                X = mv(e, I['x'])
                R = X if e == 'plane' else X.rev()
                for i, n in enumerate(lane_names(e)):
                    c.near('lane%d' % i, c.mul(O['r'][i], n2(I['x'], idx)), R.get(n, c.P(0)), REL)
            add('acc_inverse_%s%s' % (e, form), [('x', e)], [('r', e)], code % e, spec, pre=lambda c, I, idx=idx: c.assume_pos(n2(I['x'], idx)))
    for e, idx in (('line', (1, 2, 3)), ('motor', (0, 1, 2, 3))):
        for form, code in (('', '%s r = x; r.invert();'), ('_copy', '%s r = x.inverse();')):
            def spec(c, I, O, e=e, idx=idx):
                X = mv(e, I['x'])
                b2 = n2(I['x'], idx)
                q = (X * X.rev()).get('e0123', c.P(0))
                # X^-1 = ~X (1/b2 - q / b2^2 e0123)
                D = [MV.from_named({'1': b2}) * X.rev(), MV.from_named({'e0123': -q}) * X.rev()]
                for i, n in enumerate(lane_names(e)):
                    c.near('lane%d' % i, c.mul(O['r'][i], b2 * b2), [d.get(n, c.P(0)) for d in D], REL)
            add('acc_inverse_%s%s' % (e, form), [('x', e)], [('r', e)], code % e, spec, pre=lambda c, I, idx=idx: c.assume_pos(n2(I['x'], idx)))

    def spec(c, I, O):
        a, b = I['a'], I['b']
        for i in (1, 2, 3):
            c.near('lane%d' % i, c.mul(O['r'][i], a[0] * b[0]), [a[0] * b[i], -a[i] * b[0]], REL)
    add('acc_point_quotient', [('a', 'point'), ('b', 'point')], [('r', 'translator')], 'translator r = a * b;', spec,
        pre=lambda c, I: c.assume_ne(c.simp(I['a'][0] * I['b'][0])))
    return hs
