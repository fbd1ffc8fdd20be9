"""C14: == holds exactly for equal coefficients; approx_eq exactly when every coefficient differs by less than epsilon"""
import z3
import fp
from common import *

ONE = 0x3f800000     # the harness's true
CMP = ('plane', 'line', 'rotor', 'motor')


def harnesses(tier):
    hs = []
    for e in CMP:
        n = ENT[e]

        def eq(c, I, O, n=n):
            c.iff('equal', O['r'][0], [('eq', I['a'][i], I['b'][i]) for i in range(n)])

        def ap(c, I, O, n=n):
            c.iff('approximately equal', O['r'][0],
                  [x for i in range(n) for x in (('lt', I['a'][i] - I['b'][i], I['s'][0]), ('lt', I['b'][i] - I['a'][i], I['s'][0]))])
        def gen(r, n=n):
            k = r.randrange(n)
            d = {}
            for i in range(n):
                x = r.choice([0.0, 1.0, -2.0, 0.5])
                d['a_%d' % i] = x
                d['b_%d' % i] = x + (r.choice([1.0, -1.0]) if i == k and r.random() < .7 else 0)
            d['s_0'] = r.choice([0.5, 2.0, 0.0])
            return d
        hs.append(H('eq_%s' % e, [('a', e), ('b', e)], [('r', 'bool')], 'bool r = a == b;', eq, full_lanes=True, gen=gen))
        hs.append(H('approx_%s' % e, [('a', e), ('b', e), ('s', 'float')], [('r', 'bool')], 'bool r = a.approx_eq(b, s);', ap, full_lanes=True, gen=gen))
    # the same over every bit pattern (zeros of both signs, denormals, infinities, NaN), float operations bit-precise
    for e in CMP:
        n = ENT[e]

        def eqb(I, O, n=n):
            r = O['r'][0]
            same = z3.And([z3.fpEQ(fp.fl(I['a'][i]), fp.fl(I['b'][i])) for i in range(n)])
            return [('== is false or true', z3.Or(r == 0, r == ONE)), ('== exactly for equal coefficients', (r == ONE) == same)]

        def apb(I, O, n=n):
            r = O['r'][0]
            s = fp.fl(I['s'][0])
            near = z3.And([z3.fpLT(z3.fpAbs(z3.fpSub(fp.RNE, fp.fl(I['a'][i]), fp.fl(I['b'][i]))), s) for i in range(n)])
            return [('approx_eq is false or true', z3.Or(r == 0, r == ONE)), ('approx_eq exactly when every difference is below epsilon', (r == ONE) == near)]
        kw = dict(full_lanes=True, runner=fp.FpRunner)
        hs.append(H('bits_eq_%s' % e, [('a', e), ('b', e)], [('r', 'bool')], 'bool r = a == b;', eqb, **kw))
        hs.append(H('bits_approx_%s' % e, [('a', e), ('b', e), ('s', 'float')], [('r', 'bool')], 'bool r = a.approx_eq(b, s);', apb, **kw))
    return hs
