"""C21: the basis-blade products of the symbolic algebra (sym/) obey the definition of the Clifford product for every signature"""
from common import *
import z3
import bv
from build import REPO

CFGS = ('sym',)
FLAGS = ['-std=c++17', '-msse4.2', '-fexceptions', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-I' + REPO + '/sym']


def flags_of(c):
    return FLAGS


PRELUDE = r'''
#include <cstring>
#include <cstdlib>
#include <cmath>
#include "poly.cpp"
#include "ga.cpp"
namespace vt {
static inline uint32_t u(const float* f) { uint32_t i; std::memcpy(&i, f, 4); return i; }
static inline void put(float* o, int32_t v) { std::memcpy(o, &v, 4); }
}
'''
BOUNDS = 'signatures (p, q, r) as listed by the harness names; both blades symbolic over all 2^(p+q+r) values'
SMALL = [(p, q, d - p - q) for d in range(5) for p in range(d + 1) for q in range(d + 1 - p)]
SIGS = {'quick': SMALL + [(4, 1, 0), (5, 0, 0), (0, 5, 0), (2, 1, 2), (4, 1, 1), (3, 3, 0), (4, 4, 0), (1, 1, 4), (8, 0, 1), (9, 0, 0), (5, 5, 0)],
        'thorough': SMALL + [(p, q, d - p - q) for d in (5, 6) for p in range(d + 1) for q in range(d + 1 - p)] +
        [(a, d - a - c, c) for d in (7, 8) for c in (0, 1, 2, 3) for a in sorted({0, 1, (d - c) // 2, d - c})]}
DOT_MAX = {'quick': 6, 'thorough': 7}


def bit(x, i):
    return z3.Extract(i, i, x)


def inversions(a, b, d):
    """parity of the transpositions that sort the concatenation of the two ascending index lists"""
    r = z3.BitVecVal(0, 1)
    above = z3.BitVecVal(0, 1)
    for i in reversed(range(d)):
        r = r ^ (bit(b, i) & above)
        above = above ^ bit(a, i)
    return r


def grade(x, d):
    r = z3.BitVecVal(0, 32)
    for i in range(d):
        r = r + z3.ZeroExt(31, bit(x, i))
    return r


def encode(sign, blade):
    """the library's signed encoding: +-(blade + 1)"""
    return z3.If(sign == 1, -(blade + 1), blade + 1)


def mul_def(a, b, p, q, r, d):
    s = inversions(a, b, d)
    zero = z3.BoolVal(False)
    for i in range(d):
        c = bit(a, i) & bit(b, i)
        if i < r:
            zero = z3.Or(zero, c == 1)
        elif i >= r + p:
            s = s ^ c
    return z3.If(zero, z3.BitVecVal(0, 32), encode(s, a ^ b))


def ext_def(a, b, d):
    return z3.If(a & b != 0, z3.BitVecVal(0, 32), encode(inversions(a, b, d), a | b))


def two(name, sig, expr, want, **kw):
    d = sum(sig)

    def spec(I, O):
        return [(name, O['x'][0] == want(I['a'][0], I['b'][0], sig[0], sig[1], sig[2], d))]
    return H('%s_%d_%d_%d' % ((name,) + sig), [('a', 'int'), ('b', 'int')], [('x', 'int')],
             'uint32_t a = vt::u(in), b = vt::u(in + 1); algebra g(%d, %d, %d); vt::put(out, %s);' % (sig + (expr,)), spec, raw=True,
             runner=bv.BitRunner, bpre=lambda I: [z3.ULT(I[n][0], 1 << d) for n in 'ab'], cost=d, **kw)


def pga(name, n, code, spec):
    """P(R*_3,0,1): the dual and what is built on it"""
    ins = [('a', 'int'), ('b', 'int'), ('c', 'int')][:n]
    ld = ' '.join('uint32_t %s = vt::u(in + %d);' % (v, i) for i, (v, e) in enumerate(ins))
    return H(name, ins, [('x', 'int'), ('y', 'int')], 'algebra g(3, 0, 1); ' + ld + ' ' + code, spec, raw=True, runner=bv.BitRunner,
             bpre=lambda I: [z3.ULT(I[v][0], 16) for v, e in ins])


def dual_def(a):
    """J: e_S -> sign e_T with T the complement; sign of the permutation ST, of TS for trivectors"""
    t = a ^ 15
    odd = z3.If(grade(a, 4) == 3, inversions(t, a, 4), inversions(a, t, 4))
    return encode(odd, t)


def sgn_blade(x):
    """decodes +-(blade + 1)"""
    return z3.If(x < 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), z3.If(x < 0, -x, x) - 1


def reg_def(a, b):
    sa, ja = sgn_blade(dual_def(a))
    sb, jb = sgn_blade(dual_def(b))
    e = ext_def(ja, jb, 4)
    se, je = sgn_blade(e)
    sr, jr = sgn_blade(dual_def(je))
    return z3.If(e == 0, z3.BitVecVal(0, 32), encode(sa ^ sb ^ se ^ sr, jr))


def dot_def(a, b, p, q, r, d):
    m = mul_def(a, b, p, q, r, d)
    ga, gb = grade(a, d), grade(b, d)
    diff = z3.If(z3.ULT(ga, gb), gb - ga, ga - gb)
    keep = z3.And(a != 0, b != 0, m != 0, grade(a ^ b, d) == diff)
    return z3.If(keep, m, z3.BitVecVal(0, 32))


def harnesses(tier):
    hs = []
    for d in SIGS.get(tier, SIGS['quick']):
        hs.append(two('blade_mul', d, 'g.mul(a, b)', mul_def))
        hs.append(two('blade_ext', d, 'g.ext(a, b)', lambda a, b, p, q, r, d: ext_def(a, b, d)))
        if sum(d) <= DOT_MAX.get(tier, 6):
            hs.append(two('blade_dot', d, 'g.dot(a, b)', dot_def))
        hs.append(two('blade_rev', d, 'g.rev(a) ? 1 : 0', lambda a, b, p, q, r, d: z3.If(z3.Or(grade(a, d) & 3 == 2, grade(a, d) & 3 == 3), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))
        hs.append(two('pseudoscalar', d, '(int32_t)g.pss()', lambda a, b, p, q, r, d: z3.BitVecVal((1 << d) - 1, 32)))
    hs.append(pga('dual', 1, 'int32_t j = g.dual(a); vt::put(out, j); int32_t k = g.dual(std::abs(j) - 1); vt::put(out + 1, j < 0 ? -k : k);',
                  lambda I, O: [('dual', O['x'][0] == dual_def(I['a'][0])), ('dual applied twice', O['y'][0] == I['a'][0] + 1)]))
    hs.append(pga('reg', 2, 'vt::put(out, g.reg(a, b)); vt::put(out + 1, 0);', lambda I, O: [('regressive product', O['x'][0] == reg_def(I['a'][0], I['b'][0]))]))
    return hs
