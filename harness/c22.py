"""C22: polynomial and multivector arithmetic of the symbolic algebra (sym/) agrees with evaluation"""
from symcommon import *
import symcommon
flags_of, CFGS, ASSUMPTIONS = symcommon.flags_of, symcommon.CFGS, symcommon.ASSUMPTIONS
from poly import P
import c21

PRELUDE = SYM + r'''
namespace vt {
static inline uint32_t u(const float* f) { uint32_t i; std::memcpy(&i, f, 4); return i; }
static inline void put(float* o, int32_t v) { std::memcpy(o, &v, 4); }
// value of a polynomial in x and y; bad is set when it is not in canonical form
static float ev(poly const& p, float x, float y, float& bad) {
  float s = 0.f;
  for (auto& t : p.terms) {
    float v = t.second;
    if (v == 0.f) bad = 1.f;
    for (auto& k : t.first.factors) {
      if (k.second <= 0 || k.first.size() != 1) { bad = 1.f; continue; }
      for (int i = 0; i < k.second; ++i) v *= k.first[0] == 'x' ? x : y;
    }
    s += v;
  }
  return s;
}
static mon mk(int a, int b) { mon m; if (b) m.push("y", b); if (a) m.push("x", a); return m; }
}
'''
# monomials as exponent pairs
SHAPES = [[(0, 0)], [(1, 0)], [(1, 0), (0, 1)], [(1, 0), (0, 0)], [(2, 0), (1, 1)], [(1, 1), (0, 2), (0, 0)], [(1, 0), (1, 0)]]


def peval(c, cs, shape, x, y):
    r = 0
    for k, (a, b) in zip(cs, shape):
        t = k
        for _ in range(a):
            t = c.mul(t, x)
        for _ in range(b):
            t = c.mul(t, y)
        r = r + t
    return r


def build(v, shape, off):
    return 'poly %s; ' % v + ' '.join('%s.push(vt::mk(%d, %d), in[%d]);' % (v, a, b, off + i) for i, (a, b) in enumerate(shape)) + ' '


def pol(name, A, B, code, want):
    n, m = len(A), len(B)
    ins = [('a%d' % i, 'float') for i in range(n)] + [('b%d' % i, 'float') for i in range(m)] + [('x', 'float'), ('y', 'float')]
    body = build('p', A, 0) + build('q', B, n) + 'float x = in[%d], y = in[%d]; float bad = 0.f; ' % (n + m, n + m + 1) + code + \
        ' out[0] = vt::ev(r, x, y, bad); out[1] = bad;'

    def pre(c, I):
        for i in range(n):
            c.assume_ne(I['a%d' % i][0])
        for i in range(m):
            c.assume_ne(I['b%d' % i][0])

    def spec(c, I, O):
        x, y = I['x'][0], I['y'][0]
        a = peval(c, [I['a%d' % i][0] for i in range(n)], A, x, y)
        b = peval(c, [I['b%d' % i][0] for i in range(m)], B, x, y)
        c.eq('value', O['v'][0], want(c, a, b))
        c.eq('canonical form', O['bad'][0], 0)
    return H(name, ins, [('v', 'float'), ('bad', 'float')], body, spec, raw=True, pre=pre, mis_in=0, mis_out=0, nodef=True)


POPS = [
    ('add', 'poly r = p + q;', lambda c, a, b: a + b),
    ('mul', 'poly r = p * q;', lambda c, a, b: c.mul(a, b)),
    ('addeq', 'p += q; poly r = p;', lambda c, a, b: a + b),
    ('muleq', 'p *= q; poly r = p;', lambda c, a, b: c.mul(a, b)),
    ('neg', 'poly r = -p; r += q;', lambda c, a, b: b - a),
    ('negmove', 'poly r = -(p + q);', lambda c, a, b: (a + b) * -1),
    ('selfadd', 'p += p; poly r = p;', lambda c, a, b: a * 2),
    ('square', 'p *= p; poly r = p; r += q;', lambda c, a, b: c.mul(a, a) + b),
    ('chain', 'poly r = p * q + -q * p; r += p;', lambda c, a, b: a),
]


# ------------------------------------------------------------------ monomials, bit exact
def mons(name, nins, code, outs, spec, pre, **kw):
    return H(name, nins, outs, code, spec, raw=True, runner=bv.BitRunner, bpre=pre, max_paths=4000, nomerge=True, **kw)


def small(I, n, lo=-3, hi=3):
    return [z3.And(I[v][0] >= lo, I[v][0] <= hi) for v in n]


MONLD = '''auto ld = [&](int k, int nf) { mon m; for (int i = 0; i != nf; ++i) m.push(std::string(1, (char)('a' + vt::u(in + k + 2 * i))), (int)vt::u(in + k + 2 * i + 1)); return m; };
auto deg = [](mon const& m, int v) { auto it = m.factors.find(std::string(1, (char)('a' + v))); return it == m.factors.end() ? 0 : it->second; };
auto zero = [](mon const& m) { int z = 0; for (auto& f : m.factors) z |= f.second == 0; return z; }; '''


def mon_ins(tag, nf):
    return [(tag + 'n%d' % i, 'int') if k == 0 else (tag + 'd%d' % i, 'int') for i in range(nf) for k in (0, 1)]


def mon_pre(tags, nf, lo=-3, hi=3):
    def pre(I):
        c = []
        for t, n in zip(tags, nf):
            for i in range(n):
                c.append(z3.ULT(I[t + 'n%d' % i][0], 3))
                c += small(I, [t + 'd%d' % i], lo, hi)
        return c
    return pre


def mdeg(I, tag, nf, v):
    r = z3.BitVecVal(0, 32)
    for i in range(nf):
        r = r + z3.If(I[tag + 'n%d' % i][0] == v, I[tag + 'd%d' % i][0], z3.BitVecVal(0, 32))
    return r


def mon_mul(na, nb):
    code = MONLD + 'mon a = ld(0, %d), b = ld(%d, %d); mon r = a * b; a *= b; for (int v = 0; v != 3; ++v) vt::put(out + v, deg(r, v)); vt::put(out + 3, zero(r)); vt::put(out + 4, r.degree()); vt::put(out + 5, a == r ? 1 : 0);' % (na, 2 * na, nb)

    def spec(I, O):
        ds = [mdeg(I, 'a', na, v) + mdeg(I, 'b', nb, v) for v in range(3)]
        return [('degree of %s' % 'abc'[v], O['d%d' % v][0] == ds[v]) for v in range(3)] + \
            [('zero exponent kept', O['z'][0] == 0), ('total degree', O['t'][0] == ds[0] + ds[1] + ds[2]), ('in place', O['e'][0] == 1)]
    return mons('mon_mul_%d_%d' % (na, nb), mon_ins('a', na) + mon_ins('b', nb), code, [('d0', 'int'), ('d1', 'int'), ('d2', 'int'), ('z', 'int'), ('t', 'int'), ('e', 'int')],
                spec, mon_pre('ab', (na, nb)), cost=5)


def mon_order(na, nb):
    code = MONLD + 'mon a = ld(0, %d), b = ld(%d, %d); vt::put(out, a < b ? 1 : 0); vt::put(out + 1, b < a ? 1 : 0); vt::put(out + 2, a == b ? 1 : 0); vt::put(out + 3, b == a ? 1 : 0);' % (na, 2 * na, nb)

    def spec(I, O):
        same = z3.And([mdeg(I, 'a', na, v) == mdeg(I, 'b', nb, v) for v in range(3)])
        one = z3.BitVecVal(1, 32)
        ta = sum((mdeg(I, 'a', na, v) for v in range(3)), z3.BitVecVal(0, 32))
        tb = sum((mdeg(I, 'b', nb, v) for v in range(3)), z3.BitVecVal(0, 32))
        return [('equality', (O['e'][0] == 1) == same), ('equality symmetric', O['f'][0] == O['e'][0]),
                ('exactly one of a<b, b<a, a==b', O['l'][0] + O['g'][0] + O['e'][0] == one), ('lower degree first', z3.Implies(ta < tb, O['l'][0] == 1))]
    return mons('mon_order_%d_%d' % (na, nb), mon_ins('a', na) + mon_ins('b', nb), code, [('l', 'int'), ('g', 'int'), ('e', 'int'), ('f', 'int')],
                spec, mon_pre('ab', (na, nb)), cost=5)


def mon_trans():
    code = MONLD + 'mon a = ld(0, 1), b = ld(2, 1), c = ld(4, 1); vt::put(out, a < b ? 1 : 0); vt::put(out + 1, b < c ? 1 : 0); vt::put(out + 2, a < c ? 1 : 0);'

    def spec(I, O):
        return [('transitive', z3.Implies(z3.And(O['l'][0] == 1, O['m'][0] == 1), O['n'][0] == 1))]
    return mons('mon_trans', mon_ins('a', 1) + mon_ins('b', 1) + mon_ins('c', 1), code, [('l', 'int'), ('m', 'int'), ('n', 'int')], spec, mon_pre('abc', (1, 1, 1)), cost=5)


# ------------------------------------------------------------------ multivectors, blades symbolic
MVLD = """algebra g(%d, %d, %d);
auto var = [](char const* n) { mon m; m.push(n); poly p; p.push(m); return p; };
auto at = [](mv const& r, uint32_t k, mon const& m) { auto it = r.terms.find(k); if (it == r.terms.end()) return 0.f; auto jt = it->second.terms.find(m); return jt == it->second.terms.end() ? 0.f : jt->second; };
auto chk = [](mv const& r) { int bad = 0; for (auto& t : r.terms) { if (t.second.terms.empty()) bad = 1; for (auto& f : t.second.terms) if (f.second == 0.f) bad = 1; } return bad; };
"""
F1, FM1, F0, F2 = [z3.BitVecVal(x, 32) for x in (0x3f800000, 0xbf800000, 0, 0x40000000)]


def coef(res, k):
    """float bits of the coefficient of blade k in the one-term product whose signed encoding is res"""
    return z3.If(res == k + 1, F1, z3.If(res == -(k + 1), FM1, F0))


def is_zero(b):
    return z3.Or(b == 0, b == 0x80000000)


def same(b, want):
    return z3.Or(b == want, z3.And(is_zero(b), is_zero(want)))


def mvprod(nm, sym, sig, want, inplace, na=2, cv=None):
    d = sum(sig)
    av = ['a', 'b'][:na]
    names = av + ['c', 'k']
    if cv is not None:
        names.remove('c')
    ld = ' '.join('uint32_t %s = vt::u(in + %d);' % (n, i) for i, n in enumerate(names)) + ('' if cv is None else ' uint32_t c = %d;' % cv)
    code = MVLD % sig + ld + ' mv A{g}, B{g}; ' + ' '.join('A.push(%s, var("%s"));' % (v, 'xy'[i]) for i, v in enumerate(av)) + ' B.push(c, var("z")); '
    code += ('A %s= B; mv& r = A; ' if inplace else 'mv r = A %s B; ') % sym
    code += ' '.join('mon m%d; m%d.push("%s"); m%d.push("z"); float f%d = at(r, k, m%d); std::memcpy(out + %d, &f%d, 4);' % (i, i, 'xy'[i], i, i, i, i, i) for i in range(na))
    code += ' vt::put(out + %d, chk(r));' % na

    def spec(I, O):
        C = I['c'][0] if cv is None else z3.BitVecVal(cv, 32)
        r = [('coefficient of %s z' % 'xy'[i], same(O['f%d' % i][0], coef(want(I[v][0], C, sig[0], sig[1], sig[2], d), I['k'][0]))) for i, v in enumerate(av)]
        return r + [('zero terms removed', O['bad'][0] == 0)]
    return H('mv_%s_%d_%d_%d_%d%s%s' % ((nm,) + sig + (na, '_inplace' if inplace else '', '' if cv is None else '_c%d' % cv)), [(n, 'int') for n in names], [('f%d' % i, 'int') for i in range(na)] + [('bad', 'int')], code, spec,
             raw=True, runner=bv.BitRunner, bpre=lambda I: [z3.ULT(I[n][0], 1 << d) for n in names], max_paths=6000, cost=20, feas='cheap')


def mvlin(nm, code1, fx, fy):
    """A = x e_a, B = y e_b; coefficient of x and y at every blade k"""
    names = ['a', 'b', 'k']
    ld = ' '.join('uint32_t %s = vt::u(in + %d);' % (n, i) for i, n in enumerate(names))
    code = MVLD % (3, 0, 1) + ld + ' mv A{g}, B{g}; A.push(a, var("x")); B.push(b, var("y")); ' + code1
    code += ' mon mx; mx.push("x"); mon my; my.push("y"); float f0 = at(r, k, mx), f1 = at(r, k, my); std::memcpy(out, &f0, 4); std::memcpy(out + 1, &f1, 4); vt::put(out + 2, chk(r));'

    def spec(I, O):
        a, b, k = I['a'][0], I['b'][0], I['k'][0]
        return [('coefficient of x', same(O['f0'][0], fx(a, b, k))), ('coefficient of y', same(O['f1'][0], fy(a, b, k))), ('zero terms removed', O['bad'][0] == 0)]
    return H('mv_' + nm, [(n, 'int') for n in names], [('f0', 'int'), ('f1', 'int'), ('bad', 'int')], code, spec,
             raw=True, runner=bv.BitRunner, bpre=lambda I: [z3.ULT(I[n][0], 16) for n in names], max_paths=6000, cost=10)


def pick(cond, x):
    return z3.If(cond, x, F0)


def revsign(a):
    g = c21.grade(a, 4) & 3
    return z3.If(z3.Or(g == 2, g == 3), FM1, F1)


# second factor of the two-term products (quick tier)
C2 = {'mul': (1, 6), 'ext': (0, 2), 'dot': (2, 10), 'reg': (7, 15)}


def mvs(tier):
    X = [('mul', '*', c21.mul_def), ('ext', '^', lambda a, b, p, q, r, d: c21.ext_def(a, b, d)), ('dot', '|', c21.dot_def)]
    hs = []
    for sig in [(3, 0, 1), (2, 1, 0)] + ([(4, 1, 0), (2, 0, 1)] if tier == 'thorough' else []):
        for nm, sym, w in X + ([('reg', '&', lambda a, b, p, q, r, d: c21.reg_def(a, b))] if sig == (3, 0, 1) else []):
            for ip in (False, True):
                for na in (1, 2):
                    if na == 2 and (sig != (3, 0, 1) or ip) and tier == 'quick':
                        continue
                    for cv in ([None] if na == 1 else (C2[nm] if tier == 'quick' else range(1 << sum(sig)))):
                        hs.append(mvprod(nm, sym, sig, w, ip, na, cv))
    L = [
        ('add', 'mv r = A + B;', lambda a, b, k: pick(a == k, F1), lambda a, b, k: pick(b == k, F1)),
        ('addeq', 'A += B; mv& r = A;', lambda a, b, k: pick(a == k, F1), lambda a, b, k: pick(b == k, F1)),
        ('subeq', 'A -= B; mv& r = A;', lambda a, b, k: pick(a == k, F1), lambda a, b, k: pick(b == k, FM1)),
        ('neg', 'A += B; mv r = -A;', lambda a, b, k: pick(a == k, FM1), lambda a, b, k: pick(b == k, FM1)),
        ('negmove', 'mv r = -(A + B);', lambda a, b, k: pick(a == k, FM1), lambda a, b, k: pick(b == k, FM1)),
        ('rev', 'A += B; mv r = ~A;', lambda a, b, k: pick(a == k, revsign(a)), lambda a, b, k: pick(b == k, revsign(b))),
        ('revmove', 'mv r = ~(A + B);', lambda a, b, k: pick(a == k, revsign(a)), lambda a, b, k: pick(b == k, revsign(b))),
        ('cancel', 'mv C = A + B; C += -A; mv& r = C;', lambda a, b, k: F0, lambda a, b, k: pick(b == k, F1)),
        ('selfadd', 'A += B; A += A; mv& r = A;', lambda a, b, k: pick(a == k, F2), lambda a, b, k: pick(b == k, F2)),
        ('selfsub', 'A += B; A -= A; mv& r = A;', lambda a, b, k: F0, lambda a, b, k: F0),
    ]
    return hs + [mvlin(*l) for l in L]


# ------------------------------------------------------------------ multivectors, coefficients symbolic
# operands as lists of (blade, index of its coefficient); equal indices make terms of a product cancel
MVC = [
    ('vecsq', [(1, 0), (2, 1), (4, 2), (8, 3)], [(1, 0), (2, 1), (4, 2), (8, 3)]),
    ('vecvec', [(2, 0), (4, 1), (8, 2)], [(1, 3), (2, 4), (4, 5), (8, 6)]),
    ('equal', [(2, 0), (4, 0), (8, 0)], [(2, 1), (4, 1), (8, 1)]),
    ('rotor', [(0, 0), (6, 1), (10, 2), (12, 3)], [(0, 0), (6, 1), (10, 2), (12, 3)]),
    ('line', [(3, 0), (5, 1), (6, 2), (12, 3)], [(3, 0), (5, 1), (6, 2), (12, 3)]),
    ('mixed', [(0, 0), (1, 1), (7, 2), (15, 3)], [(2, 4), (11, 0), (14, 1)]),
    ('points', [(14, 0), (13, 1), (11, 2)], [(14, 0), (13, 1), (11, 2), (7, 3)]),
    ('empty', [], [(2, 0)]),
]


def blade_fn(nm):
    """res(a, b) -> (sign, blade) or None, on concrete blades, from the definitions of C21"""
    f = {'mul': lambda a, b: c21.mul_def(a, b, 3, 0, 1, 4), 'ext': lambda a, b: c21.ext_def(a, b, 4), 'dot': lambda a, b: c21.dot_def(a, b, 3, 0, 1, 4), 'reg': c21.reg_def}[nm]

    def g(a, b):
        r = z3.simplify(f(z3.BitVecVal(a, 32), z3.BitVecVal(b, 32))).as_signed_long()
        return None if r == 0 else (1 if r > 0 else -1, abs(r) - 1)
    return g


def mvc(tag, A, B, nm, sym, form):
    n = 1 + max(i for _, i in A + B)
    ld = 'algebra g(3, 0, 1); mv A{g}, B{g}; '
    for v, T in (('A', A), ('B', B)):
        for j, (b, i) in enumerate(T):
            ld += '{ poly p; mon m; %s p.push(m, in[%d]); %s.push(%d, p); } ' % ('m.push("x");' if form == 'x' and v == 'A' and j == 0 else '', i, v, b)
    code = ld + {'bin': 'mv r = A %s B;', 'inplace': 'A %s= B; mv& r = A;', 'x': 'mv r = A %s B;'}[form] % sym
    if nm == 'sq':
        code = ld + 'A *= A; mv& r = A;'
    code += ' float x = in[%d], bad = 0.f; for (int k = 0; k != 16; ++k) { auto it = r.terms.find(k); out[k] = it == r.terms.end() ? 0.f : vt::ev(it->second, x, 1.f, bad); } ' % n
    code += 'for (auto& t : r.terms) if (t.second.terms.empty() || t.first > 15) bad = 1.f; out[16] = bad;'
    ins = [('a%d' % i, 'float') for i in range(n)] + [('x', 'float')]

    def pre(c, I):
        for i in range(n):
            c.assume_ne(I['a%d' % i][0])

    def spec(c, I, O):
        want = [0] * 16
        co = lambda i: I['a%d' % i][0]
        if nm == 'add':
            for s, T in ((1, A), (1, B)):
                for j, (b, i) in enumerate(T):
                    want[b] = want[b] + (c.mul(co(i), I['x'][0]) if form == 'x' and T is A and j == 0 else co(i)) * s
        elif nm == 'sub':
            for s, T in ((1, A), (-1, B)):
                for j, (b, i) in enumerate(T):
                    want[b] = want[b] + (c.mul(co(i), I['x'][0]) if form == 'x' and T is A and j == 0 else co(i)) * s
        else:
            g = blade_fn('mul' if nm == 'sq' else nm)
            for j, (b1, i1) in enumerate(A):
                for b2, i2 in (A if nm == 'sq' else B):
                    r = g(b1, b2)
                    if r:
                        t = c.mul(co(i1), co(i2))
                        if form == 'x' and j == 0:
                            t = c.mul(t, I['x'][0])
                        want[r[1]] = want[r[1]] + t * r[0]
        for k in range(16):
            c.eq('coefficient of blade %d' % k, O['v%d' % k][0], want[k])
        c.eq('canonical form', O['bad'][0], 0)
    return H('mvc_%s_%s_%s' % (tag, nm, form), ins, [('v%d' % k, 'float') for k in range(16)] + [('bad', 'float')], code, spec, raw=True, pre=pre, mis_in=0, mis_out=0, nodef=True, cost=20)


def mvcs(tier):
    hs = []
    ops = [('mul', '*'), ('ext', '^'), ('dot', '|'), ('reg', '&')]
    for k, (tag, A, B) in enumerate(MVC):
        for j, (nm, sym) in enumerate(ops):
            for form in ('bin', 'inplace', 'x'):
                if form == 'x' and not A:
                    continue
                if tier == 'quick' and form != 'bin' and (k + j + (form == 'x')) % 2:
                    continue
                hs.append(mvc(tag, A, B, nm, sym, form))
        hs.append(mvc(tag, A, B, 'add', '+', 'bin'))
        hs.append(mvc(tag, A, B, 'sub', '-', 'inplace'))
        hs.append(mvc(tag, A, B, 'sq', '*', 'bin'))
    return hs


def harnesses(tier):
    hs = []
    for i, A in enumerate(SHAPES):
        for j, B in enumerate(SHAPES):
            for nm, code, want in POPS:
                if len(A) * len(B) > (3 if tier == 'quick' else 6) or (nm in ('selfadd',) and j) or (tier == 'quick' and nm in ('addeq', 'muleq', 'negmove') and (i + j) % 3):
                    continue
                hs.append(pol('poly_%s_%d_%d' % (nm, i, j), A, B, code, want))
    for a in (0, 1, 2):
        for b in (0, 1, 2):
            if a + b > (3 if tier == 'quick' else 4):
                continue
            hs.append(mon_mul(a, b))
            hs.append(mon_order(a, b))
    hs.append(mon_trans())
    return hs + mvs(tier) + mvcs(tier)
