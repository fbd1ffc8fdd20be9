"""C25: what the symbolic shell prints denotes the polynomial or multivector it was given"""
from symcommon import *
import symcommon
import c22
flags_of, CFGS = symcommon.flags_of, symcommon.CFGS
ASSUMPTIONS = symcommon.ASSUMPTIONS + ['formatting a float yields its value: the encoding keeps the number as one item of the output, the replay prints with nine digits']
BOUNDS = 'polynomials of up to 4 terms in two variables with exponents up to 12, multivectors of up to 4 terms, all coefficients symbolic; one-term multivectors over every blade of a 10-dimensional algebra'

PRELUDE = LIB + STREAM + c22.PRELUDE[len(LIB):] + r'''
namespace vt {
// reads the printed text back: value at (x, y) of the coefficient of one blade
struct rd {
  int i; float x, y; bool bad;
  int at(int k) { return k < on ? ok[k] : -1; }
  static bool dig(int c) { return c >= '0' && c <= '9'; }
  float mono() {
    float v = 1.f; bool any = false;
    if (at(i) == '-') { v = -1.f; ++i; }
    if (at(i) == 256) { v *= of[i]; ++i; any = true; }
    else if (dig(at(i))) { v *= (float)(at(i) - '0'); ++i; any = true; }
    while (at(i) == 'x' || at(i) == 'y') {
      float b = at(i) == 'x' ? x : y; ++i; any = true;
      int d = 1;
      if (at(i) == '^') { ++i; if (!dig(at(i))) bad = true; d = 0; while (dig(at(i))) { d = d * 10 + (at(i) - '0'); ++i; } }
      for (; d > 0; --d) v *= b;
      if (at(i) == ' ' && (at(i + 1) == 'x' || at(i + 1) == 'y')) ++i; else break;
    }
    if (!any) bad = true;
    return v;
  }
  bool plus() { if (at(i) == ' ' && at(i + 1) == '+' && at(i + 2) == ' ') { i += 3; return true; } return false; }
  float pol() {
    if (at(i) != '(') return mono();
    ++i;
    float s = mono();
    while (plus()) s += mono();
    if (at(i) == ')') ++i; else bad = true;
    return s;
  }
  float mvec(uint32_t k) {
    float s = 0.f;
    do {
      float v = pol(); uint32_t b = 0; int last = -1;
      if (at(i) == ' ' && at(i + 1) == 'e') { i += 2; while (dig(at(i))) { int d = at(i) - '0'; if (d <= last) bad = true; last = d; b |= 1u << d; ++i; } if (last < 0) bad = true; }
      if (b == k) s += v;
    } while (plus());
    if (i != on) bad = true;
    return s;
  }
};
}
'''
SHAPES = [[(0, 0)], [(1, 0)], [(0, 1)], [(2, 0)], [(1, 1)], [(3, 2)], [(12, 0)], [(1, 0), (0, 0)], [(2, 1), (0, 3)], [(1, 0), (0, 1), (0, 0)], [(1, 1), (0, 2), (0, 0), (2, 0)]]
MVS = [[(0, [(0, 0)])], [(1, [(0, 0)])], [(6, [(1, 0)])], [(15, [(1, 0), (0, 0)])], [(0, [(0, 0)]), (1, [(0, 0)])], [(0, [(1, 1)]), (5, [(0, 0)]), (11, [(2, 0)])],
       [(3, [(1, 0), (0, 2)]), (12, [(0, 0)])], [(0, [(1, 0), (0, 0)]), (8, [(0, 1)]), (9, [(0, 0)]), (7, [(1, 2)])], []]


def tail(n):
    return 'float x = in[%d], y = in[%d]; vt::rd r{0, x, y, false}; ' % (n, n + 1)


def ins_of(n):
    return [('a%d' % i, 'float') for i in range(n)] + [('x', 'float'), ('y', 'float')]


def nonzero(n):
    def pre(c, I):
        for i in range(n):
            c.assume_ne(I['a%d' % i][0])
    return pre


def printed(name, n, body, want, multi=True):
    def spec(c, I, O):
        c.eq('value', O['v'][0], want(c, [I['a%d' % i][0] for i in range(n)], I['x'][0], I['y'][0]))
        c.eq('well formed', O['bad'][0], 0)
    return H(name, ins_of(n), [('v', 'float'), ('bad', 'float')], body, spec, raw=True, pre=nonzero(n), mis_in=0, mis_out=0, nodef=True)


def poly_h(i, A):
    return printed('print_poly_%d' % i, len(A), c22.build('p', A, 0) + 'vt::stream() << p; vt::flush(); ' + tail(len(A)) + 'out[0] = r.pol(); out[1] = (r.bad || r.i != vt::on) ? 1.f : 0.f;',
                   lambda c, cs, x, y: c22.peval(c, cs, A, x, y))


def mv_h(i, T, k):
    n = sum(len(A) for _, A in T)
    code = 'algebra g(3, 0, 1); mv m{g}; '
    off = 0
    for j, (b, A) in enumerate(T):
        code += c22.build('p%d' % j, A, off) + 'm.push(%d, p%d); ' % (b, j)
        off += len(A)
    code += 'vt::stream() << m; vt::flush(); ' + tail(n) + 'out[0] = r.mvec(%d); out[1] = r.bad ? 1.f : 0.f;' % k

    def want(c, cs, x, y):
        o = 0
        for b, A in T:
            if b == k:
                return c22.peval(c, cs[o:o + len(A)], A, x, y)
            o += len(A)
        return 0
    return printed('print_mv_%d_%d' % (i, k), n, code, want)


def blade(d):
    code = 'algebra g(%d, 0, 0); uint32_t b = vt::u(in); mv m{g}; poly p; p.push(vt::mk(1, 0)); m.push(b, p); vt::stream() << m; vt::flush(); ' % d
    code += 'uint32_t got = 0; int bad = vt::on < 1 || vt::ok[0] != 120, last = -1, i = 1; if (vt::on > 1) { if (vt::ok[1] != 32 || vt::ok[2] != 101) bad = 1; i = 3; if (i >= vt::on) bad = 1; } '
    code += 'for (; i < vt::on; ++i) { int c = vt::ok[i] - 48; if (c < 0 || c > 9 || c <= last) { bad = 1; break; } last = c; got |= 1u << c; } vt::put(out, (int)got); vt::put(out + 1, bad);'
    return H('print_blade_%d' % d, [('b', 'int')], [('g', 'int'), ('bad', 'int')], code, lambda I, O: [('indices', O['g'][0] == I['b'][0]), ('well formed', O['bad'][0] == 0)],
             raw=True, runner=bv.BitRunner, bpre=lambda I: [z3.ULT(I['b'][0], 1 << d)], nomerge=True, max_paths=5000, cost=20)


def harnesses(tier):
    hs = [poly_h(i, A) for i, A in enumerate(SHAPES)]
    for i, T in enumerate(MVS):
        for k in sorted({b for b, _ in T} | {0, 2}):
            hs.append(mv_h(i, T, k))
    return hs + [blade(d) for d in ((4, 7, 10) if tier == 'quick' else (4, 5, 6, 7, 8, 9, 10))]
