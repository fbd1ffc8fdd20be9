"""C24: the text of an expression is read as the grammar says, or rejected with an error; reading always ends"""
from symcommon import *
import symcommon
flags_of, CFGS = symcommon.flags_of, symcommon.CFGS
ASSUMPTIONS = symcommon.ASSUMPTIONS + [
    'strtof reads digits with at most one point and returns the nearest value',
    'the parser is run on a stand-in multivector that records the operations applied to it, modulo moving signs and reversions out of products; C22 decides the operations themselves',
    'an exception the shell catches (std::runtime_error) counts as a rejection']
BOUNDS = 'texts of up to 3 (thorough 4) arbitrary bytes; numbers and identifiers of up to 36 characters; basis elements of up to 10 indices, more than 5 only as the listed templates; the listed templates of longer texts; token sequences of up to 4 (thorough 5) arbitrary tokens and the listed templates of up to 9 tokens, or of up to 49 (thorough 121) tokens with few of them arbitrary'

PRELUDE = LIB + r'''
#include <stdexcept>
#ifndef VT_NATIVE
extern "C" int isdigit(int c) throw() { return (unsigned)c - 48u < 10u; }
extern "C" int isspace(int c) throw() { return ((unsigned)c - 9u < 5u) | (c == 32); }
extern "C" int isalnum(int c) throw() { return ((unsigned)c - 48u < 10u) | ((unsigned)(c | 32) - 97u < 26u); }
extern "C" int isalpha(int c) throw() { return (unsigned)(c | 32) - 97u < 26u; }
namespace vt { static int plain = 0; }
// digits with at most one point; the value is carried in thousandths (plain: as the number itself, one digit)
extern "C" float strtof(const char* s, char** e) throw() {
  int m = 0, k = 0, dot = 0, i = 0;
  for (;; ++i) {
    int c = s[i];
    if ((unsigned)c - 48u < 10u) { m = (int)((unsigned)m * 10u + ((unsigned)c - 48u)); k += dot; }
    else if (c == '.' && !dot) dot = 1;
    else break;
  }
  *e = (char*)s + i;
  if (vt::plain) { if (m == 2) return 2.f; if (m == 3) return 3.f; return 9.f; }
  for (; k < 3; ++k) m = (int)((unsigned)m * 10u);
  float f; std::memcpy(&f, &m, 4); return f;
}
#endif
#include "poly.cpp"
#include "ga.cpp"
namespace vt {
// a multivector that records what was done to it
enum { CAP = 400 };
struct tmv {
  char s[CAP]; int n; int sign; algebra const* g;
  tmv() : n(0), sign(1), g(0) {}
  tmv(algebra const& a) : n(0), sign(1), g(&a) {}
  void add(char c) { if (n < CAP) s[n++] = c; }
  void add(tmv const& o) { for (int i = 0; i < o.n; ++i) add(o.s[i]); }
  tmv& push(uint32_t e, poly const& p) {
    tmv l; l.add('L'); l.add((char)('A' + e)); 
    if (p.terms.size() != 1) { l.add('Z'); l.add('Z'); }
    else {
      auto& t = *p.terms.begin();
      if (t.first.factors.empty()) l.add('1');
      else if (t.first.factors.size() == 1 && t.first.factors.begin()->first.size() == 1 && t.first.factors.begin()->second == 1) l.add(t.first.factors.begin()->first[0]);
      else l.add('?');
      float f = t.second; if (f < 0.f) { l.sign = -1; f = -f; }
      l.add(f == 1.f ? '1' : f == 2.f ? '2' : f == 3.f ? '3' : '?');
    }
    return *this += l;
  }
  tmv bin(char op, tmv const& o) const { tmv r; r.add(op); r.add(*this); r.add(o); r.sign = sign * o.sign; return r; }
  tmv plus(tmv const& o, int os) const {
    if (n == 0) { tmv r = o; r.sign = os; return r; }
    if (o.n == 0) return *this;
    tmv r; r.sign = sign; r.add('+'); r.add(*this); r.add(os == sign ? 'p' : 'm'); r.add(o); return r;
  }
  tmv operator-() const { tmv r = *this; r.sign = -r.sign; return r; }
  tmv operator~() const { tmv r;
    // a single term: reversion of a blade is a sign
    if (n == 4 && s[0] == 'L') { r = *this; int e = s[1] - 'A'; e = (e & 5) + (e >> 1 & 5); e = (e & 3) + (e >> 2 & 3); if (e & 2) r.sign = -r.sign; return r; } r.sign = sign; int i = 0; if (n && s[0] == '~') i = 1; else r.add('~'); for (; i < n; ++i) r.add(s[i]); return r; }
  tmv& operator+=(tmv const& o) { return *this = plus(o, o.sign); }
  tmv& operator-=(tmv const& o) { return *this = plus(o, -o.sign); }
  tmv& operator*=(tmv const& o) { return *this = bin('*', o); }
  tmv& operator^=(tmv const& o) { return *this = bin('^', o); }
  tmv& operator&=(tmv const& o) { return *this = bin('&', o); }
  tmv& operator|=(tmv const& o) { return *this = bin('|', o); }
  friend tmv operator+(tmv const& a, tmv const& b) { return a.plus(b, b.sign); }
  friend tmv operator-(tmv const& a, tmv const& b) { return a.plus(b, -b.sign); }
  friend tmv operator*(tmv const& a, tmv const& b) { return a.bin('*', b); }
  friend tmv operator^(tmv const& a, tmv const& b) { return a.bin('^', b); }
  friend tmv operator&(tmv const& a, tmv const& b) { return a.bin('&', b); }
  friend tmv operator|(tmv const& a, tmv const& b) { return a.bin('|', b); }
  bool same(tmv const& o) const { if (n != o.n || sign != o.sign) return false; for (int i = 0; i < n; ++i) if (s[i] != o.s[i]) return false; return true; }
};
}
#define mv vt::tmv
#include "parser.cpp"
#undef mv
namespace vt {
static inline uint32_t u(const float* f) { uint32_t i; std::memcpy(&i, f, 4); return i; }
static inline void put(float* o, int32_t v) { std::memcpy(o, &v, 4); }
static int thousandths(float f) {
#ifdef VT_NATIVE
  return (int)std::lrint((double)f * 1000.);
#else
  int i; std::memcpy(&i, &f, 4); return i;
#endif
}
static int payload(token const& t, std::string const& s) {
  switch (t.type) {
  case token_type::element: return (int)(t.e.value + 65536u * t.e.negative);
  case token_type::number: return thousandths(t.num);
  case token_type::identifier: return (int)((t.id.data - s.data()) * 256 + t.id.size);
  case token_type::delimiter: return t.delimiter;
  case token_type::op: return t.op;
  default: return 0;
  }
}
// the grammar, over one character per token: a letter, 2 or 3, e (a basis element; x: with swapped indices), an operator or a parenthesis
struct ref {
  const char* c; const int* x; int n, i; bool bad; algebra const& g;
  tmv leaf(int e, char name, char num) { tmv r; r.add('L'); r.add((char)('A' + e)); r.add(name); r.add(num); return r; }
  tmv factor() {
    bool neg = false, rev = false;
    for (; i < n; ++i) { if (c[i] == '-') neg = !neg; else if (c[i] == '~') rev = !rev; else if (c[i] != '+') break; }
    tmv r;
    if (i == n) { bad = true; return r; }
    char t = c[i++];
    if (t == '(') { r = sum(); if (bad) return r; if (i == n || c[i] != ')') { bad = true; return r; } ++i; }
    else if (t == 'e') { r = elem(i - 1, '1', '1'); }
    else if (t == '2' || t == '3' || (t >= 'a' && t <= 'd')) {
      char name = t >= 'a' ? t : '1', num = t >= 'a' ? '1' : t;
      if (i < n && c[i] == 'e') { r = elem(i, name, num); ++i; } else r = leaf(0, name, num);
    }
    else { bad = true; return r; }
    if (rev) r = ~r;
    if (neg) r = -r;
    return r;
  }
  tmv elem(int k, char name, char num) { tmv r = leaf(x[k] ? 3 : 2, name, num); if (x[k]) r.sign = -1; return r; }
  tmv level(int l) {
    if (l == 4) return factor();
    tmv r = level(l + 1);
    while (!bad && i < n && c[i] == "*^&|"[l]) { ++i; tmv o = level(l + 1); if (bad) break; r = r.bin("*^&|"[l], o); }
    return r;
  }
  tmv sum() {
    tmv r = level(0);
    while (!bad && i < n && (c[i] == '+' || c[i] == '-')) { bool m = c[i] == '-'; ++i; tmv o = level(0); if (bad) break; r = r.plus(o, m ? -o.sign : o.sign); }
    return r;
  }
};
}
'''
T = dict(element=0, number=1, identifier=2, delimiter=3, op=4, eof=5)
V32 = lambda x: z3.BitVecVal(x, 32)
one = lambda c, s: z3.Or([c == ord(x) for x in s])
digit = lambda c: z3.And(z3.UGE(c, 48), z3.ULT(c, 58))
alpha = lambda c: z3.And(z3.UGE(c | 32, 97), z3.ULT(c | 32, 123), z3.ULT(c, 128))
alnum = lambda c: z3.Or(digit(c), alpha(c))
space = lambda c: z3.Or(z3.And(z3.UGE(c, 9), z3.ULT(c, 14)), c == 32)


class Ref:
    """the token list of a text, as terms over its bytes: [count, type0, value0, ..., rejected]"""

    def __init__(self, cs, dim):
        self.c, self.n, self.dim = cs, len(cs), dim
        self.memo = {}

    def err(self):
        return [V32(0)] * (1 + 2 * (self.n + 1)) + [V32(1)]

    def tok(self, k, ty, val, rest):
        r = list(rest)
        ok = rest[-1] == 0
        r[1 + 2 * k] = z3.If(ok, V32(T[ty]), V32(0))
        r[2 + 2 * k] = z3.If(ok, val, V32(0))
        return r

    def sel(self, arms, other):
        r = other
        for c, v in reversed(arms):
            r = [z3.If(c, x, y) for x, y in zip(v, r)]
        return r

    def run(self, i=0, k=0):
        if (i, k) in self.memo:
            return self.memo[i, k]
        end = self.tok(k, 'eof', V32(0), [V32(k + 1)] + [V32(0)] * (2 * (self.n + 1)) + [V32(0)])
        if i == self.n:
            r = end
        else:
            c, C, n = self.c[i], self.c, self.n
            arms = [(space(c), self.run(i + 1, k)), (one(c, '()'), self.tok(k, 'delimiter', c, self.run(i + 1, k + 1))), (c == 0, end),
                    (one(c, '+-~*^&|'), self.tok(k, 'op', c, self.run(i + 1, k + 1)))]
            # numbers: digits, at most one point
            for L in range(1, n - i + 1):
                for d in [None] + list(range(1, L)):
                    g = [c_is for j in range(L) for c_is in [C[i + j] == 46 if j == d else digit(C[i + j])]]
                    if i + L < n:
                        g.append(z3.Not(digit(C[i + L])))
                        if d is None:
                            g.append(C[i + L] != 46)
                    m = V32(0)
                    for j in range(L):
                        if j != d:
                            m = m * 10 + (C[i + j] - 48)
                    m = m * 10 ** (3 - (0 if d is None else L - 1 - d))
                    arms.append((z3.And(g), self.tok(k, 'number', m, self.run(i + L, k + 1))))
            if i + 1 < n:
                for L in range(1, n - i):
                    ds = [C[i + 1 + j] - 48 for j in range(L)]
                    g = [c == ord('e')] + [digit(x + 48) for x in ds] + ([z3.Not(digit(C[i + 1 + L]))] if i + 1 + L < n else [])
                    v, bad = self.element(ds)
                    arms.append((z3.And(g + [bad]), self.err()))
                    arms.append((z3.And(g), self.tok(k, 'element', v, self.run(i + 1 + L, k + 1))))
            for L in range(1, n - i + 1):
                g = [alnum(C[i + j]) for j in range(L)] + ([z3.Not(alnum(C[i + L]))] if i + L < n else [])
                arms.append((z3.And(g), self.tok(k, 'identifier', V32(i * 256 + L), self.run(i + L, k + 1))))
            r = self.sel(arms, self.err())
        self.memo[i, k] = r
        return r

    def element(self, ds):
        v, sign, bad = V32(0), z3.BitVecVal(0, 1), z3.BoolVal(False)
        for j, d in enumerate(ds):
            bad = z3.Or([bad, z3.UGE(d, self.dim)] + [d == e for e in ds[:j]])
            for e in ds[:j]:
                sign = sign ^ z3.If(z3.UGT(e, d), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            v = v | (V32(1) << d)
        return v + z3.If(sign == 1, V32(65536), V32(0)), bad


HEAD = 'char b[%d]; for (int i = 0; i != %d; ++i) b[i] = (char)vt::u(in + i); std::string s(b, %d); algebra g(%d, %d, %d); '
TOK = 'for (int i = 0; i != %d; ++i) vt::put(out + i, 0); try { std::vector<token> t = tokenize(s, g); vt::put(out, (int)t.size()); ' \
      'for (int i = 0; i != (int)t.size() && i != %d; ++i) { vt::put(out + 1 + 2 * i, (int)t[i].type); vt::put(out + 2 + 2 * i, vt::payload(t[i], s)); } } ' \
      'catch (std::runtime_error const&) { vt::put(out + %d, 1); }'


def tok(name, n, pre, sig=(3, 0, 1), **kw):
    nt = n + 1
    outs = [('n', 'int')] + [(x % i, 'int') for i in range(nt) for x in ('t%d', 'v%d')] + [('rejected', 'int')]

    def spec(I, O):
        want = Ref([I['c%d' % i][0] for i in range(n)], sum(sig)).run()
        rej = want[-1]
        return [('rejected', O['rejected'][0] == rej)] + [(v, O[v][0] == w) for (v, e), w in list(zip(outs, want))[:-1]]
    return H(name, [('c%d' % i, 'int') for i in range(n)], outs, HEAD % ((n + 1, n, n) + sig) + TOK % (len(outs), nt, len(outs) - 1), spec, raw=True,
             runner=bv.BitRunner, bpre=pre, nomerge=True, max_paths=20000, max_steps=60000, **kw)


def line(name, tpl, sig=(3, 0, 1), **kw):
    """a longer text: '?' is an arbitrary byte, '%' a digit, everything else stands for itself"""
    n = len(tpl)
    free = [i for i in range(n) if tpl[i] in '?%']
    outs = [('n', 'int')] + [(x % i, 'int') for i in range(n + 1) for x in ('t%d', 'v%d')] + [('rejected', 'int')]
    code = 'static const char fix[] = "%s"; float in_[%d]; for (int i = 0; i != %d; ++i) vt::put(in_ + i, fix[i]); ' % (tpl.replace('?', 'a').replace('\n', '\\n').replace('\t', '\\t'), n, n) + \
        ''.join('in_[%d] = in[%d]; ' % (i, k) for k, i in enumerate(free)) + HEAD.replace('u(in + i)', 'u(in_ + i)') % ((n + 1, n, n) + sig) + TOK % (len(outs), n + 1, len(outs) - 1)

    def spec(I, O):
        want = [z3.simplify(w) for w in Ref([I['c%d' % i][0] if i in free else V32(ord(tpl[i])) for i in range(n)], sum(sig)).run()]
        rej = want[-1]
        return [('rejected', O['rejected'][0] == rej)] + [(v, O[v][0] == w) for (v, e), w in list(zip(outs, want))[:-1]]
    return H(name, [('c%d' % i, 'int') for i in free], outs, code, spec, raw=True, runner=bv.BitRunner, bpre=lambda I: [z3.ULT(I['c%d' % i][0], 256) if tpl[i] == '?' else digit(I['c%d' % i][0]) for i in free],
             nomerge=True, max_paths=20000, max_steps=100000, **kw)


LINES = ['?' + ' ' * 8 + 'a', 'a  \t?', 'ab?cd', '12?34', 'e12?', 'e1?2', '3e1?', 'x1?+2', '(a?b)', '1.5?2', '2.?', 'e?a', '?e12', 'a?e12', '+-~*^&|?', 'abc?', 'e01?e2', '%.%%%', '%%%.%', 'a%b', 'e%e%', 'a e%', '2e%%']
LONG = ['e12345678%', 'e8765432%%', 'e%1%', 'e03%%']


def byte(I, n):
    return [z3.ULT(I['c%d' % i][0], 256) for i in range(n)]


FIRST = [('sp', lambda c: z3.Or(space(c), c == 0)), ('op', lambda c: one(c, '()+-~*^&|')), ('num', digit), ('e', lambda c: c == ord('e')),
         ('id', lambda c: z3.And(alpha(c), c != ord('e')))]
FIRST.append(('other', lambda c: z3.Not(z3.Or([f(c) for _, f in FIRST[:5]]))))


def text(n):
    if n < 3:
        return [tok('text_%d' % n, n, lambda I: byte(I, n), cost=5)]
    return [tok('text_%d_%s_%s' % (n, a, b), n, (lambda f, g: lambda I: byte(I, n) + [f(I['c0'][0]), g(I['c1'][0])])(f, g), cost=10 ** (n - 2)) for a, f in FIRST for b, g in FIRST]


def element(n, sig):
    return tok('element_%d_%d_%d_%d' % ((n,) + sig), n + 1, lambda I: [I['c0'][0] == ord('e')] + [digit(I['c%d' % i][0]) for i in range(1, n + 1)], sig, cost=20)


def rejecting(name, n, code, pre, spec, **kw):
    return H(name, [('c%d' % i, 'int') for i in range(n)], [('n', 'int'), ('t', 'int'), ('v', 'int'), ('rejected', 'int')],
             HEAD % (n + 1, n, n, 3, 0, 1) + 'for (int i = 0; i != 4; ++i) vt::put(out + i, 0); try { std::vector<token> t = tokenize(s, g); vt::put(out, (int)t.size()); vt::put(out + 1, (int)t[0].type); ' + code +
             ' } catch (std::runtime_error const&) { for (int i = 0; i != 3; ++i) vt::put(out + i, 0); vt::put(out + 3, 1); }', spec, raw=True, runner=bv.BitRunner, bpre=pre, nomerge=True, max_steps=200000, **kw)


def digits(n, dot=None):
    """long runs of digits, one point at most: one number token, or an error when there are more characters than the reader takes"""
    def spec(I, O):
        one = z3.And(O['rejected'][0] == 0, O['n'][0] == 2, O['t'][0] == T['number'])
        return [('a number, or rejected for its length', one if n <= 32 else z3.Or(one, O['rejected'][0] == 1))]
    return rejecting('digits_%d%s' % (n, '' if dot is None else '_%d' % dot), n, '', lambda I: [I['c%d' % i][0] == 46 if i == dot else digit(I['c%d' % i][0]) for i in range(n)], spec)


def letters(n):
    return rejecting('letters_%d' % n, n, 'vt::put(out + 2, vt::payload(t[0], s));',
                     lambda I: [z3.And(alpha(I['c0'][0]), I['c0'][0] != ord('e'))] + [alnum(I['c%d' % i][0]) for i in range(1, n)],
                     lambda I, O: [('one identifier', z3.And(O['rejected'][0] == 0, O['n'][0] == 2, O['t'][0] == T['identifier'], O['v'][0] == n))])


# ------------------------------------------------------------------ the parser
ALPHA = {'A': 'abcd', 'N': '23', 'E': 'e', 'o': '+-*^&|', 'u': '+-~', '(': '(', ')': ')', '?': 'abcd2e+-~*^&|()', 'O': 'a2e', 'w': '+-~(', 'p': '|&', 'q': '^*', 's': '+-', 'm': '*^&|'}
ALPHA['~'] = '~'
ALPHA['e'] = 'e~'

# long expressions: lower-case letters, digits and operators stand for themselves ('e' is also '~')
_CH = 'a*b+c^d&a|b-c*d^a|b&c+d'
DEEP = ['(' * 24 + 'A' + ')' * 24, '(' * 24 + 'A' + ')' * 23, '(' * 23 + 'A' + ')' * 24, '-' * 15 + 'uA', 'u' + '~' * 15 + 'A', '(-' * 10 + 'A' + ')' * 10, '-(~(' * 5 + 'a+A' + '))' * 5,
        '+'.join('abcd' * 5) + 'oA', '-'.join('abcd' * 5) + 'oE', '*'.join('abcd' * 3) + 'oA', 'aoA' + '|' + '&'.join('abcd' * 3), 'a' + 'oa' * 2 + '+b' * 8, 'a' + '^b' * 8 + 'oaoa', '2E' + '+2E' * 6,
        'u2E' + '-3' * 12 + 'oA', '(a+b)' + '*(c-d)' * 4 + 'oA', 'a+' * 12 + ')', 'a' * 12 + 'A', 'a+b' * 6, '(a+b' * 6 + 'A']
DEEP += [_CH[:k] + 'o' + _CH[k + 1:] for k in range(1, len(_CH), 2)] + [_CH[:k] + 'u' + _CH[k:] for k in range(0, len(_CH), 2)]
DEEP2 = ['(' * 60 + 'A' + ')' * 60, '+'.join('abcd' * 15) + 'oA'] + [_CH[:k] + 'o' + _CH[k + 1:l] + 'o' + _CH[l + 1:] for k in range(1, len(_CH), 2) for l in range(k + 4, len(_CH), 6)]
DEEP2 += [_CH[:k] + '(' + _CH[k:l + 1] + ')' + 'o' + _CH[l + 2:] for k in range(0, len(_CH), 4) for l in range(k + 2, len(_CH) - 2, 6)]


def parse(name, tpl, **kw):
    """tpl: one alphabet per token; letters are distinct by position"""
    n = len(tpl)
    code = 'char c[%d], b[%d]; int x[%d]; for (int i = 0; i != %d; ++i) { c[i] = (char)vt::u(in + 2 * i); x[i] = (int)vt::u(in + 2 * i + 1); ' % (n, 4 * n + 1, n, n)
    # "e1  " or "e10 ": the second has swapped indices
    code += 'int e = c[i] == 101; b[4 * i] = c[i]; b[4 * i + 1] = (char)(32 + 17 * e); b[4 * i + 2] = (char)(32 + 16 * (e & x[i])); b[4 * i + 3] = 32; } '
    code += '''
#ifndef VT_NATIVE
  vt::plain = 1;
#endif
  std::string s(b, %d); algebra g(3, 0, 1); vt::put(out + 1, 0); vt::put(out + 2, 0);
  vt::tmv got;
  try { got = parse(s, g); } catch (std::runtime_error const&) { vt::put(out + 2, 1); }
  vt::ref r{c, x, %d, 0, false, g}; vt::tmv want = r.sum(); bool ok = !r.bad && r.i == %d; vt::put(out, ok ? 1 : 0); vt::put(out + 1, ok && got.same(want) ? 1 : 0);''' % (4 * n, n, n)
    # what the template fixes is no input
    al = [ALPHA.get(t, t).replace('abcd', 'abcd'[i % 4]) for i, t in enumerate(tpl)]
    free = [i for i in range(n) if len(al[i]) > 1 or al[i] == 'e']
    code = 'static const char fix[] = "%s"; float in_[%d]; for (int i = 0; i != %d; ++i) { vt::put(in_ + 2 * i, fix[i]); vt::put(in_ + 2 * i + 1, 0); } ' % (''.join(a[0] for a in al), 2 * n, n) + \
        ''.join('in_[%d] = in[%d]; in_[%d] = in[%d]; ' % (2 * i, 2 * k, 2 * i + 1, 2 * k + 1) for k, i in enumerate(free)) + code.replace('vt::u(in + ', 'vt::u(in_ + ')
    ins = [(v % i, 'int') for i in free for v in ('c%d', 'x%d')]

    def pre(I):
        r = []
        for i in free:
            c = I['c%d' % i][0]
            r.append(one(c, al[i]))
            x = I['x%d' % i][0]
            r.append(z3.And(z3.ULT(x, 2), z3.Or(x == 0, c == ord('e'))) if 'e' in al[i] else x == 0)
        return r

    def spec(I, O):
        return [('accepted exactly when it is an expression', (O['ok'][0] == 1) == (O['rejected'][0] == 0)),
                ('operations in the order of the grammar', z3.Implies(O['ok'][0] == 1, O['same'][0] == 1))]
    return H(name, ins, [('ok', 'int'), ('same', 'int'), ('rejected', 'int')], code, spec, raw=True, runner=bv.BitRunner, bpre=pre, nomerge=True,
             max_paths=40000, max_steps=400000, **kw)


def harnesses(tier):
    th = tier == 'thorough'
    hs = text(0) + text(1) + text(2) + text(3)
    if th:
        hs += text(4)
    for sig in [(3, 0, 1), (2, 0, 0), (8, 0, 1), (4, 4, 2)]:
        for n in (1, 2, 3) + ((4,) if sum(sig) < 6 or th else ()) + ((5,) if th and sum(sig) == 4 else ()):
            hs.append(element(n, sig))
    for n in (5, 16, 31, 32, 33, 34, 36):
        hs.append(digits(n))
    hs += [digits(32, 1), digits(33, 16), digits(34, 33)]
    hs += [letters(n) for n in (4, 16, 36)]
    hs += [line('line_%d' % i, t, cost=20) for i, t in enumerate(LINES)] + [line('blade_%d' % i, t, (8, 0, 1), cost=20) for i, t in enumerate(LONG)]
    # every token sequence
    for n in (1, 2, 3):
        hs.append(parse('tokens_%d' % n, '?' * n, cost=5))
    firsts = ['O', 'u', '(', 'm', ')']
    for n in (4, 5) if th else (4,):
        for i, a in enumerate(firsts):
            for j, b in enumerate(['O', 'o', 'u', '(', ')']):
                if b == 'u':
                    continue
                for k, c in enumerate('AoNu(e)' if (a, b) in (('O', 'o'), ('u', 'O')) else '?'):
                    if c == 'u':
                        continue
                    hs.append(parse('tokens_%d_%d%d%d' % (n, i, j, k), a + b + c + '?' * (n - 3), cost=10 ** (n - 2)))
            hs.append(parse('tokens_%d_%dr' % (n, i), a + '~' + '?' * (n - 2), cost=10 ** (n - 2)))
    for i, t in enumerate(['AoAoA', 'AoAoAoA', 'uAouAoA', 'AouAouA', '(AoA)oA', 'Ao(AoA)', 'AoAo(AoA)', 'u(AoA)oA', 'Aou(AoA)', 'u(u(AoA))', '((AoA)oA)', '(AoAoA)', 'OEoOE', 'uNEoAE', 'AoNEoE', 'uuuE',
                           'uuuA', '(AoA)(AoA)', 'AoA)oA', '(AoAoA', 'Ao(AoA', 'AoAA', 'NAoA', 'EEoA', 'E(AoA)'] + (['AoAoAoAoA', 'uAouAouA', 'u(uAouA)ouA', '(AoA)o(AoA)', '((AoA)o(A))'] if th else [])):
        hs.append(parse('template_%d' % i, t, cost=30))
    for i, t in enumerate(DEEP + (DEEP2 if th else [])):
        hs.append(parse('deep_%d' % i, t, cost=60))
    return hs
