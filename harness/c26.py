"""C26: the shell answers every line of its input as documented, and only the end of the input ends it"""
from symcommon import *
import symcommon
flags_of, CFGS = symcommon.flags_of, symcommon.CFGS
ASSUMPTIONS = symcommon.ASSUMPTIONS + ['standard input and output are byte streams (std::getline splits at line feeds)',
                                       'in the encoding, evaluating a line is a stand-in that accepts or rejects it at will (C21 to C25 decide what it does); the replay evaluates the line']
BOUNDS = 'sessions of up to 4 (thorough 5) arbitrary bytes, line feeds included, each line accepted or rejected by the evaluator independently; the listed templates of longer lines and of up to seven lines'
PRELUDE = LIB + r'''
#include <iostream>
#include <sstream>
#include <stdexcept>
#ifndef VT_NATIVE
extern "C" int isdigit(int c) throw() { return (unsigned)c - 48u < 10u; }
extern "C" int isspace(int c) throw() { return ((unsigned)c - 9u < 5u) | (c == 32); }
#endif
#include "ga.hpp"
#include "parser.hpp"
#include "repl.cpp"
#ifdef VT_NATIVE
#include "poly.cpp"
#include "ga.cpp"
#include "parser.cpp"
#endif
namespace vt {
static inline uint32_t u(const float* f) { uint32_t i; std::memcpy(&i, f, 4); return i; }
static inline void put(float* o, int32_t v) { std::memcpy(o, &v, 4); }
static char src[96], dst[192], exp_[192]; static int nsrc, pos, nd, ne, rejects, calls, foreign, told, rejected;
static void d(int c) { if (nd < 192) dst[nd++] = (char)c; }
static void x(int c) { if (ne < 192) exp_[ne++] = (char)c; }
static bool sp(int c) { return c == 32 || (c >= 9 && c <= 13); }
#ifdef VT_NATIVE
static std::string err; static size_t at;
static void eval(const char* s, int n, int k) {
  try { algebra a{3, 0, 1}; std::ostringstream o; mv m = parse(std::string(s, n), a); o << m << '\n'; for (char c : o.str()) x(c); } catch (std::runtime_error const& e) { ++rejected; size_t p = err.find(e.what(), at); if (p != std::string::npos) { ++told; at = p + std::strlen(e.what()); } }
}
static void session() {
  std::istringstream i(std::string(src, nsrc)); std::ostringstream o, e;
  auto* pi = std::cin.rdbuf(i.rdbuf()); auto* po = std::cout.rdbuf(o.rdbuf()); auto* pe = std::cerr.rdbuf(e.rdbuf());
  std::cin.clear();
  repl r; r.run();
  std::cin.rdbuf(pi); std::cout.rdbuf(po); std::cerr.rdbuf(pe);
  for (char c : o.str()) d(c);
  err = e.str(); at = 0;
}
#else
static void eval(const char* s, int n, int k) { if (rejects >> k & 1) { ++rejected; return; } x(1); for (int i = 0; i < n; ++i) x(s[i]); x(2); x('\n'); }
static void session() { repl r; r.run(); }
static char last[96]; static int nlast;
// a stream object as the ABI lays it out: the virtual base (the state) at offset 0
static bool eof = false;
static long vtab[4] = {0, 0, 0, 0};
static struct { void* vp; long pad[4]; bool good; } is = {vtab + 3, {0, 0, 0, 0}, true};
static void outc(std::ostream* o, int c) { if (o == &std::cout) d(c); else if (o == &std::cerr) told += c == 3; else foreign = 1; }
static void nop(void*) {}
static const char* what(void*) { return "\3"; }
static void* retab[3] = {(void*)nop, (void*)nop, (void*)what};
#endif
// the documented behaviour: blank lines give a blank line, comments are echoed, commands print nothing, the rest is evaluated
static void expected() {
  int i = 0, k = 0;
  while (i < nsrc) {
    int j = i; while (j < nsrc && src[j] != '\n') ++j;
    int f = i; while (f < j && sp((unsigned char)src[f])) ++f;
    if (f == j) x('\n');
    else if (src[f] == '#') { for (int q = i; q < j; ++q) x(src[q]); x('\n'); }
    else if (src[f] != '.') eval(src + i, j - i, k++);
    i = j + 1;
  }
}
}
#ifndef VT_NATIVE
extern "C" {
std::istream* vt_alias__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE(std::istream* s, std::string* l) {
  if (!vt::is.good || vt::eof) { vt::is.good = false; return (std::istream*)&vt::is; }
  l->clear();
  if (vt::pos >= vt::nsrc) { vt::eof = true; vt::is.good = false; return (std::istream*)&vt::is; }
  while (vt::pos < vt::nsrc && vt::src[vt::pos] != '\n') l->push_back(vt::src[vt::pos++]);
  if (vt::pos >= vt::nsrc) vt::eof = true; else ++vt::pos;
  return (std::istream*)&vt::is;
}
std::istream* vt_alias__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(std::istream* s, std::string* l, char d) {
  if (d != '\n') vt::foreign = 1;
  return vt_alias__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE(s, l);
}
bool vt_alias__ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv(void*) { return vt::is.good; }
bool vt_alias__ZNKSt9basic_iosIcSt11char_traitsIcEEntEv(void*) { return !vt::is.good; }
void vt_alias__ZNSt13runtime_errorC1EPKc(void* self, const char*) { *(void**)self = vt::retab; }
void vt_alias__ZNSt13runtime_errorD1Ev(void*) {}
void vt_alias__Z5parseRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERK7algebra(mv* r, std::string const* s, algebra const* a) {
  int k = vt::calls++;
  if (vt::rejects >> k & 1) throw std::runtime_error("E");
  new (r) mv(*a);
  vt::nlast = 0;
  for (size_t i = 0; i != s->size() && i < 96; ++i) vt::last[vt::nlast++] = (*s)[i];
}
std::ostream* vt_alias__ZlsRSoRK2mv(std::ostream* o, mv const*) { vt::outc(o, 1); for (int i = 0; i < vt::nlast; ++i) vt::outc(o, vt::last[i]); vt::outc(o, 2); return o; }
void vt_alias__ZN7algebraC1Ejjj(algebra* a, unsigned p, unsigned q, unsigned r) { if (p != 3 || q != 0 || r != 1) vt::foreign = 1; std::memset((void*)a, 0, sizeof *a); }
void vt_alias__ZN2mvC1ERK7algebra(mv* m, algebra const* a) { new (m) mv(); }
std::ostream* vt_alias__ZNSolsEPFRSoS_E(std::ostream* o, std::ostream& (*m)(std::ostream&)) {
  if (m == (std::ostream& (*)(std::ostream&))std::endl) vt::outc(o, '\n'); else if (m != (std::ostream& (*)(std::ostream&))std::flush) vt::foreign = 1;
  return o;
}
std::ostream* vt_alias__ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(std::ostream* o) { vt::outc(o, '\n'); return o; }
std::ostream* vt_alias__ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(std::ostream* o) { return o; }
std::ostream* vt_alias__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(std::ostream* o, const char* s, long n) { for (long i = 0; i < n; ++i) vt::outc(o, s[i]); return o; }
std::ostream* vt_alias__ZNSo5writeEPKcl(std::ostream* o, const char* s, long n) { for (long i = 0; i < n; ++i) vt::outc(o, s[i]); return o; }
bool vt_alias__ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv(void*) { return !vt::is.good; }
bool vt_alias__ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv(void*) { return vt::eof; }
bool vt_alias__ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv(void*) { return vt::is.good && !vt::eof; }
std::ostream* vt_alias__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(std::ostream* o, char c) { vt::outc(o, c); return o; }
std::ostream* vt_alias__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(std::ostream* o, const char* s) { for (; *s; ++s) vt::outc(o, *s); return o; }
std::ostream* vt_alias__ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE(std::ostream* o, std::string const* s) { for (size_t i = 0; i != s->size(); ++i) vt::outc(o, (*s)[i]); return o; }
std::ostream* vt_alias__ZNSo3putEc(std::ostream* o, char c) { vt::outc(o, c); return o; }
std::ostream* vt_alias__ZNSo5flushEv(std::ostream* o) { return o; }
}
#endif
'''


def session(name, n, pre, **kw):
    code = '''vt::nsrc = %d; vt::pos = vt::nd = vt::ne = vt::calls = vt::foreign = vt::told = vt::rejected = 0; vt::rejects = (int)vt::u(in + %d);
  for (int i = 0; i != %d; ++i) vt::src[i] = (char)vt::u(in + i);
  vt::session(); vt::expected();
  int same = vt::nd == vt::ne && !vt::foreign; for (int i = 0; i < vt::nd && i < vt::ne; ++i) same &= vt::dst[i] == vt::exp_[i];
  vt::put(out, same); vt::put(out + 1, vt::nd); vt::put(out + 2, vt::ne); vt::put(out + 3, vt::told == vt::rejected);''' % (n, n, n)

    def spec(I, O):
        return [('documented output', O['same'][0] == 1), ('documented length', O['n'][0] == O['m'][0]), ('an error message for every rejected line', O['told'][0] == 1)]
    return H(name, [('c%d' % i, 'int') for i in range(n)] + [('r', 'int')], [('same', 'int'), ('n', 'int'), ('m', 'int'), ('told', 'int')], code, spec, raw=True, runner=bv.BitRunner,
             bpre=lambda I: [z3.ULT(I['c%d' % i][0], 256) for i in range(n)] + [z3.ULT(I['r'][0], 1 << max(1, (n + 1) // 2))] + pre([I['c%d' % i][0] for i in range(n)]),
             nomerge=True, max_paths=40000, max_steps=200000, novalidate=True, prefer=lambda I: [z3.And([z3.Or([I['c%d' % i][0] == ord(x) for x in al]) for i in range(n)]) for al in ('\n #.a', '\n #.1', '\n #.%', '\n #.a1')], **kw)


one = lambda c, s: z3.Or([c == ord(x) for x in s])
TEMPLATES = ['?\n?\n?', '!\n!\n!\n!', '!!\n!!\n!', '$$$$$$', '.break\n!\n!', '!\n.break\n.break\n!', '________!a', '#__a?.', 'a' * 40 + '?', '#' * 30 + '?' * 2, '\n' * 20 + '?', 'a\n' * 5 + '!\n!',
             '!\n!\n!\n!\n!', '?\n?\n?\n?', '$$$$$$$', '_' * 30 + '?', '_?\n_?\n?', '.?\n?\n#?']
KINDS = [('nl', lambda c: c == 10), ('sp', lambda c: z3.Or(z3.And(z3.UGE(c, 9), z3.ULT(c, 14), c != 10), c == 32)), ('hash', lambda c: c == 35), ('dot', lambda c: c == 46)]
KINDS.append(('other', lambda c: z3.Not(z3.Or([f(c) for _, f in KINDS[:4]]))))


def harnesses(tier):
    hs = [session('session_%d' % n, n, lambda c: []) for n in (0, 1, 2)]
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        for a, f in KINDS:
            for b, g in KINDS:
                hs.append(session('session_%d_%s_%s' % (n, a, b), n, (lambda f, g: lambda c: [f(c[0]), g(c[1])])(f, g), cost=5 ** (n - 2)))
    # longer sessions: '?' is an arbitrary byte within the line, '_' any white space, '!' one of a comment, a command, an expression
    for i, t in enumerate(TEMPLATES[:None if tier != 'quick' else 12]):
        hs.append(session('lines_%d' % i, len(t), (lambda t: lambda c: [
            c[k] != 10 if x == '?' else z3.Or(c[k] == 32, c[k] == 9, c[k] == 13) if x == '_' else one(c[k], '#.a%') if x == '!' else one(c[k], '#.a%\n') if x == '$' else c[k] == ord(x)
            for k, x in enumerate(t)])(t), cost=40))
    # the one command
    hs.append(session('command', 10, lambda c: [c[i] == ord(x) for i, x in enumerate('a\n.break\n')] + [z3.Or(c[9] == 98, c[9] == 10, c[9] == 32)]))
    return hs
