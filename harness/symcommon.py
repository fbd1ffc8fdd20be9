"""shared by the checks of sym/: the sources of the symbolic algebra shell, compiled from the current tree into the harness"""
from common import *
import z3
import bv
from build import REPO

CFGS = ('sym',)
# a sandboxed copy of what libstdc++.so provides out of line, for the encoding only: std::string's members are instantiated
# here, the red-black tree primitives are replaced by ones that keep the same ordering but do not rebalance
FLAGS = ['-std=c++17', '-msse4.2', '-fexceptions', '-I' + REPO + '/sym']


def flags_of(c):
    return FLAGS


LIB = r'''
#include <string>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <map>
#include <vector>
#ifdef __SANITIZE_ADDRESS__
#define VT_WALK
#endif
#ifndef VT_NATIVE
#define VT_WALK
template class std::__cxx11::basic_string<char>;
#endif
// (the sanitised build walks trees by this code too, so that its accesses are checked)
#ifdef VT_WALK
namespace std {
typedef _Rb_tree_node_base* vt_n;
static vt_n vt_next(vt_n x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  vt_n y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
vt_n _Rb_tree_increment(vt_n x) throw () { return vt_next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw () { return vt_next(const_cast<vt_n>(x)); }
vt_n _Rb_tree_decrement(vt_n x) throw () {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { vt_n y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  vt_n y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw () { return _Rb_tree_decrement(const_cast<vt_n>(x)); }
}
#endif
#ifndef VT_NATIVE
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, vt_n x, vt_n p, _Rb_tree_node_base& h) throw () {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
vt_n _Rb_tree_rebalance_for_erase(vt_n const z, _Rb_tree_node_base& h) throw () {
  vt_n y = z, x = 0;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y->_M_color = _S_black; return z;
  }
  if (x) x->_M_parent = y->_M_parent;
  if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
  if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { vt_n m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
  if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { vt_n m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  return y;
}
}
#endif
'''
# what an output stream was sent: characters, and floats as whole items; read back by an independent reader
STREAM = r'''
#include <sstream>
#include <iostream>
namespace vt {
static int ok[256]; static float of[256]; static int on;
static void oc(int c) { if (on < 256) { ok[on] = c; of[on] = 0.f; ++on; } }
static void onum(float f) { if (on < 256) { ok[on] = 256; of[on] = f; ++on; } }
#ifdef VT_NATIVE
static std::ostringstream so;
static std::ostream& stream() { so.str(""); so.precision(9); on = 0; return so; }
static void flush() {
  std::string s = so.str();
  for (size_t i = 0; i < s.size();) {
    bool idx = i && (s[i - 1] == '^' || s[i - 1] == 'e' || (s[i - 1] >= '0' && s[i - 1] <= '9') || (s[i - 1] == '-' && i > 1 && s[i - 2] == '^'));
    if (!idx && s[i] >= '0' && s[i] <= '9') { char* e; onum(std::strtof(s.c_str() + i, &e)); i = e - s.c_str(); }
    else oc((unsigned char)s[i++]);
  }
}
#else
static char raw[64];
static std::ostream& stream() { on = 0; return *(std::ostream*)raw; }
static void flush() {}
static void oint(long i) { if (i < 0) { oc('-'); i = -i; } if (i >= 10) oint(i / 10); oc('0' + (int)(i % 10)); }
#endif
}
#ifndef VT_NATIVE
extern "C" {
std::ostream* vt_alias__ZNSolsEf(std::ostream* o, float f) { vt::onum(f); return o; }
std::ostream* vt_alias__ZNSolsEd(std::ostream* o, double f) { vt::onum((float)f); return o; }
std::ostream* vt_alias__ZNSolsEPFRSoS_E(std::ostream* o, std::ostream& (*m)(std::ostream&)) { if (m != (std::ostream& (*)(std::ostream&))std::flush) vt::oc('\n'); return o; }
std::ostream* vt_alias__ZNSo3putEc(std::ostream* o, char c) { vt::oc((unsigned char)c); return o; }
std::ostream* vt_alias__ZNSo5writeEPKcl(std::ostream* o, const char* s, long n) { for (long i = 0; i < n; ++i) vt::oc((unsigned char)s[i]); return o; }
std::ostream* vt_alias__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(std::ostream* o, const char* s, long n) { for (long i = 0; i < n; ++i) vt::oc((unsigned char)s[i]); return o; }
std::ostream* vt_alias__ZNSolsEi(std::ostream* o, int i) { vt::oint(i); return o; }
std::ostream* vt_alias__ZNSolsEj(std::ostream* o, unsigned i) { vt::oint(i); return o; }
std::ostream* vt_alias__ZNSolsEl(std::ostream* o, long i) { vt::oint(i); return o; }
std::ostream* vt_alias__ZNSolsEm(std::ostream* o, unsigned long i) { vt::oint(i); return o; }
std::ostream* vt_alias__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(std::ostream* o, char c) { vt::oc((unsigned char)c); return o; }
std::ostream* vt_alias__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(std::ostream* o, const char* s) { for (; *s; ++s) vt::oc((unsigned char)*s); return o; }
std::ostream* vt_alias__ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE(std::ostream* o, std::string const* s) { for (size_t i = 0; i != s->size(); ++i) vt::oc((unsigned char)(*s)[i]); return o; }
}
#endif
'''
SYM = LIB + r'''
#include "poly.cpp"
#include "ga.cpp"
'''
ASSUMPTIONS = ['std::map and std::string are the libstdc++ headers; the out-of-line tree primitives are replaced in the encoding by ones that '
               'link and unlink nodes in the same order without rebalancing; isdigit/isspace/isalnum are those of the C locale; strtof is modelled by its value']
