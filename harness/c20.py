"""C20: every shader routine computes the same product or action as the algebra"""
from common import *
import build as B

SHIM = r'''
#include <cmath>
#include "%s/test/glsl_shim.hpp"
#include "%s/glsl/klein.glsl"
#undef in
#undef out
#include <cstring>
namespace vt {
template <class T> struct io;
struct gv { static vec4 ld(const float* f) { return vec4(f[0], f[1], f[2], f[3]); } static void st(float* o, vec4 const& v) { for (int i = 0; i != 4; ++i) o[i] = v.data[i]; } };
template <> struct io<kln_plane> { static kln_plane ld(const float* f) { kln_plane r; r.p0 = gv::ld(f); return r; } static void st(float* o, kln_plane const& r) { gv::st(o, r.p0); } };
template <> struct io<kln_point> { static kln_point ld(const float* f) { kln_point r; r.p3 = gv::ld(f); return r; } static void st(float* o, kln_point const& r) { gv::st(o, r.p3); } };
template <> struct io<kln_rotor> { static kln_rotor ld(const float* f) { kln_rotor r; r.p1 = gv::ld(f); return r; } static void st(float* o, kln_rotor const& r) { gv::st(o, r.p1); } };
template <> struct io<kln_translator> { static kln_translator ld(const float* f) { kln_translator r; r.p2 = gv::ld(f); return r; } static void st(float* o, kln_translator const& r) { gv::st(o, r.p2); } };
template <> struct io<kln_motor> { static kln_motor ld(const float* f) { kln_motor r; r.p1 = gv::ld(f); r.p2 = gv::ld(f + 4); return r; } static void st(float* o, kln_motor const& r) { gv::st(o, r.p1); gv::st(o + 4, r.p2); } };
template <class T> static T ld(const float* f) { return io<T>::ld(f); }
template <class T> static void st(float* o, T const& r) { io<T>::st(o, r); }
}
typedef kln_plane plane; typedef kln_point point; typedef kln_rotor rotor; typedef kln_translator translator; typedef kln_motor motor;
''' % (B.REPO, B.REPO)
PRELUDE = SHIM
CFGS = ['sse3']
ASSUMPTIONS = ['GLSL is executed through the repository\'s own C++ shim (vec4 with swizzles), as its test suite does; a GPU compiler is outside the claim']


def harnesses(tier):
    hs = []
    for a in ('rotor', 'translator', 'motor'):
        hs.append(bin_gp('glsl_mul_%s' % a, a, a, a, op='*', fn=lambda x, y: x * y))
        h = hs[-1]
        h.code = '%s r = kln_mul(a, b);' % a
    for m in ('rotor', 'motor'):
        for x in ('plane', 'point'):
            def spec(c, I, O, m=m, x=x):
                M, X = mv(m, I['m']), mv(x, I['x'])
                eqlanes(c, x, O['r'], M * X * M.rev())
            hs.append(H('glsl_%s_%s' % (m, x), [('m', m), ('x', x)], [('r', x)], '%s r = kln_apply(m, x);' % x, spec))

    from c05 import motor_param
    def org(c, I, O):
        M = mv('motor', I['m'])
        w = M * MV.from_named({'e123': c.P(1)}) * M.rev()
        for i, n in enumerate(LANES['p3']):
            c.eq(n, O['r'][i], c.reduce(w.get(n, c.P(0))))
    hs.append(H('glsl_motor_origin', [('m', 'motor')], [('r', 'point')], 'point r = kln_apply(m);', org, param=motor_param()))
    return hs
