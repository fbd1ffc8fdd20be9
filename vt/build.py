"""Generates harness translation units and compiles them from /repo's current tree.

IR:     clang++ -O0 -emit-llvm with exactly the flags/definitions of the three library targets
native: g++ (the repo's compiler) for replaying counterexamples
"""
import hashlib
import os
import subprocess
import sys

REPO = os.environ.get('VT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')

SIMDE = '/usr/include/simde'
CONFIGS = {
    'sse3': ['-std=c++17', '-msse3', '-DKLEIN_USE_SIMDE', '-I' + REPO + '/public', '-isystem', SIMDE],
    'sse41': ['-std=c++17', '-msse4.1', '-DKLEIN_SSE_4_1', '-DKLEIN_USE_SIMDE', '-I' + REPO + '/public', '-isystem', SIMDE],
    'cxx11': ['-std=c++11', '-msse3', '-DKLEIN_USE_SIMDE', '-I' + REPO + '/public', '-isystem', SIMDE],
    'cxx11sse41': ['-std=c++11', '-msse4.1', '-DKLEIN_SSE_4_1', '-DKLEIN_USE_SIMDE', '-I' + REPO + '/public', '-isystem', SIMDE],
    # the library without SIMDE (plain x86 intrinsic headers), also documented
    'native': ['-std=c++17', '-msse3', '-I' + REPO + '/public'],
}
MAIN3 = ('sse3', 'sse41', 'cxx11', 'cxx11sse41')

CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
GXX = '/usr/bin/g++'

# entity -> (number of floats, C++ type)
ENT = {
    'plane': 4, 'point': 4, 'direction': 4, 'line': 8, 'branch': 4, 'ideal_line': 4, 'rotor': 4, 'translator': 4,
    'motor': 8, 'dual': 2, 'float': 1, 'mat3x4': 16, 'mat4x4': 16, 'v4': 4, 'euler_angles': 3, 'bool': 1, 'v8': 8, 'v3': 3, 'v2': 2,
    'int': 1,
}

PRELUDE = r'''
#include <klein/klein.hpp>
#include <cstring>
#include <cstdlib>
using namespace kln;
namespace vt {
static inline void st4(float* o, __m128 x) { float t[4]; _mm_storeu_ps(t, x); for (int i = 0; i != 4; ++i) o[i] = t[i]; }
template <class T> struct io;
template <> struct io<plane> { static plane ld(const float* f) { plane r; r.p0_ = _mm_loadu_ps(f); return r; } static void st(float* o, plane r) { st4(o, r.p0_); } };
template <> struct io<point> { static point ld(const float* f) { point r; r.p3_ = _mm_loadu_ps(f); return r; } static void st(float* o, point r) { st4(o, r.p3_); } };
template <> struct io<direction> { static direction ld(const float* f) { direction r; r.p3_ = _mm_loadu_ps(f); return r; } static void st(float* o, direction r) { st4(o, r.p3_); } };
template <> struct io<line> { static line ld(const float* f) { line r; r.p1_ = _mm_loadu_ps(f); r.p2_ = _mm_loadu_ps(f + 4); return r; } static void st(float* o, line r) { st4(o, r.p1_); st4(o + 4, r.p2_); } };
template <> struct io<branch> { static branch ld(const float* f) { branch r; r.p1_ = _mm_loadu_ps(f); return r; } static void st(float* o, branch r) { st4(o, r.p1_); } };
template <> struct io<ideal_line> { static ideal_line ld(const float* f) { ideal_line r; r.p2_ = _mm_loadu_ps(f); return r; } static void st(float* o, ideal_line r) { st4(o, r.p2_); } };
template <> struct io<rotor> { static rotor ld(const float* f) { rotor r; r.p1_ = _mm_loadu_ps(f); return r; } static void st(float* o, rotor r) { st4(o, r.p1_); } };
template <> struct io<translator> { static translator ld(const float* f) { translator r; r.p2_ = _mm_loadu_ps(f); return r; } static void st(float* o, translator r) { st4(o, r.p2_); } };
template <> struct io<motor> { static motor ld(const float* f) { motor r; r.p1_ = _mm_loadu_ps(f); r.p2_ = _mm_loadu_ps(f + 4); return r; } static void st(float* o, motor r) { st4(o, r.p1_); st4(o + 4, r.p2_); } };
template <> struct io<dual> { static dual ld(const float* f) { dual r; r.p = f[0]; r.q = f[1]; return r; } static void st(float* o, dual r) { o[0] = r.p; o[1] = r.q; } };
template <> struct io<float> { static float ld(const float* f) { return f[0]; } static void st(float* o, float r) { o[0] = r; } };
template <> struct io<bool> { static void st(float* o, bool r) { o[0] = r ? 1.f : 0.f; } };
template <> struct io<int> { static int ld(const float* f) { int i; std::memcpy(&i, f, 4); return i; } };
template <> struct io<mat3x4> { static void st(float* o, mat3x4 const& r) { for (int i = 0; i != 4; ++i) st4(o + 4 * i, r.cols[i]); } };
template <> struct io<mat4x4> { static void st(float* o, mat4x4 const& r) { for (int i = 0; i != 4; ++i) st4(o + 4 * i, r.cols[i]); } };
template <> struct io<__m128> { static __m128 ld(const float* f) { return _mm_loadu_ps(f); } static void st(float* o, __m128 r) { st4(o, r); } };
template <> struct io<euler_angles> { static euler_angles ld(const float* f) { euler_angles e; e.roll = f[0]; e.pitch = f[1]; e.yaw = f[2]; return e; } static void st(float* o, euler_angles e) { o[0] = e.roll; o[1] = e.pitch; o[2] = e.yaw; } };
template <class T> static T ld(const float* f) { return io<T>::ld(f); }
template <class T> static void st(float* o, T const& r) { io<T>::st(o, r); }
}
'''


def ctype(t):
    return {'v4': '__m128'}.get(t, t)


class H:
    """one harness: C++ body over the public API + where its inputs/outputs live"""

    def __init__(self, name, ins, outs, code, spec=None, raw=False, **kw):
        self.name = name
        self.ins = ins      # list of (varname, entity)
        self.outs = outs    # list of (varname, entity)
        self.code = code
        self.spec = spec
        self.raw = raw      # code is a full function body using in/out directly
        self.kw = kw

    def nin(self):
        return sum(ENT[e] for _, e in self.ins)

    def nout(self):
        return sum(ENT[e] for _, e in self.outs)

    def cpp(self):
        s = 'extern "C" void %s(float* in, float* out) {\n' % self.name
        off = 0
        if not self.raw:
            for v, e in self.ins:
                s += '  %s %s = vt::ld<%s>(in + %d);\n' % (ctype(e), v, ctype(e), off)
                off += ENT[e]
        s += '  ' + self.code + '\n'
        off = 0
        if not self.raw:
            for v, e in self.outs:
                s += '  vt::st<%s>(out + %d, %s);\n' % (ctype(e), off, v)
                off += ENT[e]
        return s + '}\n'


DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
extern "C" __attribute__((noinline)) void vt_scribble(int pat) { volatile unsigned char b[16384]; for (unsigned i = 0; i != sizeof b; ++i) b[i] = (unsigned char)pat; }
typedef void (*fn)(float*, float*);
struct ent { const char* n; fn f; };
extern ent vt_table[];
int main(int argc, char** argv) {
  // argv: name nout misalign_in misalign_out pattern in-hex...
  const char* n = argv[1]; int nout = atoi(argv[2]); int mi = atoi(argv[3]); int mo = atoi(argv[4]); int pat = atoi(argv[5]);
  int nin = argc - 6;
  // exact sizes: an access one byte outside is outside the allocation
  void* ib = 0; void* obm = 0;
  if (posix_memalign(&ib, 64, nin * 4 + mi) || posix_memalign(&obm, 64, nout * 4 + mo)) return 98;
  float* in = (float*)((char*)ib + mi); float* out = (float*)((char*)obm + mo);
  for (int i = 0; i < nin; ++i) { uint32_t u = (uint32_t)strtoul(argv[6 + i], 0, 16); memcpy(in + i, &u, 4); }
  for (int i = 0; i < nout; ++i) { uint32_t u = 0x01010101u * (uint32_t)(pat & 255); memcpy(out + i, &u, 4); }
  for (ent* e = vt_table; e->n; ++e) if (!strcmp(e->n, n)) {
    vt_scribble(pat); e->f(in, out);
    for (int i = 0; i < nout; ++i) { uint32_t u; memcpy(&u, out + i, 4); printf("%08x ", u); }
    printf("\n"); return 0; }
  return 99;
}
'''


def gen(harnesses, prelude=PRELUDE):
    return prelude + '\n'.join(h.cpp() for h in harnesses)


def table(harnesses):
    s = 'typedef void (*fn)(float*, float*);\nstruct ent { const char* n; fn f; };\n'
    s += 'extern ent vt_table[];\nent vt_table[] = {\n'
    for h in harnesses:
        s += '  {"%s", %s},\n' % (h.name, h.name)
    return s + '  {0, 0}};\n'


def workdir(tag):
    d = os.path.join(BUILD, tag + '.' + str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def compile_ir(src, out, flags, opt='-O0'):
    rc, o = run([CLANG, '-x', 'c++'] + flags + ([opt, '-Xclang', '-disable-llvm-passes'] if opt == '-O0' else [opt]) + ['-S', '-emit-llvm'] + ([] if '-fexceptions' in flags else ['-fno-exceptions']) + [ '-ffp-contract=off', '-w',
                                               '-fno-discard-value-names', '-fno-stack-protector', '-o', out, src])
    if rc:
        raise BuildError(o[-4000:])


def compile_native(src, out, flags, extra, cxx=GXX):
    rc, o = run([cxx] + flags + extra + ['-DVT_NATIVE', '-w', '-ffp-contract=off', '-o', out, src])
    if rc:
        raise BuildError(o[-4000:])
