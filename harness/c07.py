"""C07: array application equals per-element application for every count, including in place; no access outside the arrays"""
from common import *
import core
import terms as TM
import z3

THOROUGH_CFGS = list(core.B.MAIN3) + ['sse3+O2', 'cxx11sse41+O2']

QUICK = list(range(0, 10)) + [16, 17, 33, 65, 130]
THOROUGH = list(range(0, 41)) + [47, 48, 49, 63, 64, 65, 96, 100, 127, 128, 129, 255, 256, 257, 513, 1025]


def mk(op, x, n, inplace):
    k = ENT[x]
    ins = [('m', op)] + [('x%d' % i, x) for i in range(n)]
    outs = [('r%d' % i, x) for i in range(n)]
    om = ENT[op]

    def spec(c, I, O):
        m = mv(op, I['m'])
        rev = m.rev()
        for i in range(n):
            w = m * mv(x, I['x%d' % i]) * rev
            eqlanes(c, x, O['r%d' % i], w, label='[%d].' % i)
    body = '%s m = vt::ld<%s>(in); %s* src = reinterpret_cast<%s*>(in + %d);' % (op, op, x, x, om)
    if inplace:
        body += ' m(src, src, %d); for (int i = 0; i != %d; ++i) out[i] = in[%d + i];' % (n, n * k, om)
    else:
        body += ' m(src, reinterpret_cast<%s*>(out), %d);' % (x, n)
    return H('arr_%s_%s_%d%s' % (op, x, n, '_inplace' if inplace else ''), ins, outs, body, spec, raw=True, mis_in=0, mis_out=0, cost=n + 1)



# ------------------------------------------------------------------ every count at once
# The count is a symbolic 64-bit value and the arrays hold KSYM elements.  A path that leaves its loop after k elements must
# imply count == k; a path that runs past the arrays must imply count > KSYM; every element written must be the right one.
KSYM = {'quick': 6, 'thorough': 40}
NMAX = 1 << 40          # counts above this are outside
NREPLAY = 1 << 24       # largest count replayed against the real code


def count_of(c, I):
    lo, hi = I['nlo'][0], I['nhi'][0]
    if c.numeric:
        return (int(lo) & 0xffffffff) + ((int(hi) & 0xffffffff) << 32)
    return z3.Concat(c.ints['nhi_0'], c.ints['nlo_0'])


class CountRunner(core.Runner):
    def run(self):
        self.start = None
        return core.Runner.run(self)

    def validate(self):
        pass

    def state(self, r):
        """indices of the elements fully written, and those touched at all"""
        h = self.h
        X = h.kw['elem']
        w = ENT[X]
        o = r.objs.get('in' if h.kw['inplace'] else 'out')
        base = h.kw['src'] if h.kw['inplace'] else h.kw['dst']
        full, part = set(), set()
        if o is None:
            return full, part
        for i in range(h.kw['K']):
            k = 0
            for j in range(w):
                c = o.cells.get(4 * (base + i * w + j))
                fresh = TM.var('x%d_%d' % (i, j), 'f32')
                if c is not None and c[1] is not fresh and not (h.kw['inplace'] and c[1].op == 'const' and j in ZERO_LANES.get(X, ())):
                    k += 1
                elif h.kw['inplace'] and j in ZERO_LANES.get(X, ()):
                    k += c is not None and c[1] is not TM.fconst(0.0)
            if k:
                part.add(i)
            if k >= w - (len(ZERO_LANES.get(X, ())) if h.kw['inplace'] else 0):
                full.add(i)
        return full, part

    def memviol(self, r):
        if r.kind == 'violation' and 'out-of-bounds' in r.msg:
            if self.benign(r, lambda n: z3.ULE(n, self.h.kw['K'])):
                full, part = self.state(r)
                self.written = full
                if 'out' in r.objs:
                    self.elements(r)
                return
        core.Runner.memviol(self, r)

    def benign(self, r, cond):
        self.out.assertions += 1
        ctx = self.make_ctx()
        I = self.in_lanes(ctx)
        cons = [ctx.trb(p) for p in r.pc] + ctx.assume + [cond(count_of(ctx, I))]
        res, model = core.solve(self.out, cons, 10000)
        return res == 'unsat'

    def check_path(self, r):
        K = self.h.kw['K']
        full, part = self.state(r)
        ctx = self.make_ctx()
        I = self.in_lanes(ctx)
        n = count_of(ctx, I)
        base = [ctx.trb(p) for p in r.pc] + ctx.assume
        goals = [('%d elements processed when count > %d' % (len(part), K), z3.UGT(n, K))]
        for i in range(K):
            if i not in full:
                goals.append(('element %d not written when count > %d' % (i, i), z3.UGT(n, i)))
            if i in part:
                goals.append(('element %d written when count <= %d' % (i, i), z3.ULE(n, i)))
        if not self.out.witness:
            self.out.witness = core.solve(self.out, base, 5000)[0] == 'sat'
        for label, g in goals:
            self.out.assertions += 1
            res, model = core.solve(self.out, base + [g], 10000)
            if res == 'unsat':
                continue
            for cap in (1 << 12, 1 << 18, NREPLAY):
                res, model = core.solve(self.out, base + [g, z3.ULE(n, cap)], 10000)
                if res == 'sat' and self.try_bits(self.concrete(core.model_floats(model, ctx, self.names)), label):
                    return
            self.out.undecided.append('%s: not reproduced with counts up to %d' % (label, NREPLAY))
            return
        self.written = full
        self.elements(r)

    def elements(self, r):
        h = self.h
        K, X = h.kw['K'], h.kw['elem']
        if not self.written:
            return
        w = ENT[X]
        if h.kw['inplace']:      # present the updated source as the output
            o = r.objs['out']
            for i in self.written:
                for j in range(w):
                    c = r.objs['in'].cells.get(4 * (h.kw['src'] + i * w + j))
                    o.cells[4 * (h.kw['dst'] + i * w + j)] = c
        h.kw['ignore_lanes'] = [j for j in range(h.kw['dst'])] + [h.kw['dst'] + i * w + j for i in range(K) if i not in self.written for j in range(w)]
        h.kw['written'] = self.written
        core.Runner.check_path(self, r)


def mksym(op, x, inplace, K):
    w, om = ENT[x], ENT[op]
    src, dst = om + 4, 4
    ins = [('m', op), ('nlo', 'int'), ('nhi', 'int'), ('pad', 'int'), ('padh', 'int')] + [('x%d' % i, x) for i in range(K)]
    outs = [('bad', 'v4')] + [('r%d' % i, x) for i in range(K)]

    def pre(c, I):
        if c.numeric:
            if count_of(c, I) > NREPLAY:
                c.ok = False
        else:
            c.assume.append(z3.ULE(count_of(c, I), NMAX))

    def spec(c, I, O):
        m = mv(op, I['m'])
        rev = m.rev()
        n = min(K, count_of(c, I)) if c.numeric else None
        for i in range(K):
            if i in h.kw.get('written', ()) if n is None else i < n:
                eqlanes(c, x, O['r%d' % i], m * mv(x, I['x%d' % i]) * rev, label='[%d].' % i)
        if c.numeric:
            c.eq('elements differing from the element-wise result', O['bad'][0], 0.0)
            c.eq('elements past the end modified', O['bad'][1], 0.0)
    sub = dict(op=op, X=x, K=K, w=w, src=src, om=om, dst=dst, dp='src' if inplace else 'reinterpret_cast<%s*>(out + %d)' % (x, dst), nd='s' if inplace else 'd')
    body = """%(op)s m = vt::ld<%(op)s>(in); size_t n; std::memcpy(&n, in + %(om)d, 8);
#ifdef VT_NATIVE
  const size_t ES = sizeof(%(X)s);
#ifdef __SANITIZE_ADDRESS__
  const size_t G = 0;
#else
  const size_t G = 4 * ES;
#endif
  if (n > (1u << 25)) std::abort();
  void *s, *d; if (posix_memalign(&s, 64, n * ES + G) || posix_memalign(&d, 64, n * ES + G)) std::abort();
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j != %(w)d; ++j) reinterpret_cast<float*>(s)[i * %(w)d + j] = in[%(src)d + (i %% %(K)d) * %(w)d + j];
  std::memset(d, 0x7e, n * ES + G); std::memset(static_cast<char*>(s) + n * ES, 0x7e, G);
  %(X)s* sp = reinterpret_cast<%(X)s*>(s);
  m(sp, reinterpret_cast<%(X)s*>(%(nd)s), n);
  float bad = 0, over = 0;
  for (size_t i = 0; i < n; ++i) {
    float a[8], b[8], e[8]; for (int j = 0; j != %(w)d; ++j) { e[j] = in[%(src)d + (i %% %(K)d) * %(w)d + j]; a[j] = reinterpret_cast<float*>(%(nd)s)[i * %(w)d + j]; }
    vt::st<%(X)s>(b, m(vt::ld<%(X)s>(e)));
    float sc = 1; for (int j = 0; j != %(w)d; ++j) sc += std::fabs(b[j]);
    for (int j = 0; j != %(w)d; ++j) if (!(std::fabs(a[j] - b[j]) <= 1e-3f * sc)) { bad += 1; break; }
    if (i < %(K)d) for (int j = 0; j != %(w)d; ++j) out[%(dst)d + i * %(w)d + j] = a[j];
  }
  for (size_t i = 0; i < G; ++i) if (static_cast<unsigned char*>(%(nd)s)[n * ES + i] != 0x7e) over = 1;
  out[0] = bad; out[1] = over; std::free(s); std::free(d);
#else
  %(X)s* src = reinterpret_cast<%(X)s*>(in + %(src)d); m(src, %(dp)s, n);
#endif
""" % sub

    def gen(rng):
        return {'nlo_0': rng.choice([0, 1, 2, 3, 5, 17, 64, 1000, 5000]), 'nhi_0': 0}
    h = H('arrsym_%s_%s%s' % (op, x, '_inplace' if inplace else ''), ins, outs, body, spec, raw=True, mis_in=0, mis_out=0, pre=pre, gen=gen,
          runner=CountRunner, K=K, elem=x, inplace=inplace, src=src, dst=dst, cost=10)
    return h


def harnesses(tier):
    hs = []
    for op in ('rotor', 'motor'):
        for x in ('plane', 'line', 'point', 'direction'):
            for ip in (False, True):
                hs.append(mksym(op, x, ip, KSYM.get(tier, 6)))
    for n in (QUICK if tier == 'quick' else THOROUGH):
        for op in ('rotor', 'motor'):
            for x in ('plane', 'line', 'point', 'direction'):
                for ip in (False, True):
                    hs.append(mk(op, x, n, ip))
    return hs
