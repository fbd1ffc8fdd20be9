"""Check engine: harness x configuration x path -> solver queries -> replay -> verdict."""
import json
import math
import os
import random
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback
from fractions import Fraction
from multiprocessing import get_context

import z3

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import terms as TM
import ceval as CE
from build import H, ENT
from irparse import Module, IRError
from poly import Poly, P, ZERO, ONE, atom
from real import RealCtx
from symex import Engine, Unencodable, Ptr
from ga import MV, LANES

VERIF = B.VERIF
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

# ------------------------------------------------------------------ entities
ZERO_LANES = {'direction': {0}, 'line': {0, 4}, 'branch': {0}, 'ideal_line': {0}, 'translator': {0}}
PARTS = {
    'plane': ['p0'], 'point': ['p3'], 'direction': ['p3'], 'line': ['p1', 'p2'], 'branch': ['p1'], 'ideal_line': ['p2'],
    'rotor': ['p1'], 'translator': ['p2'], 'motor': ['p1', 'p2'],
}


def lane_names(ent):
    if ent == 'dual':
        return ['1', 'e0123']
    if ent == 'float':
        return ['1']
    return [n for p in PARTS[ent] for n in LANES[p]]


def mv(ent, lanes):
    """multivector denoted by an entity's lanes"""
    d = {}
    for n, v in zip(lane_names(ent), lanes):
        d[n] = v
    if ent == 'translator':
        d = dict(d)
        d['1'] = lanes[0] * 0 + 1
        if 'e0123' in d:
            d['e0123'] = lanes[0]
    return MV.from_named(d)


def lanes_of(ent, m, zero=0):
    return [m.get(n, zero) for n in lane_names(ent)]


# ------------------------------------------------------------------ contexts given to specs
class SolveCtx(RealCtx):
    numeric = False
    PI = None

    def __init__(self, eps=False):
        RealCtx.__init__(self, eps)
        self.assume = []
        self.assume_txt = []
        self.obs = []
        self.inmap = {}
        self.lincache = {}

    def P(self, x):
        return P(x)

    def square_is(self, v, p):
        (m, c), = v.d.items()
        a = m[0][0]
        self.red[a] = p
        z = self.atoms[a].z
        self.axioms.append(z * z == self.zpoly(p))

    def product_is(self, v, w, p):
        (m, c), = v.d.items()
        (n, d), = w.d.items()
        a, b = m[0][0], n[0][0]
        self.redpair[(a, b)] = p
        self.assume.append(self.atoms[a].z * self.atoms[b].z == self.zpoly(p))

    def assume_pos(self, p):
        p = self.simp(p)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c > 0 and len(m) == 1 and m[0][1] == 1:
                self.atoms[m[0][0]].nonneg = True
        self.assume.append(self.zc(p) > 0)

    def hint(self, q):
        """1 - q^2 may turn up as a sum of two squares"""
        self.hints.append(self.simp(q))

    def assume_ge(self, p, q=0):
        self.assume.append(self.zpoly(self.simp(P(p) - q)) >= 0)

    def assume_ne(self, p):
        self.assume.append(self.zc(self.simp(p)) != 0)

    def assume_or_ne(self, ps):
        self.assume.append(z3.Or([self.zpoly(self.simp(p)) != 0 for p in ps]))

    def eq(self, label, l, r):
        self.obs.append(('eq', label, P(l), P(r)))

    def le(self, label, l, r):
        self.obs.append(('le', label, P(l), P(r)))

    def le_if(self, label, conds, l, r):
        """conds: list of polys that must be > 0"""
        self.obs.append(('leif', label, P(l), P(r), [P(c) for c in conds]))

    def near(self, label, l, r, rel):
        """l and r agree coefficient for coefficient within the relative error, whatever the hardware approximations return"""
        parts = [P(x) for x in (r if isinstance(r, (list, tuple)) else [r])]
        ids, T = {}, P(l)
        for j, w in enumerate(parts):
            t = self.new_atom('tag', 'tag%d' % j).id
            ids[t] = j
            T = T + atom(t) * w
        D = self.clear(T)          # both sides times one common denominator
        groups = {}
        for m, c in D.d.items():
            e = tuple(x for x in m if self.atoms[x[0]].kind == 'eps')
            rest = tuple(x for x in m if self.atoms[x[0]].kind != 'eps' and x[0] not in ids)
            j = next((ids[x[0]] for x in m if x[0] in ids), None)
            got, want = groups.setdefault(rest, ({}, {}))
            if j is None:
                got[e] = got.get(e, 0) + c
            elif e:
                raise Unencodable('reference value depends on an approximation')
            else:
                want[j] = want.get(j, 0) + c
        seen = set()
        for k, (got, want) in enumerate(groups.values()):
            d = Poly({e: c for e, c in got.items() if c}) - sum(want.values())
            w = sum(abs(x) for x in want.values())
            if w:
                d, w = d * (Fraction(1) / w), 1
            if d.is_zero() or (d, w) in seen:
                continue
            seen.add((d, w))
            self.obs.append(('le', '%s (term %d) above' % (label, k), d, P(w * rel)))
            self.obs.append(('le', '%s (term %d) below' % (label, k), -d, P(w * rel)))
        if not seen:
            self.obs.append(('eq', label, self.reduce(P(l)), self.reduce(sum(parts, ZERO))))

    def iff(self, label, got, conds):
        """got (0 or 1) is 1 exactly when every (relation, l, r) holds; relations eq, lt"""
        self.obs.append(('iff', label, P(got), [(k, P(l), P(r)) for k, l, r in conds]))

    def free(self, name):
        return self.var(name)


class NumCtx:
    """same interface, over doubles: used to judge concrete outputs of the real code"""
    numeric = True

    def __init__(self, vals):
        self.vals = vals
        self.obs = []
        self.ok = True
        self.eps = False
        self.low = 1e-4     # what counts as zero in an assumption
        self.tied = False

    def P(self, x):
        return CE.NM.num(x)

    def var(self, n):
        return self.vals[n]

    def free(self, n):
        return self.vals[n]

    def mul(self, a, b):
        return a * b

    def reduce(self, a):
        return a

    simp = reduce

    def inv(self, a, why=''):
        return 1 / CE.NM.num(a) if a else math.inf

    def sqrt(self, a, why=''):
        return CE.NM.sqrt(a) if a >= 0 else (0.0 if a > -1e-9 else math.nan)

    def absp(self, a):
        return abs(a)

    def sincos(self, a):
        return CE.NM.sin(a), CE.NM.cos(a)

    def acos(self, a):
        return CE.NM.acos(max(-1, min(1, a)))

    def asin(self, a):
        return CE.NM.asin(max(-1, min(1, a)))

    def atan2(self, y, x):
        return CE.NM.atan2(y, x)

    def square_is(self, v, p):
        self.tied = True
        if abs(v * v - p) > 1e-5 * max(1, abs(p)):
            self.ok = False

    def product_is(self, v, w, p):
        self.tied = True
        if abs(v * w - p) > 1e-5 * max(1, abs(p)):
            self.ok = False

    def hint(self, q):
        pass

    def assume_pos(self, p):
        if not p > self.low:
            self.ok = False

    def assume_ge(self, p, q=0):
        if not p >= q:
            self.ok = False

    def assume_ne(self, p):
        if not abs(p) > self.low:
            self.ok = False

    def assume_or_ne(self, ps):
        if not any(abs(p) > self.low for p in ps):
            self.ok = False

    def eq(self, label, l, r):
        self.obs.append(('eq', label, l, r))

    def le(self, label, l, r):
        self.obs.append(('le', label, l, r))

    def near(self, label, l, r, rel):
        self.obs.append(('eq', label, l, sum(r) if isinstance(r, (list, tuple)) else r))

    def iff(self, label, got, conds):
        want = all(l == r if k == 'eq' else l < r for k, l, r in conds)
        # comparisons of computed differences are judged away from their thresholds only
        if any(k == 'lt' and abs(l - r) <= 1e-6 * max(1, abs(l), abs(r)) for k, l, r in conds):
            return
        self.obs.append(('eq', label, got, 1.0 if want else 0.0))

    def le_if(self, label, conds, l, r):
        if all(c > 0 for c in conds):
            self.obs.append(('le', label, l, r))


def judge(obs, tol):
    """list of violated obligations (numeric)"""
    bad = []
    vals = [abs(x) for o in obs for x in (o[2], o[3]) if isinstance(x, (int, float)) and math.isfinite(x)]
    scale = max([1.0] + vals)
    for o in obs:
        l, r = o[2], o[3]
        if isinstance(l, float) and not math.isfinite(l) or isinstance(r, float) and not math.isfinite(r):
            if not (isinstance(r, float) and not math.isfinite(r)):
                bad.append((o[1], l, r))
            continue
        if o[0] == 'eq' and abs(l - r) > tol * scale:
            bad.append((o[1], l, r))
        if o[0] == 'le' and l > r + tol * scale:
            bad.append((o[1], l, r))
    return bad


# ------------------------------------------------------------------ native runner
def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))


def base_flags(f):
    """compiler flags of a configuration; 'sse3+O2' is sse3, encoded from optimised IR"""
    return lambda c: (f or (lambda c: B.CONFIGS[c]))(c.split('+')[0])


def variants(cfg):
    """builds that may confirm a counterexample"""
    return ('O0', 'O2', 'clang') if cfg.endswith('+O2') else ('O0', 'O2')


def all_values(out, cons, z, limit):
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(cons)
    got = []
    t = time.time()
    while True:
        r = s.check()
        out.queries += 1
        if r != z3.sat or len(got) > limit:
            break
        v = s.model().eval(z, model_completion=True).as_long()
        got.append(v)
        s.add(z != v)
    out.solver_s += time.time() - t
    return got if r == z3.unsat else None


class Native:
    """compiles (lazily) and runs the real code for replay"""

    def __init__(self, harnesses, tag, prelude=None, flags_of=None, table_src=None):
        self.h = harnesses
        self.tag = tag
        self.dir = B.workdir(tag)      # fixed here, in the parent: pool workers share it
        self.bin = {}
        self.prelude = prelude or B.PRELUDE
        self.flags_of = base_flags(flags_of)

    def binary(self, cfg, variant):
        cfg = cfg.split('+')[0]
        k = (cfg, variant)
        if k not in self.bin:
            d = self.dir
            src = os.path.join(d, 'native_%s_%s.%d.cpp' % (cfg, variant, os.getpid()))
            out = os.path.join(d, 'native_%s_%s' % (cfg, variant))
            with open(src, 'w') as f:
                hs = [h for h in self.h if (h.name, cfg) not in BROKEN and (h.name, cfg + '+O2') not in BROKEN]
                f.write(B.gen(hs, self.prelude) + B.table(hs) + B.DRIVER.replace('struct ent { const char* n; fn f; };', '')
                        .replace('typedef void (*fn)(float*, float*);', '').replace('extern ent vt_table[];', ''))
            if not os.path.exists(out):
                extra = {'O0': ['-O0'], 'O2': ['-O2'], 'clang': ['-O2'], 'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']}[variant]
                tmp = '%s.%d' % (out, os.getpid())
                B.compile_native(src, tmp, self.flags_of(cfg), extra, B.CLANG if variant == 'clang' else B.GXX)
                os.rename(tmp, out)
            self.bin[k] = out
        return self.bin[k]

    def run(self, cfg, variant, name, nout, inp, mi=0, mo=0, pat=0xA5, timeout=60):
        exe = self.binary(cfg, variant)
        cmd = [exe, name, str(nout), str(mi), str(mo), str(pat)] + ['%08x' % x for x in inp]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, preexec_fn=None if variant == 'asan' else limit_memory,
                               env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0'))
        except subprocess.TimeoutExpired:
            return 'timeout', None, ''
        if r.returncode != 0:
            return 'crash(%d)' % r.returncode, None, r.stderr[-600:]
        return 'ok', [int(x, 16) for x in r.stdout.split()], r.stderr[-600:]


# ------------------------------------------------------------------ one harness on one configuration
class Outcome:
    def __init__(self):
        self.queries = 0
        self.raw = 0
        self.algebraic = 0
        self.solver_s = 0.0
        self.paths = 0
        self.steps = 0
        self.funcs = set()
        self.undecided = []
        self.violations = []     # dicts
        self.assertions = 0
        self.witness = False
        self.undef_lanes = []
        self.validated = 0
        self.mismatch = []
        self.notes = []


def in_vars(h):
    """list of (lane var name or None, entity, lane index)"""
    out = []
    for v, e in h.ins:
        for i in range(ENT[e]):
            if i in ZERO_LANES.get(e, ()) and not h.kw.get('full_lanes'):
                out.append(None)
            else:
                out.append('%s_%d' % (v, i))
    return out


def in_terms(h):
    out = []
    k = 0
    fixed = h.kw.get('fixed', {})
    for v, e in h.ins:
        for i in range(ENT[e]):
            n = '%s_%d' % (v, i)
            if n in fixed:
                out.append(TM.fconst(fixed[n]))
            elif i in ZERO_LANES.get(e, ()) and not h.kw.get('full_lanes'):
                out.append(TM.fconst(0.0))
            elif e == 'int':
                out.append(TM.var(n, 32))
            else:
                out.append(TM.var(n, 'f32'))
    return out


def all_lanes(h):
    return ['%s_%d' % (v, i) for v, e in h.ins for i in range(ENT[e])]


def lanes_dict(ents, flat):
    d = {}
    k = 0
    for v, e in ents:
        d[v] = flat[k:k + ENT[e]]
        k += ENT[e]
    return d


class Timer:
    def __init__(self, out):
        self.out = out

    def __enter__(self):
        self.t = time.time()

    def __exit__(self, *a):
        self.out.solver_s += time.time() - self.t
        self.out.queries += 1


def zconsts(e, cache):
    """names of the constants of a z3 expression (cached per context; the expression is kept alive with its id)"""
    i = e.get_id()
    r = cache.get(i)
    if r is not None:
        return r[1]
    acc, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if x.num_args() == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
        else:
            st.extend(x.children())
    r = frozenset(acc)
    cache[i] = (e, r)
    return r


def reach_axioms(ctx, exprs):
    """axioms of the atoms that occur in the expressions, and, transitively, of those the axioms mention"""
    if not ctx.axioms:
        return []
    cc = ctx.lincache.setdefault('consts', {})
    at = ctx_atoms(ctx)
    want = set()
    for e in exprs:
        want |= zconsts(e, cc)
    ax = []
    for a in ctx.axioms:
        s = zconsts(a, cc)
        ids = [n for n in s if n in at]
        # an axiom defines its newest atom
        ax.append((a, s, max(ids, key=lambda n: at[n]) if ids else None))
    used = [False] * len(ax)
    changed = True
    while changed:
        changed = False
        for i, (a, s, newest) in enumerate(ax):
            if not used[i] and newest in want:
                used[i] = True
                if not s <= want:
                    want |= s
                    changed = True
    return [a for i, (a, s, _) in enumerate(ax) if used[i]]


def ctx_atoms(ctx):
    c = getattr(ctx, '_an', None)
    if c is None or ctx._ann != len(ctx.atoms):
        c = {a.z.decl().name(): a.id for a in ctx.atoms}
        ctx._an, ctx._ann = c, len(ctx.atoms)
    return c


def linearise(e, cache):
    """every nonlinear product becomes an unconstrained constant (a relaxation: unsat stays unsat)"""
    i = e.get_id()
    r = cache.get(i)
    if r is not None:
        return r[1]
    if e.num_args() == 0:
        r = e
    else:
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL and sum(1 for c in e.children() if not z3.is_rational_value(c)) > 1 or k in (z3.Z3_OP_POWER, z3.Z3_OP_DIV):
            # split off a rational coefficient so that equal monomials meet
            co = [c for c in e.children() if z3.is_rational_value(c)]
            rest = sorted((c for c in e.children() if not z3.is_rational_value(c)), key=lambda c: c.get_id())
            key = (k,) + tuple(c.get_id() for c in rest)
            v = cache.get(key)
            if v is None:
                v = (rest, z3.FreshReal('mono'))
                cache[key] = v
            r = v[1]
            for c in co:
                r = c * r
        else:
            ch = [linearise(c, cache) for c in e.children()]
            r = e.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum}.get(k, lambda *a: z3.Product(*a))(*ch)
    cache[i] = (e, r)
    return r


def solve(out, cons, timeout_ms, ctx=None):
    if ctx is not None and len(cons) > 1:
        cache = ctx.lincache
        s = z3.Solver()
        s.set('timeout', int(min(timeout_ms, 500)))
        s.add([linearise(c, cache) for c in cons])
        with Timer(out):
            r = s.check()
        if r == z3.unsat:
            return 'unsat', None
    cut = ctx is not None and [c for c in cons if c.get_id() not in ctx.cutdefs]
    if cut and len(cut) < len(cons):
        s = z3.Solver()
        s.set('timeout', int(min(timeout_ms, 1000)))
        s.add(cut)
        with Timer(out):
            r = s.check()
        if r == z3.unsat:
            return 'unsat', None
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(cons)
    with Timer(out):
        r = s.check()
    if r == z3.sat:
        return 'sat', s.model()
    if r == z3.unsat:
        return 'unsat', None
    return 'unknown', None


def model_floats(model, ctx, names):
    vals = {}
    for n in names:
        if n is None:
            continue
        if n in ctx.ints:
            v = model.eval(ctx.ints[n], model_completion=False)
            vals[n] = v.as_signed_long() if z3.is_bv_value(v) else None
            continue
        k = ('var', n)
        a = ctx.by.get(k)
        v = None
        if a is not None:
            v = model.eval(a.z, model_completion=False)
        if v is None or not (z3.is_rational_value(v) or z3.is_algebraic_value(v)):
            vals[n] = None
            continue
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        try:
            f = float(v.as_fraction())
            f = struct.unpack('<f', struct.pack('<f', f))[0]
        except OverflowError:
            f = 3e38 if v.as_fraction() > 0 else -3e38
        vals[n] = f
    return vals


INTS = [0, 1, -1, 2, -2, 3, 7, -100, 255, 256, 32768, 70000, -70000, 65536, (1 << 24) + 2, (1 << 31) - 1, -(1 << 31)]
PINS = [0, 1, -1, 2, -2, 3, 0.5, -3, 1.5, 4, -0.5, 0.25]


class Runner:
    """explores one harness in one configuration and decides its obligations"""

    def __init__(self, h, cfg, module, native, tier):
        self.h = h
        self.cfg = cfg
        self.m = module
        self.native = native
        self.tier = tier
        self.out = Outcome()
        self.rng = random.Random('%s/%s/%d' % (h.name, cfg, SEED))
        self.guide_left = 24.0
        self.last = None
        self.names = in_vars(h)
        # z3 timeouts
        self.t_raw = h.kw.get('timeout', 20000)

    # -------- feasibility of path conditions
    def feasible(self, pc):
        ctx = self.fctx
        try:
            zs = [ctx.trb(p) for p in pc]
        except Unencodable:
            return True
        cons = zs + ctx.assume
        cons = cons + reach_axioms(ctx, cons)
        r, _ = solve(self.out, cons, self.h.kw.get('feas_timeout', 2000), ctx)
        return r != 'unsat'

    def enum(self, pc, t, limit=64):
        """every value a bit-vector term can take; None if there are many, or they cannot be told"""
        try:
            ctx = self.fctx
            cons = [ctx.trb(p) for p in pc] + ctx.assume
            cons = cons + reach_axioms(ctx, cons)
            z = ctx.trbv(t)
        except Unencodable:
            return None
        return all_values(self.out, cons, z, limit)

    def make_ctx(self):
        c = SolveCtx(eps=self.h.kw.get('eps', False))
        pm = self.h.kw.get('param')
        if pm:
            for n, p in pm(c).items():
                c.inmap[n] = p
                k = TM.var(n, 'f32')
                c.cache[k.id] = p
        pre = self.h.kw.get('pre')
        if pre:
            pre(c, self.in_lanes(c))
        return c

    def in_lanes(self, c):
        flat = []
        fixed = self.h.kw.get('fixed', {})
        k = 0
        for v, e in self.h.ins:
            for i in range(ENT[e]):
                n = '%s_%d' % (v, i)
                if n in fixed:
                    flat.append(P(Fraction(fixed[n])))
                elif self.names[k] is None:
                    flat.append(ZERO)
                elif n in c.inmap:
                    flat.append(c.inmap[n])
                elif e == 'int':
                    flat.append(c.ivar(n))
                else:
                    flat.append(c.var(n))
                k += 1
        return lanes_dict(self.h.ins, flat)

    def run(self):
        h = self.h
        out = self.out
        self.fctx = self.make_ctx()
        self.done = []
        eng = Engine(self.m, self.feasible, max_paths=h.kw.get('max_paths', 600), max_steps=h.kw.get('max_steps', 3000000))
        eng.enum = self.enum
        it = in_terms(h)
        nout = h.nout()

        def setup(e):
            a = e.arg_floats('in', it, h.kw.get('mis_in', 4))
            o = e.arg_floats('out', [None] * nout, h.kw.get('mis_out', 4))
            return [a, o]
        for r in eng.explore(h.name, setup):
            out.paths += 1
            out.steps += r.steps
            if r.kind in ('violation', 'assert', 'abort', 'throw'):
                self.memviol(r)
                continue
            if r.kind == 'stop':
                out.undecided.append('path stopped: ' + r.msg)
                continue
            self.done.append(r)
            self.check_path(r)
        self.validate()
        if os.environ.get('VT_STRESS'):
            # development aid: the counterexample search must find nothing where the obligations hold
            for r in self.done[:4]:
                self.guide_left = float(os.environ['VT_STRESS'])
                self.guided(r, [], 'stress')
        out.funcs = eng.funcs_seen
        return out

    # -------- the encoding against the real code, on concrete inputs
    def validate(self):
        h, out = self.h, self.out
        for _ in range(h.kw.get('validate', 1)):
            bits = self.concrete({})
            st, o, err = self.native.run(self.cfg, 'O0', h.name, h.nout(), bits)
            if st != 'ok':
                continue
            env = {n: b for n, b in zip(all_lanes(h), bits)}
            for r in self.done:
                cache = {}
                try:
                    if not all(CE.ceval(p, env, cache)[0].val for p in r.pc):
                        continue
                    exact = all(CE.ceval(p, env, cache)[1] for p in r.pc)
                    ok = True
                    ob = r.objs['out']
                    for i in range(h.nout()):
                        c = ob.cells.get(4 * i)
                        if c is None or c[0] != 4 or TM.has_undef([c[1]]):
                            continue
                        t = c[1]
                        t = t if t.sort == 'f32' else TM.b2f(TM.tobits(t), 'f32')
                        v, ex = CE.ceval(t, env, cache)
                        x, y = TM.bits_f32(v.val), TM.bits_f32(o[i])
                        if math.isnan(x) and math.isnan(y):
                            continue
                        if ex and exact:
                            same = v.val == o[i]
                        else:
                            big = max([1.0] + [abs(TM.bits_f32(q)) for q in o if math.isfinite(TM.bits_f32(q))])
                            same = (not math.isfinite(x) or not math.isfinite(y)) or abs(x - y) <= 4e-3 * big
                        if not same:
                            ok = False
                            out.mismatch.append('lane %d: encoding %.9g, real code %.9g on %s' % (i, x, y, ['%08x' % b for b in bits]))
                            break
                    if ok:
                        out.validated += 1
                except CE.NoEval as e:
                    out.notes.append('not concretely evaluable: %s' % e)
                break

    # -------- memory-safety events
    def memviol(self, r):
        out = self.out
        out.assertions += 1
        ctx = self.make_ctx()
        pc = [ctx.trb(p) for p in r.pc]
        cons = pc + ctx.assume
        cons += reach_axioms(ctx, cons)
        res, model = solve(out, cons, 20000, ctx)
        if res == 'unsat':
            return
        cands = []
        if model is not None:
            cands.append(model_floats(model, ctx, self.names))
        for _ in range(4):
            cands.append({})
        why = '%s (%s)' % (r.msg, r.where)
        for cv in cands:
            bits = self.concrete(cv)
            rep = self.replay_memory(bits, r)
            if rep:
                self.report('memory: ' + why, bits, rep)
                return
        out.undecided.append('unconfirmed memory event: ' + why)

    def replay_memory(self, bits, r):
        h = self.h
        n = self.native
        if 'misaligned' in r.msg:
            for v in ('O2', 'O0'):
                st, o, err = n.run(self.cfg, v, h.name, h.nout(), bits, 4, 4)
                if st.startswith('crash'):
                    return 'crash with 4-byte aligned buffers (%s): %s' % (v, st)
        if 'uninitialised' in r.msg or 'undef' in r.msg:
            return self.replay_undef(bits, None)
        st, o, err = n.run(self.cfg, 'asan', h.name, h.nout(), bits, 0, 0)
        if st.startswith('crash') or st == 'timeout':
            return '%s under ASan/UBSan: %s' % (st, err[:300])
        return None

    def replay_undef(self, bits, lane):
        h = self.h
        for v in variants(self.cfg):
            outs = []
            for pat in (0x3f, 0xA5, 0x00, 0xff):
                st, o, err = self.native.run(self.cfg, v, h.name, h.nout(), bits, 0, 0, pat)
                if st != 'ok':
                    return '%s: %s' % (v, st)
                outs.append(o)
            for o in outs[1:]:
                for i in range(h.nout()):
                    if o[i] != outs[0][i] and (lane is None or lane == i):
                        return 'output lane %d depends on stale stack contents (%s build: %08x vs %08x)' % (i, v, outs[0][i], o[i])
        return None

    # -------- functional obligations on one completed path
    def check_path(self, r):
        h = self.h
        out = self.out
        if len(out.violations) >= 3:
            return              # enough to report
        o = r.objs['out']
        terms = []
        for i in range(h.nout()):
            c = o.cells.get(4 * i)
            if c is None or c[0] != 4:
                terms.append(TM.undef('f32'))
                continue
            t = c[1]
            if t.sort != 'f32':
                t = TM.b2f(TM.tobits(t), 'f32')
            terms.append(t)
        ctx = self.make_ctx()
        try:
            pc = [ctx.trb(p) for p in r.pc]
        except Unencodable as e:
            out.undecided.append('path condition: %s' % e)
            return
        # undefined lanes
        polys = []
        und = []
        ignore = set(h.kw.get('ignore_lanes', ()))
        for i, t in enumerate(terms):
            if TM.has_undef([t]):
                und.append(i)
                polys.append(ctx.opaque('undef'))
            elif i in ignore:
                polys.append(ZERO)
            else:
                try:
                    polys.append(ctx.tr(t))
                except Unencodable as e:
                    out.undecided.append('lane %d: %s' % (i, e))
                    return
        und = [i for i in und if i not in ignore]
        if und:
            self.undef_out(und, pc, ctx)
            if any(i in und for i in range(h.nout())):
                return
        O = lanes_dict(h.outs, polys)
        I = self.in_lanes(ctx)
        ndefs = len(ctx.defs)
        dd = {}
        for t in list(r.pc) + [t for i, t in enumerate(terms) if i not in ignore and not TM.has_undef([t])]:
            for zb, tx in ctx.defs_of(t):
                dd[zb.get_id()] = (zb, tx)
        defs = list(dd.values())
        h.spec(ctx, I, O)
        specdefs = ctx.defs[ndefs:]
        base = pc + ctx.assume + [d for d, _ in specdefs]
        # reachability witness for this path (guards against vacuity)
        if not out.witness:
            c0 = base + reach_axioms(ctx, base)
            res, _ = solve(out, c0, 3000)
            if res == 'sat':
                out.witness = True
            elif res == 'unsat':
                return
            else:
                out.witness = self.numeric_witness()
        # definedness of the code's operations
        if not h.kw.get('nodef'):
            for d, txt in defs:
                out.assertions += 1
                neg = z3.simplify(z3.Not(d))
                if z3.is_false(neg):
                    continue
                cons = base + [neg]
                cons = cons + reach_axioms(ctx, cons)
                res, model = solve(out, cons, 10000, ctx)
                if res != 'unsat':
                    if not self.find_cex(ctx, base, [('def', txt, d)], r, model, 'undefined operation: ' + txt):
                        out.undecided.append('definedness (%s) %s' % (txt, res))
        alldefs = [d for d, _ in ctx.defs] + [d for d, _ in defs]
        # code is polynomial: give the solver the raw operation tree
        for ob in ctx.obs:
            out.assertions += 1
        goals = []
        rawok = all(a.kind in ('var',) for a in ctx.atoms) and not ctx.red
        if rawok:
            out.raw += len(ctx.obs)
        else:
            out.algebraic += len(ctx.obs)
        # one query for all equalities first
        bad = []
        for ob in ctx.obs:
            if ob[0] == 'eq':
                if rawok:
                    g = self.rawdiff(ctx, ob, polys, terms)
                else:
                    D = ctx.clear(ctx.reduce(ob[2] - ob[3]))
                    g = ctx.zpoly(D) != 0
            elif ob[0] == 'iff':
                zc = []
                for k, l, rr in ob[3]:
                    zc.append(ctx.zpoly(ctx.reduce(l)) == ctx.zpoly(ctx.reduce(rr)) if k == 'eq' else ctx.zpoly(ctx.reduce(l)) < ctx.zpoly(ctx.reduce(rr)))
                zg = ctx.zpoly(ctx.reduce(ob[2]))
                g = z3.Or(z3.And(zg != 0, zg != 1), (zg == 1) != z3.And(zc))
            elif ob[0] == 'le':
                g = ctx.zpoly(ctx.reduce(ob[2])) > ctx.zpoly(ctx.reduce(ob[3]))
            else:
                g = z3.And([ctx.zpoly(ctx.reduce(ob[2])) > ctx.zpoly(ctx.reduce(ob[3]))] + [ctx.zpoly(ctx.reduce(c)) > 0 for c in ob[4]])
            bad.append(g)
        if not bad:
            return
        allz = base + alldefs
        if any(ob[0] != 'eq' for ob in ctx.obs):
            groups = [[i] for i in range(len(bad))]
        else:
            groups = [list(range(len(bad)))]
        for grp in groups:
            self.decide_group(ctx, allz, base, [bad[i] for i in grp], [ctx.obs[i] for i in grp], r)

    def decide_group(self, ctx, allz, base, bad, obs, r):
        out = self.out
        cons = allz + [z3.Or(bad) if len(bad) > 1 else bad[0]]
        nt = all(z3.is_false(z3.simplify(b)) for b in bad) if not self.out.raw else False
        if nt:
            res, model = solve(out, [z3.Or(bad)], 1000)
            return
        res, model = 'unknown', None
        if not any(ob[0] == 'eq' and not ctx.clear(ctx.reduce(ob[2] - ob[3])).is_zero() for ob in obs):
            # the encoder already normalises every difference to zero: the solver must agree (raw form)
            res, model = solve(out, cons + reach_axioms(ctx, cons), self.t_raw * 3, ctx)
        else:
            res, model = solve(out, cons + reach_axioms(ctx, cons), self.h.kw.get('t_sat', 4000), ctx)
        if res == 'unsat':
            return
        if self.find_cex(ctx, base, [('ob', None, z3.Or(bad))], r, model, None):
            return
        # try each obligation alone with a longer budget
        for b, ob in zip(bad, obs):
            cons = allz + [b]
            res, model = solve(out, cons + reach_axioms(ctx, cons), self.t_raw, ctx)
            if res == 'unsat':
                continue
            if self.find_cex(ctx, base, [('ob', ob[1], b)], r, model, None):
                return
            out.undecided.append('obligation %s: %s' % (ob[1], res))

    def rawdiff(self, ctx, ob, polys, terms):
        # replace the code side by the raw (unexpanded) operation tree when the obligation is literally an output lane
        for p, t in zip(polys, terms):
            if ob[2] is p:
                return rawz(ctx, t) != ctx.zpoly(ob[3])
        return ctx.zpoly(ob[2]) != ctx.zpoly(ob[3])

    def undef_out(self, und, pc, ctx):
        out = self.out
        out.assertions += len(und)
        res, model = solve(out, pc + ctx.assume + reach_axioms(ctx, pc + ctx.assume), 10000)
        if res == 'unsat':
            return
        cands = [model_floats(model, ctx, self.names)] if model else []
        cands += [{}, {}]
        for cv in cands:
            bits = self.concrete(cv)
            for i in und:
                rep = self.replay_undef(bits, i)
                if rep:
                    self.report('uninitialised output lane %d' % i, bits, rep)
                    return
        out.undecided.append('output lanes %s never written (not observable in replay)' % und)

    # -------- counterexample search and replay
    def concrete(self, vals):
        """dict name->float|None -> list of input bit patterns; unspecified lanes get small random values"""
        h = self.h
        fixed = h.kw.get('fixed', {})
        gen = h.kw.get('gen')
        if gen:
            g = gen(self.rng)
        else:
            g = {}
        pm = h.kw.get('param')
        derived = {}
        self.conc_ok = True
        if pm:
            for attempt in range(60):
                pv = ParamVals(vals if attempt < 3 else {}, g, self.rng)
                for _ in range(3):
                    c = ConcCtx(pv)
                    derived = pm(c)
                    if not c.fixes:
                        break
                    for k, v in c.fixes.items():
                        pv[k] = v
                if c.ok:
                    break
            self.conc_ok = c.ok
            self.last_pv = dict(pv)
            vals = dict(vals)
            vals.update(pv)
        bits = []
        flat = []
        k = 0
        for v, e in h.ins:
            for i in range(ENT[e]):
                n = '%s_%d' % (v, i)
                if n in fixed:
                    x = fixed[n]
                elif self.names[k] is None:
                    x = 0.0
                elif n in derived:
                    x = derived[n]
                else:
                    x = vals.get(n)
                    if x is None:
                        x = g.get(n)
                    if x is None:
                        x = self.rng.choice(INTS if e == 'int' else PINS)
                if e == 'int':
                    bits.append(int(x) & 0xffffffff)
                else:
                    bits.append(TM.f32_bits(float(x)))
                flat.append(int(x) if e == 'int' else float(x))
                k += 1
        self.last = (bits, flat)
        return bits

    def precise_inputs(self, flat, jiggle=False):
        """(within CE.precise) the inputs of the last concrete(), assumptions on them met to full precision; None if they cannot"""
        h = self.h
        num = CE.NM.num
        if jiggle:
            num = lambda x: CE.NM.num(x) * (1 + self.rng.choice((1, -1)) * 2.0 ** -22)
        derived, pv = {}, {}
        if h.kw.get('param'):
            pv = {k: num(v) for k, v in self.last_pv.items()}
            for _ in range(8):
                c = ConcCtx(pv)
                derived = h.kw['param'](c)
                if not c.fixes:
                    break
                pv.update(c.fixes)
            else:
                return None
            if not c.ok:
                return None
        fixed = h.kw.get('fixed', {})
        out = []
        for n, t, x in zip(all_lanes(h), lane_types(h), flat):
            if t == 'int':
                out.append(int(x))
            else:
                out.append(CE.NM.num(x) if n in fixed else derived[n] if n in derived else pv[n] if n in pv else num(x))
        return out

    def judge_bits(self, bits, outbits, slack=1):
        return self.judge_vals(bits, [float(TM.bits_f32(b)) for b in outbits], slack)

    def judge_vals(self, bits, outvals, slack=1, flat=None):
        h = self.h
        if flat is None:
            flat = [float(TM.bits_f32(b)) if t != 'int' else float(TM._s(b, 32)) for b, t in zip(bits, lane_types(h))]
        I = lanes_dict(h.ins, flat)
        O = lanes_dict(h.outs, outvals)
        c = NumCtx(NumVals(I))
        pre = h.kw.get('pre')
        try:
            if pre:
                pre(c, I)
            h.spec(c, I, O)
        except (OverflowError, ZeroDivisionError, ValueError):
            return None
        if not c.ok:
            return None
        return judge(c.obs, h.kw.get('tol', 2e-5) * slack)

    def try_bits(self, bits, label, slack=1):
        h = self.h
        if not self.conc_ok:
            return False
        if not all(math.isfinite(TM.bits_f32(b)) for b, t in zip(bits, lane_types(h)) if t != 'int'):
            return False
        for v in variants(self.cfg):
            st, o, err = self.native.run(self.cfg, v, h.name, h.nout(), bits)
            if st != 'ok':
                self.report('%s: %s' % (label or 'run', st), bits, '%s %s' % (v, st))
                return True
            bad = self.judge_bits(bits, o, slack)
            if bad and self.rounding_only(bits):
                self.out.notes.append('discrepancy vanishes in double precision: %s' % (bad[0],))
                return False
            if bad:
                self.report('; '.join('%s: got %.9g want %.9g' % b for b in bad[:4]), bits, 'reproduced by the %s build' % v, o)
                return True
        return False

    def rounding_only(self, bits):
        """the encoded path, evaluated in double precision on the same input, satisfies the obligations"""
        h = self.h
        if h.kw.get('exact'):
            return False
        flats = [[TM._s(b, 32) if t == 'int' else float(TM.bits_f32(b)) for b, t in zip(bits, lane_types(h))]]
        if self.last and self.last[0] == bits:
            # inputs tied by an assumption (unit norm, say) before they were rounded to floats
            flats.append(self.last[1])
        for flat in flats:
            env = dict(zip(all_lanes(h), flat))
            for r in self.done:
                cache = {}
                try:
                    if not all(CE.heval(p, env, cache) for p in r.pc):
                        continue
                    vals = self.path_vals(r, env, cache)
                except CE.NoEval:
                    break
                if vals is not None and self.judge_vals(bits, vals, flat=flat) == []:
                    return True
                break
        return False

    def find_cex(self, ctx, base, goals, r, model, label):
        out = self.out
        seeds = []
        if model is not None:
            seeds.append(model_floats(model, ctx, self.names))
            if self.try_bits(self.concrete(seeds[0]), label):
                return True
        goal = goals[0][2]
        if goals[0][0] == 'def':
            goal = z3.Not(goal)
        # pinned queries: ask the solver for a model near small representable values
        varz = [(n, ctx.by[('var', n)].z) for n in dict.fromkeys(x for x in self.names if x) if ('var', n) in ctx.by]
        for a in ctx.atoms:
            if a.kind == 'var' and a.name not in self.names and not a.name.startswith('i2f_'):
                varz.append((a.name, a.z))
        ax = reach_axioms(ctx, base + [goal])
        deadline = time.time() + self.h.kw.get('cex_budget', 20)
        k = 0
        while time.time() < deadline and k < 24:
            frac = [1.0, 0.8, 0.5, 0.25][k % 4] if k < 16 else 0.1
            k += 1
            pins = []
            for n, z in varz:
                if self.rng.random() < frac:
                    pins.append(z == z3.RealVal(Fraction(self.rng.choice(PINS))))
                else:
                    pins += [z <= 64, z >= -64]
            res, model = solve(out, base + ax + [goal] + pins, 1500)
            if res == 'sat':
                seeds.append(model_floats(model, ctx, self.names))
                if self.try_bits(self.concrete(seeds[-1]), label):
                    return True
        if r is not None and self.guided(r, seeds, label):
            return True
        # plain sampling on the native build, only to concretise an already established solver failure
        deadline = time.time() + 5
        for k in range(40):
            if time.time() < deadline and self.try_bits(self.concrete({}), label):
                return True
        return False

    def guided(self, r, seeds, label):
        """an input that takes path r and breaks an obligation there, searched from the solver's models (whose values for
        transcendental functions and approximations are free, so that they need not fit the real code)"""
        start = time.time()
        end = start + min(12, self.guide_left)
        rng = self.rng
        consts = sorted({abs(x) for x in path_consts(r.pc) if 0 < abs(x) < 1e30})
        names = sorted({n for d in seeds for n in d} | {n for n in self.names if n})
        ints = {n for n, t in zip(all_lanes(self.h), lane_types(self.h)) if t == 'int'}
        exact = self.h.kw.get('exact')
        tol = self.h.kw.get('tol', 2e-5)
        wide = 3 if self.h.kw.get('param') else 6
        periodic = calls_libm(r.pc + [c[1] for c in r.objs['out'].cells.values()])
        if periodic:
            wide = 2            # arguments of the trigonometric functions that floats can express
        seeds = [{k: v for k, v in d.items() if v is not None} for d in seeds] + [{}]
        tries = [0, 0, 0]

        def value(n):
            if n in ints:
                return rng.choice(INTS)
            k = rng.random()
            if exact:
                # well scaled, but for what the path asks
                if consts and k < .4:
                    return rng.choice(consts) * rng.uniform(.3, 3) * rng.choice((1, -1))
                return rng.uniform(.5, 3) * rng.choice((1, -1))
            if k < .3:
                return rng.choice(PINS)
            if k < .6 or not consts and k < .75:
                return rng.uniform(-3, 3)
            if k < .75:
                c = rng.choice(consts)
                return rng.choice((c, -c, c * rng.uniform(.3, 3), -c * rng.uniform(.3, 3), math.sqrt(c) * rng.uniform(-2, 2)))
            return rng.choice((1, -1)) * 10 ** rng.uniform(-wide, wide)

        def mutate(v, frac):
            v = dict(v)
            k = rng.random()
            if k < .3 and not exact:
                # one scale for an operand or for some of the lanes
                pre = rng.choice(names).split('_')[0] + '_'
                some = {n for n in names if (n.startswith(pre) if k < .2 else rng.random() < .7)}
                f = 10 ** rng.uniform(-5, 5) if rng.random() < .6 else rng.choice((2, .5, 10, .1, -1))
                for n in names:
                    if n in some and n not in ints and isinstance(v.get(n), (int, float)):
                        v[n] *= f
                return v
            for n in names:
                if rng.random() < frac:
                    x = v.get(n)
                    if n not in ints and x is not None and rng.random() < .5:
                        v[n] = x * rng.uniform(.5, 1.5) if rng.random() < .5 else x + rng.uniform(-.5, .5)
                    else:
                        v[n] = value(n)
            return v

        def score(v):
            bits = self.concrete(v)
            if not self.conc_ok:
                return 1e9, bits, None, None
            env = dict(zip(all_lanes(self.h), self.last[1]))
            if not all(math.isfinite(x) and abs(x) < (200 if periodic else 1e38) for x in env.values()):
                return 1e9, bits, None, None
            cache = {}
            try:
                return sum(distance(p, env, cache) for p in r.pc), bits, env, cache
            except (CE.NoEval, OverflowError, ZeroDivisionError, ValueError, RecursionError):
                return 1e8, bits, None, None

        def attempt(bits, env, cache):
            tries[0] += 1
            if env is None:
                return False
            flat = list(env.values())
            try:
                vals = self.path_vals(r, env, cache)
                if vals is None:
                    return False
                if not exact:
                    # first in double precision, then in high precision: what remains there is not a matter of rounding
                    want = self.obs_of(flat, vals)
                    if not want or not any(off(o, tol, 0) for o in want):
                        return False
                    tries[1] += 1
                    with CE.precise():
                        pflat = self.precise_inputs(flat)
                        if pflat is None:
                            return False
                        penv, pcache = dict(zip(env, pflat)), {}
                        if not all(CE.heval(p, penv, pcache) for p in r.pc):
                            return False
                        vals = self.path_vals(r, penv, pcache)
                        want = self.obs_of(pflat, vals)
                        # what inputs a bit off would change as well is no deviation
                        if not want:
                            return False
                        for _ in range(3):
                            jig = self.precise_inputs(flat, True)
                            if jig is None:
                                return False
                            other = self.obs_of(jig, self.path_vals(r, dict(zip(env, jig)), {}))
                            if not other:
                                return False
                            want = [(o if o[0] not in ('eq', 'le') or abs(o[2] - o[3]) > 6 * (abs(o[2] - q[2]) + abs(o[3] - q[3])) else o[:2] + (0.0, 0.0))
                                    for o, q in zip(want, other)]
                else:
                    want = self.obs_of(flat, vals)
            except (CE.NoEval, OverflowError, ValueError, ZeroDivisionError, TypeError):
                return False
            if not want:
                return False
            big = max(abs(x) for o in want for x in o[2:4])
            if exact:
                return self.try_exact(r, bits, flat, label)
            # constants of the code are floats
            least = max((1e-4 if self.h.kw.get('param') else 1e-6) * big, 1e-30 * max([abs(x) for x in pflat] + [1e-6]))
            if not any(off(o, tol, least) for o in want):
                return False
            tries[2] += 1
            for v in variants(self.cfg):
                st, o, err = self.native.run(self.cfg, v, self.h.name, self.h.nout(), bits)
                if st != 'ok':
                    return self.try_bits(bits, label)
                got = self.obs_of(flat, [float(TM.bits_f32(b)) for b in o])
                # the real code deviates as the exact evaluation of its operations does
                bad = [g for g, w in zip(got or [], want) if off(g, tol, least) and off(w, tol, least) and .5 <= (g[2] - g[3]) / (w[2] - w[3]) <= 2]
                if bad:
                    self.report('; '.join('%s: got %.9g want %.9g' % (g[1], g[2], g[3]) for g in bad[:4]), bits, 'reproduced by the %s build' % v, o)
                    return True
            return False
        try:
            while time.time() < end and names:
                v = rng.choice(seeds)
                v = {n: v.get(n, value(n)) for n in names}
                if rng.random() < .7:
                    v = mutate(v, rng.choice((.15, .3, .6, 1)))
                d, bits, env, cache = score(v)
                for _ in range(40):
                    if d == 0 or time.time() > end:
                        break
                    w = mutate(v, rng.choice((.05, .15, .4)))
                    d2, b2, e2, c2 = score(w)
                    if d2 <= d:
                        v, d, bits, env, cache = w, d2, b2, e2, c2
                if d == 0 or d == 1e8 and rng.random() < .1:
                    if attempt(bits, env, cache):
                        return True
                    # neighbours on the same path
                    for _ in range(6):
                        w = mutate(v, rng.choice((.15, .4, .8)))
                        d2, b2, e2, c2 = score(w)
                        if d2 == 0 and attempt(b2, e2, c2):
                            return True
            return False
        finally:
            self.guide_left -= time.time() - start
            if os.environ.get("VT_DEBUG"): print("guided", self.h.name, tries, time.time() - start, names, consts, file=sys.stderr)

    def try_exact(self, r, bits, flat, label):
        """for obligations about approximate instructions: they are met when these are replaced by correctly rounded ones, and
        clearly missed by the real code"""
        env = {n: b for n, b in zip(all_lanes(self.h), bits)}
        cache = {}
        try:
            if not all(CE.ceval(p, env, cache)[0].val for p in r.pc):
                return False
            vals = []
            for i in range(self.h.nout()):
                c = r.objs['out'].cells.get(4 * i)
                t = c[1] if c[1].sort == 'f32' else TM.b2f(TM.tobits(c[1]), 'f32')
                vals.append(float(TM.fval(CE.ceval(t, env, cache)[0])))
        except (CE.NoEval, OverflowError):
            return False
        return self.judge_vals(bits, vals, .25) == [] and self.try_bits(bits, label, 8)

    def obs_of(self, flat, outvals):
        """the obligations with their values for these inputs and outputs, None outside the assumptions"""
        h = self.h
        I, O = lanes_dict(h.ins, flat), lanes_dict(h.outs, outvals)
        c = NumCtx(NumVals(I))
        c.low = 1e-13
        try:
            if h.kw.get('pre'):
                h.kw['pre'](c, I)
            h.spec(c, I, O)
        except (OverflowError, ZeroDivisionError, ValueError):
            return None
        if not c.ok:
            return None
        if c.tied:
            return None         # the inputs fit an assumption only approximately
        return c.obs

    def path_vals(self, r, env, cache):
        vals = []
        for i in range(self.h.nout()):
            c = r.objs['out'].cells.get(4 * i)
            if c is None or c[0] != 4 or TM.has_undef([c[1]]):
                return None
            vals.append(CE.heval(c[1] if c[1].sort == 'f32' else TM.b2f(TM.tobits(c[1]), 'f32'), env, cache))
        return vals

    def numeric_witness(self):
        for _ in range(30):
            bits = self.concrete({})
            st, o, err = self.native.run(self.cfg, 'O0', self.h.name, self.h.nout(), bits)
            if st == 'ok' and self.judge_bits(bits, o) is not None:
                return True
        return False

    def report(self, what, bits, how, outbits=None):
        self.out.violations.append({
            'harness': self.h.name, 'config': self.cfg, 'what': what, 'replay': how,
            'inputs': [{'lane': n, 'bits': '%08x' % b, 'value': TM._s(b, 32) if t == 'int' else TM.bits_f32(b)}
                       for n, b, t in zip(lane_labels(self.h), bits, lane_types(self.h))],
            'outputs': None if outbits is None else [TM.bits_f32(b) for b in outbits], 'code': self.h.code})


def off(o, tol, least):
    """an obligation (with numbers) that is violated, relative to its own magnitude and by at least so much"""
    l, r = o[2], o[3]
    if not (math.isfinite(l) and math.isfinite(r)):
        return False
    d = l - r if o[0] == 'le' else abs(l - r) if o[0] == 'eq' else 0
    return d > max(tol * max(abs(l), abs(r)), least)


def calls_libm(ts):
    seen, st = set(), list(ts)
    while st:
        t = st.pop()
        if t.id not in seen:
            seen.add(t.id)
            if t.op == 'fcall' and t.val not in ('sqrt', 'fabs', 'floor', 'ceil', 'trunc', 'round'):
                return True
            st.extend(t.args)
    return False


def path_consts(pc):
    seen, st, out = set(), list(pc), set()
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'const' and t.sort in ('f32', 'f64') and math.isfinite(TM.fval(t)):
            out.add(float(TM.fval(t)))
        st.extend(t.args)
    return out


def distance(p, env, cache, neg=False):
    """0 if the condition holds (fails, with neg); else a measure of how far it is from that"""
    op = p.op
    if op == 'not':
        return distance(p.args[0], env, cache, not neg)
    if op == 'and':
        a, b = (distance(x, env, cache, neg) for x in p.args)
        return min(a, b) if neg else a + b
    if bool(CE.heval(p, env, cache)) != neg:
        return 0.0
    if op == 'fcmp' and p.val in ('olt', 'ole', 'oeq'):
        x, y = (CE.heval(a, env, cache) for a in p.args)
        if math.isfinite(x) and math.isfinite(y):
            d = abs(x - y)
            return 1e-3 + d / (1 + d) + math.log1p(abs(math.log1p(abs(x)) - math.log1p(abs(y))))
    return 1.0


def lane_types(h):
    return [e for v, e in h.ins for i in range(ENT[e])]


def lane_labels(h):
    return ['%s[%d]' % (v, i) for v, e in h.ins for i in range(ENT[e])]


class NumVals(dict):
    def __init__(self, I):
        dict.__init__(self)
        for v, l in I.items():
            for i, x in enumerate(l):
                self['%s_%d' % (v, i)] = x


class ParamVals(dict):
    def __init__(self, vals, g, rng):
        dict.__init__(self)
        self.v, self.g, self.r = vals, g, rng

    def __missing__(self, k):
        x = self.v.get(k)
        if x is None:
            x = self.g.get(k)
        if x is None:
            x = self.r.choice(PINS) if self.r.random() < 0.3 else round(self.r.uniform(-0.7, 0.7), 3)
        self[k] = x
        return x


class ConcCtx(NumCtx):
    """runs a parameterisation on concrete numbers, solving its square_is constraints"""

    def __init__(self, vals):
        NumCtx.__init__(self, vals)
        self.fixes = {}
        self.of = {}
        self.close = 1e-14 if CE.NM is CE.DOUBLE else 1e-50

    def var(self, n):
        x = self.vals[n] * CE.NM.num(1)     # an object of its own
        self.of[id(x)] = (n, x)
        return x

    free = var

    def name_of(self, x):
        return self.of[id(x)][0] if id(x) in self.of else None

    def square_is(self, v, p):
        if abs(v * v - p) <= self.close:
            return
        n = self.name_of(v)
        if p < 0 or n is None:
            self.ok = False
            return
        self.fixes[n] = CE.NM.copysign(CE.NM.sqrt(p), v)

    def product_is(self, v, w, p):
        if abs(v * w - p) <= self.close * max(1, abs(p)):
            return
        if abs(v) < 1e-3 or self.name_of(w) is None:
            self.ok = False
            return
        self.fixes[self.name_of(w)] = p / v


def rawz(ctx, t):
    """z3 expression that mirrors the code's operation tree (no expansion)"""
    cache = getattr(ctx, '_raw', None)
    if cache is None:
        cache = ctx._raw = {}
    st = [t]
    while st:
        u = st[-1]
        if u.id in cache:
            st.pop()
            continue
        if u.op in ('fadd', 'fsub', 'fmul', 'fneg', 'fpext', 'fptrunc'):
            pend = [a for a in u.args if a.id not in cache]
            if pend:
                st.extend(pend)
                continue
            a = [cache[x.id] for x in u.args]
            r = {'fadd': lambda: a[0] + a[1], 'fsub': lambda: a[0] - a[1], 'fmul': lambda: a[0] * a[1], 'fneg': lambda: -a[0],
                 'fpext': lambda: a[0], 'fptrunc': lambda: a[0]}[u.op]()
        else:
            r = ctx.zpoly(ctx.tr(u))
        cache[u.id] = r
        st.pop()
    return cache[t.id]


# ------------------------------------------------------------------ whole check
_G = {}


class Overtime(Exception):
    pass


def _overtime(sig, frame):
    raise Overtime()


def _task(a):
    h, cfg = a
    if time.time() > _G.get('deadline', 1e18):
        o = Outcome()
        o.undecided.append('not run: time budget of this tier exhausted')
        o.wall, o.h, o.cfg = 0, h.name, cfg
        return o
    m = _G['mods'][cfg]
    t0 = time.time()
    rn = h.kw.get('runner', Runner)(h, cfg, m, _G['native'], _G['tier'])
    # wall-clock limit per harness run; repeats, because an exception inside a destructor is swallowed
    limit = min(h.kw.get('wall', 150), max(1.0, _G.get('deadline', 1e18) - t0))
    signal.signal(signal.SIGALRM, _overtime)
    signal.setitimer(signal.ITIMER_REAL, limit, 2.0)
    try:
        o = rn.run()
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Overtime:
        signal.setitimer(signal.ITIMER_REAL, 0)
        o = rn.out
        o.undecided.append('stopped after %.0f s' % limit)
    except Unencodable as e:
        o = rn.out
        o.undecided.append('not encodable: %s' % e)
    except Exception as e:
        o = rn.out
        o.undecided.append('internal error: %s' % traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    o.wall = time.time() - t0
    o.h, o.cfg = h.name, cfg
    o.funcs = sorted(o.funcs)
    return o


BROKEN = {}


def uncompilable(harnesses, prelude, flags, d, c, msg):
    """harnesses that do not compile against the current tree, by bisection"""
    def bad(hs):
        p = os.path.join(d, 'bisect_%s.cpp' % c)
        with open(p, 'w') as f:
            f.write(B.gen(hs, prelude))
        rc, o = B.run([B.CLANG, '-x', 'c++'] + flags + ['-fsyntax-only', '-w', p])
        return rc != 0

    def split(hs):
        if not bad(hs):
            return []
        if len(hs) == 1:
            return list(hs)
        k = len(hs) // 2
        return split(hs[:k]) + split(hs[k:])
    if bad([]):
        return list(harnesses), msg[-300:]          # the library itself does not compile in this configuration
    return split(list(harnesses)), msg[-300:]


def load_modules(harnesses, cfgs, tag, prelude=None, flags_of=None):
    d = B.workdir(tag)
    mods = {}
    procs = []
    src = os.path.join(d, 'harness.cpp')
    with open(src, 'w') as f:
        f.write(B.gen(harnesses, prelude or B.PRELUDE))
    from concurrent.futures import ThreadPoolExecutor
    flags_of = base_flags(flags_of)

    def one(c):
        opt = '-O2' if c.endswith('+O2') else '-O0'
        o = os.path.join(d, c + '.ll')
        s = src
        try:
            B.compile_ir(s, o, flags_of(c), opt)
        except B.BuildError as e:
            # leave out the harnesses that do not compile; they are reported as undecided
            bad, msg = uncompilable(harnesses, prelude or B.PRELUDE, flags_of(c), d, c, str(e))
            for h in bad:
                BROKEN[(h.name, c)] = msg
            if len(bad) == len(harnesses):
                return c, None
            s = os.path.join(d, 'harness_%s.cpp' % c)
            with open(s, 'w') as f:
                f.write(B.gen([h for h in harnesses if h not in bad], prelude or B.PRELUDE))
            B.compile_ir(s, o, flags_of(c), opt)
        return c, Module(open(o).read())
    with ThreadPoolExecutor(8) as ex:
        for c, m in ex.map(one, cfgs):
            mods[c] = m
    return mods


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@') for n in names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split('\n')
    except OSError:
        return list(names)


def run_harnesses(tag, harnesses, cfgs, tier, prelude=None, flags_of=None, workers=8, deadline=1e18):
    mods = load_modules(harnesses, cfgs, tag, prelude, flags_of)
    native = Native(harnesses, tag, prelude, flags_of)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: native.binary(c, 'O0'), sorted({c.split('+')[0] for c in cfgs if mods[c]})))
    _G.update(mods=mods, native=native, tier=tier, deadline=deadline)
    tasks = [(h, c) for h in harnesses for c in (h.kw.get('cfgs') or cfgs) if c in cfgs and (h.name, c) not in BROKEN]
    tasks.sort(key=lambda t: -t[0].kw.get('cost', 1))
    outs = []
    for (n, c), msg in BROKEN.items():
        o = Outcome()
        o.undecided.append('does not compile: ' + msg)
        o.wall, o.h, o.cfg = 0, n, c
        outs.append(o)
    ctx = get_context('fork')
    global _TASKS
    _TASKS = tasks
    if workers <= 1:
        for i in range(len(tasks)):
            outs.append(_taski(i))
    else:
        with ctx.Pool(workers) as pool:
            for o in pool.imap_unordered(_taski, range(len(tasks)), chunksize=1):
                outs.append(o)
    return outs


_TASKS = []


def _taski(i):
    return _task(_TASKS[i])
