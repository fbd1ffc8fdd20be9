"""Real-arithmetic reading of the term DAG.

Every float operation is read as the exact real operation; rcp / rsqrt / sqrt / division / libm calls
become algebraic or uninterpreted atoms with their defining constraints:
    inv(P)   : i with i*P = 1                     (obligation P != 0)
    sqrt(P)  : s with s >= 0, s*s = P             (obligation P >= 0)
    sin/cos  : pair with sin^2+cos^2 = 1 (odd/even in the argument)
    acos/asin/atan2 : angle atoms whose sin/cos are tied to the arguments
In 'eps' mode rcp/rsqrt carry a fresh relative error |e| <= 1.5*2^-12 (the ISA bound).
"""
from fractions import Fraction
import math
import z3
import terms as TM
from poly import Poly, P, ZERO, ONE, atom, mmul
from symex import Unencodable

F1 = Fraction(1)
EPS_APPROX = Fraction(3, 2) * Fraction(1, 4096)


class Atom:
    __slots__ = ('id', 'kind', 'name', 'z', 'args', 'nonneg', 'cons', 'sincos', 'pair', 'info')


def lead(p):
    return max(p.d)


def ratio(a, b):
    r = Fraction(a) / b
    return r.numerator if r.denominator == 1 else r


def exact_div(p, q):
    """p/q if exact else None (lex order on monomial tuples expanded by atom id)"""
    if p.is_zero():
        return ZERO
    qc = q.const()
    if qc is not None:
        return p * (F1 / qc) if qc else None

    def mkey(m):
        # lex with larger atom id more significant
        return tuple(sorted(((a, e) for a, e in m), reverse=True))
    lq = max(q.d, key=mkey)
    cq = q.d[lq]
    lqd = dict(lq)
    r = p
    out = {}
    steps = 0
    while r.d:
        steps += 1
        if steps > 4000:
            return None
        lr = max(r.d, key=mkey)
        m = dict(lr)
        for a, e in lqd.items():
            if m.get(a, 0) < e:
                return None
            m[a] -= e
            if not m[a]:
                del m[a]
        mm = tuple(sorted(m.items()))
        c = ratio(r.d[lr], cq)
        out[mm] = c
        t = Poly({mm: c})
        r = r - t * q
    return Poly(out)


_NN = {}


def nonneg_term(t):
    """syntactically a sum / product of squares"""
    r = _NN.get(t.id)
    if r is None:
        op = t.op
        if op == 'const':
            r = not math.isnan(TM.fval(t)) and TM.fval(t) >= 0
        elif op == 'fmul':
            r = t.args[0].id == t.args[1].id or (nonneg_term(t.args[0]) and nonneg_term(t.args[1]))
        elif op in ('fadd', 'fpext', 'fptrunc'):
            r = all(nonneg_term(a) for a in t.args)
        elif op == 'ite':
            r = nonneg_term(t.args[1]) and nonneg_term(t.args[2])
        else:
            r = op in ('fsqrt', 'fabs', 'frsqrt')
        _NN[t.id] = r
    return r


class RealCtx:
    def __init__(self, eps=False):
        self.nodef = False
        self.ints = {}          # integer inputs: name -> bit vector
        self.hints = []
        self.atoms = []
        self.by = {}
        self.cache = {}
        self.bcache = {}
        self.zcache = {}
        self.defs = []          # (bool z3 expr, text): definedness obligations
        self.defset = set()
        self.tdefs = {}         # term id -> own definedness obligations
        self.cur = None
        self.dcache = {}
        self.axioms = []        # z3 constraints
        self.eps = eps
        self.cuts = {}
        self.redpow = {}
        self.redpair = {}       # (atom id, atom id) -> Poly replacing their product
        self.cutdefs = set()
        self.red = {}           # atom id -> (exponent 2 replacement Poly)
        self.invs = []          # (atom id, Poly P)

    # ---------------------------------------------------------------- atoms
    def new_atom(self, kind, name, args=(), nonneg=False):
        a = Atom()
        a.id = len(self.atoms)
        a.kind = kind
        a.name = name
        a.args = args
        a.nonneg = nonneg
        a.z = z3.Real('%s_%d' % (name, a.id) if kind != 'var' else name)
        a.sincos = None
        a.pair = None
        a.info = None
        self.atoms.append(a)
        return a

    def var(self, name, nonneg=False):
        k = ('var', name)
        a = self.by.get(k)
        if a is None:
            a = self.new_atom('var', name)
            self.by[k] = a
        return atom(a.id)

    def zpoly(self, p):
        r = self.zcache.get(p)
        if r is None:
            ts = []
            for m, c in sorted(p.d.items()):
                fs = []
                for a, e in m:
                    fs.extend([self.atoms[a].z] * e)
                if not fs:
                    ts.append(z3.RealVal(c))
                else:
                    t = fs[0]
                    for f in fs[1:]:
                        t = t * f
                    if c != 1:
                        t = z3.RealVal(c) * t
                    ts.append(t)
            r = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
            self.zcache[p] = r
        return r

    def zcut(self, p):
        """(scale, z3 expr e) with p = scale * e.  Large polynomials get a name (a cut): queries are first tried with the
        name left uninterpreted, which is sound for 'unsat'."""
        if len(p.d) < 5:
            return Fraction(1), self.zpoly(p)
        lc = p.d[max(p.d)]
        q = p * (F1 / lc)
        r = self.cuts.get(q)
        if r is None:
            a = self.new_atom('cut', 'cut', (q,))
            r = self.cuts[q] = a.z
            ax = a.z == self.zpoly(q)
            self.cutdefs.add(ax.get_id())
            self.axioms.append(ax)
        return lc, r

    def zc(self, p):
        k, e = self.zcut(p)
        return e if k == 1 else z3.RealVal(k) * e

    def reduce(self, p):
        """eliminate even powers of sqrt atoms and cos^2"""
        if not self.red:
            return p
        red = self.red
        while True:
            out = {}
            hit = False
            for m, c in p.d.items():
                rep = None
                for t in reversed(m):
                    if t[1] >= 2 and t[0] in red:
                        rep = t
                        break
                if rep is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                hit = True
                a, e = rep
                k = (a, e // 2)
                q = self.redpow.get(k)
                if q is None or q[0] is not red[a]:
                    q = self.redpow[k] = (red[a], red[a] ** (e // 2))
                rest = tuple((x, 1) if x == a else (x, n) for x, n in m if x != a or e % 2)
                for m2, c2 in q[1].d.items():
                    mm = mmul(rest, m2)
                    v = out.get(mm, 0) + c * c2
                    if v:
                        out[mm] = v
                    else:
                        out.pop(mm, None)
            if hit:
                p = Poly(out)
                continue
            if self.redpair:
                q = self.reduce_pairs(p)
                if q is not p:
                    p = q
                    continue
            return p

    def reduce_pairs(self, p):
        ats = p.atoms()
        for (a, b), rep in self.redpair.items():
            if a in ats and b in ats:
                out = {}
                n = 0
                for m, c in p.d.items():
                    d = dict(m)
                    if a in d and b in d:
                        n += 1
                        for x in (a, b):
                            d[x] -= 1
                            if not d[x]:
                                del d[x]
                        rest = tuple(sorted(d.items()))
                        todo = [(mmul(rest, m2), c * c2) for m2, c2 in rep.d.items()]
                    else:
                        todo = [(m, c)]
                    for mm, cc in todo:
                        v = out.get(mm, 0) + cc
                        if v:
                            out[mm] = v
                        else:
                            out.pop(mm, None)
                if n:
                    return Poly(out)
        return p

    def mul(self, p, q):
        return self.reduce(p * q)

    def simp(self, p):
        """cancel inv(P) against factors P"""
        p = self.reduce(p)
        if not self.invs:
            return p
        ats = p.atoms()
        for aid, Q in reversed(self.invs):
            if aid not in ats:
                continue
            while True:
                g = p.coeffs_in(aid)
                n = len(g) - 1
                if n <= 0:
                    break
                h = exact_div(g[n], Q)
                if h is None:
                    # try the whole numerator
                    if n == 1 or True:
                        break
                m = ZERO
                for j in range(n):
                    m = m + g[j] * (atom(aid) ** j)
                p = self.reduce(m + h * (atom(aid) ** (n - 1)))
            ats = p.atoms()
        return p

    def clear(self, p):
        """multiply by denominators: a polynomial that is 0 iff p is 0 (given P_k != 0)"""
        p = self.reduce(p)
        for _ in range(50):
            ats = p.atoms()
            todo = [x for x in reversed(self.invs) if x[0] in ats]
            if not todo:
                return p
            aid, Q = todo[0]
            g = p.coeffs_in(aid)
            n = len(g) - 1
            acc = ZERO
            for j, c in enumerate(g):
                acc = acc + c * (Q ** (n - j))
            p = self.reduce(acc)
        return p

    def add_def(self, zb, text):
        if self.nodef:
            return
        if self.cur is not None:
            self.tdefs.setdefault(self.cur, []).append((zb, text))
            return
        k = zb.get_id()
        if k not in self.defset:
            self.defset.add(k)
            self.defs.append((zb, text))

    def is_nonneg(self, p):
        for m, c in p.d.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not self.atoms[a].nonneg:
                    return False
        return True

    def inv(self, p, why='div'):
        p = self.simp(p)
        c = p.const()
        if c is not None:
            if c == 0:
                self.add_def(z3.BoolVal(False), why + ' by constant zero')
                return self.opaque('nan')
            return P(F1 / c)
        # monomial content: split rational content
        lc = p.d[max(p.d)]
        q = p * (F1 / lc)
        if len(q.d) == 1:
            # monomial: product of inverses of the atoms
            (m, _), = q.d.items()
            if len(m) > 1 or m[0][1] > 1:
                r = ONE
                for a, e in m:
                    r = r * (self.inv(atom(a), why) ** e)
                return self.reduce(r) * (F1 / lc)
            a = self.atoms[m[0][0]]
            if a.kind == 'inv':
                self_q = a.args[0]
                return self_q * (F1 / lc)
            if a.kind == 'sqrt':
                # 1/sqrt(Q) = sqrt(Q)/Q
                return self.mul(atom(a.id), self.inv(a.args[0], why)) * (F1 / lc)
        k = ('inv', q)
        a = self.by.get(k)
        if a is None:
            self.zc(q)       # a cut must be older than the atom defined from it
            a = self.new_atom('inv', 'inv', (q,), self.is_nonneg(q))
            self.by[k] = a
            self.invs.append((a.id, q))
            zq = self.zc(q)
            self.axioms.append(z3.Implies(zq != 0, a.z * zq == 1))
        self.add_def(self.zc(q) != 0, why)
        return atom(a.id) * (F1 / lc)

    def sqrt(self, p, why='sqrt', nonneg=False):
        """nonneg: the operand is a sum of squares by construction, so the domain obligation is discharged by the encoder"""
        p = self.simp(p)
        c = p.const()
        if c is not None and c >= 0:
            n, d = c.numerator, c.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return P(Fraction(rn, rd))
        r = self.perfect_square(p)
        if r is not None:
            return r
        k = ('sqrt', p)
        a = self.by.get(k)
        if a is None:
            self.zc(p)
            a = self.new_atom('sqrt', 'sqrt', (p,), True)
            self.by[k] = a
            self.red[a.id] = p
            zp = self.zc(p)
            self.axioms.append(a.z >= 0)
            self.axioms.append(z3.Implies(zp >= 0, a.z * a.z == zp))
        if not nonneg:
            self.add_def(self.zc(p) >= 0, why)
        elif a.info is None:
            a.info = 'nonneg'
            self.axioms.append(a.z * a.z == self.zc(p))
        return atom(a.id)

    def perfect_square(self, p):
        if len(p.d) != 1:
            return None
        (m, c), = p.d.items()
        if c < 0:
            return None
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn != c.numerator or rd * rd != c.denominator:
            return None
        out = []
        for a, e in m:
            if e % 2:
                return None
            out.append((a, e // 2))
        q = Poly({tuple(out): Fraction(rn, rd)})
        if all(self.atoms[a].nonneg or e % 2 == 0 for a, e in out):
            return q
        return self.absp(q)

    def absp(self, q):
        if self.is_nonneg(q):
            return q
        if self.is_nonneg(-q):
            return -q
        if len(q.d) == 1:
            (m, c), = q.d.items()
            q = Poly({m: abs(c)})
        k = ('abs', q)
        a = self.by.get(k)
        if a is None:
            a = self.new_atom('abs', 'abs', (q,), True)
            self.by[k] = a
            z = self.zpoly(q)
            self.axioms.append(a.z == z3.If(z >= 0, z, -z))
            self.red[a.id] = self.reduce(q * q)
        return atom(a.id)

    def opaque(self, name):
        a = self.new_atom('opaque', name)
        return atom(a.id)

    # ---- trigonometry
    def sincos(self, p):
        p = self.simp(p)
        if p.is_zero():
            return ZERO, ONE
        # angle atom with known sine/cosine?
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].sincos is not None and c in (1, -1):
                s, co = self.atoms[m[0][0]].sincos
                return (s if c == 1 else -s), co
        if p.d[max(p.d)] < 0:
            s, c = self.sincos(-p)
            return -s, c
        k = ('sin', p)
        a = self.by.get(k)
        if a is None and ('sin', p * Fraction(1, 2)) in self.by:
            s, c = self.sincos(p * Fraction(1, 2))
            return self.reduce(2 * s * c), self.reduce(ONE - 2 * s * s)
        if a is None:
            half = None
            if len(p.d) == 1:
                (m, c), = p.d.items()
                if len(m) == 1 and m[0][1] == 1 and c == Fraction(1, 2) and self.atoms[m[0][0]].sincos is not None:
                    half = self.atoms[m[0][0]].sincos
            a = self.new_atom('sin', 'sin', (p,))
            b = self.new_atom('cos', 'cos', (p,))
            a.pair, b.pair = b, a
            self.by[k] = a
            za = self.zpoly(p)
            if p.const() is not None:
                # constant angle: the exact values are irrational; tight rational enclosures
                x = float(p.const())
                for v, f in ((a, math.sin(x)), (b, math.cos(x))):
                    self.axioms += [v.z >= z3.RealVal(Fraction(f) - Fraction(1, 10 ** 12)), v.z <= z3.RealVal(Fraction(f) + Fraction(1, 10 ** 12))]
            if half is None:
                self.red[b.id] = ONE - atom(a.id) * atom(a.id)
                self.axioms.append(a.z * a.z + b.z * b.z == 1)
            else:
                S, C = half
                self.red[a.id] = (ONE - C) * Fraction(1, 2)
                self.red[b.id] = (ONE + C) * Fraction(1, 2)
                self.redpair[(a.id, b.id)] = S * Fraction(1, 2)
                self.axioms += [a.z * a.z + b.z * b.z == 1, 2 * a.z * b.z == self.zpoly(S), b.z * b.z - a.z * a.z == self.zpoly(C)]
            self.axioms.append(z3.Implies(za == 0, z3.And(a.z == 0, b.z == 1)))
        return atom(a.id), atom(a.pair.id)

    def cosqrt(self, x, why):
        """sqrt(1 - x^2), defined for -1 <= x <= 1"""
        q = self.simp(ONE - self.reduce(x * x))
        zx = self.zpoly(x)
        self.add_def(z3.Or(self.zc(q) >= 0, z3.And(zx <= 1, zx >= -1)), why)
        old, self.nodef = self.nodef, True
        r = self.sqrt(q, why)
        self.nodef = old
        return r

    def acos(self, x):
        x = self.simp(x)
        k = ('acos', x)
        a = self.by.get(k)
        if a is None:
            a = self.new_atom('acos', 'acos', (x,), True)
            self.by[k] = a
            s = self.cosqrt(x, 'acos domain')
            a.sincos = (s, x)
            zx = self.zpoly(x)
            self.axioms += [a.z >= 0, a.z <= z3.RealVal('3.1415927'), (a.z == 0) == (zx == 1),
                            (a.z * 2 > z3.RealVal('3.14159265358979')) == (zx <= 0)]
        else:
            self.cosqrt(x, 'acos domain')
        return atom(a.id)

    def asin(self, x):
        x = self.simp(x)
        k = ('asin', x)
        a = self.by.get(k)
        if a is None:
            a = self.new_atom('asin', 'asin', (x,))
            self.by[k] = a
            c = self.cosqrt(x, 'asin domain')
            a.sincos = (x, c)
            zx = self.zpoly(x)
            self.axioms += [a.z >= z3.RealVal('-1.5707964'), a.z <= z3.RealVal('1.5707964'), (a.z == 0) == (zx == 0), (a.z > 0) == (zx > 0)]
        return atom(a.id)

    def atan2(self, y, x):
        y, x = self.simp(y), self.simp(x)
        k = ('atan2', y, x)
        a = self.by.get(k)
        if a is None:
            a = self.new_atom('atan2', 'atan2', (y, x), self.is_nonneg(y))
            self.by[k] = a
            n2 = self.simp(y * y + x * x)
            h = self.sqrt(n2, 'atan2', nonneg=True)
            hint = next((q for q in self.hints if self.simp(ONE - q * q - n2).is_zero()), None)
            if hint is not None:
                # y^2 + x^2 = 1 - q^2
                self.add_def(z3.And(self.zpoly(hint) < 1, self.zpoly(hint) > -1), 'atan2(0,0)')
                self.nodef = True
            ih = self.inv(h, 'atan2(0,0)')
            self.nodef = False
            a.sincos = (self.simp(y * ih), self.simp(x * ih))
            zy, zx = self.zpoly(y), self.zpoly(x)
            self.axioms += [a.z >= z3.RealVal('-3.1415927'), a.z <= z3.RealVal('3.1415927'),
                            z3.Implies(zy > 0, a.z > 0), z3.Implies(zy < 0, a.z < 0),
                            z3.Implies(z3.And(zy == 0, zx > 0), a.z == 0),
                            z3.Implies(z3.And(zy == 0, zx < 0), a.z > 3)]
        return atom(a.id)

    # ---------------------------------------------------------------- terms
    def tr(self, t):
        """term -> Poly (iterative over the DAG to avoid deep recursion)"""
        r = self.cache.get(t.id)
        if r is not None:
            return r
        st = [t]
        while st:
            u = st[-1]
            if u.id in self.cache:
                st.pop()
                continue
            pend = [a for a in u.args if a.sort in ('f32', 'f64') and a.id not in self.cache] \
                if u.op not in ('ite', 'i2f') else []
            if u.op == 'ite':
                pend = [a for a in u.args[1:] if a.id not in self.cache]
            if pend:
                st.extend(pend)
                continue
            sv = self.cur
            self.cur = u.id
            try:
                self.cache[u.id] = self.tr1(u)
            finally:
                self.cur = sv
            st.pop()
        return self.cache[t.id]

    def defs_of(self, t):
        """definedness obligations of a term: [(z3 bool, text)], guarded by the selection conditions they sit under"""
        st = [t]
        D = self.dcache
        while st:
            u = st[-1]
            if u.id in D:
                st.pop()
                continue
            pend = [a for a in u.args if a.id not in D]
            if pend:
                st.extend(pend)
                continue
            acc = {}
            for zb, tx in self.tdefs.get(u.id, ()):
                acc[zb.get_id()] = (zb, tx)
            if u.op == 'ite':
                c = self.trb(u.args[0])
                for zb, tx in D[u.args[0].id]:
                    acc[zb.get_id()] = (zb, tx)
                for a, g in ((u.args[1], c), (u.args[2], z3.Not(c))):
                    for zb, tx in D[a.id]:
                        e = z3.Implies(g, zb)
                        acc[e.get_id()] = (e, tx)
            else:
                for a in u.args:
                    for zb, tx in D[a.id]:
                        acc[zb.get_id()] = (zb, tx)
            D[u.id] = list(acc.values())
            st.pop()
        return D[t.id]

    def tr1(self, t):
        op = t.op
        C = self.cache
        if op == 'var':
            return self.var(t.val)
        if op == 'const':
            v = TM.fval(t)
            if math.isnan(v) or math.isinf(v):
                self.add_def(z3.BoolVal(False), 'non-finite constant')
                return self.opaque('nonfinite')
            return P(Fraction(v))
        a = [C.get(x.id) for x in t.args]
        if op == 'fadd':
            return a[0] + a[1]
        if op == 'fsub':
            return a[0] - a[1]
        if op == 'fmul':
            return self.mul(a[0], a[1])
        if op == 'fneg':
            return -a[0]
        if op == 'fdiv':
            return self.mul(a[0], self.inv(a[1], 'division'))
        if op == 'frcp':
            return self.approx(self.inv(a[0], 'rcp'), t)
        if op == 'frsqrt':
            s = self.sqrt(a[0], 'rsqrt', nonneg_term(t.args[0]))
            return self.approx(self.mul(s, self.inv(a[0], 'rsqrt')), t)
        if op == 'fsqrt':
            return self.sqrt(a[0], 'sqrt', nonneg_term(t.args[0]))
        if op in ('fpext', 'fptrunc'):
            return a[0]
        if op == 'fabs':
            return self.absp(self.simp(a[0]))
        if op == 'ite':
            return self.ite(t.args[0], a[1], a[2])
        if op == 'i2f':
            return self.i2f(t.args[0], t.val)
        if op == 'fcall':
            f = t.val
            if f == 'sin':
                return self.sincos(a[0])[0]
            if f == 'cos':
                return self.sincos(a[0])[1]
            if f == 'tan':
                s, c = self.sincos(a[0])
                return self.mul(s, self.inv(c))
            if f == 'acos':
                return self.acos(a[0])
            if f == 'asin':
                return self.asin(a[0])
            if f == 'atan2':
                return self.atan2(a[0], a[1])
            if f == 'atan':
                return self.atan2(a[0], ONE)
            if f == 'hypot':
                return self.sqrt(self.simp(a[0] * a[0] + a[1] * a[1]))
            return self.libm(f, a)
        if op == 'b2f':
            return self.bits_of(t)
        if op == 'undef':
            raise Unencodable('undefined value in arithmetic')
        raise Unencodable('real ' + op)

    def ivar(self, name, w=32):
        """the value of a signed integer input"""
        k = ('var', 'i2f_' + name)
        if k not in self.by:
            self.var('i2f_' + name)
            bv = self.ints[name] = z3.BitVec(name, w)
            self.axioms.append(self.by[k].z == z3.ToReal(z3.BV2Int(bv, is_signed=True)))
        return atom(self.by[k].id)

    def bits_of(self, t):
        """a float put together from bits: with the low bits of the mantissa cleared, near the original; else some number"""
        x = t.args[0]
        if x.op == 'and' and t.sort == 'f32':
            for u, m in (x.args, x.args[::-1]):
                low = ~m.val & 0xffffffff if m.op == 'const' else 0
                if u.op == 'f2b' and low and low & (low + 1) == 0 and low < 1 << 23:
                    y = self.simp(self.tr(u.args[0]))
                    k = ('mask', low, y)
                    a = self.by.get(k)
                    if a is None:
                        z = self.zc(y)
                        a = self.new_atom('opaque', 'mask')
                        self.by[k] = a
                        f = z3.Q(2 ** 23 - low, 2 ** 23)
                        self.axioms += [z3.Implies(z >= 0, z3.And(a.z <= z, a.z >= f * z)), z3.Implies(z <= 0, z3.And(a.z >= z, a.z <= f * z))]
                    return atom(a.id)
        k = ('bits', t.id)
        if k not in self.by:
            self.by[k] = self.new_atom('opaque', 'bits')
        return atom(self.by[k].id)

    def libm(self, f, args):
        """any other library function: some function of its arguments, with what is cheap to say about it"""
        args = tuple(self.simp(x) for x in args)
        k = ('libm', f) + args
        a = self.by.get(k)
        if a is None:
            for x in args:
                self.zc(x)
            a = self.new_atom('libm', 'libm_' + f, args)
            self.by[k] = a
            z = [self.zc(x) for x in args]
            if f == 'floor':
                self.axioms += [a.z <= z[0], a.z > z[0] - 1]
            elif f == 'ceil':
                self.axioms += [a.z >= z[0], a.z < z[0] + 1]
            elif f == 'trunc':
                self.axioms += [z3.Implies(z[0] >= 0, z3.And(a.z >= 0, a.z <= z[0], a.z > z[0] - 1)),
                                z3.Implies(z[0] <= 0, z3.And(a.z <= 0, a.z >= z[0], a.z < z[0] + 1))]
            elif f in ('round', 'rint', 'nearbyint', 'roundeven'):
                self.axioms += [2 * a.z <= 2 * z[0] + 1, 2 * a.z >= 2 * z[0] - 1]
            elif f in ('fmod', 'remainder'):
                self.axioms += [z3.Implies(z[1] > 0, z3.And(a.z < z[1], a.z > -z[1])),
                                z3.Implies(z3.And(z[0] < z[1], z[0] > -z[1], z3.BoolVal(f == 'fmod')), a.z == z[0])]
            elif f in ('exp', 'exp2'):
                self.axioms += [a.z > 0]
        return atom(a.id)

    def i2f(self, x, signed):
        """the exact value of an integer term (rounding of the conversion is outside, like all rounding)"""
        while x.op == 'zext' or x.op == 'sext' and signed:
            signed = x.op == 'sext'
            x = x.args[0]
        if x.op == 'var' and signed:
            return self.ivar(str(x.val), x.sort)
        if x.op == 'f2i' and x.val == signed:
            return self.libm('trunc', [self.tr(x.args[0])])
        bv = z3.simplify(self.trbv(x))
        k = ('i2f', bv.get_id(), signed)
        a = self.by.get(k)
        if a is None:
            a = self.new_atom('i2f', 'i2f', (bv,), not signed)
            self.by[k] = a
            self.axioms.append(a.z == z3.ToReal(z3.BV2Int(bv, is_signed=signed)))
        return atom(a.id)

    def ite(self, c, x, y):
        x, y = self.simp(x), self.simp(y)
        if x == y:
            return x
        r = self.ite_zero(c, x, y)
        if r is not None:
            return r
        zc = self.trb(c)
        if z3.is_true(zc):
            return x
        if z3.is_false(zc):
            return y
        k = ('ite', zc.get_id(), x, y)
        a = self.by.get(k)
        if a is None:
            a = self.new_atom('ite', 'ite', (zc, x, y), self.is_nonneg(x) and self.is_nonneg(y))
            self.by[k] = a
            self.axioms.append(a.z == z3.If(zc, self.zpoly(x), self.zpoly(y)))
        return atom(a.id)

    def ite_zero(self, c, x, y):
        """(P == 0 ? 0 : y) is y itself when y is a multiple of P or of sqrt(P)"""
        while c.op == 'not':
            c, x, y = c.args[0], y, x
        if c.op != 'fcmp' or c.val != 'oeq' or not x.is_zero():
            return None
        D = self.simp(self.tr(c.args[0]) - self.tr(c.args[1]))
        if D.is_zero() or D.const() is not None:
            return None
        D = D * (F1 / D.d[max(D.d)])
        ats = [a.id for a in self.atoms if a.kind in ('sqrt', 'abs') and
               (lambda q: q * (F1 / q.d[max(q.d)]))(a.args[0]) == D]
        if len(D.d) == 1:
            (m, k), = D.d.items()
            if len(m) == 1:
                ats.append(m[0][0])
        if ats and all(any(a in ats for a, e in m) for m in y.d):
            # the other factors must be finite where P == 0: no reciprocal of the same quantity
            if not any(self.atoms[a].kind == 'inv' for m in y.d for a, e in m):
                return y
        return None

    def approx(self, p, t):
        if not self.eps:
            return p
        k = ('eps', t.id)
        a = self.by.get(k)
        if a is None:
            a = self.new_atom('eps', 'eps')
            self.by[k] = a
            self.axioms += [a.z <= z3.RealVal(EPS_APPROX), a.z >= -z3.RealVal(EPS_APPROX)]
        return self.mul(p, ONE + atom(a.id))

    def trb(self, t):
        r = self.bcache.get(t.id)
        if r is None:
            r = self.trb1(t)
            self.bcache[t.id] = r
        return r

    def cmp0(self, p, rel):
        """z3 for p rel 0"""
        p = self.simp(p)
        c = p.const()
        if c is not None:
            return z3.BoolVal({'<': c < 0, '<=': c <= 0, '==': c == 0}[rel])
        k, z = self.zcut(p)
        if k < 0:
            return {'<': z > 0, '<=': z >= 0, '==': z == 0}[rel]
        return {'<': z < 0, '<=': z <= 0, '==': z == 0}[rel]

    def trb1(self, t):
        op = t.op
        if op == 'const':
            return z3.BoolVal(bool(t.val))
        if op == 'not':
            return z3.Not(self.trb(t.args[0]))
        if op == 'and':
            return z3.And(self.trb(t.args[0]), self.trb(t.args[1]))
        if op == 'xor':
            return z3.Xor(self.trb(t.args[0]), self.trb(t.args[1]))
        if op == 'ite':
            return z3.If(self.trb(t.args[0]), self.trb(t.args[1]), self.trb(t.args[2]))
        if op == 'fcmp':
            if t.val == 'uno':
                return z3.BoolVal(False)
            import math as _m
            for i, a in enumerate(t.args):
                if a.op == 'const' and _m.isinf(TM.fval(a)):
                    if t.val == 'oeq':
                        return z3.BoolVal(False)
                    big = (TM.fval(a) > 0) == (i == 1)
                    return z3.BoolVal(big)
            x, y = self.tr(t.args[0]), self.tr(t.args[1])
            if t.val == 'olt':
                return self.cmp0(x - y, '<')
            if t.val == 'ole':
                return self.cmp0(x - y, '<=')
            if t.val == 'oeq':
                return self.cmp0(x - y, '==')
        if op == 'fsign':
            return self.cmp0(self.tr(t.args[0]), '<')
        if op == 'icmp':
            x, y = self.trbv(t.args[0]), self.trbv(t.args[1])
            if t.val == 'eq':
                return x == y
            if t.val == 'ult':
                return z3.ULT(x, y)
            if t.val == 'slt':
                return x < y
        if op == 'var':
            return z3.Bool(t.val)
        raise Unencodable('real bool %r' % (t,))

    def trbv(self, t):
        op = t.op
        w = t.sort
        if op == 'const':
            return z3.BitVecVal(t.val, w)
        if op == 'var':
            return z3.BitVec(t.val, w)
        if op == 'ite':
            return z3.If(self.trb(t.args[0]), self.trbv(t.args[1]), self.trbv(t.args[2]))
        if op == 'mkbits':
            r = z3.BitVecVal(0, w)
            for i, b in enumerate(t.args):
                r = r | z3.If(self.trb(b), z3.BitVecVal(1 << i, w), z3.BitVecVal(0, w))
            return r
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            x, y = self.trbv(t.args[0]), self.trbv(t.args[1])
            return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                    'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
                    'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        if op == 'zext':
            return z3.ZeroExt(w - t.args[0].sort, self.trbv(t.args[0]))
        if op == 'sext':
            return z3.SignExt(w - t.args[0].sort, self.trbv(t.args[0]))
        if op == 'extract':
            return z3.Extract(t.val[0], t.val[1], self.trbv(t.args[0]))
        if op == 'concat':
            return z3.Concat(self.trbv(t.args[0]), self.trbv(t.args[1]))
        raise Unencodable('bv in real %r' % (t,))
