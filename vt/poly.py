"""Exact polynomials over Q in integer-indexed atoms; monomial = sorted tuple of (atom, exp)."""
from fractions import Fraction


class Poly:
    __slots__ = ('d', '_h')

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._h = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.d.items()))
        return self._h

    def is_zero(self):
        return not self.d

    def const(self):
        """value if constant else None"""
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __add__(self, o):
        o = P(o)
        if len(o.d) > len(self.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return Poly(d)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __eq__(self, o):
        return self.d == P(o).d

    def __hash__(self):
        return hash(self.key())

    def atoms(self):
        s = set()
        for m in self.d:
            for a, _ in m:
                s.add(a)
        return s

    def degree_in(self, a):
        n = 0
        for m in self.d:
            for x, e in m:
                if x == a and e > n:
                    n = e
        return n

    def coeffs_in(self, a):
        """list g_j with self = sum g_j a^j"""
        n = self.degree_in(a)
        out = [dict() for _ in range(n + 1)]
        for m, c in self.d.items():
            e = 0
            rest = []
            for x, k in m:
                if x == a:
                    e = k
                else:
                    rest.append((x, k))
            out[e][tuple(rest)] = c
        return [Poly(x) for x in out]

    def __repr__(self):
        if not self.d:
            return '0'
        return ' + '.join('%s*%s' % (c, '*'.join('x%d^%d' % t for t in m)) for m, c in sorted(self.d.items()))


_mm = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = _mm.get((a, b))
    if r is not None:
        return r
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        if a[i][0] == b[j][0]:
            out.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = tuple(out)
    if len(_mm) < 2000000:
        _mm[(a, b)] = r
    return r


def P(x):
    if isinstance(x, Poly):
        return x
    if not isinstance(x, int):
        x = Fraction(x)
        if x.denominator == 1:
            x = x.numerator
    return Poly({(): x} if x else {})


ZERO = P(0)
ONE = P(1)


def atom(i):
    return Poly({((i, 1),): 1})
