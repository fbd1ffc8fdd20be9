"""Reference model: the projective geometric algebra R*(3,0,1).

Independent of Klein: a multivector is a dict {bitmask: coefficient} over e0,e1,e2,e3 with
e0^2=0, e1^2=e2^2=e3^2=1; coefficients are any ring elements (Poly, Fraction, mpf ...)."""

METRIC = (0, 1, 1, 1)


def blade_mul(a, b):
    """(sign, blade) of the geometric product of two basis blades given as bitmasks"""
    s = 1
    # count transpositions to bring a*b to canonical order
    t = a >> 1
    n = 0
    while t:
        n += bin(t & b).count('1')
        t >>= 1
    if n & 1:
        s = -s
    c = a & b
    i = 0
    while c:
        if c & 1:
            s *= METRIC[i]
        c >>= 1
        i += 1
    return s, a ^ b


GP = [[blade_mul(a, b) for b in range(16)] for a in range(16)]


def grade(b):
    return bin(b).count('1')


class MV:
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d[k] + v if k in d else v
        return MV(d)

    def __neg__(self):
        return MV({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def prod(self, o, keep):
        d = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                s, c = GP[a][b]
                if s == 0 or not keep(grade(a), grade(b), grade(c)):
                    continue
                v = x * y
                if s < 0:
                    v = -v
                d[c] = d[c] + v if c in d else v
        return MV(d)

    def __mul__(self, o):
        if not isinstance(o, MV):
            return MV({k: v * o for k, v in self.d.items()})
        return self.prod(o, lambda a, b, c: True)

    def __xor__(self, o):
        # exterior product: also nonzero for null metric, so do it by disjointness
        d = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                if a & b:
                    continue
                s, c = GP[a][b]
                v = x * y
                if s < 0:
                    v = -v
                d[c] = d[c] + v if c in d else v
        return MV(d)

    def __or__(self, o):
        """symmetric inner product"""
        return self.prod(o, lambda a, b, c: c == abs(a - b))

    def rev(self):
        return MV({k: (-v if (grade(k) * (grade(k) - 1) // 2) & 1 else v) for k, v in self.d.items()})

    def dual(self):
        """Poincare dual in Klein's convention: maps each named basis element to the complementary one."""
        return MV.from_named({DUALN[n]: v for n, v in self.named().items()})

    def undual_eq(self):
        return self.dual()

    def __and__(self, o):
        return (self.dual() ^ o.dual()).dual()

    def named(self):
        out = {}
        for k, v in self.d.items():
            n, s = NAMED[k]
            out[n] = v if s > 0 else -v
        return out

    def get(self, name, zero=0):
        b, s = BLADE[name]
        v = self.d.get(b)
        if v is None:
            return zero
        return v if s > 0 else -v

    def grade_part(self, g):
        return MV({k: v for k, v in self.d.items() if grade(k) == g})

    @staticmethod
    def from_named(nd):
        d = {}
        for n, v in nd.items():
            b, s = BLADE[n]
            d[b] = v if s > 0 else -v
        return MV(d)


def _blade(name):
    if name == '1':
        return 0, 1
    idx = [int(c) for c in name[1:]]
    s, b = 1, 0
    for i in idx:
        s2, b = blade_mul(b, 1 << i)
        # distinct indices: metric never used
        s *= s2
    return b, s


NAMES = ['1', 'e0', 'e1', 'e2', 'e3', 'e01', 'e02', 'e03', 'e12', 'e31', 'e23', 'e032', 'e013', 'e021', 'e123', 'e0123']
BLADE = {n: _blade(n) for n in NAMES}
NAMED = {b: (n, s) for n, (b, s) in BLADE.items()}
# Poincare duality used by Klein: !plane(abcd) is the point with the same coordinates, !line swaps the two parts
DUALN = {'1': 'e0123', 'e0123': '1', 'e0': 'e123', 'e123': 'e0', 'e1': 'e032', 'e032': 'e1', 'e2': 'e013',
         'e013': 'e2', 'e3': 'e021', 'e021': 'e3', 'e01': 'e23', 'e23': 'e01', 'e02': 'e31', 'e31': 'e02',
         'e03': 'e12', 'e12': 'e03'}

# Klein's lane layout (least significant lane first)
LANES = {
    'p0': ['e0', 'e1', 'e2', 'e3'],
    'p1': ['1', 'e23', 'e31', 'e12'],
    'p2': ['e0123', 'e01', 'e02', 'e03'],
    'p3': ['e123', 'e032', 'e013', 'e021'],
}
