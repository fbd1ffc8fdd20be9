"""Hash-consed term DAG produced by the symbolic executor.

Sorts: 'f32' 'f64' 'bool' or an int (bit-vector width).  Constants carry the *bit pattern* in .val.
Every rewrite below is exact under IEEE-754 (the bit pattern of the result is unchanged), so the same
DAG can be read bit-precisely (fp backend) or over the reals (real backend).
"""
import math
import struct
import numpy as np

np.seterr(all='ignore')

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'val', 'id')

    def __repr__(self):
        if self.op == 'const':
            if self.sort == 'f32':
                return repr(bits_f32(self.val))
            if self.sort == 'f64':
                return repr(bits_f64(self.val))
            return '%s:%s' % (self.val, self.sort)
        if self.op == 'var':
            return str(self.val)
        v = '' if self.val is None else '[%s]' % (self.val,)
        return '(%s%s %s)' % (self.op, v, ' '.join(map(repr, self.args)))


def mk(op, args=(), sort=None, val=None):
    k = (op, tuple(a.id for a in args), sort, val)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t


def f32_bits(x):
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def bits_f32(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]


def f64_bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits_f64(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def np32(b):
    return np.array([b], dtype=np.uint32).view(np.float32)[0]


def np64(b):
    return np.array([b], dtype=np.uint64).view(np.float64)[0]


def npbits(x):
    if isinstance(x, np.float32):
        return int(np.array([x], dtype=np.float32).view(np.uint32)[0])
    return int(np.array([x], dtype=np.float64).view(np.uint64)[0])


def fconst(x, sort='f32'):
    return mk('const', (), sort, f32_bits(x) if sort == 'f32' else f64_bits(x))


def fbits(b, sort='f32'):
    return mk('const', (), sort, b)


def fval(t):
    return bits_f32(t.val) if t.sort == 'f32' else bits_f64(t.val)


def bconst(v, w):
    return mk('const', (), w, v & ((1 << w) - 1))


TRUE = mk('const', (), 'bool', 1)
FALSE = mk('const', (), 'bool', 0)


def boolc(b):
    return TRUE if b else FALSE


def var(name, sort='f32'):
    return mk('var', (), sort, name)


def undef(sort):
    return mk('undef', (), sort)


def is_const(t):
    return t.op == 'const'


def width(sort):
    return {'f32': 32, 'f64': 64, 'bool': 1}.get(sort, sort)


def any_undef(args):
    for a in args:
        if a.op == 'undef':
            return True
    return False


# ---------------------------------------------------------------- floats
def fop(op, a, b):
    s = a.sort
    if a.op == 'undef' or b.op == 'undef':
        return undef(s)
    if a.op == 'const' and b.op == 'const':
        c = np32 if s == 'f32' else np64
        x, y = c(a.val), c(b.val)
        if op == 'fadd':
            r = x + y
        elif op == 'fsub':
            r = x - y
        elif op == 'fmul':
            r = x * y
        elif op == 'fdiv':
            r = x / y
        else:
            r = None
        if r is not None:
            if np.isnan(r):
                return fbits(0x7fc00000 if s == 'f32' else 0x7ff8000000000000, s)
            return mk('const', (), s, npbits(r))
    return mk(op, (a, b), s)


def fneg(a):
    if a.op == 'undef':
        return a
    if a.op == 'const':
        w = width(a.sort)
        return mk('const', (), a.sort, a.val ^ (1 << (w - 1)))
    if a.op == 'fneg':
        return a.args[0]
    if a.op == 'ite':
        return ite(a.args[0], fneg(a.args[1]), fneg(a.args[2]))
    return mk('fneg', (a,), a.sort)


def fabs(a):
    if a.op == 'undef':
        return a
    if a.op == 'const':
        w = width(a.sort)
        return mk('const', (), a.sort, a.val & ~(1 << (w - 1)))
    if a.op in ('fneg', 'fabs'):
        return fabs(a.args[0])
    return mk('fabs', (a,), a.sort)


def fun(op, a):
    """unary: fsqrt frcp frsqrt"""
    if a.op == 'undef':
        return a
    if a.op == 'const' and op == 'fsqrt':
        c = np32 if a.sort == 'f32' else np64
        r = np.sqrt(c(a.val))
        if not np.isnan(r):
            return mk('const', (), a.sort, npbits(r))
    return mk(op, (a,), a.sort)


def fcall(name, args, sort):
    if any_undef(args):
        return undef(sort)
    return mk('fcall', tuple(args), sort, name)


def fcmp(pred, a, b):
    if pred == 'true':
        return TRUE
    if pred == 'false':
        return FALSE
    if a.op == 'undef' or b.op == 'undef':
        return undef('bool')
    if a.op == 'const' and b.op == 'const':
        x, y = fval(a), fval(b)
        un = math.isnan(x) or math.isnan(y)
        if pred == 'ord':
            return boolc(not un)
        if pred == 'uno':
            return boolc(un)
        base = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        if pred[0] == 'o':
            return boolc(base and not un)
        return boolc(base or un)
    # normalise gt/ge to lt/le
    sw = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}
    if pred in sw:
        pred = sw[pred]
        a, b = b, a
    # unordered -> not ordered-opposite
    if pred == 'ult':
        return bnot(mk('fcmp', (b, a), 'bool', 'ole'))
    if pred == 'ule':
        return bnot(mk('fcmp', (b, a), 'bool', 'olt'))
    if pred == 'une':
        return bnot(fcmp('oeq', a, b))
    if pred == 'ord':
        return bnot(fcmp('uno', a, b))
    if pred == 'one':
        return bor2(fcmp('olt', a, b), fcmp('olt', b, a))
    if pred == 'ueq':
        return bnot(fcmp('one', a, b))
    if pred in ('oeq', 'uno') and a.id > b.id:
        a, b = b, a
    return mk('fcmp', (a, b), 'bool', pred)


def fsignbit(a):
    """Bool: sign bit of a float term"""
    if a.op == 'undef':
        return undef('bool')
    if a.op == 'const':
        return boolc(a.val >> (width(a.sort) - 1))
    if a.op == 'fneg':
        return bnot(fsignbit(a.args[0]))
    if a.op == 'fabs':
        return FALSE
    if a.op == 'ite':
        return bite(a.args[0], fsignbit(a.args[1]), fsignbit(a.args[2]))
    if a.op == 'b2f':
        return extract_bool(a.args[0], width(a.sort) - 1)
    return mk('fsign', (a,), 'bool')


def extract_bool(bv, i):
    e = extract(bv, i, i)
    if e.op == 'const':
        return boolc(e.val)
    if e.op == 'undef':
        return undef('bool')
    if e.op == 'ite':
        return bite(e.args[0], extract_bool(e.args[1], 0), extract_bool(e.args[2], 0))
    if e.op == 'xor':
        return bxor2(extract_bool(e.args[0], 0), extract_bool(e.args[1], 0))
    return icmp('eq', e, bconst(1, 1))


# ---------------------------------------------------------------- bool
def bnot(a):
    if a.op == 'undef':
        return a
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'bool')


def band2(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a.op == 'undef' or b.op == 'undef':
        return undef('bool')
    if a is b:
        return a
    if a is bnot(b):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), 'bool')


def bor2(a, b):
    return bnot(band2(bnot(a), bnot(b))) if not (a.op == 'undef' or b.op == 'undef') else (
        TRUE if (a is TRUE or b is TRUE) else undef('bool'))


def bxor2(a, b):
    if a.op == 'undef' or b.op == 'undef':
        return undef('bool')
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE:
        return bnot(b)
    if b is TRUE:
        return bnot(a)
    if a is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('xor', (a, b), 'bool')


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'undef':
        return undef('bool')
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a is FALSE:
        return band2(bnot(c), b)
    if b is FALSE:
        return band2(c, a)
    if a is TRUE:
        return bor2(c, b)
    if b is TRUE:
        return bor2(bnot(c), a)
    return mk('ite', (c, a, b), 'bool')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'undef':
        return undef(a.sort)
    if a.sort == 'bool':
        return bite(c, a, b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite':
        if a.args[0] is c:
            a = a.args[1]
    if b.op == 'ite':
        if b.args[0] is c:
            b = b.args[2]
    if a is b:
        return a
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0] and a.args[1] is b.args[2] and a.args[2] is b.args[1] \
            and a.args[1].op == 'const' and a.args[2].op == 'const' and isinstance(a.sort, int):
        # swapped by c
        return ite(bxor2(c, a.args[0]), b.args[1], b.args[2])
    return mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- bit-vectors
def f2b(a):
    if a.sort not in ('f32', 'f64'):
        return a
    w = width(a.sort)
    if a.op == 'undef':
        return undef(w)
    if a.op == 'const':
        return bconst(a.val, w)
    if a.op == 'b2f':
        return a.args[0]
    if a.op == 'ite':
        return ite(a.args[0], f2b(a.args[1]), f2b(a.args[2]))
    return mk('f2b', (a,), w)


def b2f(a, sort):
    if a.op == 'undef':
        return undef(sort)
    if a.op == 'const':
        return fbits(a.val, sort)
    if a.op == 'f2b' and a.args[0].sort == sort:
        return a.args[0]
    if a.op == 'ite':
        return ite(a.args[0], b2f(a.args[1], sort), b2f(a.args[2], sort))
    return mk('b2f', (a,), sort)


def tobits(a):
    """any scalar term -> bit-vector term"""
    if a.sort == 'bool':
        return ite(a, bconst(1, 1), bconst(0, 1)) if a.op != 'undef' else undef(1)
    return f2b(a)


def _s(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def bop(op, a, b):
    w = a.sort
    if w == 'bool':
        if op == 'and':
            return band2(a, b)
        if op == 'or':
            return bor2(a, b)
        if op in ('xor', 'add', 'sub'):
            return bxor2(a, b)
        if op == 'mul':
            return band2(a, b)
        raise ValueError('i1 ' + op)
    full = (1 << w) - 1
    if op in ('and', 'or', 'xor', 'add', 'mul') and a.op == 'const' and b.op != 'const':
        a, b = b, a
    if op == 'and':
        if b.op == 'const' and b.val == 0:
            return b
        if a.op == 'const' and a.val == 0:
            return a
    if op == 'or' and b.op == 'const' and b.val == full:
        return b
    if a.op == 'undef' or b.op == 'undef':
        return undef(w)
    if a.op == 'const' and b.op == 'const':
        x, y = a.val, b.val
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y if y < w else None
        elif op == 'lshr':
            r = x >> y if y < w else None
        elif op == 'ashr':
            r = _s(x, w) >> y if y < w else None
        elif op == 'udiv':
            r = x // y if y else None
        elif op == 'urem':
            r = x % y if y else None
        elif op == 'sdiv':
            if y == 0:
                r = None
            else:
                p, q = _s(x, w), _s(y, w)
                r = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
        elif op == 'srem':
            if y == 0:
                r = None
            else:
                p, q = _s(x, w), _s(y, w)
                r = abs(p) % abs(q) * (-1 if p < 0 else 1)
        else:
            raise ValueError(op)
        if r is None:
            return undef(w)
        return bconst(r, w)
    if b.op == 'const':
        if b.val == 0 and op in ('or', 'xor', 'add', 'sub', 'shl', 'lshr', 'ashr'):
            return a
        if op == 'and' and b.val == full:
            return a
        if op == 'mul' and b.val == 1:
            return a
        if op == 'mul' and b.val == 0:
            return b
        if a.op == 'f2b':
            sg = 1 << (w - 1)
            if op == 'xor' and b.val == sg:
                return f2b(fneg(a.args[0]))
            if op == 'and' and b.val == full ^ sg:
                return f2b(fabs(a.args[0]))
            if op == 'and' and b.val == sg:
                return ite(fsignbit(a.args[0]), bconst(sg, w), bconst(0, w))
            if op == 'or' and b.val == sg:
                return f2b(fneg(fabs(a.args[0])))
            if op in ('lshr', 'ashr') and b.val == w - 1:
                return ite(fsignbit(a.args[0]), bconst(1 if op == 'lshr' else full, w), bconst(0, w))
        if op in ('and', 'or', 'xor') and a.op == op and a.args[1].op == 'const':
            return bop(op, a.args[0], bop(op, a.args[1], b))
    if b.op == 'const' and b.val and b.val & (b.val - 1) == 0:
        if op == 'urem':
            return bop('and', a, bconst(b.val - 1, w))
        if op == 'udiv':
            return bop('lshr', a, bconst(b.val.bit_length() - 1, w))
    if op == 'sub' and a.op == 'const' and b.op == 'ite' and b.args[1].op == 'const' and b.args[2].op == 'const':
        return ite(b.args[0], bop(op, a, b.args[1]), bop(op, a, b.args[2]))
    if op == 'mul':
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and x.args[1].op == 'const' and x.args[2].op == 'const' and {x.args[1].val, x.args[2].val} == {1, full}:
                n = bop('sub', bconst(0, w), y)
                return ite(x.args[0], y, n) if x.args[1].val == 1 else ite(x.args[0], n, y)
    if op in ('and', 'or') and a is b:
        return a
    if op in ('xor', 'sub') and a is b:
        return bconst(0, w)
    if op in ('and', 'or', 'xor'):
        # distribute over concat
        if a.op == 'concat' or b.op == 'concat':
            c = a if a.op == 'concat' else b
            o = b if c is a else a
            if o.op in ('const', 'concat'):
                lo_w = c.args[1].sort
                hi = bop(op, c.args[0], extract(o, w - 1, lo_w))
                lo = bop(op, c.args[1], extract(o, lo_w - 1, 0))
                return concat(hi, lo)
        if a.op == 'ite' and _maskish(a):
            return ite(a.args[0], bop(op, a.args[1], b), bop(op, a.args[2], b))
        if b.op == 'ite' and _maskish(b):
            return ite(b.args[0], bop(op, a, b.args[1]), bop(op, a, b.args[2]))
    elif b.op == 'const' and a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], bop(op, a.args[1], b), bop(op, a.args[2], b))
    return mk(op, (a, b), w)


def _maskish(t):
    """ite with a constant arm somewhere: distribute bitwise ops over it"""
    return t.args[1].op == 'const' or t.args[2].op == 'const'


def extract(a, hi, lo):
    w = a.sort
    n = hi - lo + 1
    if n == w:
        return a
    if a.op == 'undef':
        return undef(n)
    if a.op == 'const':
        return bconst(a.val >> lo, n)
    if a.op == 'concat':
        lw = a.args[1].sort
        if hi < lw:
            return extract(a.args[1], hi, lo)
        if lo >= lw:
            return extract(a.args[0], hi - lw, lo - lw)
        return concat(extract(a.args[0], hi - lw, 0), extract(a.args[1], lw - 1, lo))
    if a.op == 'f2b' and hi == lo == w - 1:
        return ite(fsignbit(a.args[0]), bconst(1, 1), bconst(0, 1))
    if a.op == 'extract':
        l0 = a.val[1]
        return extract(a.args[0], hi + l0, lo + l0)
    if a.op == 'ite':
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if a.op == 'zext':
        iw = a.args[0].sort
        if hi < iw:
            return extract(a.args[0], hi, lo)
        if lo >= iw:
            return bconst(0, n)
    if a.op == 'sext' and hi < a.args[0].sort:
        return extract(a.args[0], hi, lo)
    if lo == 0 and a.op in ('add', 'sub', 'mul', 'and', 'or', 'xor') and hi < 64 and n in (8, 16, 32):
        return bop(a.op, extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    if n == 1 and (lo == 0 and a.op in ('add', 'sub') or a.op == 'xor' or a.op in ('and', 'or') and a.args[1].op == 'const'):
        return bop('xor' if a.op in ('add', 'sub') else a.op, extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    return mk('extract', (a,), n, (hi, lo))


def concat(hi, lo):
    w = hi.sort + lo.sort
    if hi.op == 'undef' and lo.op == 'undef':
        return undef(w)
    if hi.op == 'const' and lo.op == 'const':
        return bconst((hi.val << lo.sort) | lo.val, w)
    if hi.op == 'extract' and lo.op == 'extract' and hi.args[0] is lo.args[0] and hi.val[1] == lo.val[0] + 1:
        return extract(hi.args[0], hi.val[0], lo.val[1])
    return mk('concat', (hi, lo), w)


def zext(a, w):
    if a.sort == 'bool':
        if a.op == 'undef':
            return undef(w)
        return ite(a, bconst(1, w), bconst(0, w))
    if a.sort == w:
        return a
    if a.op == 'undef':
        return undef(w)
    if a.op == 'const':
        return bconst(a.val, w)
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return mk('zext', (a,), w)


def sext(a, w):
    if a.sort == 'bool':
        if a.op == 'undef':
            return undef(w)
        return ite(a, bconst(-1, w), bconst(0, w))
    if a.sort == w:
        return a
    if a.op == 'undef':
        return undef(w)
    if a.op == 'const':
        return bconst(_s(a.val, a.sort), w)
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return mk('sext', (a,), w)


def trunc(a, n):
    if n == 'bool':
        return extract_bool(a, 0)
    return extract(a, n - 1, 0)


def mkbits(bs, w):
    """bs: list of Bool, lsb first -> bit-vector of width w"""
    if any(b.op == 'undef' for b in bs):
        return undef(w)
    if all(b.op == 'const' for b in bs):
        return bconst(sum(b.val << i for i, b in enumerate(bs)), w)
    return mk('mkbits', tuple(bs), w)


def icmp(pred, a, b):
    if a.sort == 'bool':
        if pred == 'eq':
            return bnot(bxor2(a, b))
        if pred == 'ne':
            return bxor2(a, b)
        a, b = zext(a, 8), zext(b, 8)
        if pred[0] == 's':
            raise ValueError('i1 signed compare')
    if a.op == 'undef' or b.op == 'undef':
        return undef('bool')
    w = a.sort
    if a.op == 'const' and b.op == 'const':
        x, y = a.val, b.val
        if pred[0] == 's':
            x, y = _s(x, w), _s(y, w)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return boolc({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
    if pred == 'ne':
        return bnot(icmp('eq', a, b))
    if a is b:
        return boolc(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
    if pred in ('ugt', 'uge', 'sgt', 'sge'):
        return icmp({'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred], b, a)
    if pred in ('ule', 'sle'):
        return bnot(icmp({'ule': 'ult', 'sle': 'slt'}[pred], b, a))
    if pred == 'eq':
        if a.op == 'const':
            a, b = b, a
        if b.op == 'const':
            if a.op == 'mkbits':
                n = len(a.args)
                if b.val >> n:
                    return FALSE
                r = TRUE
                for i, c in enumerate(a.args):
                    r = band2(r, c if (b.val >> i) & 1 else bnot(c))
                return r
            if a.op == 'ite' and (a.args[1].op == 'const' or a.args[2].op == 'const'):
                return bite(a.args[0], icmp('eq', a.args[1], b), icmp('eq', a.args[2], b))
            if a.op == 'zext':
                iw = a.args[0].sort
                if b.val >> iw:
                    return FALSE
                return icmp('eq', a.args[0], bconst(b.val, iw))
            if a.op == 'and' and a.args[0].op == 'mkbits' and a.args[1].op == 'const':
                m = a.args[1].val
                r = TRUE
                if b.val & ~m:
                    return FALSE
                for i, c in enumerate(a.args[0].args):
                    if (m >> i) & 1:
                        r = band2(r, c if (b.val >> i) & 1 else bnot(c))
                return r
            if a.op == 'and' and a.args[1].op == 'const' and a.args[1].val and a.args[1].val & (a.args[1].val - 1) == 0:
                m = a.args[1].val
                if b.val not in (0, m):
                    return FALSE
                e = extract_bool(a.args[0], m.bit_length() - 1)
                return e if b.val else bnot(e)
            if a.op == 'xor' and a.args[1].op == 'const':
                return icmp('eq', a.args[0], bconst(a.args[1].val ^ b.val, w))
    # sign tests on the bits of a float
    if a.op == 'f2b' and b.op == 'const' and (pred, b.val) in (('slt', 0), ('ult', 1 << (w - 1))):
        return fsignbit(a.args[0]) if pred == 'slt' else bnot(fsignbit(a.args[0]))
    if b.op == 'f2b' and a.op == 'const' and a.val == ((1 << w) - 1 if pred == 'slt' else (1 << (w - 1)) - 1) and pred in ('slt', 'ult'):
        return bnot(fsignbit(b.args[0])) if pred == 'slt' else fsignbit(b.args[0])
    if pred == 'ult' and a.op == 'const' and a.val == 0:
        return bnot(icmp('eq', b, a))
    if a.op == 'ite' and b.op == 'const' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return bite(a.args[0], icmp(pred, a.args[1], b), icmp(pred, a.args[2], b))
    if b.op == 'ite' and a.op == 'const' and b.args[1].op == 'const' and b.args[2].op == 'const':
        return bite(b.args[0], icmp(pred, a, b.args[1]), icmp(pred, a, b.args[2]))
    return mk('icmp', (a, b), 'bool', pred)


# ---------------------------------------------------------------- conversions
def fptrunc(a):
    if a.op == 'undef':
        return undef('f32')
    if a.op == 'const':
        r = np.float32(np64(a.val))
        return fbits(npbits(r), 'f32')
    if a.op == 'fpext':
        return a.args[0]
    return mk('fptrunc', (a,), 'f32')


def fpext(a):
    if a.op == 'undef':
        return undef('f64')
    if a.op == 'const':
        return fconst(bits_f32(a.val), 'f64')
    return mk('fpext', (a,), 'f64')


def i2f(a, sort, signed):
    if a.op == 'undef':
        return undef(sort)
    if a.sort == 'bool':
        a = (sext if signed else zext)(a, 8)
    if a.op == 'const':
        v = _s(a.val, a.sort) if signed else a.val
        if sort == 'f32':
            return fbits(npbits(np.float32(v)) if abs(v) < 2 ** 53 else npbits(np.int64(v).astype(np.float32)), 'f32')
        return fconst(float(v), 'f64')
    if a.op == 'ite':
        return ite(a.args[0], i2f(a.args[1], sort, signed), i2f(a.args[2], sort, signed))
    return mk('i2f', (a,), sort, signed)


def f2i(a, w, signed):
    if a.op == 'undef':
        return undef(w)
    if a.op == 'const':
        v = fval(a)
        if math.isnan(v) or math.isinf(v):
            return undef(w)
        v = int(v)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if not lo <= v <= hi:
            return undef(w)
        return bconst(v, w)
    return mk('f2i', (a,), w, signed)


def free_vars(ts):
    seen = set()
    out = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'var':
            out[t.val] = t
        st.extend(t.args)
    return out


def has_undef(ts):
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'undef':
            return True
        st.extend(t.args)
    return False
