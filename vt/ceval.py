"""Concrete evaluation of a term DAG: used to validate the encoding against the real code on concrete inputs."""
import math
import types
import mpmath
import numpy as np
import terms as TM

NAMES = ('sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'hypot', 'floor', 'ceil', 'fmod', 'exp', 'log')


def _trunc(M):
    return lambda x: M.floor(x) if x >= 0 else M.ceil(x)


def _round(M):
    return lambda x: M.floor(x + .5) if x >= 0 else M.ceil(x - .5)


def _real(f):
    def g(*a):
        r = f(*a)
        if isinstance(r, mpmath.mpc):
            raise ValueError('math domain error')
        return r
    return g


DOUBLE = types.SimpleNamespace(num=float, isnan=math.isnan, copysign=math.copysign, **{n: getattr(math, n) for n in NAMES})
MP = types.SimpleNamespace(num=mpmath.mpf, isnan=mpmath.isnan, copysign=lambda x, y: -abs(x) if y < 0 else abs(x),
                           **{n: _real(getattr(mpmath, n)) for n in NAMES})
mpmath.mp.dps = 60
MP.fmod = lambda x, y: x - y * _trunc(MP)(x / y)
for _m in (DOUBLE, MP):
    _m.trunc, _m.round = _trunc(_m), _round(_m)
    _m.rint = _m.nearbyint = _m.roundeven = (lambda nint: lambda x: nint(x))(round if _m is DOUBLE else mpmath.nint)
NM = DOUBLE

RB = {
    'fadd': lambda t, a: TM.fop('fadd', *a), 'fsub': lambda t, a: TM.fop('fsub', *a), 'fmul': lambda t, a: TM.fop('fmul', *a),
    'fdiv': lambda t, a: TM.fop('fdiv', *a), 'fneg': lambda t, a: TM.fneg(a[0]), 'fabs': lambda t, a: TM.fabs(a[0]),
    'fcmp': lambda t, a: TM.fcmp(t.val, *a), 'fsign': lambda t, a: TM.fsignbit(a[0]), 'not': lambda t, a: TM.bnot(a[0]),
    'fptrunc': lambda t, a: TM.fptrunc(a[0]), 'fpext': lambda t, a: TM.fpext(a[0]), 'f2b': lambda t, a: TM.f2b(a[0]),
    'b2f': lambda t, a: TM.b2f(a[0], t.sort), 'icmp': lambda t, a: TM.icmp(t.val, *a), 'zext': lambda t, a: TM.zext(a[0], t.sort),
    'sext': lambda t, a: TM.sext(a[0], t.sort), 'extract': lambda t, a: TM.extract(a[0], t.val[0], t.val[1]),
    'concat': lambda t, a: TM.concat(*a), 'mkbits': lambda t, a: TM.mkbits(list(a), t.sort),
}


class NoEval(Exception):
    pass


class precise:
    """within it, the evaluation below uses 60 digits"""

    def __enter__(self):
        global NM
        NM = MP

    def __exit__(self, *a):
        global NM
        NM = DOUBLE


def ceval(t, env, cache):
    """env: var name -> bit pattern.  Returns (constant term, exact?)"""
    st = [t]
    while st:
        u = st[-1]
        if u.id in cache:
            st.pop()
            continue
        pend = [a for a in u.args if a.id not in cache]
        if pend:
            st.extend(pend)
            continue
        cache[u.id] = one(u, [cache[a.id] for a in u.args], env)
        st.pop()
    return cache[t.id]


def one(u, args, env):
    op = u.op
    if op == 'const':
        return u, True
    if op == 'var':
        return TM.mk('const', (), u.sort, env[u.val]), True
    a = [x[0] for x in args]
    ex = all(x[1] for x in args)
    if op in RB:
        r = RB[op](u, a)
    elif op == 'and':
        r = TM.band2(*a) if u.sort == 'bool' else TM.bop('and', *a)
    elif op == 'xor':
        r = TM.bxor2(*a) if u.sort == 'bool' else TM.bop('xor', *a)
    elif op == 'ite':
        c, ce = args[0]
        if c.op != 'const':
            raise NoEval(op)
        return (args[1][0] if c.val else args[2][0]), ce and (args[1][1] if c.val else args[2][1])
    elif op == 'i2f':
        r = TM.i2f(a[0], u.sort, u.val)
    elif op == 'f2i':
        r = TM.f2i(a[0], u.sort, u.val)
    elif op == 'fsqrt':
        r = TM.fun('fsqrt', a[0])
        if r.op != 'const':
            r = TM.fbits(0x7fc00000 if u.sort == 'f32' else 0x7ff8000000000000, u.sort)
    elif op in ('frcp', 'frsqrt'):
        ex = False
        x = TM.fval(a[0])
        try:
            if op == 'frcp':
                v = 1.0 / x if x else math.copysign(math.inf, x)
            else:
                v = 1.0 / math.sqrt(x) if x > 0 else (math.inf if x == 0 else math.nan)
        except (ValueError, OverflowError):
            v = math.nan
        r = TM.fconst(v)
    elif op == 'fcall':
        ex = False
        xs = [TM.fval(x) for x in a]
        try:
            v = getattr(DOUBLE, u.val)(*xs)
        except (ValueError, OverflowError, ZeroDivisionError):
            v = math.nan
        except AttributeError:
            raise NoEval(u.val)
        r = TM.fconst(v, u.sort)
    elif op in ('add', 'sub', 'mul', 'or', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
        r = TM.bop(op, *a)
    else:
        raise NoEval(op)
    if r.op != 'const':
        raise NoEval('%s did not fold' % op)
    return r, ex


# ------------------------------------------------------------------ the same DAG over doubles or high-precision numbers (rounding of the 32-bit code removed)
def _fcmp(pred, x, y):
    nan = NM.isnan(x) or NM.isnan(y)
    if pred == 'ord':
        return not nan
    if pred == 'uno':
        return nan
    if nan:
        return pred[0] == 'u'
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[-2:]]


def _div(x, y):
    if y:
        return x / y
    return math.nan if x == 0 or NM.isnan(x) else NM.copysign(math.inf, x) * NM.copysign(1, y)


def hone(u, a, env):
    op = u.op
    if op == 'const':
        if u.sort in ('f32', 'f64'):
            return NM.num(TM.fval(u))
        if u.sort == 'bool':
            return bool(u.val)
        return u.val
    if op == 'var':
        return env[u.val] & ((1 << u.sort) - 1) if isinstance(u.sort, int) else env[u.val]
    if op == 'i2f':
        return NM.num(TM._s(a[0], u.args[0].sort) if u.val else a[0])
    if op == 'f2i':
        x = a[0]
        if NM.isnan(x) or abs(x) >= 1 << (u.sort - 1):
            raise NoEval('conversion out of range')
        return int(x) & ((1 << u.sort) - 1)
    if op == 'f2b' and u.sort == 32 or op == 'b2f' and u.sort == 'f32':
        # the bits of the nearest float
        return TM.f32_bits(float(a[0])) if op == 'f2b' else NM.num(TM.bits_f32(a[0]))
    if isinstance(u.sort, int) or op == 'icmp':
        if op == 'ite':
            return a[1] if a[0] else a[2]
        if any(not isinstance(x.sort, int) for x in u.args):
            raise NoEval(op)
        return one(u, [(TM.bconst(x, y.sort), True) for x, y in zip(a, u.args)], env)[0].val
    if op in ('fadd', 'fsub', 'fmul'):
        x, y = a
        return x + y if op == 'fadd' else x - y if op == 'fsub' else x * y
    if op == 'fdiv':
        return _div(*a)
    if op == 'frcp':
        return _div(NM.num(1), a[0])
    if op == 'frsqrt':
        return math.nan if not a[0] >= 0 else _div(NM.num(1), NM.sqrt(a[0]))
    if op == 'fsqrt':
        return NM.sqrt(a[0]) if a[0] >= 0 else math.nan
    if op == 'fneg':
        return -a[0]
    if op == 'fabs':
        return abs(a[0])
    if op in ('fpext', 'fptrunc'):
        return a[0]
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op == 'not':
        return not a[0]
    if op == 'and' and u.sort == 'bool':
        return a[0] and a[1]
    if op == 'xor' and u.sort == 'bool':
        return a[0] != a[1]
    if op == 'fcmp':
        return _fcmp(u.val, *a)
    if op == 'fsign':
        return NM.copysign(1, a[0]) < 0
    if op == 'fcall':
        try:
            return getattr(NM, u.val)(*a)
        except ValueError:
            if u.val in ('acos', 'asin') and abs(a[0]) < 1 + 1e-6:
                x = max(NM.num(-1), min(NM.num(1), a[0]))
                return NM.acos(x) if u.val == 'acos' else NM.asin(x)
            return math.nan
        except (AttributeError, OverflowError, ZeroDivisionError):
            raise NoEval(u.val)
    raise NoEval(op)


def heval(t, env, cache):
    st = [t]
    while st:
        u = st[-1]
        if u.id in cache:
            st.pop()
            continue
        pend = [a for a in u.args if a.id not in cache]
        if pend:
            st.extend(pend)
            continue
        try:
            cache[u.id] = hone(u, [cache[a.id] for a in u.args], env)
        except OverflowError:
            raise NoEval('overflow')
        st.pop()
    return cache[t.id]
