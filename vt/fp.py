"""Bit-precise harness runs: inputs are arbitrary 32-bit patterns, float operations are Z3's IEEE-754 theory."""
import z3

import terms as TM
from bv import BitRunner
from real import RealCtx
from symex import Unencodable

F32 = z3.Float32()
RNE = z3.RNE()


def fl(bits):
    return z3.fpBVToFP(bits, F32)


class FpCtx(RealCtx):
    """terms over bit patterns instead of reals"""

    def __init__(self):
        RealCtx.__init__(self)
        self.fcache = {}

    def trf(self, t):
        r = self.fcache.get(t.id)
        if r is None:
            r = self.fcache[t.id] = self.trf1(t)
        return r

    def trf1(self, t):
        op = t.op
        if t.sort != 'f32':
            raise Unencodable('%s in the bit-precise encoding' % t.sort)
        if op == 'const':
            return fl(z3.BitVecVal(t.val, 32))
        if op == 'var':
            return fl(z3.BitVec(t.val, 32))
        if op == 'b2f':
            return fl(self.trbv(t.args[0]))
        if op == 'ite':
            return z3.If(self.trb(t.args[0]), self.trf(t.args[1]), self.trf(t.args[2]))
        a = [self.trf(x) for x in t.args] if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'fsqrt') else None
        if a is None:
            raise Unencodable('%s in the bit-precise encoding' % op)
        return {'fadd': lambda: z3.fpAdd(RNE, *a), 'fsub': lambda: z3.fpSub(RNE, *a), 'fmul': lambda: z3.fpMul(RNE, *a),
                'fdiv': lambda: z3.fpDiv(RNE, *a), 'fneg': lambda: z3.fpNeg(*a), 'fabs': lambda: z3.fpAbs(*a),
                'fsqrt': lambda: z3.fpSqrt(RNE, *a)}[op]()

    def bits(self, t):
        """the bits of a float term, where they are those of an input"""
        op = t.op
        if op == 'const':
            return z3.BitVecVal(t.val, 32)
        if op == 'var':
            return z3.BitVec(t.val, 32)
        if op == 'b2f':
            return self.trbv(t.args[0])
        if op == 'ite':
            return z3.If(self.trb(t.args[0]), self.bits(t.args[1]), self.bits(t.args[2]))
        if op == 'fneg':
            return self.bits(t.args[0]) ^ z3.BitVecVal(1 << 31, 32)
        if op == 'fabs':
            return self.bits(t.args[0]) & z3.BitVecVal((1 << 31) - 1, 32)
        # a computed value: its bits are determined except for those of a NaN
        v = self.trf(t)
        b = z3.BitVec('fbits_%d' % t.id, 32)
        self.axioms.append(z3.Or(fl(b) == v, z3.And(z3.fpIsNaN(v), z3.fpIsNaN(fl(b)))))
        return b

    def trb1(self, t):
        if t.op == 'fcmp':
            x, y = self.trf(t.args[0]), self.trf(t.args[1])
            return {'olt': lambda: z3.fpLT(x, y), 'ole': lambda: z3.fpLEQ(x, y), 'oeq': lambda: z3.fpEQ(x, y),
                    'uno': lambda: z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))}[t.val]()
        if t.op == 'fsign':
            return z3.Extract(31, 31, self.bits(t.args[0])) == 1
        return RealCtx.trb1(self, t)

    def trbv(self, t):
        if t.op == 'f2b':
            return self.bits(t.args[0])
        if t.op == 'ite' and t.sort == 32:
            return z3.If(self.trb(t.args[0]), self.trbv(t.args[1]), self.trbv(t.args[2]))
        return RealCtx.trbv(self, t)


class FpRunner(BitRunner):
    def consts(self):
        first = not hasattr(self, '_I')
        r = BitRunner.consts(self)
        if first:
            self.tc = FpCtx()
        return r

    def fsolve(self, cons, ms=60000):
        return BitRunner.fsolve(self, list(self.tc.axioms) + list(cons), ms)

    def feasible(self, pc):
        self.consts()
        try:
            cons = [self.tc.trb(p) for p in pc] + self._pre
        except Unencodable:
            return True
        return self.fsolve(cons, 4000)[0] != z3.unsat
