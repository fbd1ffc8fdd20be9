"""C13: addition, subtraction, scaling, negation, reversion and sign constraint act coefficient by coefficient"""
from common import *

LIN = ('plane', 'point', 'direction', 'line', 'branch', 'ideal_line', 'rotor', 'translator', 'motor', 'dual')
NEG_KEEP = {'plane': {0}, 'point': {0}}          # documented: displacement / homogeneous coordinate untouched
REV_KEEP = {'branch': {0}, 'ideal_line': {0}, 'line': {0, 4}, 'rotor': {0}, 'motor': {0, 4}, 'point': set()}


def harnesses(tier):
    hs = []

    def add(name, e, ins, code, want, pre=None, outs=None):
        def spec(c, I, O):
            for i in range(ENT[e]):
                c.eq('lane%d' % i, O['r'][i], want(c, I, i))
        hs.append(H(name, ins, outs or [('r', e)], code, spec, pre=pre))
    for e in LIN:
        ab = [('a', e), ('b', e)]
        n = ENT[e]
        plus = lambda c, I, i: I['a'][i] + I['b'][i]
        minus = lambda c, I, i: I['a'][i] - I['b'][i]
        add('add_' + e, e, ab, '%s r = a + b;' % e, plus)
        add('sub_' + e, e, ab, '%s r = a - b;' % e, minus)
        add('addeq_' + e, e, ab, '%s r = a; r += b;' % e, plus)
        add('subeq_' + e, e, ab, '%s r = a; r -= b;' % e, minus)
        sc = [('a', e), ('s', 'float')]
        times = lambda c, I, i: I['a'][i] * I['s'][0]
        nz = lambda c, I: c.assume_ne(I['s'][0])
        over = lambda c, I, i: c.mul(I['a'][i], c.inv(I['s'][0]))
        add('scale_' + e, e, sc, '%s r = a * s;' % e, times)
        add('scalel_' + e, e, sc, '%s r = s * a;' % e, times)
        add('scaleeq_' + e, e, sc, '%s r = a; r *= s;' % e, times)
        add('div_' + e, e, sc, '%s r = a / s;' % e, over, pre=nz)
        add('diveq_' + e, e, sc, '%s r = a; r /= s;' % e, over, pre=nz)
        if e != 'dual':
            si = [('a', e), ('s', 'int')]
            add('scalei_' + e, e, si, '%s r = a * s;' % e, times)
            add('scaleli_' + e, e, si, '%s r = s * a;' % e, times)
            add('scaleieq_' + e, e, si, '%s r = a; r *= s;' % e, times)
            add('divi_' + e, e, si, '%s r = a / s;' % e, over, pre=nz)
            add('divieq_' + e, e, si, '%s r = a; r /= s;' % e, over, pre=nz)
        if e not in ('translator', 'dual'):
            keep = NEG_KEEP.get(e, set())
            add('neg_' + e, e, [('a', e)], '%s r = -a;' % e, lambda c, I, i, keep=keep: I['a'][i] if i in keep else -I['a'][i])
        if e in REV_KEEP:
            keep = REV_KEEP[e]
            add('rev_' + e, e, [('a', e)], '%s r = ~a;' % e, lambda c, I, i, keep=keep: I['a'][i] if i in keep else -I['a'][i])
    for e in ('rotor', 'motor'):
        for form, code in (('', '%s r = a; r.constrain();'), ('_copy', '%s r = a.constrained();')):
            def spec(c, I, O, e=e):
                c.le('scalar not negative', c.P(0), O['r'][0])
                for i in range(ENT[e]):
                    for j in range(i, ENT[e]):
                        c.eq('same motion %d %d' % (i, j), O['r'][i] * O['r'][j], I['a'][i] * I['a'][j])
            hs.append(H('constrain_%s%s' % (e, form), [('a', e)], [('r', e)], code % e, spec))
    return hs
