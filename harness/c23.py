"""C23: each C function computes what the algebra prescribes; compositions apply their first argument first"""
from common import *
import build as B
from c08 import rotor_param

PRELUDE = B.PRELUDE.replace('using namespace kln;', '#include "%s/c_src/klein_c.cpp"\nusing namespace kln;' % B.REPO, 1) + r'''
#include <type_traits>
'''
CFGS = ['cxx11', 'cxx11sse41', 'sse3', 'sse41']
CT = {'plane': 'kln_plane', 'line': 'kln_line', 'point': 'kln_point', 'rotor': 'kln_rotor', 'translator': 'kln_translator', 'motor': 'kln_motor'}


def cap(e, v, c):
    return 'alignas(16) %s %s; std::memcpy(&%s, &%s, sizeof %s);' % (CT[e], c, c, v, c)


def back(e, c, v):
    return '%s %s; std::memcpy(static_cast<void*>(&%s), &%s, sizeof %s);' % (e, v, v, c, v)


def call(r, fn, args):
    pre = ' '.join(cap(e, v, 'c' + v) for v, e in args)
    return '%s %s cr = %s(%s); %s' % (pre, CT[r], fn, ', '.join('&c' + v for v, _ in args), back(r, 'cr', 'r'))


def harnesses(tier):
    hs = []
    for m, fn in (('plane', 'kln_reflect_%s'), ('rotor', 'kln_rotate_%s'), ('translator', 'kln_translate_%s'), ('motor', 'kln_motor_%s')):
        for x in ('point', 'line', 'plane'):
            def spec(c, I, O, m=m, x=x):
                M, X = mv(m, I['m']), mv(x, I['x'])
                eqlanes(c, x, O['r'], M * X * (M if m == 'plane' else M.rev()))
            hs.append(H('c_%s' % (fn % x), [('m', m), ('x', x)], [('r', x)], call(x, fn % x, [('m', m), ('x', x)]), spec))
    for fn, a, b, r in (('kln_compose_rotors', 'rotor', 'rotor', 'rotor'), ('kln_compose_translators', 'translator', 'translator', 'translator'),
                        ('kln_compose_rotor_translator', 'rotor', 'translator', 'motor'), ('kln_compose_translator_rotor', 'translator', 'rotor', 'motor'),
                        ('kln_compose_motors', 'motor', 'motor', 'motor')):
        def spec(c, I, O, a=a, b=b, r=r):
            eqlanes(c, r, O['r'], mv(b, I['b']) * mv(a, I['a']))
        hs.append(H('c_' + fn, [('a', a), ('b', b)], [('r', r)], call(r, fn, [('a', a), ('b', b)]), spec))
    # initialisation
    def init(fn, e, n, want):
        args = 'abcdef'[:n]
        def spec(c, I, O):
            for i, w in enumerate(want):
                c.eq('lane%d' % i, O['r'][i], I[w][0] if isinstance(w, str) else c.P(w))
        hs.append(H('c_' + fn, [(x, 'float') for x in args], [('r', e)],
                    'alignas(16) %s cr; %s(&cr, %s); %s' % (CT[e], fn, ', '.join(args), back(e, 'cr', 'r')), spec))
    init('kln_plane_init', 'plane', 4, 'dabc')
    init('kln_point_init', 'point', 3, [1, 'a', 'b', 'c'])
    init('kln_line_init', 'line', 6, [0, 'd', 'e', 'f', 0, 'a', 'b', 'c'])
    # log / exp through the C interface
    from c11 import unit_motor
    rot = lambda c, I: c.assume_or_ne(I['m'][1:4])
    code = cap('motor', 'm', 'cm') + ' kln_line cl = motor_log(&cm); kln_motor cr = line_exp(&cl); ' + back('motor', 'cr', 'r')
    hs.append(H('c_exp_log', [('m', 'motor')], [('r', 'motor')], code, lambda c, I, O: [c.eq('lane%d' % i, O['r'][i], I['m'][i]) for i in range(8)],
                param=unit_motor, pre=rot, tol=2e-4))
    return hs
