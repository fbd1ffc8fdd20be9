"""C04: operator| is the symmetric inner product"""
from common import *


def harnesses(tier):
    f = lambda x, y: x | y
    return [bin_gp('dot_%s_%s' % (a, b), a, b, r, '|', f) for a, b, r in [
        ('plane', 'plane', 'float'), ('plane', 'line', 'plane'), ('line', 'plane', 'plane'), ('plane', 'ideal_line', 'plane'),
        ('ideal_line', 'plane', 'plane'), ('plane', 'point', 'line'), ('point', 'plane', 'line'), ('line', 'line', 'float'),
        ('point', 'line', 'plane'), ('line', 'point', 'plane'), ('point', 'point', 'float')]]
