"""C02: operator^ is the exterior product (meet)"""
from common import *


def harnesses(tier):
    f = lambda x, y: x ^ y
    return [bin_gp('meet_%s_%s' % (a, b), a, b, r, '^', f) for a, b, r in [
        ('plane', 'plane', 'line'), ('plane', 'branch', 'point'), ('branch', 'plane', 'point'), ('plane', 'ideal_line', 'point'),
        ('ideal_line', 'plane', 'point'), ('plane', 'line', 'point'), ('line', 'plane', 'point'), ('plane', 'point', 'dual'),
        ('point', 'plane', 'dual'), ('branch', 'ideal_line', 'dual'), ('ideal_line', 'branch', 'dual'), ('line', 'line', 'dual'),
        ('line', 'ideal_line', 'dual'), ('ideal_line', 'line', 'dual'), ('line', 'branch', 'dual'), ('branch', 'line', 'dual')]]
