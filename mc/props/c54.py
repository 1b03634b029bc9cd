"""Sexagesimal angles."""
from fractions import Fraction
import math

from pyhipp.astro.coords.cvt import dms_to_deg, hms_to_deg

from ..engine import Tree
from ..util import need, outcome, close

LEVEL = 'exploration'
RULE = ('every (sign, degrees or hours, minutes, seconds) of the alphabets in '
        'every notation; distinct by the case')
ASSUMPTIONS = ['minutes and seconds carry no sign of their own']
BOUNDS = {'quick': '2 signs x 7 degrees x 4 minutes x 6 seconds x 6 '
                   'notations', 'thorough': 'all 60 minutes and seconds'}
MIN = [0, 1, 30, 59]
SEC = ['0', '1', '30.25', '59.999', '7.0123456789', '0.0000001']


def angle_body(ch):
    neg = ch.flag('negative')
    d = ch.pick([0, 1, 9, 45, 359, 360, 725], 'degrees')
    m = ch.pick(MIN, 'minutes')
    s = ch.pick(SEC, 'seconds')
    form = ch.pick(['str', 'padded', 'float str', 'tuple', 'list', 'ints',
                    'plus'], 'form')
    sg = '-' if neg else ''
    want = Fraction(d) + Fraction(m, 60) + Fraction(s) / 3600
    if neg:
        want = -want
    if form == 'str':
        a = f'{sg}{d}:{m}:{s}'
    elif form == 'padded':
        a = f'{sg}{d:03d}:{m:02d}:0{s}'
    elif form == 'float str':
        a = f' {sg}{d}.0:{m}.0: {s}'
    elif form == 'plus':
        a = f'{sg or "+"}{d}:{m}:{s}'
    elif form == 'ints':
        if neg and d == 0 or '.' in s:
            return None
        a = (-d if neg else d, m, int(s))
    else:
        a = (float(sg + str(d)), float(m), float(s))
        a = list(a) if form == 'list' else a
    close(dms_to_deg(a), float(want), f'dms_to_deg({a!r})', rtol=1e-13)
    close(hms_to_deg(a), float(want * 15), f'hms_to_deg({a!r})', rtol=1e-13)
    return (neg, d, m, s, form)


def reject_body(ch):
    a = ch.pick(['', '1:2', '1:2:3:4', 'a:b:c', (1., 2.), '1 2 3'], 'angle')
    f = ch.pick([dms_to_deg, hms_to_deg], 'function')
    need(outcome(f, a)[0] == 'err', 'accepted %r', a)
    return (str(a), f.__name__)


def scenarios(tier):
    global MIN, SEC
    if tier != 'quick':
        MIN, SEC = list(range(60)), [str(i) for i in range(60)] + \
            ['.5', '7.0123456789', '0.0000001']
    return [Tree(f.__name__[:-5], f) for f in (angle_body, reject_body)]
