import json
import os
from ecref import Curve, WS, ED, MO, TE, FORM

_d = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'zoo.json')))


def _c(d):
    v = [int(x, 16) for x in d['v']]
    c = Curve(d['form'], *v[:5], (v[5], v[6]), d['bits'], d['name'])
    c.N = d.get('N')
    return c


named = [_c(x) for x in _d['named']]
iso = [_c(x) for x in _d['iso']]
tiny = [_c(x) for x in _d['tiny']]
by_name = {c.name: c for c in named + iso + tiny}
_named = {c.name for c in named}
primes = {k: int(v, 16) for k, v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'primes.json'))).items()}


def load(reg, cv, rnd=None):
    """script line that builds the curve in register reg; named curves by name (or, at random, explicitly)"""
    if cv.name in _named and (rnd is None or rnd.random() < .7):
        return 'cname %d %s' % (reg, cv.name)
    kind = 'cset' if rnd is None else rnd.choice(['cset', 'csetstr', 'csetdec'])
    return '%s %d %s' % (kind, reg, cv.args())


def uniq(curves):
    """curves that differ mathematically (aliases removed)"""
    seen, out = set(), []
    for c in curves:
        k = c.params()
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out
