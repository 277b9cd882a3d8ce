"""Scenarios of operator construction and use, as tasks of the check framework."""
import re
from check import Ob, PROVED
import api_scen
from api import Api

PROPS = ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C19', 'C20', 'C13', 'C21', 'C22', 'C23', 'C24', 'C26')


def about(src, kw):
    """The properties a scenario is there to decide."""
    ps = set(re.findall(r"'(C\d\d)'", src))
    if 'probe(' in src:
        ps |= {'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C13'}
    if kw.get('integer'):
        ps.add('C23')
    return ps | {'C10', 'C19', 'C20'}


def chunk(prop, part, of):
    """Every of-th scenario, the obligations of one property."""
    obs = []
    nodes, n, unm = set(), 0, set()
    for i, (name, src, kw) in enumerate(api_scen.build()):
        if i % of != part or prop not in about(src, kw):
            continue
        a = Api(name, src, **kw)
        for p, o in a.run():
            if p == prop or p == '*' and prop in about(src, kw):
                obs.append(o)
        nodes |= set(a.I.visited)
        unm |= set(a.I.unmodelled)
        n += 1
    return obs, {'scenarios': n, 'nodes_visited': len(nodes), 'unmodelled': len(unm)}


def tasks(prop, of=24):
    return [('operator scenarios %s %d of %d' % (prop, i + 1, of), chunk, (prop, i, of)) for i in range(of)]
