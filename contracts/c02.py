"""C02: element-wise comparisons and negation produce exactly the per-element mask."""
from .common import *

OPS = ['==', '!=', '<', '<=', '>', '>=']


def configs(tier):
    return [Config(i) for i in ALLISA]


def cmp(s, op, form='vv'):
    T = s.T
    pa = V('a', s) if form != 'sv' else A('a', T)
    pb = V('b', s) if form != 'vs' else A('b', T)

    def ens(c):
        a = c['a'] if form != 'sv' else c['a'] * s.N
        b = c['b'] if form != 'vs' else c['b'] * s.N
        return each_strict('r', [sp_cmp(T, op, x, y) for x, y in zip(a, b)], c.new['r'])
    nm = {'vv': 'a%sb', 'vs': 'a%sscalar', 'sv': 'scalar%sb'}[form] % op
    return Probe('', [pa, pb, M('r', s, 'out')], '*r = *a %s *b;' % op, ens, group='%s %s' % (s.key, nm))


def probes(cfg, tier):
    out = []
    for k in CORE + (EXTRA if tier == 'thorough' else []):
        T = TY[k]
        for s in abis(cfg.isa, T, tier):
            for op in OPS:
                out.append(cmp(s, op))
            for op in (OPS if tier == 'thorough' else ['==', '<', '>=']):
                out.append(cmp(s, op, 'vs'))
            for op in (OPS if tier == 'thorough' else ['!=', '<=']):
                out.append(cmp(s, op, 'sv'))
    return out
