"""C12: min, max, minmax and clamp select the right element."""
from .common import *


def configs(tier):
    return [Config(i) for i in ALLISA] + ([Config(i, opt='-O2') for i in ALLISA] if tier == 'thorough' else [])


def nonan(T, *ls):
    return [t.bnot(isnan(x)) for l in ls for x in l] if T.fp else []


def smin(T, a, b):
    """std::min(a, b)"""
    return ite(sp_cmp(T, '<', b, a), b, a)


def smax(T, a, b):
    return ite(sp_cmp(T, '<', a, b), b, a)


def sclamp(T, v, lo, hi):
    return ite(sp_cmp(T, '<', v, lo), lo, ite(sp_cmp(T, '<', hi, v), hi, v))


def same(T, label, exp, act):
    """compares equal (floating point) or is identical, and is NaN-free"""
    assert len(exp) == len(act)
    f = (lambda x, y: t.fp('eq', [x, y], 1)) if T.fp else t.eq
    return [('%s[%d]' % (label, i), f(x, y)) for i, (x, y) in enumerate(zip(exp, act))]


def minmax(s, th):
    T, N = s.T, s.N
    g = lambda w: '%s %s' % (s.key, w)
    ab = [V('a', s), V('b', s)]
    z = lambda f, *l: [f(T, *x) for x in zip(*l)]
    req = lambda c: nonan(T, c['a'], c['b'])
    out = []
    for nm, f in (('min', smin), ('max', smax)):
        out.append(Probe('', ab + [V('r', s, 'out')], '*r = stdx::%s(*a, *b);' % nm,
                         lambda c, f=f: same(T, 'r', z(f, c['a'], c['b']), c.new['r']), req, group=g(nm)))
        # unqualified name, argument updated in place
        out.append(Probe('', [V('a', s, 'inout'), V('b', s)], '*a = %s(*a, *b);' % nm,
                         lambda c, f=f: same(T, 'a', z(f, c['a'], c['b']), c.new['a']), req,
                         group=g('a=%s(a,b)' % nm)))
        if th:
            out.append(Probe('', [V('a', s), A('x', T), V('r', s, 'out')],
                             '*r = stdx::%s(*a, %s(*x));' % (nm, s.cxx),
                             lambda c, f=f: same(T, 'r', z(f, c['a'], c['x'] * N), c.new['r']),
                             lambda c: nonan(T, c['a'], c['x']), group=g(nm + ' scalar')))
            out.append(Probe('', [V('a', s), V('r', s, 'out')], '*r = stdx::%s(*a, *a);' % nm,
                             lambda c, f=f: same(T, 'r', c['a'], c.new['r']),
                             lambda c: nonan(T, c['a']), group=g(nm + '(a,a)')))
    out.append(Probe('', ab + [V('r', s, 'out'), V('q', s, 'out')],
                     'auto p = stdx::minmax(*a, *b); *r = p.first; *q = p.second;',
                     lambda c: same(T, 'r', z(smin, c['a'], c['b']), c.new['r']) +
                     same(T, 'q', z(smax, c['a'], c['b']), c.new['q']), req, group=g('minmax')))

    def creq(c):
        return nonan(T, c['a'], c['l'], c['h']) + [t.bnot(sp_cmp(T, '<', h, l)) for l, h in zip(c['l'], c['h'])]
    out.append(Probe('', [V('a', s), V('l', s), V('h', s), V('r', s, 'out')],
                     '*r = stdx::clamp(*a, *l, *h);',
                     lambda c: same(T, 'r', z(sclamp, c['a'], c['l'], c['h']), c.new['r']), creq, group=g('clamp')))
    if th:
        out.append(Probe('', [V('a', s, 'inout'), V('l', s), V('h', s)], '*a = clamp(*a, *l, *h);',
                         lambda c: same(T, 'a', z(sclamp, c['a'], c['l'], c['h']), c.new['a']), creq,
                         group=g('a=clamp(a,l,h)')))
    return out


def probes(cfg, tier):
    out = []
    th = tier == 'thorough'
    for k in CORE + (EXTRA if th else []):
        for s in abis(cfg.isa, TY[k], tier):
            out += minmax(s, th)
    return out
