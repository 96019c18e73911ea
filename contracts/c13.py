"""C13: floating-point functions with an exact definition match the scalar functions."""
from .common import *
from rtlvc import fpspec as F
from rtlvc import evalr

CHUNK = 100
LEMMAS = True
FP = ['f', 'd']
INT = TY['i']


def configs(tier):
    return [Config(i) for i in ALLISA] + ([Config(i, opt='-O2') for i in ALLISA] if tier == 'thorough' else [])


def uf(name, *a):
    return evalr.libm_term(name, list(a), a[0].w)


def fx(n):
    return S(INT, 'fx', n)


UNARY = {                                   # name -> scalar definition
    'sqrt': lambda x: t.fp('sqrt', [x], x.w),
    'floor': lambda x: t.fp('floor', [x], x.w),
    'ceil': lambda x: t.fp('ceil', [x], x.w),
    'trunc': lambda x: t.fp('trunc', [x], x.w),
    'round': lambda x: t.fp('round', [x], x.w),
    'rint': lambda x: t.fp('nearbyint', [x], x.w),
    'nearbyint': lambda x: t.fp('nearbyint', [x], x.w),
    'fabs': lambda x: t.f_abs(x),
    'abs': lambda x: t.f_abs(x),
    'logb': F.logb,
}
CLASS = {'isnan': F.isnan, 'isinf': F.isinf, 'isfinite': F.isfinite, 'isnormal': F.isnormal, 'signbit': F.sign}
ORDER = {'isgreater': '>', 'isgreaterequal': '>=', 'isless': '<', 'islessequal': '<='}


def order(T, nm):
    if nm == 'isunordered':
        return lambda x, y: t.fp('uno', [x, y], 1)
    if nm == 'islessgreater':
        return lambda x, y: t.bor(sp_cmp(T, '<', x, y), sp_cmp(T, '>', x, y))
    return lambda x, y: sp_cmp(T, ORDER[nm], x, y)


def minmax_ok(T, nm, x, y, r):
    """IEC 60559 minNum / maxNum; which of two zeros is returned is not specified"""
    lt, gt = sp_cmp(T, '<' if nm == 'fmin' else '>', x, y), sp_cmp(T, '>' if nm == 'fmin' else '<', x, y)
    num = ite(lt, t.eq(r, x), ite(gt, t.eq(r, y), t.bor(t.eq(r, x), t.eq(r, y))))
    return ite(F.isnan(x), veq(T, y, r), ite(F.isnan(y), veq(T, x, r), num))


def math(s, th):
    T, N = s.T, s.N
    out = []
    g = lambda w: '%s %s' % (s.key, w)
    a, b, cc, r = V('a', s), V('b', s), V('c', s), V('r', s, 'out')
    m = M('r', s, 'out')
    for nm, f in UNARY.items():
        out.append(Probe('', [a, r], '*r = stdx::%s(*a);' % nm,
                         lambda c, f=f: each(T, 'r', [f(x) for x in c['a']], c.new['r']), group=g(nm)))
    for nm, f in CLASS.items():
        out.append(Probe('', [a, m], '*r = stdx::%s(*a);' % nm,
                         lambda c, f=f: each_strict('r', [f(x) for x in c['a']], c.new['r']), group=g(nm)))
    for nm in list(ORDER) + ['isunordered', 'islessgreater']:
        f = order(T, nm)
        out.append(Probe('', [a, b, m], '*r = stdx::%s(*a, *b);' % nm,
                         lambda c, f=f: each_strict('r', [f(x, y) for x, y in zip(c['a'], c['b'])], c.new['r']),
                         group=g(nm)))
    out.append(Probe('', [a, b, r], '*r = stdx::copysign(*a, *b);',
                     lambda c: each_strict('r', [cat([F.mag(x), F.sign(y)]) for x, y in zip(c['a'], c['b'])],
                                           c.new['r']), group=g('copysign')))
    out.append(Probe('', [a, b, r], '*r = stdx::fdim(*a, *b);',
                     lambda c: each(T, 'r', [uf('fdim', x, y) for x, y in zip(c['a'], c['b'])], c.new['r']),
                     group=g('fdim')))
    for nm in ('fmin', 'fmax'):
        out.append(Probe('', [a, b, r], '*r = stdx::%s(*a, *b);' % nm,
                         lambda c, nm=nm: [('r[%d]' % i, minmax_ok(T, nm, x, y, z)) for i, (x, y, z)
                                           in enumerate(zip(c['a'], c['b'], c.new['r']))], group=g(nm)))
    out.append(Probe('', [a, b, cc, r], '*r = stdx::fma(*a, *b, *c);',
                     lambda c: each(T, 'r', [uf('fma', *z) for z in zip(c['a'], c['b'], c['c'])], c.new['r']),
                     group=g('fma')))
    I = fx(N)
    e = V('e', I, 'out')
    out.append(Probe('', [a, e], '*e = stdx::fpclassify(*a);',
                     lambda c: each_strict('e', [F.fpclassify(x) for x in c['a']], c.new['e']), group=g('fpclassify')))
    out.append(Probe('', [a, e], '*e = stdx::ilogb(*a);',
                     lambda c: each_strict('e', [t.uf('libm_ilogb%d' % T.bits, [x], 32) for x in c['a']], c.new['e']),
                     group=g('ilogb')))

    def ens_frexp(c):
        o = []
        for i, x in enumerate(c['a']):
            fr, ex, fin = F.frexp(x)
            o.append(('r[%d]' % i, veq(T, fr, c.new['r'][i])))
            o.append(('e[%d]' % i, t.bor(t.bnot(fin), t.eq(ex, c.new['e'][i]))))
        return o
    out.append(Probe('', [a, e, r], '*r = stdx::frexp(*a, e);', ens_frexp, group=g('frexp')))

    def ens_modf(c):
        z = [F.modf(x) for x in c['a']]
        return each(T, 'r', [x for x, _ in z], c.new['r']) + each(T, 'b', [y for _, y in z], c.new['b'])
    out.append(Probe('', [a, V('b', s, 'out'), r], '*r = stdx::modf(*a, b);', ens_modf, group=g('modf')))
    E = V('e', I)
    for nm in ('ldexp', 'scalbn'):
        out.append(Probe('', [a, E, r], '*r = stdx::%s(*a, *e);' % nm,
                         lambda c: each(T, 'r', [uf('ldexp', x, k) for x, k in zip(c['a'], c['e'])], c.new['r']),
                         group=g(nm)))
    L = S(TY['l'], 'fx', N)
    out.append(Probe('', [a, V('e', L), r], '*r = stdx::scalbln(*a, *e);',
                     lambda c: each(T, 'r', [uf('scalbln', x, k) for x, k in zip(c['a'], c['e'])], c.new['r']),
                     group=g('scalbln')))
    return out


def integral(s, th):
    T = s.T
    out = []
    g = lambda w: '%s %s' % (s.key, w)
    mn = const(1 << (T.bits - 1), T.bits)
    ab = lambda x: ite(t.slt(x, const(0, T.bits)), t.neg(x), x)
    out.append(Probe('', [V('a', s), V('r', s, 'out')], '*r = stdx::abs(*a);',
                     lambda c: each_strict('r', [ab(x) for x in c['a']], c.new['r']),
                     lambda c: [t.ne(x, mn) for x in c['a']] if T.bits >= 32 else [], group=g('abs')))
    return out


def probes(cfg, tier):
    out = []
    th = tier == 'thorough'
    for k in FP:
        for s in abis(cfg.isa, TY[k], tier):
            out += math(s, th)
    for k in ('sc', 's', 'i', 'll'):
        for s in abis(cfg.isa, TY[k], tier):
            out += integral(s, th)
    return out
