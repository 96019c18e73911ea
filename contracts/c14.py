"""C14: math functions apply the scalar function of the same name to each element."""
from .common import *
from rtlvc import ceval, evalr

CHUNK = 150
FP = ['f', 'd']
INT, LONG, LLONG, UINT = TY['i'], TY['l'], TY['ll'], TY['ui']
UNARY = '''acos asin atan tan acosh asinh atanh cosh sinh tanh exp exp2 expm1 log log10 log1p log2 cbrt
erf erfc lgamma tgamma'''.split()
BINARY = 'atan2 pow fmod remainder nextafter'.split()
# GCC expands fmod/remainder into x87 FPREM loops; keep the calls to the C functions
CALLS = ['-fno-builtin-%s%s' % (n, e) for n in ('fmod', 'remainder') for e in ('', 'f')] + [
    '-D__builtin_%sf=::%sf' % (n, n) for n in ('fmod', 'remainder')]
ROUND = {'lrint': LONG, 'llrint': LLONG, 'lround': LONG, 'llround': LLONG}


def configs(tier):
    out = [Config(i, extra=CALLS) for i in ALLISA]
    out += [Config(i, extra=['-fno-inline'], set='special') for i in (ALLISA if tier == 'thorough' else ('sse2', 'avx2', 'skx'))]
    if tier == 'thorough':
        out += [Config(i, opt='-O2', extra=CALLS) for i in ALLISA]
    return out


def lm(name, *a):
    return t.uf('libm_%s%d' % (name, a[0].w), list(a), a[0].w)


def fx(T, n):
    return S(T, 'fx', n)


def libm(s, th):
    T, N = s.T, s.N
    out = []
    g = lambda w: '%s %s' % (s.key, w)
    a, b, cc, r = V('a', s), V('b', s), V('c', s), V('r', s, 'out')
    x = A('x', T, 1, 'in')

    def add(nm, params, body, f):
        """r[i] = f(c, i)"""
        out.append(Probe('', params, body, lambda c: each(T, 'r', [f(c, i) for i in range(N)], c.new['r']),
                         group=g(nm)))
    un = list(UNARY)
    if s.abi in ('sc', 'fx') and N == 1:
        un += ['sin', 'cos']
    for nm in un:
        add(nm, [a, r], '*r = stdx::%s(*a);' % nm, lambda c, i, nm=nm: lm(nm, c['a'][i]))
    bi = list(BINARY) + (['hypot'] if N == 1 else [])
    for nm in bi:
        add(nm, [a, b, r], '*r = stdx::%s(*a, *b);' % nm, lambda c, i, nm=nm: lm(nm, c['a'][i], c['b'][i]))
    for nm in bi:
        add(nm + ' vs', [a, x, r], '*r = stdx::%s(*a, *x);' % nm, lambda c, i, nm=nm: lm(nm, c['a'][i], c['x'][0]))
        add(nm + ' sv', [a, x, r], '*r = stdx::%s(*x, *a);' % nm, lambda c, i, nm=nm: lm(nm, c['x'][0], c['a'][i]))
    add('fdim sv', [a, x, r], '*r = stdx::fdim(*x, *a);', lambda c, i: lm('fdim', c['x'][0], c['a'][i]))
    fma = lambda *z: evalr.libm_term('fma', list(z), z[0].w)
    add('fma svv', [a, b, x, r], '*r = stdx::fma(*x, *a, *b);', lambda c, i: fma(c['x'][0], c['a'][i], c['b'][i]))
    add('fma vvs', [a, b, x, r], '*r = stdx::fma(*a, *b, *x);', lambda c, i: fma(c['a'][i], c['b'][i], c['x'][0]))
    add('fma vsv', [a, b, x, r], '*r = stdx::fma(*a, *x, *b);', lambda c, i: fma(c['a'][i], c['x'][0], c['b'][i]))
    E = V('e', fx(INT, N), 'out')

    def remquo(c):
        z = list(zip(c['a'], c['b']))
        return each(T, 'r', [lm('remquo', *p) for p in z], c.new['r']) + each_strict(
            'e', [t.uf('libm_remquo_quo%d' % T.bits, list(p), 32) for p in z], c.new['e'])
    out.append(Probe('', [a, b, E, r], '*r = stdx::remquo(*a, *b, e);', remquo, group=g('remquo')))
    for nm, U in ROUND.items():
        out.append(Probe('', [a, V('e', fx(U, N), 'out')], '*e = stdx::%s(*a);' % nm,
                         lambda c, nm=nm: each_strict('e', [t.uf('libm_%s%d' % (nm.replace('ll', 'l'), T.bits), [z], 64)
                                                            for z in c['a']], c.new['e']), group=g(nm)))
    return out


def special(s, th):
    T, N = s.T, s.N
    out = []
    g = lambda w: '%s %s' % (s.key, w)
    a, r = V('a', s), V('r', s, 'out')
    n, m = V('n', fx(UINT, N)), V('m', fx(UINT, N))
    for nm, sig in ceval.SPECIAL.items():
        ps = ([n, m] if sig == 'uux' else [n])
        out.append(Probe('', ps + [a, r], '*r = stdx::%s(%s, *a);' % (nm, ', '.join('*' + p.name for p in ps)),
                         lambda c, nm=nm, ps=ps: each(T, 'r', [t.uf('std_%s%d' % (nm, T.bits), [c[p.name][i] for p in ps] + [
                             c['a'][i]], T.bits) for i in range(N)], c.new['r']), group=g(nm)))
    return out


def probes(cfg, tier):
    out = []
    th = tier == 'thorough'
    for k in FP:
        for s in abis(cfg.isa, TY[k], tier):
            out += special(s, th) if cfg.set == 'special' else libm(s, th)
    return out
