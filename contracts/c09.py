"""C09: casts convert every element like static_cast and keep the order."""
from .common import *
from .c05 import SOME, ALLU

FLIPSGN = {'sc': 'uc', 'uc': 'sc', 's': 'us', 'us': 's', 'i': 'ui', 'ui': 'i', 'll': 'ull', 'ull': 'll'}
WIDE = {'sc': ['ll'], 'uc': ['ull', 'd'], 's': ['ll', 'd'], 'us': ['i', 'd'], 'i': ['ull'], 'ui': ['ll', 'd'],
        'll': ['sc', 'us', 'd'], 'ull': ['sc', 'us', 'f'], 'f': ['sc', 'll', 'ull', 'ui'], 'd': ['us', 'i', 'ull']}


def configs(tier):
    return [Config(i) for i in ALLISA]


def maxfx(isa, T):
    return 64 if isa.bw and T.size == 1 else 32


def targets(isa, U, N):
    """the specialisations of simd<U, .> with N elements"""
    out = []
    b = N * U.size
    if N == 1:
        out.append(S(U, 'sc'))
    if valid_vecbuiltin(isa, U, b):
        out.append(S(U, 'vb', b))
    if valid_btmsk(isa, U, b):
        out.append(S(U, 'bm', b))
    if N <= 32:
        out.append(S(U, 'fx', N))
    return out


def preserving(T, U):
    """every value of T is representable in U"""
    if T.key == U.key:
        return True
    if T.fp:
        return U.fp and U.bits >= T.bits
    if U.fp:
        return T.bits - (1 if T.signed else 0) <= {32: 24, 64: 53}[U.bits]
    if T.signed and not U.signed:
        return False
    return U.bits > T.bits or (U.bits == T.bits and U.signed == T.signed)


def cast(s, d, form):
    T, U = s.T, d.T
    ens = (lambda c: each_strict('r', c['a'], c.new['r'])) if T.key == U.key else \
        (lambda c: each_conv(T, U, 'r', c['a'], c.new['r']))
    req = None if T.key == U.key else (lambda c: req_conv(T, U, c['a']))
    body = {'static': '*r = stdx::static_simd_cast<%s>(*a);' % d.cxx,
            'static elem': '*r = stdx::static_simd_cast<%s>(*a);' % U.cxx,
            'simd_cast': '*r = stdx::simd_cast<%s>(*a);' % d.cxx,
            'simd_cast elem': '*r = stdx::simd_cast<%s>(*a);' % U.cxx,
            'implicit': '*r = *a;',
            'to_fixed_size': '*r = stdx::to_fixed_size(*a);',
            'to_native': '*r = stdx::to_native(*a);',
            'to_compatible': '*r = stdx::to_compatible(*a);'}[form]
    return Probe('', [V('a', s), V('r', d, 'out')], body, ens, req, group='%s -> %s %s' % (s.key, d.key, form))


def mcast(s, d, form):
    body = {'static': '*r = stdx::__proposed::static_simd_cast<%s>(*a);' % d.mcxx,
            'to_fixed_size': '*r = stdx::to_fixed_size(*a);',
            'to_native': '*r = stdx::to_native(*a);',
            'to_compatible': '*r = stdx::to_compatible(*a);',
            'ctor': '*r = *a;',
            'cvt': '*r = a->__cvt();',
            'resizing': '*r = stdx::__proposed::resizing_simd_cast<%s>(*a);' % d.mcxx}[form]
    exp = lambda ks: [ks[i] if i < len(ks) else t.FALSE for i in range(d.N)]
    return Probe('', [M('a', s), M('r', d, 'out')], body,
                 lambda c: each_strict('r', exp(c['a']), c.new['r']),
                 group='mask %s -> %s %s' % (s.key, d.key, form))


def resize(s, d):
    T = s.T
    exp = lambda xs: [xs[i] if i < len(xs) else const(0, T.bits) for i in range(d.N)]
    return Probe('', [V('a', s), V('r', d, 'out')],
                 '*r = stdx::__proposed::resizing_simd_cast<%s>(*a);' % d.cxx,
                 lambda c: each_strict('r', exp(c['a']), c.new['r']), group='%s -> %s resizing' % (s.key, d.key))


def probes(cfg, tier):
    out = []
    th = tier == 'thorough'
    isa = cfg.isa
    for k in CORE:
        T = TY[k]
        us = ALLU if th else list(dict.fromkeys([k] + [FLIPSGN.get(k, k)] + SOME[k] + WIDE[k]))
        nat = isa.vec(T) // T.size
        for s in abis(isa, T, tier):
            for u in us:
                U = TY[u]
                for d in targets(isa, U, s.N):
                    if d.N > maxfx(isa, U) and d.abi == 'fx':
                        continue
                    out.append(cast(s, d, 'static'))
                    if d.abi == 'fx' and u != k and FLIPSGN.get(k) != u and (th or s.abi != 'fx'):
                        out.append(cast(s, d, 'static elem'))
                    if preserving(T, U) and (th or d.abi == 'fx'):
                        out.append(cast(s, d, 'simd_cast'))
                    if s.abi == 'fx' and d.abi == 'fx' and u != k and preserving(T, U) and (T.fp or (U.int and
                                                                                          T.signed == U.signed)):
                        out.append(cast(s, d, 'implicit'))
            if s.N <= 32:
                out.append(cast(s, S(T, 'fx', s.N), 'to_fixed_size'))
            # resizing
            ns = sorted({1, 2, 3, s.N // 2, s.N * 2, s.N + 1, 16 // T.size, nat})
            for n in ns:
                if n >= 1:
                    for d in targets(isa, T, n):
                        if d.key != s.key:
                            out.append(resize(s, d))
        if nat <= 32:
            N = S(T, 'bm' if isa.f else 'vb', isa.vec(T))
            if valid_btmsk(isa, T, isa.vec(T)) or valid_vecbuiltin(isa, T, isa.vec(T)):
                if not valid_btmsk(isa, T, isa.vec(T)):
                    N = S(T, 'vb', isa.vec(T))
                out.append(cast(S(T, 'fx', nat), N, 'to_native'))
                out.append(mcast(S(T, 'fx', nat), N, 'to_native'))
        C = S(T, 'vb', 16)
        out.append(cast(S(T, 'fx', C.N), C, 'to_compatible'))
        out.append(mcast(S(T, 'fx', C.N), C, 'to_compatible'))
    mt = CORE if th else MASKTF
    for k in mt:
        T = TY[k]
        for s in mask_abis(isa, T, tier):
            for u in mt:
                U = TY[u]
                for d in targets(isa, U, s.N):
                    out.append(mcast(s, d, 'static'))
                    if s.abi == 'fx' and d.abi == 'fx':
                        out.append(mcast(s, d, 'ctor'))
                    if not (s.abi == 'fx' or d.abi == 'fx') or d.abi == s.abi:
                        out.append(mcast(s, d, 'cvt'))
            if s.N <= 32:
                out.append(mcast(s, S(T, 'fx', s.N), 'to_fixed_size'))
            for u in ([k] if not th else mt):
                U = TY[u]
                for n in sorted({1, 2, 3, s.N // 2, s.N * 2, s.N + 1, 16 // U.size}):
                    if n >= 1 and n != s.N:
                        for d in targets(isa, U, n):
                            out.append(mcast(s, d, 'resizing'))
    return out
