"""C10: split and concat keep every element in order."""
from .common import *
from .c09 import targets, maxfx


CHUNK = 220


def configs(tier):
    return [Config(i) for i in ALLISA]


def deduce(isa, T, n):
    """simd_abi::deduce_t<T, n>"""
    if n == 1:
        return S(T, 'sc')
    b = n * T.size
    v = isa.vec(T)
    # full, or more than half filled, registers and partial ones: the library's rule is looked up in C++
    return None


def split_mem(p, s, d, n, T, cx, group):
    """many pieces: stored one after the other"""
    body = 'auto x = stdx::split<%s>(*a);' % cx
    body += 'static_assert(x.size() == %d);' % n
    body += ' '.join('x[%d].copy_to(m + %d, stdx::element_aligned);' % (i, i * d.N) for i in range(n))
    return Probe('', [p, A('m', T, s.N, 'out')], body, lambda c: each_strict('m', c['a'], c.new['m']), group=group)


def split_to(s, d):
    """split<V>(simd)"""
    n = s.N // d.N
    if n > 5:
        return split_mem(V('a', s), s, d, n, s.T, d.cxx, 'split<%s>(%s)' % (d.key, s.key))
    outs = [V('r%d' % i, d, 'out') for i in range(n)]
    body = 'auto x = stdx::split<%s>(*a);' % d.cxx
    body += 'static_assert(x.size() == %d);' % n
    body += ' '.join('*r%d = x[%d];' % (i, i) for i in range(n))

    def ens(c):
        out = []
        for i in range(n):
            out += each_strict('r%d' % i, c['a'][i * d.N:(i + 1) * d.N], c.new['r%d' % i])
        return out
    return Probe('', [V('a', s)] + outs, body, ens, group='split<%s>(%s)' % (d.key, s.key))


def msplit_to(s, d):
    n = s.N // d.N
    if n > 5:
        return split_mem(M('a', s), s, d, n, BOOL, d.mcxx, 'split<%s>(mask %s)' % (d.key, s.key))
    outs = [M('r%d' % i, d, 'out') for i in range(n)]
    body = 'auto x = stdx::split<%s>(*a);' % d.mcxx
    body += 'static_assert(x.size() == %d);' % n
    body += ' '.join('*r%d = x[%d];' % (i, i) for i in range(n))

    def ens(c):
        out = []
        for i in range(n):
            out += each_strict('r%d' % i, c['a'][i * d.N:(i + 1) * d.N], c.new['r%d' % i])
        return out
    return Probe('', [M('a', s)] + outs, body, ens, group='split<%s>(mask %s)' % (d.key, s.key))


def split_sizes(s, sizes):
    """split<Sizes...>(simd): the pieces are stored one after the other"""
    T = s.T
    body = 'auto x = stdx::split<%s>(*a); ' % ', '.join(map(str, sizes))
    o = 0
    for i, n in enumerate(sizes):
        body += ('static_assert(std::is_same_v<std::tuple_element_t<%d, decltype(x)>, '
                 'stdx::simd<%s, stdx::simd_abi::deduce_t<%s, %d>>>); ' % (i, T.cxx, T.cxx, n))
        body += 'std::get<%d>(x).copy_to(m + %d, stdx::element_aligned); ' % (i, o)
        o += n
    return Probe('', [V('a', s), A('m', T, s.N, 'out')], body, lambda c: each_strict('m', c['a'], c.new['m']),
                 group='split<%s>(%s)' % (','.join(map(str, sizes)), s.key))


def concat(ss):
    T = ss[0].T
    N = sum(s.N for s in ss)
    ps = [V('a%d' % i, s) for i, s in enumerate(ss)]
    body = ('auto x = stdx::concat(%s); static_assert(x.size() == %d); '
            'static_assert(std::is_same_v<decltype(x), stdx::simd<%s, stdx::simd_abi::deduce_t<%s, %d>>>); '
            'x.copy_to(m, stdx::element_aligned);'
            % (', '.join('*a%d' % i for i in range(len(ss))), N, T.cxx, T.cxx, N))
    return Probe('', ps + [A('m', T, N, 'out')], body,
                 lambda c: each_strict('m', [x for i in range(len(ss)) for x in c['a%d' % i]], c.new['m']),
                 group='concat(%s)' % ', '.join(s.key for s in ss))


def concat_array(s, n):
    T = s.T
    N = s.N * n
    ps = [V('a%d' % i, s) for i in range(n)]
    body = ('std::array<%s, %d> y = {{%s}}; auto x = stdx::concat(y); static_assert(x.size() == %d); '
            'x.copy_to(m, stdx::element_aligned);'
            % (s.cxx, n, ', '.join('*a%d' % i for i in range(n)), N))
    return Probe('', ps + [A('m', T, N, 'out')], body,
                 lambda c: each_strict('m', [x for i in range(n) for x in c['a%d' % i]], c.new['m']),
                 group='concat(array<%s, %d>)' % (s.key, n))


def shapes(n, th):
    out = []
    if n >= 2:
        out.append([n - 1, 1])
        out.append([1, n - 1])
    if n % 2 == 0:
        out.append([n // 2] * 2)
    if n % 3 == 0:
        out += [[n // 3] * 3, [2 * n // 3, n // 3], [n // 3, 2 * n // 3]]
    if n % 4 == 0:
        h, q = n // 2, n // 4
        out += [[h, q, q], [q, q, h], [q, h, q], [q] * 4, [3 * q, q], [q, 3 * q]]
    if n >= 5:
        out.append([2, 3] + ([n - 5] if n > 5 else []))
        out.append([n])
    if th and n >= 8:
        out += [[1, 2, n - 3], [n - 3, 2, 1], [3, n - 6, 3] if n > 6 else [n]]
    seen = []
    for x in out:
        if x not in seen and all(v > 0 for v in x):
            seen.append(x)
    return seen


def probes(cfg, tier):
    out = []
    th = tier == 'thorough'
    isa = cfg.isa
    for k in CORE if th else ['uc', 's', 'i', 'ull', 'f', 'd']:
        T = TY[k]
        vn = isa.vec(T) // T.size
        mf = maxfx(isa, T)
        al = abis(isa, T, tier)
        for n in (4, 6, 8, vn, 3 * vn // 2, 2 * vn, 12):
            if n <= mf:
                al.append(S(T, 'fx', n))
        al = list(dict.fromkeys(al))
        for s in al:
            if s.N > 1:
                for n in sorted({s.N, s.N // 2, s.N // 3, s.N // 4, 2, 1}):
                    if n >= 1 and s.N % n == 0 and s.N // n <= 12:
                        for d in targets(isa, T, n):
                            out.append(split_to(s, d))
                for sz in shapes(s.N, th):
                    if all(x <= mf for x in sz):
                        out.append(split_sizes(s, sz))
            for m in (1, 2, 3, 4) if th else (1, 2, 3):
                if s.N * m <= mf:
                    out.append(concat([s] * m))
                    if m > 1:
                        out.append(concat_array(s, m))
            for o in (S(T, 'sc'), S(T, 'fx', 3), S(T, 'vb', 16)):
                if o.key != s.key and s.N + o.N <= mf:
                    out.append(concat([s, o]))
                    out.append(concat([o, s]))
                    if s.N + 2 * o.N <= mf:
                        out.append(concat([o, s, o]))
    for k in MASKTF if not th else CORE:
        T = TY[k]
        al = mask_abis(isa, T, tier)
        for n in (4, 6, 12, isa.vec(T) // T.size, 2 * isa.vec(T) // T.size):
            if n <= maxfx(isa, T):
                al.append(S(T, 'fx', n))
        for s in dict.fromkeys(al):
            for n in sorted({s.N, s.N // 2, s.N // 3, s.N // 4, 2, 1}):
                if n >= 1 and s.N % n == 0 and s.N // n <= 12:
                    for d in targets(isa, T, n):
                        out.append(msplit_to(s, d))
    return out
