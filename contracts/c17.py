"""C17: type traits, deduction and constructor constraints describe the types.

The traits are compile-time functions; a probe stores their values and the contract states each of them as
a function of the element type, the number of elements and the ABI."""
from .common import *
from .c09 import maxfx

CHUNK = 120
UL = TY['ul']
ALL = ['sc', 'uc', 'c', 's', 'us', 'i', 'ui', 'l', 'ul', 'll', 'ull', 'f', 'd']
FROM = ALL + ['ld', 'bool']
DIG = {'f': 24, 'd': 53, 'ld': 64}
RANK = {'sc': 1, 'uc': 1, 'c': 1, 's': 2, 'us': 2, 'i': 3, 'ui': 3, 'l': 4, 'ul': 4, 'll': 5, 'ull': 5}


def configs(tier):
    return [Config(i) for i in ALLISA]


def cxx(k):
    return 'bool' if k == 'bool' else TY[k].cxx


def preserving(f, k):
    """every value of f is a value of k"""
    if f == k:
        return True
    if f in DIG:
        return k in DIG and DIG[f] <= DIG[k]
    F = TY[f]
    fd = F.bits - (1 if F.signed else 0)
    if k in DIG:
        return fd <= DIG[k]
    K = TY[k]
    kd = K.bits - (1 if K.signed else 0)
    return fd <= kd and (not F.signed or K.signed)


def broadcastable(f, k):
    return f != 'bool' and (preserving(f, k) or f == 'i' or f == 'ui' and k not in DIG and not TY[k].signed)


def converting(f, k):
    """simd<f, fixed_size<N>> converts implicitly to simd<k, fixed_size<N>>"""
    if f == k:
        return True
    if not preserving(f, k):
        return False
    return f in DIG or k in DIG or RANK[k] > RANK[f]


def bit_ceil(n):
    return 1 << (n - 1).bit_length()


PRE = '''
template <class A, class B, class = void> struct verif_adds : std::false_type {};
template <class A, class B> struct verif_adds<A, B, std::void_t<decltype(std::declval<A>() + std::declval<B>())>> : std::true_type {};
template <class A, class B, class = void> struct verif_less : std::false_type {};
template <class A, class B> struct verif_less<A, B, std::void_t<decltype(std::declval<A>() < std::declval<B>())>> : std::true_type {};
template <class F, class V, class = void> struct verif_casts : std::false_type {};
template <class V, class T> struct verif_casts<T, V, std::void_t<decltype(stdx::simd_cast<T>(std::declval<V>()))>> : std::true_type {};
template <class T> struct verif_gen { T operator()(std::size_t) const; };
'''
PRE = '#ifndef VERIF_C17\n#define VERIF_C17\n' + PRE + '#endif\n'


def table(group, rows, decl=''):
    """rows: (C++ expression, expected integer, label)"""
    out = []
    for j in range(0, len(rows), 60):
        part = rows[j:j + 60]
        body = ' '.join('z[%d] = (unsigned long)(%s);' % (i, e) for i, (e, v, l) in enumerate(part))
        out.append(Probe('', [A('z', UL, len(part), 'out')], decl + body,
                         lambda c, part=part: [(l, t.eq(c.new['z'][i], const(int(v), 64))) for i, (e, v, l) in enumerate(part)],
                         group=group + (' %d' % (j // 60) if j else '')))
        out[-1].decl = PRE
    return out


def same(a, b):
    return 'std::is_same_v<%s, %s>' % (a, b)


def of_simd(s, isa):
    T, N = s.T, s.N
    V, M_ = s.cxx, s.mcxx
    A_ = s.abicxx
    R = lambda e, v, l=None: rows.append((e, v, l or e.replace('stdx::', '')))
    out = []
    rows = []
    R('stdx::simd_size_v<%s, %s>' % (T.cxx, A_), N)
    R('stdx::simd_size<%s, %s>::value' % (T.cxx, A_), N)
    R('%s::size()' % V, N)
    R('%s::size()' % M_, N)
    R('stdx::is_simd_v<%s>' % V, 1)
    R('stdx::is_simd_v<%s>' % M_, 0)
    R('stdx::is_simd_mask_v<%s>' % M_, 1)
    R('stdx::is_simd_mask_v<%s>' % V, 0)
    R('stdx::is_abi_tag_v<%s>' % A_, 1)
    R('stdx::is_abi_tag_v<%s>' % V, 0)
    R(same('typename %s::value_type' % V, T.cxx), 1)
    R(same('typename %s::mask_type' % V, M_), 1)
    R(same('typename %s::simd_type' % M_, V), 1)
    R(same('typename %s::abi_type' % V, A_), 1)
    R(same('typename %s::abi_type' % M_, A_), 1)
    R(same('typename %s::value_type' % M_, 'bool'), 1)
    for e in ('+', '-', '*', '/'):
        R(same('decltype(std::declval<%s>() %s std::declval<%s>())' % (V, e, V), V), 1)
    for e in ('==', '!=', '<', '<=', '>', '>='):
        R(same('decltype(std::declval<%s>() %s std::declval<%s>())' % (V, e, V), M_), 1)
    R('sizeof(%s) >= %d' % (V, N * T.size), 1)
    for tr in ('is_default_constructible', 'is_trivially_copyable', 'is_copy_constructible', 'is_copy_assignable',
               'is_destructible'):
        if tr != 'is_trivially_copyable' or s.abi != 'fx':
            R('std::%s_v<%s>' % (tr, V), 1)
        R('std::%s_v<%s>' % (tr, M_), 1)
    R('std::is_convertible_v<bool, %s>' % M_, 0)
    R('std::is_constructible_v<%s, bool>' % M_, 1)
    R('std::is_convertible_v<%s, bool>' % M_, 0)
    R('std::is_constructible_v<bool, %s>' % V, 0)
    if N > 1:
        R('std::is_convertible_v<%s, %s>' % (V, T.cxx), 0)
        R('std::is_constructible_v<%s, %s>' % (M_, V), 0)
    for k in ALL:
        R('stdx::memory_alignment_v<%s, %s>' % (V, cxx(k)), bit_ceil(N * TY[k].size))
    R('stdx::memory_alignment_v<%s>' % V, bit_ceil(N * T.size))
    R('stdx::memory_alignment_v<%s>' % M_, bit_ceil(N))
    out += table('%s traits' % s.key, rows)
    # broadcast: implicit exactly when value-preserving (or int, or unsigned int to unsigned)
    rows = []
    for f in FROM:
        b = broadcastable(f, T.key)
        R('std::is_convertible_v<%s, %s>' % (cxx(f), V), b)
        R('std::is_constructible_v<%s, const %s&>' % (V, cxx(f)), b)
        R('verif_adds<%s, %s>::value' % (V, cxx(f)), b)
        R('verif_less<%s, %s>::value' % (cxx(f), V), b)
        # generator constructor: explicit, same condition on its results
        if f != 'bool':
            R('std::is_constructible_v<%s, verif_gen<%s>>' % (V, cxx(f)), b)
        R('std::is_convertible_v<verif_gen<%s>, %s>' % (cxx(f), V), 0)
    out += table('%s broadcast' % s.key, rows)
    # conversion between simd types
    rows = []
    for f in ALL:
        F = 'stdx::simd<%s, stdx::simd_abi::fixed_size<%d>>' % (cxx(f), N)
        if N <= maxfx(isa, TY[f]):
            c = converting(f, T.key) if s.abi == 'fx' else False
            R('std::is_convertible_v<%s, %s>' % (F, V), c)
            R('verif_casts<%s, %s>::value' % (T.cxx, F), preserving(f, T.key))
            R('std::is_convertible_v<stdx::simd_mask<%s, stdx::simd_abi::fixed_size<%d>>, %s>' % (cxx(f), N, M_), s.abi == 'fx')
        R('std::is_convertible_v<stdx::simd<%s, stdx::simd_abi::fixed_size<%d>>, %s>' % (cxx(f), N + 1 if N < 30 else N - 1, V), 0)
        if f != T.key:
            R('std::is_convertible_v<stdx::simd<%s, stdx::simd_abi::compatible<%s>>, %s>' % (cxx(f), cxx(f), V), 0)
    out += table('%s conversion' % s.key, rows)
    # rebind, resize, deduction
    rows = []
    for k in ALL:
        rb = 'stdx::rebind_simd_t<%s, %s>' % (cxx(k), V)
        rm = 'stdx::rebind_simd_t<%s, %s>' % (cxx(k), M_)
        if N <= maxfx(isa, TY[k]):
            R('%s::size()' % rb, N)
            R(same('typename %s::value_type' % rb, cxx(k)), 1)
            R('%s::size()' % rm, N)
            R(same('typename %s::mask_type' % rb, rm), 1)
    for n in sorted({1, 2, 3, 4, 7, 8, N, 2 * N} & set(range(1, maxfx(isa, T) + 1))):
        rs = 'stdx::resize_simd_t<%d, %s>' % (n, V)
        R('%s::size()' % rs, n)
        R(same('typename %s::value_type' % rs, T.cxx), 1)
        R(same('stdx::resize_simd_t<%d, %s>' % (n, M_), 'typename %s::mask_type' % rs), 1)
    out += table('%s rebind' % s.key, rows)
    return out


def of_type(T, isa):
    rows = []
    R = lambda e, v, l=None: rows.append((e, v, l or e.replace('stdx::', '')))
    nat = isa.vec(T) // T.size
    R('stdx::native_simd<%s>::size()' % T.cxx, nat)
    R('stdx::native_simd_mask<%s>::size()' % T.cxx, nat)
    R('stdx::simd<%s>::size()' % T.cxx, 16 // T.size)
    R('stdx::simd_size_v<%s>' % T.cxx, 16 // T.size)
    R('stdx::simd_size_v<%s, stdx::simd_abi::scalar>' % T.cxx, 1)
    R(same('stdx::simd_abi::deduce_t<%s, 1>' % T.cxx, 'stdx::simd_abi::scalar'), 1)
    R(same('stdx::simd_abi::deduce_t<%s, %d>' % (T.cxx, nat), 'stdx::simd_abi::native<%s>' % T.cxx), 1)
    R('stdx::simd_abi::max_fixed_size<%s> >= 32' % T.cxx, 1)
    for n in range(1, 33):
        R('stdx::simd_size_v<%s, stdx::simd_abi::deduce_t<%s, %d>>' % (T.cxx, T.cxx, n), n)
        R('stdx::is_abi_tag_v<stdx::simd_abi::deduce_t<%s, %d>>' % (T.cxx, n), 1)
        R('stdx::fixed_size_simd<%s, %d>::size()' % (T.cxx, n), n)
        R('sizeof(stdx::fixed_size_simd<%s, %d>) >= %d' % (T.cxx, n, n * T.size), 1)
        R(same('stdx::fixed_size_simd_mask<%s, %d>::simd_type' % (T.cxx, n), 'stdx::fixed_size_simd<%s, %d>' % (T.cxx, n)), 1)
    # no object of an unsupported specialisation
    for a in ('fixed_size<0>', 'fixed_size<1000>', '_VecBuiltin<%d>' % (T.size - 1 or 128), '_VecBuiltin<128>') + (
            ('_VecBuiltin<%d>' % (2 * isa.vec(T)),) if isa.vec(T) < 64 else ()):
        for c in ('simd', 'simd_mask'):
            R('std::is_default_constructible_v<stdx::%s<%s, stdx::simd_abi::%s>>' % (c, T.cxx, a), 0)
    R('stdx::is_simd_v<%s>' % T.cxx, 0)
    R('stdx::is_simd_mask_v<%s>' % T.cxx, 0)
    R('stdx::is_abi_tag_v<%s>' % T.cxx, 0)
    return table('%s deduction' % T.key, rows)


def flags(isa):
    rows = []
    R = lambda e, v, l=None: rows.append((e, v, l or e.replace('stdx::', '')))
    R(same('const stdx::element_aligned_tag', 'decltype(stdx::element_aligned)'), 1)
    R(same('const stdx::vector_aligned_tag', 'decltype(stdx::vector_aligned)'), 1)
    R(same('const stdx::overaligned_tag<32>', 'decltype(stdx::overaligned<32>)'), 1)
    for c in ('simd', 'simd_mask'):
        R('std::is_default_constructible_v<stdx::%s<bool, stdx::simd_abi::scalar>>' % c, 0)
        R('std::is_default_constructible_v<stdx::%s<int, int>>' % c, 0)
        R('std::is_constructible_v<stdx::%s<bool, stdx::simd_abi::fixed_size<4>>, bool>' % c, 0)
    R('stdx::is_abi_tag_v<bool>', 0)
    return table('flags', rows)


def probes(cfg, tier):
    out = flags(cfg.isa)
    for k in ALL if tier == 'thorough' or cfg.isa.key == 'sse2' else CORE:
        T = TY[k]
        out += of_type(T, cfg.isa)
        for s in abis(cfg.isa, T, tier):
            out += of_simd(s, cfg.isa)
    return out
