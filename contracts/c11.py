"""C11: construction and element access address exactly one element."""
from .common import *
from .c05 import ALLU
from .c09 import preserving

INT = TY['i']
CHUNK = 150


def configs(tier):
    return [Config(i) for i in ALLISA]


def one_of(T):
    return fconst(1.0, T.bits) if T.fp else const(1, T.bits)


def implies(c, xs):
    return [t.bor(t.bnot(c), x) for x in xs]


def construct(s, tier):
    T, N = s.T, s.N
    out = []
    th = tier == 'thorough'
    g = lambda w: '%s %s' % (s.key, w)
    out.append(Probe('', [A('x', T), V('r', s, 'out')], '*r = %s(*x);' % s.cxx,
                     lambda c: each_strict('r', c['x'] * N, c.new['r']), group=g('broadcast')))
    out.append(Probe('', [A('x', T), V('r', s, 'out')], '*r = *x;',
                     lambda c: each_strict('r', c['x'] * N, c.new['r']), group=g('implicit broadcast')))
    us = [TY[u] for u in ALLU if u != T.key and (preserving(TY[u], T) or u == 'i' or (u == 'ui' and T.kind == 'u'))]
    for U in us if th else us[:1] + us[-1:]:
        out.append(Probe('', [A('x', U), V('r', s, 'out')], '*r = %s(*x);' % s.cxx,
                         lambda c, U=U: each_conv(U, T, 'r', c['x'] * N, c.new['r']),
                         lambda c, U=U: req_conv(U, T, c['x']), group=g('broadcast ' + U.key)))
    out.append(Probe('', [V('r', s, 'out')], '*r = %s{};' % s.cxx,
                     lambda c: each_strict('r', [const(0, T.bits)] * N, c.new['r']), group=g('value-init')))
    val = (lambda v: fconst(float(v), T.bits)) if T.fp else (lambda v: const(v, T.bits))
    for v in (1, 0) if not th else (1, 0, 3):
        out.append(Probe('', [V('r', s, 'out')], '*r = %s(%d);' % (s.cxx, v),
                         lambda c, v=v: each_strict('r', [val(v)] * N, c.new['r']), group=g('broadcast %d' % v)))
    out.append(Probe('', [A('m', T, N), V('r', s, 'out')], '*r = %s([&](auto i) { return m[i]; });' % s.cxx,
                     lambda c: each_strict('r', c['m'], c.new['r']), group=g('generator')))
    out.append(Probe('', [A('m', T, N), V('r', s, 'out')],
                     '*r = %s([&](auto i) { constexpr std::size_t k = i; return m[%d - k]; });' % (s.cxx, N - 1),
                     lambda c: each_strict('r', c['m'][::-1], c.new['r']), group=g('generator reversed')))
    out.append(Probe('', [V('r', s, 'out')], '*r = %s([](auto i) { return static_cast<%s>(int(i) * 3 + 1); });' % (s.cxx, T.cxx),
                     lambda c: each_strict('r', [val(3 * i + 1) for i in range(N)], c.new['r']),
                     group=g('generator constants')))
    out.append(Probe('', [V('r', s, 'out')], '*r = %s([](int i) { return i + 1; });' % s.cxx,
                     lambda c: each_strict('r', [val(i + 1) for i in range(N)], c.new['r']),
                     group=g('generator int')))
    if T.int and T.bits < 64 or T.key == 'd':
        out.append(Probe('', [A('m', INT, N), V('r', s, 'out')], '*r = %s([&](auto i) { return m[i]; });' % s.cxx,
                         lambda c: each_conv(INT, T, 'r', c['m'], c.new['r']), group=g('generator from int')))
    out.append(Probe('', [V('a', s), V('r', s, 'inout')], '*r = *a;',
                     lambda c: each_strict('r', c['a'], c.new['r']), group=g('copy')))
    if s.abi in ('vb', 'bm') and N * T.size >= 16:
        I = 'stdx::__intrinsic_type_t<%s, %d>' % (T.cxx, N)
        out.append(Probe('', [V('a', s), A('m', T, N, 'out')],
                         'auto y = static_cast<%s>(*a); __builtin_memcpy(m, &y, %d);' % (I, N * T.size),
                         lambda c: each_strict('m', c['a'], c.new['m']), group=g('to intrinsic')))
        out.append(Probe('', [A('m', T, N), V('r', s, 'out')],
                         '%s y; __builtin_memcpy(&y, m, %d); *r = %s(y);' % (I, N * T.size, s.cxx),
                         lambda c: each_strict('r', c['m'], c.new['r']), group=g('from intrinsic')))
    return out


def access(s, tier, full):
    T, N = s.T, s.N
    out = []
    th = tier == 'thorough'
    g = lambda w: '%s %s' % (s.key, w)
    idx = lambda c: []
    at = lambda c, a='a', i='i': select(c[a], c[i][0])
    I = A('i', SIZE, below=N)
    J = A('j', SIZE, below=N)
    X = A('x', T)
    R = A('r', T, mode='out')
    W = V('a', s, 'inout')
    out.append(Probe('', [V('a', s), I, R], '*r = (*a)[*i];',
                     lambda c: [('r', t.eq(at(c), c.new['r'][0]))], idx, group=g('a[i] (const)')))
    out.append(Probe('', [W, I, R], '*r = (*a)[*i];',
                     lambda c: [('r', t.eq(at(c), c.new['r'][0]))] + each_strict('a', c['a'], c.new['a']), idx,
                     group=g('a[i]')))
    out.append(Probe('', [W, I, X], '(*a)[*i] = *x;',
                     lambda c: each_strict('a', update(c['a'], c['i'][0], c['x'][0]), c.new['a']), idx,
                     group=g('a[i] = x')))
    for k in sorted({0, N // 2, N - 1} if not th else set(range(N))):
        out.append(Probe('', [V('a', s), R], '*r = (*a)[%d];' % k,
                         lambda c, k=k: [('r', t.eq(c['a'][k], c.new['r'][0]))], group=g('a[%d]' % k)))
        out.append(Probe('', [W, X], '(*a)[%d] = *x;' % k,
                         lambda c, k=k: each_strict('a', [c['x'][0] if j == k else x for j, x in enumerate(c['a'])],
                                                    c.new['a']), group=g('a[%d] = x' % k)))
    if not full:
        return out
    ops = ['+', '-', '*', '/'] + ([] if T.fp else ['%', '&', '|', '^', '<<', '>>'])
    for op in ops:
        if op == '*' and T.key == 'us':
            continue                        # promotes to int and overflows

        def req(c, op=op):
            r = idx(c)
            for k in range(N):
                sel = t.eq(c['i'][0], const(k, 64))
                if op in ('/', '%'):
                    r += implies(sel, req_div(T, [c['a'][k]], c['x']))
                if op in ('<<', '>>'):
                    r += req_shift(T, c['x'])
            return r
        F = lambda c, op=op: [sp_bin(T, op, y, c['x'][0]) for y in c['a']]
        out.append(Probe('', [W, I, X], '(*a)[*i] %s= *x;' % op,
                         lambda c, F=F: each(T, 'a', [ite(t.eq(c['i'][0], const(k, 64)), y, z) for k, (y, z) in
                                                      enumerate(zip(F(c), c['a']))], c.new['a']), req,
                         group=g('a[i] %s= x' % op)))
    # the operand is an int: the operation takes place after the usual arithmetic conversions
    if T.bits < 32 or T.key == 'f':
        TI = TY['i']
        Y = A('y', TI)
        for op in (['*'] if T.fp else ['/', '%', '&', '<<', '>>']):
            def G(c, op=op):
                y = c['y'][0]
                if T.fp:
                    return [sp_bin(T, op, x, sp_conv(TI, T, y)) for x in c['a']]
                f = t.sext if T.signed else t.zext
                return [ext(sp_bin(TI, op, f(x, 32), y), 0, T.bits) for x in c['a']]

            def req(c, op=op):
                y = c['y'][0]
                if op in ('/', '%'):
                    return [t.bnot(t.eq(y, const(0, 32)))]
                return req_shift(TI, [y]) if op in ('<<', '>>') else []
            out.append(Probe('', [W, I, Y], '(*a)[*i] %s= *y;' % op,
                             lambda c, G=G: each(T, 'a', [ite(t.eq(c['i'][0], const(k, 64)), y, z) for k, (y, z) in
                                                          enumerate(zip(G(c), c['a']))], c.new['a']), req,
                             group=g('a[i] %s= int' % op)))
    for op, e in (('++', '+'), ('--', '-')):
        F = lambda c, e=e: [sp_bin(T, e, y, one_of(T)) for y in c['a']]
        E = lambda c, F=F: each(T, 'a', [ite(t.eq(c['i'][0], const(k, 64)), y, z) for k, (y, z) in
                                         enumerate(zip(F(c), c['a']))], c.new['a'])
        out.append(Probe('', [W, I, R], '*r = %s(*a)[*i];' % op,
                         lambda c, E=E, e=e: E(c) + [('r', veq(T, sp_bin(T, e, at(c), one_of(T)), c.new['r'][0]))], idx,
                         group=g('%sa[i]' % op)))
        out.append(Probe('', [W, I, R], '*r = (*a)[*i]%s;' % op,
                         lambda c, E=E: E(c) + [('r', t.eq(at(c), c.new['r'][0]))], idx,
                         group=g('a[i]%s' % op)))
    out.append(Probe('', [W, I, A('x', T, 1, 'inout')], 'swap((*a)[*i], *x);',
                     lambda c: each_strict('a', update(c['a'], c['i'][0], c['x'][0]), c.new['a']) +
                     [('x', t.eq(at(c), c.new['x'][0]))], idx, group=g('swap(a[i], x)')))
    out.append(Probe('', [W, I, A('x', T, 1, 'inout')], 'swap(*x, (*a)[*i]);',
                     lambda c: each_strict('a', update(c['a'], c['i'][0], c['x'][0]), c.new['a']) +
                     [('x', t.eq(at(c), c.new['x'][0]))], idx, group=g('swap(x, a[i])')))
    idx2 = idx
    out.append(Probe('', [W, I, V('b', s, 'inout'), J], 'swap((*a)[*i], (*b)[*j]);',
                     lambda c: each_strict('a', update(c['a'], c['i'][0], at(c, 'b', 'j')), c.new['a']) +
                     each_strict('b', update(c['b'], c['j'][0], at(c)), c.new['b']), idx2,
                     group=g('swap(a[i], b[j])')))
    if N <= 16:
        out.append(Probe('', [W, I, J], 'swap((*a)[*i], (*a)[*j]);',
                         lambda c: each_strict('a', update(update(c['a'], c['i'][0], at(c, 'a', 'j')), c['j'][0], at(c)),
                                               c.new['a']), idx2, group=g('swap(a[i], a[j])')))
    return out


def probes(cfg, tier):
    out = []
    th = tier == 'thorough'
    isa = cfg.isa
    for k in CORE:
        T = TY[k]
        nat = isa.vec(T)
        for s in abis(isa, T, tier):
            out += construct(s, tier)
            out += access(s, tier, th or s.abi == 'sc' or s.abi == 'fx' or s.arg in (12, 16, nat))
    return out
