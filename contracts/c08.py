"""C08: reductions combine each selected element exactly once."""
from .common import *

OPS = {'+': 'std::plus<>()', '*': 'std::multiplies<>()', '&': 'std::bit_and<>()', '|': 'std::bit_or<>()',
       '^': 'std::bit_xor<>()'}
ASSUMPTIONS = ['floating-point reductions: the order of the additions or multiplications is unspecified; the contract is '
               'that every (selected) element enters the tree of operations exactly once and nothing but the neutral '
               'element besides']


def configs(tier):
    return [Config(i) for i in ALLISA]


def fold(op, xs, w):
    if op == '+':
        return t.lin(0, [(x, 1) for x in xs], w)
    if op == '*':
        r = xs[0]
        for x in xs[1:]:
            r = t.mul(r, x)
        return r
    f = {'&': t.band, '|': t.bor, '^': t.bxor}[op]
    return f(*xs) if len(xs) > 1 else xs[0]


def ident(T, op):
    if T.fp:
        return fconst(1.0 if op == '*' else 0.0, T.bits)
    return const({'+': 0, '*': 1, '&': -1, '|': 0, '^': 0}[op] & t.mask(T.bits), T.bits)


def tree_leaves(r, name, out):
    """leaves of the tree of fp operations `name`; None for a nested case distinction"""
    st = [r]
    while st:
        x = st.pop()
        if x.op == 'fp' and x.k == name:
            st.extend(x.a)
        else:
            out.append(x)
    return out


def tree_goal(r, op, xs, w):
    name = 'add' if op == '+' else 'mul'
    neutral = {0, 1 << (w - 1)} if op == '+' else {fconst(1.0, w).k}
    ls = [x for x in tree_leaves(r, name, []) if not (x.op == 'c' and x.k in neutral)]
    xs = [x for x in xs if not (x.op == 'c' and x.k in neutral)]
    return t.TRUE if sorted(x.id for x in ls) == sorted(x.id for x in xs) else t.FALSE


def fp_sum(op, r, xs, w):
    """obligations on a possibly nested case distinction over trees"""
    return [('every element enters the reduction exactly once', tree_goal(r, op, xs, w))]


def sums(s, op, lam=False):
    T = s.T
    w = T.bits
    fn = OPS[op] if not lam else '[](const auto& x, const auto& y) { return x %s y; }' % op

    def ens(c):
        r = c.new['r'][0]
        if T.fp:
            return fp_sum(op, r, c['a'], w)
        return [('r', t.eq(fold(op, c['a'], w), r))]

    p = Probe('', [V('a', s), A('r', T, 1, 'out')],
              '*r = stdx::reduce(*a%s);' % ('' if op == '+' and not lam else ', ' + fn), ens,
              group='%s reduce %s%s' % (s.key, op, ' lambda' if lam else ''))
    if T.fp:
        native_fp(p, T, op, lambda c: c['a'])
    return p


def exact_fold(op, xs, w):
    r = ident(TY['f'] if w == 32 else TY['d'], op)
    for x in xs:
        r = t.fp('add' if op == '+' else 'mul', [r, x], w)
    return r


def native_fp(p, T, op, xs):
    """concrete check with operands for which every order of evaluation is exact"""
    w = T.bits
    vals = [fconst(float(v), w).k for v in ((0, 1, 2, 3, 5, 7, 11, 64, 129, -1, -2, -6) if op == '+' else
                                           (1, 2, 0.5, -1, 4, 1, 1, 1))]
    p.nat_values = {'a': vals}
    p.nat_ensures = lambda c: [('r', t.fp('eq', [exact_fold(op, xs(c), w), c.new['r'][0]], 1))]


def masked_sums(s, op, lam=False):
    T = s.T
    w = T.bits
    e = ident(T, op)
    fn = OPS[op] if not lam else '[](const auto& x, const auto& y) { return x %s y; }' % op
    args = '' if op == '+' and not lam else ', ' + fn
    if lam:
        args = ', static_cast<%s>(%d)' % (T.cxx, {'+': 0, '*': 1, '&': -1, '|': 0, '^': 0}[op]) + args
    sel = lambda c: [ite(k, x, e) for k, x in zip(c['k'], c['a'])]

    def ens(c):
        r = c.new['r'][0]
        none = t.bnot(t.bor(*c['k']))
        if not T.fp:
            return [('r', t.eq(fold(op, sel(c), w), r))]
        goals = []
        # empty selection
        r0 = r
        for k in c['k']:
            r0 = given(k, False, r0)
        goals.append(('empty selection', t.fp('eq', [r0, e], 1)))
        if tree_goal(r, op, sel(c), w) is t.TRUE:
            return goals + fp_sum(op, r, sel(c), w)
        if r.op == 'ite' and isc(r.a[1]):
            goals.append(('early exit', t.bor(t.bnot(r.a[0]), none)))
            r = r.a[2]
        elif r.op == 'ite' and isc(r.a[2]):
            goals.append(('early exit', t.bor(r.a[0], none)))
            r = r.a[1]
        return goals + fp_sum(op, r, sel(c), w)

    p = Probe('', [M('k', s), V('a', s), A('r', T, 1, 'out')],
              '*r = stdx::reduce(where(*k, *a)%s);' % args, ens,
              group='%s reduce(where) %s%s' % (s.key, op, ' lambda' if lam else ''))
    if T.fp:
        native_fp(p, T, op, sel)
    return p


def isc(x):
    return x.op == 'c'


def le(T, x, y):
    if T.fp:
        return t.fp('le', [x, y], 1)
    return t.sle(x, y) if T.signed else t.ule(x, y)


def minmax_leaves(r, T, mn):
    """leaves of a tree of minimum (maximum) operations"""
    ops = ('fmin3', 'fmax3') if T.fp else ('smin', 'smax') if T.signed else ('umin', 'umax')
    name = ops[0 if mn else 1]
    out = []
    st = [r]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue    # idempotent
        seen.add(x.id)
        if x.op == name:
            st.extend(x.a[:2])
        elif x.op == 'ite' and x.a[0].op == 'fp' and x.a[0].k in ('lt', 'le') and x.a[1:] in (
                x.a[0].a if mn else x.a[0].a[::-1],):
            st.extend(x.a[1:])
        else:
            out.append(x)
    return out


def ext_tree(T, mn, ks, xs, r, lim):
    """Lemma: the value of a tree of minimum operations is <= every leaf and equal to one of them
    (total order: integers and NaN-free floating point, up to the sign of zero).  -> leaves are
    exactly the selected elements (elsewhere the limit, which no element is above)."""
    want = [ite(k, x, lim) for k, x in zip(ks, xs)]
    got = [x for x in minmax_leaves(r, T, mn) if x is not lim]
    return sorted(x.id for x in set(want)) == sorted(x.id for x in got)


def ext_goals(T, mn, ks, xs, r, full=True):
    """r is a minimum (maximum) of the selected elements"""
    lims = [limit(T, mn)]
    if T.fp:
        lims.append(const({32: 0x7f800000, 64: 0x7ff0000000000000}[T.bits] | (0 if mn else 1 << (T.bits - 1)), T.bits))
    goals = []
    for lim in lims:
        if ext_tree(T, mn, ks, xs, r, lim):
            return [('the tree of comparisons has exactly the elements as leaves', t.TRUE)]
    none = t.bnot(t.bor(*ks))
    if r.op == 'ite' and T.fp:
        for i in (1, 2):
            if r.a[i] is lims[0]:
                c = r.a[0] if i == 1 else t.bnot(r.a[0])
                if any(ext_tree(T, mn, ks, xs, r.a[3 - i], lim) for lim in lims):
                    return [('the limit is returned only for an empty selection', t.bor(t.bnot(c), none)),
                            ('the tree of comparisons has exactly the elements as leaves', t.TRUE)]
    some = []
    for i, (k, x) in enumerate(zip(ks, xs)):
        g = le(T, r, x) if mn else le(T, x, r)
        goals.append(('r %s a[%d]' % ('<=' if mn else '>=', i), t.bor(t.bnot(k), g)))
        some.append(t.band(k, t.fp('eq', [r, x], 1) if T.fp else t.eq(r, x)))
    goals.append(('r is one of the elements', t.bor(none, *some)))
    return goals


def no_nan(T, xs):
    return [t.bnot(isnan(x)) for x in xs] if T.fp else []


def extremum(s, fn):
    T = s.T
    mn = fn == 'hmin'
    p = Probe('', [V('a', s), A('r', T, 1, 'out')], '*r = stdx::%s(*a);' % fn,
              lambda c: ext_goals(T, mn, [t.TRUE] * s.N, c['a'], c.new['r'][0]),
              lambda c: no_nan(T, c['a']), group='%s %s' % (s.key, fn))
    return p


def limit(T, mn):
    if T.fp:
        big = {32: 0x7f7fffff, 64: 0x7fefffffffffffff}[T.bits]
        return const(big if mn else big | 1 << (T.bits - 1), T.bits)
    hi = t.mask(T.bits) >> (1 if T.signed else 0)
    lo = 1 << (T.bits - 1) if T.signed else 0
    return const(hi if mn else lo, T.bits)


def masked_extremum(s, fn):
    T = s.T
    mn = fn == 'hmin'

    def ens(c):
        r = c.new['r'][0]
        out = ext_goals(T, mn, c['k'], c['a'], r)
        out.append(('empty selection', t.bor(t.bor(*c['k']), t.eq(r, limit(T, mn)))))
        return out
    return Probe('', [M('k', s), V('a', s), A('r', T, 1, 'out')], '*r = stdx::%s(where(*k, *a));' % fn, ens,
                 lambda c: [t.bor(t.bnot(k), q) for k, x in zip(c['k'], c['a']) for q in no_nan(T, [x])],
                 group='%s %s(where)' % (s.key, fn))


def probes(cfg, tier):
    out = []
    th = tier == 'thorough'
    for k in CORE:
        T = TY[k]
        for s in abis(cfg.isa, T, tier):
            ops = '+*' if T.fp else '+*&|^'
            for op in ops:
                out.append(sums(s, op))
                out.append(masked_sums(s, op))
            out.append(sums(s, '+', True))
            out.append(masked_sums(s, '+', True))
            for fn in ('hmin', 'hmax'):
                out.append(extremum(s, fn))
                out.append(masked_extremum(s, fn))
    return out
