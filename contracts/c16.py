"""C16: the code paths taken for operands known at compile time compute the same element values.

Configurations 'cp': every __builtin_constant_p query of the library answers with an unconstrained
boolean (one per site and evaluation), so that every combination of paths is under the contracts of
C01, C02, C04, C06 and C12.  Configurations 'main': operands that are compile-time constants in fact."""
import re
from .common import *
from . import c01, c02, c03, c04, c06, c12
from .c06 import masked, masked_req

CHUNK = 150
CP = ('sse2', 'avx2', 'skx')


def configs(tier):
    out = [Config(i) for i in ALLISA]
    out += [Config(i, mode='cp', set='cp') for i in (ALLISA if tier == 'thorough' else CP)]
    if tier == 'thorough':
        out += [Config(i, opt='-O2') for i in ALLISA]
    return out


def lit(T, v):
    """C++ expression and value of a constant"""
    if T.fp:
        e = {'inf': 'std::numeric_limits<%s>::infinity()' % T.cxx, 'nan': 'std::numeric_limits<%s>::quiet_NaN()' % T.cxx}
        import struct
        if v in e:
            b = {('inf', 32): 0x7f800000, ('nan', 32): 0x7fc00000, ('inf', 64): 0x7ff << 52, ('nan', 64): 0x7ff8 << 48}[v, T.bits]
            return e[v], const(b, T.bits)
        return '(%s)(%s)' % (T.cxx, v), fconst(float(v), T.bits)
    n = {'min': 1 << (T.bits - 1), 'max': (1 << (T.bits - 1)) - 1}.get(v)
    n = int(v) if n is None else n
    if T.signed and n >> (T.bits - 1) == 1:
        n -= 1 << T.bits
    ex = '(%s)(%dll)' % (T.cxx, n) if n > -(1 << 63) and n < 1 << 63 else '(%s)(%s)' % (
        T.cxx, '-9223372036854775807ll - 1' if n < 0 else '%dull' % n)
    return ex, const(n, T.bits)


def lits(T):
    return ['0.0', '-0.0', '1.0', '-1.0', '2.5', 'inf', 'nan'] if T.fp else ['0', '1', '2', '7', '-1', 'min']


def pat(s, k):
    """generator constant: expression and element values"""
    T = s.T
    f = lambda i: (i * 5 + k) % 11 - 5 if T.signed or T.fp else (i * 5 + k) % 11
    return ('%s([](auto i) -> %s { return (%s)(int(i * 5 + %d) %% 11%s); })' % (
        s.cxx, T.cxx, T.cxx, k, ' - 5' if T.signed or T.fp else ''),
        [fconst(float(f(i)), T.bits) if T.fp else const(f(i), T.bits) for i in range(s.N)])


def mpat(s, k):
    """constant mask from a comparison of generators: expression and values"""
    f = [lambda i: True, lambda i: False, lambda i: i % 2 == 0, lambda i: i % 3 == 1, lambda i: i == s.N - 1][k]
    e = ['%s(true)', '%s(false)'][k] % s.mcxx if k < 2 else '(%s([](auto i) -> %s { return %s; }) != (%s)(0))' % (
        s.cxx, s.T.cxx, ['', '', 'i % 2 == 0', 'i % 3 == 1', 'i == %d' % (s.N - 1)][k], s.T.cxx)
    return e, [t.TRUE if f(i) else t.FALSE for i in range(s.N)]


def literal(s, th):
    T, N = s.T, s.N
    out = []
    a, b, r, k = V('a', s), V('b', s), V('r', s, 'out'), M('k', s)
    x = A('x', T)

    def add(nm, ps, body, post, rq=None):
        out.append(Probe('', ps, body, post, rq, group='%s %s' % (s.key, nm)))

    def R(nm, ps, body, f, rq=None):
        add(nm, ps, body, lambda c: each(T, 'r', f(c), c.new['r']), rq)

    def rqf(op):
        def f(xs, ys):
            if T.fp:
                return []
            if op in '/%':
                return req_div(T, xs, ys)
            if op in ('<<', '>>'):
                return req_shift(T, ys)
            return []
        return f
    ops = ['+', '-', '*', '/'] + ([] if T.fp else ['%', '&', '|', '^', '<<', '>>'])
    ls = lits(T)
    for op in ops:
        rq = rqf(op)
        vs = ls if th or op in ('<<', '>>', '/', '*') else ls[:2] + ls[-1:]
        for v in vs:
            e, w = lit(T, v)
            if op == '/' and v == '7' and (T.bits >= 32 or s.abi == 'sc'):
                continue        # multiplication by the reciprocal: out of the solver's reach (GCC's, not the library's)
            # constant on the right
            if not any(q is t.FALSE for q in rq([const(1, T.bits)], [w])):
                R('a%s%s' % (op, v), [a, r], '*r = *a %s %s(%s);' % (op, s.cxx, e),
                  lambda c, op=op, w=w: [sp_bin(T, op, p, w) for p in c['a']], lambda c, rq=rq, w=w: rq(c['a'], [w] * N))
            # constant on the left
            if th or op not in ('+', '^', '&', '|') and (T.fp or op not in ('/', '%') or T.bits < 32):
                R('%s%sa' % (v, op), [a, r], '*r = %s(%s) %s *a;' % (s.cxx, e, op),
                  lambda c, op=op, w=w: [sp_bin(T, op, w, p) for p in c['a']], lambda c, rq=rq, w=w: rq([w] * N, c['a']))
        # both constant
        pe, pv = pat(s, 3)
        qe, qv = pat(s, 1)
        if op in ('/', '%'):
            qe, qv = '%s(%s)' % (s.cxx, lit(T, '3')[0]), [lit(T, '3')[1]] * N
        if op in ('<<', '>>'):
            qe, qv = '%s(%s)' % (s.cxx, lit(T, '5')[0]), [lit(T, '5')[1]] * N
        R('C%sC' % op, [r], '*r = %s %s %s;' % (pe, op, qe), lambda c, op=op, pv=pv, qv=qv: [
            sp_bin(T, op, p, q) for p, q in zip(pv, qv)])
        if op not in ('/', '%', '<<', '>>'):
            R('a%sC' % op, [a, r], '*r = *a %s %s;' % (op, pe), lambda c, op=op, pv=pv: [
                sp_bin(T, op, p, q) for p, q in zip(c['a'], pv)])
    for op in ('==', '<', '>=') if not th else ('==', '!=', '<', '<=', '>', '>='):
        for v in ls if th else ls[:2] + ls[-2:]:
            e, w = lit(T, v)
            add('a%s%s' % (op, v), [a, M('m', s, 'out')], '*m = *a %s %s(%s);' % (op, s.cxx, e),
                lambda c, op=op, w=w: each_strict('m', [sp_cmp(T, op, p, w) for p in c['a']], c.new['m']))
        pe, pv = pat(s, 3)
        qe, qv = pat(s, 4)
        add('C%sC' % op, [M('m', s, 'out')], '*m = %s %s %s;' % (pe, op, qe),
            lambda c, op=op, pv=pv, qv=qv: each_strict('m', [sp_cmp(T, op, p, q) for p, q in zip(pv, qv)], c.new['m']))
    # where with a constant value
    for v in ls:
        e, w = lit(T, v)
        add('where = %s' % v, [k, V('a', s, 'inout')], 'where(*k, *a) = %s;' % e,
            lambda c, w=w: masked(T, 'a', c['k'], [w] * N, c['a'], c.new['a']))
        add('where = V(%s)' % v, [k, V('a', s, 'inout')], 'where(*k, *a) = %s(%s);' % (s.cxx, e),
            lambda c, w=w: masked(T, 'a', c['k'], [w] * N, c['a'], c.new['a']))
    for op in ops:
        for v in (ls[:3] if th else ls[1:3]):
            e, w = lit(T, v)
            if op in ('<<', '>>', '/', '%') and v == '0':
                continue
            add('where %s= %s' % (op, v), [k, V('a', s, 'inout')], 'where(*k, *a) %s= %s;' % (op, e),
                lambda c, w=w, op=op: masked(T, 'a', c['k'], [sp_bin(T, op, p, w) for p in c['a']], c['a'], c.new['a']),
                lambda c, w=w, op=op: masked_req(T, op, c['k'], c['a'], [w] * N))
    # where with a constant mask
    for m in range(5):
        me, mv = mpat(s, m)
        add('where M%d =' % m, [V('a', s, 'inout'), b], 'where(%s, *a) = *b;' % me,
            lambda c, mv=mv: masked(T, 'a', mv, c['b'], c['a'], c.new['a']))
        add('where M%d = x' % m, [V('a', s, 'inout'), x], 'where(%s, *a) = *x;' % me,
            lambda c, mv=mv: masked(T, 'a', mv, c['x'] * N, c['a'], c.new['a']))
        add('where M%d = 0' % m, [V('a', s, 'inout')], 'where(%s, *a) = %s;' % (me, lit(T, ls[0])[0]),
            lambda c, mv=mv: masked(T, 'a', mv, [lit(T, ls[0])[1]] * N, c['a'], c.new['a']))
        add('where M%d +=' % m, [V('a', s, 'inout'), b], 'where(%s, *a) += *b;' % me,
            lambda c, mv=mv: masked(T, 'a', mv, [sp_bin(T, '+', p, q) for p, q in zip(c['a'], c['b'])], c['a'], c.new['a']))
        add('where M%d ++' % m, [V('a', s, 'inout')], '++where(%s, *a);' % me,
            lambda c, mv=mv: masked(T, 'a', mv, [sp_bin(T, '+', p, fconst(1.0, T.bits) if T.fp else const(1, T.bits))
                                                for p in c['a']], c['a'], c.new['a']))
        neg = (lambda z: t.cat([ext(z, 0, z.w - 1), t.bnot(bit(z, z.w - 1))])) if T.fp else t.neg
        add('-where M%d' % m, [a, r], '*r = -where(%s, *a);' % me,
            lambda c, mv=mv: masked(T, 'r', mv, [neg(p) for p in c['a']], c['a'], c.new['r']))
        # masks: logic with a constant, reductions of a constant
        for op in ('&&', '||', '&', '|', '^'):
            f = {'&': t.band, '|': t.bor, '^': t.bxor}[op[0]]
            add('k%sM%d' % (op, m), [k, M('m', s, 'out')], '*m = *k %s %s;' % (op, me),
                lambda c, f=f, mv=mv: each_strict('m', [f(p, q) for p, q in zip(c['k'], mv)], c.new['m']))
        add('!M%d' % m, [M('m', s, 'out')], '*m = !%s;' % me,
            lambda c, mv=mv: each_strict('m', [t.bnot(p) for p in mv], c.new['m']))
        for fn, (spec, RT, na) in c04.SPEC.items():
            if na and not any(q is t.TRUE for q in mv):
                continue
            add('%s(M%d)' % (fn, m), [A('z', RT, mode='out')], '*z = %s(%s);' % (fn, me),
                lambda c, spec=spec, mv=mv: [('r', t.eq(spec(mv), c.new['z'][0]))])
    # minimum and maximum, negation and complement of constants
    for fn, op in (('min', '<'), ('max', '>')):
        for v in ls[:3] if not T.fp else ('1.0', '-1.0', '2.5'):
            e, w = lit(T, v)
            if T.fp:
                continue
            R('%s(a,%s)' % (fn, v), [a, r], '*r = stdx::%s(*a, %s(%s));' % (fn, s.cxx, e),
              lambda c, w=w, op=op: [ite(sp_cmp(T, op, w, p), w, p) for p in c['a']])
    pe, pv = pat(s, 2)
    neg = (lambda z: t.cat([ext(z, 0, z.w - 1), t.bnot(bit(z, z.w - 1))])) if T.fp else t.neg
    R('-C', [r], '*r = -%s;' % pe, lambda c: [neg(p) for p in pv])
    if not T.fp:
        R('~C', [r], '*r = ~%s;' % pe, lambda c: [t.bxor(p, const(-1, T.bits)) for p in pv])
    add('!C', [M('m', s, 'out')], '*m = !%s;' % pe, lambda c: each_strict('m', [sp_cmp(T, '==', p, const(0, T.bits)) for p in pv],
                                                                    c.new['m']))
    if N % 2 == 0 and N > 1 and s.abi == 'vb':
        h = S(T, 'fx', N // 2)
        R('concat(split C)', [r], 'auto z = stdx::split<%s>(%s); *r = stdx::static_simd_cast<%s>(stdx::concat(z[1], z[0]));' % (
            h.cxx, pe, s.cxx), lambda c: pv[N // 2:] + pv[:N // 2])
    return out


def quick(isa, s):
    """the specialisations of the quick tier"""
    i = isa.key
    nat = isa.vec(s.T)
    if s.abi == 'sc':
        return i == 'sse2'
    if s.abi == 'fx':
        return s.N == 3 and i in ('sse2', 'skx') or s.N > 3 and i in ('sse2', 'avx') and s.N < 20
    if s.abi == 'vb':
        if s.arg == 16:
            return i in ('sse2', 'ssse3', 'sse42', 'skx') or nat == 16
        if s.arg == 8:
            return i == 'sse2'
        if s.arg == 12:
            return i in ('sse2', 'sse42', 'skx')
        return i in ('avx', 'avx2') or i == 'avx512f' and nat == 32 or i == 'skx' and s.arg == 24
    return s.arg in (64, 48) and i == 'avx512f' or s.arg in (16, 64, 24, 12) and i == 'skx'


def narrow(p):
    """a compile-time constant divisor reaches the generic vector division, where MIN / -1 of 8 and 16 bits
    would be an overflow; the compiler emits no division instruction for a divisor it knows"""
    s = spec(p)
    T = s.T
    if not (T.int and T.signed and T.bits < 32 and re.search(r'[/%]', p.body)):
        return p
    old = p.requires

    def req(c):
        out = list(old(c)) if old else []
        n = max(len(c['a']), len(c['b']))
        ks = c['k'] if any(q.name == 'k' for q in p.params) else [t.TRUE] * n
        for k, x, y in zip(ks, c['a'] * (n // len(c['a'])), c['b'] * (n // len(c['b']))):
            out.append(t.bnot(t.band(k, t.eq(x, const(1 << (T.bits - 1), T.bits)), t.eq(y, const(-1, T.bits)))))
        return out
    p.requires = req
    return p


def spec(p):
    for q in p.params:
        if q.s is not None:
            return q.s
    return None


def probes(cfg, tier):
    th = tier == 'thorough'
    if cfg.set == 'cp':
        out = []
        for m in (c01, c02, c04, c06, c12):
            out += m.probes(cfg, tier)
        return [narrow(p) for p in out if spec(p) is not None and (th or quick(cfg.isa, spec(p)))
                and not (spec(p).N > 32 and re.search('any_of|none_of|find_last', p.body))]   # too many paths
    out = []
    for k in CORE:
        for s in abis(cfg.isa, TY[k], tier):
            if th or quick(cfg.isa, s):
                out += literal(s, th)
    return out
