"""C15: division and modulus do not trap and do not raise divide-by-zero for elements that do not
belong to the operands (padding; unselected elements of integer where-expressions)."""
from .common import *
from .c06 import masked_req

CHUNK = 150


def configs(tier):
    out = [Config(i) for i in ALLISA]
    out += [Config(i, mode='cp', set='cp') for i in (ALLISA if tier == 'thorough' else ('sse2', 'skx'))]
    if tier == 'thorough':
        out += [Config(i, opt='-O2') for i in ALLISA]
    return out


def nz(T, x):
    return t.ne(ext(x, 0, x.w - 1), const(0, x.w - 1)) if T.fp else t.ne(x, const(0, x.w))


def req(T, xs, ys, strict=False):
    if T.fp:
        return [nz(T, y) for y in ys]
    out = req_div(T, xs, ys)
    if strict and T.signed and T.bits < 32:
        # compile-time-constant divisors reach the generic vector division; the compiler never emits
        # a division instruction for a divisor it knows, so MIN / -1 of 8 and 16 bits cannot trap there
        out = out + [t.bnot(t.band(t.eq(x, const(1 << (T.bits - 1), T.bits)), t.eq(y, const(-1, T.bits))))
                     for x, y in zip(xs, ys)]
    return out


def mreq(T, op, ks, xs, ys, strict):
    out = masked_req(T, op, ks, xs, ys)
    if strict:
        out += [t.bor(t.bnot(k), g) for k, x, y in zip(ks, xs, ys) for g in req(T, [x], [y], True)]
    return out


def division(s, st):
    T, N = s.T, s.N
    out = []
    a, b, r, x = V('a', s), V('b', s), V('r', s, 'out'), A('x', T)
    ops = '/' if T.fp else '/%'

    def add(nm, ps, body, rq):
        p = Probe('', ps, body, lambda c: [], rq, group='%s %s' % (s.key, nm))
        p.fdiv = True
        out.append(p)
    for o in ops:
        add('a%sb' % o, [a, b, r], '*r = *a %s *b;' % o, lambda c: req(T, c['a'], c['b'], st))
        add('a%s=b' % o, [V('a', s, 'inout'), b], '*a %s= *b;' % o, lambda c: req(T, c['a'], c['b'], st))
        add('a%sx' % o, [a, x, r], '*r = *a %s *x;' % o, lambda c: req(T, c['a'], c['x'] * N, st))
        add('a%s=x' % o, [V('a', s, 'inout'), x], '*a %s= *x;' % o, lambda c: req(T, c['a'], c['x'] * N, st))
        add('x%sb' % o, [x, b, r], '*r = *x %s *b;' % o, lambda c: req(T, c['x'] * N, c['b'], st))
        # divisors known at compile time
        for v in (['3', '-1', '1'] if T.signed or T.fp else ['3', '1']):
            add('a%s%s' % (o, v), [a, r], '*r = *a %s %s(%s);' % (o, s.cxx, v), lambda c, v=v: [] if T.fp else req(
                T, c['a'], [const(int(v), T.bits)] * N, st))
        # operands whose padding is the result of another operation
        add('a%s(a-b)' % o, [a, b, r], '*r = *a %s (*a - *b);' % o,
            lambda c: req(T, c['a'], [sp_bin(T, '-', p, q) for p, q in zip(c['a'], c['b'])], st))
        if not T.fp:
            k = M('k', s)
            add('where %s=' % o, [k, V('a', s, 'inout'), b], 'where(*k, *a) %s= *b;' % o,
                lambda c, o=o: mreq(T, o, c['k'], c['a'], c['b'], st))
            add('where %s=x' % o, [k, V('a', s, 'inout'), x], 'where(*k, *a) %s= *x;' % o,
                lambda c, o=o: mreq(T, o, c['k'], c['a'], c['x'] * N, st))
            add('where b!=0 %s=' % o, [V('a', s, 'inout'), b], 'where(*b != 0, *a) %s= *b;' % o,
                lambda c, o=o: mreq(T, o, [nz(T, y) for y in c['b']], c['a'], c['b'], st))
    return out


def probes(cfg, tier):
    out = []
    for k in CORE:
        for s in abis(cfg.isa, TY[k], tier):
            out += division(s, cfg.mode == 'cp')
    return out
