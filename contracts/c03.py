"""C03: simd_mask values: logical operators, construction, element access, bitset conversion."""
from .common import *

BIN = [('&&', t.band), ('||', t.bor), ('&', t.band), ('|', t.bor), ('^', t.bxor),
       ('==', lambda x, y: t.eq(x, y)), ('!=', lambda x, y: t.ne(x, y))]


def configs(tier):
    return [Config(i) for i in ALLISA]


def G(s, what):
    return 'mask<%s> %s' % (s.key, what)


def mask_probes(s, tier):
    out = []
    N = s.N

    def m(name, mode='in'):
        return M(name, s, mode)
    for op, f in BIN:
        out.append(Probe('', [m('a'), m('b'), m('r', 'out')], '*r = *a %s *b;' % op,
                         lambda c, f=f: each_strict('r', [f(x, y) for x, y in zip(c['a'], c['b'])], c.new['r']),
                         group=G(s, 'a%sb' % op)))
    for op, f in (('&', t.band), ('|', t.bor), ('^', t.bxor)):
        out.append(Probe('', [m('a', 'inout'), m('b'), m('r', 'out')], '*r = (*a %s= *b);' % op,
                         lambda c, f=f: each_strict('a', [f(x, y) for x, y in zip(c['a'], c['b'])], c.new['a']) +
                         each_strict('r', [f(x, y) for x, y in zip(c['a'], c['b'])], c.new['r']),
                         group=G(s, 'a%s=b' % op)))
    out.append(Probe('', [m('a'), m('r', 'out')], '*r = !*a;',
                     lambda c: each_strict('r', [t.bnot(x) for x in c['a']], c.new['r']), group=G(s, '!a')))
    out.append(Probe('', [m('a'), m('r', 'out')], '*r = *a;',
                     lambda c: each_strict('r', c['a'], c.new['r']), group=G(s, 'copy')))
    out.append(Probe('', [A('b', BOOL), m('r', 'out')], '*r = %s(*b);' % s.mcxx,
                     lambda c: each_strict('r', c['b'] * N, c.new['r']), group=G(s, 'broadcast')))
    for v in ('true', 'false'):
        out.append(Probe('', [m('r', 'out')], '*r = %s(%s);' % (s.mcxx, v),
                         lambda c, v=v: each_strict('r', [const(1 if v == 'true' else 0, 1)] * N, c.new['r']),
                         group=G(s, 'broadcast ' + v)))
    # element access, symbolic index
    idx = lambda c: [t.ult(c['i'][0], const(N, 64))] if N < 2 ** 63 else []
    out.append(Probe('', [m('a'), A('i', SIZE), A('r', BOOL, mode='out')], '*r = (*a)[*i];',
                     lambda c: [('r', t.eq(select(c['a'], c['i'][0]), c.new['r'][0]))], idx,
                     group=G(s, 'a[i] (const)')))
    out.append(Probe('', [m('a', 'inout'), A('i', SIZE), A('r', BOOL, mode='out')], '*r = (*a)[*i];',
                     lambda c: [('r', t.eq(select(c['a'], c['i'][0]), c.new['r'][0]))] +
                     each_strict('a', c['a'], c.new['a']), idx,
                     group=G(s, 'a[i]')))
    out.append(Probe('', [m('a', 'inout'), A('i', SIZE), A('b', BOOL)], '(*a)[*i] = *b;',
                     lambda c: each_strict('a', update(c['a'], c['i'][0], c['b'][0]), c.new['a']), idx,
                     group=G(s, 'a[i] = b')))
    for k in sorted({0, N // 2, N - 1} if tier == 'quick' else set(range(N))):
        out.append(Probe('', [m('a'), A('r', BOOL, mode='out')], '*r = (*a)[%d];' % k,
                         lambda c, k=k: [('r', t.eq(c['a'][k], c.new['r'][0]))], group=G(s, 'a[%d]' % k)))
        out.append(Probe('', [m('a', 'inout'), A('b', BOOL)], '(*a)[%d] = *b;' % k,
                         lambda c, k=k: each_strict('a', [c['b'][0] if j == k else x for j, x in enumerate(c['a'])],
                                                    c.new['a']), group=G(s, 'a[%d] = b' % k)))
    # bitset interface
    out.append(Probe('', [m('a'), BITS('r', N, 'out')], '*r = a->__to_bitset();',
                     lambda c: each_strict('r', c['a'], c.new['r']), group=G(s, 'to bitset')))
    out.append(Probe('', [BITS('b', N), m('r', 'out')], '*r = %s::__from_bitset(*b);' % s.mcxx,
                     lambda c: each_strict('r', c['b'], c.new['r']), group=G(s, 'from bitset')))
    return out


def probes(cfg, tier):
    out = []
    for k in MASKTF if tier == 'quick' else CORE:
        T = TY[k]
        for s in mask_abis(cfg.isa, T, tier):
            out += mask_probes(s, tier)
    return out
