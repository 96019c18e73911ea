"""C04: mask reductions depend on exactly the N elements of the mask."""
from .common import *


def configs(tier):
    return [Config(i) for i in ALLISA] + [Config('avx2', extra=['-mno-popcnt'], set='popcount')]


def sum32(bs):
    return t.lin(0, [(zext(b, 32), 1) for b in bs], 32)


def first(bs):
    r = const(0, 32)
    for i in reversed(range(len(bs))):
        r = ite(bs[i], const(i, 32), r)
    return r


def last(bs):
    r = const(0, 32)
    for i in range(len(bs)):
        r = ite(bs[i], const(i, 32), r)
    return r


def red(s, fn, spec, T, needany=False):
    return Probe('', [M('a', s), A('r', T, mode='out')], '*r = stdx::%s(*a);' % fn,
                 lambda c: [('r', t.eq(spec(c['a']), c.new['r'][0]))],
                 (lambda c: [t.bor(*c['a'])]) if needany else None,
                 group='mask<%s> %s' % (s.key, fn))


SPEC = {
    'all_of': (lambda b: t.band(*b), BOOL, False),
    'any_of': (lambda b: t.bor(*b), BOOL, False),
    'none_of': (lambda b: t.bnot(t.bor(*b)), BOOL, False),
    'some_of': (lambda b: t.band(t.bor(*b), t.bnot(t.band(*b))), BOOL, False),
    'popcount': (sum32, INT, False),
    'find_first_set': (first, INT, True),
    'find_last_set': (last, INT, True),
}


def derived(s, fn, op='<'):
    """reduction of a comparison result (the mask never reaches memory)"""
    T = s.T
    spec, RT, na = SPEC[fn]
    bits = lambda c: [sp_cmp(T, op, x, y) for x, y in zip(c['a'], c['b'])]
    return Probe('', [V('a', s), V('b', s), A('r', RT, mode='out')], '*r = stdx::%s(*a %s *b);' % (fn, op),
                 lambda c: [('r', t.eq(spec(bits(c)), c.new['r'][0]))],
                 (lambda c: [t.bor(*bits(c))]) if na else None, group='%s %s(a%sb)' % (s.key, fn, op))


def probes(cfg, tier):
    out = []
    for k in MASKTF if tier == 'quick' else CORE:
        T = TY[k]
        for s in mask_abis(cfg.isa, T, tier):
            for fn, (spec, RT, na) in SPEC.items():
                if cfg.set == 'popcount' and fn != 'popcount':
                    continue
                out.append(red(s, fn, spec, RT, na))
                out.append(derived(s, fn))
                if s.abi != 'sc':
                    out.append(derived(s, fn, '!='))
    for fn, (spec, RT, na) in SPEC.items():
        out.append(Probe('', [A('a', BOOL), A('r', RT, mode='out')], '*r = stdx::%s(*a);' % fn,
                         lambda c, spec=spec: [('r', t.eq(spec([c['a'][0]]), c.new['r'][0]))],
                         (lambda c: [c['a'][0]]) if na else None, group='bool %s' % fn))
    return out
