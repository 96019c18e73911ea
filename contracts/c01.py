"""C01: element-wise arithmetic, bitwise, shift, unary, increment and compound operators."""
from .common import *


def configs(tier):
    return [Config(i) for i in ALLISA]


def ones(T):
    return {'f': const(0x3f800000, 32), 'd': const(0x3ff0000000000000, 64)}[T.key] if T.fp else const(1, T.bits)


def binary(s, op, form):
    T = s.T
    fe = lambda c: [sp_bin(T, op, x, y) for x, y in zip(c['a'], c['b'])]

    def req(c):
        if op in '/%':
            return req_div(T, c['a'], c['b'])
        if op in ('<<', '>>'):
            return req_shift(T, c['b'])
        return []
    if form == 'op':
        return Probe('', [V('a', s), V('b', s), V('r', s, 'out')], '*r = *a %s *b;' % op,
                     lambda c: each(T, 'r', fe(c), c.new['r']), req, group='%s a%sb' % (s.key, op))
    if form == 'cmp':
        return Probe('', [V('a', s, 'inout'), V('b', s), V('r', s, 'out')], '*r = (*a %s= *b);' % op,
                     lambda c: each(T, 'a', fe(c), c.new['a']) + each(T, 'r', fe(c), c.new['r']),
                     req, group='%s a%s=b' % (s.key, op))
    if form == 'sv':   # scalar on the right (broadcast)
        f2 = lambda c: [sp_bin(T, op, x, c['b'][0]) for x in c['a']]

        def req2(c):
            if op in '/%':
                return req_div(T, c['a'], c['b'] * s.N)
            if op in ('<<', '>>'):
                return req_shift(T, c['b'])
            return []
        return Probe('', [V('a', s), A('b', T), V('r', s, 'out')], '*r = *a %s *b;' % op,
                     lambda c: each(T, 'r', f2(c), c.new['r']), req2, group='%s a%sscalar' % (s.key, op))
    if form == 'vs':
        f2 = lambda c: [sp_bin(T, op, c['a'][0], x) for x in c['b']]

        def req3(c):
            if op in '/%':
                return req_div(T, c['a'] * s.N, c['b'])
            return []
        return Probe('', [A('a', T), V('b', s), V('r', s, 'out')], '*r = *a %s *b;' % op,
                     lambda c: each(T, 'r', f2(c), c.new['r']), req3, group='%s scalar%sb' % (s.key, op))


def shift_int(s, op, compound):
    """shift by an int"""
    T = s.T

    def sp(c):
        n = c['n'][0]
        w = max(32, T.bits)
        f = t.sext if T.signed else t.zext
        out = []
        for x in c['a']:
            xp = f(x, w)
            nn = t.zext(n, w) if w > 32 else n
            r = t.shl(xp, nn) if op == '<<' else (t.ashr(xp, nn) if T.signed else t.lshr(xp, nn))
            out.append(ext(r, 0, T.bits))
        return out

    def req(c):
        return [t.ult(c['n'][0], const(max(32, T.bits), 32))]
    if compound:
        return Probe('', [V('a', s, 'inout'), A('n', INT)], '*a %s= *n;' % op,
                     lambda c: each(T, 'a', sp(c), c.new['a']), req, group='%s a%s=int' % (s.key, op))
    return Probe('', [V('a', s), A('n', INT), V('r', s, 'out')], '*r = *a %s *n;' % op,
                 lambda c: each(T, 'r', sp(c), c.new['r']), req, group='%s a%sint' % (s.key, op))


def shift_const(s, op, n):
    T = s.T

    def sp(c):
        w = max(32, T.bits)
        f = t.sext if T.signed else t.zext
        r = [t.shl(f(x, w), const(n, w)) if op == '<<' else
             (t.ashr if T.signed else t.lshr)(f(x, w), const(n, w)) for x in c['a']]
        return [ext(x, 0, T.bits) for x in r]
    return Probe('', [V('a', s), V('r', s, 'out')], '*r = *a %s %d;' % (op, n),
                 lambda c: each(T, 'r', sp(c), c.new['r']), group='%s a%s%d' % (s.key, op, n))


def unary(s, op):
    T = s.T
    neg = t.flip if T.fp else t.neg
    if op == '-':
        f = neg
    elif op == '+':
        f = lambda x: x
    elif op == '~':
        f = t.bnot
    if op in '-+~':
        return Probe('', [V('a', s), V('r', s, 'out')], '*r = %s*a;' % op,
                     lambda c: each(T, 'r', [f(x) for x in c['a']], c.new['r']), group='%s %sa' % (s.key, op))
    if op == '!':
        z = const(0, T.bits)
        return Probe('', [V('a', s), M('r', s, 'out')], '*r = !*a;',
                     lambda c: each_strict('r', [t.fp('eq', [x, z], 1) if T.fp else t.eq(x, z) for x in c['a']],
                                           c.new['r']), group='%s !a' % s.key)
    d = '+' if op[1:] == '++' or op == '++a' else '-'
    step = lambda c: [sp_bin(T, '+' if '+' in op else '-', x, ones(T)) for x in c['a']]
    pre = op.endswith('a')
    return Probe('', [V('a', s, 'inout'), V('r', s, 'out')], '*r = %s;' % op.replace('a', '(*a)'),
                 lambda c: each(T, 'a', step(c), c.new['a']) +
                 each(T, 'r', step(c) if pre else c['a'], c.new['r']), group='%s %s' % (s.key, op))


def probes(cfg, tier):
    isa = cfg.isa
    out = []
    for k in CORE + (EXTRA if tier == 'thorough' else []):
        T = TY[k]
        for s in abis(isa, T, tier):
            ops = ['+', '-', '*', '/'] + ([] if T.fp else ['%', '&', '|', '^', '<<', '>>'])
            for op in ops:
                out.append(binary(s, op, 'op'))
                out.append(binary(s, op, 'cmp'))
            full = s.abi != 'vb' or s.arg in (16, 32)
            if full or tier == 'thorough':
                for op in ('+', '/') if tier == 'quick' else ops:
                    out.append(binary(s, op, 'sv'))
                    if op not in ('<<', '>>'):
                        out.append(binary(s, op, 'vs'))
            if not T.fp:
                for op in ('<<', '>>'):
                    out.append(shift_int(s, op, False))
                    out.append(shift_int(s, op, True))
                    for n in ((1, T.bits - 1) if tier == 'quick' else (0, 1, 2, 7, T.bits // 2, T.bits - 1)):
                        out.append(shift_const(s, op, n))
                out.append(unary(s, '~'))
            for op in ('-', '+', '!', '++a', 'a++', '--a', 'a--'):
                out.append(unary(s, op))
    return out
