"""C06: where-expressions modify exactly the selected elements."""
from .common import *

IOPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
FOPS = ['+', '-', '*', '/']


def configs(tier):
    return [Config(i) for i in ALLISA]


def masked(T, label, ks, exp, old, act):
    """selected: exp (NaNs identified), unselected: unchanged bit for bit"""
    out = []
    for i, (k, e, o, r) in enumerate(zip(ks, exp, old, act)):
        out.append(('%s[%d] selected' % (label, i), t.bor(t.bnot(k), veq(T, e, given(k, True, r)))))
        out.append(('%s[%d] unselected' % (label, i), t.bor(k, t.eq(o, given(k, False, r)))))
    return out


def masked_req(T, op, ks, xs, ys):
    if T.fp:
        return []
    out = []
    for k, x, y in zip(ks, xs, ys):
        if op in '/%':
            rq = req_div(T, [x], [y])
        elif op in ('<<', '>>'):
            rq = req_shift(T, [y])
        else:
            rq = []
        if rq:
            out.append(t.bor(t.bnot(k), t.band(*rq)))
    return out


def where_probes(s, tier):
    T = s.T
    N = s.N
    out = []
    g = 'where %s ' % s.key
    k = M('k', s)
    th = tier == 'thorough'
    out.append(Probe('', [k, V('a', s, 'inout'), V('b', s)], 'where(*k, *a) = *b;',
                     lambda c: masked(T, 'a', c['k'], c['b'], c['a'], c.new['a']), group=g + '='))
    out.append(Probe('', [k, V('a', s, 'inout'), A('b', T)], 'where(*k, *a) = *b;',
                     lambda c: masked(T, 'a', c['k'], c['b'] * N, c['a'], c.new['a']), group=g + '= scalar'))
    one = fconst(1.0, T.bits) if T.fp else const(1, T.bits)
    for op in (FOPS if T.fp else IOPS):
        for sc in ((False, True) if th or op in '+*' else (False,)):
            def ens(c, op=op, sc=sc):
                b = c['b'] * N if sc else c['b']
                return masked(T, 'a', c['k'], [sp_bin(T, op, x, y) for x, y in zip(c['a'], b)], c['a'], c.new['a'])

            def req(c, op=op, sc=sc):
                return masked_req(T, op, c['k'], c['a'], c['b'] * N if sc else c['b'])
            out.append(Probe('', [k, V('a', s, 'inout'), A('b', T) if sc else V('b', s)],
                             'where(*k, *a) %s= *b;' % op, ens, req, group=g + op + '=' + (' scalar' if sc else '')))
    for body, op in (('++where(*k, *a);', '+'), ('--where(*k, *a);', '-')) + (
            (('where(*k, *a)++;', '+'), ('where(*k, *a)--;', '-')) if th else ()):
        out.append(Probe('', [k, V('a', s, 'inout')], body,
                         lambda c, op=op: masked(T, 'a', c['k'], [sp_bin(T, op, x, one) for x in c['a']],
                                                 c['a'], c.new['a']), group=g + body[:2] if body[0] in '+-' else g + 'post' + op))
    neg = (lambda x: t.cat([ext(x, 0, x.w - 1), t.bnot(bit(x, x.w - 1))])) if T.fp else t.neg
    out.append(Probe('', [k, V('a', s), V('r', s, 'out')], '*r = -where(*k, *a);',
                     lambda c: masked(T, 'r', c['k'], [neg(x) for x in c['a']], c['a'], c.new['r']), group=g + 'unary -'))
    # the same object as mask operand source and target; result of a comparison as mask
    out.append(Probe('', [V('a', s, 'inout'), V('b', s)], 'where(*a < *b, *a) = *b;',
                     lambda c: masked(T, 'a', [sp_cmp(T, '<', x, y) for x, y in zip(c['a'], c['b'])],
                                      c['b'], c['a'], c.new['a']), group=g + '(a<b) ='))
    out.append(Probe('', [V('a', s, 'inout'), V('b', s)], 'where(*a != *b, *a) += *b;',
                     lambda c: masked(T, 'a', [sp_cmp(T, '!=', x, y) for x, y in zip(c['a'], c['b'])],
                                      [sp_bin(T, '+', x, y) for x, y in zip(c['a'], c['b'])],
                                      c['a'], c.new['a']), group=g + '(a!=b) +='))
    return out


def mask_where(s):
    g = 'where mask<%s> ' % s.key
    return [Probe('', [M('k', s), M('a', s, 'inout'), M('b', s)], 'where(*k, *a) = *b;',
                  lambda c: each_strict('a', [ite(k, y, x) for k, x, y in zip(c['k'], c['a'], c['b'])], c.new['a']),
                  group=g + '='),
            Probe('', [M('k', s), M('a', s, 'inout'), A('b', BOOL)], 'where(*k, *a) = *b;',
                  lambda c: each_strict('a', [ite(k, c['b'][0], x) for k, x in zip(c['k'], c['a'])], c.new['a']),
                  group=g + '= bool')]


def scalar_where(T):
    out = []
    one = fconst(1.0, T.bits) if T.fp else const(1, T.bits)
    k = lambda: A('k', BOOL)
    for op in [''] + (FOPS if T.fp else IOPS):
        out.append(Probe('', [k(), A('a', T, 1, 'inout'), A('b', T)], 'stdx::where(*k, *a) %s= *b;' % op,
                         lambda c, op=op: masked(T, 'a', c['k'], [sp_bin(T, op, c['a'][0], c['b'][0]) if op else c['b'][0]],
                                                 c['a'], c.new['a']),
                         lambda c, op=op: masked_req(T, op, c['k'], c['a'], c['b']) if op else [],
                         group='where(bool, %s) %s=' % (T.key, op)))
    for body, op in (('++stdx::where(*k, *a);', '+'), ('--stdx::where(*k, *a);', '-'), ('stdx::where(*k, *a)++;', '+'), ('stdx::where(*k, *a)--;', '-')):
        out.append(Probe('', [k(), A('a', T, 1, 'inout')], body,
                         lambda c, op=op: masked(T, 'a', c['k'], [sp_bin(T, op, c['a'][0], one)], c['a'], c.new['a']),
                         group='where(bool, %s) %s' % (T.key, body)))
    return out


def probes(cfg, tier):
    out = []
    for k in CORE:
        T = TY[k]
        for s in abis(cfg.isa, T, tier):
            out += where_probes(s, tier)
    for k in MASKTF:
        for s in mask_abis(cfg.isa, TY[k], tier):
            out += mask_where(s)
    if cfg.isa.key == 'avx2' or tier == 'thorough':
        for k in CORE:
            out += scalar_where(TY[k])
    return out
