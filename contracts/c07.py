"""C07: masked loads and stores touch only selected elements."""
from .common import *
from .c05 import FLAGS, SOME, ALLU


def configs(tier):
    return [Config(i) for i in ALLISA]


def sel_req(ks, Tf, Tt, xs):
    out = []
    for k, x in zip(ks, xs):
        rq = req_conv(Tf, Tt, [x])
        if rq:
            out.append(t.bor(t.bnot(k), t.band(*rq)))
    return out


def sel_conv(label, ks, Tf, Tt, xs, old, new):
    """selected: the converted element; unselected: unchanged"""
    out = []
    for i, (k, x, o, r) in enumerate(zip(ks, xs, old, new)):
        r1 = given(k, True, r)
        g = t.eq(x, r1) if Tf.key == Tt.key else conv_rel(Tf, Tt, x, r1)
        out.append(('%s[%d] selected' % (label, i), t.bor(t.bnot(k), g)))
        out.append(('%s[%d] unselected' % (label, i), t.bor(k, t.eq(o, given(k, False, r)))))
    return out


def masked(s, U, fl, forms):
    T = s.T
    N = s.N
    fx, al = FLAGS[fl]
    out = []
    mem = lambda mode='in': A('m', U, N, mode, align=al(U, N), valid='k')
    lreq = lambda c: sel_req(c['k'], U, T, c['m'])
    sreq = lambda c: sel_req(c['k'], T, U, c['a'])
    g = 'where %s %s %s' % (s.key, U.key, fl)
    if 'f' in forms:
        out.append(Probe('', [M('k', s), mem(), V('a', s, 'inout')], 'where(*k, *a).copy_from(m, %s);' % fx,
                         lambda c: sel_conv('a', c['k'], U, T, c['m'], c['a'], c.new['a']), lreq,
                         group=g + ' copy_from'))
    if 'c' in forms:
        out.append(Probe('', [M('k', s), mem(), V('a', s), V('r', s, 'out')],
                         '*r = where(*k, *a).copy_from(m, %s);' % fx,
                         lambda c: sel_conv('r', c['k'], U, T, c['m'], c['a'], c.new['r']), lreq,
                         group=g + ' const copy_from'))
    if 't' in forms:
        out.append(Probe('', [M('k', s), V('a', s), mem('inout')], 'where(*k, *a).copy_to(m, %s);' % fx,
                         lambda c: sel_conv('m', c['k'], T, U, c['a'], c['m'], c.new['m']), sreq,
                         group=g + ' copy_to'))
    return out


def mask_masked(s, fl):
    N = s.N
    fx, al = FLAGS[fl]
    g = 'where mask<%s> %s' % (s.key, fl)
    mem = lambda mode='in': A('m', BOOL, N, mode, align=al(BOOL, N), valid='k')

    def ens(label, xs, o):
        return lambda c: [('%s[%d]' % (label, i), t.eq(r, ite(k, x, y))) for i, (k, x, y, r) in enumerate(
            zip(c['k'], c[xs], c[o], c.new[label]))]
    return [Probe('', [M('k', s), mem(), M('a', s, 'inout')], 'where(*k, *a).copy_from(m, %s);' % fx,
                  ens('a', 'm', 'a'), group=g + ' copy_from'),
            Probe('', [M('k', s), M('a', s), mem('inout')], 'where(*k, *a).copy_to(m, %s);' % fx,
                  ens('m', 'a', 'm'), group=g + ' copy_to')]


def scalar_masked(T, U):
    g = 'where(bool, %s) %s' % (T.key, U.key)
    mem = lambda mode='in': A('m', U, 1, mode, valid='k')
    return [Probe('', [A('k', BOOL), mem(), A('a', T, 1, 'inout')], 'stdx::where(*k, *a).copy_from(m, stdx::element_aligned);',
                  lambda c: sel_conv('a', c['k'], U, T, c['m'], c['a'], c.new['a']),
                  lambda c: sel_req(c['k'], U, T, c['m']), group=g + ' copy_from'),
            Probe('', [A('k', BOOL), A('a', T), mem('inout')], 'stdx::where(*k, *a).copy_to(m, stdx::element_aligned);',
                  lambda c: sel_conv('m', c['k'], T, U, c['a'], c['m'], c.new['m']),
                  lambda c: sel_req(c['k'], T, U, c['a']), group=g + ' copy_to')]


def probes(cfg, tier):
    out = []
    th = tier == 'thorough'
    for k in CORE:
        T = TY[k]
        for s in abis(cfg.isa, T, tier):
            out += masked(s, T, 'ea', 'fct')
            out += masked(s, T, 'va', 'fct' if th else 'ft')
            for u in (ALLU if th else SOME[k]):
                if u != k:
                    out += masked(s, TY[u], 'ea', 'ft')
                    if th:
                        out += masked(s, TY[u], 'va', 'ft')
        if cfg.isa.key == 'avx2' or th:
            for u in [k] + SOME[k]:
                out += scalar_masked(T, TY[u])
    for k in (CORE if th else MASKTF):
        for s in mask_abis(cfg.isa, TY[k], tier):
            out += mask_masked(s, 'ea')
    return out
