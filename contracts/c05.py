"""C05: loads and stores transfer exactly size() elements, in order, converting each element."""
from .common import *

ALLU = ['sc', 'uc', 's', 'us', 'i', 'ui', 'll', 'ull', 'f', 'd']
# memory types that are combined with each element type in the quick tier
SOME = {'sc': ['uc', 'i', 'd'], 'uc': ['s', 'f'], 's': ['sc', 'ui', 'f'], 'us': ['uc', 'ull'],
        'i': ['sc', 'us', 'll', 'd'], 'ui': ['us', 'f', 'i'], 'll': ['s', 'i', 'f'], 'ull': ['uc', 'ui', 'd'],
        'f': ['us', 'i', 'd'], 'd': ['sc', 'ui', 'f', 'll']}


def configs(tier):
    return [Config(i) for i in ALLISA]


def bit_ceil(n):
    return 1 << (n - 1).bit_length()


FLAGS = {'ea': ('stdx::element_aligned', lambda U, n: U.size),
         'va': ('stdx::vector_aligned', lambda U, n: bit_ceil(U.size * n)),
         'oa': ('stdx::overaligned<64>', lambda U, n: 64)}


def ldst(s, U, fl, forms):
    T = s.T
    N = s.N
    fx, al = FLAGS[fl]
    out = []
    same = U.key == T.key

    def load_ens(c):
        if same:
            return each_strict('r', c['m'], c.new['r'])
        return each_conv(U, T, 'r', c['m'], c.new['r'])

    def store_ens(c):
        if same:
            return each_strict('m', c['a'], c.new['m'])
        return each_conv(T, U, 'm', c['a'], c.new['m'])
    mem = lambda mode='in': A('m', U, N, mode, align=al(U, N))
    lreq = None if same else (lambda c: req_conv(U, T, c['m']))
    sreq = None if same else (lambda c: req_conv(T, U, c['a']))
    g = '%s %s %s' % (s.key, U.key, fl)
    if 'c' in forms:
        out.append(Probe('', [mem(), V('r', s, 'out')], '*r = %s(m, %s);' % (s.cxx, fx), load_ens, lreq,
                         group=g + ' load ctor'))
    if 'f' in forms:
        out.append(Probe('', [mem(), V('r', s, 'inout')], 'r->copy_from(m, %s);' % fx, load_ens, lreq,
                         group=g + ' copy_from'))
    if 't' in forms:
        out.append(Probe('', [V('a', s), mem('out')], 'a->copy_to(m, %s);' % fx, store_ens, sreq,
                         group=g + ' copy_to'))
    return out


def mask_ldst(s, fl):
    N = s.N
    fx, al = FLAGS[fl]
    out = []
    mem = lambda mode='in': A('m', BOOL, N, mode, align=al(BOOL, N))
    g = 'mask<%s> %s' % (s.key, fl)
    out.append(Probe('', [mem(), M('r', s, 'out')], '*r = %s(m, %s);' % (s.mcxx, fx),
                     lambda c: each_strict('r', c['m'], c.new['r']), group=g + ' load ctor'))
    out.append(Probe('', [mem(), M('r', s, 'inout')], 'r->copy_from(m, %s);' % fx,
                     lambda c: each_strict('r', c['m'], c.new['r']), group=g + ' copy_from'))
    out.append(Probe('', [M('a', s), mem('out')], 'a->copy_to(m, %s);' % fx,
                     lambda c: each_strict('m', c['a'], c.new['m']), group=g + ' copy_to'))
    return out


def probes(cfg, tier):
    out = []
    th = tier == 'thorough'
    for k in CORE:
        T = TY[k]
        for s in abis(cfg.isa, T, tier):
            for fl in FLAGS:
                out += ldst(s, T, fl, 'cft')
            for u in (ALLU if th else SOME[k]):
                if u != k:
                    out += ldst(s, TY[u], 'ea', 'ct' if not th else 'cft')
                    if th:
                        out += ldst(s, TY[u], 'va', 'cft')
    for k in (CORE if th else MASKTF):
        T = TY[k]
        for s in mask_abis(cfg.isa, T, tier):
            for fl in FLAGS:
                out += mask_ldst(s, fl)
    return out
