"""Shared helpers of the contract modules: type lists, ABI lists, configurations."""
from rtlvc import term as t
from rtlvc.dsl import *
from rtlvc.dsl import TY, ISAS, S, Probe, V, M, A, P, BOOL, INT, BITS
from rtlvc.driver import Config
from rtlvc.term import const, ext, cat, ite, bit, zext, sext

ALLISA = ['sse2', 'ssse3', 'sse42', 'avx', 'avx2', 'avx512f', 'skx']
INTS = ['sc', 'uc', 's', 'us', 'i', 'ui', 'll', 'ull']
CORE = INTS + ['f', 'd']
EXTRA = ['c', 'l', 'ul', 'wc', 'c16', 'c32']


def abis(isa, T, tier='quick', scalar=True, fixed=True, partial=True):
    """representative specialisations of simd<T, .> for an ISA"""
    out = []

    def add(kind, b):
        if kind == 'vb' and valid_vecbuiltin(isa, T, b):
            out.append(S(T, 'vb', b))
        elif kind == 'bm' and valid_btmsk(isa, T, b):
            out.append(S(T, 'bm', b))
    full = [16, 32, 64]
    for b in full:
        add('vb', b)
        add('bm', b)
    if partial:
        # partially filled registers
        for b in ((8, 12, 24) if tier == 'quick' else (2, 4, 6, 8, 12, 24, 28, 20)):
            add('vb', b)
        if isa.f:
            for b in ((24, 48, 12) if tier == 'quick' else (2, 4, 6, 8, 12, 24, 40, 48, 56)):
                add('bm', b)
    if scalar:
        out.append(S(T, 'sc'))
    if fixed:
        v = isa.vec(T) // T.size if T.bits <= 64 else 1
        ns = [3, min(32, 2 * v + 1)] if tier == 'quick' else [1, 2, 3, 5, 7, 8, min(32, 2 * v + 1), 31, 32]
        for n in sorted(set(ns)):
            out.append(S(T, 'fx', n))
    seen = set()
    r = []
    for s in out:
        if s.key not in seen:
            seen.add(s.key)
            r.append(s)
    return r


SIZE = Ty('z', 'std::size_t', 64, 'u')


def select(lanes, i):
    """lanes[i] for a symbolic index"""
    r = lanes[0]
    for k in range(1, len(lanes)):
        r = ite(t.eq(i, const(k, i.w)), lanes[k], r)
    return r


def update(lanes, i, v):
    return [ite(t.eq(i, const(k, i.w)), v, x) for k, x in enumerate(lanes)]


def mask_abis(isa, T, tier='quick'):
    return abis(isa, T, tier)


MASKT = ['sc', 's', 'i', 'll']     # one element type per element size
MASKTF = ['sc', 's', 'i', 'll', 'f', 'd']


def each_conv(Tf, Tt, label, xs, rs):
    assert len(xs) == len(rs)
    return [('%s[%d]' % (label, i), conv_rel(Tf, Tt, x, r)) for i, (x, r) in enumerate(zip(xs, rs))]


def given(k, val, x):
    """x under the case distinction k = val (k: one-bit term)"""
    if k.op == 'c':
        return x
    y, n = (t.TRUE, t.FALSE) if val else (t.FALSE, t.TRUE)
    return t.subst(x, {k.id: y, t.bnot(k).id: n}, {})
