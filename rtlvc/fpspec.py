"""Bit-level definitions of floating-point functions (binary32 and binary64)."""
from . import term as t
from .term import const, ext, cat, bit, ite, eq, ult, band, bor, bnot, zext


def fmt(x):
    e, p = t.FPW[x.w]
    return e, p, (1 << (e - 1)) - 1


def sign(x):
    return bit(x, x.w - 1)


def mag(x):
    return ext(x, 0, x.w - 1)


def inf_mag(w):
    e, p = t.FPW[w]
    return const(((1 << e) - 1) << (p - 1), w - 1)


def isnan(x):
    return ult(inf_mag(x.w), mag(x))


def isinf(x):
    return eq(mag(x), inf_mag(x.w))


def isfinite(x):
    return ult(mag(x), inf_mag(x.w))


def iszero(x):
    return eq(mag(x), const(0, x.w - 1))


def issubnormal(x):
    e, p, b = fmt(x)
    return band(eq(t.f_exp(x), const(0, e)), bnot(eq(t.f_man(x), const(0, p - 1))))


def isnormal(x):
    e, p, b = fmt(x)
    return band(bnot(eq(t.f_exp(x), const(0, e))), bnot(eq(t.f_exp(x), const(-1, e))))


def fpclassify(x, w=32):
    """with glibc's values of FP_NAN .. FP_NORMAL"""
    return ite(isnan(x), const(0, w), ite(isinf(x), const(1, w), ite(iszero(x), const(2, w), ite(
        issubnormal(x), const(3, w), const(4, w)))))


def normalised(x):
    """(unbiased exponent as 32-bit integer, fraction bits) of a finite non-zero x"""
    e, p, b = fmt(x)
    m = t.f_man(x)
    E = t.add(zext(t.f_exp(x), 32), const(-b, 32))
    F = m
    sub = eq(t.f_exp(x), const(0, e))
    SE, SF = const(0, 32), const(0, p - 1)
    for j in range(p - 1):          # leading one at bit j
        f = cat([const(0, p - 1 - j), ext(m, 0, j)]) if j else const(0, p - 1)
        SE = ite(bit(m, j), const(1 - b - (p - 1) + j, 32), SE)
        SF = ite(bit(m, j), f, SF)
    return ite(sub, SE, E), ite(sub, SF, F)


def with_exp(x, frac, biased):
    e, p, b = fmt(x)
    return cat([frac, const(biased, e), sign(x)])


def frexp(x):
    """-> (fraction, exponent, exponent is specified)"""
    e, p, b = fmt(x)
    E, F = normalised(x)
    z = iszero(x)
    fin = isfinite(x)
    fr = ite(band(fin, bnot(z)), with_exp(x, F, b - 1), x)
    ex = ite(z, const(0, 32), t.add(E, const(1, 32)))
    return fr, ex, fin


def logb(x):
    w = x.w
    E, F = normalised(x)
    i = cat([inf_mag(w), t.FALSE])
    return ite(isnan(x), x, ite(isinf(x), i, ite(iszero(x), t.flip(i), t.fp('s2f', [E], w))))


def modf(x):
    """-> (fractional part, integral part); x - trunc(x) is exact"""
    w = x.w
    tr = t.fp('trunc', [x], w)
    d = t.fp('sub', [x, tr], w)
    fr = ite(isinf(x), const(0, w - 1), mag(d))
    return ite(isnan(x), x, cat([fr, sign(x)])), ite(isnan(x), x, tr)
