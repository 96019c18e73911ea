"""Concrete floating-point semantics (binary32/binary64, round to nearest even)."""
import numpy as np
import math
import struct
from fractions import Fraction

np.seterr(all='ignore')
_F = {32: np.float32, 64: np.float64}
_U = {32: np.uint32, 64: np.uint64}
QNAN = {32: 0x7fc00000, 64: 0x7ff8000000000000}


def f(bits, w):
    return _U[w](bits).view(_F[w])


def b(x, w):
    return int(np.asarray(x, dtype=_F[w]).view(_U[w])[()])


def isnan(k, w):
    if w == 32:
        return (k & 0x7fffffff) > 0x7f800000
    if w == 64:
        return (k & (2**63 - 1)) > 0x7ff0000000000000
    if w == 80:
        return ((k >> 64) & 0x7fff) == 0x7fff and (k & (2**63 - 1)) != 0
    raise ValueError(w)


def isinf(k, w):
    return not isnan(k, w) and (k & ((1 << (w - 1)) - 1)) == ((1 << {32: 8, 64: 11}[w]) - 1) << {32: 23, 64: 52}[w]


def frac_to_bits(fr, w, neg=False):
    """Correctly rounded (RNE) conversion of a Fraction to the format."""
    eb, p = {32: (8, 24), 64: (11, 53), 80: (15, 64)}[w]
    sign = 1 if (fr < 0 or (fr == 0 and neg)) else 0
    fr = abs(fr)
    if fr == 0:
        return sign << (w - 1)
    bias = (1 << (eb - 1)) - 1
    # exponent e with 2^e <= fr < 2^(e+1)
    e = fr.numerator.bit_length() - fr.denominator.bit_length()
    if Fraction(2) ** e > fr:
        e -= 1
    if Fraction(2) ** (e + 1) <= fr:
        e += 1
    e = max(e, 1 - bias)
    q = fr / (Fraction(2) ** (e - (p - 1)))
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n >= 1 << p:
        n >>= 1
        e += 1
    if e > bias:
        res = ((1 << eb) - 1) << (p - 1)
        if w == 80:
            res = (0x7fff << 64) | (1 << 63)
    elif n < 1 << (p - 1):
        res = n
    else:
        if w == 80:
            res = ((e + bias) << 64) | n
        else:
            res = ((e + bias) << (p - 1)) | (n & ((1 << (p - 1)) - 1))
    return res | (sign << (w - 1))


def to_frac(k, w):
    eb, p = {32: (8, 24), 64: (11, 53)}[w]
    s = k >> (w - 1)
    e = (k >> (p - 1)) & ((1 << eb) - 1)
    m = k & ((1 << (p - 1)) - 1)
    bias = (1 << (eb - 1)) - 1
    if e == 0:
        v = Fraction(m) * Fraction(2) ** (1 - bias - (p - 1))
    else:
        v = Fraction(m | (1 << (p - 1))) * Fraction(2) ** (e - bias - (p - 1))
    return -v if s else v


def finite(k, w):
    return not isnan(k, w) and not isinf(k, w)


def _round(x, name, w):
    if name == 'floor':
        return np.floor(x)
    if name == 'ceil':
        return np.ceil(x)
    if name == 'trunc':
        return np.trunc(x)
    if name == 'nearbyint':
        return np.rint(x)
    if name == 'round':   # half away from zero
        a = np.abs(x)
        fl = np.floor(a)
        r = np.where(a - fl >= 0.5, fl + 1, fl)
        return np.copysign(r, x)


def fold(name, ks, w, rw):
    """args' width w, result width rw -> int or None."""
    if name in ('s2f', 'u2f'):
        if rw not in _F:
            return None
        v = ks[0]
        if name == 's2f' and v >> (w - 1):
            v -= 1 << w
        return frac_to_bits(Fraction(v), rw)
    if w not in _F:
        return None
    if name == 'lt':
        return int(bool(f(ks[0], w) < f(ks[1], w)))
    if name == 'le':
        return int(bool(f(ks[0], w) <= f(ks[1], w)))
    if name == 'eq':
        return int(bool(f(ks[0], w) == f(ks[1], w)))
    if name == 'uno':
        return int(isnan(ks[0], w) or isnan(ks[1], w))
    if name in ('f2s', 'f2u'):
        if not finite(ks[0], w):
            return None
        v = int(to_frac(ks[0], w))
        if name == 'f2s':
            if not -(1 << (rw - 1)) <= v < 1 << (rw - 1):
                return None
        elif not 0 <= v < 1 << rw:
            return None
        return v & ((1 << rw) - 1)
    if name == 'f2f':
        if rw not in _F:
            return None
        if isnan(ks[0], w):
            return QNAN[rw]
        return b(_F[rw](f(ks[0], w)), rw)
    if name in ('floor', 'ceil', 'trunc', 'nearbyint', 'round'):
        r = _round(f(ks[0], w), name, w)
    elif name == 'add':
        r = f(ks[0], w) + f(ks[1], w)
    elif name == 'sub':
        r = f(ks[0], w) - f(ks[1], w)
    elif name == 'mul':
        r = f(ks[0], w) * f(ks[1], w)
    elif name == 'div':
        r = f(ks[0], w) / f(ks[1], w)
    elif name == 'sqrt':
        r = np.sqrt(f(ks[0], w))
    elif name == 'fma':
        if not all(finite(k, w) for k in ks):
            x, y, z = (float(f(k, w)) for k in ks)
            if any(isnan(k, w) for k in ks):
                return QNAN[w]
            if isinf(ks[0], w) or isinf(ks[1], w):
                r = _F[w](f(ks[0], w) * f(ks[1], w)) + f(ks[2], w)
            else:
                r = f(ks[2], w)
        else:
            v = to_frac(ks[0], w) * to_frac(ks[1], w) + to_frac(ks[2], w)
            if v == 0:
                ps = (ks[0] >> (w - 1)) ^ (ks[1] >> (w - 1))
                zs = ks[2] >> (w - 1)
                pz = to_frac(ks[0], w) * to_frac(ks[1], w) == 0
                zz = to_frac(ks[2], w) == 0
                ng = bool(ps and zs) if (pz and zz) else False
                return frac_to_bits(v, w, ng)
            return frac_to_bits(v, w)
    else:
        return None
    r = b(r, w)
    if isnan(r, w):
        return QNAN[w]
    return r
