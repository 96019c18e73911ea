"""Concrete evaluation of terms (used for counterexample confirmation, model
validation, and the falsification stage)."""
import ctypes
import ctypes.util
import math
import shutil
import subprocess
import tempfile
import numpy as np
from . import term as t
from . import fpconc

_lm = None


def libm():
    global _lm
    if _lm is None:
        _lm = ctypes.CDLL(ctypes.util.find_library('m') or 'libm.so.6')
    return _lm


class NoValue(Exception):
    pass


SPECIAL = {'assoc_laguerre': 'uux', 'assoc_legendre': 'uux', 'hermite': 'ux', 'laguerre': 'ux', 'legendre': 'ux',
           'sph_bessel': 'ux', 'sph_legendre': 'uux', 'sph_neumann': 'ux'}
_sp = None


def special():
    """the special functions of libstdc++ as C functions"""
    global _sp
    if _sp is None:
        d = tempfile.mkdtemp(prefix='rtlvc-special')
        try:
            with open(d + '/s.cpp', 'w') as f:
                f.write('#include <cmath>\n')
                for n, sig in SPECIAL.items():
                    for T, wd in (('float', 32), ('double', 64)):
                        ps = ', '.join('%s a%d' % ('unsigned' if c == 'u' else T, i) for i, c in enumerate(sig))
                        f.write('extern "C" %s %s%d(%s) { try { return std::%s(%s); } catch (...) { return 0; } }\n' % (
                            T, n, wd, ps, n, ', '.join('a%d' % i for i in range(len(sig)))))
            subprocess.run(['g++', '-std=c++17', '-O1', '-shared', '-fPIC', '-o', d + '/s.so', d + '/s.cpp'],
                           check=True, capture_output=True)
            _sp = ctypes.CDLL(d + '/s.so')
        finally:
            shutil.rmtree(d, True)
    return _sp


def uf_eval(name, ks, ws, w):
    if name.startswith('std_'):
        base, aw = name[4:-2], int(name[-2:])
        f = getattr(special(), name[4:])
        cty = ctypes.c_float if aw == 32 else ctypes.c_double
        sig = SPECIAL[base]
        f.argtypes = [ctypes.c_uint if c == 'u' else cty for c in sig]
        f.restype = cty
        r = f(*[k if c == 'u' else float(fpconc.f(k, aw)) for k, c in zip(ks, sig)])
        return fpconc.b(np.float32(r) if aw == 32 else np.float64(r), aw)
    if name.startswith('libm_remquo'):
        aw = int(name[-2:])
        cty = ctypes.c_float if aw == 32 else ctypes.c_double
        f = libm().remquof if aw == 32 else libm().remquo
        q = ctypes.c_int(0)
        f.argtypes = [cty, cty, ctypes.POINTER(ctypes.c_int)]
        f.restype = cty
        r = f(*[float(fpconc.f(k, aw)) for k in ks], ctypes.byref(q))
        if '_quo' in name:
            return q.value & 0xffffffff
        return fpconc.b(np.float32(r) if aw == 32 else np.float64(r), aw)
    if name.startswith('libm_'):
        base = name[5:]
        aw = 32 if base.endswith('32') else 64 if base.endswith('64') else 0
        if not aw:
            raise NoValue(name)
        base = base[:-2]
        if ws[0] != aw:
            raise NoValue(name)
        cty = ctypes.c_float if aw == 32 else ctypes.c_double
        f = getattr(libm(), base + ('f' if aw == 32 else ''), None)
        if f is None:
            raise NoValue(name)
        args = []
        ats = []
        for k, ww in zip(ks, ws):
            if ww == aw and not (base in ('ldexp', 'scalbn', 'scalbln') and args):
                args.append(float(fpconc.f(k, aw)))
                ats.append(cty)
            else:
                args.append(t._tos(k, ww))
                ats.append(ctypes.c_int if ww == 32 else ctypes.c_long)
        isint = base in ('ilogb', 'lrint', 'lround', 'llrint', 'llround')
        f.argtypes = ats
        f.restype = (ctypes.c_int if base == 'ilogb' else ctypes.c_long) if isint else cty
        r = f(*args)
        if isint:
            return r & ((1 << w) - 1)
        return fpconc.b(np.float32(r) if aw == 32 else np.float64(r), aw)
    raise NoValue(name)


def ev(term, env, memo=None, default=None):
    """env: var name -> int"""
    memo = {} if memo is None else memo
    stack = [term]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [y for y in x.a if y.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        a = [memo[y.id] for y in x.a]
        try:
            if None in a:
                memo[x.id] = _partial(x, a)
            else:
                memo[x.id] = _op(x, a, env, default)
        except NoValue:
            memo[x.id] = None
    r = memo[term.id]
    if r is None:
        raise NoValue(term.op)
    return r


def _partial(x, a):
    """some argument has no value"""
    if x.op == 'ite' and a[0] is not None:
        return a[1] if a[0] else a[2]
    if x.op == 'and' and 0 in a:
        return 0
    if x.op == 'or' and (1 << x.w) - 1 in a:
        return (1 << x.w) - 1
    return None


def _op(x, a, env, default):
    op, w = x.op, x.w
    m = (1 << w) - 1
    if op == 'c':
        return x.k
    if op == 'v':
        if x.k in env:
            return env[x.k]
        if default is not None:
            return default(x) & m
        raise NoValue(x.k)
    if op == 'cat':
        r = 0
        p = 0
        for y, v in zip(x.a, a):
            r |= v << p
            p += y.w
        return r
    if op == 'ext':
        return (a[0] >> x.k) & m
    if op == 'sx':
        return m if a[0] else 0
    if op == 'not':
        return ~a[0] & m
    if op == 'and':
        r = m
        for v in a:
            r &= v
        return r
    if op == 'or':
        r = 0
        for v in a:
            r |= v
        return r
    if op == 'xor':
        r = 0
        for v in a:
            r ^= v
        return r
    if op == 'add':
        c, cf = x.k
        r = c
        for v, k in zip(a, cf):
            r += v * k
        return r & m
    if op == 'mul':
        r = 1
        for v in a:
            r = r * v & m
        return r
    if op == 'shl':
        return (a[0] << a[1]) & m if a[1] < w else 0
    if op == 'lshr':
        return a[0] >> a[1] if a[1] < w else 0
    if op == 'ashr':
        return (t._tos(a[0], w) >> min(a[1], w)) & m
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        if a[1] == 0:
            raise NoValue('div0')
        return t.divop(op, t.const(a[0], w), t.const(a[1], w)).k
    if op == 'eq':
        return int(a[0] == a[1])
    if op == 'ult':
        return int(a[0] < a[1])
    if op == 'slt':
        ww = x.a[0].w
        return int(t._tos(a[0], ww) < t._tos(a[1], ww))
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op in ('smin', 'smax'):
        p, q = t._tos(a[0], w), t._tos(a[1], w)
        return (min(p, q) if op == 'smin' else max(p, q)) & m
    if op == 'umin':
        return min(a)
    if op == 'umax':
        return max(a)
    if op == 'fp':
        r = fpconc.fold(x.k, a, x.a[0].w, w)
        if r is None:
            raise NoValue('fp ' + x.k)
        return r
    if op in ('fmin3', 'fmax3'):
        i, j = (0, 1) if op == 'fmin3' else (1, 0)
        if fpconc.fold('lt', [a[i], a[j]], w, 1):
            return a[0]
        if fpconc.fold('lt', [a[j], a[i]], w, 1):
            return a[1]
        return a[0] if a[2] else a[1]
    if op == 'uf':
        return uf_eval(x.k, a, [y.w for y in x.a], w)
    raise NoValue(op)
