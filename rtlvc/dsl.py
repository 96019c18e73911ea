"""Contract language: types, object layouts, probes and the contract context."""
from . import term as t
from .term import const, ext, cat, ite, bit


class Ty:
    def __init__(self, key, cxx, bits, kind):
        self.key = key
        self.cxx = cxx
        self.bits = bits          # value bits
        self.kind = kind          # 's' 'u' 'f'
        self.size = 16 if bits == 80 else bits // 8

    @property
    def fp(self):
        return self.kind == 'f'

    @property
    def int(self):
        return self.kind != 'f'

    @property
    def signed(self):
        return self.kind == 's'

    def __repr__(self):
        return self.key


_ty = [
    ('sc', 'signed char', 8, 's'), ('uc', 'unsigned char', 8, 'u'), ('c', 'char', 8, 's'),
    ('s', 'short', 16, 's'), ('us', 'unsigned short', 16, 'u'),
    ('i', 'int', 32, 's'), ('ui', 'unsigned int', 32, 'u'),
    ('l', 'long', 64, 's'), ('ul', 'unsigned long', 64, 'u'),
    ('ll', 'long long', 64, 's'), ('ull', 'unsigned long long', 64, 'u'),
    ('f', 'float', 32, 'f'), ('d', 'double', 64, 'f'), ('ld', 'long double', 80, 'f'),
    ('wc', 'wchar_t', 32, 's'), ('c16', 'char16_t', 16, 'u'), ('c32', 'char32_t', 32, 'u'),
]
TY = {k: Ty(k, c, b, s) for k, c, b, s in _ty}


class ISA:
    def __init__(self, key, flags, vec, cpu, bw=False, vl=False, f=False, arch='x86'):
        self.key = key
        self.flags = flags
        self.vec = vec            # function Ty -> vectorized sizeof
        self.cpu = cpu            # cpuinfo flags needed to run natively
        self.bw, self.vl, self.f = bw, vl, f
        self.arch = arch


def _v16(T):
    return 16 if T.bits <= 64 else T.size


def _vavx(T):
    return (32 if T.fp else 16) if T.bits <= 64 else T.size


def _v32(T):
    return 32 if T.bits <= 64 else T.size


def _vknl(T):
    return (64 if T.bits >= 32 else 32) if T.bits <= 64 else T.size


def _v64(T):
    return 64 if T.bits <= 64 else T.size


ISAS = {
    'sse2': ISA('sse2', ['-march=x86-64'], _v16, ['sse2']),
    'ssse3': ISA('ssse3', ['-march=core2'], _v16, ['ssse3']),
    'sse42': ISA('sse42', ['-march=nehalem'], _v16, ['sse4_2']),
    'avx': ISA('avx', ['-march=sandybridge'], _vavx, ['avx']),
    'avx2': ISA('avx2', ['-march=haswell'], _v32, ['avx2', 'fma', 'bmi2']),
    'avx512f': ISA('avx512f', ['-march=knl', '-mno-avx512er', '-mno-avx512pf', '-mno-prefetchwt1'],
                   _vknl, ['avx512f', 'avx512cd'], f=True),
    'skx': ISA('skx', ['-march=skylake-avx512'], _v64,
               ['avx512f', 'avx512bw', 'avx512vl', 'avx512dq'], bw=True, vl=True, f=True),
}


def valid_vecbuiltin(isa, T, nbytes):
    if T.bits > 64:
        return False
    v = isa.vec(T)
    return (nbytes // T.size > 1 and nbytes % T.size == 0 and nbytes <= v
            and (not isa.f or nbytes <= 32))


def valid_btmsk(isa, T, nbytes):
    if T.bits > 64 or not isa.f:
        return False
    if not (isa.bw or T.size >= 4):
        return False
    return (nbytes // T.size > 1 and nbytes % T.size == 0 and nbytes <= 64
            and (nbytes > 32 or isa.vl))


class S:
    """a simd specialisation"""

    def __init__(self, T, abi, arg=0):
        self.T = T
        self.abi = abi            # 'sc' 'vb' 'bm' 'fx'
        self.arg = arg
        self.key = T.key + '_' + abi + (str(arg) if arg else '')
        A = {'sc': 'stdx::simd_abi::scalar', 'vb': 'stdx::simd_abi::_VecBuiltin<%d>' % arg,
             'bm': 'stdx::simd_abi::_VecBltnBtmsk<%d>' % arg,
             'fx': 'stdx::simd_abi::fixed_size<%d>' % arg}[abi]
        self.abicxx = A
        self.cxx = 'stdx::simd<%s, %s>' % (T.cxx, A)
        self.mcxx = 'stdx::simd_mask<%s, %s>' % (T.cxx, A)
        self.N = {'sc': 1, 'vb': arg // T.size, 'bm': arg // T.size, 'fx': arg}[abi]
        self.lay = None

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    def rebind(self, T):
        """same lane count in a fixed_size of another type (helper)"""
        return S(T, 'fx', self.N)


LAYOUT_CXX = r'''
namespace vlay {
template <class V> constexpr int mk() {
  using A = typename V::abi_type;
  if (stdx::is_simd_v<V>) return 0;
  return 0;
}
template <class V> struct L {
  using M = typename V::mask_type;
  static constexpr int sV = sizeof(V), sM = sizeof(M), n = V::size(), aV = alignof(V), aM = alignof(M);
};
}
'''


class Probe:
    """One contract: a function (the probe) in terms of the public API, its
    precondition, postcondition and assigns clause (the writable parameters)."""

    def __init__(self, name, params, body, ensures, requires=None, key=None, group='',
                 strict=True, decl='', alias=None, contracts=None, nolimit=False):
        self.name = name
        self.params = params      # list of P
        self.body = body
        self.ensures = ensures
        self.requires = requires
        self.group = group
        self.decl = decl
        self.contracts = contracts or {}

    def code(self):
        ps = ', '.join(p.decl() for p in self.params)
        return '%sextern "C" void %s(%s) { %s }\n' % (self.decl, self.name, ps, self.body)


class P:
    """pointer parameter. kind: 'simd' 'mask' 'arr' 'bits'"""

    def __init__(self, name, kind, s=None, T=None, n=1, mode='in', cxx=None, bits=None,
                 pad='any', align=None, valid=None, below=None):
        self.below = below        # integer array elements: all values are less than this
        self.name = name
        self.valid = valid        # name of the mask (or bool) parameter that guards the elements
        self.kind = kind
        self.s = s
        self.T = T
        self.n = n
        self.mode = mode          # in / out / inout
        self._cxx = cxx
        self.bits = bits
        self.pad = pad
        self.align = align

    def cxx(self):
        if self._cxx:
            return self._cxx
        if self.kind == 'simd':
            return self.s.cxx
        if self.kind == 'mask':
            return self.s.mcxx
        return self.T.cxx

    def decl(self):
        c = '' if self.mode != 'in' else 'const '
        return '%s%s* %s' % (c, self.cxx(), self.name)


def V(name, s, mode='in'):
    return P(name, 'simd', s=s, mode=mode)


def M(name, s, mode='in'):
    return P(name, 'mask', s=s, mode=mode)


def A(name, T, n=1, mode='in', align=None, valid=None, below=None):
    return P(name, 'arr', T=T, n=n, mode=mode, align=align, valid=valid, below=below)


class _B(Ty):
    pass


def BITS(name, n, mode='in'):
    """a std::bitset<n> object"""
    return P(name, 'bits', n=n, mode=mode, cxx='std::bitset<%d>' % n)


BOOL = Ty('b', 'bool', 8, 'u')
INT = TY['i']


# ------------------------------------------------------------ object views
class View:
    """abstract view of an object stored in a memory region: size in bytes,
    element offsets and how a lane is read"""


def region_size(p, lay):
    if p.kind == 'simd':
        return lay[p.s.key][0]
    if p.kind == 'mask':
        return lay[p.s.key][1]
    if p.kind == 'bits':
        return (p.n + 63) // 64 * 8
    return p.T.size * p.n


def param_align(p, lay):
    if p.kind == 'simd':
        return lay[p.s.key][3]
    if p.kind == 'mask':
        return lay[p.s.key][4]
    if p.kind == 'bits':
        return 8
    return p.align or min(16, p.T.size)


def input_cells(p, lay, prefix=None):
    """initial contents of the parameter region:
    -> (list of (offset, term)), lanes (list of terms), requires (list))"""
    nm = prefix or p.name
    cells = []
    req = []
    if p.kind in ('simd', 'arr'):
        T = p.s.T if p.kind == 'simd' else p.T
        n = p.s.N if p.kind == 'simd' else p.n
        sz = region_size(p, lay)
        lanes = []
        for i in range(n):
            if T.key == 'b':
                v = t.var('%s.%d' % (nm, i), 1)
                cells.append((i, t.zext(v, 8)))
            elif p.below:
                nb = max(1, (p.below - 1).bit_length())
                v = t.zext(t.var('%s.%d' % (nm, i), nb), T.bits)
                if p.below < 1 << nb:
                    req.append(t.ult(v, const(p.below, T.bits)))
                cells.append((i * T.size, v))
            else:
                v = t.var('%s.%d' % (nm, i), T.bits)
                cells.append((i * T.size, v))
                if T.bits == 80:
                    cells.append((i * 16 + 10, t.var('%s.xpad%d' % (nm, i), 48)))
                    # valid x87 encodings only
                    e = ext(v, 64, 15)
                    req.append(t.eq(bit(v, 63), t.ne(e, const(0, 15))))
            lanes.append(v)
        o = n * T.size
        k = 0
        while o < sz:
            step = T.size if o + T.size <= sz and T.bits <= 64 else 1
            cells.append((o, t.var('%s.pad%d' % (nm, k), 8 * step)))
            o += step
            k += 1
        return cells, lanes, req
    if p.kind == 'bits':
        sz = region_size(p, lay)
        lanes = [t.var('%s.%d' % (nm, i), 1) for i in range(p.n)]
        return [(0, cat(lanes + ([const(0, sz * 8 - p.n)] if sz * 8 > p.n else [])))], lanes, req
    # masks
    s = p.s
    sz = region_size(p, lay)
    N = s.N
    lanes = [t.var('%s.%d' % (nm, i), 1) for i in range(N)]
    if s.abi == 'sc':
        assert sz == 1
        return [(0, t.zext(lanes[0], 8))], lanes, req
    if s.abi == 'vb':
        es = s.T.size
        for i in range(N):
            cells.append((i * es, t.sx(lanes[i], 8 * es)))
        o = N * es
        k = 0
        while o < sz:
            cells.append((o, t.var('%s.pad%d' % (nm, k), 8 * es)))
            o += es
            k += 1
        return cells, lanes, req
    bits = list(lanes)
    if sz * 8 > N:
        # padding bits: arbitrary for bitmask ABIs, zero for fixed_size (a bitset)
        bits.append(const(0, sz * 8 - N) if s.abi == 'fx' else t.var('%s.pad' % nm, sz * 8 - N))
    return [(0, cat(bits))], lanes, req


def view(p, lay, region):
    """read the abstract lanes of an object: -> (lanes, invariant goals)"""
    from .evalr import one, lanes as seglanes
    inv = []
    if p.kind in ('simd', 'arr'):
        T = p.s.T if p.kind == 'simd' else p.T
        n = p.s.N if p.kind == 'simd' else p.n
        out = []
        if T.key == 'b':
            for i in range(n):
                b = one(region.get(i, 1))
                inv.append(('bool[%d] is 0 or 1' % i, t.eq(ext(b, 1, 7), const(0, 7))))
                out.append(bit(b, 0))
            return out, inv
        for i in range(n):
            out.append(one(region.get(i * T.size, T.bits // 8)))
        return out, inv
    if p.kind == 'bits':
        sz = region_size(p, lay)
        x = one(region.get(0, sz))
        if sz * 8 > p.n:
            inv.append(('unused bits of the bitset are zero',
                        t.eq(ext(x, p.n, sz * 8 - p.n), const(0, sz * 8 - p.n))))
        return [bit(x, i) for i in range(p.n)], inv
    s = p.s
    N = s.N
    sz = region_size(p, lay)
    if s.abi == 'sc':
        b = one(region.get(0, 1))
        inv.append(('scalar mask is 0 or 1', t.eq(ext(b, 1, 7), const(0, 7))))
        return [bit(b, 0)], inv
    if s.abi == 'vb':
        es = s.T.size
        out = []
        for i in range(N):
            x = one(region.get(i * es, es))
            b = bit(x, x.w - 1)
            inv.append(('mask lane %d is all-zeros or all-ones' % i, t.eq(x, t.sx(b, x.w))))
            out.append(b)
        return out, inv
    x = one(region.get(0, sz))
    if x.w > N and s.abi == 'fx':
        inv.append(('padding bits of the mask are zero',
                    t.eq(ext(x, N, x.w - N), const(0, x.w - N))))
    return [bit(x, i) for i in range(N)], inv


class Ctx:
    """what `ensures`/`requires` see"""

    def __init__(self):
        self.old = {}
        self.new = {}

    def __getitem__(self, k):
        return self.old[k]


# ------------------------------------------------------------ spec helpers
def feq(e, a):
    """equal as floating-point bit patterns, all NaNs identified"""
    if e is a:
        return t.TRUE
    return t.bor(t.eq(e, a), t.band(isnan(e), isnan(a)))


def isnan(x):
    return t.fp('uno', [x, x], 1)


def veq(T, e, a):
    return feq(e, a) if T.fp else t.eq(e, a)


def each(T, label, exp, act):
    """lane-wise equality of two lists"""
    assert len(exp) == len(act), (label, len(exp), len(act))
    return [('%s[%d]' % (label, i), veq(T, e, a)) for i, (e, a) in enumerate(zip(exp, act))]


def each_strict(label, exp, act):
    assert len(exp) == len(act), (label, len(exp), len(act))
    return [('%s[%d]' % (label, i), t.eq(e, a)) for i, (e, a) in enumerate(zip(exp, act))]


# scalar operations on lane values (the "mathematical" spec functions)
def sp_bin(T, op, x, y):
    if T.fp:
        n = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op]
        return t.fp(n, [x, y], T.bits)
    if op == '+':
        return t.add(x, y)
    if op == '-':
        return t.sub(x, y)
    if op == '*':
        return t.mul(x, y)
    if op == '/':
        return t.divop('sdiv' if T.signed else 'udiv', x, y)
    if op == '%':
        return t.divop('srem' if T.signed else 'urem', x, y)
    if op == '&':
        return t.band(x, y)
    if op == '|':
        return t.bor(x, y)
    if op == '^':
        return t.bxor(x, y)
    if op in ('<<', '>>'):
        return sp_shift(T, op, x, y)
    raise ValueError(op)


def sp_shift(T, op, x, y):
    """shift with C++ promotion: narrow types shift as int"""
    w = max(32, T.bits)
    f = t.sext if T.signed else t.zext
    xp, yp = f(x, w), f(y, w)
    if op == '<<':
        r = t.shl(xp, yp)
    else:
        r = t.ashr(xp, yp) if T.signed else t.lshr(xp, yp)
    return ext(r, 0, T.bits)


def sp_cmp(T, op, x, y):
    if T.fp:
        if op == '==':
            return t.fp('eq', [x, y], 1)
        if op == '!=':
            return t.bnot(t.fp('eq', [x, y], 1))
        if op == '<':
            return t.fp('lt', [x, y], 1)
        if op == '<=':
            return t.fp('le', [x, y], 1)
        if op == '>':
            return t.fp('lt', [y, x], 1)
        if op == '>=':
            return t.fp('le', [y, x], 1)
    lt = t.slt if T.signed else t.ult
    if op == '==':
        return t.eq(x, y)
    if op == '!=':
        return t.ne(x, y)
    if op == '<':
        return lt(x, y)
    if op == '>':
        return lt(y, x)
    if op == '<=':
        return t.bnot(lt(y, x))
    if op == '>=':
        return t.bnot(lt(x, y))


def req_div(T, xs, ys):
    r = []
    if T.fp:
        return r
    for x, y in zip(xs, ys):
        r.append(t.ne(y, const(0, T.bits)))
        if T.signed and T.bits >= 32:
            r.append(t.bnot(t.band(t.eq(x, const(1 << (T.bits - 1), T.bits)),
                                   t.eq(y, const(-1, T.bits)))))
    return r


def req_shift(T, ys):
    w = max(32, T.bits)
    return [t.ult(y, const(w, T.bits)) for y in ys]


def fconst(v, w):
    """floating-point constant of width w (exact)"""
    import struct
    if w == 80:
        from . import fpconc
        raise ValueError
    b = struct.pack('<f' if w == 32 else '<d', v)
    return const(int.from_bytes(b, 'little'), w)


def sp_conv(Tf, Tt, x):
    """static_cast<Tt>(x) for a lane (fp -> int: under req_conv)"""
    from .evalr import fconv
    if Tf.fp and Tt.fp:
        return fconv('f2f', x, Tt.bits)
    if Tf.fp:
        if Tt.bits < 32 or (Tt.bits == 32 and Tt.signed):
            return ext(fconv('f2s', x, 32), 0, Tt.bits)
        if Tt.bits == 64 and not Tt.signed:
            return fconv('f2u', x, 64)
        return ext(fconv('f2s', x, 64), 0, Tt.bits)
    if Tt.fp:
        return fconv('s2f' if Tf.signed else 'u2f', x, Tt.bits)
    if Tt.bits <= Tf.bits:
        return ext(x, 0, Tt.bits)
    return t.sext(x, Tt.bits) if Tf.signed else t.zext(x, Tt.bits)


def req_conv(Tf, Tt, xs):
    """the conversion is defined for every lane (fp -> int: truncated value representable)"""
    if not (Tf.fp and Tt.int):
        return []
    w = Tf.bits
    prec = {32: 24, 64: 53}[w]
    hi = 1 << (Tt.bits - 1 if Tt.signed else Tt.bits)
    lo = -hi if Tt.signed else 0
    if Tt.signed and Tt.bits > prec:
        lo_ok = lambda x: t.fp('le', [fconst(float(lo), w), x], 1)
    else:
        lo_ok = lambda x: t.fp('lt', [fconst(float(lo - 1), w), x], 1)
    return [t.band(lo_ok(x), t.fp('lt', [x, fconst(float(hi), w)], 1)) for x in xs]


def conv_rel(Tf, Tt, x, r):
    """r is an admissible value of static_cast<Tt>(x)"""
    e = sp_conv(Tf, Tt, x)
    g = veq(Tt, e, r)
    if g is t.TRUE or not (Tf.int and Tf.bits == 64 and Tt.key == 'f'):
        return g
    # 64-bit integer to binary32: inexact results may be either neighbouring value
    # (the choice is implementation-defined [conv.fpint]); exact results are required
    if i2f_decomp(Tf, x, r):
        return t.TRUE
    up = t.eq(r, t.add(e, const(1, 32)))
    dn = t.eq(r, t.sub(e, const(1, 32)))
    f, k = ('f2s', 's2f') if Tf.signed else ('f2u', 'u2f')
    from .evalr import fconv
    back = fconv(f, e, 64)
    hi = t.fp('eq', [e, fconst(2.0 ** (63 if Tf.signed else 64), 32)], 1)
    exact = t.band(t.eq(back, x), t.bnot(hi))
    return t.bor(t.eq(e, r), t.band(t.bnot(exact), t.bor(up, dn)))


def i2f_decomp(Tf, x, r):
    """lemma L3 (DESIGN.md): these evaluations of a 64-bit integer in binary32 yield one of the
    two neighbouring values, and the exact one if x is representable"""
    if r.op == 'fp' and r.k == 'f2f' and r.a[0].w == 64:
        return r.a[0] is sp_conv(Tf, TY['d'], x)
    C = {0x4f800000: 32, 0x47800000: 16, 0x43800000: 8}

    def term(p):
        """value of a scaled exact-or-rounded integer conversion -> (kind, int term, scale)"""
        sc = 0
        if p.op == 'fp' and p.k == 'mul':
            for c, q in ((p.a[0], p.a[1]), (p.a[1], p.a[0])):
                if c.op == 'c' and c.k in C:
                    sc = C[c.k]
                    p = q
                    break
        if p.op == 'fp' and p.k in ('s2f', 'u2f'):
            return p.k, p.a[0], sc
        return None

    def flat(p):
        """(a + b) + c, left to right -> [a, b, c]; fma(c, a, b) counts as c*a + b"""
        if p.op == 'fp' and p.k == 'fma':
            return flat(p.a[2]) + [t.fp('mul', [p.a[0], p.a[1]], p.w)]
        if p.op == 'fp' and p.k == 'add':
            for u, v in ((p.a[0], p.a[1]), (p.a[1], p.a[0])):
                if term(v) is not None and not (u.op == 'fp' and u.k in ('mul', 's2f', 'u2f') and term(v)[2]):
                    return flat(u) + [v]
            return list(p.a)
        return [p]
    ts = [term(p) for p in flat(r)]
    if any(q is None for q in ts) or len(ts) not in (2, 3):
        return False
    ref = t.sext if Tf.signed else t.zext
    hi = ext(x, 32, 32)
    lo = ext(x, 0, 32)
    from .evalr import fconv

    def is_(q, kind, v, sc):
        if q is None:
            return False
        # compare through a normalised conversion of the same integer
        a = fconv(q[0], q[1], 32)
        b = fconv(kind, v, 32)
        return a is b and q[2] == sc
    hk = 's2f' if Tf.signed else 'u2f'
    if len(ts) == 3:
        # (hi*2^32 + mid*2^16) + lo in that order
        a, b, c = ts
        mid = ext(lo, 16, 16)
        l16 = ext(lo, 0, 16)
        hiok = [q for q in (a, b) if is_(q, hk, hi, 32)]
        midok = [q for q in (a, b) if is_(q, 'u2f', mid, 16) or is_(q, 'u2f', cat([const(0, 16), mid]), 0)]
        return bool(hiok and midok and is_(c, 'u2f', l16, 0))
    a, b = ts
    if not Tf.signed:
        return any(is_(p, 'u2f', hi, 32) and is_(q, 'u2f', lo, 0) for p, q in ((a, b), (b, a)))
    return False
