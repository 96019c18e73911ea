"""Discharging obligations: normal form, then z3 (bit vectors + uninterpreted
floating point), then z3 with the IEEE-754 theory."""
import hashlib
import os
import z3
import time
from . import fplemma, term as t

STATS = {'rewrite': 0, 'z3-bv': 0, 'z3-fp': 0, 'dedup': 0, 'solver_s': 0.0}


class Conv:
    def __init__(self, real_fp):
        self.real = real_fp
        self.memo = {}
        self.side = []
        self.approx = False

    def __call__(self, x):
        stack = [x]
        memo = self.memo
        while stack:
            y = stack[-1]
            if y.id in memo:
                stack.pop()
                continue
            todo = [z for z in y.a if z.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            memo[y.id] = self.op(y, [memo[z.id] for z in y.a])
        return memo[x.id]

    def b1(self, cond):
        return z3.If(cond, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def op(self, x, a):
        op, w = x.op, x.w
        if op == 'c':
            return z3.BitVecVal(x.k, w)
        if op == 'v':
            return z3.BitVec(x.k, w)
        if op == 'cat':
            return z3.Concat(*reversed(a))
        if op == 'ext':
            return z3.Extract(x.k + w - 1, x.k, a[0])
        if op == 'sx':
            return z3.If(a[0] == 1, z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
        if op == 'not':
            return ~a[0]
        if op in ('and', 'or', 'xor'):
            r = a[0]
            for y in a[1:]:
                r = (r & y) if op == 'and' else (r | y) if op == 'or' else (r ^ y)
            return r
        if op == 'add':
            c, cf = x.k
            r = z3.BitVecVal(c, w)
            for y, k in zip(a, cf):
                if k == 1:
                    r = r + y
                elif k == t.mask(w):
                    r = r - y
                else:
                    r = r + y * z3.BitVecVal(k, w)
            return r
        if op == 'mul':
            r = a[0]
            for y in a[1:]:
                r = r * y
            return r
        if op == 'shl':
            return a[0] << a[1]
        if op == 'lshr':
            return z3.LShR(a[0], a[1])
        if op == 'ashr':
            return a[0] >> a[1]
        if op == 'udiv':
            return z3.UDiv(a[0], a[1])
        if op == 'urem':
            return z3.URem(a[0], a[1])
        if op == 'sdiv':
            return a[0] / a[1]
        if op == 'srem':
            return z3.SRem(a[0], a[1])
        if op == 'eq':
            return self.b1(a[0] == a[1])
        if op == 'ult':
            return self.b1(z3.ULT(a[0], a[1]))
        if op == 'slt':
            return self.b1(a[0] < a[1])
        if op == 'ite':
            return z3.If(a[0] == 1, a[1], a[2])
        if op == 'smin':
            return z3.If(a[0] < a[1], a[0], a[1])
        if op == 'smax':
            return z3.If(a[0] < a[1], a[1], a[0])
        if op == 'umin':
            return z3.If(z3.ULT(a[0], a[1]), a[0], a[1])
        if op == 'umax':
            return z3.If(z3.ULT(a[0], a[1]), a[1], a[0])
        if op in ('fmin3', 'fmax3'):
            i, j = (0, 1) if op == 'fmin3' else (1, 0)
            return z3.If(self.flt(a[i], a[j], False), a[0],
                         z3.If(self.flt(a[j], a[i], False), a[1], z3.If(a[2] == 1, a[0], a[1])))
        if op == 'uf':
            self.approx = True
            f = z3.Function('uf_%s_%s' % (x.k, w), *([y.sort() for y in a] + [z3.BitVecSort(w)]))
            return f(*a)
        if op == 'fp':
            return self.fp(x, a)
        raise ValueError(op)

    def isnan(self, v):
        w = v.size()
        e, p = t.FPW[w]
        return z3.UGT(v & z3.BitVecVal((1 << (w - 1)) - 1, w),
                      z3.BitVecVal(((1 << e) - 1) << (p - 1), w))

    def flt(self, x, y, le):
        w = x.size()
        sx = z3.Extract(w - 1, w - 1, x) == 1
        sy = z3.Extract(w - 1, w - 1, y) == 1
        mx = z3.Extract(w - 2, 0, x)
        my = z3.Extract(w - 2, 0, y)
        both0 = z3.And(mx == 0, my == 0)
        if le:
            c = z3.Or(both0, z3.And(sx, z3.Not(sy)), z3.And(z3.Not(sx), z3.Not(sy), z3.ULE(mx, my)),
                      z3.And(sx, sy, z3.ULE(my, mx)))
        else:
            c = z3.And(z3.Not(both0),
                       z3.Or(z3.And(sx, z3.Not(sy)), z3.And(z3.Not(sx), z3.Not(sy), z3.ULT(mx, my)),
                             z3.And(sx, sy, z3.ULT(my, mx))))
        return z3.And(z3.Not(self.isnan(x)), z3.Not(self.isnan(y)), c)

    def fp(self, x, a):
        n, w = x.k, x.w
        aw = x.a[0].w
        if aw in (32, 64):
            if n == 'lt':
                return self.b1(self.flt(a[0], a[1], False))
            if n == 'le':
                return self.b1(self.flt(a[0], a[1], True))
            if n == 'eq':
                z = z3.And((a[0] << 1) == 0, (a[1] << 1) == 0)
                return self.b1(z3.And(z3.Not(self.isnan(a[0])), z3.Not(self.isnan(a[1])),
                                      z3.Or(a[0] == a[1], z)))
            if n == 'uno':
                return self.b1(z3.Or(self.isnan(a[0]), self.isnan(a[1])))
        if n == 'mul' and aw in (32, 64):
            r = self.mul_special(a, x.id)
            if r is not None:
                return r
        if self.real and aw != 80 and w != 80:
            return self.real_fp(x, a)
        self.approx = True
        if n in ('add', 'mul') and len(a) == 2 and z3.is_bv_value(a[1]):
            a = [a[1], a[0]]
        f = z3.Function('fp_%s_%s_%s' % (n, aw, w), *([y.sort() for y in a] + [z3.BitVecSort(w)]))
        return f(*a)

    def mul_special(self, a, uid):
        """exact products with 0, infinity and large powers of two"""
        x, c = a
        if z3.is_bv_value(x):
            x, c = c, x
        if not z3.is_bv_value(c) or z3.is_bv_value(x):
            return None
        w = x.size()
        e, p = t.FPW[w]
        k = c.as_long()
        bias = (1 << (e - 1)) - 1
        ce = (k >> (p - 1)) & ((1 << e) - 1)
        cm = k & ((1 << (p - 1)) - 1)
        V = lambda v, n: z3.BitVecVal(v, n)
        sg = z3.Extract(w - 1, w - 1, x) ^ V(k >> (w - 1), 1)
        mg = z3.Extract(w - 2, 0, x)
        inf = V(((1 << e) - 1) << (p - 1), w - 1)
        # sign and payload of a NaN are arbitrary, but quiet
        qn = z3.BitVec('nan!%d' % uid, w) | V((((1 << e) - 1) << (p - 1)) | (1 << (p - 2)), w)
        nan = z3.UGT(mg, inf)
        if cm:
            return None
        if ce == 0:
            return z3.If(z3.UGE(mg, inf), qn, z3.Concat(sg, V(0, w - 1)))
        if ce == (1 << e) - 1:
            return z3.If(z3.Or(nan, mg == 0), qn, z3.Concat(sg, inf))
        s = ce - bias
        if s < p:
            return None
        xe = z3.Extract(w - 2, p - 1, x)
        xm = z3.Extract(p - 2, 0, x)
        ne = z3.ZeroExt(2, xe) + V(s, e + 2)
        nrm = z3.If(z3.UGE(ne, V((1 << e) - 1, e + 2)), inf, z3.Concat(z3.Extract(e - 1, 0, ne), xm))
        sub = V(0, w - 1)
        for j in range(p - 1):
            f = V(0, p - 1) if j == 0 else z3.Concat(z3.Extract(j - 1, 0, xm), V(0, p - 1 - j))
            sub = z3.If(z3.Extract(j, j, xm) == 1, z3.Concat(V(s + j + 1 - (p - 1), e), f), sub)
        return z3.If(nan, qn, z3.Concat(sg, z3.If(mg == inf, inf, z3.If(xe == 0, sub, nrm))))

    def S(self, w):
        return z3.Float32() if w == 32 else z3.Float64()

    def real_fp(self, x, a):
        n, w = x.k, x.w
        aw = x.a[0].w
        rm = z3.RNE()

        def F(v):
            return z3.fpBVToFP(v, self.S(v.size()))

        def back(fv):
            # sign and payload of a NaN are arbitrary, but quiet
            bv = z3.fpToIEEEBV(fv)
            nan = z3.BitVec('nan!%d' % x.id, w) | z3.BitVecVal(0x7fc00000 if w == 32 else 0x7ff8000000000000, w)
            return z3.If(z3.fpIsNaN(fv), nan, bv)
        if n == 'add':
            return back(z3.fpAdd(rm, F(a[0]), F(a[1])))
        if n == 'sub':
            return back(z3.fpSub(rm, F(a[0]), F(a[1])))
        if n == 'mul':
            return back(z3.fpMul(rm, F(a[0]), F(a[1])))
        if n == 'div':
            return back(z3.fpDiv(rm, F(a[0]), F(a[1])))
        if n == 'sqrt':
            return back(z3.fpSqrt(rm, F(a[0])))
        if n == 'fma':
            return back(z3.fpFMA(rm, F(a[0]), F(a[1]), F(a[2])))
        if n == 'f2f':
            return back(z3.fpFPToFP(rm, F(a[0]), self.S(w)))
        if n == 's2f':
            return back(z3.fpSignedToFP(rm, a[0], self.S(w)))
        if n == 'u2f':
            return back(z3.fpUnsignedToFP(rm, a[0], self.S(w)))
        if n == 'f2s':
            # out of range: the x86 integer indefinite value
            f = F(a[0])
            lo = z3.fpSignedToFP(z3.RNE(), z3.BitVecVal(1 << (w - 1), w), f.sort())
            hi = z3.fpNeg(lo)
            ok = z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpLT(f, hi),
                        z3.fpGEQ(f, lo) if f.sort().sbits() <= w else z3.fpGT(
                            f, z3.fpSub(z3.RNE(), lo, z3.FPVal(1.0, f.sort()))))
            return z3.If(ok, z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(w)), z3.BitVecVal(1 << (w - 1), w))
        if n == 'f2u':
            f = F(a[0])
            hi = z3.fpUnsignedToFP(z3.RNE(), z3.BitVecVal(1 << (w - 1), w), f.sort())
            hi = z3.fpAdd(z3.RNE(), hi, hi)
            ok = z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpLT(f, hi), z3.fpGT(f, z3.FPVal(-1.0, f.sort())))
            return z3.If(ok, z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(w)), z3.BitVecVal(-1, w))
        rms = {'nearbyint': z3.RNE(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(),
               'round': z3.RNA()}
        if n in rms:
            return back(z3.fpRoundToIntegral(rms[n], F(a[0])))
        self.approx = True
        f = z3.Function('fp_%s_%s_%s' % (n, aw, w), *([y.sort() for y in a] + [z3.BitVecSort(w)]))
        return f(*a)


def has_fp_arith(ts):
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'fp' and (x.k not in ('lt', 'le', 'eq', 'uno') or x.a[0].w == 80):
            return True
        st.extend(x.a)
    return False


_asm = {}


def assumption_map(hy):
    key = tuple(h.id for h in hy)
    r = _asm.get(key)
    if r is None:
        m = {}
        st = list(hy)
        flat = []
        seen = set()
        while st:
            h = st.pop()
            if h.id in seen:
                continue
            seen.add(h.id)
            if h.op == 'and':
                st.extend(h.a)
                continue
            flat.append(h)
        contra = False
        for h in flat:
            if m.get(h.id) is t.FALSE:
                contra = True
            m[h.id] = t.TRUE
            m[t.bnot(h).id] = t.FALSE
            if h.op == 'eq':
                a, b = h.a
                if a.op == 'c':
                    a, b = b, a
                if b.op == 'c' and a.op == 'v':
                    m[a.id] = b
        r = (m, {}, flat, contra)
        if len(_asm) > 200:
            _asm.clear()
        _asm[key] = r
    return r


def check(hyps, goal, timeout_ms=10000, fp_timeout_ms=20000):
    """-> (verdict, backend, env): verdict in 'valid','invalid','unknown'.
    'invalid' with backend 'z3-uf' means: falsified only with uninterpreted fp."""
    if goal is t.TRUE:
        return 'valid', 'rewrite', None
    hy = [h for h in hyps if h is not t.TRUE]
    if any(h is t.FALSE for h in hy):
        return 'valid', 'rewrite', None
    if goal.op == 'or' and goal.w == 1:
        # (l | g)  <=  not l |- g   for mask elements and comparisons l
        lits = [l for l in goal.a if is_lit(l)]
        if lits and len(lits) < len(goal.a):
            m = {}
            for l in lits:
                m[l.id] = t.FALSE
                m[t.bnot(l).id] = t.TRUE
            memo = {}
            goal = t.bor(*[t.subst(g, m, memo) for g in goal.a if not is_lit(g)])
            if goal is t.TRUE:
                return 'valid', 'rewrite', None
            hy = [h for h in [t.subst(h, m, memo) for h in hy] if h is not t.TRUE]
            if any(h is t.FALSE for h in hy):
                return 'valid', 'rewrite', None
            hy += [t.bnot(l) for l in lits]
    if hy:
        m, memo, flat, contra = assumption_map(hy)
        if contra:
            return 'valid', 'rewrite', None
        goal = t.subst(goal, m, memo)
        if goal is t.TRUE:
            return 'valid', 'rewrite', None
        hy = flat
        # cone of influence
        vs = set(t.fv(goal))
        rest = [(h, t.fv(h)) for h in hy]
        rel = []
        ch = True
        while ch:
            ch = False
            nr = []
            for h, f in rest:
                if f & vs or not f:
                    rel.append(h)
                    if not f <= vs:
                        vs |= f
                        ch = True
                else:
                    nr.append((h, f))
            rest = nr
        hy2 = [h for h in hy if h in rel] if len(rel) != len(hy) else hy
    else:
        hy2 = hy
    goal = split_or(goal)
    if goal is t.TRUE:
        return 'valid', 'rewrite', None
    key = canon(hy2 + [goal])
    r = _cache.get(key)
    if r is not None:
        STATS['dedup'] += 1
        return r
    t0 = time.time()
    lock = None
    if SHARED and has_fp_arith(hy2 + [goal]):
        lock, r = shared_get(key, (timeout_ms + fp_timeout_ms) / 1000)
        if r is not None:
            _cache[key] = r
            STATS['dedup'] += 1
            return r
    res = _check(hy2, goal, timeout_ms, fp_timeout_ms)
    if lock:
        shared_put(key, res)
    if res[0] == 'invalid' and len(hy2) != len(hy):
        # complete the counterexample with values for the unrelated variables
        cv = Conv(False)
        s = z3.Solver()
        s.set('timeout', 5000)
        rel = {h.id for h in hy2}
        oth = [h for h in hy if h.id not in rel]
        for h in oth:
            s.add(cv(h) == 1)
        rr = s.check()
        if rr == z3.unsat:
            res = ('valid', res[1], None)
        elif rr == z3.sat and res[2] is not None:
            e2 = model_env(s.model(), oth)
            e2.update(res[2])
            res = (res[0], res[1], e2)
    STATS['solver_s'] += time.time() - t0
    if res[0] in ('valid', 'unknown'):
        _cache[key] = (res[0], res[1], None)
    return res


_cache = {}
SHARED = None       # directory in which the worker processes of one run share verdicts


def shared_get(key, patience):
    """-> (we compute it, verdict or None)"""
    p = os.path.join(SHARED, key.hex())
    try:
        os.close(os.open(p + '.l', os.O_CREAT | os.O_EXCL | os.O_WRONLY))
        return True, None
    except FileExistsError:
        pass
    except OSError:
        return False, None
    t0 = time.time()
    while time.time() - t0 < patience:
        try:
            with open(p) as f:
                v = f.read().split(' ')
            if v[0] == 'valid':
                return False, ('valid', v[1], None)
            return False, None
        except OSError:
            time.sleep(0.05)
    return False, None


def shared_put(key, res):
    p = os.path.join(SHARED, key.hex())
    try:
        with open(p + '.t%d' % os.getpid(), 'w') as f:
            f.write('%s %s' % (res[0], res[1]))
        os.rename(p + '.t%d' % os.getpid(), p)
    except OSError:
        pass


def is_lit(l):
    if l.op == 'not':
        l = l.a[0]
    return (l.op == 'v' or l.op in ('ult', 'slt') or l.op == 'ext' and l.a[0].op == 'v' or
            l.op == 'eq' and (l.a[0].op == 'c' or l.a[1].op == 'c') or
            l.op == 'fp' and l.k in ('lt', 'le', 'eq', 'uno'))


def split_or(goal):
    """l | g  ->  l | g[l := false]"""
    for _ in range(3):
        if goal.op != 'or' or goal.w != 1:
            return goal
        ls = list(goal.a)
        ch = False
        for i in range(len(ls)):
            l = ls[i]
            if l.op == 'c' or (l.op == 'eq' and l.a[0].op != 'c' and l.a[1].op != 'c'):
                continue
            m = {l.id: t.FALSE, t.bnot(l).id: t.TRUE}
            if l.op == 'not' and l.a[0].op == 'and':
                for z in l.a[0].a:
                    m[z.id] = t.TRUE
                    m[t.bnot(z).id] = t.FALSE
            elif l.op == 'and' and len(l.a) == 2 and False:
                pass
            memo = {}
            for j in range(len(ls)):
                if j != i and ls[j].op != 'c':
                    n = t.subst(ls[j], m, memo)
                    if n is not ls[j]:
                        ls[j] = n
                        ch = True
        if not ch:
            return goal
        goal = t.bor(*ls)
    return goal


def canon(ts):
    """alpha-canonical serialisation of a list of terms"""
    num = {}
    out = []
    names = {}

    def visit(root):
        stack = [(root, 0)]
        while stack:
            x, st = stack.pop()
            if st == 0:
                if x.id in num:
                    continue
                stack.append((x, 1))
                for y in reversed(x.a):
                    if y.id not in num:
                        stack.append((y, 0))
            else:
                if x.id in num:
                    continue
                k = x.k
                if x.op == 'v':
                    if k not in names:
                        names[k] = len(names)
                    k = names[k]
                num[x.id] = len(num)
                out.append((x.op, tuple(num[y.id] for y in x.a), x.w, k))
    for x in ts:
        visit(x)
        out.append(num[x.id])
    return hashlib.blake2b(repr(out).encode(), digest_size=20).digest()


class _NoPoly(Exception):
    pass


def _padd(a, b, k, m):
    for mon, c in b.items():
        v = (a.get(mon, 0) + c * k) & m
        if v:
            a[mon] = v
        else:
            a.pop(mon, None)


def _pmul(a, b, m):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            mon = tuple(sorted(x + y))
            v = (r.get(mon, 0) + c * d) & m
            if v:
                r[mon] = v
            else:
                r.pop(mon, None)
            if len(r) > 4000:
                raise _NoPoly
    return r


def poly(x, w, memo, half):
    """polynomial over half-width atoms, congruent to x modulo 2^w (x.w >= w)"""
    key = (x.id, w)
    r = memo.get(key)
    if r is not None:
        return r
    m = t.mask(w)
    op = x.op
    if op == 'c':
        r = {(): x.k & m} if x.k & m else {}
    elif op == 'add':
        c, cf = x.k
        r = {(): c & m} if c & m else {}
        for y, k in zip(x.a, cf):
            _padd(r, poly(y, w, memo, half), k, m)
    elif op == 'mul':
        r = {(): 1}
        for y in x.a:
            r = _pmul(r, poly(y, w, memo, half), m)
    elif op == 'not':
        r = {(): m}
        _padd(r, poly(x.a[0], w, memo, half), -1, m)
    elif op == 'sx':
        r = {(x.a[0].id,): m}
    elif op == 'ext' and x.k == 0 and w <= x.w and x.a[0].op in ('add', 'mul'):
        r = poly(x.a[0], w, memo, half)
    else:
        # pieces: exact below the top, modular at the top
        parts = list(t.pieces(x))
        if len(parts) == 1 and x.w > half:
            parts = [t.ext(x, p, min(half, x.w - p)) for p in range(0, x.w, half)]
        r = {}
        p = 0
        for y in parts:
            if p >= w:
                break
            rem = w - p
            if y.op == 'c':
                q = {(): y.k} if y.k else {}
            elif y.op == 'sx' and p + y.w >= w:
                q = {(y.a[0].id,): m}
            elif y.op == 'sx':
                q = {(y.a[0].id,): t.mask(y.w)}
            elif y is not x and p + y.w >= w and (y.op in ('add', 'mul', 'not', 'cat')
                                                          or y.op == 'ext' and y.a[0].op in ('add', 'mul')):
                q = poly(y, rem, memo, half)
            else:
                q = {}
                o = 0
                while o < y.w:
                    n = min(half, y.w - o)
                    z = t.ext(y, o, n)
                    if z.op == 'c':
                        _padd(q, {(): z.k}, 1 << o, t.mask(w + 8))
                    else:
                        _padd(q, {(z.id,): 1}, 1 << o, t.mask(w + 8))
                    o += n
            _padd(r, q, 1 << p, m)
            p += y.w
    memo[key] = r
    return r


def poly_equal(goal):
    """decide an equality by polynomial normal forms"""
    if goal.op != 'eq':
        return False
    x, y = goal.a
    w = x.w
    if w not in (8, 16, 32, 64):
        return False
    seen = set()
    st = [x, y]
    has = False
    while st and not has:
        z = st.pop()
        if z.id in seen:
            continue
        seen.add(z.id)
        if z.op == 'mul' or z.op == 'cat' and any(q.op == 'add' for q in z.a):
            has = True
        st.extend(z.a)
        if len(seen) > 3000:
            return False
    if not has:
        return False
    try:
        memo = {}
        half = max(8, w // 2)
        a = poly(x, w, memo, half)
        b = poly(y, w, memo, half)
    except _NoPoly:
        return False
    return a == b


def _check(hy, goal, tmo, fptmo):
    if poly_equal(goal) or goal.op == 'or' and any(poly_equal(g) for g in goal.a):
        return 'valid', 'poly', None
    if tmo < 20:
        return 'unknown', 'time budget', None
    cv = Conv(False)
    s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
    s.set('timeout', tmo)
    for h in hy:
        s.add(cv(h) == 1)
    s.add(cv(goal) == 0)
    r = s.check()
    if r == z3.unsat:
        return 'valid', 'z3-bv', None
    env = None
    if r == z3.sat:
        env = model_env(s.model(), hy + [goal])
        if not cv.approx:
            return 'invalid', 'z3-bv', env
    if fptmo >= 20 and has_fp_arith(hy + [goal]):
        z = fplemma.rewrite(hy + [goal])
        hy, goal = z[:-1], z[-1]
        if goal is t.TRUE:
            return 'valid', 'rewrite', None
        cv = Conv(True)
        s = z3.Solver()
        s.set('timeout', fptmo)
        for h in hy:
            s.add(cv(h) == 1)
        s.add(cv(goal) == 0)
        r2 = s.check()
        if r2 == z3.unsat:
            return 'valid', 'z3-fp', None
        if r2 == z3.sat:
            env2 = model_env(s.model(), hy + [goal])
            return ('invalid', 'z3-uf' if cv.approx else 'z3-fp', env2)
        return 'unknown', 'z3-fp', env
    if r == z3.sat:
        return 'invalid', 'z3-uf', env
    return 'unknown', 'z3-bv', env


def model_env(m, ts):
    env = {}
    for v in t.free_vars(ts):
        x = m.eval(z3.BitVec(v.k, v.w), model_completion=True)
        try:
            env[v.k] = x.as_long()
        except Exception:
            env[v.k] = 0
    return env


def satisfiable(hyps, tmo=5000):
    hy = [h for h in hyps if h is not t.TRUE]
    if not hy:
        return True
    cv = Conv(False)
    s = z3.Solver()
    s.set('timeout', tmo)
    for h in hy:
        s.add(cv(h) == 1)
    return s.check() != z3.unsat
