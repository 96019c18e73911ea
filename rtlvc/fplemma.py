"""Rewriting with lemmas about rounding to integral values, used before the floating-point solver.

With |x| the argument without its sign, C = 2^(p-1) and k the width of an integer:
  L1  X >= 0:           (X + C) - C          = nearbyint(X)             if X < C
  L2  S = copysign(C,x): (x + S) - S         = nearbyint(x), -0 as +0   if |x| < C
  L3  s2f(f2s_k(x))                          = trunc(x), -0 as +0       if |x| < 2^(k-1), else -2^(k-1)
  L4  X >= 0, n = nearbyint(X): n - (X < n ? 1 : 0) = trunc(X)
  L7  p, q of the same sign: p + q has that sign and |p + q| = |p| + |q|, |p - q| = ||p| - |q||
  L8  X >= 0: X - trunc(X) is not negative
  L6  |x| < C ? trunc(x) : x                 = trunc(x), same for nearbyint (a NaN stays a NaN)
  L5  trunc, nearbyint, round, floor and ceil of x in terms of trunc(|x|), nearbyint(|x|)
tools/lemmas.py has z3 prove every one of them for binary32 and binary64."""
from . import term as t
from .term import const, ext, cat, bit, ite, eq, bnot, FALSE

W = (32, 64)


def C(w):
    """2^(p-1)"""
    e, p = t.FPW[w]
    return const(((1 << (e - 1)) - 1 + p - 1) << (p - 1), w)


def one(w):
    e, p = t.FPW[w]
    return const(((1 << (e - 1)) - 1) << (p - 1), w)


def pow2(k, w):
    e, p = t.FPW[w]
    return const(((1 << (e - 1)) - 1 + k) << (p - 1), w)


def mag(x):
    return ext(x, 0, x.w - 1)


def absv(x):
    return cat([mag(x), FALSE])


def lt(a, b):
    return t.fp('lt', [a, b], 1)


def pluszero(x):
    """-0 as +0"""
    return ite(eq(mag(x), const(0, x.w - 1)), const(0, x.w), x)


def step(c, w):
    """c ? 1 : 0"""
    return t.band(one(w), t.sx(c, w))


def signed(m, x):
    """the value m >= 0 with the sign of x"""
    return cat([mag(m), bit(x, x.w - 1)])


def base(k, X):
    """trunc or nearbyint of X >= 0, which keep the sign"""
    return cat([mag(t.fp(k, [X], X.w)), FALSE])


def trunc(x):
    return signed(base('trunc', absv(x)), x)


def nearbyint(x):
    return signed(base('nearbyint', absv(x)), x)


def arg(n, k):
    """X for n = base(k, X)"""
    if n.op == 'cat' and n.a[0].op == 'ext' and n.a[0].a[0].op == 'fp' and n.a[0].a[0].k == k:
        X = n.a[0].a[0].a[0]
        if n is base(k, X):
            return X
    return None


def up(X):
    """ceil of X >= 0"""
    T = base('trunc', X)
    return t.fp('add', [T, step(lt(T, X), X.w)], X.w)


def rnd(X):
    """round of X >= 0"""
    w = X.w
    T = base('trunc', X)
    half = const(one(w).k - (1 << (t.FPW[w][1] - 1)), w)
    return t.fp('add', [T, step(t.fp('le', [half, absv(t.fp('sub', [X, T], w))], 1), w)], w)


def floor(x):
    X = absv(x)
    return ite(bit(x, x.w - 1), signed(up(X), x), signed(base('trunc', X), x))


def ceil(x):
    X = absv(x)
    return ite(bit(x, x.w - 1), signed(base('trunc', X), x), signed(up(X), x))


def round_(x):
    return signed(rnd(absv(x)), x)


DEFS = {'trunc': trunc, 'nearbyint': nearbyint, 'floor': floor, 'ceil': ceil, 'round': round_}


def nonneg(x):
    return bit(x, x.w - 1) is FALSE


def outside(x, w):
    return t.uf('outside%d' % w, [x], w)


def addends(x):
    """(p, q) with x = p + q for fp additions"""
    if x.op == 'fp' and x.k == 'add':
        return ((x.a[0], x.a[1]), (x.a[1], x.a[0]))
    return ()


def integral_else_same(y):
    """L6"""
    c, p, q = y.a
    if c.op == 'eq' and (c.a[0] is p and c.a[1] is q and p.op == 'c' or c.a[1] is p and c.a[0] is q and p.op == 'c'):
        return q
    if c.op == 'fp' and c.k == 'lt' and c.a[0].w in W and c.a[1] is C(c.a[0].w) and nonneg(c.a[0]):
        X = c.a[0]
        for k in ('trunc', 'nearbyint'):
            b = base(k, X)
            if q is mag(X) and p is mag(b) or q.w == X.w and absv(q) is X and p is signed(b, q):
                return p
    return y


def apply(y):
    """the lemmas at the root of y"""
    if y.op == 'ite':
        return integral_else_same(y)
    if y.op == 'ext' and y.k == 0 and y.a[0].op == 'fp' and y.a[0].k == 'sub' and y.w == y.a[0].w - 1:
        p, q = y.a[0].a
        if p.w in W and bit(p, p.w - 1) is bit(q, p.w - 1) and not nonneg(p):
            return mag(t.fp('sub', [absv(p), absv(q)], p.w))
        return y
    if y.op != 'fp' or y.w not in W:
        return y
    w, k = y.w, y.k
    if k in DEFS:
        x = y.a[0]
        return DEFS[k](x)
    c = C(w)
    if k == 'sub' and nonneg(y.a[0]) and y.a[1] is base('trunc', y.a[0]):
        return absv(y)
    if k in ('add', 'sub'):
        pairs = addends(y) if k == 'add' else ((y.a[0], t.flip(y.a[1])),)
        for s, d in pairs:
            for X, e in addends(s):
                if t.flip(e) is not d:
                    continue
                if e is c and nonneg(X):
                    return ite(lt(X, c), base('nearbyint', X), outside(X, w))
                if mag(e) is mag(c) and bit(e, w - 1) is bit(X, w - 1):
                    return ite(lt(absv(X), c), pluszero(nearbyint(X)), outside(X, w))
    if k in ('add', 'sub'):
        pairs = addends(y) if k == 'add' else ((y.a[0], t.flip(y.a[1])),)
        for n, d in pairs:
            if k == 'add' and bit(n, w - 1) is bit(d, w - 1) and not nonneg(n) and mag(d) is not mag(c) \
                    and mag(n) is not mag(c):
                return signed(t.fp('add', [absv(n), absv(d)], w), n)
            X = arg(n, 'nearbyint')
            if X is not None and t.flip(d) is step(lt(X, n), w):
                return base('trunc', X)
    if k == 's2f' and y.a[0].op == 'fp' and y.a[0].k == 'f2s' and y.a[0].a[0].w == w:
        x, n = y.a[0].a[0], y.a[0].w
        return ite(lt(absv(x), pow2(n - 1, w)), pluszero(trunc(x)), t.flip(pow2(n - 1, w)))
    return y


def is_guard(c):
    """lt(X, positive constant) for X >= 0"""
    return c.op == 'fp' and c.k == 'lt' and c.a[1].op == 'c' and c.a[0].w in W and nonneg(c.a[0]) and \
        c.a[1].k >> (c.a[1].w - 1) == 0


def add_guard(guards, c):
    if is_guard(c):
        l = guards.setdefault(c.a[0].id, [])
        if c not in l:
            l.append(c)


def rewrite(roots):
    guards = {}
    for _ in range(4):
        memo = {}
        out = [_rewrite(r, memo, guards) for r in roots]
        if all(p is q for p, q in zip(out, roots)):
            break
        roots = out
    return roots


def _rewrite(root, memo, guards):
    stack = [root]
    while stack:
        y = stack[-1]
        if y.id in memo:
            stack.pop()
            continue
        todo = [z for z in y.a if z.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        na = [memo[z.id] for z in y.a]
        z = y if all(p is q for p, q in zip(na, y.a)) else t.rebuild(y, na)
        r = apply(z)
        if r is not z:
            if r.op == 'ite':
                add_guard(guards, r.a[0])
        elif z.op == 'ite' and is_guard(z.a[0]) and z.a[0].a[0].id in guards:
            # the guard of a lemma is decided inside both branches
            c, p, q = z.a
            m1, m2 = {}, {}
            for g in guards[c.a[0].id] + [c]:       # comparisons with a larger bound hold, too
                if g.a[1].k >= c.a[1].k:
                    m1[g.id], m1[bnot(g).id] = t.TRUE, FALSE
                if g.a[1].k <= c.a[1].k:
                    m2[g.id], m2[bnot(g).id] = FALSE, t.TRUE
            p2 = t.subst(p, m1, {})
            q2 = t.subst(q, m2, {})
            if p2 is not p or q2 is not q:
                r = ite(c, _rewrite(p2, memo, guards), _rewrite(q2, memo, guards))
                if r.op == 'ite':
                    r = integral_else_same(r)
        memo[y.id] = memo[z.id] = memo[r.id] = r
    return memo[root.id]


def fpinf(w):
    e, p = t.FPW[w]
    return ((1 << e) - 1) << (p - 1)
