"""Hash-consed bit-vector terms with normalising constructors.

Every value is a bit vector; a boolean is a 1-bit vector.  Floating-point values
are their bit patterns; floating-point operations are the op 'fp' (k = name) and
stay uninterpreted until the solver layer decides otherwise.

ops: c(k=value) v(k=name) cat(args LSB first) ext(k=lo) sx(1-bit arg replicated)
     not and or xor add(k=(const,coefs)) mul shl lshr ashr udiv urem sdiv srem
     eq ult slt ite smin smax umin umax uf(k=name) fp(k=name)
"""


class T:
    __slots__ = ('op', 'a', 'w', 'k', 'id')

    def __repr__(self):
        return pp(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
_cnt = [0]


def reset():
    global TRUE, FALSE
    _tab.clear()
    _extmemo.clear()
    _notmemo.clear()
    _fvmemo.clear()
    TRUE = const(1, 1)
    FALSE = const(0, 1)


def mk(op, a, w, k=None):
    key = (op, a, w, k)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.w = w
        t.k = k
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t


def const(v, w):
    return mk('c', (), w, v & ((1 << w) - 1))


def var(name, w):
    return mk('v', (), w, name)


_fresh = [0]


def fresh(w, hint='u'):
    _fresh[0] += 1
    return var('%s!%d' % (hint, _fresh[0]), w)


def isc(t):
    return t.op == 'c'


def mask(w):
    return (1 << w) - 1


_extmemo = {}
_notmemo = {}


def ext(t, lo, w):
    if lo == 0 and w == t.w:
        return t
    key = (t.id, lo, w)
    r = _extmemo.get(key)
    if r is not None:
        return r
    r = _ext(t, lo, w)
    _extmemo[key] = r
    return r


def _ext(t, lo, w):
    assert lo >= 0 and w > 0 and lo + w <= t.w, (lo, w, t.w)
    op = t.op
    if op == 'c':
        return const(t.k >> lo, w)
    if op == 'ext':
        return ext(t.a[0], t.k + lo, w)
    if op == 'cat':
        out = []
        p = 0
        hi = lo + w
        for x in t.a:
            q = p + x.w
            if q > lo and p < hi:
                s = max(lo, p)
                e = min(hi, q)
                out.append(ext(x, s - p, e - s))
            p = q
            if p >= hi:
                break
        return cat(out)
    if op == 'sx':
        return sx(t.a[0], w)
    if op == 'not':
        return bnot(ext(t.a[0], lo, w))
    if op == 'and':
        return band(*[ext(x, lo, w) for x in t.a])
    if op == 'or':
        return bor(*[ext(x, lo, w) for x in t.a])
    if op == 'xor':
        return bxor(*[ext(x, lo, w) for x in t.a])
    if op == 'ite':
        return ite(t.a[0], ext(t.a[1], lo, w), ext(t.a[2], lo, w))
    if lo == 0:
        if op == 'add':
            c, cf = t.k
            return lin(c, [(ext(x, 0, w), k) for x, k in zip(t.a, cf)], w)
        if op == 'mul':
            r = ext(t.a[0], 0, w)
            for x in t.a[1:]:
                r = mul(r, ext(x, 0, w))
            return r
    return mk('ext', (t,), w, lo)


def bit(t, i):
    return ext(t, i, 1)


def cat(parts):
    """LSB first."""
    fl = []
    for p in parts:
        if p.op == 'cat':
            fl.extend(p.a)
        else:
            fl.append(p)
    if len(fl) == 1:
        return fl[0]
    out = [fl[0]]
    for p in fl[1:]:
        q = out[-1]
        if p.op == 'c' and q.op == 'c':
            out[-1] = const(q.k | (p.k << q.w), p.w + q.w)
            continue
        # adjacent extracts
        if p.op == 'ext':
            b = p.a[0]
            if q.op == 'ext':
                if q.a[0] is b and q.k + q.w == p.k:
                    out[-1] = ext(b, q.k, q.w + p.w)
                    continue
            elif p.k == q.w and b.op in ('add', 'mul') and ext(b, 0, q.w) is q:
                # low part of a sum or product, with its own normal form
                out[-1] = ext(b, 0, q.w + p.w)
                continue
        # sign replication
        pb = p.a[0] if p.op == 'sx' else (p if p.w == 1 else None)
        if pb is not None and pb.op != 'c':
            qb = q.a[0] if q.op == 'sx' else (q if q.w == 1 else None)
            if qb is pb:
                out[-1] = sx(pb, q.w + p.w)
                continue
        # pieces of one case distinction
        if q.op == 'ite' or p.op == 'ite':
            m = _merge_ite(q, p)
            if m is not None:
                out[-1] = m
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out), sum(p.w for p in out))


def _as_ite(p, c):
    """p as a case distinction on c (1-bit pieces are kept as and/or)"""
    if p.op == 'ite':
        return p.a[1:] if p.a[0] is c else None
    if p.op == 'sx':
        if p.a[0] is c:
            return const(-1, p.w), const(0, p.w)
        if _notmemo.get(c.id) is p.a[0]:
            return const(0, p.w), const(-1, p.w)
        return None
    if p.w != 1:
        return None
    n = _notmemo.get(c.id)
    if p is c:
        return TRUE, FALSE
    if p is n:
        return FALSE, TRUE
    if p.op in ('and', 'or'):
        f = band if p.op == 'and' else bor
        e = FALSE if p.op == 'and' else TRUE
        for i, l in enumerate(p.a):
            if l is c or l is n:
                r = f(*(p.a[:i] + p.a[i + 1:]))
                return (r, e) if (l is c) == (p.op == 'and') else (e, r)
    return None


def _merge_ite(q, p):
    c = q.a[0] if q.op == 'ite' else p.a[0]
    x, y = _as_ite(q, c), _as_ite(p, c)
    if x is None or y is None:
        return None
    return _ite_tail(c, cat([x[0], y[0]]), cat([x[1], y[1]]), q.w + p.w)


def concat_hi_lo(hi, lo):
    return cat([lo, hi])


def sx(b, w):
    assert b.w == 1
    if w == 1:
        return b
    if b.op == 'c':
        return const(-b.k, w)
    return mk('sx', (b,), w)


def zext(t, w):
    if w == t.w:
        return t
    return cat([t, const(0, w - t.w)])


def sext(t, w):
    if w == t.w:
        return t
    return cat([t, sx(bit(t, t.w - 1), w - t.w)])


def pieces(t):
    return t.a if t.op == 'cat' else (t,)


def cuts(t):
    """interior cut positions that normalisation should use"""
    if t.op == 'cat':
        p = 0
        s = []
        for x in t.a[:-1]:
            p += x.w
            s.append(p)
        # also cuts of const pieces are ignored
        return s
    return []


def const_cuts(k, w):
    """positions where runs of equal bits change"""
    s = []
    prev = k & 1
    d = (k ^ (k >> 1)) & mask(w - 1)
    p = 0
    while d:
        low = (d & -d).bit_length() - 1
        s.append(low + 1)
        d &= d - 1
    return s


def resplit(t, cutlist):
    """cutlist sorted interior positions -> list of ext pieces"""
    out = []
    p = 0
    for c in cutlist:
        out.append(ext(t, p, c - p))
        p = c
    out.append(ext(t, p, t.w - p))
    return out


def bnot(t):
    r = _notmemo.get(t.id)
    if r is None:
        r = _bnot(t)
        _notmemo[t.id] = r
        _notmemo[r.id] = t
    return r


def _bnot(t):
    op = t.op
    if op == 'c':
        return const(~t.k, t.w)
    if op == 'not':
        return t.a[0]
    if op == 'cat':
        return cat([bnot(x) for x in t.a])
    if op == 'sx':
        return sx(bnot(t.a[0]), t.w)
    if op == 'and':
        return _nary('or', [bnot(x) for x in t.a], t.w)
    if op == 'or':
        return _nary('and', [bnot(x) for x in t.a], t.w)
    if op == 'ite':
        return ite(t.a[0], bnot(t.a[1]), bnot(t.a[2]))
    return mk('not', (t,), t.w)


def _seg(opf, args, w):
    """Distribute a bitwise operation over the common segmentation."""
    cs = set()
    for a in args:
        if a.op == 'cat':
            cs.update(cuts(a))
        elif a.op == 'c':
            cs.update(const_cuts(a.k, w))
    if not cs:
        return None
    cs = sorted(cs)
    cols = [resplit(a, cs) for a in args]
    return cat([opf(*col) for col in zip(*cols)])


def _nary(op, args, w):
    """and/or, n-ary, flattened, sorted."""
    zero = const(0, w) if op == 'and' else const(-1, w)
    one = const(-1, w) if op == 'and' else const(0, w)
    fl = {}
    for x in args:
        if x.op == op:
            for y in x.a:
                fl[y.id] = y
        else:
            fl[x.id] = x
    fl.pop(one.id, None)
    if zero.id in fl:
        return zero
    if not fl:
        return one
    for x in fl.values():
        n = _notmemo.get(x.id)
        if n is not None and n.id in fl:
            return zero
    if w == 1 and len(fl) > 1:
        # absorption against a literal: x & (x | y) = x, x & (!x | y) = x & y
        dual = 'or' if op == 'and' else 'and'
        changed = False
        for x in list(fl.values()):
            if x.op == dual and len(x.a) <= 64:
                keep = []
                absorbed = False
                for y in x.a:
                    if y.id in fl:
                        absorbed = True
                        break
                    n = _notmemo.get(y.id)
                    if n is not None and n.id in fl:
                        changed = True
                        continue
                    keep.append(y)
                if absorbed:
                    del fl[x.id]
                    changed = True
                elif len(keep) != len(x.a):
                    del fl[x.id]
                    r = _nary(dual, keep, w) if len(keep) != 1 else keep[0]
                    for z in (r.a if r.op == op else (r,)):
                        fl[z.id] = z
        if changed:
            return _nary(op, list(fl.values()), w)
    if len(fl) == 1:
        return next(iter(fl.values()))
    return mk(op, tuple(sorted(fl.values(), key=lambda t: t.id)), w)


def _merge_const_eq(op, rest):
    """x[7:0]=a & x[15:8]=b  ->  x = b:a   if the pieces cover all of x"""
    by = None
    for i, x in enumerate(rest):
        y = x
        pos = op == 'and'
        if y.op == 'not':
            y = y.a[0]
            pos = not pos
        if y.op == 'eq':
            if not pos:
                continue
            e, c = y.a
            if c.op != 'c':
                e, c = c, e
                if c.op != 'c':
                    continue
            if e.op != 'ext':
                continue
            v = c.k
        elif y.op == 'ext':
            e = y
            v = 1 if pos else 0
        else:
            continue
        if by is None:
            by = {}
        by.setdefault(e.a[0].id, []).append((e.k, e.w, v, i, e.a[0]))
    if by is None:
        return rest
    drop = set()
    new = []
    for l in by.values():
        base = l[0][4]
        if len(l) < 2 or sum(q[1] for q in l) < base.w:
            continue
        v = m = 0
        bad = False
        for q in l:
            mm = mask(q[1]) << q[0]
            vv = q[2] << q[0]
            if (v ^ vv) & m & mm:
                bad = True
            v |= vv
            m |= mm
        if bad or m == mask(base.w):
            drop |= {q[3] for q in l}
            r = FALSE if bad else eq(base, const(v, base.w))
            new.append(r if op == 'and' else bnot(r))
    if not drop:
        return rest
    return [x for i, x in enumerate(rest) if i not in drop] + new


def _bitop(op, args):
    w = args[0].w
    if len(args) == 1:
        return args[0]
    zero = 0 if op == 'and' else mask(w)
    one = mask(w) - zero
    rest = []
    ck = None
    for x in args:
        if x.op == 'c':
            if ck is None:
                ck = x.k
            else:
                ck = (ck & x.k) if op == 'and' else (ck | x.k)
        else:
            rest.append(x)
    if ck is not None:
        if ck == zero:
            return const(zero, w)
        if ck != one:
            rest.append(const(ck, w))
        if not rest:
            return const(one, w)
        if len(rest) == 1:
            return rest[0]
    if w == 1 and len(rest) > 1:
        r2 = _merge_const_eq(op, rest)
        if r2 is not rest:
            return _bitop(op, r2)
    if w > 1:
        f = band if op == 'and' else bor
        r = _seg(f, rest, w)
        if r is not None:
            return r
        # blends
        its = [x for x in rest if x.op in ('ite', 'sx')]
        if its:
            oth = [x for x in rest if x.op not in ('ite', 'sx')]
            bycond = {}
            for x in its:
                c = x.a[0]
                neg = c.op == 'not'
                cc = c.a[0] if neg else c
                # normalised ite never has negated 'not' condition, sx may
                n = _notmemo.get(c.id)
                if x.op == 'sx' and n is not None and n.id in bycond:
                    cc, neg = n, True
                elif x.op == 'sx' and not neg:
                    cc, neg = c, False
                th = x.a[1] if x.op == 'ite' else const(-1, w)
                el = x.a[2] if x.op == 'ite' else const(0, w)
                if neg:
                    th, el = el, th
                bycond.setdefault(cc.id, (cc, []))[1].append((th, el))
            new = []
            changed = False
            for cc, l in bycond.values():
                if len(l) > 1:
                    changed = True
                    new.append(ite(cc, f(*[p for p, q in l]), f(*[q for p, q in l])))
                else:
                    new.append(ite(cc, l[0][0], l[0][1]))
            if changed:
                return f(*(new + oth))
            # sx(b) & x -> ite(b, x, 0)
            for i, x in enumerate(rest):
                if x.op == 'sx':
                    r2 = rest[:i] + rest[i + 1:]
                    y = f(*r2)
                    if op == 'and':
                        return ite(x.a[0], y, const(0, w))
                    return ite(x.a[0], const(-1, w), y)
            # ite with a zero/one arm
            for i, x in enumerate(rest):
                if x.op == 'ite':
                    a1, a2 = x.a[1], x.a[2]
                    if (a1.op == 'c' and a1.k in (0, mask(w))) or (
                            a2.op == 'c' and a2.k in (0, mask(w))):
                        neutral = any(q.op == 'c' and q.k == mask(w) for q in (a1, a2))
                        if len(rest) == 2 and op == 'and' and not (neutral and rest[1 - i].op == 'ite'):
                            y = f(*(rest[:i] + rest[i + 1:]))
                            return ite(x.a[0], f(a1, y), f(a2, y))
    return _nary(op, rest, w)


def band(*args):
    return _bitop('and', list(args))


def bor(*args):
    return _bitop('or', list(args))


def bxor(*args):
    args = list(args)
    w = args[0].w
    k = 0
    cntd = {}
    stack = args
    fl = []
    while stack:
        x = stack.pop()
        if x.op == 'c':
            k ^= x.k
        elif x.op == 'not':
            k ^= mask(w)
            stack.append(x.a[0])
        elif x.op == 'xor':
            stack.extend(x.a)
        else:
            fl.append(x)
    for x in fl:
        if x.id in cntd:
            del cntd[x.id]
        else:
            cntd[x.id] = x
    # cancel complements (complement memo)
    for x in list(cntd.values()):
        if x.id in cntd:
            n = _notmemo.get(x.id)
            if n is not None and n.id in cntd and n is not x:
                del cntd[x.id]
                del cntd[n.id]
                k ^= mask(w)
    fl = list(cntd.values())
    if not fl:
        return const(k, w)
    if w > 1 and (len(fl) > 1 or k not in (0, mask(w))):
        r = _seg(bxor, fl + ([const(k, w)] if k else []), w)
        if r is not None:
            return r
        its = [x for x in fl if x.op in ('ite', 'sx')]
        if its and len(fl) == 2:
            x = its[0]
            y = fl[0] if fl[1] is x else fl[1]
            c = x.a[0]
            a1, a2 = (x.a[1], x.a[2]) if x.op == 'ite' else (const(-1, w), const(0, w))
            kk = const(k, w)
            if y.op in ('ite', 'sx') and y.a[0] is c:
                b1, b2 = (y.a[1], y.a[2]) if y.op == 'ite' else (const(-1, w), const(0, w))
                return ite(c, bxor(a1, b1, kk), bxor(a2, b2, kk))
            if ((a1.op == 'c' or a2.op == 'c') and not (y.op == 'ite' and x.op == 'ite')) or (a1.op == 'xor' and y in a1.a) or (
                    a2.op == 'xor' and y in a2.a):
                return ite(c, bxor(a1, y, kk), bxor(a2, y, kk))
    if len(fl) == 1:
        r = fl[0]
    else:
        # canonical polarity: prefer the non-negated complement for 1-bit
        r = mk('xor', tuple(sorted(fl, key=lambda t: t.id)), w)
    if k == mask(w):
        return bnot(r)
    if k == 0:
        return r
    return mk('xor', tuple(sorted(fl + [const(k, w)], key=lambda t: t.id)), w)


def bandn(x, y):
    return band(bnot(x), y)


# ------------------------------------------------------------- arithmetic
def lin(c, items, w):
    m = mask(w)
    d = {}
    stack = list(items)
    while stack:
        x, k = stack.pop()
        k &= m
        if k == 0:
            continue
        if x.op == 'c':
            c += x.k * k
        elif x.op == 'add':
            c0, cf = x.k
            c += c0 * k
            for y, kk in zip(x.a, cf):
                stack.append((y, kk * k))
        elif x.op == 'not':
            # ~y = -y - 1
            c -= k
            stack.append((x.a[0], -k))
        else:
            if x.id in d:
                d[x.id] = (x, (d[x.id][1] + k) & m)
            else:
                d[x.id] = (x, k)
    c &= m
    its = [(x, k) for x, k in d.values() if k]
    if not its:
        return const(c, w)
    if len(its) == 1:
        x, k = its[0]
        if c == 0 and k == 1:
            return x
        if c == 0 and (k & (k - 1)) == 0:
            return shl_c(x, k.bit_length() - 1)
        if c == m and k == m:
            return bnot(x)
        if c == 0 and x.op == 'cat' and isc(x.a[-1]) and x.a[-1].k == 0:
            # disjoint shifted copies
            n = w - x.a[-1].w
            ps = [i for i in range(w) if (k >> i) & 1]
            if all(q - p >= n for p, q in zip(ps, ps[1:])):
                return bor(*[shl_c(x, p) for p in ps])
        if k == 1 and c == 1 << (w - 1):
            return flip(x)
        if k == 1 and x.op == 'cat' and isc(x.a[0]) and c < (1 << x.a[0].w) \
                and x.a[0].k + c < (1 << x.a[0].w):
            # constant fits in the constant low part
            return cat([const(x.a[0].k + c, x.a[0].w)] + list(x.a[1:]))
        if k == 1 and x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]):
            return ite(x.a[0], const(x.a[1].k + c, w), const(x.a[2].k + c, w))
        if k == m and c == 0 and x.op == 'cat' and x.a[0].w == 1 and len(x.a) == 2 \
                and isc(x.a[1]) and x.a[1].k == 0:
            return sx(x.a[0], w)
        if k == m and x.op == 'sx':
            # c - (-b) = c + b
            return lin(c, [(zext(x.a[0], w), 1)], w)
        if k == m and c == 0 and x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]):
            return ite(x.a[0], const(-x.a[1].k, w), const(-x.a[2].k, w))
        if k == m and c == 0 and x.op == 'ite' and (isc(x.a[1]) or isc(x.a[2])):
            return ite(x.a[0], lin(0, [(x.a[1], m)], w), lin(0, [(x.a[2], m)], w))
    # normalise sx(b) addends to -zext(b)
    if any(x.op == 'sx' for x, k in its):
        return lin(c, [(zext(x.a[0], w), -k) if x.op == 'sx' else (x, k) for x, k in its], w)
    if len(its) == 2 and c == 0 and {its[0][1], its[1][1]} == {1, m}:
        # (x << n) - x for a row x of single bits at a distance of n or more
        s, x = (its[0][0], its[1][0]) if its[0][1] == 1 else (its[1][0], its[0][0])
        if s.op == 'cat' and x.op == 'cat' and isc(s.a[0]) and s.a[0].k == 0:
            z = x.a[0].w if isc(x.a[0]) and x.a[0].k == 0 else 0
            n = s.a[0].w - z
            if n > 1 and shl_c(x, n) is s:
                r = _spread(x, n)
                if r is not None:
                    return r
    if len(its) == 2 and c == 0 and its[0][1] == 1 and its[1][1] == 1 and \
            its[0][0].op == 'cat' and its[1][0].op == 'cat' and not _nz(its[0][0]) & _nz(its[1][0]):
        return bor(its[0][0], its[1][0])
    its.sort(key=lambda p: p[0].id)
    if w == 64:
        r = _mul_halves(c, its)
        if r is not None:
            return r
    return mk('add', tuple(x for x, k in its), w, (c, tuple(k for x, k in its)))


def _spread(x, n):
    """x * (2^n - 1) for bits separated by at least n - 1 zeros"""
    out = []
    skip = 0
    for p in x.a:
        if isc(p):
            if p.k & mask(p.w) or p.w < skip:
                return None
            if p.w > skip:
                out.append(const(0, p.w - skip))
            skip = 0
        elif p.w == 1 and skip == 0:
            rest = x.w - sum(q.w for q in out)
            out.append(sx(p, min(n, rest)))
            skip = min(n, rest) - 1
        else:
            return None
    return cat(out) if skip == 0 and sum(q.w for q in out) == x.w else None


def _zlow(x):
    """y if x is y zero-extended to twice its width"""
    h = x.w // 2
    if x.op == 'cat' and x.a[-1].op == 'c' and x.a[-1].k == 0 and x.a[-1].w == h:
        return ext(x, 0, h)
    return None


def _cofactor(p, x):
    """q with p = q * x"""
    fs = list(p.a)
    for f in (x.a if x.op == 'mul' else (x,)):
        if f not in fs:
            return None
        fs.remove(f)
    if not fs:
        return const(1, p.w)
    return fs[0] if len(fs) == 1 else mk('mul', tuple(fs), p.w)


def _mul_halves(c, its):
    """zext(xl) * zext(yl) + ((xh * yl + xl * yh) << w/2)  ->  (xh:xl) * (yh:yl)"""
    for m, k in its:
        if m.op != 'mul' or k != 1 or len(m.a) != 2:
            continue
        xl, yl = _zlow(m.a[0]), _zlow(m.a[1])
        if xl is None or yl is None:
            continue
        h = xl.w
        for i, (s, ks) in enumerate(its):
            if ks != 1 or s.op != 'cat' or not isc(s.a[0]) or s.a[0].k or s.a[0].w < h:
                continue
            q = ext(s, h, h)
            ps = [(q, 1)] if q.op == 'mul' else list(zip(q.a, q.k[1])) if q.op == 'add' and q.k[0] == 0 else []
            if not ps or len(ps) > 2 or any(p.op != 'mul' or kk != 1 for p, kk in ps):
                continue
            for xx, yy in ((xl, yl), (yl, xl)):
                fx = fy = None
                ok = True
                for p, kk in ps:
                    c1 = _cofactor(p, yy) if fx is None else None
                    if c1 is not None:
                        fx = c1
                        continue
                    c1 = _cofactor(p, xx) if fy is None else None
                    if c1 is None:
                        ok = False
                        break
                    fy = c1
                if ok:
                    r = mul(cat([xx, fx if fx is not None else const(0, h)]),
                            cat([yy, fy if fy is not None else const(0, h)]))
                    rest = [(x, kk) for j, (x, kk) in enumerate(its) if j != i and x is not m]
                    return lin(c, rest + [(r, 1)], 2 * h)
    return None


def add(x, y):
    return lin(0, [(x, 1), (y, 1)], x.w)


def sub(x, y):
    return lin(0, [(x, 1), (y, -1)], x.w)


def neg(x):
    return lin(0, [(x, -1)], x.w)


def flip(x):
    """toggle the sign bit"""
    w = x.w
    if w == 1:
        return bnot(x)
    return cat([ext(x, 0, w - 1), bnot(bit(x, w - 1))])


def unflip(x):
    """if x is syntactically flip(y), return y"""
    if x.op == 'c':
        return const(x.k ^ (1 << (x.w - 1)), x.w)
    if x.op == 'cat' and x.a[-1].w == 1:
        return flip(x)
    if x.op == 'ite' and x.w > 1:
        y, n = unflip(x.a[1]), unflip(x.a[2])
        if y is not None and n is not None:
            return ite(x.a[0], y, n)
    return None


def _nz(x):
    """mask of the bits that are not constantly zero"""
    if x.op == 'c':
        return x.k
    if x.op != 'cat':
        return mask(x.w)
    r = p = 0
    for y in x.a:
        r |= (y.k if y.op == 'c' else mask(y.w)) << p
        p += y.w
    return r


def mul(x, y):
    w = x.w
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c':
        return lin(0, [(x, y.k)], w)
    # low zero bits
    tz = 0
    for t in (x, y):
        if t.op == 'cat' and t.a[0].op == 'c' and t.a[0].k == 0:
            tz += t.a[0].w
    if tz:
        if tz >= w:
            return const(0, w)
        n = w - tz
        fs = []
        for t in (x, y):
            z = t.a[0].w if t.op == 'cat' and t.a[0].op == 'c' and t.a[0].k == 0 else 0
            fs.append(ext(t, z, n))
        return cat([const(0, tz), mul(fs[0], fs[1])])
    fs = []
    for t in (x, y):
        if t.op == 'mul':
            fs.extend(t.a)
        else:
            fs.append(t)
    # pull out coefficient of single-term add
    k = 1
    out = []
    for t in fs:
        if t.op == 'add' and t.k[0] == 0 and len(t.a) == 1:
            k = (k * t.k[1][0]) & mask(w)
            if t.a[0].op == 'mul':
                out.extend(t.a[0].a)
            else:
                out.append(t.a[0])
        else:
            out.append(t)
    # y * (x / y) = x - x % y
    for i, t in enumerate(out):
        d = t.a[0] if t.op == 'ext' and t.k == 0 else t
        if d.op in ('sdiv', 'udiv'):
            dx, dy = d.a
            uy = ext(dy, 0, w)
            for j, u in enumerate(out):
                if j != i and u is uy:
                    rem = divop('srem' if d.op == 'sdiv' else 'urem', dx, dy)
                    r = lin(0, [(ext(dx, 0, w), 1), (ext(rem, 0, w), -1)], w)
                    for z, q in enumerate(out):
                        if z != i and z != j:
                            r = mul(r, q)
                    return lin(0, [(r, k)], w)
    r = mk('mul', tuple(sorted(out, key=lambda t: t.id)), w)
    if k != 1:
        return lin(0, [(r, k)], w)
    return r


def shl_c(x, n):
    w = x.w
    if n == 0:
        return x
    if n >= w:
        return const(0, w)
    return cat([const(0, n), ext(x, 0, w - n)])


def lshr_c(x, n):
    w = x.w
    if n == 0:
        return x
    if n >= w:
        return const(0, w)
    return cat([ext(x, n, w - n), const(0, n)])


def ashr_c(x, n):
    w = x.w
    if n >= w:
        n = w - 1
    if n == 0:
        return x
    return cat([ext(x, n, w - n), sx(bit(x, w - 1), n)])


def _shift(op, x, n):
    """n has the same width as x; n >= w gives 0 / sign (SMT-LIB semantics)."""
    w = x.w
    if n.op == 'c':
        return {'shl': shl_c, 'lshr': lshr_c, 'ashr': ashr_c}[op](x, min(n.k, w))
    if x.op == 'c' and x.k == 0:
        return x
    if n.op == 'ite':
        return ite(n.a[0], _shift(op, x, n.a[1]), _shift(op, x, n.a[2])) if (
            isc(n.a[1]) or isc(n.a[2])) else mk(op, (x, n), w)
    return mk(op, (x, n), w)


def shl(x, n):
    return _shift('shl', x, n)


def lshr(x, n):
    return _shift('lshr', x, n)


def ashr(x, n):
    return _shift('ashr', x, n)


def _tos(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def divop(op, x, y):
    w = x.w
    if isc(x) and isc(y) and y.k != 0:
        if op == 'udiv':
            return const(x.k // y.k, w)
        if op == 'urem':
            return const(x.k % y.k, w)
        a, b = _tos(x.k, w), _tos(y.k, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return const(q if op == 'sdiv' else a - q * b, w)
    if isc(y):
        if y.k == 1:
            return x if op in ('udiv', 'sdiv') else const(0, w)
        if op in ('udiv', 'urem') and y.k & (y.k - 1) == 0 and y.k:
            n = y.k.bit_length() - 1
            return lshr_c(x, n) if op == 'udiv' else band(x, const(y.k - 1, w))
    # narrow operands: (op w)(ext x)(ext y) where both are extensions
    if op in ('udiv', 'urem'):
        m = 0
        for t in (x, y):
            if t.op == 'cat' and isc(t.a[-1]) and t.a[-1].k == 0:
                nw = w - t.a[-1].w
            elif isc(t):
                nw = max(1, t.k.bit_length())
            else:
                nw = w
            m = max(m, nw)
        if m < w and not isc(y):
            return zext(divop(op, ext(x, 0, m), ext(y, 0, m)), w)
    else:
        n = max(_sxw(x), _sxw(y))
        if n < w:
            xn, yn = ext(x, 0, n), ext(y, 0, n)
            if op == 'srem':
                return sext(divop('srem', xn, yn), w)
            # low n bits agree with the n-bit division (also for MIN/-1 and /0)
            return cat([divop('sdiv', xn, yn), ext(mk('sdiv', (x, y), w), n, w - n)])
    return mk(op, (x, y), w)


# ------------------------------------------------------------- comparisons
def eq(x, y):
    if x is y:
        return TRUE
    w = x.w
    assert w == y.w, (x.w, y.w)
    if x.op == 'c' and y.op == 'c':
        return TRUE if x.k == y.k else FALSE
    if w == 1:
        return bnot(bxor(x, y))
    if x.op == 'c':
        x, y = y, x
    if _notmemo.get(x.id) is y:
        return FALSE
    if x.op == 'cat' or y.op == 'cat':
        cs = sorted(set(cuts(x)) | set(cuts(y)))
        xs = resplit(x, cs)
        ys = resplit(y, cs)
        r = []
        for p, q in zip(xs, ys):
            e = eq(p, q)
            if e is FALSE:
                return FALSE
            r.append(e)
        return band(*r)
    if y.op == 'c' and y.k == 0 and x.op == 'ext' and x.k == 0 and x.a[0].op == 'fp' \
            and x.a[0].k in ('s2f', 'u2f') and w == x.a[0].w - 1:
        return eq(x.a[0].a[0], const(0, x.a[0].a[0].w))     # an integer converts to zero iff it is zero
    if x.op == 'sx' and y.op == 'c':
        if y.k == 0:
            return bnot(x.a[0])
        if y.k == mask(w):
            return x.a[0]
        return FALSE
    if x.op == 'sx' and y.op == 'sx':
        return eq(x.a[0], y.a[0])
    if x.op == 'ite' and y.op == 'c':
        a, b = x.a[1], x.a[2]
        if isc(a) or isc(b):
            return ite(x.a[0], eq(a, y), eq(b, y))
    if x.op == 'ite' and y.op == 'ite' and x.a[0] is y.a[0]:
        return ite(x.a[0], eq(x.a[1], y.a[1]), eq(x.a[2], y.a[2]))
    if x.op in ('add', 'c') or y.op in ('add', 'c') or True:
        if x.op == 'add' or y.op == 'add':
            d = sub(x, y)
            if isc(d):
                return TRUE if d.k == 0 else FALSE
            if d.op == 'add':
                c, cf = d.k
                m = mask(w)
                if len(d.a) == 1 and cf[0] in (1, m):
                    k = c if cf[0] == m else -c
                    x, y = d.a[0], const(k, w)
                    if x.op in ('cat', 'ite', 'sx'):
                        return eq(x, y)
                elif len(d.a) == 2 and c == 0 and set(cf) == {1, m}:
                    x, y = d.a
                    if x.op in ('cat', 'ite', 'sx') or y.op in ('cat', 'ite', 'sx'):
                        return eq(x, y)
    if x.op == 'xor' and y.op == 'c' and len(x.a) == 2 and y.k == 0:
        return eq(x.a[0], x.a[1])
    for u, v in ((x, y), (y, x)):
        if u.op in ('smin', 'smax', 'umin', 'umax') and v in u.a:
            o = u.a[1] if u.a[0] is v else u.a[0]
            lt = slt if u.op[0] == 's' else ult
            return bnot(lt(o, v) if u.op.endswith('min') else lt(v, o))
    if y.op != 'c' and x.id > y.id:
        x, y = y, x
    return mk('eq', (x, y), 1)


def ne(x, y):
    return bnot(eq(x, y))


def ult(x, y):
    if x is y:
        return FALSE
    w = x.w
    if isc(x) and isc(y):
        return TRUE if x.k < y.k else FALSE
    if w == 1:
        return band(bnot(x), y)
    if isc(y):
        if y.k == 0:
            return FALSE
        if y.k == 1:
            return eq(x, const(0, w))
        if y.k & (y.k - 1) == 0:
            n = y.k.bit_length() - 1
            return eq(ext(x, n, w - n), const(0, w - n))
        if y.k == mask(w):
            return ne(x, y)
    if isc(x):
        if x.k == 0:
            return ne(y, x)
        if x.k == mask(w):
            return FALSE
        if x.k & (x.k + 1) == 0:
            n = x.k.bit_length()
            return ne(ext(y, n, w - n), const(0, w - n))
    # equal top pieces
    tx = x.a[-1] if x.op == 'cat' else x
    ty = y.a[-1] if y.op == 'cat' else y
    tw = min(tx.w, ty.w)
    if tw < w:
        a, b = ext(x, w - tw, tw), ext(y, w - tw, tw)
        if a is b:
            return ult(ext(x, 0, w - tw), ext(y, 0, w - tw))
        # common low zero bits
    lx = x.a[0] if x.op == 'cat' else x
    ly = y.a[0] if y.op == 'cat' else y
    if isc(lx) and isc(ly) and lx.k == 0:
        def tz(k, n):
            return n if k == 0 else (k & -k).bit_length() - 1
        lw = min(tz(lx.k, lx.w), tz(ly.k, ly.w))
        if 0 < lw < w:
            return ult(ext(x, lw, w - lw), ext(y, lw, w - lw))
    fx, fy = unflip(x), unflip(y)
    if fx is not None and fy is not None and not (isc(x) and isc(y)):
        if not (fx.op == 'cat' and fy.op == 'cat' and fx.a[-1].w == 1 and fy.a[-1].w == 1
                and False):
            if _simpler(fx, x) or _simpler(fy, y):
                return slt(fx, fy)
    if x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]) and isc(y):
        return ite(x.a[0], ult(x.a[1], y), ult(x.a[2], y))
    if y.op == 'ite' and isc(y.a[1]) and isc(y.a[2]) and isc(x):
        return ite(y.a[0], ult(x, y.a[1]), ult(x, y.a[2]))
    return mk('ult', (x, y), 1)


def _simpler(a, b):
    return a.op != 'cat' and a.op != 'c' and b.op == 'cat'


def slt(x, y):
    if x is y:
        return FALSE
    w = x.w
    if isc(x) and isc(y):
        return TRUE if _tos(x.k, w) < _tos(y.k, w) else FALSE
    if w == 1:
        return band(x, bnot(y))
    if isc(y) and y.k == 0:
        return bit(x, w - 1)
    if isc(x) and x.k == mask(w):
        return bnot(bit(y, w - 1))
    if isc(y) and y.k == 1 << (w - 1):
        return FALSE
    if isc(y) and y.k == mask(w - 1):
        return ne(x, y)
    if isc(x) and x.k == 1 << (w - 1):
        return ne(x, y)
    if isc(x) and x.k == mask(w - 1):
        return FALSE
    # both non-negative
    sxb, syb = bit(x, w - 1), bit(y, w - 1)
    if isc(sxb) and isc(syb):
        if sxb.k == syb.k:
            return ult(ext(x, 0, w - 1), ext(y, 0, w - 1))
        return sxb
    # sign extended operands: compare narrow
    nx, ny = _sxw(x), _sxw(y)
    n = max(nx, ny)
    if n < w:
        return slt(ext(x, 0, n), ext(y, 0, n))
    fx, fy = unflip(x), unflip(y)
    if fx is not None and fy is not None:
        if _simpler(fx, x) or _simpler(fy, y):
            return ult(fx, fy)
    if x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]) and isc(y):
        return ite(x.a[0], slt(x.a[1], y), slt(x.a[2], y))
    if y.op == 'ite' and isc(y.a[1]) and isc(y.a[2]) and isc(x):
        return ite(y.a[0], slt(x, y.a[1]), slt(x, y.a[2]))
    lx = x.a[0] if x.op == 'cat' else x
    ly = y.a[0] if y.op == 'cat' else y
    if isc(lx) and isc(ly) and lx.k == 0:
        def tz(k, n):
            return n if k == 0 else (k & -k).bit_length() - 1
        lw = min(tz(lx.k, lx.w), tz(ly.k, ly.w))
        if 0 < lw < w:
            return slt(ext(x, lw, w - lw), ext(y, lw, w - lw))
    return mk('slt', (x, y), 1)


def _sxw(t):
    """smallest n such that t = sext(t[0:n]) syntactically"""
    w = t.w
    if isc(t):
        v = _tos(t.k, w)
        return max(1, (v if v >= 0 else ~v).bit_length() + 1)
    if t.op == 'cat':
        top = t.a[-1]
        if isc(top):
            # constant top: count redundant sign bits inside it
            if top.k == 0:
                return w - top.w + 1
            if top.k == mask(top.w):
                return w - top.w + 1
            return w
        if top.op == 'sx':
            rest = w - top.w
            if rest > 0 and ext(t, rest - 1, 1) is top.a[0]:
                return rest
            return rest + 1
    if t.op == 'sx':
        return 1
    return w


def ule(x, y):
    return bnot(ult(y, x))


def sle(x, y):
    return bnot(slt(y, x))


# ------------------------------------------------------------- ite
def ite(c, x, y):
    if x is y:
        return x
    if c.op == 'c':
        return x if c.k else y
    assert x.w == y.w, (x.w, y.w)
    w = x.w
    # canonical condition polarity: never 'not', and of (c, !c) the older one
    if c.op == 'not':
        return ite(c.a[0], y, x)
    n = _notmemo.get(c.id)
    if n is not None and n.op != 'not' and n.id < c.id:
        c, x, y = n, y, x
    elif n is None:
        n = bnot(c)
        if n.op != 'not' and n.id < c.id:
            c, x, y = n, y, x
    if x.op == 'ite' and x.a[0] is c:
        x = x.a[1]
    if y.op == 'ite' and y.a[0] is c:
        y = y.a[2]
    if x.op == 'sx':
        if x.a[0] is c:
            x = const(-1, w)
        elif _notmemo.get(c.id) is x.a[0]:
            x = const(0, w)
    if y.op == 'sx':
        if y.a[0] is c:
            y = const(0, w)
        elif _notmemo.get(c.id) is y.a[0]:
            y = const(-1, w)
    if x is y:
        return x
    if isc(x) and isc(y):
        if x.k == mask(w) and y.k == 0:
            return sx(c, w)
        if x.k == 0 and y.k == mask(w):
            return sx(bnot(c), w)
        d = x.k ^ y.k
        if d & (d - 1) == 0 and w <= 64:
            pos = d.bit_length() - 1
            b = c if (x.k >> pos) & 1 else bnot(c)
            ps = []
            if pos:
                ps.append(const(x.k, pos))
            ps.append(b)
            if pos + 1 < w:
                ps.append(const(x.k >> (pos + 1), w - pos - 1))
            return cat(ps)
    if w == 1:
        if x is c:
            x = TRUE
        if y is c:
            y = FALSE
        if isc(x):
            return bor(c, y) if x.k else band(bnot(c), y)
        if isc(y):
            return bor(bnot(c), x) if y.k else band(c, x)
        if _notmemo.get(x.id) is y:
            return bnot(bxor(c, x))
    for z in (x, y):
        if z.op == 'cat' and c in z.a:
            u = cat([(TRUE if z is x else FALSE) if p is c else p for p in z.a])
            if z is x:
                x = u
            else:
                y = u
            if x is y:
                return x
    if x.op == 'cat' and y.op == 'cat':
        cx, cy = cuts(x), cuts(y)
        common = sorted(set(cx) & set(cy))
        if common:
            return cat([ite(c, p, q) for p, q in zip(resplit(x, common), resplit(y, common))])
    if (x.op == 'cat' and isc(y)) or (y.op == 'cat' and isc(x)):
        cs = cuts(x) if x.op == 'cat' else cuts(y)
        return cat([ite(c, p, q) for p, q in zip(resplit(x, cs), resplit(y, cs))])
    return _ite_tail(c, x, y, w)


def _ite_tail(c, x, y, w):
    if c.op == 'or' and len(c.a) == 2:
        # (p < q | p = q) ? p : q
        l, e = c.a if c.a[1].op == 'eq' else c.a[::-1]
        if e.op == 'eq' and l.op in ('slt', 'ult') and set(e.a) == set(l.a) and set(l.a) == {x, y}:
            return ite(l, x, y)
    # integer min/max
    if c.op in ('slt', 'ult'):
        p, q = c.a
        if (p is x and q is y) or (p is y and q is x):
            ismin = p is x
            nm = ('s' if c.op == 'slt' else 'u') + ('min' if ismin else 'max')
            return mk(nm, tuple(sorted((x, y), key=lambda t: t.id)), w)
    # collapse ite(c, x, ite(d, x, z)) = ite(c|d, x, z)
    if y.op == 'ite' and y.a[1] is x:
        return ite(bor(c, y.a[0]), x, y.a[2])
    if y.op == 'ite' and y.a[2] is x:
        return ite(bor(c, bnot(y.a[0])), x, y.a[1])
    if x.op == 'ite' and x.a[2] is y:
        return ite(band(c, x.a[0]), x.a[1], y)
    if x.op == 'ite' and x.a[1] is y:
        return ite(band(c, bnot(x.a[0])), x.a[2], y)
    return mk('ite', (c, x, y), w)


def fminmax(p, q, ch, mn):
    """RTL smin/smax of floating-point operands: p if p < q (q < p), q if the other way round, an
    unspecified one of both otherwise (zeros of different sign, NaN)"""
    if p is q:
        return p
    if isc(p) and isc(q):
        c = fp('lt', [p, q] if mn else [q, p], 1)
        d = fp('lt', [q, p] if mn else [p, q], 1)
        return ite(c, p, ite(d, q, ite(ch, p, q)))
    return mk('fmin3' if mn else 'fmax3', (p, q, ch), p.w)


def uf(name, args, w):
    return mk('uf', tuple(args), w, name)


# ------------------------------------------------------------- bit counting
def popcount(x, w=None):
    w = w or x.w
    if isc(x):
        return const(bin(x.k).count('1'), w)
    its = []
    c = 0
    for p in pieces(x):
        if isc(p):
            c += bin(p.k).count('1')
        elif p.op == 'sx':
            its.append((zext(p.a[0], w), p.w))
        else:
            for i in range(p.w):
                its.append((zext(bit(p, i), w), 1))
    return lin(c, its, w)


def ctz(x, w, zero):
    r = zero
    for i in reversed(range(x.w)):
        r = ite(bit(x, i), const(i, w), r)
    return r


def clz(x, w, zero):
    r = zero
    for i in range(x.w):
        r = ite(bit(x, i), const(x.w - 1 - i, w), r)
    return r


def blsr(x):
    """x & (x - 1)"""
    out = []
    low = FALSE
    for i in range(x.w):
        b = bit(x, i)
        out.append(band(b, low))
        low = bor(low, b)
    return cat(out)


# ------------------------------------------------------------- fp
FPW = {16: (5, 11), 32: (8, 24), 64: (11, 53), 80: (15, 64)}


def f_exp(x):
    e, m = FPW[x.w]
    return ext(x, m - 1, e)


def f_man(x):
    e, m = FPW[x.w]
    return ext(x, 0, m - 1)


def f_sign(x):
    return bit(x, x.w - 1)


def f_abs(x):
    return cat([ext(x, 0, x.w - 1), const(0, 1)])


def f_neg(x):
    return flip(x)


def f_isnan(x):
    return fp('uno', [x, x], 1)


def _f_isnan_bits(x):
    e, m = FPW[x.w]
    return band(eq(f_exp(x), const(-1, e)), ne(f_man(x), const(0, m - 1)))


_COMM = {'add', 'mul', 'eq', 'uno'}


def _i2f_halves(h, lo):
    """x2f(hi) * 2^n + u2f(lo) = x2f(hi:lo) for halves of n bits (32 in binary64, 16 in binary32):
    everything but the final addition is exact"""
    from .evalr import fconv
    if h.op != 'fp' or h.k not in ('s2f', 'u2f') or lo.op != 'fp' or lo.k != 'u2f':
        return None
    n = 32 if h.w == 64 else 16
    if h.a[0].w > n or lo.a[0].w > n:
        return None
    x = cat([zext(lo.a[0], n), (sext if h.k == 's2f' else zext)(h.a[0], n)])
    return fconv(h.k, x, h.w)


_HALF = {64: 0x41f0000000000000, 32: 0x47800000}


def fp(name, args, w):
    """fp operation; 'lt','le','eq','uno' are 1-bit."""
    args = list(args)
    if name in _COMM and args[0].id > args[1].id:
        args[0], args[1] = args[1], args[0]
    if name == 'add' and w == 64:
        # exact: s2f(x ^ 2^31) + 2^31 = u2f(x) for 32-bit x in binary64
        for p, q in ((args[0], args[1]), (args[1], args[0])):
            if p.op == 'c' and p.k == 0x41e0000000000000 and q.op == 'fp' and q.k == 's2f' \
                    and q.a[0].w == 32:
                return fp('u2f', [flip(q.a[0])], 64)
    if name == 'add' and w in _HALF:
        # exact up to the final rounding
        for p, q in ((args[0], args[1]), (args[1], args[0])):
            if p.op == 'fp' and p.k == 'u2f' and q.op == 'fp' and q.k == 'mul':
                for c, h in ((q.a[0], q.a[1]), (q.a[1], q.a[0])):
                    if c.op == 'c' and c.k == _HALF[w]:
                        r = _i2f_halves(h, p)
                        if r is not None:
                            return r
    if name == 'fma' and w in _HALF:
        for c, h in ((args[0], args[1]), (args[1], args[0])):
            if c.op == 'c' and c.k == _HALF[w]:
                r = _i2f_halves(h, args[2])
                if r is not None:
                    return r
    if name == 'eq':
        for p, q in ((args[0], args[1]), (args[1], args[0])):
            if p.op == 'c' and p.k & mask(p.w - 1) == 0 and p.w < 80 and q.op != 'c':
                return eq(ext(q, 0, q.w - 1), const(0, q.w - 1))
    if name == 'uno':
        if all(isc(a) for a in args):
            from . import fpconc
            return TRUE if any(fpconc.isnan(a.k, a.w) for a in args) else FALSE
        if args[0] is not args[1]:
            ps = [fp('uno', [a, a], 1) for a in args]
            return bor(*ps)
        # NaN-ness ignores the sign bit
        a = args[0]
        if a.op == 'fp' and a.k in ('s2f', 'u2f'):
            return FALSE
        if a.op == 'fp' and a.k == 'f2f':
            return fp('uno', [a.a[0], a.a[0]], 1)
        if a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
            return ite(a.a[0], fp('uno', [a.a[1], a.a[1]], 1), fp('uno', [a.a[2], a.a[2]], 1))
        if a.op == 'cat' and a.a[-1].w == 1:
            b = a.a[0]
            if len(a.a) == 2 and b.op == 'ext' and b.k == 0 and b.a[0].w == a.w:
                return fp('uno', [b.a[0], b.a[0]], 1)
    if all(isc(a) for a in args):
        from . import fpconc
        r = fpconc.fold(name, [a.k for a in args], args[0].w, w)
        if r is not None:
            return const(r, w)
    return mk('fp', tuple(args), w, name)


TRUE = const(1, 1)
FALSE = const(0, 1)


# ------------------------------------------------------------- printing
def pp(t, d=6):
    if t.op == 'c':
        return '%s:%d' % (hex(t.k), t.w)
    if t.op == 'v':
        return t.k
    if d == 0:
        return '...'
    s = ' '.join(pp(x, d - 1) for x in t.a[:8])
    if len(t.a) > 8:
        s += ' ...'
    if t.op in ('uf', 'fp'):
        return '(%s %s)' % (t.k, s)
    if t.op == 'ext':
        return '%s[%d:%d]' % (pp(t.a[0], d - 1), t.k + t.w - 1, t.k)
    if t.op == 'sx':
        return '(sx%d %s)' % (t.w, s)
    if t.op == 'add':
        return '(add %s %s)' % (t.k, s)
    return '(%s %s)' % (t.op, s)


def size(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(x.a)
    return len(seen)


def free_vars(ts):
    seen = set()
    st = list(ts)
    out = []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'v':
            out.append(x)
        st.extend(x.a)
    return out


def rebuild(x, a):
    """same operation on new arguments, through the normalising constructors"""
    op, w = x.op, x.w
    if op in ('c', 'v'):
        return x
    if op == 'cat':
        return cat(a)
    if op == 'ext':
        return ext(a[0], x.k, w)
    if op == 'sx':
        return sx(a[0], w)
    if op == 'not':
        return bnot(a[0])
    if op == 'and':
        return band(*a)
    if op == 'or':
        return bor(*a)
    if op == 'xor':
        return bxor(*a)
    if op == 'add':
        c, cf = x.k
        return lin(c, list(zip(a, cf)), w)
    if op == 'mul':
        r = a[0]
        for y in a[1:]:
            r = mul(r, y)
        return r
    if op == 'shl':
        return shl(*a)
    if op == 'lshr':
        return lshr(*a)
    if op == 'ashr':
        return ashr(*a)
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        return divop(op, a[0], a[1])
    if op == 'eq':
        return eq(*a)
    if op == 'ult':
        return ult(*a)
    if op == 'slt':
        return slt(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'smin':
        return ite(slt(a[0], a[1]), a[0], a[1])
    if op == 'smax':
        return ite(slt(a[0], a[1]), a[1], a[0])
    if op == 'umin':
        return ite(ult(a[0], a[1]), a[0], a[1])
    if op == 'umax':
        return ite(ult(a[0], a[1]), a[1], a[0])
    if op in ('fmin3', 'fmax3'):
        return fminmax(a[0], a[1], a[2], op == 'fmin3')
    if op == 'uf':
        return uf(x.k, a, w)
    if op == 'fp':
        if x.k in ('lt', 'le', 'eq', 'uno') or w == 1:
            return fp(x.k, a, w)
        return fp(x.k, a, w)
    raise ValueError(op)


def subst(root, m, memo):
    """replace subterms by id -> term map `m`"""
    stack = [root]
    while stack:
        y = stack[-1]
        if y.id in memo:
            stack.pop()
            continue
        r = m.get(y.id)
        if r is not None:
            memo[y.id] = r
            stack.pop()
            continue
        todo = [z for z in y.a if z.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        na = [memo[z.id] for z in y.a]
        if all(p is q for p, q in zip(na, y.a)):
            memo[y.id] = y
        else:
            memo[y.id] = rebuild(y, na)
    return memo[root.id]


_fvmemo = {}


def fv(x):
    """frozenset of variable names of a term"""
    r = _fvmemo.get(x.id)
    if r is None:
        r = frozenset(v.k for v in free_vars([x]))
        _fvmemo[x.id] = r
    return r
