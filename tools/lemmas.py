"""z3 proofs of the lemmas in rtlvc/fplemma.py, for binary32 and binary64."""
import multiprocessing
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from rtlvc import fplemma as L, solve, term as t


def rint(k, x):
    return t.fp(k, [x], x.w)


def lemmas(w):
    x = t.var('x', w)
    absv = L.absv
    X = absv(x)
    C = L.C(w)
    S = t.cat([L.mag(C), t.bit(x, w - 1)])
    add = lambda a, b: t.fp('add', [a, b], w)
    sub = lambda a, b: t.fp('sub', [a, b], w)
    inC = L.lt(X, C)
    yield 'L1', [inC], add(add(X, C), t.flip(C)), rint('nearbyint', X)
    yield 'L2', [inC], sub(add(x, S), S), L.pluszero(rint('nearbyint', x))
    for k in (32, 64):
        r = L.lt(X, L.pow2(k - 1, w))
        cv = t.mk('fp', (t.mk('fp', (x,), k, 'f2s'),), w, 's2f')
        yield 'L3 %d in' % k, [r], cv, L.pluszero(rint('trunc', x))
        yield 'L3 %d out' % k, [t.bnot(r)], cv, t.flip(L.pow2(k - 1, w))
    n = rint('nearbyint', X)
    yield 'L4', [], sub(n, L.step(L.lt(X, n), w)), rint('trunc', X)
    for k, f in L.DEFS.items():
        yield 'L5 ' + k, [], f(x), rint(k, x)
    yield 'L8', [], absv(sub(X, rint('trunc', X))), sub(X, rint('trunc', X))
    y = t.var('y', w)
    q = t.cat([L.mag(y), t.bit(x, w - 1)])
    yield 'L7 add', [], t.mk('fp', (x, q), w, 'add'), L.signed(add(X, absv(y)), x)
    yield 'L7 sub', [], L.absv(sub(x, q)), L.absv(sub(X, absv(y)))
    for k in ('trunc', 'nearbyint'):
        yield 'L6 ' + k, [], t.ite(inC, rint(k, x), x), rint(k, x)


def nanflip(cv, p, q, w):
    m = (1 << (w - 1)) - 1
    inf = L.fpinf(w)
    isn = lambda z: z3.UGT(z & m, inf)
    return z3.Or(p == q, z3.And(isn(p), isn(q)))


def work(a):
    w, i = a
    nm, hy, p, q = list(lemmas(w))[i]
    cv = solve.Conv(True)
    s = z3.Solver()
    s.set('timeout', 1800000)
    for h in hy:
        s.add(cv(h) == 1)
    s.add(z3.Not(nanflip(cv, cv(p), cv(q), w)))
    t0 = time.time()
    r = s.check()
    return 'binary%d %s: %s (%.1f s)%s' % (w, nm, {'unsat': 'proved', 'sat': 'FALSE'}.get(str(r), 'unknown'),
                                          time.time() - t0, ' approx' if cv.approx else '')


if __name__ == '__main__':
    # binary64 L7 takes minutes: with 'quick' it is left to the thorough tier
    jobs = [(w, i) for w in (64, 32) for i, l in enumerate(lemmas(w))
            if not ('quick' in sys.argv and w == 64 and l[0].startswith('L7'))]
    bad = 0
    with multiprocessing.Pool(8) as p:
        for r in p.imap_unordered(work, jobs):
            print(r, flush=True)
            bad += 'proved' not in r
    sys.exit(1 if bad else 0)
