"""Tolerance comparisons and the order of solutions."""
from common import *
import rint

NAMES = ('approx_lt', 'approx_lte', 'approx_gt', 'approx_gte', 'approx_eq')


def consts(t):
    out = set()

    def go(x):
        if isinstance(x, Poly):
            for m, c in x.a:
                if not m:
                    out.add(abs(c))
        for y in x.a if isinstance(x, T) else x if isinstance(x, tuple) else ():
            if isinstance(y, (T, tuple)):
                go(y)
    go(t)
    return out


def check(k):
    k.rule('each comparison is decided for every pair of numbers: its summary is a boolean combination of comparisons of the difference of the two numbers with constants, so one representative per interval decides it')
    off = {n: None for n in NAMES}
    tab = {}
    sums = {}
    for n in NAMES:
        s = k.run('f64', n, models=off)
        if s:
            sums[n] = s
    eps = None
    if 'approx_eq' in sums:
        cs = sorted(c for c in consts(sums['approx_eq'].ret_) if c)
        eps = cs[0] if cs else None
        k.ok('equality has a positive tolerance', eps is not None, sums['approx_eq'], 'no tolerance constant in %s' % rep(sums['approx_eq'].ret_))
    if eps:
        k.ok("the tolerance is small", eps * 1000 <= 1, sums['approx_eq'], 'tolerance %s' % eps)
        want = {'approx_lt': lambda d: d < -1, 'approx_lte': lambda d: d < 1, 'approx_gt': lambda d: d > 1, 'approx_gte': lambda d: d > -1, 'approx_eq': lambda d: -1 < d < 1}
        x, y = S('*', S('arg', 'self')), S('arg', 'a1')
        for n, s in sums.items():
            for d in (-1000000, -2, -1.25, -0.75, -0.25, 0, 0.25, 0.75, 1.25, 2, 1000000):
                from fractions import Fraction
                t = subst(s.ret_, {x: add(y, const(Fraction(d) * Fraction(eps)))})
                w = TRUE if want[n](d) else FALSE
                lab = '%s with first minus second = %s tolerances' % (n, d)
                if t is TRUE or t is FALSE:
                    k.ok(lab, t is w, s, 'is %s, must be %s' % (rep(t), rep(w)))
                else:
                    k.eq(lab, t, w, s)
        tie = {}
        for n, s in sums.items():
            for d in (-1, 1):
                tie[n, d] = subst(s.ret_, {x: add(y, mul(const(d), const(eps)))})
        for d in (-1, 1):
            hits = [n for n in ('approx_lt', 'approx_eq', 'approx_gt') if tie.get((n, d)) is TRUE]
            k.ok('at a difference of exactly %d tolerance at most one of less, equal, greater holds' % d, len(hits) <= 1, 'utils/comparison.rs', 'hold: %s' % hits)
    k.rule('the order of individuals is the order of their exact cost and agrees with equality')
    k.refs('Individual::cmp', 'Individual::partial_cmp', 'Individual::eq', 'Individual::penalized_cost')
    return 60
