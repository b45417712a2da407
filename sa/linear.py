"""Implications between conjunctions of linear comparisons, decided exactly (simplex over rationals).
Every monomial is an independent unknown; comparisons are the literals of guarded terms."""
from fractions import Fraction as Q
from terms import *

def row(lit, val):
    """(coefficients, constant, strict) of  sum >= 0 / > 0, or None if the literal is no comparison"""
    h = lit.h
    if h not in ('gt', 'agt', 'gti') or not isinstance(lit.a[1], Poly) and not isinstance(lit.a[1], Sym):
        return None
    co, k = {}, Q(0)
    for m, c in pdict(lit.a[1]).items():
        if m == ():
            k += Q(c)
        else:
            co[m] = co.get(m, Q(0)) + Q(c)
    strict = True       # the tolerance of approximate comparisons is taken as infinitely small
    if h == 'gti' and val:
        return co, k - 1, False
    if not val:
        co = {m: -c for m, c in co.items()}
        k = -k
        strict = False
    return co, k, strict


def feasible(rows):
    """is there an assignment meeting every row: by Motzkin's theorem there is none exactly if
    a non-negative combination of the rows has no unknowns left and contradicts itself"""
    rows = [r for r in rows if r[0] or not (r[1] > 0 or r[1] == 0 and not r[2])]
    names = sorted({m for r in rows for m in r[0]}, key=id)
    # unknown multipliers y >= 0 of the rows, sum y_i a_i = 0; maximise  t = sum of strict multipliers - sum y_i k_i  (bounded)
    # solved as: minimise violation by elimination of the unknowns (Gaussian) and then simplex on the multipliers
    n = len(rows)
    eqs = []
    for m in names:
        e = {i: r[0][m] for i, r in enumerate(rows) if r[0].get(m)}
        if e:
            eqs.append((e, Q(0)))
    # normalisation: sum of multipliers = 1
    eqs.append(({i: Q(1) for i in range(n)}, Q(1)))
    # infeasible iff some y >= 0 with A^T y = 0, sum y = 1 and (k.y < 0, or k.y = 0 with a strict row used)
    v = best_combination(eqs, rows, n)
    return v


def best_combination(eqs, rows, n):
    """False if the rows contradict each other"""
    # phase one: artificial variables n .. n+len(eqs)-1
    m = len(eqs)
    T, basis = [], []
    for j, (e, b) in enumerate(eqs):
        t = dict(e)
        t[n + j] = Q(1)
        t['b'] = b
        T.append(t)
        basis.append(n + j)
    obj = {}
    for t in T:
        for c, x in t.items():
            if c == 'b' or c < n:
                obj[c] = obj.get(c, Q(0)) + x

    def pivot(r, s, objs):
        t = T[r]
        pv = t[s]
        if pv != 1:
            for c in t:
                t[c] = t[c] / pv
        for o in [x for i, x in enumerate(T) if i != r] + objs:
            f = o.get(s)
            if f:
                for c, x in t.items():
                    y = o.get(c, 0) - f * x
                    if y:
                        o[c] = y
                    else:
                        o.pop(c, None)
        basis[r] = s

    def run(o, objs, lim):
        while True:
            s = min((c for c, x in o.items() if c != 'b' and c < lim and x > 0), default=None)
            if s is None:
                return
            best = None
            for i, t in enumerate(T):
                x = t.get(s)
                if x and x > 0:
                    q = (t.get('b', Q(0)) / x, basis[i])
                    if best is None or q < best[0]:
                        best = (q, i)
            if best is None:
                return
            pivot(best[1], s, objs)
    # minimise -k.y first, then among the optimal ones the use of strict rows: lexicographic by a combined objective on demand
    k = {i: -r[1] for i, r in enumerate(rows) if r[1]}
    k['b'] = Q(0)
    st = {i: Q(1) for i, r in enumerate(rows) if r[2]}
    st['b'] = Q(0)
    run(obj, [obj, k, st], n)
    if obj.get('b', Q(0)) > 0:
        return True                  # no combination at all cancels the unknowns
    for i in range(m):               # artificial variables that stayed basic at zero
        if basis[i] >= n:
            s = next((c for c, x in T[i].items() if c != 'b' and c < n and x), None)
            if s is not None:
                pivot(i, s, [k, st])
    run(k, [k, st], n)
    top = -k.get('b', Q(0))          # largest value of -k.y
    if top > 0:
        return False
    if top < 0:
        return True
    # combinations with k.y = 0: is a strict row used by one of them
    keep = {c for c in range(n) if c in basis or not k.get(c)}
    for c in [c for c in st if c != 'b' and c not in keep]:
        del st[c]
    for t in T:
        for c in [c for c in t if c != 'b' and c < n and c not in keep]:
            del t[c]
    run(st, [st], n)
    return not -st.get('b', Q(0)) > 0


def paths(t, facts, want=True):
    """conjunctions of literals under which a condition holds, given facts"""
    if t is TRUE:
        return [{}] if want else []
    if t is FALSE:
        return [] if want else [{}]
    v = t.a[0]
    if v in facts:
        return paths(t.a[1] if facts[v] else t.a[2], facts, want)
    out = []
    for b in (True, False):
        f2 = dict(facts)
        f2[v] = b
        for p in paths(t.a[1] if b else t.a[2], f2, want):
            out.append(dict(p, **{}) | {v: b})
    return out


def implied(facts, cond, cap=200):
    """True: the facts imply the condition; a conjunction of literals: it refutes the condition; None: not known"""
    ps = paths(cond, facts, False)
    if len(ps) > cap:
        return None
    base = [r for r in (row(l, x) for l, x in facts.items()) if r]
    vague = False
    for p in ps:
        extra = [row(l, x) for l, x in p.items()]
        rows = base + [r for r in extra if r]
        if feasible(rows):
            if len(rows) < len(base) + len(extra):
                vague = True
                continue
            return p
    return None if vague else True
