"""The nine moves of the local search on every aliasing case of their positions."""
from shape import *

DEPOT = ('RelocateSingle', 'RelocateDouble', 'RelocateDoubleReverse', 'TwoOptInterReverse', 'TwoOptInter')
MOVES = DEPOT + ('SwapOneWithOne', 'SwapTwoWithOne', 'SwapTwoWithTwo', 'TwoOptIntraReverse')


def required(name, c):
    """the move must be priced (not just reported as not improving)"""
    r1, i = c.place(c.u)
    r2, j = c.place(c.v)
    n1, n2 = len(c.routes[r1]), len(c.routes[r2])
    same_ = r1 == r2
    if name == 'RelocateSingle':
        return not (same_ and j == i - 1)
    if name in ('RelocateDouble', 'RelocateDoubleReverse'):
        return i + 1 < n1 and not (same_ and j in (i - 1, i + 1))
    if name == 'SwapOneWithOne':
        return not (same_ and abs(i - j) == 1)
    if name == 'SwapTwoWithOne':
        return i + 1 < n1 and not (same_ and j in (i - 1, i + 1, i + 2))
    if name == 'SwapTwoWithTwo':
        return i + 1 < n1 and j + 1 < n2 and not (same_ and abs(i - j) <= 2)
    if name == 'TwoOptIntraReverse':
        return same_ and j > i + 1
    return not same_


def combine(outs):
    """the value of a call that ended in several states, as one guarded value"""
    r = None
    for v, s in outs:
        pc = TRUE
        for l, x in (s.facts or {}).items():
            g = mt(l, TRUE, FALSE)
            pc = band(pc, g if x else bnot(g))
        r = v if r is None else ite(pc, v, r)
    return r


DEPOT_DATA = {demand(0).t: ZERO, dist(ZERO, ZERO): ZERO}


def ground(t):
    """the depot has no demand and lies at distance zero from itself"""
    return subst(t, DEPOT_DATA)


def total(route):
    return E(route_values(route)['cost'])


def study(k, name, want):
    """want: 'delta' or 'shape'"""
    fd, fp = k.fn(name, 'delta', trait='Move'), k.fn(name, 'perform', trait='Move')
    if not fd or not fp:
        return
    todo = [c for c in cases(k.tier) if c.v >= 0 or name in DEPOT]
    groups = {}
    for c in todo:
        g = groups.setdefault(kind(c), [0, [], []])
        ls = heap(c.routes)
        u, v = c.ptrs()
        me_ = S('arg', 'self')
        try:
            I, outs = call(k, fd, [me_, mkref(LSOBJ), u, v], ls)
            if want == 'pure':
                g[0] += 1
                if not outs:
                    raise Undecided('the prediction does not end')
                for _, s in outs:
                    for o, x in impure(I, s, ls):
                        g[1].append('%s: predicting changes %s' % (c.show(), x))
                continue
            d = combine(outs)
            if d is None:
                raise Undecided('no result')
            d = ground(d)
            if is_const(d) and cval(d) >= 0 and (want == 'shape' or not required(name, c)):
                g[0] += want == 'delta'
                continue
            I2, st = machine(k, ls)
            I2, outs2 = call(k, fp, [me_, mkref(LSOBJ), u, v], ls, st=st, I=I2)
            if not outs2:
                raise Undecided('the move does not end')
        except Undecided as e:
            g[2].append('%s: %s' % (c.show(), e))
            continue
        g[0] += 1
        for _, s in outs2:
            if lsval(I2, s, ('f', 'move_count')) is not COUNT.t:
                g[1].append('%s: the move changes the move counter' % c.show())
            try:
                new = [walk(I2, s, r) for r in range(len(c.routes))]
            except Malformed as e:
                g[1].append('%s: %s' % (c.show(), e))
                continue
            if sorted(sum(new, [])) != sorted(sum(c.routes, [])):
                g[1].append('%s: customers afterwards %s' % (c.show(), new))
                continue
            if want == 'delta':
                eff = ZERO
                for a, b in zip(c.routes, new):
                    if a != b:
                        eff = add(eff, sub(total(b).t, total(a).t))
                eff = ground(eff)
                r, how = same_value(d, eff, s.facts)
                if r is not True:
                    g[1 if r is False else 2].append('%s: predicts %s, but the routes become %s which changes the cost by %s; %s' % (
                        c.show(), cut(rep(d), 300), new, cut(rep(eff), 300), how))
            else:
                probs = []
                changed = {r for r in range(len(c.routes)) if new[r] != c.routes[r]} | {c.place(c.u)[0], c.place(c.v)[0]}
                caches(I2, s, new, probs, COUNT.t, changed, s.facts)
                for r, t in probs:
                    g[1 if r is False else 2].append('%s: afterwards %s' % (c.show(), t))
                rest = [r for r in range(len(c.routes)) if r not in changed]
                for r in rest:
                    if lsval(I2, s, *route_ptr(r).a[1]) is not I2.load(State0(ls), LSOBJ, route_ptr(r).a[1]):
                        g[1].append('%s: route %d is changed' % (c.show(), r))
    what = {'pure': 'predicting leaves the lists as they are', 'delta': 'predicted change equals the change made', 'shape': 'routes stay consistent lists of the same customers with exact caches'}[want]
    for lab, (n, bad, und) in sorted(groups.items()):
        label = '%s %s: %s' % (name, lab, what)
        if bad:
            k.fail(label, fp if want == 'shape' else fd, '%d of %d cases; %s' % (len(bad), n, cut(bad[0], 900)))
        elif und:
            k.undecided(label, fp if want == 'shape' else fd, '%d cases; %s' % (len(und), und[0]))
        elif n:
            k.put(label, k.where(fp if want == 'shape' else fd), 'ok', '%d aliasing cases' % n)


def impure(I, s, ls):
    """parts of the heap that differ from the one the call began with"""
    now = s.get(LSOBJ)
    out = [(o, cut(rep(o[1]), 80)) for o in s.mem if o[0] == 'H' and o != LSOBJ and s.get(o) is not S('*', o[1])]
    if now is ls:
        return out
    for f in fields_of(ls, now):
        a, b = read(ls, (('f', f),)), read(now, (('f', f),))
        if a is not b:
            out.append((f, f))
    return out


def fields_of(*vs):
    r = []
    for v in vs:
        while isinstance(v, Overlay):
            r += [k[1] for k, _ in v.a[1] if k[0] == 'f']
            v = v.a[0]
        if isinstance(v, Agg):
            r += list(v.a[2])
    return list(dict.fromkeys(r))


class State0:
    def __init__(self, ls):
        self.ls = ls

    def get(self, o):
        return self.ls


def same_value(a, b, facts):
    if a is b:
        return True, ''
    return same(a, b, facts)


def check(k, want, min_=20):
    k.refs(*[(lambda kk, n=n: study(kk, n, want)) for n in MOVES])
    return min_


def refresh(k):
    """update_route makes every cached value of a route that of its linked sequence, whatever it was before"""
    f = k.fn('LocalSearch', 'update_route')
    if not f:
        return
    bad, und, n = [], [], 0
    for routes in ([[], [1]], [[1], []], [[1, 2], [3]], [[4], [1, 2, 3]]):
        for r, route in enumerate(routes):
            ls = heap(routes)
            for p in [start(r)] + [node_ptr(c) for c in route] + [end(r)]:
                for q in ('cum_distance', 'cum_load', 'position', 'route')[2 * (p is start(r)):]:   # the sums of a start depot are zero from its creation on
                    ls = write(ls, p.a[1] + (('f', q),), S('stale', q, *p.a[1][0][1:]))
            for q in ('distance', 'load', 'num_customers', 'overload', 'sector', 'center_angle', 'last_modified'):
                if q in fields_of(read(ls, route_ptr(r).a[1])):
                    ls = write(ls, route_ptr(r).a[1] + (('f', q),), S('stale', q))
            what = 'route %d of %s' % (r, routes)
            try:
                I, outs = call(k, f, [mkref(LSOBJ), route_ptr(r)], ls)
                if not outs:
                    raise Undecided('the refresh does not end')
            except Undecided as e:
                und.append('%s: %s' % (what, e))
                continue
            for _, s in outs:
                n += 1
                probs = []
                try:
                    new = [walk(I, s, x) for x in range(len(routes))]
                    if new != routes:
                        probs.append((False, 'the lists become %s' % new))
                except Malformed as e:
                    probs.append((False, str(e)))
                caches(I, s, routes, probs, COUNT.t, {r}, s.facts)
                for t, x in probs:
                    (bad if t is False else und).append('%s: %s' % (what, x))
    label = 'LocalSearch::update_route: caches, route links and the time stamp are those of the list'
    if bad:
        k.fail(label, f, cut(bad[0], 900))
    elif und:
        k.undecided(label, f, '%d cases; %s' % (len(und), und[0]))
    else:
        k.put(label, k.where(f), 'ok', '%d cases' % n)
