"""Loading, searching and unloading of the local search, and the combined swap, on concrete list shapes."""
from shape import *
from moves import ground
import linear
from common import me


def inserts(m, n, f):
    """table of insertion places: f(route, node) gives the fields"""
    cell = lambda r, c: struct('ThreeBestInserts', **f(r, c))
    return struct('Matrix', data=vec([vec([cell(r, c) for c in range(n)]) for r in range(m)]), rows=m, cols=n)


def stale(r, c):
    loc = lambda i: struct('InsertLocation', cost=S('stalecost', const(r), const(c), const(i)), node=S('stalenode', const(r), const(c), const(i)))
    return dict(locations=vec([loc(i) for i in range(3)]), last_calculated=S('stalecalc', const(r), const(c)))


LOADS = [
    ([[3], [], [2, 1]], [[1, 2], [3], []]),
    ([[1, 2, 3]], [[3, 1, 2]]),
    ([[1, 2], [3, 4]], [[], [4, 2, 1, 3]]),
    ([[], [], []], [[2], [1, 3], [4]]),
    ([[1], [2], [3], [4]], [[], [], [], [1, 2, 3, 4]]),
]
INDIV = ('H', S('arg', 'individual'))


def load(k):
    f = k.fn('LocalSearch', 'load_individual')
    if not f:
        return
    bad, und, n = [], [], 0
    for old, new in LOADS:
        m = len(old)
        size = 1 + max(sum(old + new, []))
        ls = heap(old, size=size, extra=dict(best_inserts=inserts(m, size, stale)))
        I, st = machine(k, ls)
        ind = S('arg', 'individual')
        st.mem[INDIV] = write1(S('*', ind), ('f', 'phenotype'), vec([vec([const(c) for c in r]) for r in new]))
        try:
            I, outs = call(k, f, [mkref(LSOBJ), mkref(INDIV)], ls, st=st, I=I)
            if not outs:
                raise Undecided('the function does not end')
        except Undecided as e:
            und.append('%s after %s: %s' % (new, old, e))
            continue
        for _, s in outs:
            n += 1
            what = 'loading %s over %s' % (new, old)
            try:
                got = [walk(I, s, r) for r in range(m)]
            except Malformed as e:
                bad.append('%s: %s' % (what, e))
                continue
            if got != new:
                bad.append('%s gives the lists %s' % (what, got))
                continue
            probs = []
            caches(I, s, new, probs, COUNT.t, None, s.facts)
            for r in range(m):
                x = lsval(I, s, *route_ptr(r).a[1], ('f', 'last_tested_swap_star'))
                if x is not const(-1):
                    probs.append((False, 'last_tested_swap_star of route %d is %s, must be -1' % (r, rep(x))))
                for c in range(size):
                    b = (('f', 'best_inserts'), ('f', 'data'), ('i', const(r)), ('i', const(c)))
                    y = lsval(I, s, *b, ('f', 'last_calculated'))
                    if y is not const(-1):
                        probs.append((False, 'the insertion places of customer %d into route %d stay marked as calculated at %s' % (c, r, rep(y))))
            for r, t in probs:
                (bad if r is False else und).append('%s: afterwards %s' % (what, t))
    verdict(k, 'LocalSearch::load_individual: lists, caches and marks are those of the given solution', f, n, bad, und)


def verdict(k, label, f, n, bad, und):
    if bad:
        k.fail(label, f, cut(bad[0], 900))
    elif und:
        k.undecided(label, f, '%d cases; %s' % (len(und), und[0]))
    else:
        k.put(label, k.where(f), 'ok', '%d cases' % n)


def unload(k):
    """the sequences of the lists are written back, and the solution is sorted and evaluated afterwards"""
    f = k.fn('LocalSearch', 'update_individual')
    if not f:
        return
    bad, und, n = [], [], 0
    for routes in ([[1, 2, 3]], [[2, 1], [], [3]], [[], [4, 2], [1], [3]], [[], []]):
        m = len(routes)
        ls = heap(routes)
        I, st = machine(k, ls, opaque=('sort_routes', 'Individual::evaluate'))
        ind = S('arg', 'individual')
        st.mem[INDIV] = write1(S('*', ind), ('f', 'phenotype'), vec([S('oldroute', const(r)) for r in range(m)]))
        try:
            I, outs = call(k, f, [mkref(LSOBJ), mkref(INDIV)], ls, st=st, I=I)
            if not outs:
                raise Undecided('the function does not end')
        except Undecided as e:
            und.append('%s: %s' % (routes, e))
            continue
        what = 'lists %s' % routes
        for _, s in outs:
            n += 1
            ev = [e for e in I.events if e.kind == 'call' and e.name.split('::')[-1] in ('sort_routes', 'evaluate')]
            if [e.name.split('::')[-1] for e in ev] != ['sort_routes', 'evaluate']:
                bad.append('%s: afterwards the calls are %s, must be sort_routes, evaluate' % (what, [e.name for e in ev]))
                continue
            if any(e.args[0] is not mkref(INDIV) for e in ev):
                und.append('%s: sort_routes and evaluate are called on %s' % (what, [rep(e.args[0])[:80] for e in ev]))
                continue
            x = ev[0].snap[0]
            x = x.a[1] if isinstance(x, Sym) and x.h == '&' else x
            for lab, want in (('genotype', vec([const(c) for r in routes for c in r])), ('phenotype', vec([vec([const(c) for c in r]) for r in routes]))):
                r, how = same(read1(x, ('f', lab)), want)
                if r is not True:
                    (bad if r is False else und).append('%s: the %s is %s' % (what, lab, cut(rep(read1(x, ('f', lab))), 300)))
    verdict(k, 'LocalSearch::update_individual: the solution takes the customer sequences of the lists and is re-evaluated', f, n, bad, und)


def insert(k):
    f = k.fn('LinkNode', 'insert_node')
    if not f:
        return
    bad, und, n = [], [], 0
    for routes in ([[1, 2, 3], [4, 5]], [[1], [2]], [[1], []], [[3, 4], [1, 2, 5]]):
        for u in routes[0]:
            for j in range(-1, len(routes[1])):
                after = routes[1][j] if j >= 0 else None
                ls = heap(routes)
                try:
                    I, outs = call(k, f, [node_ptr(u), node_ptr(after) if after else start(1)], ls)
                except Undecided as e:
                    und.append(str(e))
                    continue
                want = [[c for c in routes[0] if c != u], routes[1][:j + 1] + [u] + routes[1][j + 1:]]
                for _, s in outs:
                    n += 1
                    try:
                        got = [walk(I, s, r) for r in range(2)]
                    except Malformed as e:
                        got = str(e)
                    if got != want:
                        bad.append('routes %s: inserting %d after %s gives %s' % (routes, u, after or 'the depot', got))
    verdict(k, 'LinkNode::insert_node: takes the node out and links it after the place', f, n, bad, und)


def detour(a, x, b):
    return add(add(dist(const(a), const(x)), dist(const(x), const(b))), neg(dist(const(a), const(b))))


def m_add(I, st, f, a):
    I.storep(st, a[0], S('offered', I.loadp(st, a[0]), a[1]))
    return [(UNIT, st)]


def m_reset3(I, st, f, a):
    old = I.loadp(st, a[0])
    I.storep(st, a[0], struct('ThreeBestInserts', locations=S('no_places'), last_calculated=read1(old, ('f', 'last_calculated'))))
    return [(UNIT, st)]


def offers(t):
    """(places offered, table they were offered to)"""
    out = []
    while True:
        if isinstance(t, Sym) and t.h == 'offered':
            out.append(t.a[2])
            t = t.a[1]
        elif isinstance(t, Overlay) and all(k == ('f', 'last_calculated') for k, _ in t.a[1]):
            t = t.a[0]
        else:
            return out, t


def preprocess(k):
    """every place of the other route is offered with its exact detour, into a cleared table, when that route changed since; removal gains are exact"""
    f = k.fn('LocalSearch', 'preprocess_insertions')
    if not f:
        return
    bad, und, n = [], [], 0
    for routes in ([[1], [2]], [[1, 2], [3]], [[1], [2, 3, 4]], [[4, 2], [3, 1]]):
        size = 1 + max(sum(routes, []))
        for a, b in ((0, 1), (1, 0)):
            ls = heap(routes, extra=dict(best_inserts=inserts(2, size, stale)))
            I, st = machine(k, ls, more={'ThreeBestInserts::add': m_add, 'ThreeBestInserts::reset': m_reset3})
            what = 'customers of %s into %s' % (routes[a], routes[b])
            try:
                I, outs = call(k, f, [mkref(LSOBJ), route_ptr(a), route_ptr(b)], ls, st=st, I=I)
                if not outs:
                    raise Undecided('the function does not end')
            except Undecided as e:
                und.append('%s: %s' % (what, e))
                continue
            for _, s in outs:
                n += 1
                if [walk(I, s, r) for r in range(2)] != routes:
                    bad.append('%s: the lists change' % what)
                    continue
                full = [0] + routes[a] + [0]
                for p, u in enumerate(routes[a]):
                    d = lsval(I, s, ('f', 'nodes'), ('i', const(u)), ('f', 'delta_removal'))
                    r, how = same(d, neg(detour(full[p], u, full[p + 2])), s.facts)
                    if r is not True:
                        (bad if r is False else und).append('%s: removal gain of %d is %s' % (what, u, cut(rep(d), 200)))
                for c in range(size):
                    for r in range(2):
                        cell = lsval(I, s, ('f', 'best_inserts'), ('f', 'data'), ('i', const(r)), ('i', const(c)))
                        before = struct('ThreeBestInserts', **stale(r, c))
                        fresh = pcof(s)
                        newer = gt(S('last_modified', const(b)), S('stalecalc', const(r), const(c)), True)
                        if r != b or c not in routes[a]:
                            if cell is not before:
                                bad.append('%s: the places of customer %d in route %d change' % (what, c, r))
                            continue
                        if cell is before:
                            ok, how = rint.implies(fresh, bnot(newer))
                            if ok is not True:
                                (bad if ok is False else und).append('%s: the places of customer %d are not recalculated although the route has changed' % (what, c))
                            continue
                        offs, base = offers(cell)
                        lc = read1(cell if isinstance(cell, Overlay) else base, ('f', 'last_calculated'))
                        if read1(base, ('f', 'locations')) is not S('no_places'):
                            bad.append('%s: places are offered to a table that is not cleared first' % what)
                        if lastcalc(cell) is not COUNT.t:
                            bad.append('%s: the table of customer %d is marked as calculated at %s, must be the move counter' % (what, c, cut(rep(lastcalc(cell)), 80)))
                        tour = [None] + routes[b]
                        want = {}
                        for i, v in enumerate(tour):
                            nx = tour[i + 1] if i + 1 < len(tour) else 0
                            want[node_ptr(v) if v else start(b)] = detour(v or 0, c, nx)
                        got = {}
                        for o in offs:
                            got.setdefault(read1(o, ('f', 'node')), []).append(read1(o, ('f', 'cost')))
                        if set(got) != set(want) or any(len(x) != 1 for x in got.values()):
                            bad.append('%s: places offered to customer %d: %s' % (what, c, [rep(o)[-60:] for o in offs]))
                            continue
                        for pl in want:
                            r3, how = same(got[pl][0], want[pl], s.facts)
                            if r3 is not True:
                                (bad if r3 is False else und).append('%s: the place after %s is offered to customer %d at %s' % (what, ident(pl, 0), c, cut(rep(got[pl][0]), 200)))
    verdict(k, 'LocalSearch::preprocess_insertions: all places of a changed route are priced and offered, removal gains are exact', f, n, bad, und)


def lastcalc(cell):
    while True:
        if isinstance(cell, Sym) and cell.h == 'offered':
            cell = cell.a[1]
        else:
            return read1(cell, ('f', 'last_calculated'))


def pcof(s):
    pc = TRUE
    for v, x in (s.facts or {}).items():
        l = mt(v, TRUE, FALSE)
        pc = band(pc, l if x else bnot(l))
    return pc


# ------------------------------------------------------------- combined swap
def put_after(route, place, c):
    i = ident(place, 0)
    j = route.index(i[1]) + 1 if i[0] == 'nodes' else 0
    return route[:j] + [c] + route[j:]


def moved(route, out, new, place, r):
    return put_after([x for x in route if x != out], place[0], new)


def by_arithmetic(st, var):
    """truth of a comparison that follows from infinity or from the comparisons decided so far"""
    if var.h == 'gtv':
        if var.a[1] is INF and var.a[2] is not INF:
            return True
        if var.a[2] is INF:
            return False
    if linear.row(var, True):
        rows = [r for r in (linear.row(l, x) for l, x in st.facts.items()) if r]
        if not linear.feasible(rows + [linear.row(var, True)]):
            return False
        if not linear.feasible(rows + [linear.row(var, False)]):
            return True
    return None


REGIMES = ('both within capacity', 'both overloaded', 'first overloaded', 'first overloaded by less than any customer')


def regime(reg, routes):
    """load situation in which every load comparison is decided"""
    over = [OVER(r) for r in range(2)]
    f = {}

    def fact(x, b=True):
        for p in linear.paths(gt(lift(x), ZERO), {}, b):
            f.update(p)
    small = [demand(c) for r in routes for c in r]
    for d in small:
        fact(d)
    every = small[0]
    for d in small[1:]:
        every = every + d
    for r in range(2):
        if reg == REGIMES[0] or r == 1 and reg != REGIMES[1]:
            fact(-(over[r] + every))
        elif reg == REGIMES[3]:
            fact(over[0])
            for c in routes[0]:
                for v in [0] + routes[1]:
                    fact(demand(c) - over[0] - (demand(v) if v else 0))
        else:
            fact(over[r] - every)
    return f


def m_refresh(I, st, f, a):
    r = ident(a[1], 0)
    if not r or r[0] != 'routes':
        raise Undecided('a route is refreshed through %s' % rep(a[1])[:80])
    try:
        w = repr(walk(I, st, r[1]))
    except Malformed:
        w = 'malformed'
    I.store(st, LSOBJ, (('f', 'routes'), ('i', const(r[1])), ('f', 'last_modified')), S('refreshed', w, I.load(st, LSOBJ, (('f', 'move_count'),))))
    return [(UNIT, st)]


def OVER(r):
    """overload of a route (of any number of further customers)"""
    return E(S('overload', const(r)))


def s_bool(I, st, t):
    """a boolean result in a state that has decided the comparisons it depends on"""
    while isinstance(t, MT):
        x = st.facts.get(t.a[0])
        if x is None and I.decide is not None:
            x = I.decide(st, t.a[0])
        if x is None:
            return None
        t = t.a[1] if x else t.a[2]
    return True if t is TRUE else False if t is FALSE else None


def swap_places(routes, a, v):
    """where a customer may enter route b while v leaves it: after these places"""
    b = routes[1 - a]
    i = b.index(v)
    prev = node_ptr(b[i - 1]) if i else start(1 - a)
    tour = [None] + b
    out = [(prev, b[i - 1] if i else 0, b[i + 1] if i + 1 < len(b) else 0)]
    for j, c in enumerate(tour):
        nx = tour[j + 1] if j + 1 < len(tour) else 0
        if c != v and nx != v:
            out.append((node_ptr(c) if c else start(1 - a), c or 0, nx))
    return out


SHAPES = ([[1], [2]], [[1, 2], [3]], [[1], [2, 3]])


def swap_star(want, tier):
    """jobs: one per shape and load situation"""
    return [(lambda k, sh=sh, reg=reg: swap_star1(k, want, sh, reg)) for sh in SHAPES[:2 if tier == 'quick' else 3] for reg in REGIMES]


def swap_star1(k, want, shape, reg):
    """what = 'price': the applied combination changes the cost by its price, and none considered is cheaper; 'gain': it is applied only if that is an improvement"""
    f = k.fn('SwapStar', 'run')
    if not f:
        return
    bad, und, n = [], [], 0
    for routes in (shape,):
        size = 1 + max(sum(routes, []))
        full = [[0] + r + [0] for r in routes]
        gain = {u: detour(full[r][i], u, full[r][i + 2]) for r in range(2) for i, u in enumerate(routes[r])}
        pick = [(u, v) for u in routes[0] for v in routes[1]]
        opts = [(swap_places(routes, 0, v), swap_places(routes, 1, u)) for u, v in pick]
        rel = {}
        for r in range(2):
            tour = [None] + routes[1 - r]
            rel[r] = [(node_ptr(c) if c else start(1 - r), c or 0, tour[i + 1] if i + 1 < len(tour) else 0) for i, c in enumerate(tour)]
        # one choice of best places per case; each choice is an admissible answer of the place tables
        choices = []
        for i in range(max(len(o[0]) * len(o[1]) for o in opts)):
            choices.append(([(o[0][i % len(o[0])], o[1][(i // len(o[0])) % len(o[1])]) for o in opts], i))
        for ch, ci in choices:
            place = {}
            for (u, v), (pu, pv) in zip(pick, ch):
                place[(u, v)] = pu
                place[(v, u)] = pv

            def table(r, c):
                src = 0 if c in routes[0] else 1
                if c == 0 or src == r:
                    return stale(r, c)
                p = rel[src][ci % len(rel[src])]
                return dict(locations=vec([struct('InsertLocation', cost=detour(p[1], c, p[2]), node=p[0])] + [struct('InsertLocation', cost=S('x', const(c), const(i)), node=S('y', const(c), const(i))) for i in (1, 2)]),
                            last_calculated=S('calc', const(r), const(c)))

            def cheapest(I, st, fi, a):
                u, v = ident(a[1], 0), ident(a[2], 0)
                if not u or not v:
                    raise Undecided('places asked for %s' % rep(a[1])[:60])
                p = place[(u[1], v[1])]
                return [(tup(p[0], detour(p[1], u[1], p[2])), st)]

            def prep(I, st, fi, a):
                """sets the removal gains; the tables are given"""
                r = ident(a[1], 0)[1]
                I.note_prep = getattr(I, 'note_prep', []) + [(r, ident(a[2], 0)[1])]
                for u in routes[r]:
                    I.store(st, LSOBJ, (('f', 'nodes'), ('i', const(u)), ('f', 'delta_removal')), neg(gain[u]))
                return [(UNIT, st)]
            ls = heap(routes, extra=dict(best_inserts=inserts(2, size, table)))
            for r in range(2):
                ls = write(ls, route_ptr(r).a[1] + (('f', 'overload'),), OVER(r).t)
            I, st = machine(k, ls, more={'LocalSearch::cheapest_insert_and_removal': cheapest, 'LocalSearch::preprocess_insertions': prep, 'LocalSearch::update_route': m_refresh})
            I.decide = by_arithmetic
            st.facts = dict(regime(reg, routes))
            what = 'routes %s, %s' % (routes, reg)
            try:
                I, outs = call(k, f, [mkref(LSOBJ), route_ptr(0), route_ptr(1)], ls, st=st, I=I)
                if not outs:
                    raise Undecided('the function does not end')
            except Undecided as e:
                und.append('%s: %s' % (what, e))
                continue
            if set(getattr(I, 'note_prep', [])) != {(0, 1), (1, 0)}:
                bad.append('%s: places are prepared for %s, must be for both directions' % (what, getattr(I, 'note_prep', [])))
            # everything that may be applied
            cand = {}
    
            def excess(r, minus, plus):
                q = OVER(r)
                for c in minus:
                    q = q - demand(c)
                for c in plus:
                    q = q + demand(c)
                return PEN * Max(0, q) - PEN * Max(0, OVER(r))
            for u, v in pick:
                pu, pv = place[(u, v)], place[(v, u)]
                pen = excess(0, [u], [v]) + excess(1, [v], [u])
                rem = -E(gain[u]) - E(gain[v])
                cost = rem + pen + E(detour(pu[1], u, pu[2])) + E(detour(pv[1], v, pv[2]))
                new = [moved(routes[0], u, v, pv, 0), moved(routes[1], v, u, pu, 1)]
                cand[('swap', u, v)] = (cost, new, rem + pen)
            for r in range(2):
                for c in routes[r]:
                    p = rel[r][ci % len(rel[r])]
                    cost = -E(gain[c]) + E(detour(p[1], c, p[2])) + excess(r, [c], []) + excess(1 - r, [], [c])
                    new = [None, None]
                    new[r] = [x for x in routes[r] if x != c]
                    new[1 - r] = put_after(routes[1 - r], p[0], c)
                    cand[('relocate', c)] = (cost, new, None)
            for ret, s in outs:
                n += 1
                try:
                    got = [walk(I, s, r) for r in range(2)]
                except Malformed as e:
                    bad.append('%s: %s' % (what, e))
                    continue
                ok = s_bool(I, s, ret)
                if ok is None:
                    und.append('%s: result %s' % (what, rep(ret)[:80]))
                    continue
                count = lsval(I, s, ('f', 'move_count'))
                if not ok:
                    if got != routes or count is not COUNT.t:
                        bad.append('%s: reports no move, but the lists become %s' % (what, got))
                    elif want == 'price':
                        for nm, (cost, new, filt) in cand.items():
                            better = gt(ZERO, cost.t, kind='agt')
                            if filt is not None:
                                better = band(better, bnot(gt(filt.t, ZERO, kind='agt')))
                            r = linear.implied(s.facts, bnot(better))
                            if r is not True:
                                (und if r is None else bad).append('%s: no move is made although %s would lower the cost' % (what, nm))
                    continue
                probs = []
                if count is not (COUNT + 1).t:
                    probs.append((False, 'the move counter is %s' % rep(count)[:80]))
                for r in range(2):
                    x = lsval(I, s, *route_ptr(r).a[1], ('f', 'last_modified'))
                    if x is not S('refreshed', repr(got[r]), count):
                        probs.append((False, 'route %d is not refreshed' % r))
                for r, t in probs:
                    (bad if r is False else und).append('%s: after the move to %s %s' % (what, got, t))
                match = [(nm, c) for nm, c in cand.items() if c[1] == got]
                eff = ZERO
                for r, (a, b) in enumerate(zip(routes, got)):
                    eff = add(eff, sub(seq_values(b)[0][-1], seq_values(a)[0][-1]))
                    eff = add(eff, excess(r, [c for c in a if c not in b], [c for c in b if c not in a]).t)
                if want == 'gain':
                    r = linear.implied(s.facts, gt(ZERO, eff, kind='agt'))
                    if r is not True:
                        (und if r is None else bad).append('%s: the routes become %s although the cost may not fall' % (what, got))
                    continue
                if not match:
                    bad.append('%s: the routes become %s, which is no exchange with the best places' % (what, got))
                    continue
                nm, (cost, new, _) = match[0]
                r, how = rint.equal(ground(eff), ground(cost.t))
                if r is not True:
                    (bad if r is False else und).append('%s: %s changes the cost by %s' % (what, nm, cut(rep(eff), 200)))
                for o, (oc, on, filt) in cand.items():
                    if on == got or len(match) > 1:
                        continue
                    better = gt(cost.t, oc.t, kind='agt')
                    if filt is not None:
                        better = band(better, bnot(gt(filt.t, ZERO, kind='agt')))
                    r = linear.implied(s.facts, bnot(better))
                    if r is not True:
                        (und if r is None else bad).append('%s: %s is applied although %s is cheaper' % (what, nm, o))
    lab = {'price': 'SwapStar::run: the applied exchange is the cheapest one considered and refreshes both routes',
           'gain': 'SwapStar::run: an exchange is applied only if the cost strictly falls, and marks both routes'}[want]
    verdict(k, '%s (routes of %d and %d, %s)' % (lab, len(shape[0]), len(shape[1]), reg), f, n, bad, und)


# ------------------------------------------------------------------ creation
def kept(v, obj, seen):
    """v holds a pointer to an element of the list obj"""
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, Ref):
        return v.a[0] == obj and len(v.a[1]) > 0
    return any(kept(x, obj, seen) for x in (v.a if isinstance(v, T) else v) if isinstance(x, (T, tuple)))


def pinned(moved, und):
    """model of pushing that notes lists which outgrow their storage while pointers to their elements are kept"""
    import models

    def push(I, st, f, a):
        if isinstance(a[0], Ref) and not a[0].a[1]:
            o = a[0].a[0]
            n = length(I.loadp(st, a[0]))
            cap = I.caps.get(o)
            if cap is not None and is_const(n) and is_const(cap) and cval(n) < cval(cap):
                pass
            elif any(not isinstance(v, Ref) and kept(v, o, set()) for v in list(st.mem.values()) if isinstance(v, T)):
                (moved if cap is not None and is_const(n) and is_const(cap) else und).append('a list of %s elements with room for %s grows at %s while pointers to its elements are kept' % (
                    rep(n), rep(cap) if cap is not None else '?', I.curt['sp']))
        return models.m_push(I, st, f, a)
    return push


def create(k):
    """one list node per problem node, one empty route with its own two depots per vehicle, and the settings of the context"""
    f = k.fn('LocalSearch', 'new')
    if not f:
        return
    bad, und, n = [], [], 0
    for nodes, veh in ((3, 2), (1, 1), (4, 3), (2, 12)):
        moved, unsure = [], []
        I, st = machine(k, struct('none'), opaque=('Moves::new',), more={'Problem::get_angle': lambda I, st, f, a: [(S('angle', a[1]), st)], **{p + 'vec::Vec::push': pinned(moved, unsure) for p in ('std::', 'alloc::')}})
        I.caps = {}
        c = S('arg', 'ctx')
        obj = ('H', c)
        v = S('*', c)
        for p, x in ((('config', 'num_vehicles'), const(veh)), (('problem', 'nodes'), vec([S('pnode', const(i)) for i in range(nodes)]))):
            v = write(v, tuple(('f', q) for q in p), x)
        st.mem[obj] = v
        what = '%d nodes, %d vehicles' % (nodes, veh)
        try:
            out = I.exec_fn(f, [mkref(obj), S('arg', 'multiplier')], st, f.name)
            if I.undecided:
                raise Undecided('; '.join(I.undecided[:2]))
            if not out:
                raise Undecided('the function does not end')
        except Undecided as e:
            und.append('%s: %s' % (what, e))
            continue
        bad += ['%s: %s' % (what, x) for x in moved[:1]]
        und += ['%s: %s' % (what, x) for x in unsure[:1]]
        for r, s in out:
            n += 1
            rd = lambda *p: read(r, tuple(('f', q) if isinstance(q, str) else ('i', const(q)) for q in p))
            probs = []

            def want(lab, got, val):
                if got is not lift(val):
                    t, how = same(got, val, s.facts)
                    if t is not True:
                        probs.append((t, '%s is %s, must be %s' % (lab, cut(rep(got), 200), cut(rep(lift(val)), 200))))
            cfg = E(v).config
            want('number of list nodes', length(rd('nodes')), const(nodes))
            want('number of routes', length(rd('routes')), const(veh))
            want('number of start depots', length(rd('start_depots')), const(veh))
            want('number of end depots', length(rd('end_depots')), const(veh))
            for i in range(nodes):
                want('number of list node %d' % i, rd('nodes', i, 'number'), const(i))
                want('angle of list node %d' % i, rd('nodes', i, 'angle'), angle(i))
            want('customers', rd('customers'), vec([const(i) for i in range(1, nodes)]))
            home = {}
            for i in range(veh):
                want('index of route %d' % i, rd('routes', i, 'index'), const(i))
                for d in ('start_depot', 'end_depot'):
                    x = rd('routes', i, d)
                    if isinstance(x, Ref) and len(x.a[1]) == 1 and is_const(x.a[1][0][1]) and int(cval(x.a[1][0][1])) == i:
                        home.setdefault(d, set()).add(x.a[0])
                    else:
                        probs.append((False if isinstance(x, Ref) else None, '%s of route %d is %s' % (d, i, cut(rep(x), 100))))
                want('start depot %d' % i, rd('start_depots', i, 'number'), ZERO)
                want('end depot %d' % i, rd('end_depots', i, 'number'), ZERO)
            if home and (any(len(x) > 1 for x in home.values()) or home.get('start_depot') == home.get('end_depot')):
                probs.append((False, 'start and end depots of the routes do not lie in two separate lists'))
            want('penalty', rd('penalty_capacity'), cfg.penalty_capacity * E(S('arg', 'multiplier')))
            want('granularity', rd('granularity'), Ite(GtI(cfg.local_search_granularity, width(v)), width(v), cfg.local_search_granularity))
            want('neighbour table', rd('correlation'), E(v).matrix_provider.correlation)
            want('rows of the insertion table', length(rd('best_inserts', 'data')), const(veh))
            want('columns of the insertion table', length(rd('best_inserts', 'data', 0)), const(nodes))
            for t, x in probs:
                (bad if t is False else und).append('%s: the %s' % (what, x))
    verdict(k, 'LocalSearch::new: nodes, routes and depots of the problem, settings of the context', f, n, bad, und)


def width(v):
    return E(read(v, tuple(('f', q) for q in ('matrix_provider', 'correlation', 'width'))))


# ---------------------------------------------------- reference comparisons
_l = me.locations
_three = ~GtI(_l.len, 3) & ~GtI(3, _l.len)
THREE = ['InsertLocation::new', 'InsertLocation::reset', 'ThreeBestInserts::new',
         ('ThreeBestInserts::add', dict(assume_=_three & ~(_l[0].cost > _l[1].cost) & ~(_l[1].cost > _l[2].cost))),
         ('ThreeBestInserts::reset', dict(assume_=_three)), 'LocalSearch::cheapest_insert_and_removal']
RUN = ['LocalSearch::update_penalty', 'LocalSearch::reset', 'LocalSearch::run@LocalSearch::reset,update_penalty,load_individual,search,update_individual',
       'LinkNode::new', 'LinkNode::is_depot', 'LinkRoute::new', 'LinkRoute::is_empty']
