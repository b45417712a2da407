"""Shape analysis of the linked routes of the local search.

The heap of the local search is represented by its shape: a fixed number of list nodes linked into
routes, while all numbers (distances, demands, angles, capacity, penalty) stay symbolic.  A transfer
function (a move) is interpreted on every aliasing case of its two positions; the move is loop-free in
its neighbourhood, so cases with longer routes repeat those enumerated.
"""
import os
import sys
import pickle
from chk import *
import rint
import interp as interp_mod
from interp import Interp, State

LSOBJ = ('A', 'ls')
CTX = S('arg', 'ctx')
CTXV = E(S('*', CTX))


def struct(name, **kw):
    return agg(name, None, tuple(kw), tuple(lift(v) for v in kw.values()))


def vec(xs):
    return agg('array', None, tuple(str(i) for i in range(len(xs))), tuple(xs))


def ptr(field, i):
    return mkref(LSOBJ, (('f', field), ('i', const(i))))


def node_ptr(n):
    return ptr('nodes', n)


def start(r):
    return ptr('start_depots', r)


def end(r):
    return ptr('end_depots', r)


def route_ptr(r):
    return ptr('routes', r)


def demand(n):
    return CTXV.problem.nodes[n].demand


CAP = CTXV.problem.vehicle.cap
PEN = E(S('penalty'))
COUNT = E(S('move_count'))


def angle(n):
    return S('angle', const(n))


def seq_values(route):
    """cached values of a route with the given customers"""
    ds, ls = [], []
    d, q = lift(0), lift(0)
    prev = 0
    for n in list(route) + [0]:
        d = add(d, dist(const(prev), const(n)))
        q = add(q, demand(n).t)
        ds.append(d)
        ls.append(q)
        prev = n
    return ds, ls


def route_values(route):
    ds, ls = seq_values(route)
    over = sub(ls[-1], CAP.t)
    cost = add(ds[-1], (PEN * Max(0, E(over))).t)
    sector = S('sector0')
    for n in route:
        sector = S('extend', sector, angle(n))
    return dict(distance=ds[-1], load=ls[-1], overload=over, cost=cost, num_customers=const(len(route)), sector=sector)


def heap(routes, size=None, linked=True, extra=None):
    """the local search holding the given routes, every cached value as defined by the routes"""
    n = size or 1 + max([c for r in routes for c in r] or [0])
    m = len(routes)
    nodes = {c: dict(number=const(c), angle=angle(c), successor=NULL, predecessor=NULL, route=NULL, position=ZERO, last_tested=S('last_tested', const(c)),
                     cum_distance=ZERO, cum_load=ZERO, delta_removal=S('delta_removal', const(c))) for c in range(n)}
    sd = [dict(number=ZERO, angle=ZERO, successor=NULL, predecessor=NULL, route=NULL, position=ZERO, last_tested=S('lts', const(r)), cum_distance=ZERO, cum_load=ZERO, delta_removal=ZERO) for r in range(m)]
    ed = [dict(number=ZERO, angle=ZERO, successor=NULL, predecessor=NULL, route=NULL, position=ZERO, last_tested=S('lte', const(r)), cum_distance=ZERO, cum_load=ZERO, delta_removal=ZERO) for r in range(m)]
    rts = []
    for r, route in enumerate(routes):
        v = route_values(route)
        v.update(index=const(r), start_depot=start(r), end_depot=end(r), last_modified=S('last_modified', const(r)), last_tested_swap_star=S('ltss', const(r)))
        rts.append(v)
        if not linked:
            continue
        chain = [(sd[r], start(r))] + [(nodes[c], node_ptr(c)) for c in route] + [(ed[r], end(r))]
        ds, ls = seq_values(route)
        for i, (x, p) in enumerate(chain):
            x['route'] = route_ptr(r)
            x['position'] = const(i)
            if i:
                x['predecessor'] = chain[i - 1][1]
                x['cum_distance'], x['cum_load'] = ds[i - 1], ls[i - 1]
            if i + 1 < len(chain):
                x['successor'] = chain[i + 1][1]
    mk = lambda d: struct('LinkNode', **d)
    fs = dict(ctx=CTX, nodes=vec([mk(nodes[c]) for c in range(n)]), start_depots=vec([mk(x) for x in sd]), end_depots=vec([mk(x) for x in ed]),
              routes=vec([struct('LinkRoute', **v) for v in rts]), penalty_capacity=PEN.t, move_count=COUNT.t, empty_routes=S('empty_routes'),
              best_inserts=S('best_inserts'), correlation=S('correlation'), granularity=S('granularity'), customers=S('customers'), moves=S('moves'))
    fs.update(extra or {})
    return struct('LocalSearch', **fs)


def m_extend(I, st, f, a):
    I.storep(st, a[0], S('extend', I.loadp(st, a[0]), a[1]))
    return [(UNIT, st)]


def m_secreset(I, st, f, a):
    I.storep(st, a[0], S('sector0'))
    return [(UNIT, st)]


MODELS = {'CircleSector::extend': m_extend, 'CircleSector::reset': m_secreset, 'CircleSector::new': lambda I, st, f, a: [(S('sector0'), st)]}


class Malformed(Exception):
    pass


def machine(k, ls, opaque=(), more=None):
    ms = dict(STDMODELS)
    ms.update(MODELS)
    ms.update(more or {})
    I = Interp(k.prog, opaque=opaque, mode='fork', models=ms)
    I.effects = k.prog.effects()
    st = State()
    st.facts = {}
    st.mem[LSOBJ] = ls
    return I, st


def call(k, f, args, ls, opaque=(), more=None, st=None, I=None):
    """[(value, state)] of a function on the given heap"""
    if I is None:
        I, st = machine(k, ls, opaque, more)
    out = I.exec_fn(f, args, st, f.name)
    k.visited |= I.visited_fns
    if I.undecided:
        raise Undecided('; '.join(I.undecided[:3]))
    return I, out


def lsval(I, st, *proj):
    return I.load(st, LSOBJ, proj)


def ident(p, m):
    """which node a pointer denotes"""
    if not isinstance(p, Ref) or p.a[0] != LSOBJ or len(p.a[1]) != 2:
        return None
    f, i = p.a[1][0][1], p.a[1][1][1]
    if not is_const(i):
        return None
    return f, int(cval(i))


def walk(I, st, r, limit=40):
    """customers of route r, following successors; checks that the list is well formed"""
    out = []
    p = start(r)
    if lsval(I, st, *p.a[1], ('f', 'predecessor')) is not NULL:
        raise Malformed('start depot of route %d has a predecessor' % r)
    prev = p
    for _ in range(limit):
        s = lsval(I, st, *prev.a[1], ('f', 'successor'))
        i = ident(s, 0)
        if i is None:
            raise Malformed('route %d: successor of %s is %s' % (r, ident(prev, 0), 'null' if s is NULL else rep(s)[:60]))
        if lsval(I, st, *s.a[1], ('f', 'predecessor')) is not prev:
            raise Malformed('route %d: predecessor of %s is not %s' % (r, i, ident(prev, 0)))
        if i[0] == 'nodes':
            out.append(i[1])
            prev = s
        elif i == ('end_depots', r):
            if lsval(I, st, *s.a[1], ('f', 'successor')) is not NULL:
                raise Malformed('end depot of route %d has a successor' % r)
            return out
        else:
            raise Malformed('route %d runs into %s' % (r, i))
    raise Malformed('route %d is cyclic' % r)


def same(a, b, facts=None):
    a, b = lift(a), lift(b)
    if a is b:
        return True, ''
    pc = TRUE
    for v, x in (facts or {}).items():
        l = mt(v, TRUE, FALSE)
        pc = band(pc, l if x else bnot(l))
    r, how = rint.equal(a, b, assume_=None if pc is TRUE else pc)
    return r, how


def caches(I, st, routes, problems, stamp=None, changed=None, facts=None):
    """every cached value is that of the customer sequences"""
    def want(label, got, val):
        r, how = same(got, val, facts)
        if r is not True:
            problems.append((r, '%s is %s, must be %s' % (label, cut(rep(got), 160), cut(rep(lift(val)), 160))))
    for r, route in enumerate(routes):
        if changed is not None and r not in changed:
            continue
        v = route_values(route)
        for n, x in v.items():
            want('%s of route %d' % (n, r), lsval(I, st, *route_ptr(r).a[1], ('f', n)), x)
        if stamp is not None:
            want('last_modified of route %d' % r, lsval(I, st, *route_ptr(r).a[1], ('f', 'last_modified')), stamp)
        want('start depot of route %d' % r, lsval(I, st, *route_ptr(r).a[1], ('f', 'start_depot')), start(r))
        want('end depot of route %d' % r, lsval(I, st, *route_ptr(r).a[1], ('f', 'end_depot')), end(r))
        ds, ls = seq_values(route)
        for i, p in enumerate([start(r)] + [node_ptr(c) for c in route] + [end(r)]):
            nm = 'node %s of route %d' % (ident(p, 0), r)
            want('route of ' + nm, lsval(I, st, *p.a[1], ('f', 'route')), route_ptr(r))
            want('position of ' + nm, lsval(I, st, *p.a[1], ('f', 'position')), const(i))
            want('cum_distance of ' + nm, lsval(I, st, *p.a[1], ('f', 'cum_distance')), ds[i - 1] if i else ZERO)
            want('cum_load of ' + nm, lsval(I, st, *p.a[1], ('f', 'cum_load')), ls[i - 1] if i else ZERO)
    e = lsval(I, st, ('f', 'empty_routes'))
    for r, route in enumerate(routes):
        if changed is not None and r not in changed:
            continue
        got = member(e, r)
        if got is None:
            problems.append((None, 'membership of route %d in empty_routes: %s' % (r, cut(rep(e), 200))))
        elif got != (not route):
            problems.append((False, 'route %d %s in empty_routes' % (r, 'is' if got else 'is not')))


def member(e, r):
    """is r in the set after the recorded insertions and removals"""
    while isinstance(e, Sym) and e.h in ('HashSet.insert', 'HashSet.remove'):
        k = e.a[2]
        if isinstance(k, Sym) and k.h == '&':
            k = k.a[1]
        if not is_const(k):
            return None
        if int(cval(k)) == r:
            return e.h == 'HashSet.insert'
        e = e.a[1]
    return None


# ------------------------------------------------------------------- positions
class Case:
    """routes and the two positions of a move"""
    def __init__(self, routes, u, v):
        self.routes, self.u, self.v = routes, u, v

    def ptrs(self):
        return node_ptr(self.u), (start(-self.v - 1) if self.v < 0 else node_ptr(self.v))

    def show(self):
        return 'routes %s, u=%s, v=%s' % (self.routes, self.u, 'depot of route %d' % (-self.v - 1) if self.v < 0 else self.v)

    def place(self, n):
        """(route, position of n within it; the start depot is -1)"""
        if n < 0:
            return -n - 1, -1
        for r, route in enumerate(self.routes):
            if n in route:
                return r, route.index(n)

    def at(self, r, i):
        route = self.routes[r]
        return route[i] if 0 <= i < len(route) else 0


def cases(depth):
    """every pair of positions of two routes"""
    out = []
    same_max, diff = (7, 4) if depth == 'quick' else (9, 6)
    for n in range(1, same_max + 1):
        for flip in ((0,) if n > 3 else (0, 1)):
            rt = list(range(1, n + 1))
            other = [n + 1, n + 2] if n < 3 else []
            routes = [rt, other] if not flip else [other, rt]
            for u in rt:
                for v in rt:
                    if u != v:
                        out.append(Case(routes, u, v))
                out.append(Case(routes, u, -1 - flip))
    for n1 in range(1, diff + 1):
        for n2 in range(0, diff + 1):
            for flip in ((0, 1) if n1 <= 2 and n2 <= 2 else (0,)):
                a = list(range(1, n1 + 1))
                b = list(range(n1 + 1, n1 + n2 + 1))
                routes = [a, b] if not flip else [b, a]
                for u in a:
                    for v in b:
                        out.append(Case(routes, u, v))
                    out.append(Case(routes, u, -1 - (1 - flip)))
    return out


def kind(c):
    r1, i = c.place(c.u)
    r2, j = c.place(c.v)
    if r1 == r2:
        return 'within a route, v %s u' % ('is the depot before' if j < 0 else 'after' if j > i else 'before')
    return 'between routes, v is ' + ('the depot of an empty route' if j < 0 and not c.routes[r2] else 'the depot' if j < 0 else 'a customer')
