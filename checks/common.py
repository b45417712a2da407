"""Vocabulary of the specifications."""
from chk import *

self_ = A('self')
me = self_.d                 # *self


def ctx(i):
    return A('a%d' % i).d


def arg(i):
    return A('a%d' % i)


def seq_at(route, i):
    """customer at position i of a depot-to-depot tour, the depot outside it"""
    n = lift(route.len)
    i = lift(i)
    return E(ite(gt(i, const(-1), True), ite(gt(n, i, True), idx(route.t, i), ZERO), ZERO))


def tour_length(route):
    """depot -> customers in order -> depot"""
    n = route.len
    return D(0, Ite(GtI(n, 0), route[0], 0)) + Sum(n - 1, lambda i: D(route[i], route[i + 1])) + Ite(GtI(n, 0), D(route[n - 1], 0), 0)


def route_load(c, route):
    return Sum(route.len, lambda i: c.problem.nodes[route[i]].demand)


def overload(c, route):
    return route_load(c, route) - c.problem.vehicle.cap


def penalised(dist_, over, pen):
    return dist_ + pen * Max(0, over)
