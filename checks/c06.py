"""Cost and feasibility of a solution are the definition, for every solution."""
from common import *


def solution_cost(c, sol):
    pen = c.config.penalty_capacity
    return Sum(sol.len, lambda r: penalised(tour_length(sol[r]), overload(c, sol[r]), pen))


def solution_feasible(c, sol):
    return All(sol.len, lambda r: ~Agt(overload(c, sol[r]), 0))


def check(k):
    k.rule('the summary of the evaluator equals the definition of cost: tour length plus penalty times positive overload, summed over routes')
    s = k.run('SolutionEvaluation', 'evaluate')
    if s:
        c, sol = ctx(1), arg(2).d
        pen = c.config.penalty_capacity
        out = s.mem(self_)
        k.eq('penalised cost of a solution', out.penalized_cost, solution_cost(c, sol), s)
        k.eq('feasibility of a solution', out.feasible, solution_feasible(c, sol), s)
        k.eq('number of evaluated routes', out.routes.len, sol.len, s)
        k.eq('per-route values', Vec(sol.len, lambda r: out.routes[r].distance), Vec(sol.len, lambda r: tour_length(sol[r])), s)
        k.eq('per-route overload', Vec(sol.len, lambda r: out.routes[r].overload), Vec(sol.len, lambda r: overload(c, sol[r])), s)
        k.eq('per-route cost', Vec(sol.len, lambda r: out.routes[r].penalized_cost),
             Vec(sol.len, lambda r: penalised(tour_length(sol[r]), overload(c, sol[r]), pen)), s)
    s = k.run('', 'route_cost')
    if s:
        k.eq('route cost', s.ret, penalised(arg(0), arg(1), arg(2)), s)
    k.rule('predecessor and successor tables and every stored value equal those of a reference evaluator, for every solution')
    k.refs('SolutionEvaluation::evaluate', 'SolutionEvaluation::new', 'SolutionEvaluation::is_feasible', 'RouteEvaluation::is_feasible',
           'Individual::evaluate', 'Individual::is_feasible', 'Individual::penalized_cost', 'Individual::successor', 'Individual::predecessor')
    return 20
