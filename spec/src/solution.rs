use crate::types::*;
use crate::compare::FloatCompare;

impl SolutionEvaluation {
    /// (predecessor, successor) tables of a solution
    pub fn links(&self, ctx: &Context, solution: &Vec<Vec<usize>>) -> (Vec<usize>, Vec<usize>) {
        let mut pred = self.predecessors.clone();
        let mut succ = self.successors.clone();
        pred.resize(ctx.problem.nodes.len(), 0);
        succ.resize(ctx.problem.nodes.len(), 0);
        for route in solution {
            for i in 0..route.len() {
                pred[route[i]] = if i == 0 { 0 } else { route[i - 1] };
                succ[route[i]] = if i + 1 == route.len() { 0 } else { route[i + 1] };
            }
        }
        (pred, succ)
    }
}

pub fn route_cost(distance: f64, overload: f64, penalty: f64) -> f64 {
    distance + penalty * (if overload > 0.0 { overload } else { 0.0 })
}
impl RouteEvaluation {
    pub fn is_feasible(&self) -> bool { self.overload.approx_lte(0.0) }
}
impl SolutionEvaluation {
    pub fn new() -> Self {
        SolutionEvaluation { penalized_cost: f64::INFINITY, feasible: false, routes: Vec::new(), predecessors: Vec::new(), successors: Vec::new() }
    }
    pub fn is_feasible(&self) -> bool { self.feasible }
    pub fn evaluate(&mut self, ctx: &Context, solution: &Vec<Vec<usize>>) {
        let dist = &ctx.matrix_provider.distance;
        let penalty = ctx.config.borrow().penalty_capacity;
        let empty = RouteEvaluation { distance: f64::MAX, overload: f64::MAX, penalized_cost: f64::INFINITY };
        self.routes.resize(solution.len(), empty);
        self.predecessors.resize(ctx.problem.nodes.len(), 0);
        self.successors.resize(ctx.problem.nodes.len(), 0);
        let mut feasible = true;
        let mut total = 0.0;
        for r in 0..solution.len() {
            let n = solution[r].len();
            let mut length = 0.0;
            let mut load = 0.0;
            for i in 0..n {
                let node = solution[r][i];
                let before = if i > 0 { solution[r][i - 1] } else { 0 };
                length += dist.get(before, node);
                load += ctx.problem.nodes[node].demand;
                self.predecessors[node] = before;
                self.successors[before] = node;
            }
            let last = if n > 0 { solution[r][n - 1] } else { 0 };
            self.successors[last] = 0;
            length += dist.get(last, 0);
            let overload = load - ctx.problem.vehicle.cap;
            self.routes[r].distance = length;
            self.routes[r].overload = overload;
            self.routes[r].penalized_cost = route_cost(length, overload, penalty);
            total += route_cost(length, overload, penalty);
            if overload.approx_gt(0.0) { feasible = false; }
        }
        self.feasible = feasible;
        self.penalized_cost = total;
    }
}
