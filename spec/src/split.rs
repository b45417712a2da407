use crate::types::*;
use crate::genetic::*;
use crate::compare::FloatCompare;
use std::collections::VecDeque;

#[derive(Clone)]
pub struct NodeSplit { pub demand: f64, pub distance_depot: f64, pub distance_next: f64 }
pub struct Split {
    pub path_cost: Matrix<f64>,
    pub predecessors: Matrix<usize>,
    pub nodes: Vec<NodeSplit>,
    pub cum_distance: Vec<f64>,
    pub cum_load: Vec<f64>,
    pub vehicle_cap: f64,
    pub penalty_capacity: f64,
}

impl Split {
    pub fn new(ctx: &Context) -> Self {
        let dim = ctx.problem.nodes.len();
        let rows = ctx.config.borrow().num_vehicles as usize + 1;
        Split {
            path_cost: Matrix::new(rows, dim),
            predecessors: Matrix::new(rows, dim),
            nodes: vec![NodeSplit { demand: 0.0, distance_depot: 0.0, distance_next: 0.0 }; dim],
            cum_distance: vec![0.0; dim],
            cum_load: vec![0.0; dim],
            vehicle_cap: ctx.problem.vehicle.cap,
            penalty_capacity: ctx.config.borrow().penalty_capacity,
        }
    }

    /// per-position data of the tour; position 0 is the depot
    pub fn load(&mut self, ctx: &Context, individual: &Individual) {
        let dist = &ctx.matrix_provider.distance;
        self.penalty_capacity = ctx.config.borrow().penalty_capacity;
        let n = ctx.problem.nodes.len();
        let tour = &individual.genotype;
        for i in 1..n {
            self.nodes[i].demand = ctx.problem.nodes[tour[i - 1]].demand;
            self.nodes[i].distance_depot = dist.get(tour[i - 1], 0);
            self.nodes[i].distance_next = if i + 1 < n { dist.get(tour[i - 1], tour[i]) } else { -1e30 };
            self.cum_distance[i] = self.cum_distance[i - 1] + self.nodes[i - 1].distance_next;
            self.cum_load[i] = self.cum_load[i - 1] + self.nodes[i].demand;
        }
    }

    pub fn reset(&mut self, limited_fleet: bool) {
        let rows = if limited_fleet { self.path_cost.rows } else { 1 };
        self.path_cost.set(0, 0, 0.0);
        for row in 0..rows {
            for col in 1..self.path_cost.cols {
                self.path_cost.set(row, col, 1e30);
            }
        }
    }

    /// cost of reaching position j when the last route is the customers at positions i+1..=j
    pub fn propagate(&self, i: usize, j: usize, k: usize) -> f64 {
        let tour = self.nodes[i + 1].distance_depot + (self.cum_distance[j] - self.cum_distance[i + 1]) + self.nodes[j].distance_depot;
        let excess = self.cum_load[j] - self.cum_load[i] - self.vehicle_cap;
        self.path_cost.get(k, i) + tour + self.penalty_capacity * (if excess > 0.0 { excess } else { 0.0 })
    }
    /// i is at least as good a start of a route as j for every later end, whatever the load
    pub fn dominates(&self, i: usize, j: usize, k: usize) -> bool {
        let via_i = self.path_cost.get(k, i) + self.nodes[i + 1].distance_depot + (self.cum_distance[j + 1] - self.cum_distance[i + 1])
            + self.penalty_capacity * (self.cum_load[j] - self.cum_load[i]);
        let via_j = self.path_cost.get(k, j) + self.nodes[j + 1].distance_depot;
        via_j > via_i
    }
    /// j is at least as good a start as the earlier i, for every later end
    pub fn dominates_right(&self, i: usize, j: usize, k: usize) -> bool {
        let via_j = self.path_cost.get(k, j) + self.nodes[j + 1].distance_depot;
        let via_i = self.path_cost.get(k, i) + self.nodes[i + 1].distance_depot + (self.cum_distance[j + 1] - self.cum_distance[i + 1]);
        via_j.approx_lte(via_i)
    }

    pub fn run(&mut self, ctx: &Context, individual: &mut Individual, max_vehicles: u64) {
        let max = std::cmp::max(max_vehicles, ctx.vehicle_lower_bound()) as usize;
        self.load(ctx, individual);
        let done = self.split(ctx, individual, max);
        if !done {
            let done = self.split_limited_fleet(ctx, individual, max);
            if !done {
                let factor = ctx.config.borrow().split_capacity_factor;
                ctx.config.borrow_mut().split_capacity_factor = f64::INFINITY;
                self.split_limited_fleet(ctx, individual, max);
                ctx.config.borrow_mut().split_capacity_factor = factor;
            }
        }
        individual.sort_routes(ctx);
        individual.evaluate(ctx);
    }

    /// relaxation of every segment that starts after `from` and respects the load limit
    fn relax(&mut self, ctx: &Context, tour: &Vec<usize>, from: usize, dim: usize, row: usize, to_row: usize, strict: bool) {
        let cap = ctx.problem.vehicle.cap;
        let limit = cap * ctx.config.borrow().split_capacity_factor;
        let dist = &ctx.matrix_provider.distance;
        let mut load = 0.0;
        let mut cost = 0.0;
        for to in from + 1..dim {
            let c = tour[to - 1];
            let with = load + ctx.problem.nodes[c].demand;
            let fits = if strict { with <= limit } else { with.approx_lte(limit) };
            if !fits { break; }
            load = with;
            cost = if to == from + 1 { dist.get(0, c) } else { cost + dist.get(tour[to - 2], c) };
            let mut total = self.path_cost.get(row, from) + cost + dist.get(c, 0);
            if (load - cap).approx_gt(0.0) { total += (load - cap) * self.penalty_capacity; }
            if total < self.path_cost.get(to_row, to) {
                self.path_cost.set(to_row, to, total);
                self.predecessors.set(to_row, to, from);
            }
        }
    }

    fn sweep(&mut self, dim: usize, first: usize, row: usize, to_row: usize, guard: bool) {
        let mut q: VecDeque<usize> = VecDeque::new();
        q.push_back(first);
        for i in first + 1..dim {
            if guard && q.is_empty() { break; }
            let f = *q.front().unwrap();
            self.path_cost.set(to_row, i, self.propagate(f, i, row));
            self.predecessors.set(to_row, i, f);
            if i < dim - 1 {
                if !self.dominates(*q.back().unwrap(), i, row) {
                    while q.len() > 0 && self.dominates_right(*q.back().unwrap(), i, row) {
                        q.pop_back();
                    }
                    q.push_back(i);
                }
                while q.len() > 1 && self.propagate(q[0], i + 1, row).approx_gte(self.propagate(q[1], i + 1, row)) {
                    q.pop_front();
                }
            }
        }
    }

    pub fn split(&mut self, ctx: &Context, individual: &mut Individual, max_vehicles: usize) -> bool {
        let dim = ctx.problem.nodes.len();
        self.reset(false);
        if ctx.config.borrow().linear_split {
            self.sweep(dim, 0, 0, 0, false);
        } else {
            for from in 0..dim - 1 {
                self.relax(ctx, &individual.genotype, from, dim, 0, 0, false);
            }
        }
        individual.phenotype.clear();
        let mut end = dim - 1;
        while end > 0 {
            let begin = self.predecessors.get(0, end);
            individual.phenotype.push(individual.genotype[begin..end].to_vec());
            end = begin;
        }
        let used = individual.phenotype.len();
        let total = ctx.config.borrow().num_vehicles as usize;
        while individual.phenotype.len() < total {
            individual.phenotype.push(Vec::new());
        }
        used <= max_vehicles
    }

    pub fn split_limited_fleet(&mut self, ctx: &Context, individual: &mut Individual, max_vehicles: usize) -> bool {
        let dim = ctx.problem.nodes.len();
        self.reset(true);
        if ctx.config.borrow().linear_split {
            for k in 0..max_vehicles {
                self.sweep(dim, k, k, k + 1, true);
            }
        } else {
            for k in 0..max_vehicles {
                for from in k..dim - 1 {
                    if self.path_cost.get(k, from) > 1e29 { break; }
                    self.relax(ctx, &individual.genotype, from, dim, k, k + 1, true);
                }
            }
        }
        let last = dim - 1;
        let mut routes = max_vehicles;
        let mut least = self.path_cost.get(max_vehicles, last);
        for k in 1..max_vehicles {
            if self.path_cost.get(k, last) < least {
                least = self.path_cost.get(k, last);
                routes = k;
            }
        }
        individual.phenotype.clear();
        let mut end = last;
        for v in 0..routes {
            let begin = self.predecessors.get(routes - v, end);
            individual.phenotype.insert(0, individual.genotype[begin..end].to_vec());
            end = begin;
        }
        let total = ctx.config.borrow().num_vehicles as usize;
        while individual.phenotype.len() < total {
            individual.phenotype.push(Vec::new());
        }
        end == 0
    }
}
