use crate::types::*;
use crate::population::*;
use crate::compare::FloatCompare;
use std::collections::HashSet;

pub use crate::local_search::LocalSearch;
pub use crate::ruin_recreate::RuinRecreate;
pub use crate::split::Split;

#[derive(PartialEq)]
pub enum State { Created, EliteEducation, Initialization, Cycle, Terminated }

pub struct GeneticAlgorithm {
    pub state: State,
    pub population: Population,
    pub ls: LocalSearch,
    pub rr: RuinRecreate,
    pub split: Split,
    pub iterations: u64,
    pub next_penalty_update: u64,
    pub next_log_interval: u64,
    pub child: Individual,
    pub num_initialized: u64,
    pub best_solution: Option<Individual>,
    pub best_iteration: u64,
    pub diversified_start: u64,
    pub diversify: bool,
    pub current_best_solution_cost: f64,
    pub diversity: f64,
}


impl Individual {
    pub fn new(genotype: Vec<usize>, number: u64) -> Self {
        Individual {
            number, genotype, phenotype: Vec::new(), fitness: f64::INFINITY,
            evaluation: SolutionEvaluation { penalized_cost: f64::INFINITY, feasible: false, routes: Vec::new(), predecessors: Vec::new(), successors: Vec::new() },
        }
    }
    pub fn new_random(ctx: &Context, number: u64) -> Self {
        let mut tour: Vec<usize> = Vec::new();
        for c in 1..ctx.problem.nodes.len() { tour.push(c); }
        ctx.random.shuffle(&mut tour[..]);
        let mut x = Individual::new(tour, number);
        let n = ctx.config.borrow().num_vehicles as usize;
        for _ in 0..n { x.phenotype.push(Vec::new()); }
        x
    }
    pub fn num_nonempty_routes(&self) -> usize {
        let mut n = 0;
        for r in 0..self.phenotype.len() { if self.phenotype[r].len() > 0 { n += 1; } }
        n
    }
    pub fn genotype_node(&self, index: usize) -> usize { self.genotype[index - 1] }
}

impl GeneticAlgorithm {
    pub fn new(ctx: &Context) -> Self {
        let population = Population::new(ctx);
        let split = Split::new(ctx);
        let ls = LocalSearch::new(ctx, 1.0);
        let rr = RuinRecreate::new(ctx);
        GeneticAlgorithm {
            state: State::Created, population, split, ls, rr, child: Individual::new_random(ctx, 0),
            iterations: 0, num_initialized: 0, next_penalty_update: 0, next_log_interval: 0, diversified_start: 0, diversify: false,
            best_solution: None, current_best_solution_cost: f64::INFINITY, best_iteration: 0, diversity: 1.0,
        }
    }
    fn crossover_ox(&self, ctx: &Context, parent_one: &Individual, parent_two: &Individual, start: usize, end: usize) -> Individual {
        let mut tour = parent_one.genotype.clone();
        let n = tour.len();
        let mut taken = HashSet::new();
        let mut at = start;
        loop {
            taken.insert(tour[at]);
            let here = at;
            at = if at + 1 == n { 0 } else { at + 1 };
            if here == end { break; }
        }
        for k in 0..parent_two.genotype.len() {
            let gene = parent_two.genotype[k];
            if !taken.contains(&gene) {
                taken.insert(gene);
                tour[at] = gene;
                at = if at + 1 == n { 0 } else { at + 1 };
            }
        }
        Individual::new(tour, self.population.total_individuals_count)
    }

    fn crossover(&self, ctx: &Context, parent_one: &Individual, parent_two: &Individual) -> Individual {
        let n = parent_one.genotype.len();
        let start = ctx.random.range_usize(0, n);
        let mut end = ctx.random.range_usize(0, n);
        while start == end && n != 1 { end = ctx.random.range_usize(0, n); }
        self.crossover_ox(ctx, parent_one, parent_two, start, end)
    }

    fn update_penalty(&mut self, ctx: &Context) {
        self.next_penalty_update += ctx.config.borrow().penalty_update_interval;
        let mut feasible = 0;
        for i in 0..self.population.feasible_history.len() { if self.population.feasible_history[i] { feasible += 1; } }
        let share = feasible as f64 / self.population.feasible_history.len() as f64;
        {
            let mut c = ctx.config.borrow_mut();
            let target = c.feasibility_proportion_target;
            let factor = if share < target - 0.05 { c.penalty_inc_multiplier } else if share > target + 0.05 { c.penalty_dec_multiplier } else { 1.0 };
            let p = c.penalty_capacity * factor;
            c.penalty_capacity = if p < 0.0001 { 0.0001 } else if p > 10_000_000.0 { 10_000_000.0 } else { p };
        }
        for i in 0..self.population.infeasible.population.len() {
            self.population.infeasible.population[i].evaluate(ctx);
        }
        self.population.infeasible.population.sort_by(|a, b| a.penalized_cost().partial_cmp(&b.penalized_cost()).unwrap());
    }

    pub fn update_best(&mut self, ctx: &Context) {
        let cost = self.child.evaluation.penalized_cost;
        if !self.child.evaluation.feasible || !cost.approx_lt(self.current_best_solution_cost) { return; }
        self.best_iteration = self.iterations;
        self.current_best_solution_cost = cost;
        let better = match &self.best_solution { None => true, Some(b) => cost.approx_lt(b.evaluation.penalized_cost) };
        if better { self.best_solution = Some(self.child.clone()); }
        let mut h = ctx.search_history.borrow_mut();
        if cost.approx_lt(h.best_cost) { h.add(ctx, &self.child); }
    }

    pub fn educate(&mut self, ctx: &Context) {
        if ctx.config.borrow().ls_enabled { self.ls.run(ctx, &mut self.child, 1.0); }
        let rnd = ctx.random.real();
        if ctx.config.borrow().rr_mutation && rnd < ctx.config.borrow().rr_probability {
            self.rr.load(ctx, &mut self.child);
            while !self.rr.complete() { self.rr.search(); }
            self.rr.get_best_solution(&mut self.child);
        }
        if !self.child.evaluation.feasible && ctx.random.real() < ctx.config.borrow().repair_probability {
            let first = self.child.clone();
            if ctx.config.borrow().ls_enabled { self.ls.run(ctx, &mut self.child, 10.0); }
            if self.child.evaluation.feasible {
                self.update_best(ctx);
                self.population.add_individual(ctx, self.child.clone(), false);
            }
            self.child = first;
        }
        self.update_best(ctx);
    }

    fn log(&mut self, ctx: &Context) { unimplemented!() }
    fn reset(&mut self, ctx: &Context) {
        self.population = Population::new(ctx);
        self.next_penalty_update = self.iterations;
        self.next_log_interval = self.iterations;
        self.current_best_solution_cost = f64::INFINITY;
        self.best_iteration = self.iterations;
        self.num_initialized = 0;
        self.state = State::Created;
    }
    fn add_individual(&mut self, ctx: &Context, individual: Individual) { self.population.add_individual(ctx, individual, false) }
    pub fn add_initial(&mut self, ctx: &Context, individual: Individual) {
        self.population.add_individual(ctx, individual.clone(), false);
        self.child = individual;
        self.update_best(ctx);
    }
    fn create_initial_individual(&mut self, ctx: &Context) -> Individual {
        let saved = self.child.clone();
        let n = ctx.config.borrow().num_vehicles;
        self.child = Individual::new_random(ctx, self.num_initialized);
        self.split.run(ctx, &mut self.child, n);
        self.educate(ctx);
        let made = self.child.clone();
        self.child = saved;
        made
    }

}

impl crate::context::Metaheuristic for GeneticAlgorithm {
    fn iterate(&mut self, ctx: &Context) {
        if ctx.terminate() { self.state = State::Terminated; }
        if self.state == State::Created {
            if ctx.config.borrow().elite_education && ctx.problem.nodes.len() - 1 > ctx.config.borrow().elite_education_problem_size_limit {
                self.state = State::EliteEducation;
                let n = ctx.config.borrow().num_vehicles;
                self.split.run(ctx, &mut self.child, n);
                self.educate(ctx);
                self.rr.setup_elite_education(ctx);
                self.rr.load(ctx, &mut self.child);
            } else {
                self.state = State::Initialization;
            }
        } else if self.state == State::EliteEducation {
            if self.rr.complete() {
                self.state = State::Initialization;
                ctx.reset_penalty();
                self.rr.get_best_solution(&mut self.child);
                self.update_best(ctx);
                self.population.add_individual(ctx, self.child.clone(), false);
                self.rr.setup_mutation(ctx);
                self.log(ctx);
            } else {
                self.rr.search();
            }
        } else if self.state == State::Initialization {
            if self.num_initialized < ctx.config.borrow().initial_individuals {
                let x = self.create_initial_individual(ctx);
                self.population.add_individual(ctx, x, true);
                self.num_initialized += 1;
            } else {
                self.state = State::Cycle;
            }
        } else if self.state == State::Cycle {
            ctx.next_iteration();
            let one = self.population.get_parent(ctx);
            let two = self.population.get_parent(ctx);
            let routes = one.num_nonempty_routes() as u64;
            self.child = self.crossover(ctx, one, two);
            self.split.run(ctx, &mut self.child, routes);
            self.educate(ctx);
            self.population.add_individual(ctx, self.child.clone(), true);
            if self.iterations >= self.next_penalty_update { self.update_penalty(ctx); }
            if self.iterations >= self.next_log_interval { self.log(ctx); }
            if self.iterations - self.best_iteration > ctx.config.borrow().max_iterations_without_improvement { self.reset(ctx); }
            self.iterations += 1;
        }
    }
    fn terminated(&self) -> bool { self.state == State::Terminated }
}
