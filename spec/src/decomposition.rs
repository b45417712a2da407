//! Decomposition: solving a subproblem of the global solution and putting it back.
use crate::context::Metaheuristic;
use crate::types::*;
use crate::genetic::*;
use crate::ruin_recreate::*;
use crate::population::*;
use crate::compare::FloatCompare;
use std::collections::HashSet;

#[derive(PartialEq)]
enum State { NotInitialized, Cycle, Terminated }

pub struct DecomposedGeneticAlgorithm { state: State, global_solution: Individual, global_ga: GeneticAlgorithm }

impl DecomposedGeneticAlgorithm {
    pub fn new(ctx: &Context) -> Self {
        let first = Individual::new_random(ctx, 0);
        let ga = GeneticAlgorithm::new(ctx);
        DecomposedGeneticAlgorithm { state: State::NotInitialized, global_solution: first, global_ga: ga }
    }

    fn create_global_solution(&mut self, ctx: &Context) -> Individual {
        let fleet = ctx.config.borrow().num_vehicles;
        let mut tour = Individual::new_random(ctx, 0);
        { let mut c = ctx.config.borrow_mut(); c.penalty_capacity = c.penalty_capacity * 1_000_000.0; }
        self.global_ga.split.run(ctx, &mut tour, fleet);
        self.global_ga.child = tour;
        self.global_ga.educate(ctx);
        self.global_ga.rr.set_acceptance(AcceptanceCriterion::Iteration(IterationSchedule::new(10.0, 100_000)));
        self.global_ga.rr.load(ctx, &mut self.global_ga.child);
        loop {
            let before = self.global_ga.rr.best_cost();
            self.global_ga.rr.acceptance.reset();
            loop {
                if self.global_ga.rr.complete() { break; }
                if ctx.terminate() { break; }
                self.global_ga.rr.search();
            }
            self.global_ga.rr.get_best_solution(&mut self.global_ga.child);
            if self.global_ga.rr.best_cost().approx_gte(before) { break; }
            if ctx.terminate() { break; }
        }
        let mut result = self.global_ga.child.clone();
        { let mut c = ctx.config.borrow_mut(); c.penalty_capacity = c.penalty_capacity / 1_000_000.0; }
        result.evaluate(ctx);
        result
    }

}

impl crate::context::Metaheuristic for DecomposedGeneticAlgorithm {
    fn iterate(&mut self, ctx: &Context) {
        if ctx.terminate() { self.state = State::Terminated; return; }
        if self.state == State::Terminated { return; }
        if self.state == State::NotInitialized {
            self.global_solution = self.create_global_solution(ctx);
            self.state = State::Cycle;
            return;
        }
        ctx.next_iteration();
        let mut d = Decomposition::new(&mut self.global_solution, ctx);
        d.run();
        d.finish(ctx);
        self.global_ga.child = self.global_solution.clone();
        self.global_ga.update_best(ctx);
        self.global_ga.rr.acceptance.reset();
        self.global_ga.rr.load(ctx, &mut self.global_ga.child);
        loop {
            if self.global_ga.rr.complete() { break; }
            if ctx.terminate() { break; }
            self.global_ga.rr.search();
        }
        self.global_ga.rr.get_best_solution(&mut self.global_ga.child);
        self.global_ga.update_best(ctx);
        self.global_solution = self.global_ga.child.clone();
    }

    fn terminated(&self) -> bool { self.state == State::Terminated }
}

pub struct Decomposition<'a> { pub global: &'a mut Individual, pub mapping: Vec<usize>, pub ctx: Context, pub solution: Individual }

impl<'a> Decomposition<'a> {
    pub fn new(global: &'a mut Individual, ctx: &Context) -> Self {
        let (mut part, mapping) = Self::decompose_global(&mut *global, ctx);
        let sub = ctx.from_mapping(&mapping[..]);
        part.sort_routes(&sub);
        part.evaluate(&sub);
        Decomposition { global, mapping, ctx: sub, solution: part }
    }

    pub fn run(&mut self) {
        self.ctx.config.borrow_mut().elite_education = false;
        self.ctx.config.borrow_mut().max_iterations = Some(2000);
        let mut ga = GeneticAlgorithm::new(&self.ctx);
        ga.add_initial(&self.ctx, self.solution.clone());
        loop {
            if ga.terminated() { break; }
            ga.iterate(&self.ctx);
        }
        let fleet = self.ctx.config.borrow().num_vehicles as usize;
        let used = self.global.num_nonempty_routes();
        let left = if fleet < used { 0 } else { fleet - used };
        match ga.best_solution {
            None => {}
            Some(best) => { if !(best.num_nonempty_routes() > left) { self.solution = best; } }
        }
    }

    pub fn finish(self, ctx: &Context) {
        let mut routes: Vec<Vec<usize>> = Vec::new();
        for r in 0..self.global.phenotype.len() {
            if self.global.phenotype[r].len() > 0 { routes.push(self.global.phenotype[r].clone()); }
        }
        for r in 0..self.solution.phenotype.len() {
            if self.solution.phenotype[r].len() > 0 {
                let mut back = Vec::new();
                for i in 0..self.solution.phenotype[r].len() { back.push(self.mapping[self.solution.phenotype[r][i]]); }
                routes.push(back);
            }
        }
        let fleet = ctx.config.borrow().num_vehicles as usize;
        while routes.len() < fleet { routes.push(Vec::new()); }
        let mut tour = Vec::new();
        for r in 0..routes.len() { for i in 0..routes[r].len() { tour.push(routes[r][i]); } }
        self.global.phenotype = routes;
        self.global.genotype = tour;
        self.global.sort_routes(ctx);
        self.global.evaluate(ctx);
    }

    fn decompose_global(global: &mut Individual, ctx: &Context) -> (Individual, Vec<usize>) {
        let mut route_of = vec![0; ctx.problem.dim()];
        for r in 0..global.phenotype.len() {
            for i in 0..global.phenotype[r].len() { route_of[global.phenotype[r][i]] = r; }
        }
        let seed = ctx.random.range_usize(0, global.genotype.len());
        let want = ctx.config.borrow().decomposed_problem_min_size as usize;
        let mut candidates: Vec<usize> = vec![seed];
        for &c in ctx.matrix_provider.correlation.get(seed) { candidates.push(c); }
        let mut customers: HashSet<usize> = HashSet::new();
        let mut routes: HashSet<usize> = HashSet::new();
        for k in 0..candidates.len() {
            if customers.len() >= want { break; }
            let r = route_of[candidates[k]];
            if !routes.contains(&r) {
                for i in 0..global.phenotype[r].len() { customers.insert(global.phenotype[r][i]); }
                routes.insert(r);
            }
        }
        let mut part: Vec<Vec<usize>> = Vec::new();
        for r in routes.iter() { part.push(global.phenotype[*r].clone()); }
        let mut mapping = vec![0; customers.len() + 1];
        let mut next = 1;
        for r in 0..part.len() {
            for i in 0..part[r].len() {
                mapping[next] = part[r][i];
                part[r][i] = next;
                next += 1;
            }
        }
        let mut tour = Vec::new();
        for r in 0..part.len() { for i in 0..part[r].len() { tour.push(part[r][i]); } }
        let spare = (part.len() as f64 / 10.0 + 2.0).round() as usize;
        for _ in 0..spare { part.push(Vec::new()); }
        let mut sub = Individual::empty();
        sub.genotype = tour;
        sub.phenotype = part;
        let mut rest = Vec::new();
        for i in 0..global.genotype.len() {
            if !customers.contains(&global.genotype[i]) { rest.push(global.genotype[i]); }
        }
        let mut kept = Vec::new();
        for r in 0..global.phenotype.len() {
            if !routes.contains(&r) { kept.push(global.phenotype[r].clone()); }
        }
        global.genotype = rest;
        global.phenotype = kept;
        (sub, mapping)
    }
}
