use crate::types::*;
use crate::compare::FloatCompare;
use std::collections::HashSet;
use std::time::Duration;

#[derive(Clone)]
pub struct NodeLocation { pub route_index: usize, pub node_index: usize }
#[derive(Clone)]
pub struct Route { pub nodes: Vec<usize>, pub distance: f64, pub overload: f64 }
impl NodeLocation {
    pub fn new(route_index: usize, node_index: usize) -> Self { NodeLocation { route_index, node_index } }
    pub fn empty() -> Self { NodeLocation { route_index: 0, node_index: 0 } }
    pub fn update(&mut self, route_index: usize, node_index: usize) { *self = NodeLocation { route_index, node_index }; }
    pub fn update_from_other(&mut self, other: &Self) { *self = NodeLocation { route_index: other.route_index, node_index: other.node_index }; }
}
/// the node in front of a position, and the node at a position; the depot beyond both ends
fn before(nodes: &Vec<usize>, at: usize) -> usize { if at == 0 { 0 } else { nodes[at - 1] } }
fn at(nodes: &Vec<usize>, at: usize) -> usize { if at == nodes.len() { 0 } else { nodes[at] } }
impl Route {
    pub fn empty() -> Self { Route { nodes: Vec::new(), distance: 0.0, overload: 0.0 } }
    pub fn remove(&mut self, index: usize, ctx: &Context) -> usize {
        let d = &ctx.matrix_provider.distance;
        let (a, x, b) = (before(&self.nodes, index), self.nodes[index], at(&self.nodes, index + 1));
        self.distance += d.get(a, b) - d.get(a, x) - d.get(x, b);
        self.overload -= ctx.problem.nodes[x].demand;
        self.nodes.remove(index);
        x
    }
    pub fn delta_distance(&self, index: usize, node: usize, ctx: &Context) -> f64 {
        let d = &ctx.matrix_provider.distance;
        let (a, b) = (before(&self.nodes, index), at(&self.nodes, index));
        d.get(a, node) + d.get(node, b) - d.get(a, b)
    }
    pub fn add(&mut self, index: usize, node: usize, ctx: &Context) {
        let d = &ctx.matrix_provider.distance;
        let (a, b) = (before(&self.nodes, index), at(&self.nodes, index));
        self.distance += d.get(a, node) + d.get(node, b) - d.get(a, b);
        self.overload += ctx.problem.nodes[node].demand;
        self.nodes.insert(index, node);
    }
    pub fn update_from_other(&mut self, other: &Self) {
        *self = Route { nodes: other.nodes.clone(), distance: other.distance, overload: other.overload };
    }
}

#[derive(Clone)]
pub struct RuinRecreateSolution {
    pub routes: Vec<Route>,
    pub unassigned: Vec<usize>,
    pub ruined_routes: HashSet<usize>,
    pub locations: Vec<NodeLocation>,
    pub cost: f64,
}
fn total(routes: &Vec<Route>, penalty: f64) -> f64 {
    let mut c = 0.0;
    for r in 0..routes.len() { c += routes[r].distance + penalty * if routes[r].overload > 0.0 { routes[r].overload } else { 0.0 }; }
    c
}
impl RuinRecreateSolution {
    pub fn new(ctx: &Context) -> Self {
        RuinRecreateSolution {
            routes: vec![Route::empty(); ctx.config.borrow().num_vehicles as usize],
            unassigned: Vec::new(),
            ruined_routes: HashSet::new(),
            locations: vec![NodeLocation::empty(); ctx.problem.nodes.len()],
            cost: f64::INFINITY,
        }
    }
    pub fn from(&mut self, other: &Self) {
        self.cost = other.cost;
        for i in 0..self.locations.len() { self.locations[i] = NodeLocation { route_index: other.locations[i].route_index, node_index: other.locations[i].node_index }; }
        for i in 0..self.routes.len() {
            self.routes[i].nodes = other.routes[i].nodes.clone();
            self.routes[i].distance = other.routes[i].distance;
            self.routes[i].overload = other.routes[i].overload;
        }
    }
    pub fn load(&mut self, individual: &Individual) {
        assert!(individual.phenotype.len() == self.routes.len());
        for r in 0..self.routes.len() {
            self.routes[r].nodes = individual.phenotype[r].clone();
            self.routes[r].distance = individual.evaluation.routes[r].distance;
            self.routes[r].overload = individual.evaluation.routes[r].overload;
            for i in 0..individual.phenotype[r].len() {
                self.locations[individual.phenotype[r][i]] = NodeLocation { route_index: r, node_index: i };
            }
        }
    }
    pub fn is_feasible(&self) -> bool {
        let mut over = 0.0;
        for r in 0..self.routes.len() { over += if self.routes[r].overload > 0.0 { self.routes[r].overload } else { 0.0 }; }
        over.approx_eq(0.0)
    }
    pub fn evaluate<'a, I: Iterator<Item = &'a usize>>(&mut self, ctx: &Context, updated_routes: I) {
        self.cost = total(&self.routes, ctx.config.borrow().penalty_capacity);
        for r in updated_routes {
            for i in 0..self.routes[*r].nodes.len() {
                let c = self.routes[*r].nodes[i];
                self.locations[c] = NodeLocation { route_index: *r, node_index: i };
            }
        }
    }
    pub fn reevaluate(&mut self, ctx: &Context) { self.cost = total(&self.routes, ctx.config.borrow().penalty_capacity); }
}

pub enum AcceptanceCriterion { Iteration(IterationSchedule), Time(TimeSchedule) }
impl AcceptanceCriterion {
    pub fn accept(&self, new_cost: f64, old_cost: f64, random: &Random) -> bool {
        match self { AcceptanceCriterion::Iteration(s) => s.accept(new_cost, old_cost, random), AcceptanceCriterion::Time(s) => s.accept(new_cost, old_cost, random) }
    }
    pub fn update(&mut self) { match self { AcceptanceCriterion::Iteration(s) => s.update(), AcceptanceCriterion::Time(s) => s.update() } }
    pub fn completed(&self) -> bool { match self { AcceptanceCriterion::Iteration(s) => s.completed(), AcceptanceCriterion::Time(s) => s.completed() } }
    pub fn reset(&mut self) { match self { AcceptanceCriterion::Iteration(s) => s.reset(), AcceptanceCriterion::Time(s) => s.reset() } }
}

pub trait Ruin { fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution); }
pub trait Recreate { fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution); }
pub struct AdjacentStringRemoval { pub cavg: usize, pub lmax: usize, pub alpha: f64 }
pub struct GreedyBlink { pub beta: f64 }

pub struct RuinRecreate {
    pub ctx: &'static Context,
    pub ruin: Box<dyn Ruin>,
    pub recreate: Box<dyn Recreate>,
    pub solution: RuinRecreateSolution,
    pub current_solution: RuinRecreateSolution,
    pub best_solution: Option<RuinRecreateSolution>,
    pub acceptance: AcceptanceCriterion,
    pub update_penalty: bool,
}
fn rounds(gamma: f64, ctx: &Context) -> usize { (gamma * (ctx.problem.nodes.len() - 1) as f64).round() as usize }
impl RuinRecreate {
    pub fn new(ctx: &Context) -> Self {
        RuinRecreate {
            ctx: unsafe { &*(ctx as *const Context) },
            ruin: Box::new(AdjacentStringRemoval { cavg: ctx.config.borrow().average_ruin_cardinality, lmax: ctx.config.borrow().max_ruin_string_length, alpha: 0.01 }),
            recreate: Box::new(GreedyBlink { beta: 0.01 }),
            solution: RuinRecreateSolution::new(ctx),
            current_solution: RuinRecreateSolution::new(ctx),
            best_solution: None,
            acceptance: AcceptanceCriterion::Iteration(IterationSchedule::new(ctx.config.borrow().rr_start_temp, rounds(ctx.config.borrow().rr_gamma, ctx))),
            update_penalty: false,
        }
    }
    pub fn setup_elite_education(&mut self, ctx: &Context) {
        let c = ctx.config.borrow();
        let start = c.elite_education_start_temp;
        self.acceptance = if c.elite_education_time_based {
            AcceptanceCriterion::Time(TimeSchedule::new(start, Duration::from_secs_f64(c.time_limit as f64 * c.elite_education_time_fraction)))
        } else {
            AcceptanceCriterion::Iteration(IterationSchedule::new(start, rounds(c.elite_education_gamma, ctx)))
        };
        self.update_penalty = true;
    }
    pub fn set_acceptance(&mut self, acceptance: AcceptanceCriterion) { self.acceptance = acceptance; }
    pub fn setup_mutation(&mut self, ctx: &Context) {
        let c = ctx.config.borrow();
        self.acceptance = AcceptanceCriterion::Iteration(IterationSchedule::new(c.rr_start_temp, rounds(c.rr_gamma, ctx)));
        self.update_penalty = false;
    }
    pub fn load(&mut self, ctx: &Context, individual: &mut Individual) {
        self.ctx = unsafe { &*(ctx as *const Context) };
        self.solution.load(individual);
        let all: Vec<usize> = (0..self.solution.routes.len()).collect();
        self.solution.evaluate(self.ctx, all.iter());
        self.acceptance.reset();
        self.current_solution = self.solution.clone();
        self.best_solution = Some(self.solution.clone());
    }
    pub fn complete(&self) -> bool { self.acceptance.completed() }
    fn update_best(&mut self) {
        self.best_solution = Some(self.current_solution.clone());
        let found = &self.current_solution;
        let mut h = self.ctx.search_history.borrow_mut();
        if found.cost.approx_lt(h.best_cost) && found.is_feasible() {
            let mut x = Individual::new_random(self.ctx, 0);
            self.update_individual(found, &mut x);
            h.add(self.ctx, &x);
        }
    }
    pub fn search(&mut self) {
        for round in 1..1001 {
            if round == 1000 && self.update_penalty {
                {
                    let mut c = self.ctx.config.borrow_mut();
                    let factor = if self.solution.is_feasible() { c.penalty_dec_multiplier } else { c.penalty_inc_multiplier };
                    c.penalty_capacity = c.penalty_capacity * factor;
                }
                self.solution.reevaluate(self.ctx);
                self.current_solution.reevaluate(self.ctx);
                if let Some(b) = &mut self.best_solution { b.reevaluate(self.ctx); }
            }
            let old = self.current_solution.cost;
            self.ruin.run(self.ctx, &mut self.current_solution);
            self.recreate.run(self.ctx, &mut self.current_solution);
            let new = self.current_solution.cost;
            if self.acceptance.accept(new, old, &self.ctx.random) {
                let better = match &self.best_solution { None => true, Some(b) => new.approx_lt(b.cost) };
                if better { self.update_best(); }
                self.solution.from(&self.current_solution);
            }
            self.current_solution.from(&self.solution);
            self.acceptance.update();
            if self.acceptance.completed() { return; }
        }
    }
    pub fn get_solution(&self, individual: &mut Individual) { self.update_individual(&self.solution, individual); }
    pub fn get_best_solution(&self, individual: &mut Individual) {
        match &self.best_solution { Some(b) => self.update_individual(b, individual), None => {} }
    }
    pub fn best_cost(&self) -> f64 { match &self.best_solution { Some(b) => b.cost, None => f64::INFINITY } }
    fn update_individual(&self, solution: &RuinRecreateSolution, individual: &mut Individual) {
        assert!(solution.unassigned.len() == 0);
        individual.genotype = Vec::new();
        for r in 0..solution.routes.len() {
            individual.phenotype[r] = solution.routes[r].nodes.clone();
            for i in 0..solution.routes[r].nodes.len() { individual.genotype.push(solution.routes[r].nodes[i]); }
        }
        individual.sort_routes(self.ctx);
        individual.evaluate(self.ctx);
    }
}

impl GreedyBlink {
    pub fn sort_unassigned(&self, ctx: &Context, solution: &mut RuinRecreateSolution) {
        let k = ctx.random.range_usize(0, 11);
        if k >= 11 { unreachable!() }
        let d = &ctx.matrix_provider.distance;
        let n = &ctx.problem.nodes;
        if k < 4 { ctx.random.shuffle(&mut solution.unassigned[..]) }
        else if k < 8 { solution.unassigned.sort_by(|&a, &b| n[b].demand.partial_cmp(&n[a].demand).unwrap()) }
        else if k < 10 { solution.unassigned.sort_by(|&a, &b| d.get(b, 0).partial_cmp(&d.get(a, 0)).unwrap()) }
        else { solution.unassigned.sort_by(|&a, &b| d.get(a, 0).partial_cmp(&d.get(b, 0)).unwrap()) }
    }
}
impl Recreate for GreedyBlink {
    fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution) {
        self.sort_unassigned(ctx, solution);
        let mut open = solution.ruined_routes.clone();
        while solution.unassigned.len() > 0 {
            let customer = solution.unassigned.remove(0);
            let q = ctx.problem.nodes[customer].demand;
            // cheapest place on a route touched in this round that keeps within capacity
            let mut place: Option<usize> = None;
            let (mut least, mut where_) = (f64::MAX, 0);
            for &r in open.iter() {
                if (solution.routes[r].overload + q).approx_lte(0.0) {
                    for i in 0..solution.routes[r].nodes.len() + 1 {
                        let d = solution.routes[r].delta_distance(i, customer, ctx);
                        if d.approx_lt(least) { least = d; where_ = i; place = Some(r); }
                    }
                }
            }
            if place.is_none() {
                least = f64::MAX;
                where_ = 0;
                for r in 0..solution.routes.len() {
                    let over = solution.routes[r].overload + q;
                    let fee = ctx.config.borrow().penalty_capacity * if over > 0.0 { over } else { 0.0 };
                    for i in 0..solution.routes[r].nodes.len() + 1 {
                        let c = solution.routes[r].delta_distance(i, customer, ctx) + fee;
                        if c.approx_lt(least) { least = c; where_ = i; place = Some(r); }
                    }
                }
            }
            let r = place.unwrap();
            solution.routes[r].add(where_, customer, ctx);
            open.insert(r);
        }
        solution.evaluate(ctx, open.iter());
        solution.ruined_routes.clear();
    }
}

fn lowest_start(at: usize, size: usize) -> usize { if at + 1 > size { at + 1 - size } else { 0 } }
impl AdjacentStringRemoval {
    pub fn new(ctx: &Context) -> Self {
        AdjacentStringRemoval { cavg: ctx.config.borrow().average_ruin_cardinality, lmax: ctx.config.borrow().max_ruin_string_length, alpha: 0.01 }
    }
    fn average_tour_cardinality(&self, solution: &RuinRecreateSolution) -> f64 {
        let mut customers = 0.0;
        for r in 0..solution.routes.len() { customers += solution.routes[r].nodes.len() as f64; }
        (customers / solution.routes.len() as f64).round()
    }
    fn ruin_route(&self, ctx: &Context, solution: &mut RuinRecreateSolution, node: usize, route_number: usize, lt: usize) {
        let at = solution.locations[node].node_index;
        let len = solution.routes[route_number].nodes.len();
        if ctx.random.real() < 0.5 {
            let lo = (at as i32 - lt as i32 + 1).max(0) as usize;
            let hi = (len as i32 - lt as i32).min(at as i32) as usize;
            let start = if lo < hi { ctx.random.range_usize(lo, hi + 1) } else { lo };
            for _ in 0..lt {
                let x = solution.routes[route_number].remove(start, ctx);
                solution.unassigned.push(x);
            }
        } else {
            let spare = len - lt;
            let mut kept = 0;
            if spare > 0 {
                kept = 1;
                while kept < spare && ctx.random.real() > self.alpha { kept += 1; }
            }
            let size = lt + kept;
            let lo = (at as i32 - size as i32 + 1).max(0) as usize;
            let hi = (len as i32 - size as i32).min(at as i32) as usize;
            let start = if lo < hi { ctx.random.range_usize(lo, hi + 1) } else { lo };
            let hole = ctx.random.range_usize(start, start + lt);
            let mut i = start + size - 1;
            while i >= start {
                if i < hole || i >= hole + kept {
                    let x = solution.routes[route_number].remove(i, ctx);
                    solution.unassigned.push(x);
                }
                if i == 0 { break; }
                i -= 1;
            }
        }
        solution.ruined_routes.insert(route_number);
    }
}
impl Ruin for AdjacentStringRemoval {
    fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution) {
        let longest = self.average_tour_cardinality(solution).min(self.lmax as f64);
        let most = 4.0 * self.cavg as f64 / (longest + 1.0) - 1.0;
        let strings = (ctx.random.real() * most).floor() as usize + 1;
        let seed = ctx.random.range_usize(1, ctx.problem.nodes.len());
        for &c in ctx.matrix_provider.correlation.get(seed).iter() {
            let r = solution.locations[c].route_index;
            if !solution.unassigned.contains(&c) && !solution.ruined_routes.contains(&r) {
                let limit = longest.min(solution.routes[r].nodes.len() as f64);
                let size = (ctx.random.real() * limit).floor() as usize + 1;
                self.ruin_route(ctx, solution, c, r, size);
                if solution.ruined_routes.len() >= strings { break; }
            }
        }
    }
}
