use std::cell::RefCell;
use std::time::Instant;
use crate::types::*;
impl Context {
    pub fn terminate(&self) -> bool {
        let config = self.config.borrow();
        let secs = self.search_history.borrow().start_time.elapsed().as_secs();
        if secs >= config.time_limit { return true; }
        match config.max_iterations {
            Some(m) => *self.iteration.borrow() >= m,
            None => false,
        }
    }
    pub fn next_iteration(&self) { *self.iteration.borrow_mut() += 1; }
}

impl Context {
    pub fn setup(&self) {
        let lb = self.vehicle_lower_bound() as f64;
        let n = (1.2f64 * lb + 2.0).ceil() as u64;
        self.config.borrow_mut().num_vehicles = n;
        self.reset_penalty();
    }
    pub fn vehicle_lower_bound(&self) -> u64 {
        (self.problem.total_demand() / self.problem.vehicle.cap).ceil() as u64
    }
    pub fn reset_penalty(&self) {
        let p = match (self.matrix_provider.distance.max_distance, self.problem.max_demand()) {
            (Some(d), Some(q)) => {
                let r = d / q;
                let r = if 10_000.0 < r { 10_000.0 } else { r };
                if 0.0001 > r { 0.0001 } else { r }
            }
            _ => 100.0,
        };
        self.config.borrow_mut().penalty_capacity = p;
    }
    pub fn from_mapping(&self, mapping: &[usize]) -> Self {
        let start_time = self.search_history.borrow().start_time;
        Context {
            problem: self.problem.from_mapping(mapping),
            matrix_provider: self.matrix_provider.from_mapping(mapping),
            config: RefCell::new(self.config.borrow().clone()),
            random: self.random.clone(),
            search_history: RefCell::new(SearchHistory {
                history: Vec::new(), best_cost: f64::INFINITY, start_time, messages: Vec::new(), log_new_best: false,
            }),
            iteration: RefCell::new(0),
        }
    }
    pub fn new(parser: ProblemParser, config: Config, start_time: Instant) -> Self {
        let problem = parser.problem.unwrap();
        let random = if config.deterministic { Random::from_seed(config.seed) } else { Random::new() };
        let matrix_provider = MatrixProvider::new(&problem, &config, parser.matrix);
        let c = Context {
            problem, matrix_provider, config: RefCell::new(config), random,
            search_history: RefCell::new(SearchHistory::new(start_time)),
            iteration: RefCell::new(0),
        };
        c.setup();
        c
    }
}

pub trait Metaheuristic { fn iterate(&mut self, ctx: &Context); fn terminated(&self) -> bool; }
pub struct Solver<M: Metaheuristic> { pub ctx: Context, pub metaheuristic: M }
impl<M: Metaheuristic> Solver<M> {
    pub fn new(ctx: Context, metaheuristic: M) -> Self { Solver { ctx, metaheuristic } }
    pub fn run(&mut self) {
        loop {
            if self.metaheuristic.terminated() { return; }
            self.metaheuristic.iterate(&self.ctx);
        }
    }
}
