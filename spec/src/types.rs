use std::cell::RefCell;
use std::time::{Duration, Instant};
use fastrand::Rng;

#[derive(Copy, Clone)]
pub struct Coordinate { pub lng: f64, pub lat: f64 }
#[derive(Clone)]
pub struct Node { pub id: usize, pub coord: Coordinate, pub demand: f64 }
#[derive(Clone)]
pub struct Vehicle { pub id: usize, pub cap: f64 }
pub struct Problem { pub nodes: Vec<Node>, pub vehicle: Vehicle }

#[derive(Clone, Debug, serde::Deserialize, serde::Serialize)]
pub struct Config {
    pub instance_path: String,
    pub solution_path: Option<String>,
    pub time_limit: u64,
    pub bks: f64,
    pub max_iterations: Option<u64>,
    pub max_iterations_without_improvement: u64,
    pub num_vehicles: u64,
    pub log_interval: u64,
    pub precompute_distance_size_limit: u64,
    pub round_distances: bool,
    pub decompose_limit: u64,
    pub decomposed_problem_min_size: u64,
    pub deterministic: bool,
    pub seed: u64,
    pub min_population_size: u64,
    pub initial_individuals: u64,
    pub population_lambda: u64,
    pub num_elites: u64,
    pub num_diversity_closest: u64,
    pub feasibility_proportion_target: f64,
    pub tournament_size: u64,
    pub repair_probability: f64,
    pub split_capacity_factor: f64,
    pub local_search_granularity: u64,
    pub granularity_min: u64,
    pub dynamic_granularity: bool,
    pub penalty_capacity: f64,
    pub penalty_update_interval: u64,
    pub penalty_inc_multiplier: f64,
    pub penalty_dec_multiplier: f64,
    pub average_ruin_cardinality: usize,
    pub max_ruin_string_length: usize,
    pub ls_enabled: bool,
    pub rr_mutation: bool,
    pub rr_probability: f64,
    pub rr_gamma: f64,
    pub rr_diversify: bool,
    pub rr_final_temp: f64,
    pub rr_start_temp: f64,
    pub elite_education: bool,
    pub elite_education_problem_size_limit: usize,
    pub elite_education_gamma: f64,
    pub elite_education_final_temp: f64,
    pub elite_education_start_temp: f64,
    pub elite_education_time_based: bool,
    pub elite_education_time_fraction: f64,
    pub linear_split: bool,
    pub swap_star: bool,
    pub relocate_single: bool,
    pub relocate_double: bool,
    pub relocate_double_reverse: bool,
    pub swap_one_with_one: bool,
    pub swap_two_with_one: bool,
    pub swap_two_with_two: bool,
    pub two_opt_intra_reverse: bool,
    pub two_opt_inter_reverse: bool,
    pub two_opt_inter: bool,
}

#[derive(Clone)]
pub struct Random { pub rng: RefCell<Rng>, pub seed: Option<u64> }
impl Random {
    pub fn real(&self) -> f64 { self.rng.borrow().f64() }
    pub fn range_usize(&self, lower: usize, upper: usize) -> usize { self.rng.borrow().usize(lower..upper) }
    pub fn shuffle<T>(&self, container: &mut [T]) { self.rng.borrow().shuffle(container) }
}

pub struct Context {
    pub problem: Problem,
    pub matrix_provider: MatrixProvider,
    pub config: RefCell<Config>,
    pub random: Random,
    pub search_history: RefCell<SearchHistory>,
    pub iteration: RefCell<u64>,
}

pub struct Matrix<T: Copy> { pub data: Vec<Vec<T>>, pub rows: usize, pub cols: usize }
/// modelled by the analysis (the storage itself is checked by C31)
impl<T: Copy> Matrix<T> {
    pub fn new(rows: usize, cols: usize) -> Self { Self { data: Vec::new(), rows, cols } }
    pub fn get(&self, row: usize, col: usize) -> T { self.data[row][col] }
    pub fn get_mut(&self, row: usize, col: usize) -> &mut T { unimplemented!() }
    pub fn set(&mut self, row: usize, col: usize, value: T) { self.data[row][col] = value }
    pub fn slice(&self, row: usize, col: usize, number: usize) -> &[T] { &self.data[row][col..col + number] }
    pub fn slice_mut(&self, row: usize, col: usize, number: usize) -> &mut [T] { unimplemented!() }
    /// every cell holds the value
    pub fn init(init: T, rows: usize, cols: usize) -> Self {
        let mut m = Matrix::new(rows, cols);
        for r in 0..rows { for c in 0..cols { m.set(r, c, init); } }
        m
    }
    pub fn from_mapping(&self, mapping: &[usize]) -> Self {
        let n = mapping.len();
        let mut m = Matrix::new(n, n);
        for i in 0..n { for j in 0..n { m.set(i, j, self.get(mapping[i], mapping[j])); } }
        m
    }
}
impl<T: Copy> Clone for Matrix<T> {
    fn clone(&self) -> Self {
        let mut m = Matrix::new(self.rows, self.cols);
        for r in 0..self.rows { for c in 0..self.cols { m.set(r, c, self.get(r, c)); } }
        m
    }
}

pub struct DistanceMatrix {
    pub locations: Vec<Coordinate>,
    pub storage: Matrix<f64>,
    pub precomputed: bool,
    pub rounded: bool,
    pub max_distance: Option<f64>,
}
pub struct DistanceMatrixBuilder {
    pub locations: Vec<Coordinate>,
    pub precompute: bool,
    pub rounded: bool,
    pub input: Option<Vec<Vec<f64>>>,
    pub max_distance: Option<f64>,
}
#[derive(Clone)]
pub struct CorrelationMatrix { pub storage: Matrix<usize>, pub width: usize }
pub struct MatrixProvider { pub distance: DistanceMatrix, pub correlation: CorrelationMatrix }

#[derive(Clone)]
pub struct RouteEvaluation { pub distance: f64, pub overload: f64, pub penalized_cost: f64 }
#[derive(Clone)]
pub struct SolutionEvaluation {
    pub penalized_cost: f64,
    pub feasible: bool,
    pub routes: Vec<RouteEvaluation>,
    pub predecessors: Vec<usize>,
    pub successors: Vec<usize>,
}
#[derive(Clone)]
pub struct Individual {
    pub number: u64,
    pub genotype: Vec<usize>,
    pub phenotype: Vec<Vec<usize>>,
    pub fitness: f64,
    pub evaluation: SolutionEvaluation,
}
pub struct HistoricSolution { pub routes: Vec<Vec<usize>>, pub cost: f64 }
pub struct HistoryEntry { pub solution: HistoricSolution, pub timestamp: Duration }
pub struct SearchHistory { pub history: Vec<HistoryEntry>, pub best_cost: f64, pub start_time: Instant, pub messages: Vec<String>, pub log_new_best: bool }
#[derive(Clone)]
pub struct CircleSector { pub start: i32, pub end: i32, pub empty: bool }
pub struct IterationSchedule { pub temp: f64, pub start_temp: f64, pub total_iterations: usize, pub iteration: usize }
pub struct TimeSchedule {
    pub start: Instant, pub duration: f64, pub temp: f64, pub start_temp: f64, pub iterations: usize,
    pub iterations_since_update: usize, pub update_rate: usize, pub completed: bool,
}

pub struct ProblemParser { pub problem: Option<Problem>, pub matrix: Option<Vec<Vec<f64>>> }
