//! Defaults, configuration file and command line.
use crate::types::*;
use clap::{App, Arg};
use serde_yaml::Value;
use std::fs::File;
use std::io::BufReader;

pub struct Args {
    pub instance_path: String,
    pub solution_path: Option<String>,
    pub time_limit: Option<u64>,
    pub max_iterations: Option<u64>,
    pub rounded: Option<bool>,
}

impl Config {
    pub fn default() -> Self { Config {
        instance_path: String::new(),
        bks: f64::INFINITY,
        dynamic_granularity: false,
        granularity_min: 10,
        rr_final_temp: 1.0,
        rr_diversify: true,
        elite_education_final_temp: 1.0,
        solution_path: None,
        time_limit: 60,
        max_iterations: None,
        max_iterations_without_improvement: 20_000,
        num_vehicles: 1_000_000,
        log_interval: 100,
        precompute_distance_size_limit: 2_000,
        round_distances: true,
        decompose_limit: 3000,
        decomposed_problem_min_size: 200,
        deterministic: false,
        seed: 1,
        min_population_size: 25,
        initial_individuals: 100,
        population_lambda: 40,
        num_elites: 4,
        num_diversity_closest: 5,
        feasibility_proportion_target: 0.2,
        tournament_size: 2,
        repair_probability: 0.5,
        split_capacity_factor: 1.5,
        local_search_granularity: 20,
        penalty_capacity: 100.0,
        penalty_update_interval: 10,
        penalty_inc_multiplier: 1.2,
        penalty_dec_multiplier: 0.85,
        average_ruin_cardinality: 10,
        max_ruin_string_length: 10,
        ls_enabled: true,
        rr_mutation: true,
        rr_probability: 1.0,
        rr_gamma: 1.0,
        rr_start_temp: 10.0,
        elite_education: false,
        elite_education_problem_size_limit: 1,
        elite_education_gamma: 1_000.0,
        elite_education_start_temp: 50.0,
        elite_education_time_based: false,
        elite_education_time_fraction: 0.02,
        linear_split: true,
        swap_star: true,
        relocate_single: true,
        relocate_double: true,
        relocate_double_reverse: false,
        swap_one_with_one: true,
        swap_two_with_one: true,
        swap_two_with_two: true,
        two_opt_intra_reverse: true,
        two_opt_inter_reverse: true,
        two_opt_inter: true,
    } }
    pub fn reset(&mut self) { *self = Self::default(); }
    pub fn read_yaml_file(filepath: &str) -> Value {
        let f = File::open(filepath).unwrap();
        serde_yaml::from_reader(BufReader::new(f)).unwrap()
    }
    pub fn load_yaml_file(filepath: &str) -> Self {
        let mut config = Self::default();
        let v = Self::read_yaml_file(filepath);
        config.update(&v);
        config
    }
    pub fn update_from_yaml_file(&mut self, filepath: &str) {
        let v = Self::read_yaml_file(filepath);
        self.update(&v);
    }
    /// every key of the file that names a setting replaces that setting; the others keep their value
    pub fn update(&mut self, values: &Value) {
        let mut all: Value = serde_yaml::to_value(&*self).unwrap();
        if let Value::Mapping(m) = values {
            for (k, v) in m.iter() {
                if let Some(slot) = all.get_mut(k) { *slot = v.clone(); }
            }
        } else {
            panic!()
        }
        *self = serde_yaml::from_value(all).unwrap();
    }
    /// what is given on the command line wins, what is not given changes nothing
    pub fn update_from_args(&mut self, args: &Args) {
        self.instance_path = args.instance_path.clone();
        if let Some(p) = &args.solution_path { self.solution_path = Some(p.clone()); }
        if let Some(n) = args.max_iterations { self.max_iterations_without_improvement = n; }
        if let Some(t) = args.time_limit { self.time_limit = t; }
        if let Some(r) = args.rounded { self.round_distances = r; }
    }
}

impl Args {
    pub fn parse() -> Self {
        let m = App::new("hybridcvrp")
            .arg(Arg::with_name("instance_path").required(true))
            .arg(Arg::with_name("solution_path").short("o").takes_value(true))
            .arg(Arg::with_name("iterations").short("i").takes_value(true))
            .arg(Arg::with_name("time_limit").short("t").takes_value(true))
            .arg(Arg::with_name("rounded").short("r").takes_value(true))
            .get_matches();
        Args {
            instance_path: m.value_of("instance_path").unwrap().to_owned(),
            solution_path: match m.value_of("solution_path") { Some(s) => Some(String::from(s)), None => None },
            time_limit: match m.value_of("time_limit") { Some(s) => Some(s.parse::<u64>().unwrap()), None => None },
            max_iterations: match m.value_of("iterations") { Some(s) => Some(s.parse::<u64>().unwrap()), None => None },
            rounded: match m.value_of("rounded") { Some(s) => Some(s.parse::<bool>().unwrap()), None => None },
        }
    }
}
