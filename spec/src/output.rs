//! What the program writes, and the program itself.
use crate::types::*;
use crate::context::Solver;
use crate::config::Args;
use crate::decomposition::DecomposedGeneticAlgorithm;
use crate::genetic::GeneticAlgorithm;
use std::fmt;
use std::fs::File;
use std::io::Write;
use std::time::Instant;

impl fmt::Display for HistoricSolution {
    /// the non-empty routes, numbered without gaps, one per line, then the rounded cost
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut number = 0;
        for r in 0..self.routes.len() {
            let route = &self.routes[r];
            if route.len() == 0 { continue; }
            number += 1;
            write!(f, "Route #{}:", number)?;
            for c in 0..route.len() { write!(f, " {}", route[c])?; }
            write!(f, "\n")?;
        }
        write!(f, "Cost {}", self.cost.round() as u64)
    }
}

/// the last recorded solution goes to the configured path, replacing what is there; every failure ends the program
pub fn write_solution_file(ctx: &Context) {
    let config = ctx.config.borrow();
    if let Some(path) = &config.solution_path {
        let mut file = File::create(path).unwrap();
        if let Some(entry) = ctx.search_history.borrow().last_entry() {
            write!(file, "{}\n", entry.solution).unwrap();
        }
    }
}

pub fn main() {
    let start = Instant::now();
    let mut config = Config::load_yaml_file("config.yml");
    let args = Args::parse();
    config.update_from_args(&args);
    if let None = config.solution_path { config.solution_path = Some(String::from("output.sol")); }
    let mut parser = ProblemParser::new();
    parser.parse(&mut config);
    let ctx = Context::new(parser, config, start);
    if ctx.problem.num_customers() as u64 >= ctx.config.borrow().decompose_limit {
        let m = DecomposedGeneticAlgorithm::new(&ctx);
        let mut solver = Solver::new(ctx, m);
        solver.run();
        write_solution_file(&solver.ctx);
    } else {
        let m = GeneticAlgorithm::new(&ctx);
        let mut solver = Solver::new(ctx, m);
        solver.run();
        write_solution_file(&solver.ctx);
    }
}
