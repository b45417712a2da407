use crate::types::*;
use std::time::Instant;
impl SearchHistory {
    pub fn new(start_time: Instant) -> Self {
        SearchHistory { history: Vec::new(), best_cost: f64::INFINITY, start_time, messages: Vec::new(), log_new_best: true }
    }
    /// one more entry; the routes are kept for the last entry only
    pub fn add(&mut self, ctx: &Context, individual: &Individual) {
        let n = self.history.len();
        if n > 0 { self.history[n - 1].solution.routes = Vec::new(); }
        self.history.push(HistoryEntry {
            solution: HistoricSolution { routes: individual.phenotype.clone(), cost: individual.evaluation.penalized_cost },
            timestamp: self.start_time.elapsed(),
        });
        self.best_cost = individual.evaluation.penalized_cost;
    }
    pub fn add_message(&mut self, m: String) { unimplemented!() }
    pub fn last_entry(&self) -> Option<&HistoryEntry> {
        let n = self.history.len();
        if n == 0 { None } else { Some(&self.history[n - 1]) }
    }
    pub fn log_new_best(&mut self, v: bool) { self.log_new_best = v; }
}
