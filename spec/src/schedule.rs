use crate::types::*;
use std::time::{Duration, Instant};
const E2: f64 = 0.1353352832366127;
/// temperature as a share of the start temperature after a share t of the budget
fn cool(t: f64) -> f64 { (t * -2.0f64).exp() - t * E2 }
impl IterationSchedule {
    pub fn new(start_temp: f64, iterations: usize) -> Self {
        IterationSchedule { temp: start_temp, start_temp, total_iterations: iterations, iteration: 0 }
    }
    pub fn update(&mut self) {
        self.iteration += 1;
        self.temp = cool(self.iteration as f64 / self.total_iterations as f64) * self.start_temp;
    }
    pub fn completed(&self) -> bool { self.iteration >= self.total_iterations }
    pub fn reset(&mut self) { self.iteration = 0; self.temp = self.start_temp; }
    pub fn temp(&self) -> f64 { self.temp }
    pub fn accept(&self, new_cost: f64, old_cost: f64, random: &Random) -> bool {
        let threshold = old_cost - self.temp * random.real().ln();
        crate::compare::FloatCompare::approx_lt(&new_cost, threshold)
    }
}
impl TimeSchedule {
    pub fn new(start_temp: f64, duration: Duration) -> Self {
        TimeSchedule {
            start: Instant::now(), duration: duration.as_secs_f64(), temp: start_temp, start_temp, iterations: 0,
            iterations_since_update: 0, update_rate: 100, completed: false,
        }
    }
    pub fn set_update_rate(&mut self, rate: usize) { self.update_rate = rate; }
    pub fn update(&mut self) {
        self.iterations += 1;
        self.iterations_since_update += 1;
        if self.iterations_since_update == self.update_rate {
            let t = self.start.elapsed().as_secs_f64() / self.duration;
            self.temp = cool(t) * self.start_temp;
            self.iterations_since_update = 0;
            if t >= 1.0 { self.completed = true; }
        }
    }
    pub fn completed(&self) -> bool { self.completed }
    pub fn reset(&mut self) {
        self.start = Instant::now();
        self.iterations = 0;
        self.iterations_since_update = 0;
        self.temp = self.start_temp;
        self.completed = false;
    }
    pub fn temp(&self) -> f64 { self.temp }
    pub fn accept(&self, new_cost: f64, old_cost: f64, random: &Random) -> bool {
        let threshold = old_cost - self.temp * random.real().ln();
        crate::compare::FloatCompare::approx_lt(&new_cost, threshold)
    }
}
