use crate::types::*;
use std::collections::HashMap;
use ahash::RandomState;

pub struct Diversity { pub distance: i64, pub to_number: u64 }
pub struct SubPopulation {
    pub population: Vec<Individual>,
    pub diversity: HashMap<u64, Vec<Diversity>, RandomState>,
    pub focus_diversity: bool,
    pub max_individuals: usize,
}
pub struct Population {
    pub total_individuals_count: u64,
    pub feasible: SubPopulation,
    pub infeasible: SubPopulation,
    pub feasible_history: Vec<bool>,
}

impl Individual {
    /// number of neighbour links of `self` that `other` does not have, irrespective of direction
    pub fn calculate_broken_pairs_distance(&self, other: &Self) -> i64 {
        let mut broken = 0;
        for node in 1..self.genotype.len() + 1 {
            let (p, s) = (self.evaluation.predecessors[node], self.evaluation.successors[node]);
            let (op, os) = (other.evaluation.predecessors[node], other.evaluation.successors[node]);
            if s != os && s != op { broken += 1; }
            if p == 0 && op != 0 && os != 0 { broken += 1; }
        }
        broken
    }
}

impl SubPopulation {
    pub fn size(&self) -> usize { self.population.len() }

    fn individual_is_clone(&self, individual: &Individual) -> bool {
        self.diversity.get(&individual.number).unwrap()[0].distance == 0
    }

    pub fn remove_individual(&mut self, ctx: &Context, index: usize) {
        let gone = self.population.remove(index);
        self.remove_diversity(&gone);
        self.update_fitness(ctx);
    }
    fn remove_diversity(&mut self, individual: &Individual) {
        self.diversity.remove(&individual.number);
        for list in self.diversity.values_mut() {
            let mut at = 0;
            while at < list.len() && list[at].to_number != individual.number { at += 1; }
            if at < list.len() { list.remove(at); }
        }
    }
    fn update_diversity(&mut self, index: usize) {
        for other in 0..self.population.len() {
            if other != index {
                let d = self.population[other].calculate_broken_pairs_distance(&self.population[index]);
                self.add_diversity(self.population[other].number, Diversity { distance: d, to_number: self.population[index].number });
                self.add_diversity(self.population[index].number, Diversity { distance: d, to_number: self.population[other].number });
            }
        }
    }
    fn add_diversity(&mut self, key: u64, diversity: Diversity) {
        match self.diversity.get_mut(&key) {
            Some(list) => {
                let mut at = 0;
                for i in 0..list.len() { if list[i].distance < diversity.distance { at += 1; } }
                list.insert(at, diversity);
            }
            None => {
                let mut list = Vec::new();
                list.push(diversity);
                self.diversity.insert(key, list);
            }
        }
    }

    pub fn add_individual(&mut self, ctx: &Context, individual: Individual) {
        let mut at = 0;
        for i in 0..self.population.len() {
            if self.population[i].penalized_cost() < individual.penalized_cost() { at += 1; }
        }
        self.population.insert(at, individual);
        self.update_diversity(at);
        if self.population.len() > 1 && self.individual_is_clone(&self.population[at]) {
            self.remove_individual(ctx, at);
        } else {
            self.update_fitness(ctx);
        }
        if self.population.len() >= self.max_individuals {
            let keep = ctx.config.borrow().min_population_size as usize;
            while self.population.len() > keep {
                self.natural_selection(ctx);
            }
        }
    }

    pub fn natural_selection(&mut self, ctx: &Context) {
        let mut worst = 1;
        let mut worst_clone = false;
        let mut worst_fitness = -1.0;
        for i in 1..self.population.len() {
            let clone = self.individual_is_clone(&self.population[i]);
            let fitness = self.population[i].fitness;
            if (clone && !worst_clone) || (clone == worst_clone && fitness >= worst_fitness) {
                worst = i;
                worst_clone = clone;
                worst_fitness = fitness;
            }
        }
        self.remove_individual(ctx, worst);
    }

    fn average_broken_pairs_distance(&self, individual: &Individual, num: usize) -> f64 {
        let n = num.min(self.population.len() - 1);
        match self.diversity.get(&individual.number) {
            None => 0.0,
            Some(list) => {
                let mut total = 0;
                for i in 0..n { total += list[i].distance; }
                total as f64 / n as f64
            }
        }
    }

    fn update_fitness(&mut self, ctx: &Context) {
        if self.population.len() == 1 {
            self.population[0].fitness = 0.0;
            return;
        }
        let closest = ctx.config.borrow().num_diversity_closest as usize;
        let elites = ctx.config.borrow().num_elites as usize;
        let n = self.population.len();
        let mut ranked = Vec::new();
        for i in 0..n {
            ranked.push((self.average_broken_pairs_distance(&self.population[i], closest), i));
        }
        ranked.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        let elite_factor = 1.0 - elites as f64 / n as f64;
        for r in 0..ranked.len() {
            let i = ranked[r].1;
            let diversity_rank = r as f64 / (n as f64 - 1.0);
            let cost_rank = i as f64 / (n as f64 - 1.0);
            self.population[i].fitness = if self.focus_diversity {
                if i < elites { cost_rank } else { cost_rank * elite_factor + diversity_rank }
            } else if n <= elites {
                cost_rank
            } else {
                cost_rank + elite_factor * diversity_rank
            };
        }
    }
    pub fn sample_top(&self, ctx: &Context, top: usize) -> (usize, &Individual) {
        let n = if self.population.len() < top { self.population.len() } else { top };
        let i = ctx.random.range_usize(0, n);
        (i, &self.population[i])
    }
    pub fn get_best(&self) -> Option<&Individual> {
        if self.population.len() > 0 { Some(&self.population[0]) } else { None }
    }
}

impl Population {
    pub fn new(ctx: &Context) -> Self {
        Population { total_individuals_count: 0, feasible: SubPopulation::new(ctx), infeasible: SubPopulation::new(ctx), feasible_history: vec![true; 100] }
    }
    pub fn size(&self) -> usize { self.feasible.population.len() + self.infeasible.population.len() }
    pub fn add_individual(&mut self, ctx: &Context, mut individual: Individual, update_feasibility_history: bool) {
        individual.number = self.total_individuals_count;
        let ok = individual.is_feasible();
        if update_feasibility_history {
            self.feasible_history.push(ok);
            self.feasible_history.remove(0);
        }
        if ok { self.feasible.add_individual(ctx, individual) } else { self.infeasible.add_individual(ctx, individual) }
        self.total_individuals_count += 1;
    }
    pub fn history_fraction(&self) -> f64 {
        let mut n = 0;
        for i in 0..self.feasible_history.len() { if self.feasible_history[i] { n += 1; } }
        n as f64 / self.feasible_history.len() as f64
    }
    fn tournament(&self, ctx: &Context, num_contestants: usize) -> &Individual {
        let mut drawn = Vec::new();
        for _ in 0..num_contestants { drawn.push(ctx.random.range_usize(0, self.size())); }
        let mut winner: Option<&Individual> = None;
        for k in 0..drawn.len() {
            let i = drawn[k];
            let x = if i < self.feasible.size() { &self.feasible.population[i] } else { &self.infeasible.population[i - self.feasible.size()] };
            winner = match winner {
                None => Some(x),
                Some(w) => if x.fitness < w.fitness { Some(x) } else { Some(w) },
            };
        }
        winner.unwrap()
    }
    pub fn get_parent(&self, ctx: &Context) -> &Individual {
        let n = ctx.config.borrow().tournament_size as usize;
        self.tournament(ctx, n)
    }
}

impl SubPopulation {
    pub fn new(ctx: &Context) -> Self {
        let c = ctx.config.borrow();
        SubPopulation {
            population: Vec::new(), diversity: HashMap::with_hasher(ctx.random.random_state()), focus_diversity: false,
            max_individuals: (c.population_lambda + c.min_population_size) as usize,
        }
    }
}
