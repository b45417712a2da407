use crate::types::*;
use std::cmp::Ordering;
impl Individual {
    pub fn evaluate(&mut self, ctx: &Context) { self.evaluation.evaluate(ctx, &self.phenotype) }
    pub fn empty() -> Self { Individual::new(Vec::new(), 0) }
    pub fn is_feasible(&self) -> bool { self.evaluation.feasible }
    pub fn penalized_cost(&self) -> f64 { self.evaluation.penalized_cost }
    pub fn successor(&self, node: usize) -> usize { self.evaluation.successors[node] }
    pub fn predecessor(&self, node: usize) -> usize { self.evaluation.predecessors[node] }
    /// routes by the polar angle of their centre seen from the depot, empty ones last; the giant tour is their concatenation
    pub fn sort_routes(&mut self, ctx: &Context) {
        let mut keys: Vec<(f64, usize)> = Vec::new();
        for r in 0..self.phenotype.len() {
            let n = self.phenotype[r].len();
            let mut angle = 10.0;
            if n > 0 {
                let (mut sx, mut sy) = (0.0, 0.0);
                for i in 0..n {
                    let c = ctx.problem.nodes[self.phenotype[r][i]].coord;
                    sx += c.lng;
                    sy += c.lat;
                }
                let depot = ctx.problem.nodes[0].coord;
                angle = (sy / n as f64 - depot.lat).atan2(sx / n as f64 - depot.lng);
            }
            keys.push((angle, r));
        }
        keys.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let mut routes = Vec::new();
        for k in 0..keys.len() { routes.push(self.phenotype[keys[k].1].clone()); }
        self.phenotype = routes;
        let mut at = 0;
        for r in 0..self.phenotype.len() {
            for i in 0..self.phenotype[r].len() {
                self.genotype[at] = self.phenotype[r][i];
                at += 1;
            }
        }
    }
}
impl PartialEq for Individual {
    fn eq(&self, other: &Self) -> bool { self.evaluation.penalized_cost == other.evaluation.penalized_cost }
}
impl PartialOrd for Individual {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { self.evaluation.penalized_cost.partial_cmp(&other.evaluation.penalized_cost) }
}
impl Eq for Individual {}
impl Ord for Individual {
    fn cmp(&self, other: &Self) -> Ordering { self.evaluation.penalized_cost.partial_cmp(&other.evaluation.penalized_cost).unwrap() }
}
