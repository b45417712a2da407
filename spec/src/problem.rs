use crate::types::*;

impl Problem {
    pub fn dim(&self) -> usize { self.nodes.len() }
    pub fn num_customers(&self) -> usize { self.nodes.len() - 1 }
    pub fn total_demand(&self) -> f64 {
        let mut s = 0.0;
        for i in 0..self.nodes.len() { s += self.nodes[i].demand; }
        s
    }
    pub fn max_demand(&self) -> Option<f64> {
        self.nodes.iter().map(|n| n.demand).max_by(|a, b| a.partial_cmp(b).unwrap())
    }
    pub fn from_mapping(&self, mapping: &[usize]) -> Problem {
        let mut nodes = Vec::new();
        for &m in mapping { nodes.push(self.nodes[m].clone()); }
        Problem { nodes, vehicle: self.vehicle.clone() }
    }
    pub fn get_angle(&self, node: usize) -> i32 {
        let dx = self.nodes[node].coord.lng - self.nodes[0].coord.lng;
        let dy = self.nodes[node].coord.lat - self.nodes[0].coord.lat;
        ((dy.atan2(dx) / std::f64::consts::PI * 32768.0).round() as i32).rem_euclid(65536)
    }
}

const TURN: i32 = 65536;
impl CircleSector {
    pub fn new() -> Self { CircleSector { start: 0, end: 0, empty: true } }
    pub fn is_enclosed(&self, angle: i32) -> bool {
        (angle - self.start).rem_euclid(TURN) <= (self.end - self.start).rem_euclid(TURN)
    }
    pub fn extend(&mut self, angle: i32) {
        if self.empty {
            self.start = angle;
            self.end = angle;
            self.empty = false;
        } else if !self.is_enclosed(angle) {
            let after = (angle - self.end).rem_euclid(TURN);
            let before = (self.start - angle).rem_euclid(TURN);
            if after <= before { self.end = angle } else { self.start = angle }
        }
    }
    pub fn overlaps(&self, other: &Self) -> bool { self.is_enclosed(other.start) || other.is_enclosed(self.start) }
}

impl CircleSector {
    pub fn reset(&mut self) { *self = CircleSector::new(); }
    pub fn from_angle(&mut self, angle: i32) { self.start = angle; self.end = angle; self.empty = false; }
}
