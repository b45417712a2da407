use crate::types::*;
use fastrand::Rng;
use ahash::RandomState;
use std::cell::RefCell;
impl Random {
    pub fn new() -> Self { Random { rng: RefCell::new(Rng::new()), seed: None } }
    pub fn from_seed(seed: u64) -> Self { Random { rng: RefCell::new(Rng::with_seed(seed)), seed: Some(seed) } }
    pub fn reset(&self) {
        match self.seed {
            Some(s) => { self.rng.replace(Rng::with_seed(s)); }
            None => { self.rng.replace(Rng::new()); }
        }
    }
    pub fn sample_from_vec<T>(&self, mut vec: Vec<T>, number: usize) -> Vec<T> {
        assert!(number <= vec.len());
        let mut out = Vec::new();
        for _ in 0..number {
            let i = self.rng.borrow().usize(0..vec.len());
            out.push(vec.remove(i));
        }
        out
    }
    pub fn random_state(&self) -> RandomState {
        match self.seed {
            Some(s) => RandomState::with_seeds(s, s.wrapping_add(123), s.wrapping_add(321), s.wrapping_add(1337)),
            None => RandomState::new(),
        }
    }
}
