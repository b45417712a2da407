use crate::compare::FloatCompare;
use crate::types::*;

pub fn euclidian(a: &Coordinate, b: &Coordinate) -> f64 {
    let dx = a.lng - b.lng;
    let dy = a.lat - b.lat;
    (dx * dx + dy * dy).sqrt()
}

/// the distance rule of the instance
pub fn rule(locations: &Vec<Coordinate>, rounded: bool, i: usize, j: usize) -> f64 {
    let d = euclidian(&locations[i], &locations[j]);
    if rounded { d.round() } else { d }
}

impl DistanceMatrix {
    pub fn get(&self, row: usize, col: usize) -> f64 {
        if self.precomputed { self.storage.get(row, col) } else { rule(&self.locations, self.rounded, row, col) }
    }
    pub fn max(&self) -> Option<f64> { self.max_distance }
    pub fn size(&self) -> usize { self.locations.len() }
    /// `number` entries in row-major order, starting at (row, col)
    pub fn row_entries(&self, row: usize, number: usize) -> Vec<f64> {
        let mut out = Vec::new();
        for j in 0..number {
            out.push(self.get(row, j));
        }
        out
    }
}

impl DistanceMatrixBuilder {
    pub fn build(self) -> DistanceMatrix {
        let n = self.locations.len();
        let mut max: Option<f64> = self.max_distance;
        let mut storage: Matrix<f64>;
        let mut pre = self.precompute;
        if let Some(input) = self.input {
            pre = true;
            storage = Matrix::new(n, n);
            for i in 0..input.len() {
                for j in 0..input[i].len() {
                    let d = if self.rounded { input[i][j].round() } else { input[i][j] };
                    storage.set(i + 1, j, d);
                    storage.set(j, i + 1, d);
                    match max {
                        None => max = Some(d),
                        Some(m) => if d.approx_gt(m) { max = Some(d) },
                    }
                }
            }
        } else if pre {
            storage = Matrix::new(n, n);
            for i in 0..n {
                for j in i + 1..n {
                    let d = rule(&self.locations, self.rounded, i, j);
                    storage.set(i, j, d);
                    storage.set(j, i, d);
                    match max {
                        None => max = Some(d),
                        Some(m) => if d.approx_gt(m) { max = Some(d) },
                    }
                }
            }
        } else {
            storage = Matrix::new(0, 0);
        }
        DistanceMatrix { locations: self.locations, storage, precomputed: pre, rounded: self.rounded, max_distance: max }
    }
}

/// the largest element
pub fn buffer_max(b: &[f64]) -> f64 { *b.iter().max_by(|a, b| a.partial_cmp(b).unwrap()).unwrap() }

impl<T: Copy> Matrix<T> {
    pub fn get_max(&self) -> T where T: PartialOrd { unimplemented!() }
}
impl DistanceMatrix {
    /// `number` entries in row-major order from (row, col)
    pub fn get_vec(&self, row: usize, col: usize, number: usize) -> Vec<f64> {
        let size = self.locations.len();
        let mut out = Vec::new();
        let (mut r, mut c) = (row, col);
        for _ in 0..number {
            out.push(self.get(r, c));
            c += 1;
            if c == size { c = 0; r += 1; }
        }
        out
    }
    pub fn from_mapping(&self, mapping: &[usize]) -> Self {
        let n = mapping.len();
        let mut locations = Vec::new();
        for i in 0..n { locations.push(self.locations[mapping[i]]); }
        let mut storage: Matrix<f64> = Matrix::new(n, n);
        for i in 0..n { for j in 0..n { storage.set(i, j, self.get(mapping[i], mapping[j])); } }
        let max_distance = if self.precomputed { Some(storage.get_max()) } else { None };
        DistanceMatrix { locations, storage, precomputed: true, rounded: self.rounded, max_distance }
    }
}
impl CorrelationMatrix {
    /// the nearest other customers of every node, nearest first
    pub fn new(d: &DistanceMatrix) -> Self {
        let n = d.locations.len();
        let others = if n < 2 { 0 } else { n - 2 };
        let width = if others < 200 { others } else { 200 };
        let mut storage: Matrix<usize> = Matrix::new(n, width);
        for i in 0..n {
            let mut cand: Vec<(usize, f64)> = Vec::new();
            for j in 0..n { if j > 0 && j != i { cand.push((j, d.get(i, j))); } }
            cand.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
            for k in 0..width.min(cand.len()) { storage.set(i, k, cand[k].0); }
        }
        CorrelationMatrix { storage, width }
    }
    pub fn width(&self) -> usize { self.width }
    pub fn get(&self, index: usize) -> &[usize] { self.storage.slice(index, 0, self.width) }
    pub fn top_slice_mut(&mut self, index: usize, number: usize) -> &mut [usize] { self.storage.slice_mut(index, 0, number) }
    pub fn top_slice(&self, index: usize, number: usize) -> &[usize] { self.storage.slice(index, 0, number) }
}
impl DistanceMatrixBuilder {
    pub fn new() -> Self { DistanceMatrixBuilder { locations: Vec::new(), precompute: false, rounded: false, input: None, max_distance: None } }
}
impl MatrixProvider {
    pub fn new(problem: &Problem, config: &Config, input_matrix: Option<Vec<Vec<f64>>>) -> Self {
        let mut locations = Vec::new();
        for i in 0..problem.nodes.len() { locations.push(problem.nodes[i].coord); }
        let b = DistanceMatrixBuilder {
            locations,
            precompute: problem.nodes.len() - 1 < config.precompute_distance_size_limit as usize,
            rounded: config.round_distances,
            input: input_matrix,
            max_distance: None,
        };
        let distance = b.build();
        let correlation = CorrelationMatrix::new(&distance);
        MatrixProvider { distance, correlation }
    }
    pub fn from_mapping(&self, mapping: &[usize]) -> Self {
        let distance = self.distance.from_mapping(mapping);
        let correlation = CorrelationMatrix::new(&distance);
        MatrixProvider { distance, correlation }
    }
}
