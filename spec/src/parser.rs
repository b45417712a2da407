//! Instance files (C17).
use crate::types::*;
use std::fs::File;
use std::io::{BufRead, BufReader};
use std::path::Path;

type Lines = Vec<Vec<String>>;

enum EdgeWeightType { Euclidian2D, Explicit }

impl EdgeWeightType {
    fn from_str(s: &str) -> Result<Self, String> {
        if s == "EUC_2D" { Ok(Self::Euclidian2D) } else if s == "EXPLICIT" { Ok(Self::Explicit) } else { Err(String::new()) }
    }
}

enum EdgeWeightFormat { LowerRow }

impl EdgeWeightFormat {
    fn from_str(s: &str) -> Result<Self, String> {
        if s == "LOWER_ROW" { Ok(Self::LowerRow) } else { Err(String::new()) }
    }
}



impl ProblemParser {
    pub fn new() -> Self { ProblemParser { problem: None, matrix: None } }

    pub fn parse(&mut self, config: &mut Config) {
        let path = Path::new(&config.instance_path);
        if !path.exists() { panic!() }
        let lines = Self::read_file(&path);
        let n = Self::parse_dimension(&lines);
        let cap = Self::parse_capacity(&lines);
        let coords = Self::parse_coords(&lines, n);
        let demands = Self::parse_demands(&lines, n);
        if coords.len() != n || demands.len() != n { panic!() }
        if Self::parse_numbers(&lines, "NODE_COORD_SECTION", n) != Self::parse_numbers(&lines, "DEMAND_SECTION", n) { panic!() }
        self.problem = Some(Problem { nodes: Self::create_nodes(coords, demands), vehicle: Self::create_vehicle(0, cap) });
        match Self::parse_edge_weight_type(&lines) {
            EdgeWeightType::Euclidian2D => {}
            EdgeWeightType::Explicit => match Self::parse_edge_weight_format(&lines) {
                EdgeWeightFormat::LowerRow => {
                    let m = Self::parse_lower_row_matrix(&lines, n);
                    if m.len() != n - 1 { panic!() }
                    for i in 0..m.len() {
                        if m[i].len() != i + 1 { panic!() }
                    }
                    self.matrix = Some(m);
                }
            },
        }
    }

    fn read_file(path: &Path) -> Lines {
        let reader = BufReader::new(File::open(path).unwrap());
        let mut out: Lines = Vec::new();
        let text: Vec<String> = reader.lines().map(|l| l.unwrap()).collect();
        for l in text.iter() {
            let mut words: Vec<String> = Vec::new();
            for w in l.split(&[' ', '\t', ':'][..]) {
                if w != "" { words.push(w.to_owned()) }
            }
            out.push(words);
        }
        out
    }

    fn parse_dimension(lines: &Lines) -> usize {
        for l in lines.iter() {
            if l.len() > 0 && l[0] == "DIMENSION" { return l[1].parse::<usize>().unwrap() }
        }
        panic!()
    }

    fn parse_capacity(lines: &Lines) -> f64 {
        for l in lines.iter() {
            if l.len() > 0 && l[0] == "CAPACITY" { return l[1].parse::<f64>().unwrap() }
        }
        panic!()
    }

    fn parse_edge_weight_type(lines: &Lines) -> EdgeWeightType {
        for l in lines.iter() {
            if l.len() > 0 && l[0] == "EDGE_WEIGHT_TYPE" { return EdgeWeightType::from_str(&l[1]).unwrap() }
        }
        panic!()
    }

    fn parse_edge_weight_format(lines: &Lines) -> EdgeWeightFormat {
        for l in lines.iter() {
            if l.len() > 0 && l[0] == "EDGE_WEIGHT_FORMAT" { return EdgeWeightFormat::from_str(&l[1]).unwrap() }
        }
        panic!()
    }

    fn parse_coords(lines: &Lines, number: usize) -> Vec<Coordinate> {
        for i in 0..lines.len() {
            if lines[i].len() > 0 && lines[i][0] == "NODE_COORD_SECTION" {
                return lines.iter().skip(i + 1).take(number).map(|l| Coordinate { lng: l[1].parse::<f64>().unwrap(), lat: l[2].parse::<f64>().unwrap() }).collect();
            }
        }
        panic!()
    }

    fn parse_demands(lines: &Lines, number: usize) -> Vec<f64> {
        for i in 0..lines.len() {
            if lines[i].len() > 0 && lines[i][0] == "DEMAND_SECTION" {
                return lines.iter().skip(i + 1).take(number).map(|l| l[1].parse::<f64>().unwrap()).collect();
            }
        }
        panic!()
    }

    fn parse_numbers(lines: &Lines, section: &str, number: usize) -> Vec<String> {
        for i in 0..lines.len() {
            if lines[i].len() > 0 && lines[i][0] == section {
                return lines.iter().skip(i + 1).take(number).map(|l| l[0].clone()).collect();
            }
        }
        panic!()
    }

    fn parse_lower_row_matrix(lines: &Lines, number: usize) -> Vec<Vec<f64>> {
        for i in 0..lines.len() {
            if lines[i].len() > 0 && lines[i][0] == "EDGE_WEIGHT_SECTION" {
                return lines.iter().skip(i + 1).take(number - 1).map(|l| l.iter().map(|v| v.parse::<f64>().unwrap()).collect()).collect();
            }
        }
        panic!()
    }

    fn create_nodes(coords: Vec<Coordinate>, demands: Vec<f64>) -> Vec<Node> {
        let mut out = Vec::new();
        for i in 0..coords.len().min(demands.len()) {
            out.push(Node { id: i + 1, coord: coords[i], demand: demands[i] });
        }
        out
    }

    fn create_vehicle(id: usize, capacity: f64) -> Vehicle { Vehicle { id, cap: capacity } }
}
