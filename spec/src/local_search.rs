//! Local search: data structures, search loop, combined swap.
use crate::types::*;
use crate::compare::FloatCompare;
use std::collections::HashSet;
use std::ptr;

#[derive(Clone)]
pub struct LinkNode {
    pub number: usize, pub angle: i32, pub successor: *mut LinkNode, pub predecessor: *mut LinkNode, pub route: *mut LinkRoute,
    pub position: usize, pub last_tested: i32, pub cum_distance: f64, pub cum_load: f64, pub delta_removal: f64,
}
#[derive(Clone)]
pub struct LinkRoute {
    pub index: usize, pub start_depot: *mut LinkNode, pub end_depot: *mut LinkNode, pub num_customers: usize, pub last_modified: i32,
    pub last_tested_swap_star: i32, pub sector: CircleSector, pub distance: f64, pub load: f64, pub overload: f64, pub cost: f64,
}
impl LinkNode {
    pub unsafe fn new(number: usize, angle: i32) -> Self {
        LinkNode {
            number, angle, successor: ptr::null_mut(), predecessor: ptr::null_mut(), route: ptr::null_mut(),
            position: 0, last_tested: 0, cum_distance: 0.0, cum_load: 0.0, delta_removal: 0.0,
        }
    }
    pub fn is_depot(&self) -> bool { self.number == 0 }
    pub unsafe fn insert_node(moved: *mut LinkNode, place: *mut LinkNode) { unimplemented!() }
}
impl LinkRoute {
    pub fn new(index: usize, start_depot: *mut LinkNode, end_depot: *mut LinkNode) -> Self {
        LinkRoute {
            index, start_depot, end_depot, num_customers: 0, last_modified: 0, last_tested_swap_star: 0, sector: CircleSector::new(),
            distance: f64::MAX, load: f64::MAX, overload: f64::MAX, cost: f64::INFINITY,
        }
    }
    pub fn is_empty(&self) -> bool { self.num_customers == 0 }
}

#[derive(Clone, Copy)]
pub struct InsertLocation { pub cost: f64, pub node: *mut LinkNode }
impl InsertLocation {
    pub fn new() -> Self { InsertLocation { cost: f64::INFINITY, node: ptr::null_mut() } }
    pub fn reset(&mut self) { *self = InsertLocation::new(); }
}
#[derive(Clone, Copy)]
pub struct ThreeBestInserts { pub locations: [InsertLocation; 3], pub last_calculated: i32 }
impl ThreeBestInserts {
    pub fn new() -> Self { ThreeBestInserts { locations: [InsertLocation::new(); 3], last_calculated: 0 } }
    pub fn reset(&mut self) { for i in 0..3 { self.locations[i].reset(); } }
    /// keeps the three cheapest places in ascending order of cost
    pub fn add(&mut self, loc: InsertLocation) {
        let (a, b, c) = (self.locations[0], self.locations[1], self.locations[2]);
        if !(loc.cost > a.cost) { self.locations = [loc, a, b]; }
        else if !(loc.cost > b.cost) { self.locations = [a, loc, b]; }
        else if !(loc.cost > c.cost) { self.locations = [a, b, loc]; }
    }
}

pub trait Move {
    unsafe fn delta(&self, ls: &LocalSearch, node_u: *mut LinkNode, node_v: *mut LinkNode) -> f64;
    unsafe fn perform(&self, ls: &mut LocalSearch, node_u: *mut LinkNode, node_v: *mut LinkNode);
}
macro_rules! moves { ($($m:ident),*) => { $(
    pub struct $m;
    impl Move for $m {
        unsafe fn delta(&self, ls: &LocalSearch, node_u: *mut LinkNode, node_v: *mut LinkNode) -> f64 { unimplemented!() }
        unsafe fn perform(&self, ls: &mut LocalSearch, node_u: *mut LinkNode, node_v: *mut LinkNode) { unimplemented!() }
    } )* } }
moves!(RelocateSingle, RelocateDouble, RelocateDoubleReverse, SwapOneWithOne, SwapTwoWithOne, SwapTwoWithTwo, TwoOptIntraReverse, TwoOptInterReverse, TwoOptInter);

pub struct Moves { pub neighbor: Vec<Box<dyn Move>>, pub depot: Vec<Box<dyn Move>>, pub empty_route: Vec<Box<dyn Move>> }
impl Moves {
    pub fn new(ctx: &Context) -> Self {
        Moves { neighbor: Self::neighborhood_moves(ctx), depot: Self::depot_moves(ctx), empty_route: Self::empty_route_moves(ctx) }
    }
    fn neighborhood_moves(ctx: &Context) -> Vec<Box<dyn Move>> {
        let c = ctx.config.borrow();
        let mut m: Vec<Box<dyn Move>> = Vec::new();
        if c.relocate_single { m.push(Box::new(RelocateSingle)); }
        if c.relocate_double { m.push(Box::new(RelocateDouble)); }
        if c.relocate_double_reverse { m.push(Box::new(RelocateDoubleReverse)); }
        if c.swap_one_with_one { m.push(Box::new(SwapOneWithOne)); }
        if c.swap_two_with_one { m.push(Box::new(SwapTwoWithOne)); }
        if c.swap_two_with_two { m.push(Box::new(SwapTwoWithTwo)); }
        if c.two_opt_intra_reverse { m.push(Box::new(TwoOptIntraReverse)); }
        if c.two_opt_inter_reverse { m.push(Box::new(TwoOptInterReverse)); }
        if c.two_opt_inter { m.push(Box::new(TwoOptInter)); }
        m
    }
    fn depot_moves(ctx: &Context) -> Vec<Box<dyn Move>> {
        let c = ctx.config.borrow();
        let mut m: Vec<Box<dyn Move>> = Vec::new();
        if c.relocate_single { m.push(Box::new(RelocateSingle)); }
        if c.relocate_double { m.push(Box::new(RelocateDouble)); }
        if c.relocate_double_reverse { m.push(Box::new(RelocateDoubleReverse)); }
        if c.two_opt_inter_reverse { m.push(Box::new(TwoOptInterReverse)); }
        if c.two_opt_inter { m.push(Box::new(TwoOptInter)); }
        m
    }
    fn empty_route_moves(ctx: &Context) -> Vec<Box<dyn Move>> {
        let c = ctx.config.borrow();
        let mut m: Vec<Box<dyn Move>> = Vec::new();
        if c.relocate_single { m.push(Box::new(RelocateSingle)); }
        if c.relocate_double { m.push(Box::new(RelocateDouble)); }
        if c.relocate_double_reverse { m.push(Box::new(RelocateDoubleReverse)); }
        if c.two_opt_inter { m.push(Box::new(TwoOptInter)); }
        m
    }
}

pub struct LocalSearch {
    pub ctx: &'static Context,
    pub routes: Vec<LinkRoute>,
    pub customers: Vec<usize>,
    pub correlation: CorrelationMatrix,
    pub granularity: usize,
    pub move_count: i32,
    pub moves: Moves,
    pub best_inserts: Matrix<ThreeBestInserts>,
    pub nodes: Vec<LinkNode>,
    pub start_depots: Vec<LinkNode>,
    pub end_depots: Vec<LinkNode>,
    pub empty_routes: HashSet<usize>,
    pub penalty_capacity: f64,
}

impl LocalSearch {
    pub fn new(ctx: &Context, m: f64) -> Self { unimplemented!() }
    pub fn update_penalty(&mut self, penalty_multiplier: f64) {
        self.penalty_capacity = penalty_multiplier * self.ctx.config.borrow().penalty_capacity;
    }
    pub fn reset(&mut self) {
        self.move_count = 0;
        for i in 0..self.nodes.len() { self.nodes[i].last_tested = -1; }
    }
    pub unsafe fn load_individual(&mut self, individual: &Individual) { unimplemented!() }
    fn update_individual(&self, individual: &mut Individual) { unimplemented!() }
    pub fn update_route(&mut self, route_ptr: *mut LinkRoute) { unimplemented!() }
    pub fn run(&mut self, ctx: &Context, individual: &mut Individual, penalty_multiplier: f64) {
        unsafe {
            self.ctx = &*(ctx as *const Context);
            self.reset();
            self.update_penalty(penalty_multiplier);
            self.load_individual(individual);
            self.search();
        }
        self.update_individual(individual);
    }

    unsafe fn improve(&mut self, moves: &Vec<Box<dyn Move>>, u: *mut LinkNode, v: *mut LinkNode) -> bool {
        for k in 0..moves.len() {
            if moves[k].delta(self, u, v).approx_lt(0.0) {
                self.move_count += 1;
                moves[k].perform(self, u, v);
                return true;
            }
        }
        false
    }

    unsafe fn search(&mut self) {
        let mut round = 0;
        let mut again = true;
        let moves = &*{ &self.moves as *const Moves };
        while again {
            again = false;
            self.ctx.random.shuffle(self.customers.as_mut_slice());
            let customers = &*{ &self.customers as *const Vec<usize> };
            for &c in customers {
                let near = &mut *{ self.correlation.top_slice_mut(c, self.granularity) as *mut [usize] };
                if self.granularity > 0 && self.ctx.random.range_usize(0, self.granularity) == 0 {
                    self.ctx.random.shuffle(self.correlation.top_slice_mut(c, self.granularity));
                }
                let u = &mut self.nodes[c] as *mut LinkNode;
                let tested = (*u).last_tested;
                (*u).last_tested = self.move_count;
                for &d in near.iter() {
                    let v = &mut self.nodes[d] as *mut LinkNode;
                    let (ru, rv) = ((*u).route, (*v).route);
                    let newer = if (*ru).last_modified > (*rv).last_modified { (*ru).last_modified } else { (*rv).last_modified };
                    if round == 0 || newer > tested {
                        if self.improve(&moves.neighbor, u, v) { again = true; }
                        else {
                            let p = (*v).predecessor;
                            if (*p).is_depot() && self.improve(&moves.depot, u, p) { again = true; }
                        }
                    }
                }
                if round > 0 && !self.empty_routes.is_empty() {
                    let e = *self.empty_routes.iter().next().expect("");
                    let start = (*(&mut self.routes[e] as *mut LinkRoute)).start_depot;
                    if self.improve(&moves.empty_route, u, start) { again = true; }
                }
            }
            if self.ctx.config.borrow().swap_star {
                for a in 0..self.routes.len() {
                    let ra = &mut self.routes[a] as *mut LinkRoute;
                    let tested = (*ra).last_tested_swap_star;
                    (*ra).last_tested_swap_star = self.move_count;
                    for b in a + 1..self.routes.len() {
                        let rb = &mut self.routes[b] as *mut LinkRoute;
                        let newer = if (*ra).last_tested_swap_star > (*rb).last_tested_swap_star { (*ra).last_tested_swap_star } else { (*rb).last_tested_swap_star };
                        if !(*ra).is_empty() && !(*rb).is_empty() && (round == 0 || newer > tested) && (*ra).sector.overlaps(&(*rb).sector) {
                            if SwapStar::run(self, ra, rb) { again = true; }
                        }
                    }
                }
            }
            round += 1;
        }
    }

    pub unsafe fn preprocess_insertions(&mut self, r1_ptr: *mut LinkRoute, r2_ptr: *mut LinkRoute) { unimplemented!() }
    pub unsafe fn cheapest_insert_and_removal(&mut self, u_ptr: *mut LinkNode, v_ptr: *mut LinkNode) -> (*mut LinkNode, f64) {
        let u = (*u_ptr).number;
        let v = (*v_ptr).number;
        let best = self.best_inserts.get((*(*v_ptr).route).index, u);
        let d = &self.ctx.matrix_provider.distance;
        let (before, after) = ((*(*v_ptr).predecessor).number, (*(*v_ptr).successor).number);
        let instead = d.get(before, u) + d.get(u, after) - d.get(before, after);
        // the first of the three places that does not touch v; the third one never does when the first two do
        let mut at = 0;
        let mut free = (*best.locations[0].node).number != v && (*(*best.locations[0].node).successor).number != v;
        if !free && !best.locations[1].node.is_null() {
            at = 1;
            free = (*best.locations[1].node).number != v && (*(*best.locations[1].node).successor).number != v;
            if !free && !best.locations[2].node.is_null() { at = 2; free = true; }
        }
        if !free || instead.approx_lt(best.locations[at].cost) { ((*v_ptr).predecessor, instead) } else { (best.locations[at].node, best.locations[at].cost) }
    }
}

pub struct SwapStar;
impl SwapStar {
    pub unsafe fn run(ls: &mut LocalSearch, r1_ptr: *mut LinkRoute, r2_ptr: *mut LinkRoute) -> bool { unimplemented!() }
}
