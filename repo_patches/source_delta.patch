From 72df1d33888ff963bd6cfcb815aa4a342ec90ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 01/20] fix: do not call the allocator with an empty layout in
 Matrix

---
 src/models/matrix.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/models/matrix.rs b/src/models/matrix.rs
index 0a0e797..6f8972e 100644
--- a/src/models/matrix.rs
+++ b/src/models/matrix.rs
@@ -1,6 +1,7 @@
 use std::{
     alloc::{alloc_zeroed, dealloc, Layout},
     fmt::Display,
+    ptr::NonNull,
 };
 
 use lazysort::SortedBy;
@@ -26,9 +27,11 @@ impl<T: Copy> Matrix<T> {
         // Allocate memory for the matrix
         let elements = rows * cols;
         let layout = Layout::array::<T>(elements).expect("Failed to create layout for matrix");
-        let ptr = unsafe {
-            let ptr = alloc_zeroed(layout) as *mut T;
-            ptr
+        // The allocator must not be called with an empty layout
+        let ptr = if layout.size() == 0 {
+            NonNull::dangling().as_ptr()
+        } else {
+            unsafe { alloc_zeroed(layout) as *mut T }
         };
 
         Self { rows, cols, ptr }
@@ -123,7 +126,9 @@ where
     fn drop(&mut self) {
         let layout =
             Layout::array::<T>(self.rows * self.cols).expect("Failed to create layout for matrix");
-        unsafe { dealloc(self.ptr as *mut u8, layout) };
+        if layout.size() > 0 {
+            unsafe { dealloc(self.ptr as *mut u8, layout) };
+        }
     }
 }
 
-- 
2.43.0


From e03778c7fe9ec8cc22ac6d689933ae9be462ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 02/20] fix: keep the local search granularity within the
 correlation matrix

---
 src/models/matrix.rs                   | 7 ++++++-
 src/solver/improvement/local_search.rs | 5 +++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/models/matrix.rs b/src/models/matrix.rs
index 6f8972e..6b08a4c 100644
--- a/src/models/matrix.rs
+++ b/src/models/matrix.rs
@@ -395,7 +395,7 @@ pub struct CorrelationMatrix {
 impl CorrelationMatrix {
     pub fn new(distance_matrix: &DistanceMatrix) -> Self {
         let size = distance_matrix.size();
-        let width = CORRELATION_LIMIT.min(size - 2);
+        let width = CORRELATION_LIMIT.min(size.saturating_sub(2));
         let mut matrix: Matrix<usize> = Matrix::new(size, width);
         for i in 0..size {
             distance_matrix
@@ -417,6 +417,11 @@ impl CorrelationMatrix {
         }
     }
 
+    /// Number of correlated nodes stored for every node
+    pub fn width(&self) -> usize {
+        self.width
+    }
+
     pub fn get(&self, index: usize) -> &[usize] {
         self.slice(index, 0, self.width)
     }
diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 5085db1..c56606b 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -80,7 +80,8 @@ impl LocalSearch {
                     num_vehicles,
                     ctx.problem.dim(),
                 ),
-                granularity: ctx.config.borrow().local_search_granularity as usize,
+                granularity: (ctx.config.borrow().local_search_granularity as usize)
+                    .min(ctx.matrix_provider.correlation.width()),
                 correlation: ctx.matrix_provider.correlation.clone(),
                 routes: routes,
                 move_count: 0,
@@ -160,7 +161,7 @@ impl LocalSearch {
                 let cor = &mut *{
                     self.correlation.top_slice_mut(*u_index, self.granularity) as *mut [usize]
                 };
-                if self.ctx.random.range_usize(0, self.granularity) == 0 {
+                if self.granularity > 0 && self.ctx.random.range_usize(0, self.granularity) == 0 {
                     self.ctx
                         .random
                         .shuffle(self.correlation.top_slice_mut(*u_index, self.granularity));
-- 
2.43.0


From fc52e34a77206e0bbfb5bdd07d00b2962a5c5468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 03/20] fix: do not loop forever in crossover with a single
 customer

---
 src/solver/genetic/genetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index ddfd35c..99a8260 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -72,7 +72,7 @@ impl GeneticAlgorithm {
         let mut end;
         loop {
             end = ctx.random.range_usize(0, parent_one.genotype.len());
-            if start != end {
+            if start != end || parent_one.genotype.len() == 1 {
                 break;
             }
         }
-- 
2.43.0


From f3d08b08104e6141f3d967dfeaa3926385409e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 04/20] fix: seed the hasher of the ruined routes in
 deterministic mode

---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 2368413..2238bbc 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -40,7 +40,7 @@ impl RuinRecreateSolution {
         Self {
             routes,
             unassigned,
-            ruined_routes: HashSet::with_hasher(RandomState::new()),
+            ruined_routes: HashSet::with_hasher(ctx.random.random_state()),
             locations,
             cost: f64::INFINITY,
         }
-- 
2.43.0


From 9b1918a5ff5c1912d16cd906076e67ab0d9f391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 05/20] fix: evaluate the loaded solution before it becomes the
 current solution

---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 2238bbc..1dcf53b 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -176,9 +176,9 @@ impl RuinRecreate {
 
         // Load solution
         self.solution.load(individual);
-        self.current_solution = self.solution.clone();
         let routes: Vec<usize> = (0..self.solution.routes.len()).into_iter().collect();
         self.solution.evaluate(self.ctx, routes.iter());
+        self.current_solution = self.solution.clone();
         self.acceptance.reset();
         // self.acceptance.print();
 
-- 
2.43.0


From b07222f01d9d636dcc15b825e2c8015a7aa34073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 06/20] fix: compare the successor of the customer in the
 broken pairs distance

---
 src/solver/genetic/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/individual.rs b/src/solver/genetic/individual.rs
index 481d778..634d6ba 100644
--- a/src/solver/genetic/individual.rs
+++ b/src/solver/genetic/individual.rs
@@ -115,7 +115,7 @@ impl Individual {
             // If the predecessor of self is a depot, but neither the predecessor or successor of the other is a depot
             if self.predecessor(index) == 0
                 && other.predecessor(index) != 0
-                && other.successor(0) != 0
+                && other.successor(index) != 0
             {
                 distance += 1;
             }
-- 
2.43.0


From 0607de51c4ecae9196fe9143c1dae2daf0f1cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 07/20] fix: reset temperature and completion of the time
 schedule

---
 src/solver/improvement/ruin_recreate/schedule.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/improvement/ruin_recreate/schedule.rs b/src/solver/improvement/ruin_recreate/schedule.rs
index 8dbc737..8b03a5f 100644
--- a/src/solver/improvement/ruin_recreate/schedule.rs
+++ b/src/solver/improvement/ruin_recreate/schedule.rs
@@ -158,6 +158,8 @@ impl Acceptance for TimeSchedule {
         self.start = Instant::now();
         self.iterations = 0;
         self.iterations_since_update = 0;
+        self.temp = self.start_temp;
+        self.completed = false;
     }
 
     fn print(&self) {
-- 
2.43.0


From 39bf24a20f5300718ced3c78b266eb4298d2e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 08/20] fix: let command line arguments override the config
 only when given

---
 src/cli.rs    | 9 ++++-----
 src/config.rs | 8 ++++++--
 src/main.rs   | 3 +++
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 3c47c90..98e60ad 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -6,7 +6,7 @@ pub struct Args {
     pub solution_path: Option<String>,
     pub time_limit: Option<u64>,
     pub max_iterations: Option<u64>,
-    pub rounded: bool,
+    pub rounded: Option<bool>,
 }
 
 impl Args {
@@ -25,7 +25,6 @@ impl Args {
                 Arg::with_name("solution_path")
                     .short("o")
                     .takes_value(true)
-                    .default_value("output.sol")
                     .help("Path to solution output"),
             )
             .arg(
@@ -38,14 +37,12 @@ impl Args {
                 Arg::with_name("time_limit")
                     .short("t")
                     .takes_value(true)
-                    .default_value("10")
                     .help("Time limit in seconds"),
             )
             .arg(
                 Arg::with_name("rounded")
                     .short("r")
                     .takes_value(true)
-                    .default_value("true")
                     .help("Rounded distances"),
             )
             .get_matches();
@@ -65,7 +62,9 @@ impl Args {
             .value_of("time_limit")
             .map(|value| value.parse::<u64>().expect("Invalid time limit argument!"));
 
-        let rounded = matches.is_present("rounded");
+        let rounded = matches
+            .value_of("rounded")
+            .map(|value| value.parse::<bool>().expect("Invalid rounded argument!"));
 
         Self {
             instance_path,
diff --git a/src/config.rs b/src/config.rs
index b1a5ef6..e83d9c9 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -213,13 +213,17 @@ impl Config {
     /// Update config with command line arguments
     pub fn update_from_args(&mut self, args: &Args) {
         self.instance_path = args.instance_path.clone();
-        self.solution_path = args.solution_path.clone();
+        if args.solution_path.is_some() {
+            self.solution_path = args.solution_path.clone();
+        }
         if let Some(max_iterations) = args.max_iterations {
             self.max_iterations_without_improvement = max_iterations;
         }
         if let Some(time_limit) = args.time_limit {
             self.time_limit = time_limit;
         }
-        self.round_distances = args.rounded;
+        if let Some(rounded) = args.rounded {
+            self.round_distances = rounded;
+        }
     }
 }
diff --git a/src/main.rs b/src/main.rs
index 1f5381f..d885042 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -25,6 +25,9 @@ fn main() {
     // Parse command line arguments
     let args = Args::parse();
     config.update_from_args(&args);
+    if config.solution_path.is_none() {
+        config.solution_path = Some("output.sol".to_owned());
+    }
 
     log::info!("Loading problem file: {}", config.instance_path);
     let mut parser = utils::ProblemParser::new();
-- 
2.43.0


From 044698b0c34454572f4bcde075d342b4030c976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 09/20] fix: reject unreadable or truncated problem files

---
 src/utils/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index a75775b..905c7da 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -67,6 +67,8 @@ impl ProblemParser {
         let capacity = Self::parse_capacity(&lines);
         let coords = Self::parse_coords(&lines, dimension);
         let demands = Self::parse_demands(&lines, dimension);
+        assert_eq!(coords.len(), dimension, "Missing coordinates");
+        assert_eq!(demands.len(), dimension, "Missing demands");
         let nodes = Self::create_nodes(coords, demands);
         let vehicle = Self::create_vehicle(0, capacity);
 
@@ -79,6 +81,10 @@ impl ProblemParser {
             EdgeWeightType::Explicit => match Self::parse_edge_weight_format(&lines) {
                 EdgeWeightFormat::LowerRow => {
                     let matrix = Self::parse_lower_row_matrix(&lines, dimension);
+                    assert_eq!(matrix.len(), dimension - 1, "Missing edge weights");
+                    for (i, row) in matrix.iter().enumerate() {
+                        assert_eq!(row.len(), i + 1, "Wrong number of edge weights");
+                    }
                     self.matrix = Some(matrix);
                 }
             },
@@ -88,7 +94,10 @@ impl ProblemParser {
     fn read_file(path: &Path) -> Lines {
         let file = File::open(path).expect("Failed to open file");
         let reader = BufReader::new(file);
-        let line_strings: Vec<String> = reader.lines().filter_map(|line| line.ok()).collect();
+        let line_strings: Vec<String> = reader
+            .lines()
+            .map(|line| line.expect("Failed to read file"))
+            .collect();
 
         line_strings
             .iter()
-- 
2.43.0


From de816806d2f1020f0064f06e1645d353a52683d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 10/20] fix: order individuals by exact cost so that the order
 is transitive

---
 src/solver/genetic/individual.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solver/genetic/individual.rs b/src/solver/genetic/individual.rs
index 634d6ba..f3bf205 100644
--- a/src/solver/genetic/individual.rs
+++ b/src/solver/genetic/individual.rs
@@ -2,7 +2,6 @@ use std::cmp::Ordering;
 
 use crate::solver::Context;
 use crate::solver::SolutionEvaluation;
-use crate::utils::FloatCompare;
 
 #[derive(Debug, Clone)]
 pub struct Individual {
@@ -177,7 +176,7 @@ impl PartialOrd for Individual {
 
 impl PartialEq for Individual {
     fn eq(&self, other: &Self) -> bool {
-        self.penalized_cost().approx_eq(other.penalized_cost())
+        self.penalized_cost() == other.penalized_cost()
     }
 }
 
-- 
2.43.0


From 8bdb81b267518a04f470cd7bb3c736e47afd84c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 11/20] fix: do not overflow when deriving hasher seeds

---
 src/utils/random.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/random.rs b/src/utils/random.rs
index 6bfdce7..8366a5b 100644
--- a/src/utils/random.rs
+++ b/src/utils/random.rs
@@ -60,7 +60,12 @@ impl Random {
 
     pub fn random_state(&self) -> RandomState {
         if let Some(seed) = self.seed {
-            RandomState::with_seeds(seed, seed + 123, seed + 321, seed + 1337)
+            RandomState::with_seeds(
+                seed,
+                seed.wrapping_add(123),
+                seed.wrapping_add(321),
+                seed.wrapping_add(1337),
+            )
         } else {
             RandomState::new()
         }
-- 
2.43.0


From ccbe932b9ae6d4926701c857b5154aca4bc4223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 12/20] fix: count local search loops when SWAP* is disabled

---
 src/solver/improvement/local_search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index c56606b..6ad7a6b 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -260,8 +260,8 @@ impl LocalSearch {
                         }
                     }
                 }
-                loop_count += 1;
             }
+            loop_count += 1;
         }
     }
 
-- 
2.43.0


From 3aabd533f1ed4a191f2703f195e9b84af9868fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 13/20] fix: try the depot moves with the depot in front of the
 customer

---
 src/solver/improvement/local_search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 6ad7a6b..58f985f 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -200,10 +200,10 @@ impl LocalSearch {
                         let v_pred = (*v).predecessor;
                         if (*v_pred).is_depot() {
                             for m in moves.depot.iter() {
-                                let delta = m.delta(&self, u, v);
+                                let delta = m.delta(&self, u, v_pred);
                                 if delta.approx_lt(0.0) {
                                     self.move_count += 1;
-                                    m.perform(self, u, v);
+                                    m.perform(self, u, v_pred);
                                     route_u = (*u).route;
                                     improvement = true;
                                     continue 'v_loop;
-- 
2.43.0


From 77d6706eeef739659c41749e08d9605fa7000061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 14/20] fix: respect the time and iteration limits in the
 decomposed algorithm

---
 src/solver/genetic/decomposition.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 78e886c..6059c42 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -51,11 +51,11 @@ impl DecomposedGeneticAlgorithm {
         loop {
             let cost_before = rr.best_cost();
             rr.acceptance.reset();
-            while !rr.complete() {
+            while !rr.complete() && !ctx.terminate() {
                 rr.search();
             }
             rr.get_best_solution(&mut self.global_ga.child);
-            if rr.best_cost().approx_gte(cost_before) {
+            if rr.best_cost().approx_gte(cost_before) || ctx.terminate() {
                 break;
             }
         }
@@ -78,6 +78,7 @@ impl Metaheuristic for DecomposedGeneticAlgorithm {
                 self.state = State::Cycle;
             }
             State::Cycle => {
+                ctx.next_iteration();
                 // panic!("{:?}", self.global_solution);
                 // println!("{:?}", self.global_solution);
                 // self.global_solution.print();
@@ -102,7 +103,7 @@ impl Metaheuristic for DecomposedGeneticAlgorithm {
                 let rr = &mut self.global_ga.rr;
                 rr.acceptance.reset();
                 rr.load(ctx, &mut self.global_ga.child);
-                while !rr.complete() {
+                while !rr.complete() && !ctx.terminate() {
                     rr.search();
                 }
                 rr.get_best_solution(&mut self.global_ga.child);
-- 
2.43.0


From 475e29b972ed0148d8395e778cbc281a74e6f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 15/20] fix: keep all customers when no split satisfies the
 load limit

---
 src/solver/genetic/split.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/split.rs b/src/solver/genetic/split.rs
index ce64233..1452a92 100644
--- a/src/solver/genetic/split.rs
+++ b/src/solver/genetic/split.rs
@@ -181,8 +181,14 @@ impl Split {
         let max_vehicles = max_vehicles.max(ctx.vehicle_lower_bound()) as usize;
         self.load(ctx, individual);
 
-        if !self.split(ctx, individual, max_vehicles) {
+        if !self.split(ctx, individual, max_vehicles)
+            && !self.split_limited_fleet(ctx, individual, max_vehicles)
+        {
+            // No split of all the customers satisfies the limit on the load of the routes
+            let capacity_factor = ctx.config.borrow().split_capacity_factor;
+            ctx.config.borrow_mut().split_capacity_factor = f64::INFINITY;
             self.split_limited_fleet(ctx, individual, max_vehicles);
+            ctx.config.borrow_mut().split_capacity_factor = capacity_factor;
         }
         individual.sort_routes(ctx);
         individual.evaluate(ctx);
-- 
2.43.0


From 846c77fb9c4f8486bb62b8b919dba7fe94bffcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 16/20] fix: keep the best solution also when ruin and recreate
 recorded it

---
 src/solver/genetic/genetic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index 99a8260..2c1f827 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -252,11 +252,16 @@ impl GeneticAlgorithm {
             self.best_iteration = self.iterations;
             self.current_best_solution_cost = self.child.penalized_cost();
             let mut search_history = ctx.search_history.borrow_mut();
+            if self.best_solution.as_ref().map_or(true, |best_solution| {
+                self.current_best_solution_cost
+                    .approx_lt(best_solution.penalized_cost())
+            }) {
+                self.best_solution = Some(self.child.clone());
+            }
             if self
                 .current_best_solution_cost
                 .approx_lt(search_history.best_cost)
             {
-                self.best_solution = Some(self.child.clone());
                 search_history.add_message(format!("New best: {:.2}", self.child.penalized_cost()));
                 search_history.add(ctx, &self.child);
             }
-- 
2.43.0


From fa96aebac74a030a64d838880d84563d21a9dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 17/20] fix: keep the number of routes constant through the
 decomposition

---
 src/solver/genetic/decomposition.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 6059c42..18a3e7b 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -164,10 +164,18 @@ impl<'a> Decomposition<'a> {
             sub_ga.iterate(&self.ctx);
         }
 
-        self.solution = sub_ga.best_solution.unwrap();
+        // The routes of the subproblem share the fleet with the rest of the global solution
+        let max_routes = (self.ctx.config.borrow().num_vehicles as usize)
+            .saturating_sub(self.global.num_nonempty_routes());
+        if let Some(best_solution) = sub_ga.best_solution {
+            if best_solution.num_nonempty_routes() <= max_routes {
+                self.solution = best_solution;
+            }
+        }
     }
 
     pub fn finish(self, ctx: &Context) {
+        self.global.phenotype.retain(|route| !route.is_empty());
         for route in self.solution.phenotype.iter() {
             let new_route: Vec<usize> = route
                 .iter()
@@ -177,6 +185,11 @@ impl<'a> Decomposition<'a> {
                 self.global.phenotype.push(new_route);
             }
         }
+        // The solution must have a route for each vehicle
+        let num_vehicles = ctx.config.borrow().num_vehicles as usize;
+        while self.global.phenotype.len() < num_vehicles {
+            self.global.phenotype.push(Vec::new());
+        }
         self.global.genotype = self.global.phenotype.iter().flatten().copied().collect();
         self.global.sort_routes(ctx);
         self.global.evaluate(ctx);
-- 
2.43.0


From 77a35df0d193616fbcf2d51df125bc59b01fbbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 18/20] fix: evaluate the elite individual with the reset
 penalty

---
 src/solver/genetic/genetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index 2c1f827..fc7d24c 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -329,12 +329,12 @@ impl Metaheuristic for GeneticAlgorithm {
                     self.rr.search();
                 } else {
                     self.state = State::Initialization;
+                    ctx.reset_penalty();
                     self.rr.get_best_solution(&mut self.child);
                     self.update_best(ctx);
                     self.population
                         .add_individual(ctx, self.child.clone(), false);
                     self.rr.setup_mutation(ctx);
-                    ctx.reset_penalty();
                     self.log(ctx);
                 }
             }
-- 
2.43.0


From 19502dac1d063feaa7f0fc237128f32a2c304c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 19/20] fix: keep customers at angle zero in the circle sector

---
 src/models/circle_sector.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/models/circle_sector.rs b/src/models/circle_sector.rs
index fcbd570..e81e553 100644
--- a/src/models/circle_sector.rs
+++ b/src/models/circle_sector.rs
@@ -6,25 +6,32 @@ const MAX_ANGLE: i32 = 65536;
 pub struct CircleSector {
     pub start: i32,
     pub end: i32,
+    empty: bool,
 }
 
 impl CircleSector {
     pub fn new() -> Self {
-        Self { start: 0, end: 0 }
+        Self {
+            start: 0,
+            end: 0,
+            empty: true,
+        }
     }
 
     pub fn reset(&mut self) {
         self.start = 0;
         self.end = 0;
+        self.empty = true;
     }
 
     pub fn from_angle(&mut self, angle: i32) {
         self.start = angle;
         self.end = angle;
+        self.empty = false;
     }
 
     pub fn extend(&mut self, angle: i32) {
-        if self.start == 0 && self.end == 0 {
+        if self.empty {
             self.from_angle(angle);
         } else {
             if !self.is_enclosed(angle) {
-- 
2.43.0


From 72e42cbcfaa928ab6b4e86b69adb9d5749bcea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 20/20] fix: Reject instances whose coordinates and demands
 list different nodes

---
 src/utils/parser.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index 905c7da..e8e3b95 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -69,6 +69,11 @@ impl ProblemParser {
         let demands = Self::parse_demands(&lines, dimension);
         assert_eq!(coords.len(), dimension, "Missing coordinates");
         assert_eq!(demands.len(), dimension, "Missing demands");
+        assert!(
+            Self::parse_numbers(&lines, "NODE_COORD_SECTION", dimension)
+                == Self::parse_numbers(&lines, "DEMAND_SECTION", dimension),
+            "Coordinates and demands must list the nodes in the same order"
+        );
         let nodes = Self::create_nodes(coords, demands);
         let vehicle = Self::create_vehicle(0, capacity);
 
@@ -191,6 +196,20 @@ impl ProblemParser {
         panic!("Could not find DEMAND_SECTION");
     }
 
+    fn parse_numbers(lines: &Lines, section: &str, number: usize) -> Vec<String> {
+        for (line_number, line) in lines.iter().enumerate() {
+            if !line.is_empty() && line[0] == section {
+                return lines
+                    .iter()
+                    .skip(line_number + 1)
+                    .take(number)
+                    .map(|line| line[0].clone())
+                    .collect();
+            }
+        }
+        panic!("Could not find {}", section);
+    }
+
     fn parse_lower_row_matrix(lines: &Lines, number: usize) -> Vec<Vec<f64>> {
         for (line_number, line) in lines.iter().enumerate() {
             if !line.is_empty() && line[0] == "EDGE_WEIGHT_SECTION" {
-- 
2.43.0

