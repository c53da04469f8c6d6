From 4f579849584c91eebeb8790054762910fbcaff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 01/14] fix: count self-loops in DirectedGraph::edge_count

A self-loop is stored once in the adjacency map while every other edge is
stored twice, so halving the total under-counted graphs with self-loops and
made topological_sort accept a self-loop graph as a DAG.
---
 core/src/directed_graph.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/src/directed_graph.rs b/core/src/directed_graph.rs
index 767923e..6f3a158 100644
--- a/core/src/directed_graph.rs
+++ b/core/src/directed_graph.rs
@@ -32,12 +32,9 @@ impl DirectedGraph {
     }
 
     pub fn edge_count(&self) -> usize {
-        let mut total_count: usize = 0;
-        for (_, edges) in &self.edge_map {
-            total_count += edges.len();
-        }
-        // Each edge is saved twice => the count should be a multiple of 2, and divided by 2
-        total_count / 2
+        // Most edges are saved twice (once per vertex) but self-loops are saved only once,
+        // so we count each edge from its source vertex
+        self.edges().count()
     }
 
     pub fn contains_vertex(&self, vertex_id: VertexId) -> bool {
-- 
2.43.0


From 5396606f81c9d1244248d06e34822f5995224068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:31 +0000
Subject: [PATCH 02/14] fix: best-first search returns the cheapest path to
 each vertex

BestFirstIter marked a vertex as visited when a path to it was first pushed,
so a cheaper path found later was dropped and A* returned sub-optimal paths
as soon as edges have different weights. Mark a vertex when its best path is
popped instead.
---
 core/src/iter/iter_best.rs | 40 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/core/src/iter/iter_best.rs b/core/src/iter/iter_best.rs
index 3f40749..dec73dd 100644
--- a/core/src/iter/iter_best.rs
+++ b/core/src/iter/iter_best.rs
@@ -25,27 +25,28 @@ where
 {
     type Item = ScoredPath;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.queue.pop() {
-            None => None,
-            Some(weighted_path) => {
-                let vid = weighted_path.path.last().unwrap();
-                self.graph
-                    .outbound_edges(*vid)
-                    .map(|Edge(_, v)| v)
-                    .for_each(|v| {
-                        if !self.visited.contains(v) {
-                            self.visited.insert(*v);
-                            let new_path = weighted_path.path.append(*v);
-                            let new_scored_path = ScoredPath {
-                                path: weighted_path.path.append(*v),
-                                score: (self.scorefn)(self.graph, &new_path),
-                            };
-                            self.queue.push(new_scored_path)
-                        }
-                    });
-                Some(weighted_path)
+        while let Some(weighted_path) = self.queue.pop() {
+            let vid = *weighted_path.path.last().unwrap();
+            // Paths are popped by increasing score: the first path popped for a vertex is its best one
+            if !self.visited.insert(vid) {
+                continue;
             }
+            self.graph
+                .outbound_edges(vid)
+                .map(|Edge(_, v)| v)
+                .for_each(|v| {
+                    if !self.visited.contains(v) {
+                        let new_path = weighted_path.path.append(*v);
+                        let new_scored_path = ScoredPath {
+                            path: weighted_path.path.append(*v),
+                            score: (self.scorefn)(self.graph, &new_path),
+                        };
+                        self.queue.push(new_scored_path)
+                    }
+                });
+            return Some(weighted_path);
         }
+        None
     }
 }
 
@@ -62,7 +63,6 @@ where
     let score = scorefn(&graph, &path);
     let mut iter = empty_best_iter(graph, scorefn);
     iter.queue.push(ScoredPath { path, score });
-    iter.visited.insert(start_vertex);
     iter
 }
 
-- 
2.43.0


From 262338c25569b128f84bf2da5ea4f6bda9b0275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:17 +0000
Subject: [PATCH 03/14] fix: dag_shortest_paths no longer panics on vertices
 unreachable from start

---
 core/src/algorithm/shortest_path.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/core/src/algorithm/shortest_path.rs b/core/src/algorithm/shortest_path.rs
index 5c37b25..6043b31 100644
--- a/core/src/algorithm/shortest_path.rs
+++ b/core/src/algorithm/shortest_path.rs
@@ -36,22 +36,21 @@ where
         .skip_while(|v| **v != start)
         .for_each(|v| {
             graph.outbound_edges(*v).for_each(|edge| {
-                // FIXME is it necessarily true here ...
-                let ScoredPath { path, score } = scores
-                    .get(v)
-                    .expect("The current score of the processed vertex should be in the map");
-                let Edge(_, w) = edge;
-                let new_score = score + scorefn(&edge);
-                if let Some(current_score) = scores.get(w).map(|x| x.score) {
-                    // we found a shorter path to w => we update
-                    if new_score < current_score {
+                // A vertex coming after start in the order is not necessarily reachable from start
+                if let Some(ScoredPath { path, score }) = scores.get(v) {
+                    let Edge(_, w) = edge;
+                    let new_score = score + scorefn(&edge);
+                    if let Some(current_score) = scores.get(w).map(|x| x.score) {
+                        // we found a shorter path to w => we update
+                        if new_score < current_score {
+                            let new_path = path.append(*w);
+                            scores.insert(*w, scored_path_of(new_path, new_score));
+                        }
+                    } else {
                         let new_path = path.append(*w);
                         scores.insert(*w, scored_path_of(new_path, new_score));
-                    }
-                } else {
-                    let new_path = path.append(*w);
-                    scores.insert(*w, scored_path_of(new_path, new_score));
-                };
+                    };
+                }
             });
         });
     scores
-- 
2.43.0


From f823971ac96db94dedc890a8e8548852ac338e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:20 +0000
Subject: [PATCH 04/14] fix: max_flow follows backward edges to their source
 vertex

---
 core/src/algorithm/max_flow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/algorithm/max_flow.rs b/core/src/algorithm/max_flow.rs
index 009f4b9..d5faa43 100644
--- a/core/src/algorithm/max_flow.rs
+++ b/core/src/algorithm/max_flow.rs
@@ -202,7 +202,7 @@ impl<'a> Iterator for AugmentingPathIter<'a> {
             let backward_edges = self
                 .graph
                 .inbound_edges(*vid)
-                .map(|Edge(_, v)| (v, Backward));
+                .map(|Edge(u, _)| (u, Backward));
             // forward + backward edges
             (foward_edges.chain(backward_edges))
                 .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here
-- 
2.43.0


From 7da97dad7c83b624f11ce71e70acd7f87a89f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:22 +0000
Subject: [PATCH 05/14] fix: validate accepts constraints that do not mention
 cycles

---
 core/src/constraint/checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/constraint/checker.rs b/core/src/constraint/checker.rs
index 299ea74..1aa4d5e 100644
--- a/core/src/constraint/checker.rs
+++ b/core/src/constraint/checker.rs
@@ -98,7 +98,7 @@ fn check_cycle_inclusion_exclusion(constraints: &Vec<Constraint>) -> Result<(),
     let contains_no_cycle = negated_constraints(constraints)
         .find(|c| **c == ContainsCycle)
         .is_some();
-    if contains_cycle != contains_no_cycle {
+    if !(contains_cycle && contains_no_cycle) {
         ok()
     } else {
         fail(format![
-- 
2.43.0


From 6bdd537edd5ca4653426a07ed3e54a7ef171c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:24 +0000
Subject: [PATCH 06/14] fix: max-score option builds a MaxScore constraint

---
 command/src/arg_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/src/arg_utils.rs b/command/src/arg_utils.rs
index 5d72cca..be3f976 100644
--- a/command/src/arg_utils.rs
+++ b/command/src/arg_utils.rs
@@ -103,7 +103,7 @@ pub fn build_constraint_min_score(score: i64) -> Constraint {
 }
 
 pub fn build_constraint_max_score(score: i64) -> Constraint {
-    MinScore(score)
+    MaxScore(score)
 }
 
 pub fn build_constraint_exact_score(score: i64) -> Vec<Constraint> {
-- 
2.43.0


From da94c1d4e3dd8eae673f09a39e7d9b346577d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:43 +0000
Subject: [PATCH 07/14] fix: malformed ids and invalid UTF-8 in graph files are
 reported as errors instead of panicking

---
 core/src/format/gcmd.rs  | 12 ++++++------
 core/src/format/tgf.rs   |  6 +++---
 core/src/format/utils.rs |  8 +++++++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index fd77c0a..68c942d 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -49,18 +49,18 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = ADD_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
+        let v2 = &utils::parse_id(&cap[2])?;
         Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
     } else if let Some(cap) = ADD_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
         Ok(AddVertex(VertexId(*v1)))
     } else if let Some(cap) = REMOVE_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
+        let v2 = &utils::parse_id(&cap[2])?;
         Ok(RemoveEdge(VertexId(*v1), VertexId(*v2)))
     } else if let Some(cap) = REMOVE_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
         Ok(RemoveVertex(VertexId(*v1)))
     } else {
         Err(format!["Couldn't parse '{}'", line])
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 6b7ea0a..c1b4478 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -33,11 +33,11 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
+        let v2 = &utils::parse_id(&cap[2])?;
         Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
     } else if let Some(cap) = VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
         Ok(AddVertex(VertexId(*v1)))
     } else {
         Err(format!["Couldn't parse '{}'", line])
diff --git a/core/src/format/utils.rs b/core/src/format/utils.rs
index 5c89f31..e062e71 100644
--- a/core/src/format/utils.rs
+++ b/core/src/format/utils.rs
@@ -39,7 +39,7 @@ where
     let reader = BufReader::new(file);
     let mut result: Vec<GraphCommand> = vec![];
     for (index, line) in reader.lines().enumerate() {
-        let line = line.unwrap(); // Ignore errors.
+        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;
         if !line.is_empty() && !is_comment(&line) {
             match parse_line(&line) {
                 Ok(command) => result.push(command),
@@ -49,3 +49,9 @@ where
     }
     Ok(result)
 }
+
+/// Parses a vertex id. A sequence of digits is not necessarily a valid id (ie overflow)
+pub fn parse_id(id: &str) -> Result<u64, String> {
+    id.parse::<u64>()
+        .map_err(|err| format!["Invalid vertex id '{}': {}", id, err])
+}
-- 
2.43.0


From 85faf1b2d0a25e8196e2352b0c609d3cc0803756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:45 +0000
Subject: [PATCH 08/14] fix: report write errors when saving graph files

---
 core/src/format/gcmd.rs | 6 ++++--
 core/src/format/tgf.rs  | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index 68c942d..83bd92a 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -87,7 +87,8 @@ pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln![buffered, "AddEdge {} {}", src, dest]?;
     }
-    Ok(())
+    // Errors are ignored when the writer is dropped, so flushing explicitly
+    buffered.flush()
 }
 
 /// Updates an existing file with a list of GraphCommand
@@ -99,7 +100,8 @@ pub fn add_commands(filename: &str, commands: Vec<GraphCommand>) -> std::io::Res
         let line = command_into_line(command);
         writeln![buffered, "{}", line]?;
     }
-    Ok(())
+    // Errors are ignored when the writer is dropped, so flushing explicitly
+    buffered.flush()
 }
 
 fn command_into_line(command: GraphCommand) -> String {
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index c1b4478..4a41d3d 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -64,7 +64,8 @@ pub fn save(graph: &DirectedGraph, filename: String) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln!(buffered, "{} {}", src, dest)?;
     }
-    Ok(())
+    // Errors are ignored when the writer is dropped, so flushing explicitly
+    buffered.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 868e1e59a133270b6c963836125b20cd2416b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:06 +0000
Subject: [PATCH 09/14] fix: lock fails when the graph is already locked

---
 command/src/graph_utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 28e40d6..4d192c0 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -26,7 +26,14 @@ pub fn init(root_dir: &str) -> io::Result<()> {
 /// Creates a lock file indicating a command is already getting process
 /// Any command execution be put on hold / fail straight away if the lock file exists
 pub fn lock(root_dir: &str) -> io::Result<()> {
-    touch(lock_path(root_dir).as_ref())
+    let path = lock_path(root_dir);
+    path.parent().map(|parent| fs::create_dir_all(parent));
+    // Fails if the lock file already exists
+    fs::OpenOptions::new()
+        .create_new(true)
+        .write(true)
+        .open(path)
+        .map(|_| ())
 }
 
 /// Removes the lock file to indicate
-- 
2.43.0


From b514260a5a10029acdabdbe7d59cb628f15b3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:08 +0000
Subject: [PATCH 10/14] fix: gc-add and gc-delete fail when the graph could not
 be updated

---
 command/src/bin/gc-add.rs    | 12 ++++++------
 command/src/bin/gc-delete.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/command/src/bin/gc-add.rs b/command/src/bin/gc-add.rs
index 87940d6..c456773 100644
--- a/command/src/bin/gc-add.rs
+++ b/command/src/bin/gc-add.rs
@@ -90,7 +90,7 @@ fn main() {
     args.values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::add_vertices(path, vids));
+        .map(|vids| graph_utils::add_vertices(path, vids).expect("Couldn't add vertices"));
 
     args.values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
@@ -100,13 +100,13 @@ fn main() {
                 .expect("Invalid number of vertices. Must be an even number")
         })
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn't add edges"));
 
     args.values_of("chain")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| chain_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn't add edges"));
 
     args.values_of("cycle")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
@@ -114,18 +114,18 @@ fn main() {
             cycle_from_vertices(vids.map(|vid| VertexId(vid)).collect()).expect("Invalid cycle")
         })
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn't add edges"));
 
     args.values_of("star")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| star_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn't add edges"));
 
     args.values_of("clique")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| clique_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn't add edges"));
 }
 
 fn chain_from_vertices(vertices: Vec<VertexId>) -> Vec<(VertexId, VertexId)> {
diff --git a/command/src/bin/gc-delete.rs b/command/src/bin/gc-delete.rs
index 905a639..f6b9913 100644
--- a/command/src/bin/gc-delete.rs
+++ b/command/src/bin/gc-delete.rs
@@ -44,11 +44,11 @@ fn main() {
     args.values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::remove_vertices(path, vids));
+        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn't remove vertices"));
 
     args.values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
         .map(|vids| arg_utils::as_vertex_tuple(vids).expect("Invalid number of vertices. Must be an even number"))
-        .map(|vids| graph_utils::remove_edges(path, vids));
+        .map(|vids| graph_utils::remove_edges(path, vids).expect("Couldn't remove edges"));
 }
-- 
2.43.0


From e718a482123519c5302459535e92c85b45d9a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:11 +0000
Subject: [PATCH 11/14] fix: gc-cycle accepts several vertices and edges for
 include-all and exclude-all options

---
 command/src/bin/gc-cycle.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index f22fa24..9bb6559 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -140,28 +140,32 @@ fn main() {
                 .long("include-all")
                 .help("Return all the cycles from the graph that are including all the provided vertices")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(1),
         )
         .arg(
             Arg::with_name("exclude-all")
                 .long("exclude-all")
                 .help("Return all the cycles from the graph that not including any of the provided vertices")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(1),
         )
         .arg(
             Arg::with_name("include-all-edges")
                 .long("include-all-edges")
                 .help("Return all the cycles from the graph that are including all the provided edges")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(2),
         )
         .arg(
             Arg::with_name("exclude-all-edges")
                 .long("exclude-all-edges")
                 .help("Return all the cycles from the graph that not including any of the provided edges")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(2),
         )
         .get_matches();
 
-- 
2.43.0


From 7f5c68575e8f4dbb8b30d2e5e67078736207bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:13 +0000
Subject: [PATCH 12/14] fix: gc-csp and gc-cycle reject invalid option values
 instead of dropping the constraint

---
 command/src/bin/gc-csp.rs   | 18 +++++++++---------
 command/src/bin/gc-cycle.rs | 22 +++++++++++-----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/command/src/bin/gc-csp.rs b/command/src/bin/gc-csp.rs
index 72d0f79..c3940fa 100644
--- a/command/src/bin/gc-csp.rs
+++ b/command/src/bin/gc-csp.rs
@@ -148,17 +148,17 @@ fn main() {
 
     let include = args
         .values_of("include")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_include);
 
     let exclude = args
         .values_of("exclude")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_exclude);
 
     let ordered = args
         .values_of("ordered")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_ordered);
 
     let include_cycle = arg_utils::option_of(args.is_present("include-cycle"),
@@ -169,32 +169,32 @@ fn main() {
 
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid min-length"))
         .map(arg_utils::build_constraint_min_length);
 
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid max-length"))
         .map(arg_utils::build_constraint_max_length);
 
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid exact-length"))
         .map(arg_utils::build_constraint_exact_length);
 
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid min-score"))
         .map(arg_utils::build_constraint_min_score);
 
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid max-score"))
         .map(arg_utils::build_constraint_max_score);
 
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid exact-score"))
         .map(arg_utils::build_constraint_exact_score);
 
 
diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index 9bb6559..56183ff 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -183,49 +183,49 @@ fn main() {
         Some(1)
     } else {
         args.value_of("take-n")
-            .and_then(|x| x.parse::<usize>().ok())
+            .map(|x| x.parse::<usize>().expect("Invalid take-n"))
     };
     let take_all = args.is_present("all");
     // Constraints
     let include_all = args
         .values_of("include-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_include);
     let exclude_all = args
         .values_of("exclude-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_exclude);
     let include_all_edges = args
         .values_of("include-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| arg_utils::parse_edge_list(ids.collect()).expect("Invalid edge"))
         .map(arg_utils::build_constraint_include_edges);
     let exclude_all_edges = args
         .values_of("exclude-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| arg_utils::parse_edge_list(ids.collect()).expect("Invalid edge"))
         .map(arg_utils::build_constraint_exclude_edges);
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid min-length"))
         .map(arg_utils::build_constraint_min_length);
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid max-length"))
         .map(arg_utils::build_constraint_max_length);
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid exact-length"))
         .map(arg_utils::build_constraint_exact_length);
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid min-score"))
         .map(arg_utils::build_constraint_min_score);
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid max-score"))
         .map(arg_utils::build_constraint_max_score);
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid exact-score"))
         .map(arg_utils::build_constraint_exact_score);
 
     let constraints = build_all_constraints(
-- 
2.43.0


From 9afbe9ca4faa2496dd354853d9c4a48336f5c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:35 +0000
Subject: [PATCH 13/14] fix: gc-cycle takes the closing edge of a cycle into
 account in edge constraints

---
 command/src/bin/gc-cycle.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index 56183ff..ea88cfa 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -331,8 +331,29 @@ where
 {
     let path = cycle.as_path();
     let score = scorefn(graph, &path);
+    // The edge coming back to the first vertex is part of the cycle
+    let closed_path = path.first().map(|vid| path.append(*vid));
     let scored_path = path::ScoredPath { path, score };
-    constraints.iter().all(|c| c.check_complete(&scored_path))
+    let closed_scored_path = path::ScoredPath {
+        path: closed_path.unwrap_or(path::Path::empty()),
+        score,
+    };
+    constraints.iter().all(|c| {
+        if is_edge_constraint(c) {
+            c.check_complete(&closed_scored_path)
+        } else {
+            c.check_complete(&scored_path)
+        }
+    })
+}
+
+// Checks if the constraint includes or excludes an edge
+fn is_edge_constraint(constraint: &Constraint) -> bool {
+    match constraint {
+        Constraint::ContainsEdge(_) => true,
+        Constraint::Not(c) => is_edge_constraint(c),
+        _ => false,
+    }
 }
 
 // Formatter
-- 
2.43.0


From c4b6fd7186104b1686bd682862947b4df450847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:37 +0000
Subject: [PATCH 14/14] fix: gc-build holds the lock while rewriting the graph

---
 command/src/bin/gc-build.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/command/src/bin/gc-build.rs b/command/src/bin/gc-build.rs
index ba884ec..d150785 100644
--- a/command/src/bin/gc-build.rs
+++ b/command/src/bin/gc-build.rs
@@ -1,6 +1,7 @@
 use clap::{App, Arg};
 use gc_command::graph_utils;
 use gc_command::version;
+use std::io::{Error, ErrorKind};
 
 fn main() {
     let args = App::new("gc-build")
@@ -31,14 +32,18 @@ fn main() {
     let path = args.value_of("path").unwrap();
     let verbose = args.is_present("verbose");
 
-    let graph = graph_utils::load_graph(path).expect("Couldn't load graph");
+    // The lock is held from the time the commands are read until they are all rewritten,
+    // so that no command can be added in between
+    let graph = graph_utils::with_lock(path, || {
+        let graph = graph_utils::load_graph(path).map_err(|msg| Error::new(ErrorKind::Other, msg))?;
+        graph_utils::save_graph_as_commands(path, &graph)?;
+        Ok(graph)
+    })
+    .expect("Couldn't load or save graph. Data maybe lost !");
     if verbose {
         println!("Vertices: {}", graph.vertex_count());
         println!("Edges: {}", graph.edge_count());
     }
 
-    graph_utils::save_graph_as_commands(path, &graph)
-        .expect("Couldn't save graph. Data maybe lost !");
-
     println!("Done.")
 }
-- 
2.43.0

