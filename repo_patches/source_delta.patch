From 27da33d2f4b13addd165236bb93525f22f277c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:13 +0000
Subject: [PATCH 01/21] fix: reset a router's buffers before fitting them to
 the next graph

The comparison used the number of directions instead of the number of nodes, hence graphs with exactly
two nodes, and graphs smaller than the one before, let the query panic.
---
 src/routing/dijkstra.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/routing/dijkstra.rs b/src/routing/dijkstra.rs
index acdb424..c6dec05 100644
--- a/src/routing/dijkstra.rs
+++ b/src/routing/dijkstra.rs
@@ -72,16 +72,15 @@ impl Dijkstra {
         // fwd and bwd
         for &dir in &[Direction::FWD, Direction::BWD] {
             let dir = self.dir_idx(dir);
-            if self.costs.len() != new_len {
-                self.costs[dir].resize(new_len, std::f64::INFINITY);
-                self.predecessors[dir].resize(new_len, None);
-            }
-
+            // reset before resizing, because touched indices refer to the previous query's graph
             for i in self.touched[dir].drain(..) {
                 self.costs[dir][i] = std::f64::INFINITY;
                 self.predecessors[dir][i] = None;
             }
 
+            self.costs[dir].resize(new_len, std::f64::INFINITY);
+            self.predecessors[dir].resize(new_len, None);
+
             // assert!(self.costs[dir].iter().all(|&c| c == f64::INFINITY));
             // assert!(self.predecessors[dir].iter().all(|&p| p == None));
 
-- 
2.43.0


From efc6a073501f89f3182319d100323a7024557bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:13 +0000
Subject: [PATCH 02/21] fix: give every node its offsets

Nodes behind the last node with a leaving (entering) edge had no offset-entries, so asking for their
edges, and thus routing from (to) them, panicked.
---
 src/network/graph/building.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index c6b81c8..71f8c83 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -759,7 +759,9 @@ impl GraphBuilder {
                 edge_idx += 1;
             }
             // last node needs an upper bound as well for `leaving_edges(...)`
-            graph.fwd_offsets.push(offset);
+            // (and all nodes behind the last one with such an edge)
+            graph.fwd_offsets
+                .resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(offset);
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
@@ -873,7 +875,9 @@ impl GraphBuilder {
                 proto_edges.len(),
                 "Last offset-value should be as big as the number of proto-edges."
             );
-            graph.bwd_offsets.push(offset);
+            // (and all nodes behind the last one with such an edge)
+            graph.bwd_offsets
+                .resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(graph.fwd_dsts.len());
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
-- 
2.43.0


From 46e193dd4839f14e9fac32d2b6f877731e17a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:28 +0000
Subject: [PATCH 03/21] fix: remove duplicated edges independent of their order
 in the map

Parallel edges were kept in input-order, so duplicates having another edge in between remained, and a
shortcut could replace an original edge of same endpoints and metrics.
---
 src/network/graph/building.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 71f8c83..0711871 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -15,7 +15,7 @@ use log::{debug, info, trace};
 use progressing::{mapping::Bar as MappingBar, Baring};
 use smallvec::smallvec;
 use std::{
-    cmp::{min, Reverse},
+    cmp::{min, Ordering, Reverse},
     mem,
 };
 
@@ -459,6 +459,15 @@ impl GraphBuilder {
             // - memory-peak is here when sorting
             // - sort by src-id, then level of dst, then dst-id
             //   -> branch prediction in dijkstra when breaking after level is reached
+            // - order parallel edges (below is sorted stable), so duplicates are next to each other
+            proto_edges.sort_by(|e0, e1| {
+                (e0.sc_edges.is_some())
+                    .cmp(&e1.sc_edges.is_some())
+                    .then_with(|| match e0.metrics.partial_cmp(&e1.metrics) {
+                        Some(ordering) => ordering,
+                        None => Ordering::Equal,
+                    })
+            });
             if !IS_USING_CH_LEVEL_SPEEDUP {
                 proto_edges.sort_by_key(|edge| (edge.src_idx, edge.dst_idx, edge.id));
             } else {
@@ -520,6 +529,8 @@ impl GraphBuilder {
 
                     // compare src-id and dst-id, then metrics approximately
                     is_eq &= e0.id == e1.id;
+                    // an edge and a shortcut are no duplicates
+                    is_eq &= e0.sc_edges.is_some() == e1.sc_edges.is_some();
                     is_eq &= (e0.src_idx, e0.dst_idx) == (e1.src_idx, e1.dst_idx);
                     if is_eq {
                         for (e0_metric, e1_metric) in e0.metrics.iter().zip(e1.metrics.iter()) {
-- 
2.43.0


From 908157eb195ed078fa037534656641bc4f0e30cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:43 +0000
Subject: [PATCH 04/21] fix: report each cycle of shortcut-references

A cycle via the second edge of a shortcut let the flattening loop forever, and long paths in graphs of
few edges were refused.
---
 src/routing/paths.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/routing/paths.rs b/src/routing/paths.rs
index 0eda0b8..7f4e500 100644
--- a/src/routing/paths.rs
+++ b/src/routing/paths.rs
@@ -100,19 +100,20 @@ impl Path {
         };
 
         // interpret old edges as stack, beginning with src
-        let mut old_edges = self.edges;
-        old_edges.reverse();
+        // and remember how deep an edge is nested in shortcuts
+        let mut old_edges: Vec<_> = self.edges.into_iter().rev().map(|e| (e, 0)).collect();
 
         let fwd_edges = graph.fwd_edges();
-        while let Some(mut edge_idx) = old_edges.pop() {
+        while let Some((mut edge_idx, mut depth)) = old_edges.pop() {
             // if edge is shortcut
             // -> push on old-edges
             while let Some(sc_edges) = fwd_edges.sc_edges(edge_idx) {
-                old_edges.push(sc_edges[1]);
+                depth += 1;
+                old_edges.push((sc_edges[1], depth));
                 edge_idx = sc_edges[0];
 
-                // max path-length contains all edges in a graph
-                if old_edges.len() > fwd_edges.count() {
+                // nested shortcuts differ from each other, otherwise there is a cycle
+                if depth > fwd_edges.count() {
                     return Err("There is a cycle of shortcut-references in the graph.".into());
                 }
             }
-- 
2.43.0


From ef11afc8f9793a42e7aff18d6f042e563ada9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:25 +0000
Subject: [PATCH 05/21] fix: answer unknown or duplicated ids and short lines
 when generating metrics with an error

Ids were not compared with each other if both are generated, an unknown id and a short line in a
merged file let the parser panic.
---
 src/network/graph/building.rs | 59 +++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 0711871..4e7148d 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -951,6 +951,17 @@ impl GraphBuilder {
 
             // check duplicated id
 
+            let mut ids: Vec<_> = graph
+                .cfg
+                .edges
+                .categories
+                .iter()
+                .filter_map(|category| match category {
+                    parsing::edges::Category::Meta { info: _, id }
+                    | parsing::edges::Category::Metric { unit: _, id } => Some(id),
+                    parsing::edges::Category::Ignored => None,
+                })
+                .collect();
             for category in generating_cfg.edges.categories.iter() {
                 match category {
                     generating::edges::Category::Meta {
@@ -986,30 +997,32 @@ impl GraphBuilder {
                         // if id does already exist
                         // -> error
 
-                        if graph
-                            .cfg
-                            .edges
-                            .categories
-                            .iter()
-                            .any(|category| match category {
-                                parsing::edges::Category::Meta { info: _, id }
-                                | parsing::edges::Category::Metric { unit: _, id } => new_id == id,
-                                parsing::edges::Category::Ignored => false,
-                            })
-                        {
+                        if ids.contains(&new_id) {
                             return Err(err::Msg::from(format!(
                                 "Id {} should be generated, but does already exist.",
                                 new_id
                             )));
                         }
+                        ids.push(new_id);
+                    }
+                    generating::edges::Category::Convert { from, to } => {
+                        // in-place, so the old id is replaced by the new one
+
+                        ids.retain(|&id| id != &from.id);
+                        if ids.contains(&&to.id) {
+                            return Err(err::Msg::from(format!(
+                                "Id {} should be generated, but does already exist.",
+                                to.id
+                            )));
+                        }
+                        ids.push(&to.id);
                     }
                     generating::edges::Category::Merge {
                         from: _,
                         is_file_with_header: _,
                         edge_id: _,
                         edges_info: _,
-                    }
-                    | generating::edges::Category::Convert { from: _, to: _ } => {
+                    } => {
                         // do not check because it's in-place, so duplicates would be removed.
                     }
                 }
@@ -1225,7 +1238,7 @@ impl GraphBuilder {
                         // loop over all edges
                         // and add to their metrics
 
-                        let metric_idx = graph.cfg.edges.metrics.idx_of(&from.id);
+                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(&from.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1257,7 +1270,7 @@ impl GraphBuilder {
                         // loop over all edges
                         // and replace their existing metrics
 
-                        let metric_idx = graph.cfg.edges.metrics.idx_of(&from.id);
+                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(&from.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1299,8 +1312,8 @@ impl GraphBuilder {
                         // loop over all edges
                         // and replace their existing metrics
 
-                        let metric_idx_a = graph.cfg.edges.metrics.idx_of(&a.id);
-                        let metric_idx_b = graph.cfg.edges.metrics.idx_of(&b.id);
+                        let metric_idx_a = graph.cfg.edges.metrics.try_idx_of(&a.id)?;
+                        let metric_idx_b = graph.cfg.edges.metrics.try_idx_of(&b.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1353,7 +1366,10 @@ impl GraphBuilder {
                             for (col_idx, category) in edges_info.iter().enumerate() {
                                 match category {
                                     generating::edges::merge::Category::Id(id) => {
-                                        let param = params[col_idx];
+                                        let param = *params.get(col_idx).ok_or(format!(
+                                            "The line '{}' has too few columns.",
+                                            line
+                                        ))?;
 
                                         if id == edge_id {
                                             let raw_edge_id =
@@ -1385,9 +1401,12 @@ impl GraphBuilder {
                                             continue;
                                         }
 
-                                        let metric_idx = graph.cfg.edges.metrics.idx_of(id);
+                                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(id)?;
 
-                                        let param = params[col_idx];
+                                        let param = *params.get(col_idx).ok_or(format!(
+                                            "The line '{}' has too few columns.",
+                                            line
+                                        ))?;
                                         if let Ok(raw_value) = param.parse::<f64>() {
                                             graph.metrics[*edge_idx][*metric_idx] = raw_value;
                                         } else {
-- 
2.43.0


From 4c1ff66200e9939c01104df9d31f19798d00af91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:35 +0000
Subject: [PATCH 06/21] fix: answer malformed maps with an error instead of a
 panic or a wrong graph

---
 src/io/parsing/network/graph/fmi.rs | 48 ++++++++++++++++++-----------
 src/network/graph/building.rs       |  6 +++-
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index b8e70f0..747fe52 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -43,12 +43,12 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&cfg.map_file)
-            .expect(&format!("Couldn't open {}", cfg.map_file.display()));
+            .map_err(|e| format!("Couldn't open {}: {}", cfg.map_file.display(), e))?;
         for line in BufReader::new(file)
             .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
+            .filter(|line| line.as_ref().map_or(true, helpers::is_line_functional))
         {
+            let line = line?;
             // If there is a count, remember it.
             // The first occuring count let `is_taking_counts` getting true.
             // If all counts have been processed, `is_taking_counts` would change to false,
@@ -100,15 +100,18 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
+            .map_err(|e| {
+                format!(
+                    "Couldn't open {}: {}",
+                    builder.cfg().map_file.display(),
+                    e
+                )
+            })?;
         for line in BufReader::new(file)
             .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
+            .filter(|line| line.as_ref().map_or(true, helpers::is_line_functional))
         {
+            let line = line?;
             // check if line contains edge
             if !self.edge_lines.contains(&line_number) {
                 line_number += 1;
@@ -120,6 +123,9 @@ impl super::Parsing for Parser {
             let proto_edge = ProtoShortcut::try_from_str(&line, &builder.cfg().edges.categories)?;
             builder.insert(proto_edge)?;
         }
+        if line_number < self.edge_lines.end {
+            return Err("The fmi-map-file has fewer edges than its edge-count says.".into());
+        }
         info!("FINISHED");
 
         Ok(())
@@ -131,15 +137,18 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
+            .map_err(|e| {
+                format!(
+                    "Couldn't open {}: {}",
+                    builder.cfg().map_file.display(),
+                    e
+                )
+            })?;
         for line in BufReader::new(file)
             .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
+            .filter(|line| line.as_ref().map_or(true, helpers::is_line_functional))
         {
+            let line = line?;
             // check if line contains edge
             if !self.node_lines.contains(&line_number) {
                 line_number += 1;
@@ -151,6 +160,9 @@ impl super::Parsing for Parser {
             let proto_node = ProtoNode::from_str(&line, &builder.cfg().nodes)?;
             builder.insert(proto_node);
         }
+        if line_number < self.node_lines.end {
+            return Err("The fmi-map-file has fewer nodes than its node-count says.".into());
+        }
         info!("FINISHED");
 
         Ok(())
@@ -190,7 +202,7 @@ impl ProtoShortcut {
                         edge_id = param.parse::<usize>().ok();
 
                         // multi-ch-constructor uses ids like "ch123" for shortcuts
-                        if edge_id.is_none() && &param[0..2] == "ch" {
+                        if edge_id.is_none() && param.starts_with("ch") {
                             edge_id = param[2..].parse::<usize>().ok();
                         }
 
@@ -359,7 +371,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lat '{:?}' from fmi-file, which is not f64.",
-                                    params[2]
+                                    param
                                 ))
                             }
                         };
@@ -370,7 +382,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lon '{:?}' from fmi-file, which is not f64.",
-                                    params[3]
+                                    param
                                 ))
                             }
                         };
diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 4e7148d..85e0392 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -499,6 +499,9 @@ impl GraphBuilder {
             for edge in proto_edges.iter() {
                 if let Some(sc_idx) = edge.sc_edges {
                     let shortcuts = &mut self.proto_shortcuts[sc_idx];
+                    if shortcuts.iter().any(|sc| **sc >= new_indices.len()) {
+                        return Err("A shortcut refers to an edge, which doesn't exist.".into());
+                    }
                     shortcuts[0] = EdgeIdx(new_indices[*shortcuts[0]]);
                     shortcuts[1] = EdgeIdx(new_indices[*shortcuts[1]]);
                 }
@@ -668,7 +671,8 @@ impl GraphBuilder {
 
         for metrics in &graph.metrics {
             for metric in metrics {
-                if metric < &defaults::accuracy::F64_ABS {
+                // also true for NaN
+                if !(metric >= &defaults::accuracy::F64_ABS) {
                     return Err(err::Msg::from(
                         "A metric is smaller than accuracy allows it.",
                     ));
-- 
2.43.0


From 4557ab109b2a5917c7d97c80ea6cd125234d32ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:23 +0000
Subject: [PATCH 07/21] fix: answer malformed route-pairs, edge-tables and
 osm-files with an error

---
 src/io/parsing/network/edges.rs     |  9 +++----
 src/io/parsing/network/graph/pbf.rs | 39 +++++++++++++----------------
 src/io/parsing/routing/mod.rs       |  4 +--
 src/io/parsing/routing/routes.rs    | 19 ++++++++------
 src/network/graph/building.rs       |  1 +
 5 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/io/parsing/network/edges.rs b/src/io/parsing/network/edges.rs
index 594488f..a2aefab 100644
--- a/src/io/parsing/network/edges.rs
+++ b/src/io/parsing/network/edges.rs
@@ -14,22 +14,21 @@ impl Parser {
     pub fn new_reader<P: AsRef<Path>>(
         path: &P,
         is_file_with_header: bool,
-    ) -> err::Result<impl Iterator<Item = String>> {
+    ) -> err::Result<impl Iterator<Item = std::io::Result<String>>> {
         let path = path.as_ref();
 
         io::network::edges::Parser::check_ext_support(&path)?;
         let file = OpenOptions::new()
             .read(true)
             .open(&path)
-            .expect(&format!("Couldn't open {}", path.display()));
+            .map_err(|e| format!("Couldn't open {}: {}", path.display(), e))?;
         let mut reader = BufReader::new(file)
             .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional);
+            .filter(|line| line.as_ref().map_or(true, helpers::is_line_functional));
 
         // consume header-line
         if is_file_with_header {
-            reader.next();
+            reader.next().transpose()?;
         }
 
         Ok(reader)
diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index bf2f5e5..874ba78 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -73,19 +73,19 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
+            .map_err(|e| {
+                format!(
+                    "Couldn't open {}: {}",
+                    builder.cfg().map_file.display(),
+                    e
+                )
+            })?;
 
-        for mut way in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Way(way) => Some(way),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let mut way = match obj.map_err(|e| e.to_string())? {
+                OsmObj::Way(way) => way,
+                _ => continue,
+            };
             if way.nodes.len() < 2 {
                 continue;
             }
@@ -178,15 +178,12 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&cfg.map_file)
-            .expect(&format!("Couldn't open {}", cfg.map_file.display()));
-        for node in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Node(node) => Some(node),
-                _ => None,
-            })
-        {
+            .map_err(|e| format!("Couldn't open {}: {}", cfg.map_file.display(), e))?;
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let node = match obj.map_err(|e| e.to_string())? {
+                OsmObj::Node(node) => node,
+                _ => continue,
+            };
             // add node to graph if it's part of an edge
             builder.insert(ProtoNode {
                 id: node.id.0,
diff --git a/src/io/parsing/routing/mod.rs b/src/io/parsing/routing/mod.rs
index 43c950a..73fe174 100644
--- a/src/io/parsing/routing/mod.rs
+++ b/src/io/parsing/routing/mod.rs
@@ -10,7 +10,7 @@ impl Parser {
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-            .expect("No routes-file specified.");
+            .ok_or("No routes-file specified.")?;
 
         match Parser::find_supported_ext(route_pairs_file) {
             Ok(_) => routes::Parser::new().parse(cfg),
@@ -30,7 +30,7 @@ trait Parsing {
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-            .expect("No routes-file specified.");
+            .ok_or("No routes-file specified.")?;
 
         match Parser::find_supported_ext(route_pairs_file) {
             Ok(_) => (),
diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 315d435..5c1f4f1 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -24,7 +24,7 @@ impl super::Parsing for Parser {
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-            .expect("No routes-file specified.");
+            .ok_or("No routes-file specified.")?;
 
         // only functional-lines are counted
         let mut line_number = 0;
@@ -34,12 +34,12 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(route_pairs_file)
-            .expect(&format!("Couldn't open {}", route_pairs_file.display()));
+            .map_err(|e| format!("Couldn't open {}: {}", route_pairs_file.display(), e))?;
         for line in BufReader::new(file)
             .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
+            .filter(|line| line.as_ref().map_or(true, helpers::is_line_functional))
         {
+            let line = line.map_err(|e| e.to_string())?;
             // If there is a count, remember it.
             // The first occuring count let `is_taking_counts` getting true.
             // If all counts have been processed, `is_taking_counts` would change to false,
@@ -81,18 +81,18 @@ impl super::Parsing for Parser {
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-            .expect("No routes-file specified.");
+            .ok_or("No routes-file specified.")?;
 
         let mut line_number = 0;
         let file = OpenOptions::new()
             .read(true)
             .open(route_pairs_file)
-            .expect(&format!("Couldn't open {}", route_pairs_file.display()));
+            .map_err(|e| format!("Couldn't open {}: {}", route_pairs_file.display(), e))?;
         for line in BufReader::new(file)
             .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
+            .filter(|line| line.as_ref().map_or(true, helpers::is_line_functional))
         {
+            let line = line.map_err(|e| e.to_string())?;
             // check if line contains route
             if !self.route_lines.contains(&line_number) {
                 line_number += 1;
@@ -135,6 +135,9 @@ impl super::Parsing for Parser {
                 n,
             ));
         }
+        if line_number < self.route_lines.end {
+            return Err("The routes-file has fewer routes than its routes-count says.".into());
+        }
 
         Ok(route_pairs)
     }
diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 85e0392..d4272eb 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1362,6 +1362,7 @@ impl GraphBuilder {
                         // parse edge-id and metric
 
                         for line in reader {
+                            let line = line?;
                             let params: Vec<&str> = line.split_whitespace().collect();
 
                             // get edge-idx
-- 
2.43.0


From 7f20e1f0e977dd11413320eac6889c5e029756db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:13 +0000
Subject: [PATCH 08/21] fix: write the destination's coordinates into
 edge-tables

---
 src/io/writing/network/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/network/mod.rs b/src/io/writing/network/mod.rs
index 8bb40f4..1c5fe8b 100644
--- a/src/io/writing/network/mod.rs
+++ b/src/io/writing/network/mod.rs
@@ -118,12 +118,12 @@ fn write_edges_to_file<W: Write>(
                                     write!(writer, "{}", dst_idx)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLat => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lat = nodes.coord(dst_idx).lat;
                                     write!(writer, "{}", dst_lat)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLon => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lon = nodes.coord(dst_idx).lon;
                                     write!(writer, "{}", dst_lon)?;
                                 }
-- 
2.43.0


From 34fac8998d5fb67072bd36af568ec804cbfd7e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:13 +0000
Subject: [PATCH 09/21] fix: report errors when flushing exported files

---
 src/io/writing/network/edges.rs         | 4 ++++
 src/io/writing/network/graph/fmi.rs     | 2 ++
 src/io/writing/routing/random_or_all.rs | 2 ++
 src/io/writing/smarts.rs                | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/src/io/writing/network/edges.rs b/src/io/writing/network/edges.rs
index 2aaf532..49997db 100644
--- a/src/io/writing/network/edges.rs
+++ b/src/io/writing/network/edges.rs
@@ -54,6 +54,8 @@ impl Writer {
         let mut writer = BufWriter::new(output_file);
 
         write_edges_to_file(&mut writer, graph, writing_cfg)?;
+        // errors are lost when dropping the buffer
+        writer.flush()?;
 
         info!("FINISHED");
         Ok(())
@@ -118,6 +120,8 @@ impl Writer {
         }) {
             writeln!(writer, "{} {}", fwd_edges.id(edge_idx), values[*edge_idx])?;
         }
+        // errors are lost when dropping the buffer
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/src/io/writing/network/graph/fmi.rs b/src/io/writing/network/graph/fmi.rs
index 224594f..32ac53c 100644
--- a/src/io/writing/network/graph/fmi.rs
+++ b/src/io/writing/network/graph/fmi.rs
@@ -204,6 +204,8 @@ impl Writer {
             &graph,
             &writing::network::edges::Config::from(writing_cfg.clone()),
         )?;
+        // errors are lost when dropping the buffer
+        writer.flush()?;
 
         info!("FINISHED");
         Ok(())
diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 1d88b37..b645eab 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -153,6 +153,8 @@ impl Writer {
         for (src_id, dst_id) in found_route_pairs {
             writeln!(writer, "{} {} {}", src_id, dst_id, 1)?;
         }
+        // errors are lost when dropping the buffer
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/src/io/writing/smarts.rs b/src/io/writing/smarts.rs
index a96ee52..ba7a166 100644
--- a/src/io/writing/smarts.rs
+++ b/src/io/writing/smarts.rs
@@ -67,6 +67,8 @@ impl Writer {
         }
 
         writeln!(writer, "</data>")?;
+        // errors are lost when dropping the buffer
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 6e8ae003fc665b65d11ff72167a816d7d5bba58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:13 +0000
Subject: [PATCH 10/21] fix: export route-pairs of an empty graph

---
 src/io/writing/routing/random_or_all.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index b645eab..1ac1884 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -11,7 +11,7 @@ use rand::{
     SeedableRng,
 };
 use std::{
-    cmp::min,
+    cmp::{max, min},
     collections::HashSet,
     fs::OpenOptions,
     io::{BufWriter, Write},
@@ -56,7 +56,8 @@ impl Writer {
             let mut processed_indices = HashSet::new();
 
             let mut rng = rand_pcg::Pcg32::seed_from_u64(self.seed);
-            let die = Uniform::from(0..nodes.count());
+            // an empty graph has no routes, hence the die is not rolled, but its range mustn't be empty
+            let die = Uniform::from(0..max(1, nodes.count()));
 
             let mut dijkstra = Dijkstra::new();
 
-- 
2.43.0


From dfc8c8634e020d01e2c6fc33164ac17e8243b14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:13 +0000
Subject: [PATCH 11/21] fix: do not explore a found path twice

---
 src/routing/explorating.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index 06eb0a6..333a5de 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -309,7 +309,8 @@ impl ConvexHullExplorator {
                         // is smaller.
 
                         let is_path_new = Approx(new_alpha_cost) < Approx(any_alpha_cost)
-                            && !new_found_paths.contains(&new_path);
+                            && !new_found_paths.contains(&new_path)
+                            && !self.found_paths.values().any(|path| path == &new_path);
                         if is_path_new {
                             trace!("Push {}", new_path);
                             new_found_paths.push(new_path);
-- 
2.43.0


From 45ab828ce15f73702804426df0b70e690c3dcbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:13 +0000
Subject: [PATCH 12/21] fix: report an unknown metric-id when updating the
 balanced metric

---
 src/defaults.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defaults.rs b/src/defaults.rs
index 2987328..00da898 100644
--- a/src/defaults.rs
+++ b/src/defaults.rs
@@ -145,7 +145,7 @@ pub mod balancing {
             .cfg()
             .edges
             .metrics
-            .idx_of(&balancing_cfg.optimization.metric_id);
+            .try_idx_of(&balancing_cfg.optimization.metric_id)?;
 
         let mut new_metrics: Vec<_> = abs_workloads.iter().map(|&w| w as f64).collect();
         let mut metrics = graph.metrics_mut();
-- 
2.43.0


From 02b314e12b495252767ab2d9f2b1f712aa8fdd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:13 +0000
Subject: [PATCH 13/21] fix: report stopped workers and accept route-counts of
 zero

---
 src/bin/osmgraphing/balancing/multithreading.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index d6e42bd..d905496 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -154,6 +154,19 @@ impl Master {
             }
         }
 
+        // Workers that haven't been dropped have stopped on their own, e.g. due to a panic.
+        // Hence their work (and maybe work not sent yet) is missing.
+
+        for worker_socket in self.worker_sockets.iter_mut().filter_map(Option::take) {
+            worker_socket.drop_and_join()?;
+        }
+        if route_pairs.len() > 0 {
+            return Err(err::Msg::from(format!(
+                "There are {} route-pairs left, but no worker.",
+                route_pairs.len()
+            )));
+        }
+
         info!(
             "{}{:.1}{}{:.1}{}",
             "On average, ",
@@ -464,10 +477,9 @@ impl Worker {
             if let Some(best_path) = best_path {
                 num_of_found_paths.push(1);
 
-                for _ in 0..(route_count - 1) {
+                for _ in 0..route_count {
                     chosen_paths.push(best_path.clone());
                 }
-                chosen_paths.push(best_path);
             } else {
                 warn!("Didn't find any path when executing Dijkstra.")
             }
-- 
2.43.0


From 1193e41cc63823028178b7b124b277f53f6667f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:55 +0000
Subject: [PATCH 14/21] hook: decide the schedule of the balancer's threads
 from outside

---
 src/bin/osmgraphing/balancing/multithreading.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index d905496..766916b 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -18,11 +18,11 @@ use rand::{
     distributions::{Distribution, Uniform},
     Rng, SeedableRng,
 };
-use std::{
-    ops::Deref,
-    sync::{mpsc, Arc},
-    thread,
-};
+use std::{ops::Deref, sync::Arc};
+#[cfg(not(verif_hooks))]
+use std::{sync::mpsc, thread};
+#[cfg(verif_hooks)]
+use verif_sched::{mpsc, thread};
 
 pub struct Master {
     outcome_rx: mpsc::Receiver<(WorkerIdx, Outcome)>,
-- 
2.43.0


From 414163544ab52c4d0c0f1d87ff18946cbb421db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:34 +0000
Subject: [PATCH 15/21] fix: refuse negative metrics of merged edge-tables

---
 src/network/graph/building.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index d4272eb..7472759 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1413,6 +1413,13 @@ impl GraphBuilder {
                                             line
                                         ))?;
                                         if let Ok(raw_value) = param.parse::<f64>() {
+                                            // also refuses NaN
+                                            if !(raw_value >= 0.0) {
+                                                return Err(err::Msg::from(format!(
+                                                    "Metric {} should not be '{}'.",
+                                                    id, param
+                                                )));
+                                            }
                                             graph.metrics[*edge_idx][*metric_idx] = raw_value;
                                         } else {
                                             return Err(err::Msg::from(format!(
-- 
2.43.0


From afd3938f194f52f35c4aa451582fae86f8e2e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:46 +0000
Subject: [PATCH 16/21] fix: answer absurd counts in map- and routes-files with
 an error instead of overflowing

---
 src/io/parsing/network/graph/fmi.rs | 4 ++--
 src/io/parsing/routing/routes.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index 747fe52..69c3b2a 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -82,12 +82,12 @@ impl super::Parsing for Parser {
 
         // nodes
         let start = line_number;
-        let end = start + node_count;
+        let end = usize::saturating_add(start, node_count);
         self.node_lines = start..end;
 
         // edges
         let start = end;
-        let end = start + edge_count;
+        let end = usize::saturating_add(start, edge_count);
         self.edge_lines = start..end;
 
         info!("FINISHED");
diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 5c1f4f1..3a70e74 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -67,7 +67,7 @@ impl super::Parsing for Parser {
         let routes_count = counts.pop().expect("Expect counts.len() >= 1");
 
         let start = line_number;
-        let end = start + routes_count;
+        let end = usize::saturating_add(start, routes_count);
         self.route_lines = start..end;
 
         Ok(())
-- 
2.43.0


From 14b7e50ec56a6df83d3e98034ffc597622a88d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:46 +0000
Subject: [PATCH 17/21] fix: reserve no memory for routes that are only
 announced

---
 src/io/parsing/routing/routes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 3a70e74..f3a31ea 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -77,7 +77,7 @@ impl super::Parsing for Parser {
         &self,
         cfg: &configs::routing::Config,
     ) -> Result<Vec<(RoutePair<i64>, usize)>, String> {
-        let mut route_pairs = Vec::with_capacity(self.route_lines.len());
+        let mut route_pairs = Vec::new();
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-- 
2.43.0


From 95d5e1d9d9182ba6ce7d15d43949b4fe0de46e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 18/21] fix: write route-pairs with an explorator as configured
 algorithm

---
 src/io/writing/routing/random_or_all.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 1ac1884..e0df037 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -1,3 +1,5 @@
+#[cfg(feature = "gpl")]
+use crate::configs::routing::RoutingAlgo;
 use crate::{
     configs,
     helpers::err,
@@ -37,6 +39,18 @@ impl Writer {
     ) -> err::Feedback {
         // prepare
 
+        // A route's existence doesn't depend on the exploration of its alternatives
+        // -> use the explorator's underlying algorithm
+        let routing_cfg = {
+            #[allow(unused_mut)]
+            let mut routing_cfg = routing_cfg.clone();
+            #[cfg(feature = "gpl")]
+            if let RoutingAlgo::Explorator { algo } = routing_cfg.routing_algo {
+                routing_cfg.routing_algo = RoutingAlgo::from(algo);
+            }
+            routing_cfg
+        };
+
         let output_file = OpenOptions::new()
             .write(true)
             .create_new(true)
-- 
2.43.0


From f5c96f12e368e69c940e68f1a0e1c1e1cf3224bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:28 +0000
Subject: [PATCH 19/21] fix: do not return a route twice that is found as
 shortcut and as its edges

---
 src/routing/explorating.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index 333a5de..c8858b2 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -309,8 +309,11 @@ impl ConvexHullExplorator {
                         // is smaller.
 
                         let is_path_new = Approx(new_alpha_cost) < Approx(any_alpha_cost)
-                            && !new_found_paths.contains(&new_path)
-                            && !self.found_paths.values().any(|path| path == &new_path);
+                            // compare costs, because shortcuts and their edges are the same path
+                            && !new_found_paths
+                                .iter()
+                                .chain(self.found_paths.values())
+                                .any(|path| Approx(path.costs()) == Approx(new_path.costs()));
                         if is_path_new {
                             trace!("Push {}", new_path);
                             new_found_paths.push(new_path);
-- 
2.43.0


From 8a2f69ddb355daaed02181fa87789cf413c1b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 20/21] fix: explore facets although rounding makes the weights
 of ignored metrics negative

---
 src/routing/explorating.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index c8858b2..37ebcaa 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -270,7 +270,13 @@ impl ConvexHullExplorator {
 
                     // calculate alphas
                     query.routing_cfg.alphas =
-                        if let Some(x) = algebra::Matrix::from_rows(rows).lu().solve(&b) {
+                        if let Some(mut x) = algebra::Matrix::from_rows(rows).lu().solve(&b) {
+                            // Alphas of ignored metrics are zero except for rounding-errors,
+                            // but no path is found for negative alphas.
+                            x.iter_mut()
+                                .zip(&query.is_metric_considered)
+                                .filter(|(_, &imc)| !imc)
+                                .for_each(|(alpha, _)| *alpha = 0.0);
                             x
                         } else {
                             continue;
-- 
2.43.0


From c8a3bba83fb018febfdbdcac840b5af28c2f282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 21/21] fix: refuse edges that are a shortcut of one edge only

---
 src/io/parsing/network/graph/fmi.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index 69c3b2a..b6da879 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -301,10 +301,12 @@ impl ProtoShortcut {
         }
 
         let sc_edges = {
-            if let (Some(sc_edge_0), Some(sc_edge_1)) = (sc_edge_0, sc_edge_1) {
-                Some([EdgeIdx(sc_edge_0), EdgeIdx(sc_edge_1)])
-            } else {
-                None
+            match (sc_edge_0, sc_edge_1) {
+                (Some(sc_edge_0), Some(sc_edge_1)) => {
+                    Some([EdgeIdx(sc_edge_0), EdgeIdx(sc_edge_1)])
+                }
+                (None, None) => None,
+                _ => return Err(format!("The shortcut '{}' replaces only one edge.", line)),
             }
         };
 
-- 
2.43.0

