From 9d31aff76ca4fd335391dc4cc15a3641ece50345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 01/24] fix: remove_node on a terminal renumbers the remaining
 sentence

remove_terminal compacted positions and recomputed spans before the node
was removed, leaving a gap in the sentence and stale coverage.
---
 lumberjack/src/tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 045be65..c049327 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -693,10 +693,11 @@ impl Tree {
         if self.siblings(terminal).count() == 0 {
             return Err(format_err!("Last terminal of a branch."));
         }
+        let node = self.graph.remove_node(terminal).unwrap();
+        self.n_terminals -= 1;
         self.compact_terminal_spans()?;
         self.reset_nt_spans();
-        self.n_terminals -= 1;
-        Ok(self.graph.remove_node(terminal).unwrap())
+        Ok(node)
     }
 
     /// Reset terminal spans to increasing by 1 at each step.
-- 
2.43.0


From 29c9acbeb9c26513dad568ddde8e688502432beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 02/24] fix: count unary nodes inserted next to discontinuous
 nodes

The inserted node copies a discontinuous span, but num_discontinuous was
not updated; removing the node later underflowed the counter.
---
 lumberjack/src/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index c049327..51542f2 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -252,6 +252,8 @@ impl Tree {
         let span = self[child].span().to_owned();
         let node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(node);
+        let continuity = self[insert].continuity();
+        self.projectivity_change(Continuity::Continuous, continuity);
         if let Some((parent, old_edge_idx)) = self.parent(child) {
             let old_edge = self.graph.remove_edge(old_edge_idx).unwrap();
             self.graph
@@ -290,6 +292,8 @@ impl Tree {
         let span = self[node].span().to_owned();
         let new_node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(new_node);
+        let continuity = self[insert].continuity();
+        self.projectivity_change(Continuity::Continuous, continuity);
         self.graph
             .add_edge(node, insert, Edge::new_primary::<String>(None));
         for (child, edge) in children {
-- 
2.43.0


From a8171c7d7e902222e2f537f168a180e7f8e94fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 03/24] fix: reattach_node updates all spans and rejects cycles

Only spans between the old parent and a dominating new parent were
updated; reattaching into another branch left stale coverage behind, and
reattaching a node below itself detached the subtree from the root.
---
 lumberjack/src/tree.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 51542f2..97f935e 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -340,6 +340,7 @@ impl Tree {
     /// Returns `Err` if:
     ///   * `edge` is the last outgoing edge of a node.
     ///   * `new_parent` is a `Terminal` node.
+    ///   * `new_parent` is dominated by the reattached node.
     ///
     /// Returns `Ok(old_edge)` otherwise.
     ///
@@ -606,25 +607,29 @@ impl Tree {
         } else if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
-        let mut climber = Climber::new(parent, self);
-        let mut path = vec![parent];
-        // climb tree to check if the old parent is dominated by the new parent
+        // nodes dominating the child after reattachment
+        let mut dominating = vec![new_parent];
+        let mut climber = Climber::new(new_parent, self);
         while let Some(node) = climber.next(self) {
-            path.push(node);
-            // if new parent is higher in the tree, we need to remove the indices from the old
-            // parent's span
-            if new_parent == node {
-                let coverage = self[child].span().into_iter().collect::<Vec<_>>();
-                for node in path {
-                    let before = self[node].continuity();
-                    let after = self[node]
-                        .nonterminal_mut()
-                        .unwrap()
-                        .remove_indices(coverage.iter().cloned());
-                    self.projectivity_change(before, after);
-                }
+            dominating.push(node);
+        }
+        if dominating.contains(&child) {
+            return Err(format_err!("New parent is dominated by the node."));
+        }
+        // nodes below the lowest common ancestor of the old and the new parent lose the child's
+        // indices
+        let coverage = self[child].span().into_iter().collect::<Vec<_>>();
+        let mut climber = Climber::new(child, self);
+        while let Some(node) = climber.next(self) {
+            if dominating.contains(&node) {
                 break;
             }
+            let before = self[node].continuity();
+            let after = self[node]
+                .nonterminal_mut()
+                .unwrap()
+                .remove_indices(coverage.iter().cloned());
+            self.projectivity_change(before, after);
         }
         let edge = self.graph.remove_edge(edge).unwrap();
         let edge_idx = self
-- 
2.43.0


From ddcb955787fae1ca304b85861e5a37faa1f0c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 04/24] fix: are_siblings compares parent nodes, not incoming
 edges

---
 lumberjack/src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 97f935e..77e4138 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -399,7 +399,7 @@ impl Tree {
     /// Returns whether two nodes are immediately dominated by the same node.
     pub fn are_siblings(&self, node_1: NodeIndex, node_2: NodeIndex) -> bool {
         match (self.parent(node_1), self.parent(node_2)) {
-            (Some(parent_1), Some(parent_2)) => parent_1 == parent_2,
+            (Some((parent_1, _)), Some((parent_2, _))) => parent_1 == parent_2,
             _ => false,
         }
     }
-- 
2.43.0


From 713b3283ce249a4048c1701b4ea13972851884b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 05/24] fix: terminals with different forms are not equal

---
 lumberjack/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/node.rs b/lumberjack/src/node.rs
index 2f02449..f3db325 100644
--- a/lumberjack/src/node.rs
+++ b/lumberjack/src/node.rs
@@ -319,7 +319,11 @@ pub struct Terminal {
 
 impl PartialEq<Terminal> for Terminal {
     fn eq(&self, other: &Terminal) -> bool {
-        if self.pos != other.pos || self.span != other.span || self.lemma != other.lemma {
+        if self.form != other.form
+            || self.pos != other.pos
+            || self.span != other.span
+            || self.lemma != other.lemma
+        {
             return false;
         }
         match (&self.features, &other.features) {
-- 
2.43.0


From 7c2f53f8647d54bb474b31238b4ce8905498a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 06/24] fix: tree equality compares the root node of
 single-terminal trees

---
 lumberjack/src/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 77e4138..27e3327 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -818,7 +818,8 @@ impl PartialEq for Tree {
             return false;
         };
 
-        subtree_eq(self.root(), self, other.root(), other)
+        self[self.root()] == other[other.root()]
+            && subtree_eq(self.root(), self, other.root(), other)
     }
 }
 
-- 
2.43.0


From 08db97569416f7c80d96279bbe854fe55378fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 07/24] fix: annotate_pos assigns tags in sentence order

---
 lumberjack/src/tree_modification.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index c1fa251..17bcf57 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -22,7 +22,8 @@ impl AnnotatePOS for Tree {
     where
         S: Into<String>,
     {
-        let terminals = self.terminals().collect::<Vec<_>>();
+        let mut terminals = self.terminals().collect::<Vec<_>>();
+        self.sort_indices(&mut terminals);
         let mut pos_iter = pos_iter.into_iter();
         for terminal in terminals {
             if let Some(pos) = pos_iter.next() {
-- 
2.43.0


From 54f9e6f905c44dc5c34a8cdf152aeff6af261e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 08/24] fix: reattach_terminals terminates when the chain
 reaches the attachment

With no sibling left and the climber exhausted, or stopped at the root or
the attachment point, the loop never ended.
---
 lumberjack/src/tree_modification.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 17bcf57..18ddeb0 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -224,10 +224,11 @@ impl TreeOps for Tree {
             if match_fn(&self, terminal) {
                 let mut climber = Climber::new(terminal, self);
                 while self.siblings(terminal).count() == 0 {
-                    if let Some(parent) = climber.next(self) {
-                        if parent != self.root() && parent != attachment {
+                    match climber.next(self) {
+                        Some(parent) if parent != attachment => {
                             self.remove_node(parent).unwrap();
                         }
+                        _ => break,
                     }
                 }
                 let (_, edge) = self.parent(terminal).unwrap();
-- 
2.43.0


From 472f06e5df9aaee566be32391feafc105fdf75fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 09/24] fix: PTB labels are split after the separating dash

The dash was kept in the annotation, so writing doubled it, and labels
starting with a dash like -NONE- were split into an empty label.
---
 lumberjack/src/io/ptb.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 88a11e6..e19881c 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -239,10 +239,12 @@ impl PTBFormat {
             // split label and edge label
             match self {
                 PTBFormat::PTB => {
-                    if let Some(idx) = label.find('-') {
-                        Ok((&label[..idx], None, Some(&label[idx..])))
-                    } else {
-                        Ok((label, None, None))
+                    match label.find('-') {
+                        // labels like "-NONE-" or "-LRB-" don't carry annotations
+                        Some(idx) if idx > 0 => {
+                            Ok((&label[..idx], None, Some(&label[idx + 1..])))
+                        }
+                        _ => Ok((label, None, None)),
                     }
                 }
                 PTBFormat::TueBa => {
-- 
2.43.0


From f0cf0d79eda7c5a8f5949b69dd7caefc80505ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 10/24] fix: multi-line PTB reader reports malformed input

Surplus closing brackets underflowed the counter, a tree left open at the
end of the input was dropped silently, and line breaks between a label and
a form were lost.
---
 lumberjack/src/io/ptb.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index e19881c..6eba4d5 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -314,12 +314,20 @@ where
                 }
                 let (line_open, line_closed) = count_pars(&line);
                 open += line_open;
+                if line_closed > open {
+                    return Some(Err(format_err!("Unbalanced brackets: {}{}", buffer, line)));
+                }
                 open -= line_closed;
-                buffer.push_str(line.as_str());;
+                buffer.push_str(line.as_str());
+                // line breaks separate tokens
+                buffer.push('\n');
                 if open == 0 {
                     return Some(self.format.string_to_tree(&buffer));
                 }
             }
+            if !buffer.is_empty() {
+                return Some(Err(format_err!("Unclosed brackets at end of input: {}", buffer)));
+            }
         }
         None
     }
-- 
2.43.0


From 627a668c57532d50bd0d80cdf14fa19d924f7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 11/24] fix: NegraReader reports a sentence truncated by the
 end of input

---
 lumberjack/src/io/negra.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index f579433..547b13f 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -71,6 +71,9 @@ where
                 }
             }
         }
+        if cur.is_some() {
+            return Some(Err(format_err!("Found end of input before #EOS")));
+        }
         None
     }
 }
-- 
2.43.0


From dfc26f17b83e4f1c297c797d276c0fa15e081e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 12/24] fix: NegraReader handles unknown parents and missing
 labels of secondary edges

A reference to an unknown secondary parent panicked, and the "--" written
for an unlabeled secondary edge was read back as a label.
---
 lumberjack/src/io/negra.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 547b13f..f866672 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -148,11 +148,14 @@ impl Builder {
             ));
         }
         for (source, label, target) in self.sec_edges {
-            self.graph.add_edge(
-                *self.nt_indices.get(&source).unwrap(),
-                target,
-                Edge::Secondary(Some(label)),
-            );
+            let source_idx = *self
+                .nt_indices
+                .get(&source)
+                .ok_or_else(|| format_err!("Unknown secondary parent: {}", source))?;
+            // unlabeled edges denoted as "--" in tueba
+            let label = if label == "--" { None } else { Some(label) };
+            self.graph
+                .add_edge(source_idx, target, Edge::Secondary(label));
         }
 
         let root = *self.nt_indices.get(&0).unwrap();
-- 
2.43.0


From 7a1f17753edc193a8e3741e50a9980916d9bfa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 13/24] fix: NegraReader accepts only sentences that form a
 tree

Empty sentences, cyclic or duplicated parent pointers produced broken
trees, and nonterminals listed before their children got wrong spans.
---
 lumberjack/src/io/negra.rs | 58 +++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index f866672..7bd31d6 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -2,11 +2,12 @@ use std::collections::{hash_map::Entry, HashMap, VecDeque};
 use std::io::{BufRead, Lines, Write};
 
 use failure::Error;
-use petgraph::prelude::{Direction, EdgeRef, NodeIndex, StableGraph};
-use petgraph::visit::{VisitMap, Visitable};
+use petgraph::prelude::{Direction, NodeIndex, StableGraph};
+use petgraph::visit::{Dfs, VisitMap, Visitable};
 
 use crate::io::NODE_ANNOTATION_FEATURE_KEY;
-use crate::{Edge, Node, NonTerminal, Span, Terminal, Tree, WriteTree};
+use crate::tree::GraphWrap;
+use crate::{Edge, Node, NonTerminal, Terminal, Tree, WriteTree};
 
 /// Iterator over constituency trees in a Negra export file.
 ///
@@ -85,7 +86,6 @@ struct Builder {
     n_terminals: usize,
     sentence_id: String,
     finished_terminals: bool,
-    num_non_projective: usize,
     processed_nts: usize,
     sec_edges: Vec<(usize, String, NodeIndex)>,
 }
@@ -121,7 +121,6 @@ impl Builder {
             sentence_id: bos_id.to_string(),
             finished_terminals: false,
             n_terminals: 0,
-            num_non_projective: 0,
             processed_nts: 1,
             sec_edges: Vec::new(),
         })
@@ -132,6 +131,7 @@ impl Builder {
     ///   * panics if the footer doesn't start with `#EOS`.
     ///   * returns `Err` if the sentence id doesn't match.
     ///   * returns `Err` if not all NonTerminals were processed.
+    ///   * returns `Err` if the parent pointers don't form a single tree over all nodes.
     fn try_into_tree(mut self, footer: &str) -> Result<Tree, Error> {
         assert!(
             footer.starts_with("#EOS"),
@@ -162,13 +162,32 @@ impl Builder {
         if self.processed_nts != self.nt_indices.len() {
             return Err(format_err!("Did not process all nonterminals."));
         }
-        self.graph[root].set_span(Span::new(0, self.n_terminals))?;
-        Ok(Tree::new_from_parts(
-            self.graph,
-            self.n_terminals,
-            root,
-            self.num_non_projective,
-        ))
+        if self.n_terminals == 0 {
+            return Err(format_err!("Tree without Terminal nodes."));
+        }
+        // the parent pointers have to form a single tree below the root
+        for node in self.graph.node_indices() {
+            let n_parents = self
+                .graph
+                .edges_directed(node, Direction::Incoming)
+                .filter(|e| e.weight().is_primary())
+                .count();
+            if n_parents != (node != root) as usize {
+                return Err(format_err!("Node with {} parents.", n_parents));
+            }
+        }
+        let mut dfs = Dfs::new(GraphWrap::new(&self.graph), root);
+        let mut n_reached = 0;
+        while dfs.next(GraphWrap::new(&self.graph)).is_some() {
+            n_reached += 1;
+        }
+        if n_reached != self.graph.node_count() {
+            return Err(format_err!("Not all nodes are dominated by the root."));
+        }
+        let mut tree = Tree::new_from_parts(self.graph, self.n_terminals, root, 0);
+        // nonterminal lines can precede the lines of their children
+        tree.reset_nt_spans();
+        Ok(tree)
     }
 
     /// Add the given line to the builder.
@@ -214,20 +233,7 @@ impl Builder {
         }
         read_required_string_field(parts.next())?;
 
-        self.process_edges(self_idx, parts)?;
-
-        let coverage = self
-            .graph
-            .edges_directed(self_idx, Direction::Outgoing)
-            .filter(|e| e.weight().is_primary())
-            .flat_map(|e| self.graph[e.target()].span().into_iter())
-            .collect();
-        let span = Span::from_vec(coverage)?;
-        if span.skips().is_some() {
-            self.num_non_projective += 1;
-        }
-        self.graph[self_idx].set_span(span)?;
-        Ok(())
+        self.process_edges(self_idx, parts)
     }
 
     /// Process line containing a NonTerminal.
-- 
2.43.0


From 648f29f68600407213e085aa0295210af32beba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 14/24] fix: NegraWriter returns Err for trees the format can't
 express

Single-terminal trees and secondary edges below terminals panicked after
part of the sentence had been written.
---
 lumberjack/src/io/negra.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 7bd31d6..ee9acd8 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -424,6 +424,16 @@ where
     W: Write,
 {
     fn write_tree(&mut self, tree: &Tree) -> Result<(), Error> {
+        // the root is implicit in the format and only nonterminals have IDs to refer to
+        if tree[tree.root()].is_terminal() {
+            return Err(format_err!("Can't write tree without nonterminals."));
+        }
+        if tree
+            .terminals()
+            .any(|terminal| tree.secondary_children(terminal).next().is_some())
+        {
+            return Err(format_err!("Can't write secondary edge below terminal."));
+        }
         let sentence_id = if let Some(Some(sentence_id)) = tree[tree.root()]
             .features()
             .and_then(|f| f.get_val("sentence_id"))
-- 
2.43.0


From c2e3133a742b0d55089711b580fc299f0d63883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 15/24] fix: reject absolute ancestors without common nodes

Decoding a label like "L+0" underflowed.
---
 lumberjack/src/io/encode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index 193dc27..6eaf91b 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -380,6 +380,9 @@ impl<'a> TryFrom<&'a str> for AbsoluteAncestor {
             .next()
             .ok_or_else(|| format_err!("Missing offset."))?
             .parse::<usize>()?;
+        if offset == 0 {
+            return Err(format_err!("Number of common ancestors has to be at least 1."));
+        }
         Ok(AbsoluteAncestor::new(offset, label))
     }
 }
-- 
2.43.0


From 805e7b645a5043e216f430a4a246af504540c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 16/24] fix: converting an empty CoNLL-X sentence to a tree
 returns Err

---
 lumberjack/src/io/conllx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 5ed131f..a17e739 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -47,6 +47,9 @@ pub trait TryFromConllx: Sized {
 
 impl TryFromConllx for Tree {
     fn try_from_conllx_with_absolute_encoding(sentence: &Sentence) -> Result<Self, Error> {
+        if sentence.len() == 1 {
+            return Err(format_err!("Sentence without tokens."));
+        }
         let mut encoding = Vec::with_capacity(sentence.len() - 1);
         let mut terminals = Vec::with_capacity(sentence.len() - 1);
         for (idx, token) in sentence.iter().filter_map(Node::token).enumerate() {
@@ -83,6 +86,9 @@ impl TryFromConllx for Tree {
     }
 
     fn try_from_conllx_with_relative_encoding(sentence: &Sentence) -> Result<Self, Error> {
+        if sentence.len() == 1 {
+            return Err(format_err!("Sentence without tokens."));
+        }
         let mut encoding = Vec::with_capacity(sentence.len() - 1);
         let mut terminals = Vec::with_capacity(sentence.len() - 1);
         for (idx, token) in sentence.iter().filter_map(Node::token).enumerate() {
-- 
2.43.0


From 6a625da65b4803fc36d7ce4c35526bb0020b4458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:14 +0000
Subject: [PATCH 17/24] fix: insert_intermediate visits each word once

If words were created out of sentence order, the leftmost word of a parent
was visited again below the inserted node and got a second node inserted.
---
 lumberjack/src/tree_modification.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 18ddeb0..354ca9c 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -178,6 +178,8 @@ impl TreeOps for Tree {
                 children.sort_by(|c1, c2| self[c1.0].span().cmp(self[c2.0].span()));
                 let mut children = children.into_iter();
                 let (terminal, _) = children.next().unwrap();
+                // the leftmost child isn't necessarily the terminal that is currently visited
+                visit_map.visit(terminal);
                 let mut insert = self.insert_unary_above(terminal, label.clone());
 
                 let mut prev_idx = self[terminal].span().start;
-- 
2.43.0


From 96a0fad713a2e71d236099c57b524bfaeefd640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:00 +0000
Subject: [PATCH 18/24] hook: RelativeEncoding::from_labels under
 cfg(lumberjack_verif)

---
 lumberjack/src/io/encode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index 6eaf91b..a178d54 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -630,6 +630,13 @@ impl RelativeEncoding {
     pub(crate) fn new(inner: Vec<(Option<RelativeAncestor>, Option<String>)>) -> Self {
         RelativeEncoding(inner)
     }
+
+    /// Construct an encoding from arbitrary labels.
+    #[allow(unexpected_cfgs)]
+    #[cfg(lumberjack_verif)]
+    pub fn from_labels(inner: Vec<(Option<RelativeAncestor>, Option<String>)>) -> Self {
+        RelativeEncoding(inner)
+    }
 }
 
 impl Deref for RelativeEncoding {
-- 
2.43.0


From 8293a1e6d1898a7b093e880be30fa3895f1bc140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:26 +0000
Subject: [PATCH 19/24] fix: ancestor labels are split at the last '+', surplus
 parts are not dropped

---
 lumberjack/src/io/encode.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index a178d54..803b6ea 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -372,14 +372,12 @@ impl<'a> TryFrom<&'a str> for AbsoluteAncestor {
     type Error = Error;
 
     fn try_from(value: &str) -> Result<Self, Self::Error> {
-        let mut parts = value.split('+');
-        let label = parts
-            .next()
-            .ok_or_else(|| format_err!("Missing common label."))?;
-        let offset = parts
-            .next()
-            .ok_or_else(|| format_err!("Missing offset."))?
-            .parse::<usize>()?;
+        // the label itself may contain '+'
+        let idx = value
+            .rfind('+')
+            .ok_or_else(|| format_err!("Missing offset."))?;
+        let label = &value[..idx];
+        let offset = value[idx + 1..].parse::<usize>()?;
         if offset == 0 {
             return Err(format_err!("Number of common ancestors has to be at least 1."));
         }
@@ -419,17 +417,18 @@ impl<'a> TryFrom<&'a str> for RelativeAncestor {
     type Error = Error;
 
     fn try_from(value: &str) -> Result<Self, Self::Error> {
-        let mut parts = value.split('+');
-        let label = parts
-            .next()
-            .filter(|s| !s.is_empty())
-            .ok_or_else(|| format_err!("Missing common label."))?;
-        if let Some(offset) = parts.next() {
-            let offset = offset.parse::<isize>()?;
-            Ok(RelativeAncestor::new(offset, label))
-        } else {
-            Ok(RelativeAncestor::Root(label.to_owned()))
+        // the label itself may contain '+'
+        let (label, offset) = match value.rfind('+') {
+            Some(idx) => (&value[..idx], Some(value[idx + 1..].parse::<isize>()?)),
+            None => (value, None),
+        };
+        if label.is_empty() {
+            return Err(format_err!("Missing common label."));
         }
+        Ok(match offset {
+            Some(offset) => RelativeAncestor::new(offset, label),
+            None => RelativeAncestor::Root(label.to_owned()),
+        })
     }
 }
 
-- 
2.43.0


From 0b18de788b9acc1d01caef482a5503968feef1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 20/24] fix: empty features are not written to CoNLL-X tokens

---
 lumberjack/src/io/conllx.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index a17e739..c1521ec 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -140,7 +140,7 @@ impl<'a> From<&'a Terminal> for Token {
         let mut token = Token::new(terminal.form());
         token.set_lemma(terminal.lemma());
         token.set_pos(Some(terminal.label()));
-        if let Some(features) = terminal.features() {
+        if let Some(features) = terminal.features().filter(|f| !f.inner().is_empty()) {
             token.set_features(Some(Features::from_string(features.to_string())));
         }
         token
@@ -160,7 +160,10 @@ impl From<Tree> for Sentence {
             let lemma = terminal.set_lemma::<String>(None);
             token.set_lemma(lemma);
             token.set_pos(Some(terminal.set_label(String::new())));
-            if let Some(morph) = terminal.set_features(None) {
+            if let Some(morph) = terminal
+                .set_features(None)
+                .filter(|f| !f.inner().is_empty())
+            {
                 token.set_features(Some(Features::from_string(morph.to_string())));
             }
             tokens.push((token, terminal.span().start));
-- 
2.43.0


From 9a5b38943e80e55f52bd22e9b29a7813fe8d14e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:34 +0000
Subject: [PATCH 21/24] fix: NegraReader accepts nonterminals listed before all
 of their children

---
 lumberjack/src/io/negra.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index ee9acd8..8ab862d 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -175,6 +175,13 @@ impl Builder {
             if n_parents != (node != root) as usize {
                 return Err(format_err!("Node with {} parents.", n_parents));
             }
+            let has_children = self
+                .graph
+                .edges_directed(node, Direction::Outgoing)
+                .any(|e| e.weight().is_primary());
+            if !has_children && !self.graph[node].is_terminal() {
+                return Err(format_err!("Nonterminal without children."));
+            }
         }
         let mut dfs = Dfs::new(GraphWrap::new(&self.graph), root);
         let mut n_reached = 0;
@@ -216,10 +223,8 @@ impl Builder {
         let mut parts = line.split_whitespace();
 
         let self_id = read_required_numerical_field(parts.next().map(|part| &part[1..]))?;
-        let self_idx = *self
-            .nt_indices
-            .get(&self_id)
-            .ok_or_else(|| format_err!("Nonterminal without children."))?;
+        // the line can precede the lines of all children
+        let self_idx = self.nonterminal_index(self_id);
         read_required_string_field(parts.next())?;
 
         let mut label_parts = read_required_string_field(parts.next())?.split('=');
@@ -278,13 +283,7 @@ impl Builder {
         let parent_id = read_required_numerical_field(parts.next())?;
         // unlabeled edges denoted as "--" in tueba
         let edge = if edge == "--" { None } else { Some(edge) };
-        let parent_idx = match self.nt_indices.entry(parent_id) {
-            Entry::Occupied(v) => *v.get(),
-            Entry::Vacant(v) => *v.insert(
-                self.graph
-                    .add_node(NonTerminal::new("", self.n_terminals).into()),
-            ),
-        };
+        let parent_idx = self.nonterminal_index(parent_id);
         self.graph
             .add_edge(parent_idx, node_idx, Edge::new_primary(edge));
         if let Some((label, id)) = Self::parse_optional_fields(parts)? {
@@ -293,6 +292,17 @@ impl Builder {
         Ok(())
     }
 
+    /// Get the index of the nonterminal with the given id, add it to the graph if it is new.
+    fn nonterminal_index(&mut self, id: usize) -> NodeIndex {
+        match self.nt_indices.entry(id) {
+            Entry::Occupied(v) => *v.get(),
+            Entry::Vacant(v) => *v.insert(
+                self.graph
+                    .add_node(NonTerminal::new("", self.n_terminals).into()),
+            ),
+        }
+    }
+
     fn parse_optional_fields<'a>(
         mut parts: impl Iterator<Item = &'a str>,
     ) -> Result<Option<(&'a str, usize)>, Error> {
-- 
2.43.0


From 61883c7571718bd98cd189d63e6e80bfd1b36767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:24 +0000
Subject: [PATCH 22/24] fix: feature values may contain ':'

---
 lumberjack/src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/features.rs b/lumberjack/src/features.rs
index 523ec47..85b1385 100644
--- a/lumberjack/src/features.rs
+++ b/lumberjack/src/features.rs
@@ -21,7 +21,7 @@ where
             .split('|')
             .filter(|s| !s.is_empty())
             .map(|f| {
-                let mut parts = f.split(':');
+                let mut parts = f.splitn(2, ':');
                 let k = parts.next().unwrap();
                 let v = parts.next();
                 (k, v)
-- 
2.43.0


From 0540f7878179b96162835bccc86670c209e4ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:27 +0000
Subject: [PATCH 23/24] fix: encoded labels in CoNLL-X features may contain ':'

---
 lumberjack/src/io/conllx.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index c1521ec..18cc834 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -53,12 +53,11 @@ impl TryFromConllx for Tree {
         let mut encoding = Vec::with_capacity(sentence.len() - 1);
         let mut terminals = Vec::with_capacity(sentence.len() - 1);
         for (idx, token) in sentence.iter().filter_map(Node::token).enumerate() {
-            let ancestor = token
-                .features()
-                .and_then(|f| f.as_map().get("abs_ancestor"))
-                .ok_or_else(|| format_err!("Missing ancestor feature."))?
+            let features = token.features().map(|f| crate::Features::from(f.as_str()));
+            let ancestor = features
                 .as_ref()
-                .map(String::as_str)
+                .and_then(|f| f.get_val("abs_ancestor"))
+                .ok_or_else(|| format_err!("Missing ancestor feature."))?
                 .ok_or_else(|| format_err!("Ancestor feature missing value."))?;
             let terminal = Terminal::new(token.form(), token.pos().unwrap_or("_"), idx);
             terminals.push(terminal);
@@ -92,12 +91,11 @@ impl TryFromConllx for Tree {
         let mut encoding = Vec::with_capacity(sentence.len() - 1);
         let mut terminals = Vec::with_capacity(sentence.len() - 1);
         for (idx, token) in sentence.iter().filter_map(Node::token).enumerate() {
-            let ancestor = token
-                .features()
-                .and_then(|f| f.as_map().get("rel_ancestor"))
-                .ok_or_else(|| format_err!("Missing ancestor feature."))?
+            let features = token.features().map(|f| crate::Features::from(f.as_str()));
+            let ancestor = features
                 .as_ref()
-                .map(String::as_str)
+                .and_then(|f| f.get_val("rel_ancestor"))
+                .ok_or_else(|| format_err!("Missing ancestor feature."))?
                 .ok_or_else(|| format_err!("Ancestor feature missing value."))?;
             let terminal = Terminal::new(token.form(), token.pos().unwrap_or("_"), idx);
             terminals.push(terminal);
-- 
2.43.0


From fba6455e8194ffad9a92a8345f5cc5a176f86f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:40 +0000
Subject: [PATCH 24/24] fix: offsets and counts that are not representable are
 invalid instead of overflowing

---
 lumberjack/src/io/encode.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index 803b6ea..a106d76 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -378,8 +378,9 @@ impl<'a> TryFrom<&'a str> for AbsoluteAncestor {
             .ok_or_else(|| format_err!("Missing offset."))?;
         let label = &value[..idx];
         let offset = value[idx + 1..].parse::<usize>()?;
-        if offset == 0 {
-            return Err(format_err!("Number of common ancestors has to be at least 1."));
+        // relative offsets between counts are signed
+        if offset == 0 || offset > isize::max_value() as usize {
+            return Err(format_err!("Number of common ancestors is out of range: {}", offset));
         }
         Ok(AbsoluteAncestor::new(offset, label))
     }
@@ -469,7 +470,8 @@ impl AbsoluteEncoding {
             if let Some(ancestor) = ancestor {
                 let (n_common, label) = match ancestor {
                     RelativeAncestor::Regular { label, offset } => {
-                        let n_common = offset + prev_n;
+                        // sums that are not representable are as invalid as negative ones
+                        let n_common = offset.checked_add(prev_n).unwrap_or(0);
                         if n_common < 1 {
                             return ConversionResult::Error(RelativeToAbsoluteError {
                                 iter,
@@ -562,7 +564,7 @@ impl RelativeToAbsoluteError {
             if let Some(ancestor) = ancestor {
                 let (n_common, label) = match ancestor {
                     RelativeAncestor::Regular { label, offset } => {
-                        let mut n_common = offset + self.prev_n;
+                        let mut n_common = offset.checked_add(self.prev_n).unwrap_or(0);
                         if n_common < 1 {
                             n_common = 2;
                         }
-- 
2.43.0

