From d7642016b1dc36da2047d57bfae0a0d52aac1f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 01/68] fix: do not turn curves that overshoot their end points
 into lines

---
 src/task/paths/conv_segments.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index 3644843..d2537c3 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -143,25 +143,29 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
             SegmentData::CurveTo { x1, y1, x2, y2, x, y } => {
                 let is_vlineto = || {
                     // If prev_x, x1, x2 and x are equal than this CurveTo is VerticalLineTo.
-                    // y1 must be equal or greater than prev_y.
-                    // y2 must be equal or less than y.
+                    // y1 and y2 must be equal or greater than prev_y.
+                    // y1 and y2 must be equal or less than y.
 
                        prev_x.fuzzy_eq(&x)
                     && x1.fuzzy_eq(&x2)
                     && x1.fuzzy_eq(&x)
                     && y1.fuzzy_cmp(&prev_y) != Ordering::Less
+                    && y1.fuzzy_cmp(&y) != Ordering::Greater
+                    && y2.fuzzy_cmp(&prev_y) != Ordering::Less
                     && y2.fuzzy_cmp(&y) != Ordering::Greater
                 };
 
                 let is_hlineto = || {
                     // If prev_y, y1, y2 and y are equal - this CurveTo is HorizontalLineTo.
-                    // x1 must be equal or greater than prev_x.
-                    // x2 must be equal or less than x.
+                    // x1 and x2 must be equal or greater than prev_x.
+                    // x1 and x2 must be equal or less than x.
 
                        prev_y.fuzzy_eq(&y)
                     && y1.fuzzy_eq(&y2)
                     && y1.fuzzy_eq(&y)
                     && x1.fuzzy_cmp(&prev_x) != Ordering::Less
+                    && x1.fuzzy_cmp(&x) != Ordering::Greater
+                    && x2.fuzzy_cmp(&prev_x) != Ordering::Less
                     && x2.fuzzy_cmp(&x) != Ordering::Greater
                 };
 
@@ -235,7 +239,7 @@ fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool
 
         if y.fuzzy_eq(&c) {
             if    ( x.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x2) == Ordering::Less)
-               || (x2.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
+               || ( x.fuzzy_cmp(&x2) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
                 return true;
             }
         }
-- 
2.43.0


From 96180b08a1a1df7ec30f2ef151683878c51733f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 02/68] fix: keep a repeated curve that does not start where it
 ends

---
 src/task/paths/rm_unused.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index 581f6d4..a5a1ec3 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -118,10 +118,37 @@ fn remove_mz(path: &mut Path) -> bool {
 }
 
 // If current segment is the same as previous - remove it.
+//
+// A curve draws the same thing twice only when it ends where it starts.
+// S and T also depend on a previous control point, so they should be kept.
 fn remove_equal(path: &mut Path) -> bool {
-    drain_by_pair(path, DrainMode::Single, |prev, curr| {
-        prev.fuzzy_eq(curr)
-    })
+    let old_len = path.d.len();
+
+    let mut i = 1;
+    while i < path.d.len() {
+        let curr = path.d[i];
+        let is_equal = path.d[i - 1].fuzzy_eq(&curr) && match curr.cmd() {
+              Command::CurveTo
+            | Command::Quadratic
+            | Command::EllipticalArc => {
+                i > 1 && {
+                    let (px, py) = utils::resolve_xy(path, i - 2);
+                    curr.x().unwrap().fuzzy_eq(&px) && curr.y().unwrap().fuzzy_eq(&py)
+                }
+            }
+              Command::SmoothCurveTo
+            | Command::SmoothQuadratic => false,
+            _ => true,
+        };
+
+        if is_equal {
+            path.d.remove(i);
+        } else {
+            i += 1;
+        }
+    }
+
+    old_len != path.d.len()
 }
 
 // If segment moved to the same position as current - remove it.
-- 
2.43.0


From 44c22c0c1eeafc6892fd915c03c4ae1c1404047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 03/68] fix: keep a curve whose control point the next segment
 reflects

---
 src/task/paths/conv_segments.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index d2537c3..3d26d6e 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -138,6 +138,8 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
     while i < path.d.len() {
         let prev_seg = path.d[i - 1];
         let (prev_x, prev_y) = utils::resolve_xy(path, i - 1);
+        // The first control point of SmoothCurveTo depends on the current curve.
+        let is_before_smooth = path.d.get(i + 1).map_or(false, |s| s.cmd() == Command::SmoothCurveTo);
         let curr_seg = &mut path.d[i];
         match *curr_seg.data() {
             SegmentData::CurveTo { x1, y1, x2, y2, x, y } => {
@@ -174,13 +176,13 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
                     && is_point_on_line(prev_x, prev_y, x, y, x2, y2)
                 };
 
-                if is_vlineto() {
+                if !is_before_smooth && is_vlineto() {
                     *curr_seg = Segment::new_line_to(prev_x, y);
                     *is_changed = true;
-                } else if is_hlineto() {
+                } else if !is_before_smooth && is_hlineto() {
                     *curr_seg = Segment::new_line_to(x, prev_y);
                     *is_changed = true;
-                } else if is_lineto() {
+                } else if !is_before_smooth && is_lineto() {
                     *curr_seg = Segment::new_line_to(x, y);
                     *is_changed = true;
                 } else {
-- 
2.43.0


From 46e7a2717616c745c727e940075e59d75166f9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 04/68] fix: keep a zero-length line that stops a control point
 reflection

---
 src/task/paths/rm_unused.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index a5a1ec3..e6cf62a 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -158,8 +158,18 @@ fn remove_zero_lenght(path: &mut Path, is_changed: &mut bool) {
         let curr = path.d[i];
         let (px, py) = utils::resolve_xy(path, i - 1);
 
+        // The first control point of S and T is reflected only from a previous curve,
+        // so a segment between them can't be removed.
+        let is_reflected = match (path.d[i - 1].cmd(), path.d.get(i + 1).map(|s| s.cmd())) {
+              (Command::CurveTo, Some(Command::SmoothCurveTo))
+            | (Command::SmoothCurveTo, Some(Command::SmoothCurveTo))
+            | (Command::Quadratic, Some(Command::SmoothQuadratic))
+            | (Command::SmoothQuadratic, Some(Command::SmoothQuadratic)) => true,
+            _ => false,
+        };
+
         let is_equal = match curr.cmd() {
-            Command::LineTo => {
+            Command::LineTo if !is_reflected => {
                 curr.x().unwrap().fuzzy_eq(&px) && curr.y().unwrap().fuzzy_eq(&py)
             }
             // Curves can't be removed.
-- 
2.43.0


From feb5b089d65264696be13f2da544aae76cdcdedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 05/68] fix: do not turn a rect with markers into a path

---
 src/task/conv_shapes.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/task/conv_shapes.rs b/src/task/conv_shapes.rs
index 6f5530f..fc63dbb 100644
--- a/src/task/conv_shapes.rs
+++ b/src/task/conv_shapes.rs
@@ -77,6 +77,11 @@ fn convert_line(node: &mut Node) {
 fn convert_rect(node: &mut Node) {
     debug_assert!(node.is_tag_name(EId::Rect));
 
+    // Markers are not applicable to a rect, but will be drawn on a path.
+    if has_markers(node) {
+        return;
+    }
+
     let path = {
         let attrs = node.attributes();
 
@@ -119,6 +124,18 @@ fn convert_rect(node: &mut Node) {
     node.remove_attributes(&[AId::X, AId::Y, AId::Rx, AId::Ry, AId::Width, AId::Height]);
 }
 
+fn has_markers(node: &Node) -> bool {
+    node.parents_with_self().any(|n| {
+        let attrs = n.attributes();
+        [AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd].iter().any(|aid| {
+            match attrs.get_value(*aid) {
+                Some(&AttributeValue::FuncLink(_)) => true,
+                _ => false,
+            }
+        })
+    })
+}
+
 fn convert_polyline(node: &mut Node) {
     debug_assert!(node.is_tag_name(EId::Polyline));
 
-- 
2.43.0


From 9f3ffd6c3748ec0d808298f321299dce07d5230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 06/68] fix: do not apply a transform to elements with markers

---
 src/task/apply_transforms/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index caec379..04257c9 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -67,7 +67,8 @@ pub mod utils {
     // TODO: process 'fill', 'stroke' and 'filter' linked elements only if they
     //       used only by this element.
     pub fn is_valid_attrs(node: &Node) -> bool {
-        for aid in &[AId::Fill, AId::Stroke, AId::Filter, AId::Mask, AId::ClipPath] {
+        for aid in &[AId::Fill, AId::Stroke, AId::Filter, AId::Mask, AId::ClipPath,
+                     AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd] {
             if !is_valid_attr(node, *aid) {
                 return false;
             }
-- 
2.43.0


From e7d176fc0a77c3993243a8877d4a227b6f51c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 07/68] fix: do not scale a stroke that may be inherited from
 an use element

---
 src/task/apply_transforms/mod.rs    | 8 ++++++++
 src/task/apply_transforms/shapes.rs | 4 ++++
 src/task/paths/mod.rs               | 3 ++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index 04257c9..6d17d9d 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -92,6 +92,14 @@ pub mod utils {
         true
     }
 
+    // An element that is used by 'use' inherits stroke properties from it too,
+    // so a stroke can't be recalculated without knowing all 'use' elements.
+    pub fn is_valid_scale(node: &Node, ts: &Transform) -> bool {
+        !ts.has_scale() || !node.parents_with_self().any(|n| {
+            n.linked_nodes().any(|l| l.is_tag_name(EId::Use))
+        })
+    }
+
     // We can process only coordinates without units.
     pub fn is_valid_coords(node: &Node) -> bool {
         match node.tag_id().unwrap() {
diff --git a/src/task/apply_transforms/shapes.rs b/src/task/apply_transforms/shapes.rs
index fdfde01..23f2b61 100644
--- a/src/task/apply_transforms/shapes.rs
+++ b/src/task/apply_transforms/shapes.rs
@@ -51,6 +51,10 @@ fn process<F>(node: &mut Node, func: F)
 
     let ts = utils::get_ts(node);
 
+    if !utils::is_valid_scale(node, &ts) {
+        return;
+    }
+
     {
         let mut attrs = node.attributes_mut();
         func(&mut attrs, &ts);
diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index 18fc59a..a2cfb73 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -46,7 +46,8 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
                 let tsl = ts_utils::get_ts(&node);
 
                 if    ts_utils::is_valid_transform(&tsl)
-                   && ts_utils::is_valid_attrs(&node) {
+                   && ts_utils::is_valid_attrs(&node)
+                   && ts_utils::is_valid_scale(&node, &tsl) {
                     ts = Some(tsl);
 
                     node.remove_attribute(AId::Transform);
-- 
2.43.0


From bad8bc507a4fba6970521c1dcba1df34beba210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 08/68] fix: keep an inherited radius of a gradient after
 applying a transform

---
 src/task/apply_transforms/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index 6d17d9d..d77b9c7 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -146,8 +146,9 @@ pub mod utils {
     }
 
     pub fn scale_coord(attrs: &mut Attributes, aid: AId, scale_factor: &f64) {
-        if let Some(&mut AttributeValue::Length(ref mut len)) = attrs.get_value_mut(aid) {
-            len.num *= *scale_factor;
+        if let Some(&AttributeValue::Length(len)) = attrs.get_value(aid) {
+            // A resolved attribute is hidden, so it should be inserted again.
+            attrs.insert_from(aid, (len.num * *scale_factor, len.unit));
         }
     }
 
-- 
2.43.0


From 4669c559ebda6e280523d5113233876772818d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 09/68] fix: do not move a transform from a group to a nested
 svg

---
 src/task/ungroup_groups.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e9e03e6..bac0ea2 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -78,6 +78,11 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // 'svg' doesn't support 'transform' attribute.
+    if g.has_attribute(AId::Transform) && g.children().any(|n| n.is_tag_name(EId::Svg)) {
+        return false;
+    }
+
     // Group shouldn't contain some attributes.
     if g.has_attributes(&invalid_attrs) {
         return false;
-- 
2.43.0


From 99fd2754c9d4f8184ebb5332601184ddf7eca925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 10/68] fix: do not ungroup a transform into an element used
 elsewhere

---
 src/task/ungroup_groups.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index bac0ea2..f56cb4a 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -126,7 +126,7 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     // example: oxygen/edit-find-mail.svg
     if g.has_attribute(AId::Transform) && g.attributes().len() == 1 {
         let is_ok = g.children().all(|n| {
-            n.has_attribute(AId::Transform) && !n.is_tag_name(EId::Use)
+            n.has_attribute(AId::Transform) && !n.is_tag_name(EId::Use) && !n.is_used()
         });
 
         if is_ok {
-- 
2.43.0


From 07559a46445e94cc54c5003b0e3014d173cd83a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 11/68] fix: keep a hidden element hidden after ungrouping

---
 src/task/ungroup_groups.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index f56cb4a..99a2f37 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -20,6 +20,7 @@ use svgdom::{
     AttributeValue,
     Document,
     Node,
+    ValueId,
 };
 
 use task::short::{EId, AId};
@@ -176,8 +177,8 @@ fn ungroup_group(g: &mut Node) {
                 }
             }
 
-            if aid == AId::Display {
-                // Display attribute has a priority during rendering, so we must
+            if aid == AId::Display && attr.value == AttributeValue::from(ValueId::None) {
+                // Hidden group has a priority during rendering, so we must
                 // copy it even if a child has it already.
                 child.set_attribute(attr.clone());
                 continue;
-- 
2.43.0


From c83ff60f11b79f6cf8fe293a68984648e98dcc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 12/68] fix: do not apply a group transform to an element used
 elsewhere

---
 src/task/apply_transforms/preproc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/task/apply_transforms/preproc.rs b/src/task/apply_transforms/preproc.rs
index beb3271..deb12fd 100644
--- a/src/task/apply_transforms/preproc.rs
+++ b/src/task/apply_transforms/preproc.rs
@@ -62,6 +62,8 @@ pub fn prepare_transforms(parent: &Node, recursive: bool, opt: &CleaningOptions)
             };
 
                valid_elems.contains(&id)
+            // Used elements don't inherit a transform from a group.
+            && !n.is_used()
             && utils::has_valid_transform(&n)
             && utils::is_valid_attrs(&n)
             && is_valid_coords
-- 
2.43.0


From e4d269d5907812f942b4c5e4e706f22c5a4b4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 13/68] fix: keep an inherited visibility of moved definitions

---
 src/task/group_defs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 48a1e7f..c4f190c 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -23,7 +23,7 @@ use svgdom::{
     Node,
 };
 
-use task::short::EId;
+use task::short::{EId, AId};
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -108,7 +108,7 @@ fn resolve_attrs(node: &Node) {
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
                 let attrs = p.attributes();
-                for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_inheritable()) {
+                for (aid, attr) in attrs.iter_svg().filter(|&(id, a)| a.is_inheritable() || id == AId::Visibility) {
                     for mut child in node.children() {
                         if child.has_attribute(aid) {
                             continue;
-- 
2.43.0


From d87f7fbe8e85a85a2fa0c8ea5d0e27cfbc02a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 14/68] fix: do not resolve attributes of a symbol from its
 parents

---
 src/task/group_defs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index c4f190c..c311f86 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -103,8 +103,7 @@ fn resolve_attrs(node: &Node) {
           EId::ClipPath
         | EId::Marker
         | EId::Mask
-        | EId::Pattern
-        | EId::Symbol => {
+        | EId::Pattern => {
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
                 let attrs = p.attributes();
-- 
2.43.0


From 3c80bc517f5ac693b76d71d73579cd47e6d73f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 15/68] fix: do not move a definition with children used
 elsewhere

---
 src/task/group_defs.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index c311f86..b22f7b0 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -48,7 +48,7 @@ pub fn group_defs(doc: &mut Document) {
         for (_, node) in doc.descendants().svg() {
             if node.is_referenced() {
                 if let Some(parent) = node.parent() {
-                    if parent != defs {
+                    if parent != defs && can_move(&node) {
                         nodes.push(node.clone());
                     }
                 }
@@ -96,6 +96,18 @@ pub fn group_defs(doc: &mut Document) {
     }
 }
 
+// Attributes of the moved element will be resolved into it's children,
+// so the children can't be used by other elements.
+fn can_move(node: &Node) -> bool {
+    match node.tag_id().unwrap() {
+          EId::ClipPath
+        | EId::Marker
+        | EId::Mask
+        | EId::Pattern => !node.children().any(|n| n.is_used()),
+        _ => true,
+    }
+}
+
 // Graphical elements inside referenced elements inherits parent attributes,
 // so if we want to move this elements to the 'defs' - we should resolve attributes too.
 fn resolve_attrs(node: &Node) {
-- 
2.43.0


From 2f1e267860e4d368fca192cdc790963123fe2fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 16/68] fix: resolve attributes of nested definitions before
 moving them

---
 src/task/group_defs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index b22f7b0..78bc784 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -55,8 +55,12 @@ pub fn group_defs(doc: &mut Document) {
             }
         }
 
-        for n in &mut nodes {
+        // Resolve before moving, while all parents are still there.
+        for n in &nodes {
             resolve_attrs(n);
+        }
+
+        for n in &mut nodes {
             n.detach();
             defs.append(n);
         }
-- 
2.43.0


From e35bcc6bf8fd1f94612be906eb67fbab4368a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 17/68] fix: do not move a transform to a nested svg

---
 src/task/group_by_style.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index e584f43..113af12 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -471,6 +471,10 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
         // If parent node is 'g' - use it,
         // it not - create new one.
         let is_valid_parent = parent.is_tag_name(EId::Svg) || parent.is_tag_name(EId::G);
+        // A nested 'svg' doesn't support 'transform' attribute.
+        let is_nested_svg = parent.is_tag_name(EId::Svg) && parent.parents().svg().count() != 0;
+        let has_transform = table.d[0].attributes.iter().any(|a| a.has_id(AId::Transform));
+        let is_valid_parent = is_valid_parent && !(is_nested_svg && has_transform);
         let mut g_node = if is_valid_parent && is_all_children {
             parent.clone()
         } else {
-- 
2.43.0


From caa001cf5422937e9a5441bbac74e456c7ff1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 18/68] fix: do not replace an use element linked to a svg
 element

---
 src/task/resolve_use.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 29e17bb..c14e120 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -43,8 +43,8 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
-                // 'symbol' elements can't be simply replaced.
-                if link.is_tag_name(EId::Symbol) {
+                // 'symbol' and 'svg' elements can't be simply replaced.
+                if link.is_tag_name(EId::Symbol) || link.is_tag_name(EId::Svg) {
                     continue;
                 }
 
-- 
2.43.0


From 8ef4e5794352ae4c9f5fe595dde9cb66c27ed457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 19/68] fix: keep a link of an use element with unit
 coordinates

---
 src/task/resolve_use.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index c14e120..cfd6097 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -58,6 +58,14 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
+                // We can apply 'x' and 'y' to transform only when they have 'none' units.
+                let attrs = node.attributes();
+                let x = get_value!(attrs, Length, AId::X, Length::zero());
+                let y = get_value!(attrs, Length, AId::Y, Length::zero());
+                if !(x.unit == Unit::None && y.unit == Unit::None) {
+                    continue;
+                }
+
                 nodes.push((node.clone(), link.clone()));
             }
         }
@@ -78,11 +86,6 @@ pub fn resolve_use(doc: &Document) {
                 let x = get_value!(attrs, Length, AId::X, Length::zero());
                 let y = get_value!(attrs, Length, AId::Y, Length::zero());
 
-                // We can apply 'x' and 'y' to transform only when they have 'none' units.
-                if !(x.unit == Unit::None && y.unit == Unit::None) {
-                    continue;
-                }
-
                 let mut ts = get_value!(attrs, Transform, AId::Transform, Transform::default());
                 ts.translate(x.num, y.num);
 
-- 
2.43.0


From b399fe5d05a3a66bb606798d1d575a3276761d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 20/68] fix: do not override attributes of an element linked by
 use

---
 src/task/resolve_use.rs | 58 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index cfd6097..c834095 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -20,7 +20,9 @@ use svgdom::{
     AttributeValue,
     Document,
     Length,
+    Node,
     Transform,
+    ValueId,
 };
 
 use task::short::{EId, AId, Unit};
@@ -66,6 +68,16 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
+                // 'clip-path', 'mask' and 'filter' are applied to the whole 'use' element,
+                // so they can't be moved to an element with own transform or effects.
+                if     attrs.iter_svg().any(|(aid, _)| is_effect(aid))
+                    && link.attributes().iter_svg().any(|(aid, _)| {
+                           is_effect(aid) || aid == AId::Transform || aid == AId::Opacity
+                       })
+                {
+                    continue;
+                }
+
                 nodes.push((node.clone(), link.clone()));
             }
         }
@@ -95,10 +107,7 @@ pub fn resolve_use(doc: &Document) {
             }
         }
 
-        // Copy attributes.
-        for attr in node.attributes().iter() {
-            link.set_attribute(attr.clone());
-        }
+        merge_attributes(&node, &mut link);
 
         // TODO: maybe just change the tag name
         link.detach();
@@ -108,6 +117,47 @@ pub fn resolve_use(doc: &Document) {
     }
 }
 
+fn is_effect(aid: AId) -> bool {
+    aid == AId::ClipPath || aid == AId::Mask || aid == AId::Filter
+}
+
+// Merges 'use' attributes with attributes of the linked element.
+//
+// The linked element is rendered like a child of the 'use' element,
+// so it's own attributes have a priority.
+fn merge_attributes(node: &Node, link: &mut Node) {
+    for attr in node.attributes().iter() {
+        let aid = match attr.id() {
+            Some(aid) => aid,
+            None => {
+                link.set_attribute(attr.clone());
+                continue;
+            }
+        };
+
+        // Affects only 'svg' and 'symbol'.
+        if aid == AId::Width || aid == AId::Height {
+            continue;
+        }
+
+        let value = link.attributes().get_value(aid).cloned();
+        match (aid, &attr.value, value) {
+            (_, _, None) => link.set_attribute(attr.clone()),
+            (AId::Transform, &AttributeValue::Transform(mut ts1), Some(AttributeValue::Transform(ts2))) => {
+                ts1.append(&ts2);
+                link.set_attribute((aid, ts1));
+            }
+            (AId::Opacity, &AttributeValue::Number(op1), Some(AttributeValue::Number(op2))) => {
+                link.set_attribute((aid, op1 * op2));
+            }
+            (AId::Display, v, _) if *v == AttributeValue::from(ValueId::None) => {
+                link.set_attribute(attr.clone());
+            }
+            _ => {}
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From d46fada396fe260e802ccfab9b5358dd86b7a353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 21/68] fix: compare all attributes of feGaussianBlur elements

---
 src/task/rm_dupl_defs/fe_gaussian_blur.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/fe_gaussian_blur.rs b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
index ec85772..c10b3f9 100644
--- a/src/task/rm_dupl_defs/fe_gaussian_blur.rs
+++ b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
@@ -36,6 +36,11 @@ pub fn remove_dupl_fe_gaussian_blur(doc: &Document) {
     ];
 
     let fe_blur_attrs = [
+        AId::X,
+        AId::Y,
+        AId::Width,
+        AId::Height,
+        AId::ColorInterpolationFilters,
         AId::StdDeviation,
     ];
 
-- 
2.43.0


From 4d8f9eb7f2656013f5304e9a345166128592ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 22/68] fix: resolve inherit of a non-inheritable attribute
 from the parent only

---
 src/task/resolve_inherit.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index aa13dae..2ceb697 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -17,7 +17,9 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeId,
+    AttributeType,
     AttributeValue,
     Document,
     Node,
@@ -74,6 +76,18 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
 }
 
 fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeId) -> Result<()> {
+    if !is_inheritable(parent_attr) {
+        // Only a value of the direct parent can be used.
+        // Without it, the parent has a default value, so this element should have it too.
+        let av = node.parent().and_then(|p| p.attributes().get_value(parent_attr).cloned());
+        match av {
+            Some(av) => node.set_attribute((curr_attr, av)),
+            None => node.remove_attribute(curr_attr),
+        }
+
+        return Ok(());
+    }
+
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
         let av = n.attributes().get_value(parent_attr).cloned();
         if let Some(av) = av {
@@ -86,6 +100,10 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
     }
 }
 
+fn is_inheritable(aid: AttributeId) -> bool {
+    aid == AttributeId::Visibility || Attribute::new(aid, ValueId::Inherit).is_inheritable()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 1762310e8392fb89a1c186840ba98a856b5aae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 23/68] fix: keep values inherited through a removed duplicated
 gradient

---
 src/task/rm_dupl_defs/mod.rs             | 62 +++++++++++++++++++++++-
 src/task/rm_dupl_defs/radial_gradient.rs | 24 +++++++++
 2 files changed, 85 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index d2304bc..bf65dae 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -50,7 +50,7 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
     let mut len = nodes.len();
     let mut i1 = 0;
     while i1 < len {
-        let node1 = nodes[i1].clone();
+        let mut node1 = nodes[i1].clone();
 
         let mut i2 = i1 + 1;
         while i2 < len {
@@ -61,6 +61,16 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
                 continue;
             }
 
+            if is_linked_indirectly(&node1, &node2) {
+                // Relinking will create a loop.
+                continue;
+            }
+
+            if linked_gradient(&node1).as_ref() == Some(&node2) {
+                // Keep values that were inherited from the removed element.
+                show_inherited_attrs(&mut node1, &node2);
+            }
+
             // Collect linked nodes.
             for ln in node2.linked_nodes() {
                 let attrs = ln.attributes();
@@ -104,6 +114,11 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
 
     check_attr!(&attrs1, &attrs2, AId::GradientTransform, Transform::default());
 
+    // A gradient without own `stop` elements takes them from the referenced gradient.
+    if !node1.has_children() && stops_source(node1) != stops_source(node2) {
+        return false;
+    }
+
     if attrs1.contains(AId::XlinkHref) && attrs2.contains(AId::XlinkHref) {
         if attrs1.get_value(AId::XlinkHref).unwrap() != attrs2.get_value(AId::XlinkHref).unwrap() {
             return false;
@@ -119,6 +134,51 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     true
 }
 
+fn linked_gradient(node: &Node) -> Option<Node> {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref link)) => Some(link.clone()),
+        _ => None,
+    }
+}
+
+fn is_linked_indirectly(node: &Node, other: &Node) -> bool {
+    let mut curr = linked_gradient(node).and_then(|n| linked_gradient(&n));
+    while let Some(n) = curr {
+        if n == *other {
+            return true;
+        }
+
+        curr = linked_gradient(&n);
+    }
+
+    false
+}
+
+fn show_inherited_attrs(node: &mut Node, linked: &Node) {
+    let linked_attrs = linked.attributes();
+    let mut attrs = node.attributes_mut();
+
+    for (aid, _) in linked_attrs.iter_svg().filter(|&(_, a)| a.visible) {
+        if let Some(attr) = attrs.get_mut(aid) {
+            attr.visible = true;
+        }
+    }
+}
+
+// Returns the nearest gradient with children.
+fn stops_source(node: &Node) -> Option<Node> {
+    let mut curr = Some(node.clone());
+    while let Some(n) = curr {
+        if n.has_children() {
+            return Some(n);
+        }
+
+        curr = linked_gradient(&n);
+    }
+
+    None
+}
+
 pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
     let children_count1 = node1.children().count();
 
diff --git a/src/task/rm_dupl_defs/radial_gradient.rs b/src/task/rm_dupl_defs/radial_gradient.rs
index b24a559..37a65f0 100644
--- a/src/task/rm_dupl_defs/radial_gradient.rs
+++ b/src/task/rm_dupl_defs/radial_gradient.rs
@@ -18,6 +18,7 @@
 
 use svgdom::{
     Document,
+    ElementType,
     Node,
 };
 
@@ -47,10 +48,33 @@ pub fn remove_dupl_radial_gradients(doc: &Document) {
             return false;
         }
 
+        if node2.linked_nodes().any(|n| n.is_gradient()) {
+            // An explicit focal point is inherited by a linking gradient
+            // and a default one is resolved from it's own center.
+            for aid in &[AId::Fx, AId::Fy] {
+                if is_specified(node1, *aid) != is_specified(node2, *aid) {
+                    return false;
+                }
+            }
+        }
+
         true
     });
 }
 
+fn is_specified(node: &Node, aid: AId) -> bool {
+    let mut curr = Some(node.clone());
+    while let Some(n) = curr {
+        if n.attributes().get(aid).map_or(false, |a| a.visible) {
+            return true;
+        }
+
+        curr = super::linked_gradient(&n);
+    }
+
+    false
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 8ecbcaf0adea5f2bbfa2951a92b35d8d9abbdf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 24/68] fix: do not remove the root element and definitions
 with display:none

---
 src/task/rm_invisible_elems.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 96c3b20..a4967a9 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -22,6 +22,7 @@ use svgdom::{
     ElementType,
     FuzzyEq,
     Node,
+    NodeType,
     ValueId,
 };
 
@@ -139,9 +140,15 @@ fn process_display_attribute(doc: &Document, is_any_removed: &mut bool) {
 
 fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_removed: &mut bool) {
     for (_, node) in parent.children().svg() {
+        // The 'display' attribute is not applicable to 'defs'
+        // and a document must have a root element.
+        let is_required = node.is_tag_name(EId::Defs) || parent.node_type() == NodeType::Root;
+
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
         let val = AttributeValue::PredefValue(ValueId::None);
-        if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() {
+        if    !is_required
+           && node.attributes().get_value(AId::Display) == Some(&val)
+           && !node.is_used() {
             // All children must be unused to.
             if !node.descendants().any(|n| n.is_used()) {
                 // TODO: ungroup used elements and remove unused
-- 
2.43.0


From 7c1999c22a9bd4b9fd3e443779f8f80859507ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 25/68] fix: do not remove invisible children of a switch
 element

---
 src/task/rm_invisible_elems.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index a4967a9..111f0fc 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -108,6 +108,12 @@ fn is_valid_clip_path_elem(node: &Node) -> bool {
     is_valid_shape(node)
 }
 
+// A 'switch' element renders only the first suitable child,
+// so after removing it the next one will be rendered.
+fn is_switch_child(node: &Node) -> bool {
+    node.parent().map_or(false, |n| n.is_tag_name(EId::Switch))
+}
+
 // Paths with empty 'd' attribute are invisible and we can remove them.
 fn process_paths(doc: &mut Document, is_any_removed: &mut bool) {
     fn is_invisible(node: &Node) -> bool {
@@ -119,7 +125,7 @@ fn process_paths(doc: &mut Document, is_any_removed: &mut bool) {
         }
     }
 
-    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n));
+    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n) && !is_switch_child(n));
     if c != 0 {
         *is_any_removed = true;
     }
@@ -142,7 +148,9 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
     for (_, node) in parent.children().svg() {
         // The 'display' attribute is not applicable to 'defs'
         // and a document must have a root element.
-        let is_required = node.is_tag_name(EId::Defs) || parent.node_type() == NodeType::Root;
+        let is_required =    node.is_tag_name(EId::Defs)
+                          || parent.node_type() == NodeType::Root
+                          || is_switch_child(&node);
 
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
         let val = AttributeValue::PredefValue(ValueId::None);
@@ -220,7 +228,9 @@ fn process_fe_color_matrix(doc: &mut Document) {
 
 // 'use' element without 'xlink:href' attribute is pointless.
 fn process_use(doc: &mut Document, is_any_removed: &mut bool) {
-    let c = doc.drain(|n| n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref));
+    let c = doc.drain(|n|    n.is_tag_name(EId::Use)
+                          && !n.has_attribute(AId::XlinkHref)
+                          && !is_switch_child(n));
     if c != 0 {
         *is_any_removed = true;
     }
@@ -337,7 +347,7 @@ fn process_rect(doc: &mut Document, is_any_removed: &mut bool) {
         false
     }
 
-    let c = doc.drain(is_invisible);
+    let c = doc.drain(|n| is_invisible(n) && !is_switch_child(n));
     if c != 0 {
         *is_any_removed = true;
     }
-- 
2.43.0


From c897168f6bb120e5242d8828a1cb36f13ab355c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 26/68] fix: do not remove used elements with an empty clip
 path

---
 src/task/rm_invisible_elems.rs | 37 ++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 111f0fc..2c1b802 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -61,7 +61,7 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Remove all invalid children.
     for node in doc.descendants().filter(|n| n.is_tag_name(EId::ClipPath)) {
         for child in node.children() {
-            if !is_valid_clip_path_elem(&child) {
+            if !is_valid_clip_path_elem(&child) && !has_used_nodes(&child) {
                 nodes.push(child.clone());
             }
         }
@@ -80,14 +80,43 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Remove empty clipPath's.
     // Note, that all elements that uses this clip path also became invisible,
     // so we can remove them as well.
-    while let Some(mut n) = clip_paths.pop() {
+    let mut i = 0;
+    while i < clip_paths.len() {
+        let mut n = clip_paths[i].clone();
+        i += 1;
+
         for mut link in n.linked_nodes().collect::<Vec<Node>>() {
-            link.remove();
+            if link.is_tag_name(EId::ClipPath) {
+                // This clip path became empty too.
+                if !clip_paths.contains(&link) {
+                    clip_paths.push(link.clone());
+                }
+            } else if is_removable(&link) {
+                link.remove();
+            }
+        }
+
+        if !has_used_nodes(&n) {
+            n.remove();
         }
-        n.remove();
     }
 }
 
+fn has_used_nodes(node: &Node) -> bool {
+    node.descendants().any(|n| n.is_used())
+}
+
+// Checks that an element with an empty clip path or filter can be removed.
+fn is_removable(node: &Node) -> bool {
+    // Elements that aren't rendered directly can be used even without a content.
+    let is_graphic =    node.is_graphic()
+                     || node.is_tag_name(EId::G)
+                     || node.is_tag_name(EId::A)
+                     || node.is_tag_name(EId::Switch);
+
+    is_graphic && !is_switch_child(node) && !has_used_nodes(node)
+}
+
 fn is_valid_clip_path_elem(node: &Node) -> bool {
     // https://www.w3.org/TR/SVG/masking.html#EstablishingANewClippingPath
 
-- 
2.43.0


From 87d4f0bdd4660fc7df59ff3cb87b93a53e1e5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 27/68] fix: do not remove used elements with an empty filter

---
 src/task/rm_invisible_elems.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 2c1b802..90e2108 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -200,7 +200,9 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
 // Remove 'filter' elements without children.
 fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes: Vec<Node> = doc.descendants()
-                                  .filter(|n| n.is_tag_name(EId::Filter) && !n.has_children())
+                                  .filter(|n|    n.is_tag_name(EId::Filter)
+                                              && !n.has_children()
+                                              && !n.has_attribute(AId::XlinkHref))
                                   .collect();
 
     if !nodes.is_empty() {
@@ -211,9 +213,14 @@ fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     // so we can remove them as well.
     for n in &mut nodes {
         for mut link in n.linked_nodes().collect::<Vec<Node>>() {
-            link.remove();
+            if is_removable(&link) {
+                link.remove();
+            }
+        }
+
+        if !n.is_used() {
+            n.remove();
         }
-        n.remove();
     }
 }
 
-- 
2.43.0


From 554b22a63755f12747001c0cc8b8223c8f9d457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 28/68] fix: keep a default feColorMatrix with an other input
 or a subregion

---
 src/task/rm_invisible_elems.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 90e2108..c636189 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -241,8 +241,18 @@ fn process_fe_color_matrix(doc: &mut Document) {
             return false;
         }
 
+        // Children of this filter can be used by an other one.
+        if node.linked_nodes().any(|n| n.is_tag_name(EId::Filter)) {
+            return false;
+        }
+
         let attrs = child.attributes();
 
+        // An other input or a subregion changes the result.
+        if [AId::In, AId::X, AId::Y, AId::Width, AId::Height].iter().any(|a| attrs.contains(*a)) {
+            return false;
+        }
+
         // It's a very simple implementation since we do not parse matrix,
         // but it's enough to remove default feColorMatrix generated by Illustrator.
         if let Some(&AttributeValue::String(ref t)) = attrs.get_value(AId::Type) {
-- 
2.43.0


From 7013633e6e5ecd0c3a63726721d125524387709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 29/68] fix: keep stops and opacity of gradients with less than
 two stops

---
 src/task/rm_invisible_elems.rs | 76 ++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index c636189..82f0597 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -293,11 +293,16 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
 
         for n in iter {
             for mut link in n.linked_nodes().collect::<Vec<Node>>() {
-                while let Some(aid) = find_link_attribute(&link, &n) {
+                while let Some(aid) = find_paint_attribute(&link, &n) {
                     link.set_attribute((aid, ValueId::None));
+                    *is_any_removed = true;
                 }
             }
-            nodes.push(n.clone());
+
+            // A gradient can be referenced by an other gradient.
+            if !n.is_used() {
+                nodes.push(n.clone());
+            }
         }
     }
 
@@ -324,23 +329,30 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
                 _ => unreachable!("attribute must be resolved"),
             };
 
-            // Replace links with colors, but not in gradients,
-            // because it will lead to 'xlink:href=#ffffff', which is wrong.
-            for mut link in n.linked_nodes()
-                             .filter(|n| !n.is_gradient())
-                             .collect::<Vec<Node>>() {
-                while let Some(aid) = find_link_attribute(&link, &n) {
-                    link.set_attribute((aid, color));
+            // Replace links with colors, but only in 'fill' and 'stroke',
+            // because otherwise it will lead to 'xlink:href=#ffffff', which is wrong.
+            for mut link in n.linked_nodes().collect::<Vec<Node>>() {
+                while let Some(aid) = find_paint_attribute(&link, &n) {
                     if opacity.fuzzy_ne(&1.0) {
-                        match aid {
-                            AId::Fill => link.set_attribute((AId::FillOpacity, opacity)),
-                            AId::Stroke => link.set_attribute((AId::StrokeOpacity, opacity)),
-                            _ => {}
+                        let opacity_aid = match aid {
+                            AId::Fill => AId::FillOpacity,
+                            _ => AId::StrokeOpacity,
+                        };
+
+                        match resolve_opacity(&link, opacity_aid) {
+                            Some(v) => link.set_attribute((opacity_aid, v * opacity)),
+                            None => break,
                         }
                     }
+
+                    link.set_attribute((aid, color));
+                    *is_any_removed = true;
                 }
             }
-            nodes.push(n.clone());
+
+            if !n.is_used() {
+                nodes.push(n.clone());
+            }
         }
     }
 
@@ -351,24 +363,42 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
     utils::remove_nodes(&mut nodes);
 }
 
-fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
+fn find_paint_attribute(node: &Node, link: &Node) -> Option<AId> {
     let attrs = node.attributes();
 
-    for (aid, attr) in attrs.iter_svg() {
-        match attr.value {
-              AttributeValue::Link(ref n)
-            | AttributeValue::FuncLink(ref n) => {
-                if *n == *link {
-                    return Some(aid);
-                }
+    for aid in &[AId::Fill, AId::Stroke] {
+        if let Some(&AttributeValue::FuncLink(ref n)) = attrs.get_value(*aid) {
+            if *n == *link {
+                return Some(*aid);
             }
-            _ => {}
         }
     }
 
     None
 }
 
+// Returns an opacity value of the element, own or inherited.
+//
+// Returns None if the value can't be changed without affecting other elements
+// or when it can be inherited from an 'use' element.
+fn resolve_opacity(node: &Node, aid: AId) -> Option<f64> {
+    if node.has_children() {
+        return None;
+    }
+
+    for n in node.parents_with_self() {
+        if let Some(&AttributeValue::Number(v)) = n.attributes().get_value(aid) {
+            return Some(v);
+        }
+
+        if n.is_used() {
+            return None;
+        }
+    }
+
+    Some(1.0)
+}
+
 // Remove rects with a zero size.
 fn process_rect(doc: &mut Document, is_any_removed: &mut bool) {
     fn is_invisible(node: &Node) -> bool {
-- 
2.43.0


From 2a625e59ea142c2e3c2f5294962efd15472da575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 30/68] fix: keep default values of elements linked by use

---
 src/task/rm_default_attrs.rs | 8 ++++++++
 src/task/utils.rs            | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 1eff726..d0a52f9 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -26,6 +26,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId, Unit};
+use task::utils;
 
 // TODO: xml:space
 
@@ -38,6 +39,13 @@ pub fn remove_default_attributes(doc: &Document) {
         for (aid, attr) in node.attributes().iter_svg() {
             if attr.is_presentation() {
                 if attr.check_is_default() {
+                    // An element linked by 'use' will inherit attributes from it too.
+                    // Note that 'is_inheritable' doesn't include 'visibility'.
+                    if    (attr.is_inheritable() || aid == AId::Visibility)
+                       && utils::is_used_by_use(&node) {
+                        continue;
+                    }
+
                     if let Some(n) = node.parents().find(|n| n.has_attribute(aid)) {
                         if let Some(a) = n.attributes().get(aid) {
                             if !a.visible {
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 26deec5..64aeeb1 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -18,11 +18,12 @@
 
 use svgdom::{
     AttributeValue,
+    ElementType,
     FuzzyEq,
     Node,
 };
 
-use task::short::AId;
+use task::short::{EId, AId};
 
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
@@ -79,6 +80,12 @@ fn recalc_stroke_dasharray(node: &mut Node, scale_factor: f64) {
     }
 }
 
+/// Checks that the node or one of its parents is linked by an 'use' element,
+/// so attributes can be inherited not only from the node parents.
+pub fn is_used_by_use(node: &Node) -> bool {
+    node.parents_with_self().any(|n| n.linked_nodes().any(|link| link.is_tag_name(EId::Use)))
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From d72fc08e390342d56274214210c75d4473d66303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 31/68] fix: keep default values of patterns and filters with a
 link

---
 src/task/rm_default_attrs.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index d0a52f9..b4ff2bb 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -21,7 +21,9 @@ use svgdom::{
     AttributeType,
     AttributeValue,
     Document,
+    ElementType,
     Length,
+    Node,
     ValueId,
 };
 
@@ -78,7 +80,7 @@ pub fn remove_default_attributes(doc: &Document) {
                         }
                     }
                 }
-            } else if is_default(attr, tag_name) {
+            } else if is_default(attr, tag_name) && !is_linked_attr(&node, aid) {
                 // Check default values of an non-presentation attributes.
                 rm_list.push(aid);
             }
@@ -96,6 +98,23 @@ pub fn remove_default_attributes(doc: &Document) {
     }
 }
 
+// Checks that a missing attribute will be resolved from a linked element.
+fn is_linked_attr(node: &Node, aid: AId) -> bool {
+    let is_linkable = match aid {
+          AId::X
+        | AId::Y
+        | AId::Width
+        | AId::Height
+        | AId::PatternUnits
+        | AId::PatternContentUnits
+        | AId::FilterUnits
+        | AId::PrimitiveUnits => node.is_tag_name(EId::Pattern) || node.is_tag_name(EId::Filter),
+        _ => false,
+    };
+
+    is_linkable && node.has_attribute(AId::XlinkHref)
+}
+
 fn is_default(attr: &Attribute, tag_name: EId) -> bool {
     // Process only popular and simple attributes.
 
-- 
2.43.0


From 1667afd010f38de065bcb90bf339d8d5de6601b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 32/68] fix: keep a zero position of filter primitives

---
 src/task/rm_default_attrs.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index b4ff2bb..1cbd3b4 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -115,6 +115,28 @@ fn is_linked_attr(node: &Node, aid: AId) -> bool {
     is_linkable && node.has_attribute(AId::XlinkHref)
 }
 
+fn is_filter_primitive(tag_name: EId) -> bool {
+    match tag_name {
+          EId::FeBlend
+        | EId::FeColorMatrix
+        | EId::FeComponentTransfer
+        | EId::FeComposite
+        | EId::FeConvolveMatrix
+        | EId::FeDiffuseLighting
+        | EId::FeDisplacementMap
+        | EId::FeFlood
+        | EId::FeGaussianBlur
+        | EId::FeImage
+        | EId::FeMerge
+        | EId::FeMorphology
+        | EId::FeOffset
+        | EId::FeSpecularLighting
+        | EId::FeTile
+        | EId::FeTurbulence => true,
+        _ => false,
+    }
+}
+
 fn is_default(attr: &Attribute, tag_name: EId) -> bool {
     // Process only popular and simple attributes.
 
@@ -136,6 +158,11 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
                 return false;
             }
 
+            // Filter primitive is positioned relative to the filter region by default.
+            if is_filter_primitive(tag_name) {
+                return false;
+            }
+
             if tag_name == EId::Mask || tag_name == EId::Filter {
                 if attr.value == AttributeValue::from((-10.0, Unit::Percent)) {
                     return true;
-- 
2.43.0


From 7ff16702f979eeb399b709aab50548358cc11b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 33/68] fix: keep attributes inherited by used children of a
 clip path child

---
 src/task/rm_needless_attrs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 184ce33..184eeea 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -60,7 +60,7 @@ pub fn remove_needless_attributes(doc: &Document) {
 
 fn process_clip_path(node: &Node) {
     for mut child in node.children() {
-        if child.is_used() {
+        if child.descendants().any(|n| n.is_used()) {
             continue;
         }
 
-- 
2.43.0


From 792da1f8d5f54e72e54107b2203870e8c7f6d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 34/68] fix: keep fill and stroke attributes of use

---
 src/task/rm_needless_attrs.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 184eeea..ede7ed3 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -52,8 +52,12 @@ pub fn remove_needless_attributes(doc: &Document) {
             node.remove_attribute(AId::EnableBackground);
         }
 
-        process_fill(&mut node);
-        process_stroke(&mut node);
+        // 'use' attributes will be inherited by a linked element.
+        if id != EId::Use {
+            process_fill(&mut node);
+            process_stroke(&mut node);
+        }
+
         process_overflow(&mut node);
     }
 }
-- 
2.43.0


From 4021db3af92976c3c66a0693c125126327180b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 35/68] fix: keep a disabled stroke of elements linked by use

---
 src/task/rm_needless_attrs.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index ede7ed3..5843723 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -27,6 +27,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 // TODO: split to suboptions
 
@@ -227,6 +228,11 @@ fn process_stroke(node: &mut Node) {
                     node.set_attribute((AId::Stroke, ValueId::None));
                 }
             }
+
+            // An element linked by 'use' will inherit its stroke too.
+            if utils::is_used_by_use(node) {
+                node.set_attribute((AId::Stroke, ValueId::None));
+            }
         } else {
             let av = node.attributes().get_value(AId::Stroke).cloned();
             if let Some(av) = av {
@@ -237,7 +243,8 @@ fn process_stroke(node: &mut Node) {
 
                     // If the parent element doesn't define 'stroke' - we can remove it
                     // from the current element.
-                    if node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none() {
+                    if    node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none()
+                       && !utils::is_used_by_use(node) {
                         node.remove_attribute(AId::Stroke);
                     }
                 }
-- 
2.43.0


From 082bb5a3da93d6b732539b93e86264e7a9c4f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 36/68] fix: keep a stroke width of elements with markers

---
 src/task/rm_needless_attrs.rs | 37 ++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 5843723..ad56b35 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -186,13 +186,35 @@ static STROKE_ATTRIBUTES: &'static [AId] = &[
     AId::StrokeOpacity,
 ];
 
+// Checks that the element has a marker, own or inherited.
+fn may_have_marker(node: &Node) -> bool {
+    fn has_marker(node: &Node) -> bool {
+        [AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd].iter().any(|aid| {
+            match node.attributes().get_value(*aid) {
+                Some(&AttributeValue::PredefValue(ValueId::None)) | None => false,
+                Some(_) => true,
+            }
+        })
+    }
+
+    match node.tag_id() {
+          Some(EId::Path)
+        | Some(EId::Line)
+        | Some(EId::Polyline)
+        | Some(EId::Polygon) => {}
+        _ => return false,
+    }
+
+    if node.parents_with_self().any(|n| has_marker(&n)) {
+        return true;
+    }
+
+    // An element linked by 'use' can inherit a marker from any place.
+    utils::is_used_by_use(node) && node.document().descendants().any(|n| has_marker(&n))
+}
+
 fn process_stroke(node: &mut Node) {
     fn is_invisible(node: &Node) -> bool {
-        // Skip nodes with marker, because it doesn't count opacity and stroke-width.
-        if node.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd]) {
-            return false;
-        }
-
         // The stroke will not be drawn if stoke-width is 0.
         if let Some(v) = node.attributes().get_value(AId::StrokeWidth) {
             if let AttributeValue::Length(l) = *v {
@@ -214,6 +236,11 @@ fn process_stroke(node: &mut Node) {
         false
     }
 
+    // Skip nodes with marker, because it depends on stroke-width even without a stroke.
+    if may_have_marker(node) {
+        return;
+    }
+
     if !node.has_children() {
         if is_invisible(node) {
             // Remove all stroke-based attributes if stroke is invisible.
-- 
2.43.0


From 2ea56b6af496193a7637b2e2326fe562a29977f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 37/68] fix: keep ry in percent

---
 src/task/rm_unused_coords.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_unused_coords.rs b/src/task/rm_unused_coords.rs
index 18d063a..1aca25e 100644
--- a/src/task/rm_unused_coords.rs
+++ b/src/task/rm_unused_coords.rs
@@ -21,7 +21,7 @@ use svgdom::{
     Document,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
 
 pub fn remove_unused_coordinates(doc: &Document) {
     let mut rm_list = Vec::with_capacity(16);
@@ -48,7 +48,14 @@ pub fn remove_unused_coordinates(doc: &Document) {
                     // If 'rx' equals to 'ry', than we can remove 'ry'.
                     // https://www.w3.org/TR/SVG/shapes.html#RectElementRYAttribute
                     if attrs.contains(AId::Rx) {
-                        if attrs.get_value(AId::Rx) == attrs.get_value(AId::Ry) {
+                        // 'rx' and 'ry' in percent depends on different viewport sides.
+                        let is_percent = match attrs.get_value(AId::Rx) {
+                            Some(&AttributeValue::Length(l)) => l.unit == Unit::Percent,
+                            _ => false,
+                        };
+
+                        if    !is_percent
+                           && attrs.get_value(AId::Rx) == attrs.get_value(AId::Ry) {
                             rm_list.push(AId::Ry);
                         }
                     }
-- 
2.43.0


From 1ff61c56f30bdaed37895908c9ea3a0c620fb482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 38/68] fix: keep text attributes inherited by a linked text

---
 src/task/rm_text_attrs.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 9a439f9..699a093 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -109,11 +109,10 @@ fn _remove_text_attributes(parent: &Node) -> bool {
             // Only this parameters affect parent elements.
             let _no_td = !(   node.descendants().any(|n| n.node_type() == NodeType::Text)
                            || node.is_tag_name(EId::Tref)
+                           || is_linked_text(&node)
                            || has_em_ex_attributes(&node));
 
-            if    _no_td
-               && !node.is_tag_name(EId::FontFace)
-               && !is_linked_text(&node) {
+            if _no_td && !node.is_tag_name(EId::FontFace) {
                 node.remove_attributes(TEXT_ATTRIBUTES);
             }
 
-- 
2.43.0


From f3344e74d48242c5cf2e601c63c105842af60f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 39/68] fix: keep text attributes of elements that depends on a
 font size

---
 src/task/rm_text_attrs.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 699a093..17a304c 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -95,7 +95,7 @@ fn _remove_text_attributes(parent: &Node) -> bool {
 
         if node.has_children() {
             // Go deeper.
-            let can_rm = _remove_text_attributes(&node);
+            let can_rm = _remove_text_attributes(&node) && !has_em_ex_attributes(&node);
             if can_rm {
                 if !node.is_tag_name(EId::FontFace) {
                     node.remove_attributes(TEXT_ATTRIBUTES);
@@ -133,17 +133,28 @@ fn has_em_ex_attributes(node: &Node) -> bool {
 
     let attrs = node.attributes();
     for attr in attrs.iter() {
-        if let AttributeValue::Length(ref len) = attr.value {
-            match len.unit {
-                Unit::Ex | Unit::Em => return true,
-                _ => {}
+        match attr.value {
+            AttributeValue::Length(ref len) => {
+                if is_em_ex(len.unit) {
+                    return true;
+                }
+            }
+            AttributeValue::LengthList(ref list) => {
+                if list.iter().any(|len| is_em_ex(len.unit)) {
+                    return true;
+                }
             }
+            _ => {}
         }
     }
 
     false
 }
 
+fn is_em_ex(unit: Unit) -> bool {
+    unit == Unit::Em || unit == Unit::Ex
+}
+
 fn is_linked_text(node: &Node) -> bool {
     if node.is_tag_name(EId::Use) {
         // We use 'attributes()' method instead of 'attribute()',
@@ -151,7 +162,11 @@ fn is_linked_text(node: &Node) -> bool {
         let attrs = node.attributes();
         if let Some(value) = attrs.get_value(AId::XlinkHref) {
             if let AttributeValue::Link(ref link) = *value {
-                return link.descendants().any(|n| n.node_type() == NodeType::Text);
+                return link.descendants().any(|n| {
+                       n.node_type() == NodeType::Text
+                    || n.is_tag_name(EId::Use)
+                    || has_em_ex_attributes(&n)
+                });
             }
         }
     }
-- 
2.43.0


From a665bc5e85e3285de29c3325465f121b6751fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 40/68] fix: do not require an offset of gradient children that
 are not stops

---
 src/task/fix_attrs.rs         | 2 +-
 src/task/resolve_gradients.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task/fix_attrs.rs b/src/task/fix_attrs.rs
index 2c16763..49ffd88 100644
--- a/src/task/fix_attrs.rs
+++ b/src/task/fix_attrs.rs
@@ -211,7 +211,7 @@ pub fn fix_stop_attributes(node: &Node) {
 
     let mut prev_offset = 0.0;
 
-    for mut child in node.children() {
+    for mut child in node.children().filter(|n| n.is_tag_name(EId::Stop)) {
         let av = child.attributes().get_value(AId::Offset).cloned();
 
         let mut offset = match av {
diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index e0bc491..a6ee862 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -114,7 +114,8 @@ pub fn resolve_radial_gradient_attributes(doc: &Document) {
 /// which is not a first child of a gradient, didn't have an `offset` attribute.
 pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
     for gradient in doc.descendants().filter(|n| n.is_gradient()) {
-        for (idx, mut node) in gradient.children().enumerate() {
+        let stops = gradient.children().filter(|n| n.is_tag_name(EId::Stop));
+        for (idx, mut node) in stops.enumerate() {
             let av = node.attributes().get_value(AId::Offset).cloned();
             if let Some(AttributeValue::Length(l)) = av {
                 if l.unit == LengthUnit::Percent {
-- 
2.43.0


From f110b0cfce0f12e73867d5283fae27e25207d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 41/68] fix: resolve inherit and currentColor of elements
 linked by use

---
 src/task/resolve_inherit.rs | 102 +++++++++++++++++++++++++++++++++++-
 1 file changed, 101 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index 2ceb697..4154a8a 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -26,6 +26,9 @@ use svgdom::{
     ValueId,
 };
 
+use task::short::EId;
+use task::utils;
+
 use error::{
     ErrorKind,
     Result,
@@ -58,11 +61,26 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
             }
         }
 
+        // Elements linked by 'use' inherits attributes from an 'use' element, not from a parent.
+        let is_used = utils::is_used_by_use(&node);
+
         for id in &vec_inherit {
-            resolve_impl(&mut node, *id, *id)?;
+            if is_used && is_inheritable(*id) {
+                // Will be inherited anyway.
+                node.remove_attribute(*id);
+            } else if is_used && node.linked_nodes().any(|n| n.is_tag_name(EId::Use)) {
+                resolve_used_impl(&mut node, *id)?;
+            } else {
+                resolve_impl(&mut node, *id, *id)?;
+            }
         }
 
         for id in &vec_curr_color {
+            if is_used {
+                resolve_used_color(&mut node, *id)?;
+                continue;
+            }
+
             let av = node.attributes().get_value(AttributeId::Color).cloned();
             if let Some(av) = av {
                 node.set_attribute((*id, av.clone()));
@@ -100,6 +118,88 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
     }
 }
 
+// Resolves a non-inheritable attribute of an element linked by 'use'.
+//
+// All 'use' elements and the parent should provide the same value.
+fn resolve_used_impl(node: &mut Node, aid: AttributeId) -> Result<()> {
+    let mut values = Vec::new();
+    for n in node.linked_nodes().filter(|n| n.is_tag_name(EId::Use)) {
+        values.push(n.attributes().get_value(aid).cloned());
+    }
+
+    // Elements inside 'defs' are not rendered by themselves.
+    if let Some(parent) = node.parent() {
+        if !parent.is_tag_name(EId::Defs) {
+            values.push(parent.attributes().get_value(aid).cloned());
+        }
+    }
+
+    let is_resolved = values.iter().all(|v| {
+        *v == values[0] && *v != Some(AttributeValue::PredefValue(ValueId::Inherit))
+    });
+
+    if !is_resolved {
+        return Err(ErrorKind::UnresolvedAttribute(aid.to_string()).into());
+    }
+
+    match values[0].clone() {
+        Some(av) => node.set_attribute((aid, av)),
+        None => node.remove_attribute(aid),
+    }
+
+    Ok(())
+}
+
+// Resolves 'currentColor' of an element linked, directly or with it's parents, by 'use'.
+//
+// The color should be the same for all instances of the element.
+fn resolve_used_color(node: &mut Node, aid: AttributeId) -> Result<()> {
+    let mut colors = Vec::new();
+    collect_colors(node, &mut colors, &mut Vec::new());
+
+    // There are no colors when 'use' is linked only to it's own parent.
+    match colors.first().cloned() {
+        Some(Some(ref av)) if colors.iter().all(|c| *c == colors[0]) => {
+            node.set_attribute((aid, av.clone()));
+            Ok(())
+        }
+        _ => Err(ErrorKind::UnresolvedAttribute(aid.to_string()).into()),
+    }
+}
+
+fn collect_colors(node: &Node, colors: &mut Vec<Option<AttributeValue>>, visited: &mut Vec<Node>) {
+    let mut is_linked = false;
+
+    for n in node.parents_with_self() {
+        // Elements inside 'defs' and 'symbol' are not rendered by themselves.
+        if is_linked && n.is_tag_name(EId::Defs) {
+            return;
+        }
+
+        match n.attributes().get_value(AttributeId::Color) {
+            Some(&AttributeValue::PredefValue(_)) | None => {}
+            Some(av) => {
+                colors.push(Some(av.clone()));
+                return;
+            }
+        }
+
+        for link in n.linked_nodes().filter(|n| n.is_tag_name(EId::Use)) {
+            is_linked = true;
+            if !visited.contains(&link) {
+                visited.push(link.clone());
+                collect_colors(&link, colors, visited);
+            }
+        }
+
+        if is_linked && n.is_tag_name(EId::Symbol) {
+            return;
+        }
+    }
+
+    colors.push(None);
+}
+
 fn is_inheritable(aid: AttributeId) -> bool {
     aid == AttributeId::Visibility || Attribute::new(aid, ValueId::Inherit).is_inheritable()
 }
-- 
2.43.0


From 08381c1305943277a5ab0acf47adcce930da8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 42/68] fix: process only stops of gradients that have other
 children

---
 src/task/merge_gradients.rs        |  2 +-
 src/task/regroup_gradient_stops.rs | 11 ++++-------
 src/task/rm_dupl_defs/mod.rs       | 21 ++++++++-------------
 src/task/rm_invalid_stops.rs       | 11 +++++++----
 src/task/rm_invisible_elems.rs     |  6 +++---
 src/task/utils.rs                  |  7 +++++++
 6 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index b0d46af..61aa01f 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -81,7 +81,7 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
             continue;
         }
 
-        if !node.has_children() {
+        if utils::stops(&node).is_empty() {
             // Append 'stop' elements only when we don't have any before.
             while let Some(mut child) = linked_node.first_child() {
                 child.detach();
diff --git a/src/task/regroup_gradient_stops.rs b/src/task/regroup_gradient_stops.rs
index b74a65f..87c3cf2 100644
--- a/src/task/regroup_gradient_stops.rs
+++ b/src/task/regroup_gradient_stops.rs
@@ -23,11 +23,12 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 pub fn regroup_gradient_stops(doc: &mut Document) {
     let mut nodes: Vec<Node> = doc.descendants()
         .filter(|n| n.is_gradient())
-        .filter(|n| n.has_children())
+        .filter(|n| !utils::stops(n).is_empty())
         .filter(|n| !n.has_attribute(AId::XlinkHref))
         .collect();
 
@@ -59,8 +60,7 @@ pub fn regroup_gradient_stops(doc: &mut Document) {
             let new_id = gen_id(doc, "lg");
             new_lg.set_id(new_id);
 
-            while node1.has_children() {
-                let mut c = node1.first_child().unwrap();
+            for mut c in utils::stops(&node1) {
                 c.detach();
                 new_lg.append(&c);
             }
@@ -69,10 +69,7 @@ pub fn regroup_gradient_stops(doc: &mut Document) {
             node1.insert_before(&new_lg);
 
             for jn in &mut join_nodes {
-                while jn.has_children() {
-                    let mut c = jn.first_child().unwrap();
-                    c.remove();
-                }
+                utils::remove_nodes(&mut utils::stops(jn));
                 jn.set_attribute((AId::XlinkHref, new_lg.clone()));
             }
 
diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index bf65dae..f178aea 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -23,6 +23,7 @@ use svgdom::{
 };
 
 use task::short::AId;
+use task::utils;
 
 pub use self::linear_gradient::remove_dupl_linear_gradients;
 pub use self::radial_gradient::remove_dupl_radial_gradients;
@@ -115,7 +116,7 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     check_attr!(&attrs1, &attrs2, AId::GradientTransform, Transform::default());
 
     // A gradient without own `stop` elements takes them from the referenced gradient.
-    if !node1.has_children() && stops_source(node1) != stops_source(node2) {
+    if utils::stops(node1).is_empty() && stops_source(node1) != stops_source(node2) {
         return false;
     }
 
@@ -165,11 +166,11 @@ fn show_inherited_attrs(node: &mut Node, linked: &Node) {
     }
 }
 
-// Returns the nearest gradient with children.
+// Returns the nearest gradient with `stop` elements.
 fn stops_source(node: &Node) -> Option<Node> {
     let mut curr = Some(node.clone());
     while let Some(n) = curr {
-        if n.has_children() {
+        if !utils::stops(&n).is_empty() {
             return Some(n);
         }
 
@@ -180,20 +181,14 @@ fn stops_source(node: &Node) -> Option<Node> {
 }
 
 pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
-    let children_count1 = node1.children().count();
+    let stops1 = utils::stops(node1);
+    let stops2 = utils::stops(node2);
 
-    if children_count1 != node2.children().count() {
+    if stops1.len() != stops2.len() {
         return false;
     }
 
-    if children_count1 == 0 {
-        return true;
-    }
-
-    let iter1 = node1.children();
-    let iter2 = node2.children();
-
-    for (mut c1, mut c2) in iter1.zip(iter2) {
+    for (mut c1, mut c2) in stops1.into_iter().zip(stops2) {
         let attrs1 = c1.attributes_mut();
         let attrs2 = c2.attributes_mut();
 
diff --git a/src/task/rm_invalid_stops.rs b/src/task/rm_invalid_stops.rs
index 0f3df17..70122ce 100644
--- a/src/task/rm_invalid_stops.rs
+++ b/src/task/rm_invalid_stops.rs
@@ -28,12 +28,15 @@ pub fn remove_invalid_stops(doc: &Document) {
     let mut nodes = Vec::new();
 
     let iter = doc.descendants()
-                  .filter(|n| n.is_gradient())
-                  .filter(|n| n.has_children());
+                  .filter(|n| n.is_gradient());
     for node in iter {
-        let mut prev_child = node.first_child().unwrap();
+        let stops = utils::stops(&node);
+        let mut prev_child = match stops.first() {
+            Some(stop) => stop.clone(),
+            None => continue,
+        };
 
-        for child in node.children().skip(1) {
+        for child in stops.iter().skip(1) {
             {
                 let attrs1 = prev_child.attributes();
                 let attrs2 = child.attributes();
diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 82f0597..8a32ea3 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -289,7 +289,7 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         // Gradient without children and link to other gradient is pointless.
         let iter = doc.descendants()
                       .filter(|n| n.is_gradient())
-                      .filter(|n| !n.has_children() && !n.has_attribute(AId::XlinkHref));
+                      .filter(|n| utils::stops(n).is_empty() && !n.has_attribute(AId::XlinkHref));
 
         for n in iter {
             for mut link in n.linked_nodes().collect::<Vec<Node>>() {
@@ -314,10 +314,10 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         // defined for that gradient stop.'
         let iter = doc.descendants()
                       .filter(|n| n.is_gradient())
-                      .filter(|n| n.children().count() == 1 && !n.has_attribute(AId::XlinkHref));
+                      .filter(|n| utils::stops(n).len() == 1 && !n.has_attribute(AId::XlinkHref));
 
         for n in iter {
-            let stop = n.first_child().unwrap();
+            let stop = utils::stops(&n)[0].clone();
 
             let color = match stop.attributes().get_value(AId::StopColor) {
                 Some(&AttributeValue::Color(c)) => c,
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 64aeeb1..88a8249 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -86,6 +86,13 @@ pub fn is_used_by_use(node: &Node) -> bool {
     node.parents_with_self().any(|n| n.linked_nodes().any(|link| link.is_tag_name(EId::Use)))
 }
 
+/// Returns `stop` children of a gradient.
+///
+/// A gradient can also contain `title`, `desc`, animations and so on.
+pub fn stops(node: &Node) -> Vec<Node> {
+    node.children().filter(|n| n.is_tag_name(EId::Stop)).collect()
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From 2f3b2b389947cd2033b077744a324e03e47cb215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 43/68] fix: remove recursive links and links to other elements
 from gradients

---
 src/cleaner.rs        |  1 +
 src/task/fix_attrs.rs | 39 +++++++++++++++++++++++++++++++++++++++
 src/task/mod.rs       |  2 +-
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index 0eec548..a0c9716 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -73,6 +73,7 @@ pub fn clean_doc(
 
     // Prepare our document.
     // This methods is not optional.
+    fix_gradient_links(doc);
     resolve_linear_gradient_attributes(doc);
     resolve_radial_gradient_attributes(doc);
     resolve_stop_attributes(doc)?;
diff --git a/src/task/fix_attrs.rs b/src/task/fix_attrs.rs
index 49ffd88..0bf6088 100644
--- a/src/task/fix_attrs.rs
+++ b/src/task/fix_attrs.rs
@@ -39,6 +39,45 @@ pub fn fix_invalid_attributes(doc: &Document) {
     fix_marker(doc);
 }
 
+/// Fix `xlink:href` of gradients.
+///
+/// A link to an element that is not a gradient and a recursive link will be removed.
+///
+/// Details: https://www.w3.org/TR/SVG/pservers.html#LinearGradientElementHrefAttribute
+pub fn fix_gradient_links(doc: &Document) {
+    for mut node in doc.descendants().filter(|n| n.is_gradient()) {
+        if node.has_attribute(AId::XlinkHref) && !is_valid_gradient_link(&node) {
+            node.remove_attribute(AId::XlinkHref);
+        }
+    }
+}
+
+fn is_valid_gradient_link(node: &Node) -> bool {
+    let mut chain = vec![node.clone()];
+    loop {
+        let link = match chain[chain.len() - 1].attributes().get_value(AId::XlinkHref) {
+            Some(&AttributeValue::Link(ref link)) => link.clone(),
+            // Only the link of the node itself is checked here.
+            value => return value.is_none() || chain.len() > 1,
+        };
+
+        if !link.is_gradient() {
+            return chain.len() > 1;
+        }
+
+        if link == *node {
+            return false;
+        }
+
+        if chain.contains(&link) {
+            // The loop is not ours.
+            return true;
+        }
+
+        chain.push(link);
+    }
+}
+
 /// Fix `rect` element attributes.
 ///
 /// - A negative `width` will be replaced with `0`
diff --git a/src/task/mod.rs b/src/task/mod.rs
index 9483ebd..66b12c3 100644
--- a/src/task/mod.rs
+++ b/src/task/mod.rs
@@ -18,7 +18,7 @@
 
 pub use self::conv_shapes::convert_shapes_to_paths;
 pub use self::final_fixes::*;
-pub use self::fix_attrs::fix_invalid_attributes;
+pub use self::fix_attrs::{fix_gradient_links, fix_invalid_attributes};
 pub use self::group_by_style::group_by_style;
 pub use self::group_defs::group_defs;
 pub use self::join_style_attrs::join_style_attributes;
-- 
2.43.0


From afcfd8ae1451763c9dfb60ebb6e4fa26a0409bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 44/68] fix: do not set attributes of text nodes during
 ungrouping

---
 src/task/ungroup_groups.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 99a2f37..446a7e0 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -140,7 +140,8 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
-        for mut child in g.children() {
+        // Text nodes have no attributes.
+        for mut child in g.children().filter(|n| n.is_svg_element()) {
             if aid == AId::Opacity {
                 if child.has_attribute(aid) {
                     // We can't just replace 'opacity' attribute,
-- 
2.43.0


From aa20ce216c8d2e9393617e8d417da65079c48ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 45/68] fix: unlink elements properly when joining style
 attributes

---
 src/task/join_style_attrs.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 1d2cbd6..f479ab2 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -42,10 +42,9 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         // 5 - is an amount of attributes when style notation is becoming more efficient than
         // split attributes.
         if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
-            let mut attrs = node.attributes_mut();
             let mut ids = Vec::new();
             let mut style = Vec::new();
-            for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_presentation()) {
+            for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| a.is_presentation()) {
                 if !attr.visible {
                     continue;
                 }
@@ -61,12 +60,11 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 
             // Unwrap can't fail.
             let style_str = String::from_utf8(style).unwrap();
-            attrs.insert_from(AId::Style, style_str);
+            node.set_attribute((AId::Style, style_str));
 
+            // Linked elements should know that they are not linked anymore.
             for id in ids {
-                // Use "private" method, because we breaking linking on purpose.
-                // Default 'remove()' will panic here.
-                attrs.remove_impl(id);
+                node.remove_attribute(id);
             }
         }
     }
-- 
2.43.0


From f4c3952f8c7cee7432edebc51dc8826331a1e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 46/68] fix: process stops with a removed inherit value

---
 src/task/rm_invisible_elems.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 8a32ea3..534945d 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -18,6 +18,7 @@
 
 use svgdom::{
     AttributeValue,
+    Color,
     Document,
     ElementType,
     FuzzyEq,
@@ -321,12 +322,14 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
 
             let color = match stop.attributes().get_value(AId::StopColor) {
                 Some(&AttributeValue::Color(c)) => c,
-                _ => unreachable!("attribute must be resolved"),
+                None => Color::new(0, 0, 0),
+                _ => continue,
             };
 
             let opacity = match stop.attributes().get_value(AId::StopOpacity) {
                 Some(&AttributeValue::Number(n)) => n,
-                _ => unreachable!("attribute must be resolved"),
+                None => 1.0,
+                _ => continue,
             };
 
             // Replace links with colors, but only in 'fill' and 'stroke',
-- 
2.43.0


From efe484b2fceaf7f7b0fa4228e02203bdc67f5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 47/68] fix: process stops with an invalid unit of an offset

---
 src/task/resolve_gradients.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index a6ee862..a56eb3d 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -116,13 +116,15 @@ pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
     for gradient in doc.descendants().filter(|n| n.is_gradient()) {
         let stops = gradient.children().filter(|n| n.is_tag_name(EId::Stop));
         for (idx, mut node) in stops.enumerate() {
-            let av = node.attributes().get_value(AId::Offset).cloned();
-            if let Some(AttributeValue::Length(l)) = av {
-                if l.unit == LengthUnit::Percent {
-                    // convert percent into a number
-                    let new_l = Length::new_number(l.num / 100.0);
-                    node.set_attribute((AId::Offset, new_l));
-                }
+            // An offset with other units is invalid.
+            let offset = match node.attributes().get_value(AId::Offset) {
+                Some(&AttributeValue::Length(l)) if l.unit == LengthUnit::Percent => Some(l.num / 100.0),
+                Some(&AttributeValue::Length(l)) if l.unit == LengthUnit::None => Some(l.num),
+                _ => None,
+            };
+
+            if let Some(num) = offset {
+                node.set_attribute((AId::Offset, Length::new_number(num)));
             } else {
                 if idx == 0 {
                     // Allow first stop to not have an offset.
-- 
2.43.0


From bcf2d1a850a99bfa36d3f67314daa3822720792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 48/68] fix: keep xmlns:xlink only when an xlink attribute
 exists, of any name

---
 src/task/final_fixes.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/task/final_fixes.rs b/src/task/final_fixes.rs
index f024c04..b26b0e8 100644
--- a/src/task/final_fixes.rs
+++ b/src/task/final_fixes.rs
@@ -16,7 +16,10 @@
 // with this program; if not, write to the Free Software Foundation, Inc.,
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
-use svgdom::Document;
+use svgdom::{
+    Document,
+    Name,
+};
 
 use task::short::{EId, AId};
 
@@ -40,18 +43,13 @@ pub fn fix_xmlns_attribute(doc: &Document, rm_unused: bool) {
     // doc must contain 'svg' node, so we can safely unwrap.
     let mut svg = doc.svg_element().unwrap();
 
-    let mut has_links = false;
-    for (_, node) in doc.descendants().svg() {
-        if node.is_used() {
-            has_links = true;
-            break;
-        }
-
-        if node.has_attribute(AId::XlinkHref) {
-            has_links = true;
-            break;
-        }
-    }
+    // Any attribute from the 'xlink' namespace needs it, even on a non-SVG element.
+    let has_links = doc.descendants().any(|node| {
+        node.attributes().iter().any(|attr| match attr.name {
+            Name::Id(id) => id.name().starts_with("xlink:"),
+            Name::Name(ref name) => name.starts_with("xlink:"),
+        })
+    });
 
     let has_xlink = svg.has_attribute(AId::XmlnsXlink);
 
-- 
2.43.0


From 2a02e7adc007183c7788c1ec06d6cc6939a5c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 49/68] fix: no empty style attribute on elements without
 presentation attributes

---
 src/task/join_style_attrs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index f479ab2..8403223 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -41,7 +41,7 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 
         // 5 - is an amount of attributes when style notation is becoming more efficient than
         // split attributes.
-        if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
+        if (mode == StyleJoinMode::Some && count > 5) || (mode == StyleJoinMode::All && count > 0) {
             let mut ids = Vec::new();
             let mut style = Vec::new();
             for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| a.is_presentation()) {
-- 
2.43.0


From 34dcc15352a3eb69b5d9cf387acf525235c735a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 50/68] fix: check dependent flags by their effective values
 with --no-defaults

---
 src/cli.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index a0d445f..b96e756 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -351,7 +351,11 @@ fn get_flag(args: &ArgMatches, key: Key) -> bool {
 pub fn check_values(args: &ArgMatches) -> bool {
 
     fn check_value(args: &ArgMatches, flag: Key, dep: Key) -> bool {
-        if !get_flag(args, flag) && get_flag(args, dep) {
+        // The default of a flag doesn't matter when '--no-defaults' is set.
+        let flags = Flags::new(args);
+        let get = |key| flags._resolve(key).unwrap_or(false);
+
+        if !get(flag) && get(dep) {
             writeln!(stderr(), "Error: You can use '--{}=true' only with '--{}=true'.",
                      KEYS[dep], KEYS[flag]).unwrap();
             return false;
-- 
2.43.0


From 20fc1e199baa915854d4970b3136c359123e04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 51/68] fix: --no-defaults resets remove-unresolved-classes
 like every other flag

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index b96e756..f9da9a7 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -435,7 +435,7 @@ pub fn gen_parse_options(args: &ArgMatches) -> ParseOptions {
         parse_unknown_elements: true,
         parse_unknown_attributes: true,
         parse_px_unit: false,
-        skip_unresolved_classes: true,
+        skip_unresolved_classes: false,
         skip_invalid_attributes: false,
         skip_invalid_css: false,
         skip_paint_fallback: false,
-- 
2.43.0


From 4c62b3a85d57e76f054bb2ae182181bd614d4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 52/68] fix: keep values that a style attribute can not hold as
 attributes

---
 src/task/join_style_attrs.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 8403223..1906fbb 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -17,7 +17,9 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeType,
+    AttributeValue,
     Document,
     WriteBuffer,
     WriteOptions,
@@ -36,7 +38,7 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
     for (_, mut node) in doc.descendants().svg() {
         let count = {
             let attrs = node.attributes();
-            attrs.iter().filter(|a| a.is_presentation() && a.visible).count()
+            attrs.iter().filter(|a| can_be_joined(a)).count()
         };
 
         // 5 - is an amount of attributes when style notation is becoming more efficient than
@@ -44,11 +46,7 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         if (mode == StyleJoinMode::Some && count > 5) || (mode == StyleJoinMode::All && count > 0) {
             let mut ids = Vec::new();
             let mut style = Vec::new();
-            for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| a.is_presentation()) {
-                if !attr.visible {
-                    continue;
-                }
-
+            for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| can_be_joined(a)) {
                 style.extend_from_slice(aid.name().as_bytes());
                 style.push(b':');
                 attr.value.write_buf_opt(opt, &mut style);
@@ -70,6 +68,21 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
     }
 }
 
+fn can_be_joined(attr: &Attribute) -> bool {
+    if !attr.is_presentation() || !attr.visible {
+        return false;
+    }
+
+    // Quotes, references and separators have an another meaning inside the 'style' attribute
+    // and we will not be able to parse it back. So such values should stay as is.
+    match attr.value {
+        AttributeValue::String(ref s) => {
+            !s.chars().any(|c| c == '\'' || c == '"' || c == '&' || c == ';')
+        }
+        _ => true,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 7e995f9ed115319336bdf2608de8066c77b36893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 53/68] fix: do not truncate the input when copy-on-error gets
 the same file twice

---
 src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8f0c098..f963d3d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -21,7 +21,6 @@ extern crate log;
 extern crate fern;
 
 use std::fmt;
-use std::fs;
 use std::str;
 use std::path::Path;
 use std::io::{
@@ -106,8 +105,11 @@ fn main() {
             let inf = in_file.unwrap();
             let outf = out_file.unwrap();
             // Copy a file only when paths are different.
+            //
+            // Different paths can lead to the same file, so we should write the loaded data,
+            // because the input file can be truncated.
             if inf != outf {
-                try_msg!(fs::copy(inf, outf));
+                try_msg!(cleaner::save_file(raw.as_bytes(), outf));
             }
         }
 
@@ -115,7 +117,7 @@ fn main() {
     };
 
     let input_size = raw.len();
-    let mut buf = raw.into_bytes();
+    let mut buf = raw.clone().into_bytes();
     let mut prev_size = 0;
 
     loop {
-- 
2.43.0


From 616c52439715418aa3188d557845ba4f0fbfe73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 54/68] fix: do not save a document that was not cleaned

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f963d3d..9fa4a8e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -141,7 +141,7 @@ fn main() {
             Err(e) => {
                 writeln!(stderr(), "{}.", e.full_chain()).unwrap();
                 on_err();
-                break;
+                return;
             }
         }
 
-- 
2.43.0


From 04cf270ba6c854db334005678e5ea2acf98686d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 55/68] fix: report an error when the output was not written to
 stdout

---
 src/cleaner.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index a0c9716..1705136 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -253,8 +253,10 @@ pub fn write_buffer(doc: &Document, opt: &WriteOptions, buf: &mut Vec<u8>) {
 }
 
 pub fn write_stdout(data: &[u8]) -> Result<(), io::Error> {
-    io::stdout().write_all(data)?;
-    Ok(())
+    let mut out = io::stdout();
+    out.write_all(data)?;
+    // The data is buffered, so an error can also occur here.
+    out.flush()
 }
 
 pub fn save_file(data: &[u8], path: &str) -> Result<(), io::Error> {
-- 
2.43.0


From a642b1ce549589eaf17261725bddbd8d319e89f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:36 +0000
Subject: [PATCH 56/68] fix: slope='1' is not a default value of a font-face

---
 src/task/rm_default_attrs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 1cbd3b4..1d6d161 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -252,8 +252,8 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
             // There are two different 'slope': one for 'font-face'
             // and one for 'feFunc*'.
             if let AttributeValue::String(ref s) = attr.value {
-                if tag_name == EId::FontFace && s == "0" {
-                    return true;
+                if tag_name == EId::FontFace {
+                    return s == "0";
                 } else if s == "1" {
                     return true;
                 }
-- 
2.43.0


From afe574affa6877d87ff84cf71dd8be2b78e4f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:36 +0000
Subject: [PATCH 57/68] fix: default values of font properties are not defaults
 of a font-face

---
 src/task/rm_default_attrs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 1d6d161..270180e 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -40,6 +40,11 @@ pub fn remove_default_attributes(doc: &Document) {
 
         for (aid, attr) in node.attributes().iter_svg() {
             if attr.is_presentation() {
+                // Font properties of a 'font-face' are descriptors with own default values.
+                if tag_name == EId::FontFace {
+                    continue;
+                }
+
                 if attr.check_is_default() {
                     // An element linked by 'use' will inherit attributes from it too.
                     // Note that 'is_inheritable' doesn't include 'visibility'.
-- 
2.43.0


From 60d848b53fba865187135d54d8551523eecd870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 58/68] fix: keep all path segments when a marker is inherited

---
 src/task/paths/mod.rs         |  3 +--
 src/task/rm_default_attrs.rs  |  1 -
 src/task/rm_needless_attrs.rs | 16 +---------------
 src/task/utils.rs             | 21 ++++++++++++++++++++-
 4 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index a2cfb73..54c0006 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -37,8 +37,7 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // it will break rendering.
         //
         // TODO: do not remove first segment if node has marker
-        let has_marker = node.has_attributes(&[AId::Marker, AId::MarkerStart,
-                                               AId::MarkerMid, AId::MarkerEnd]);
+        let has_marker = ::task::utils::may_have_marker(&node);
 
         let mut ts = None;
         if opt.apply_transform_to_paths {
diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 270180e..9ef8e55 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -21,7 +21,6 @@ use svgdom::{
     AttributeType,
     AttributeValue,
     Document,
-    ElementType,
     Length,
     Node,
     ValueId,
diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index ad56b35..237a3a5 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -188,15 +188,6 @@ static STROKE_ATTRIBUTES: &'static [AId] = &[
 
 // Checks that the element has a marker, own or inherited.
 fn may_have_marker(node: &Node) -> bool {
-    fn has_marker(node: &Node) -> bool {
-        [AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd].iter().any(|aid| {
-            match node.attributes().get_value(*aid) {
-                Some(&AttributeValue::PredefValue(ValueId::None)) | None => false,
-                Some(_) => true,
-            }
-        })
-    }
-
     match node.tag_id() {
           Some(EId::Path)
         | Some(EId::Line)
@@ -205,12 +196,7 @@ fn may_have_marker(node: &Node) -> bool {
         _ => return false,
     }
 
-    if node.parents_with_self().any(|n| has_marker(&n)) {
-        return true;
-    }
-
-    // An element linked by 'use' can inherit a marker from any place.
-    utils::is_used_by_use(node) && node.document().descendants().any(|n| has_marker(&n))
+    utils::may_have_marker(node)
 }
 
 fn process_stroke(node: &mut Node) {
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 88a8249..203c269 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -18,9 +18,9 @@
 
 use svgdom::{
     AttributeValue,
-    ElementType,
     FuzzyEq,
     Node,
+    ValueId,
 };
 
 use task::short::{EId, AId};
@@ -86,6 +86,25 @@ pub fn is_used_by_use(node: &Node) -> bool {
     node.parents_with_self().any(|n| n.linked_nodes().any(|link| link.is_tag_name(EId::Use)))
 }
 
+/// Checks that the node has a marker property, own or inherited.
+pub fn may_have_marker(node: &Node) -> bool {
+    fn has_marker(node: &Node) -> bool {
+        [AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd].iter().any(|aid| {
+            match node.attributes().get_value(*aid) {
+                Some(&AttributeValue::PredefValue(ValueId::None)) | None => false,
+                Some(_) => true,
+            }
+        })
+    }
+
+    if node.parents_with_self().any(|n| has_marker(&n)) {
+        return true;
+    }
+
+    // An element linked by 'use' can inherit a marker from any place.
+    is_used_by_use(node) && node.document().descendants().any(|n| has_marker(&n))
+}
+
 /// Returns `stop` children of a gradient.
 ///
 /// A gradient can also contain `title`, `desc`, animations and so on.
-- 
2.43.0


From b0ae7e238bf044289c0daab60b0cb83b5e7df8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 59/68] fix: do not convert a rect that inherits a marker from
 use

---
 src/task/conv_shapes.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/task/conv_shapes.rs b/src/task/conv_shapes.rs
index fc63dbb..3dfc519 100644
--- a/src/task/conv_shapes.rs
+++ b/src/task/conv_shapes.rs
@@ -78,7 +78,7 @@ fn convert_rect(node: &mut Node) {
     debug_assert!(node.is_tag_name(EId::Rect));
 
     // Markers are not applicable to a rect, but will be drawn on a path.
-    if has_markers(node) {
+    if ::task::utils::may_have_marker(node) {
         return;
     }
 
@@ -124,18 +124,6 @@ fn convert_rect(node: &mut Node) {
     node.remove_attributes(&[AId::X, AId::Y, AId::Rx, AId::Ry, AId::Width, AId::Height]);
 }
 
-fn has_markers(node: &Node) -> bool {
-    node.parents_with_self().any(|n| {
-        let attrs = n.attributes();
-        [AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd].iter().any(|aid| {
-            match attrs.get_value(*aid) {
-                Some(&AttributeValue::FuncLink(_)) => true,
-                _ => false,
-            }
-        })
-    })
-}
-
 fn convert_polyline(node: &mut Node) {
     debug_assert!(node.is_tag_name(EId::Polyline));
 
-- 
2.43.0


From b0743c13d5b2e975917056ff98de348082576133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 60/68] fix: keep values inherited by definitions of a moved
 defs element

---
 src/task/group_defs.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 78bc784..9067cc6 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -30,7 +30,10 @@ pub fn group_defs(doc: &mut Document) {
     let mut svg = doc.svg_element().unwrap();
 
     // Create 'defs' node if it didn't exist already.
-    let mut defs = match doc.descendants().filter(|n| n.is_tag_name(EId::Defs)).nth(0) {
+    //
+    // An existing one can be used only when it's children will not inherit anything new
+    // and will not lose anything inherited.
+    let mut defs = match svg.children().filter(|n| is_plain_defs(n)).nth(0) {
         Some(n) => n,
         None => doc.create_element(EId::Defs),
     };
@@ -48,7 +51,7 @@ pub fn group_defs(doc: &mut Document) {
         for (_, node) in doc.descendants().svg() {
             if node.is_referenced() {
                 if let Some(parent) = node.parent() {
-                    if parent != defs && can_move(&node) {
+                    if parent != defs {
                         nodes.push(node.clone());
                     }
                 }
@@ -100,16 +103,9 @@ pub fn group_defs(doc: &mut Document) {
     }
 }
 
-// Attributes of the moved element will be resolved into it's children,
-// so the children can't be used by other elements.
-fn can_move(node: &Node) -> bool {
-    match node.tag_id().unwrap() {
-          EId::ClipPath
-        | EId::Marker
-        | EId::Mask
-        | EId::Pattern => !node.children().any(|n| n.is_used()),
-        _ => true,
-    }
+fn is_plain_defs(node: &Node) -> bool {
+       node.is_tag_name(EId::Defs)
+    && !node.attributes().iter_svg().any(|(_, a)| a.is_presentation())
 }
 
 // Graphical elements inside referenced elements inherits parent attributes,
@@ -120,11 +116,21 @@ fn resolve_attrs(node: &Node) {
         | EId::Marker
         | EId::Mask
         | EId::Pattern => {
+            // Children that are used by other elements should not be changed.
+            let mut nodes: Vec<Node> = if node.children().any(|n| n.is_used()) {
+                vec![node.clone()]
+            } else {
+                node.children().collect()
+            };
+
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
-                let attrs = p.attributes();
-                for (aid, attr) in attrs.iter_svg().filter(|&(id, a)| a.is_inheritable() || id == AId::Visibility) {
-                    for mut child in node.children() {
+                let attrs: Vec<_> = p.attributes().iter_svg()
+                    .filter(|&(id, a)| a.is_inheritable() || id == AId::Visibility)
+                    .map(|(id, a)| (id, a.clone())).collect();
+
+                for (aid, attr) in attrs {
+                    for child in &mut nodes {
                         if child.has_attribute(aid) {
                             continue;
                         }
-- 
2.43.0


From 1ef4d6ceb9986f39e5e8482f11703e9aa998e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:40 +0000
Subject: [PATCH 61/68] fix: keep groups with values that are relative to each
 other

---
 src/task/ungroup_groups.rs |  6 +++++
 src/task/utils.rs          | 55 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 446a7e0..3a0dd7d 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -25,6 +25,7 @@ use svgdom::{
 
 use task::short::{EId, AId};
 use task::apply_transforms;
+use task::utils;
 use options::CleaningOptions;
 
 pub fn ungroup_groups(doc: &Document, opt: &CleaningOptions) {
@@ -79,6 +80,11 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // Values like '2em' or 'bolder' should be calculated from the same values.
+    if g.children().svg().any(|(_, n)| !utils::can_merge_into_child(g, &n)) {
+        return false;
+    }
+
     // 'svg' doesn't support 'transform' attribute.
     if g.has_attribute(AId::Transform) && g.children().any(|n| n.is_tag_name(EId::Svg)) {
         return false;
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 203c269..2b17ed2 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -17,13 +17,14 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeValue,
     FuzzyEq,
     Node,
     ValueId,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
 
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
@@ -105,6 +106,58 @@ pub fn may_have_marker(node: &Node) -> bool {
     is_used_by_use(node) && node.document().descendants().any(|n| has_marker(&n))
 }
 
+/// Checks that the attribute value depends on a parent value of the same attribute.
+pub fn is_relative_to_parent(attr: &Attribute) -> bool {
+    match attr.value {
+        AttributeValue::Length(len) => {
+               attr.has_id(AId::FontSize)
+            && (len.unit == Unit::Em || len.unit == Unit::Ex || len.unit == Unit::Percent)
+        }
+        AttributeValue::PredefValue(v) => match v {
+              ValueId::Larger
+            | ValueId::Smaller
+            | ValueId::Bolder
+            | ValueId::Lighter
+            | ValueId::Wider
+            | ValueId::Narrower => true,
+            _ => false,
+        },
+        _ => false,
+    }
+}
+
+/// Checks that the attribute value, except `font-size`, depends on a current font.
+pub fn is_relative_to_font(attr: &Attribute) -> bool {
+    if attr.has_id(AId::FontSize) {
+        return false;
+    }
+
+    match attr.value {
+        AttributeValue::Length(len) => len.unit == Unit::Em || len.unit == Unit::Ex,
+        AttributeValue::LengthList(ref list) => {
+            list.iter().any(|len| len.unit == Unit::Em || len.unit == Unit::Ex)
+        }
+        _ => false,
+    }
+}
+
+/// Checks that computed values will not be changed
+/// when a child gets all attributes of the parent that it doesn't have.
+pub fn can_merge_into_child(parent: &Node, child: &Node) -> bool {
+    let attrs = parent.attributes();
+
+    // Child value will lose it's base.
+    for (aid, attr) in child.attributes().iter_svg() {
+        if is_relative_to_parent(attr) && attrs.contains(aid) {
+            return false;
+        }
+    }
+
+    // Parent values will be calculated using an another font.
+    let has_font = child.has_attribute(AId::FontSize) || child.has_attribute(AId::FontFamily);
+    !(has_font && attrs.iter().any(|a| is_relative_to_font(a)))
+}
+
 /// Returns `stop` children of a gradient.
 ///
 /// A gradient can also contain `title`, `desc`, animations and so on.
-- 
2.43.0


From 854d4f3ff878bcdbb5fa630286cc3637f69b77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:40 +0000
Subject: [PATCH 62/68] fix: keep use elements with values that are relative to
 each other

---
 src/task/resolve_use.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index c834095..fe3da61 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -26,6 +26,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId, Unit};
+use task::utils;
 
 pub fn resolve_use(doc: &Document) {
     let mut nodes = Vec::new();
@@ -78,6 +79,11 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
+                // Values like '2em' or 'bolder' should be calculated from the same values.
+                if !utils::can_merge_into_child(&node, link) {
+                    continue;
+                }
+
                 nodes.push((node.clone(), link.clone()));
             }
         }
-- 
2.43.0


From 6971066e4ba31d99863bdb53a740690d6d04b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:40 +0000
Subject: [PATCH 63/68] fix: do not group values that are relative to each
 other

---
 src/task/group_by_style.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index 113af12..1d00158 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -31,6 +31,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 // TODO: optimize, since Table is basically Vec<(Vec,Vec)>, which is not very efficient
 struct Table {
@@ -433,6 +434,19 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 continue;
             }
 
+            // A value like '2em' or 'bolder' should not lose a value it was calculated from.
+            if utils::is_relative_to_parent(attr) && parent.has_attribute(aid) {
+                continue;
+            }
+
+            if utils::is_relative_to_font(attr) && node_list.iter().any(|n| has_font(n)) {
+                continue;
+            }
+
+            if is_font(aid) && parent.attributes().iter().any(|a| utils::is_relative_to_font(a)) {
+                continue;
+            }
+
             // Append only unique attributes.
             if !table.d.iter().any(|x| x.attributes[0] == *attr) {
                 table.append(attr, nodes_count);
@@ -535,6 +549,14 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
     // </g>
 }
 
+fn is_font(aid: AId) -> bool {
+    aid == AId::FontSize || aid == AId::FontFamily
+}
+
+fn has_font(node: &Node) -> bool {
+    node.attributes().iter_svg().any(|(aid, _)| is_font(aid))
+}
+
 fn move_nodes(attributes: &[Attribute], g_node: &mut Node, node_list: &mut [Node], range: Range<usize>) {
     let attr_ids: Vec<AId> = attributes.iter().map(|a| a.id().unwrap()).collect();
 
-- 
2.43.0


From 1a9f7744081fbe2b2e70800e808b9be40d0bec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:40 +0000
Subject: [PATCH 64/68] fix: inherit relative values instead of copying them

---
 src/task/resolve_inherit.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index 4154a8a..313e21a 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -107,9 +107,14 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
     }
 
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
-        let av = n.attributes().get_value(parent_attr).cloned();
-        if let Some(av) = av {
-            node.set_attribute((curr_attr, av.clone()));
+        let attr = n.attributes().get(parent_attr).cloned();
+        if let Some(attr) = attr {
+            if utils::is_relative_to_parent(&attr) || utils::is_relative_to_font(&attr) {
+                // A copy will be calculated from other values, so it should be inherited.
+                node.remove_attribute(curr_attr);
+            } else {
+                node.set_attribute((curr_attr, attr.value));
+            }
         }
 
         Ok(())
-- 
2.43.0


From db87e699d33e1399a97790733078d58e2e43afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:40 +0000
Subject: [PATCH 65/68] fix: do not move definitions that depend on relative
 values

---
 src/task/group_defs.rs | 56 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 9067cc6..5fe237c 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -24,6 +24,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -51,7 +52,7 @@ pub fn group_defs(doc: &mut Document) {
         for (_, node) in doc.descendants().svg() {
             if node.is_referenced() {
                 if let Some(parent) = node.parent() {
-                    if parent != defs {
+                    if parent != defs && can_move(&node) {
                         nodes.push(node.clone());
                     }
                 }
@@ -74,7 +75,7 @@ pub fn group_defs(doc: &mut Document) {
         let mut nodes = Vec::new();
         for (_, node) in doc.descendants().svg() {
             if node.is_tag_name(EId::Defs) && node != defs {
-                for child in node.children() {
+                for child in node.children().filter(|n| can_move(n)) {
                     nodes.push(child.clone());
                 }
             }
@@ -90,14 +91,12 @@ pub fn group_defs(doc: &mut Document) {
     {
         let mut nodes = Vec::new();
         for (_, node) in doc.descendants().svg() {
-            if node.is_tag_name(EId::Defs) && node != defs {
+            if node.is_tag_name(EId::Defs) && node != defs && !node.has_children() {
                 nodes.push(node.clone());
             }
         }
 
         for n in &mut nodes {
-            // Unneeded defs already ungrouped and must be empty.
-            debug_assert!(!n.has_children());
             n.remove();
         }
     }
@@ -108,6 +107,53 @@ fn is_plain_defs(node: &Node) -> bool {
     && !node.attributes().iter_svg().any(|(_, a)| a.is_presentation())
 }
 
+// Values like '2em' or 'bolder' can't be resolved, so elements that inherits them should not be moved.
+fn can_move(node: &Node) -> bool {
+    // Own coordinates can use font units too.
+    let has_font_units = node.attributes().iter().any(|a| utils::is_relative_to_font(a));
+    let font = [AId::FontSize, AId::FontFamily];
+    if has_font_units && node.parents().any(|n| font.iter().any(|aid| n.has_attribute(*aid))) {
+        return false;
+    }
+
+    if !has_inherited_content(node) {
+        return true;
+    }
+
+    for n in node.parents_with_self() {
+        let attrs = n.attributes();
+
+        let is_relative = attrs.iter_svg().any(|(_, a)| {
+               a.is_inheritable()
+            && (utils::is_relative_to_parent(a) || utils::is_relative_to_font(a))
+        });
+
+        if is_relative {
+            return false;
+        }
+
+        // Children have own values, so they will lose this one.
+        let is_lost = node.children().svg().any(|(_, c)| {
+            c.attributes().iter_svg().any(|(aid, a)| {
+                utils::is_relative_to_parent(a) && n != *node && attrs.contains(aid)
+            })
+        });
+
+        if is_lost {
+            return false;
+        }
+    }
+
+    true
+}
+
+fn has_inherited_content(node: &Node) -> bool {
+       node.is_tag_name(EId::ClipPath)
+    || node.is_tag_name(EId::Marker)
+    || node.is_tag_name(EId::Mask)
+    || node.is_tag_name(EId::Pattern)
+}
+
 // Graphical elements inside referenced elements inherits parent attributes,
 // so if we want to move this elements to the 'defs' - we should resolve attributes too.
 fn resolve_attrs(node: &Node) {
-- 
2.43.0


From fa4e20915e75e137bc5e75ae7d9c14c24a3572ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:40 +0000
Subject: [PATCH 66/68] fix: keep inherited color interpolation of moved
 definitions

---
 src/task/group_defs.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 5fe237c..ea0664f 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -157,6 +157,24 @@ fn has_inherited_content(node: &Node) -> bool {
 // Graphical elements inside referenced elements inherits parent attributes,
 // so if we want to move this elements to the 'defs' - we should resolve attributes too.
 fn resolve_attrs(node: &Node) {
+    // Affects the element itself.
+    let aid = if node.is_gradient() || node.is_tag_name(EId::Mask) {
+        Some(AId::ColorInterpolation)
+    } else if node.is_tag_name(EId::Filter) {
+        Some(AId::ColorInterpolationFilters)
+    } else {
+        None
+    };
+
+    if let Some(aid) = aid {
+        if let Some(p) = node.parents_with_self().find(|n| n.has_attribute(aid)) {
+            let attr = p.attributes().get(aid).cloned();
+            if let Some(attr) = attr {
+                node.clone().set_attribute(attr);
+            }
+        }
+    }
+
     match node.tag_id().unwrap() {
           EId::ClipPath
         | EId::Marker
-- 
2.43.0


From 90cefae20843b8ac81c9e12532d8b7ce6b8abc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:40 +0000
Subject: [PATCH 67/68] fix: do not scale an inherited stroke with font units

---
 src/task/apply_transforms/mod.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index d77b9c7..58577d6 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -34,6 +34,7 @@ pub mod utils {
     };
 
     use task::short::{EId, AId, Unit};
+    use task::utils::is_relative_to_font;
 
     // TODO: remove
     pub fn has_valid_transform(node: &Node) -> bool {
@@ -95,8 +96,24 @@ pub mod utils {
     // An element that is used by 'use' inherits stroke properties from it too,
     // so a stroke can't be recalculated without knowing all 'use' elements.
     pub fn is_valid_scale(node: &Node, ts: &Transform) -> bool {
-        !ts.has_scale() || !node.parents_with_self().any(|n| {
-            n.linked_nodes().any(|l| l.is_tag_name(EId::Use))
+        !ts.has_scale() || (
+               !node.parents_with_self().any(|n| {
+                    n.linked_nodes().any(|l| l.is_tag_name(EId::Use))
+                })
+            && !has_inherited_font_units(node)
+        )
+    }
+
+    // An inherited value like '2em' is calculated using a font of the element that has it,
+    // so a scaled copy of this value will be different.
+    fn has_inherited_font_units(node: &Node) -> bool {
+        [AId::StrokeWidth, AId::StrokeDasharray, AId::StrokeDashoffset].iter().any(|aid| {
+            match node.parents_with_self().find(|n| n.has_attribute(*aid)) {
+                Some(ref n) if n != node => {
+                    n.attributes().get(*aid).map(|a| is_relative_to_font(a)).unwrap_or(false)
+                }
+                _ => false,
+            }
         })
     }
 
-- 
2.43.0


From 2cf3b7b046cbebd1e9507d84882fdf58c94bfb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:40 +0000
Subject: [PATCH 68/68] fix: gradients with different color-interpolation are
 not duplicates

---
 src/task/rm_dupl_defs/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index f178aea..f3f2aaf 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -126,6 +126,11 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
         }
     }
 
+    // Not resolved, since it's inherited from a parent and not from a linked gradient.
+    if attrs1.get_value(AId::ColorInterpolation) != attrs2.get_value(AId::ColorInterpolation) {
+        return false;
+    }
+
     for aid in attrs.iter() {
         if attrs1.get_value(*aid).unwrap() != attrs2.get_value(*aid).unwrap() {
             return false;
-- 
2.43.0

