From 04dfc0aa25572d280cec7afac1f4837e1b63705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 01/25] verification hook: expose internals under
 cfg(regalloc2_verif)

---
 src/fastalloc/mod.rs |  8 ++++++++
 src/lib.rs           | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 91fdaa7..bfc4cdd 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -22,6 +22,14 @@ use vregset::VRegSet;
 #[cfg(test)]
 mod tests;
 
+// Verification hook, see `crate::verif`.
+#[cfg(regalloc2_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use super::lru::*;
+    pub use super::vregset::*;
+}
+
 #[derive(Debug)]
 struct Allocs {
     allocs: Vec<Allocation>,
diff --git a/src/lib.rs b/src/lib.rs
index 5eab7d3..17f3814 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,6 +61,40 @@ pub use index::{Block, Inst, InstRange};
 
 pub mod checker;
 
+// Verification hook: exposes internal modules to out-of-tree harnesses. Only
+// compiled with `--cfg regalloc2_verif`.
+#[cfg(regalloc2_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::fastalloc::verif as fastalloc;
+    pub mod moves {
+        pub use crate::moves::*;
+    }
+    pub mod domtree {
+        pub use crate::domtree::*;
+    }
+    pub mod postorder {
+        pub use crate::postorder::*;
+    }
+    pub mod cfg {
+        pub use crate::cfg::*;
+    }
+    pub mod ssa {
+        pub use crate::ssa::*;
+    }
+    pub mod ion {
+        pub mod reg_traversal {
+            pub use crate::ion::reg_traversal::*;
+        }
+        pub mod requirement {
+            pub use crate::ion::requirement::*;
+        }
+        pub mod redundant_moves {
+            pub use crate::ion::redundant_moves::*;
+        }
+    }
+}
+
 #[cfg(feature = "fuzzing")]
 pub mod fuzzing;
 
-- 
2.43.0


From db8fbe86422b5a066e0e66cde4645255dc366dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 02/25] fix: place multi-fixed-reg fixup moves before the
 instruction for late uses

A use at (or extended to) the late point that needs a copy because the same
vreg is also constrained to another fixed register had its copy inserted
after the instruction, so the instruction read a stale register.
---
 src/ion/liveranges.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 09040f6..d69f377 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -882,8 +882,11 @@ impl<'a, F: Function> Env<'a, F> {
                             }
 
                             trace!(" -> duplicate; switching to constraint Any");
+                            // The fixup move must happen before the
+                            // instruction even when the use is (or
+                            // was extended to be) at the late point.
                             self.ctx.multi_fixed_reg_fixups.push(MultiFixedRegFixup {
-                                pos: u.pos,
+                                pos: ProgPoint::before(u.pos.inst()),
                                 from_slot: source_slot,
                                 to_slot: u.slot,
                                 to_preg: preg_idx,
@@ -903,8 +906,10 @@ impl<'a, F: Function> Env<'a, F> {
                 }
 
                 for (clobber, pos) in extra_clobbers.drain(..) {
+                    // Reserve the register from the fixup move up to
+                    // and including the use.
                     let range = CodeRange {
-                        from: pos,
+                        from: ProgPoint::before(pos.inst()),
                         to: pos.next(),
                     };
                     self.add_liverange_to_preg(range, clobber);
-- 
2.43.0


From 2f2f8079ef8662f18d8e756293f488f540d4e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 03/25] fix: do not extend fixed early uses of clobbered or
 redefined registers in reuse instructions

With a reused input, other early uses are extended to the late point. Doing
that for a use fixed to a register that the instruction also clobbers or
defines made the allocation impossible and Ion panicked.
---
 src/ion/liveranges.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index d69f377..623feef 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -588,9 +588,22 @@ impl<'a, F: Function> Env<'a, F> {
                             // account for the interference between
                             // the other inputs and the
                             // input-that-is-reused/output.
+                            //
+                            // A use fixed to a register that is also
+                            // clobbered or the target of a fixed late
+                            // def must not be extended: it would
+                            // conflict with that clobber or def, which
+                            // already keeps the reused input/output
+                            // away from the register.
                             (OperandKind::Use, OperandPos::Early)
                                 if reused_input.is_some()
-                                    && reused_input.unwrap() != operand.vreg() =>
+                                    && reused_input.unwrap() != operand.vreg()
+                                    && !matches!(
+                                        operand.constraint(),
+                                        OperandConstraint::FixedReg(preg)
+                                            if late_def_fixed.contains(&preg)
+                                                || self.func.inst_clobbers(inst).contains(preg)
+                                    ) =>
                             {
                                 ProgPoint::after(inst)
                             }
-- 
2.43.0


From 8ddc666d8b9ac2a3ff330628797d090a6631d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 04/25] fix: fastalloc: forget the register of a vreg that was
 moved to its spillslot

Eviction and branch processing moved a vreg to its spillslot but left it
recorded as the occupant of its register, so that a later (earlier in program
order) instruction could evict it again, even after the end of its block, with
an edit after a terminator.
---
 src/fastalloc/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index bfc4cdd..32fa5da 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -172,6 +172,7 @@ impl<'a, F: Function> State<'a, F> {
         }
         let slot = self.vreg_spillslots[evicted_vreg.vreg()];
         self.vreg_allocs[evicted_vreg.vreg()] = Allocation::stack(slot);
+        self.vreg_in_preg[preg.index()] = VReg::invalid();
         trace!("Move reason: eviction");
         self.add_move(
             inst,
@@ -988,6 +989,10 @@ impl<'a, F: Function> Env<'a, F> {
                     )?;
                 }
                 self.vreg_allocs[vreg.vreg()] = vreg_spill;
+                if let Some(preg) = curr_alloc.as_reg() {
+                    // It is no longer in its previous register, if any.
+                    self.vreg_in_preg[preg.index()] = VReg::invalid();
+                }
                 let parallel_moves = match vreg.class() {
                     RegClass::Int => &mut int_parallel_moves,
                     RegClass::Float => &mut float_parallel_moves,
-- 
2.43.0


From 9eb46f61561215d891b277d61e7639a02295c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 05/25] fix: fastalloc: spill a def from the location it is
 defined in

When a def was constrained to the stack while its uses were allocated to a
register, the spillslot was first overwritten with the stale register.
---
 src/fastalloc/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 32fa5da..c165768 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1126,9 +1126,12 @@ impl<'a, F: Function> Env<'a, F> {
         if slot.is_valid() {
             self.vreg_to_live_inst_range[op.vreg().vreg()].2 = Allocation::stack(slot);
             let curr_alloc = self.vreg_allocs[op.vreg().vreg()];
+            let def_alloc = self.allocs[(inst.index(), op_idx)];
             let new_alloc = Allocation::stack(self.vreg_spillslots[op.vreg().vreg()]);
-            if curr_alloc != new_alloc {
-                self.add_move(inst, curr_alloc, new_alloc, op.class(), InstPosition::After)?;
+            // Store from where the instruction defines the value: this move
+            // precedes the one, if any, from there to the current allocation.
+            if curr_alloc != new_alloc && def_alloc != new_alloc {
+                self.add_move(inst, def_alloc, new_alloc, op.class(), InstPosition::After)?;
             }
         }
         self.vreg_to_live_inst_range[op.vreg().vreg()].0 = ProgPoint::after(inst);
-- 
2.43.0


From a1fcbbc421917352c6d30d222c2e80eacd31b4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 06/25] fix: fastalloc: process blocks before their dominators
 whatever the block order

There are no requirements on the order of blocks, but fastalloc processed them
in reverse input order and silently lost values whose definition came later in
the input than a use it dominates.
---
 src/fastalloc/mod.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index c165768..55e89a1 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1570,11 +1570,39 @@ impl<'a, F: Function> Env<'a, F> {
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
-        debug_assert_eq!(self.func.entry_block().index(), 0);
-        for block in (0..self.func.num_blocks()).rev() {
-            self.alloc_block(Block::new(block))?;
+        // Every block has to be processed before the blocks that dominate it:
+        // uses before defs. The reverse of the input order does that if every
+        // reachable block has a reachable predecessor that precedes it, and
+        // it keeps the edits in order.
+        let num_blocks = self.func.num_blocks();
+        let entry = self.func.entry_block();
+        let mut reachable = vec![];
+        let mut postorder = vec![];
+        crate::postorder::calculate(num_blocks, entry, &mut reachable, &mut postorder, |block| {
+            self.func.block_succs(block)
+        })?;
+        let in_order = entry.index() == 0
+            && postorder.iter().all(|&block| {
+                let precedes = |pred: &Block| *pred < block && reachable[pred.index()];
+                block == entry || self.func.block_preds(block).iter().any(precedes)
+            });
+        if in_order {
+            for block in (0..num_blocks).rev() {
+                self.alloc_block(Block::new(block))?;
+            }
+            self.state.edits.reverse();
+        } else {
+            for block in (0..num_blocks).rev() {
+                if !reachable[block] {
+                    self.alloc_block(Block::new(block))?;
+                }
+            }
+            for block in postorder {
+                self.alloc_block(block)?;
+            }
+            self.state.edits.reverse();
+            self.state.edits.sort_by_key(|&(point, _)| point);
         }
-        self.state.edits.reverse();
         self.build_debug_info();
         Ok(())
     }
-- 
2.43.0


From 5267929c51d6e98ee9d081c76256ce81c2e60947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 07/25] fix: make the ranges of debug locations disjoint as
 documented

Overlapping live ranges of a vreg (minimal bundles) produced overlapping
debug-location ranges for one label.
---
 src/ion/moves.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index ddabd9d..0900215 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -768,9 +768,25 @@ impl<'a, F: Function> Env<'a, F> {
             }
         }
 
-        // Sort the debug-locations vector; we provide this
-        // invariant to the client.
+        // Sort the debug-locations vector and make its ranges
+        // disjoint (a vreg can have several locations at one point);
+        // we provide these invariants to the client.
         self.output.debug_locations.sort_unstable();
+        let mut last = None;
+        self.output.debug_locations.retain_mut(|entry| {
+            let (label, from, to, _) = entry;
+            match last {
+                Some((last_label, last_to)) if last_label == *label && *from < last_to => {
+                    *from = last_to;
+                }
+                _ => {}
+            }
+            if *from >= *to {
+                return false;
+            }
+            last = Some((*label, *to));
+            true
+        });
 
         inserted_moves
     }
-- 
2.43.0


From a0f07f5b3931094e2102cab92d2f4ccc60ea3a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 08/25] fix: fastalloc: sort debug locations by label and
 program point

Only the labels were sorted, and a label requested for several ranges of one
vreg was reported several times.
---
 src/fastalloc/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 55e89a1..541cdc8 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1566,7 +1566,8 @@ impl<'a, F: Function> Env<'a, F> {
                     .push((label, point_start, point_end, alloc));
             }
         }
-        self.debug_locations.sort_by_key(|loc| loc.0);
+        self.debug_locations.sort_unstable();
+        self.debug_locations.dedup();
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
-- 
2.43.0


From 67811d615ffc8ec561241ad66ad18dc315641d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 09/25] fix: keep early uses apart from every reused input, not
 only the first

---
 src/ion/liveranges.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 623feef..3ffa3f3 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -456,16 +456,16 @@ impl<'a, F: Function> Env<'a, F> {
 
                 // Does the instruction have any input-reusing
                 // outputs? This is important below to establish
-                // proper interference wrt other inputs. We note the
-                // *vreg* that is reused, not the index.
-                let mut reused_input = None;
+                // proper interference wrt other inputs. We note both
+                // the slot and the *vreg* of each input that is
+                // reused.
+                let mut reused_inputs: SmallVec<[(usize, VReg); 2]> = smallvec![];
                 for op in self.func.inst_operands(inst) {
                     if let OperandConstraint::Reuse(i) = op.constraint() {
                         debug_assert!(self.func.inst_operands(inst)[i]
                             .as_fixed_nonallocatable()
                             .is_none());
-                        reused_input = Some(self.func.inst_operands(inst)[i].vreg());
-                        break;
+                        reused_inputs.push((i, self.func.inst_operands(inst)[i].vreg()));
                     }
                 }
 
@@ -582,11 +582,12 @@ impl<'a, F: Function> Env<'a, F> {
                             (OperandKind::Def, OperandPos::Late) => ProgPoint::after(inst),
                             (OperandKind::Use, OperandPos::Late) => ProgPoint::after(inst),
                             // If there are any reused inputs in this
-                            // instruction, and this is *not* the
-                            // reused vreg, force `pos` to
-                            // `After`. This ensures that we correctly
-                            // account for the interference between
-                            // the other inputs and the
+                            // instruction, and this is *not* one of
+                            // them nor (at another slot) the vreg of
+                            // all of them, force `pos` to `After`.
+                            // This ensures that we correctly account
+                            // for the interference between the other
+                            // inputs and each
                             // input-that-is-reused/output.
                             //
                             // A use fixed to a register that is also
@@ -596,8 +597,10 @@ impl<'a, F: Function> Env<'a, F> {
                             // already keeps the reused input/output
                             // away from the register.
                             (OperandKind::Use, OperandPos::Early)
-                                if reused_input.is_some()
-                                    && reused_input.unwrap() != operand.vreg()
+                                if reused_inputs.iter().all(|&(slot, _)| slot != i)
+                                    && reused_inputs
+                                        .iter()
+                                        .any(|&(_, vreg)| vreg != operand.vreg())
                                     && !matches!(
                                         operand.constraint(),
                                         OperandConstraint::FixedReg(preg)
-- 
2.43.0


From 603769506e34ae86b136bd601b73051b1af9b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 10/25] fix: take multi-fixed-reg fixup moves from a use that
 keeps its constraint

---
 src/ion/liveranges.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 3ffa3f3..2d1927c 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -820,6 +820,7 @@ impl<'a, F: Function> Env<'a, F> {
                     let mut num_fixed_stack = 0;
                     let mut first_reg_slot = None;
                     let mut first_stack_slot = None;
+                    let mut first_limit_slot = None;
                     let mut min_limit = usize::MAX;
                     let mut max_fixed_reg = usize::MIN;
                     for u in uses.iter() {
@@ -834,6 +835,7 @@ impl<'a, F: Function> Env<'a, F> {
                             }
                             OperandConstraint::Limit(max) => {
                                 first_reg_slot.get_or_insert(u.slot);
+                                first_limit_slot.get_or_insert(u.slot);
                                 min_limit = min_limit.min(max);
                                 requires_reg = true;
                             }
@@ -867,7 +869,12 @@ impl<'a, F: Function> Env<'a, F> {
                     // and then rewrite any incompatible constraints to Any.
                     // This allows register allocation to succeed and we will
                     // later insert moves to satisfy the rewritten constraints.
-                    let source_slot = if requires_reg {
+                    // The source of those moves must not be rewritten itself:
+                    // a Limit use never is, while any FixedReg use may be
+                    // when there is a Limit.
+                    let source_slot = if let Some(slot) = first_limit_slot {
+                        slot
+                    } else if requires_reg {
                         first_reg_slot.unwrap()
                     } else {
                         first_stack_slot.unwrap()
-- 
2.43.0


From 9591b18b80180b72e7310e3ce25831a5a35b664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 11/25] fix: fastalloc: report no debug location whose start
 follows its end

---
 src/fastalloc/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 541cdc8..d65dd78 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1561,7 +1561,12 @@ impl<'a, F: Function> Env<'a, F> {
         trace!("Building debug location info");
         for &(vreg, start, end, label) in self.func.debug_value_labels() {
             let (point_start, point_end, alloc) = self.vreg_to_live_inst_range[vreg.vreg()];
-            if point_start.inst() <= start && end <= point_end.inst().next() {
+            // Blocks may be laid out in any order, so the last use can come
+            // before the def: the range is not one that can be described.
+            if point_start <= point_end
+                && point_start.inst() <= start
+                && end <= point_end.inst().next()
+            {
                 self.debug_locations
                     .push((label, point_start, point_end, alloc));
             }
-- 
2.43.0


From b7d77828477d1feb28ab0f5334f4f2e2a31cff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 12/25] verification hook: expose the index set (cfg
 regalloc2_verif)

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 17f3814..02460f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,6 +82,9 @@ pub mod verif {
     pub mod ssa {
         pub use crate::ssa::*;
     }
+    pub mod indexset {
+        pub use crate::indexset::*;
+    }
     pub mod ion {
         pub mod reg_traversal {
             pub use crate::ion::reg_traversal::*;
-- 
2.43.0


From d59c42e9a02567e09f7513452dc8f71b57af9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 13/25] fix: accept valid encodings in Allocation::from_bits

The debug assertion rejected every encoding that Allocation::bits() can
produce (kinds are 0..=2) and accepted only impossible ones.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 02460f0..d30bb45 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1226,7 +1226,7 @@ impl Allocation {
     /// Construct an allocation from its packed encoding.
     #[inline(always)]
     pub fn from_bits(bits: u32) -> Self {
-        debug_assert!(bits >> 29 >= 5);
+        debug_assert!(bits >> 29 <= AllocationKind::Stack as u32);
         Self { bits }
     }
 }
-- 
2.43.0


From ba9e256b88c3e0ef10b588809aa9e82c14aac25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 14/25] fix: keep higher members of the same class in
 PRegSet::add_up_to

The method adds registers, but it overwrote the word of the given
register's class, dropping members at or above that register.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d30bb45..ec65250 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -347,7 +347,7 @@ impl PRegSet {
         for i in 0..index {
             self.bits[i] = !0;
         }
-        self.bits[index] = (1 << bit) - 1;
+        self.bits[index] |= (1 << bit) - 1;
     }
 }
 
-- 
2.43.0


From c5907ea18a1c868985f28ad30e2b8b30be424c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 15/25] fix: reject, rather than panic on, uses of out-of-range
 vregs in validate_ssa

Definitions of vregs beyond num_vregs() are reported as an SSA error, but a
use of one indexed the definition table out of bounds.
---
 src/ssa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssa.rs b/src/ssa.rs
index 29a82cf..ceb5241 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -61,7 +61,10 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
 
                 match operand.kind() {
                     OperandKind::Use => {
-                        let def_block = defined_in[operand.vreg().vreg()];
+                        let def_block = defined_in
+                            .get(operand.vreg().vreg())
+                            .copied()
+                            .unwrap_or_else(Block::invalid);
                         let okay = def_block.is_valid()
                             && if def_block == block {
                                 local.contains(&operand.vreg())
-- 
2.43.0


From ca4725503c1a6c1aab897f6395e49f8bfb2ad535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 16/25] fix: check branch arguments in validate_ssa

Outgoing blockparam arguments are uses of vregs as well, but validation
accepted arguments that are undefined or whose definition does not dominate
the branch.
---
 src/ssa.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/ssa.rs b/src/ssa.rs
index ceb5241..95bad6d 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -92,6 +92,30 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
                 }
             }
         }
+
+        // The outgoing blockparam arguments of a branch are uses at
+        // the end of the block.
+        let last = f.block_insns(block).last();
+        if f.is_branch(last) {
+            for i in 0..f.block_succs(block).len() {
+                for &arg in f.branch_blockparams(block, last, i) {
+                    let def_block = defined_in
+                        .get(arg.vreg())
+                        .copied()
+                        .unwrap_or_else(Block::invalid);
+                    let okay = def_block.is_valid()
+                        && if def_block == block {
+                            local.contains(&arg)
+                        } else {
+                            cfginfo.dominates(def_block, block)
+                        };
+                    if !okay {
+                        trace!("Invalid branch argument {:?}", arg);
+                        return Err(RegAllocError::SSA(arg, last));
+                    }
+                }
+            }
+        }
     }
 
     // Check that the length of branch args matches the sum of the
-- 
2.43.0


From f9f037b99c6a013fd49ac08e2f232ff6d0c12ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 17/25] fix: checker: a move of an unknown value overwrites its
 destination

---
 src/checker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checker.rs b/src/checker.rs
index 58719e6..b2694fe 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -549,7 +549,8 @@ impl CheckerState {
                 // saves a victim register elsewhere. (In other words,
                 // that sequence saves an undefined value and restores
                 // it, so has no effect.) The checker needs to avoid
-                // putting Universe lattice values into the map.
+                // putting Universe lattice values into the map, but
+                // the destination does lose what it held before.
                 if let Some(val) = self.get_value(&from).cloned() {
                     trace!(
                         "checker: checkinst {:?} updating: move {:?} -> {:?} val {:?}",
@@ -559,6 +560,8 @@ impl CheckerState {
                         val
                     );
                     self.set_value(into, val);
+                } else {
+                    self.remove_value(&into);
                 }
             }
             &CheckerInst::ParallelMove { ref moves } => {
-- 
2.43.0


From ecba6e304e2535c769983192456c9ecb420175d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 18/25] fix: checker: start from the entry, whatever the block
 order, and skip values in unreachable code

---
 src/checker.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index b2694fe..c8e0f62 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -319,14 +319,6 @@ impl CheckerState {
         }
     }
 
-    /// Transition from a "top" (undefined/unanalyzed) state to an empty set of allocations.
-    fn become_defined(&mut self) {
-        match self {
-            CheckerState::Top => *self = CheckerState::Allocations(FxHashMap::default()),
-            _ => {}
-        }
-    }
-
     fn set_value(&mut self, alloc: Allocation, value: CheckerValue) {
         match self {
             CheckerState::Top => {
@@ -443,7 +435,10 @@ impl CheckerState {
             return Err(CheckerError::MissingAllocation { inst, op });
         }
 
-        if op.kind() == OperandKind::Use && op.as_fixed_nonallocatable().is_none() {
+        // In unreachable code (still at the lattice top) any value is as
+        // good as any other; the constraints must hold all the same.
+        let reachable = *self != CheckerState::Top;
+        if reachable && op.kind() == OperandKind::Use && op.as_fixed_nonallocatable().is_none() {
             match val {
                 CheckerValue::Universe => {
                     return Err(CheckerError::UnknownValueInAllocation { inst, op, alloc });
@@ -540,7 +535,11 @@ impl CheckerState {
 
     /// Update according to instruction.
     fn update(&mut self, checkinst: &CheckerInst) {
-        self.become_defined();
+        // Nothing is known to reach this point: stay at the lattice
+        // top, the neutral element of the meet at the successors.
+        if let CheckerState::Top = self {
+            return;
+        }
 
         match checkinst {
             &CheckerInst::Move { into, from } => {
@@ -752,7 +751,7 @@ impl<'a, F: Function> Checker<'a, F> {
             }
         }
 
-        bb_in.insert(f.entry_block(), CheckerState::default());
+        bb_in.insert(f.entry_block(), CheckerState::initial());
 
         let mut stack_pregs = PRegSet::empty();
         for &preg in &machine_env.fixed_stack_slots {
-- 
2.43.0


From f728b989cb3cdeaaebd400706fe46533536da854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 19/25] fix: checker: check reused inputs and other late
 operands of instructions that reuse an input

---
 src/checker.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index c8e0f62..4375257 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -477,16 +477,6 @@ impl CheckerState {
                 ref allocs,
                 ..
             } => {
-                // Skip Use-checks at the After point if there are any
-                // reused inputs: the Def which reuses the input
-                // happens early.
-                let has_reused_input = operands
-                    .iter()
-                    .any(|op| matches!(op.constraint(), OperandConstraint::Reuse(_)));
-                if has_reused_input && pos == InstPosition::After {
-                    return Ok(());
-                }
-
                 // For each operand, check (i) that the allocation
                 // contains the expected vreg, and (ii) that it meets
                 // the requirements of the OperandConstraint.
-- 
2.43.0


From 309f3e7ce623d9b64db61236d54739342c6e76bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 20/25] fix: checker: an operand with a register limit must be
 in a register

---
 src/checker.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 4375257..ace83dd 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -669,15 +669,18 @@ impl CheckerState {
                 }
             }
             OperandConstraint::Limit(max) => {
-                if let Some(preg) = alloc.as_reg() {
-                    if preg.hw_enc() >= max {
-                        return Err(CheckerError::AllocationOutsideLimit {
-                            inst,
-                            op,
-                            alloc,
-                            range: (0..max),
-                        });
-                    }
+                // A limit is a restriction of `Reg`.
+                let preg = match alloc.as_reg() {
+                    Some(preg) if !checker.stack_pregs.contains(preg) => preg,
+                    _ => return Err(CheckerError::AllocationIsNotReg { inst, op, alloc }),
+                };
+                if preg.hw_enc() >= max {
+                    return Err(CheckerError::AllocationOutsideLimit {
+                        inst,
+                        op,
+                        alloc,
+                        range: (0..max),
+                    });
                 }
             }
         }
-- 
2.43.0


From 2f4ef201987a4d25fbf8339f47fc46f235fe2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 21/25] fix: ion: compute the liveness of unreachable blocks
 too

They are allocated as well; without liveness a vreg that only occurs in
them panicked with 'trying to get a VReg before observing its class'.
---
 src/ion/liveranges.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 2d1927c..ccd6d46 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -290,6 +290,13 @@ impl<'a, F: Function> Env<'a, F> {
             workqueue.push_back(block);
             workqueue_set.insert(block);
         }
+        // Unreachable blocks are allocated as well, so they need liveness too.
+        for block in 0..self.func.num_blocks() {
+            let block = Block::new(block);
+            if workqueue_set.insert(block) {
+                workqueue.push_back(block);
+            }
+        }
 
         while let Some(block) = workqueue.pop_front() {
             workqueue_set.remove(&block);
-- 
2.43.0


From 61d100dea218cce2e2a60c073b6bbf3f4b587086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 22/25] fix: ion: do not extend a live range that starts at its
 def to an earlier block

With blocks in an order where a vreg is live at the end of the block laid
out before the one whose first instruction defines it (early), the two
ranges were merged although no value flows there, and the merged range
kept its StartsAtDef flag: moves were left out (wrong code) or their
source was missing (panic).
---
 src/ion/liveranges.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index ccd6d46..5ec16b8 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -188,12 +188,19 @@ impl<'a, F: Function> Env<'a, F> {
             );
         }
 
-        if self.vregs[vreg].ranges.is_empty()
-            || range.to
-                < self.ranges[self.vregs[vreg].ranges.last().unwrap().index]
-                    .range
-                    .from
-        {
+        // A range that starts at the vreg's def is not extended to an
+        // earlier instruction: no value flows from there to here (the
+        // blocks may be in any order).
+        let extend = match self.vregs[vreg].ranges.last() {
+            None => false,
+            Some(last) => {
+                let last = &self.ranges[last.index];
+                range.to >= last.range.from
+                    && !(last.has_flag(LiveRangeFlag::StartsAtDef)
+                        && range.to.prev().inst() < last.range.from.inst())
+            }
+        };
+        if !extend {
             // Is not contiguous with previously-added (immediately
             // following) range; create a new range.
             let lr = self.ctx.ranges.add(range, self.ctx.scratch_bump.clone());
-- 
2.43.0


From 7353bb202a493b6c220533106c3397e060e32452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 23/25] fix: ion: too-many-live-registers check at the first
 program point

The point before it was computed, which underflows.
---
 src/ion/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ion/process.rs b/src/ion/process.rs
index a6e5db9..41c7df2 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -1227,8 +1227,8 @@ impl<'a, F: Function> Env<'a, F> {
                     {
                         trace!(" -> PR {:?}", preg);
                         let start = LiveRangeKey::from_range(&CodeRange {
-                            from: range.from.prev(),
-                            to: range.from.prev(),
+                            from: range.from,
+                            to: range.from,
                         });
                         for (key, lr) in self.ctx.pregs[preg.index()]
                             .allocations
-- 
2.43.0


From 211608af37f804541324e98e8d519f7af53c08a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 24/25] fix: ion: report too many live registers when no
 register is admissible

With no register in the class, or none below an operand's limit, a debug
assertion failed instead.
---
 src/ion/process.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ion/process.rs b/src/ion/process.rs
index 41c7df2..6cb4184 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -1195,11 +1195,14 @@ impl<'a, F: Function> Env<'a, F> {
                 lowest_cost_split_conflict_reg
             );
 
-            // If we reach here, we *must* have an option either to split or evict.
-            debug_assert!(
-                lowest_cost_split_conflict_cost.is_some()
-                    || lowest_cost_evict_conflict_cost.is_some()
-            );
+            // If there is an option neither to split nor to evict,
+            // then no register could be tried: there is none in this
+            // class, or none below the limit.
+            if lowest_cost_split_conflict_cost.is_none()
+                && lowest_cost_evict_conflict_cost.is_none()
+            {
+                return Err(RegAllocError::TooManyLiveRegs);
+            }
 
             let our_spill_weight = self.bundle_spill_weight(bundle);
             trace!(" -> our spill weight: {}", our_spill_weight);
-- 
2.43.0


From 800e47a5e829364276c8f7823ebe7306244a9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 25/25] fix: ion: let a minimal bundle spanning its instruction
 evict one spanning half of it

---
 src/ion/data_structures.rs |  4 ++--
 src/ion/process.rs         | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ion/data_structures.rs b/src/ion/data_structures.rs
index ba036a1..f211fd0 100644
--- a/src/ion/data_structures.rs
+++ b/src/ion/data_structures.rs
@@ -209,8 +209,8 @@ pub struct LiveBundle {
 pub const BUNDLE_MAX_SPILL_WEIGHT: u32 = (1 << 28) - 1;
 pub const MINIMAL_FIXED_BUNDLE_SPILL_WEIGHT: u32 = BUNDLE_MAX_SPILL_WEIGHT;
 pub const MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT: u32 = BUNDLE_MAX_SPILL_WEIGHT - 1;
-pub const MINIMAL_BUNDLE_SPILL_WEIGHT: u32 = MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT - 256;
-pub const BUNDLE_MAX_NORMAL_SPILL_WEIGHT: u32 = MINIMAL_BUNDLE_SPILL_WEIGHT - 1;
+pub const MINIMAL_BUNDLE_SPILL_WEIGHT: u32 = MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT - 512;
+pub const BUNDLE_MAX_NORMAL_SPILL_WEIGHT: u32 = MINIMAL_BUNDLE_SPILL_WEIGHT - 2;
 
 impl LiveBundle {
     #[inline(always)]
diff --git a/src/ion/process.rs b/src/ion/process.rs
index 6cb4184..d78804d 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -322,16 +322,22 @@ impl<'a, F: Function> Env<'a, F> {
             minimal = false;
         }
 
+        // A minimal bundle that spans its whole instruction may evict
+        // one that spans only half of it: the latter can go wherever
+        // its half is free, but the former cannot.
+        let range = first_range_data.range;
+        let half = u32::from(range.to.to_index() - range.from.to_index() < 2);
+
         let spill_weight = if minimal {
             if fixed {
                 trace!("  -> fixed and minimal");
                 MINIMAL_FIXED_BUNDLE_SPILL_WEIGHT
             } else if let Some(limit) = self.ctx.bundles[bundle].limit {
                 trace!("  -> limited({limit}) and minimal");
-                MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT - u32::from(limit)
+                MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT - 2 * u32::from(limit) - half
             } else {
                 trace!("  -> non-fixed and minimal");
-                MINIMAL_BUNDLE_SPILL_WEIGHT
+                MINIMAL_BUNDLE_SPILL_WEIGHT - half
             }
         } else {
             let mut total = SpillWeight::zero();
-- 
2.43.0

