From 596e8109105e35dde2d4b6e00d7166ae9dbe57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 01/36] fix: remove dead units from the control groups by tag
 index

---
 src/tracker_events/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 6a67b54..175170d 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -249,7 +249,9 @@ pub fn handle_unit_died(
     // Clean up the unit from previous groups where it was selected.
     for (_idx, state) in sc2_state.user_state.iter_mut() {
         for group_idx in 0..11 {
-            state.control_groups[group_idx].retain(|&x| x != unit_dead.unit_tag_index);
+            // The groups hold full unit tags, the registry is keyed by the tag index.
+            state.control_groups[group_idx]
+                .retain(|&x| unit_tag_index(x as i64) != unit_dead.unit_tag_index);
         }
     }
     match sc2_state.units.remove(&unit_dead.unit_tag_index) {
-- 
2.43.0


From 3e8d90cc3f5f76fda14a78cf39ca3cdd61f2aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 02/36] fix: steal control group units from the last hotkey
 group too

---
 src/game_events/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index ff10261..513b266 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -340,7 +340,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
@@ -371,7 +371,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let mut current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
-- 
2.43.0


From 0a0cab11d477ab4866e9e9e4ded420de27aa5abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 03/36] fix: look up the target unit of a command by its tag
 index

---
 src/game_events/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 513b266..ef0be3d 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -63,7 +63,7 @@ pub fn handle_cmd(
     // For now this is not implemented and a unit maybe have a target unit, even tho the active
     // command is Stop.
     let target = if let GameSCmdData::TargetUnit(tu) = &cmd.m_data {
-        sc2_state.units.get(&tu.m_tag).cloned()
+        sc2_state.units.get(&unit_tag_index(tu.m_tag.into())).cloned()
     } else {
         None
     };
-- 
2.43.0


From d15df96d3a97dd0b4b0a2a87286665365a8154c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 04/36] fix: do not treat a full target unit tag as a tag index

---
 src/game_events/state.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index ef0be3d..178691a 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -160,25 +160,20 @@ pub fn handle_update_target_unit(
     target_unit: GameSCmdUpdateTargetUnitEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     // The TargetPoint does not contain the ability id or command index.
-    let registered_target_unit = match sc2_state.units.get(&target_unit.m_target.m_tag) {
+    let registered_target_unit = match sc2_state
+        .units
+        .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
+    {
         Some(x) => x.clone(),
         None => {
-            match sc2_state
-                .units
-                .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
-            {
-                Some(x) => x.clone(),
-                None => {
-                    tracing::warn!(
-                        "Unit not found for target unit: {}",
-                        target_unit.m_target.m_tag
-                    );
-                    return (
-                        ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
-                        UnitChangeHint::None,
-                    );
-                }
-            }
+            tracing::warn!(
+                "Unit not found for target unit: {}",
+                target_unit.m_target.m_tag
+            );
+            return (
+                ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
+                UnitChangeHint::None,
+            );
         }
     };
     let mut user_selected_unit_ids: Vec<u32> = vec![];
-- 
2.43.0


From cfd1a5e12a26952bc93823e1ff403d2af502ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 05/36] fix: keep the creator ability name of units being born

---
 src/tracker_events/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 175170d..defe506 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -110,6 +110,7 @@ pub fn handle_unit_born(
             last_game_loop: game_loop,
             user_id: Some(unit_born.control_player_id),
             name: unit_born.unit_type_name.clone(),
+            creator_ability_name: unit_born.creator_ability_name.clone(),
             pos: Vec3D::new(unit_born.x as f32, unit_born.y as f32, 0.),
             init_game_loop: game_loop,
             tag_index: unit_born.unit_tag_index,
-- 
2.43.0


From 55e9d57c80f0289beb6bb302779b1b2e8631cb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 06/36] fix: report the unit registered by a type change

---
 src/tracker_events/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index defe506..e0c6c8e 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -170,7 +170,10 @@ pub fn handle_unit_type_change(
             .insert(unit_change.unit_tag_index, sc2_unit.clone());
         (
             ReplayTrackerEvent::UnitTypeChange(unit_change),
-            UnitChangeHint::None,
+            UnitChangeHint::Registered {
+                unit: Box::new(sc2_unit),
+                creator: None,
+            },
         )
     }
 }
-- 
2.43.0


From 598523847d09b310d0d2b381a49e47c5a8250095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 07/36] fix: refresh and report the registered unit when it is
 initialized again

---
 src/tracker_events/state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index e0c6c8e..2f2cba0 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -60,6 +60,8 @@ pub fn handle_unit_init(
         unit.pos = Vec3D::new(unit_init.x as f32, unit_init.y as f32, 0.);
         unit.is_init = true;
         unit.name.clone_from(&unit_init.unit_type_name);
+        unit.set_unit_props(&sc2_state.balance_units);
+        sc2_unit = unit.clone();
     } else {
         sc2_state
             .units
-- 
2.43.0


From addd09484b6a7eeeb6ef9ccb689a612a135f7a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 08/36] fix: keep the selection radius when the unit properties
 change

---
 src/state/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 122680e..444838e 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -96,7 +96,12 @@ impl SC2Unit {
     pub fn set_unit_props(&mut self, balance_units: &VersionedBalanceUnits) {
         let (radius, color) =
             get_unit_sized_color(&self.name, self.user_id.unwrap_or(0) as i64, balance_units);
-        self.radius = radius;
+        // Selected units are displayed with twice their radius.
+        self.radius = if self.is_selected {
+            radius * 2.0
+        } else {
+            radius
+        };
         self.color = color;
     }
 }
-- 
2.43.0


From 626f40b358ab0b4fbebfbcdb0727e15ddd493c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 09/36] fix: keep the selection when a control group is set,
 appended to or cleared

---
 src/game_events/state.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 178691a..dde06c0 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -319,10 +319,7 @@ pub fn update_control_group(
     user_id: i64,
     ctrl_group_evt: GameSControlGroupUpdateEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
-    let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
-        UnitChangeHint::Selection(units) => units,
-        _ => unreachable!(),
-    };
+    let mut updated_units = vec![];
     match ctrl_group_evt.m_control_group_update {
         GameEControlGroupUpdate::ESet => {
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
@@ -379,6 +376,11 @@ pub fn update_control_group(
             }
         }
         GameEControlGroupUpdate::ERecall => {
+            // Only recalling a group replaces the current selection.
+            updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
+                UnitChangeHint::Selection(units) => units,
+                _ => unreachable!(),
+            };
             let mut current_selected_units: Vec<u32> = vec![];
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
                 user_state.control_groups[ACTIVE_UNITS_GROUP_IDX] = user_state.control_groups
-- 
2.43.0


From 886394d70a8336ee4475406dda919cac9c2711b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 10/36] fix: report the current state of units that are
 selected again

---
 src/game_events/state.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index dde06c0..a430574 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -296,13 +296,15 @@ pub fn handle_selection_delta(
             UnitChangeHint::Selection(units) => units,
             _ => unreachable!(),
         };
-        updated_units.append(&mut marked_units);
+        // Units selected again go first, so that their current state is the one reported.
+        marked_units.append(&mut updated_units);
+        updated_units = marked_units;
     }
     if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id) {
         state.control_groups[selection_delta.m_control_group_id as usize] =
             selection_delta.m_delta.m_add_unit_tags.clone();
     }
-    updated_units.sort_unstable();
+    updated_units.sort();
     updated_units.dedup();
     (
         ReplayGameEvent::SelectionDelta(selection_delta),
@@ -393,7 +395,11 @@ pub fn update_control_group(
                     UnitChangeHint::Selection(units) => units,
                     _ => unreachable!(),
                 };
-            updated_units.append(&mut curr_units);
+            // Units selected again go first, so that their current state is the one reported.
+            curr_units.append(&mut updated_units);
+            updated_units = curr_units;
+            updated_units.sort();
+            updated_units.dedup();
         }
     }
     (
-- 
2.43.0


From d6896db3cd65f170deab41b7b13afea359f0b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 11/36] fix: do not panic on control groups that do not exist

---
 src/game_events/state.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index a430574..d3f224c 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -300,9 +300,12 @@ pub fn handle_selection_delta(
         marked_units.append(&mut updated_units);
         updated_units = marked_units;
     }
-    if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id) {
-        state.control_groups[selection_delta.m_control_group_id as usize] =
-            selection_delta.m_delta.m_add_unit_tags.clone();
+    if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id)
+        && let Some(control_group) = state
+            .control_groups
+            .get_mut(selection_delta.m_control_group_id as usize)
+    {
+        control_group.clone_from(&selection_delta.m_delta.m_add_unit_tags);
     }
     updated_units.sort();
     updated_units.dedup();
@@ -322,6 +325,16 @@ pub fn update_control_group(
     ctrl_group_evt: GameSControlGroupUpdateEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     let mut updated_units = vec![];
+    if ctrl_group_evt.m_control_group_index as usize > ACTIVE_UNITS_GROUP_IDX {
+        tracing::warn!(
+            "Control group {} does not exist.",
+            ctrl_group_evt.m_control_group_index
+        );
+        return (
+            ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
+            UnitChangeHint::Selection(updated_units),
+        );
+    }
     match ctrl_group_evt.m_control_group_update {
         GameEControlGroupUpdate::ESet => {
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
-- 
2.43.0


From 461c257ce016c9ada52617b176685c4ea39f53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 12/36] fix: give tracker events priority over game events of
 the same loop

---
 src/state/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 444838e..32e105f 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -698,8 +698,9 @@ impl Iterator for SC2EventIterator {
             let event: SC2EventType = match (next_tracker_event_loop, next_game_event_loop) {
                 (Some(next_tracker_event_loop), Some(next_game_event_loop)) => {
                     // Both events are populated, compare the loop and return the lowest one
+                    // On the same loop the tracker event takes priority, see TRACKER_PRIORITY.
                     if next_tracker_event_loop
-                        < (next_game_event_loop as f32 * TRACKER_SPEED_RATIO) as i64
+                        <= (next_game_event_loop as f64 * f64::from(TRACKER_SPEED_RATIO)) as i64
                     {
                         self.next_tracker_event.take().unwrap()
                     } else {
-- 
2.43.0


From 83e6beeb2c8292ea19e53ffbc204defc6aef43b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 13/36] fix: apply the loop filters to game events

---
 src/state/mod.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 32e105f..7364402 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -607,15 +607,29 @@ impl SC2EventIteratorItem {
     #[tracing::instrument(level = "debug")]
     fn shoud_skip_event(&self, event: &SC2EventType, filters: &SC2ReplayFilters) -> bool {
         if let Some(min_loop) = filters.min_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop < min_loop
+            && let SC2EventType::Tracker {
+                tracker_loop: event_loop,
+                ..
+            }
+            | SC2EventType::Game {
+                game_loop: event_loop,
+                ..
+            } = event
+            && *event_loop < min_loop
         {
             tracing::debug!("Skipping event below min_loop {min_loop}");
             return true;
         }
         if let Some(max_loop) = filters.max_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop > max_loop
+            && let SC2EventType::Tracker {
+                tracker_loop: event_loop,
+                ..
+            }
+            | SC2EventType::Game {
+                game_loop: event_loop,
+                ..
+            } = event
+            && *event_loop > max_loop
         {
             tracing::debug!("Skipping event above max_loop {max_loop}");
             return true;
-- 
2.43.0


From f16ad3a6d47a8796ae116a1f8e2dbe884d19fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 14/36] fix: return as many events as the maximum number of
 events filter allows

---
 src/state/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 7364402..8052e9a 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -691,6 +691,11 @@ impl Iterator for SC2EventIterator {
     type Item = SC2EventIteratorItem;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(ref filters) = self.filters
+            && filters.is_max_event_reached()
+        {
+            return None;
+        }
         loop {
             // Fill the next_tracker_event if they are empty.
             if self.next_tracker_event.is_none() {
@@ -737,9 +742,6 @@ impl Iterator for SC2EventIterator {
                     continue;
                 }
                 filters.decrease_allowed_event_counter();
-                if filters.is_max_event_reached() {
-                    return None;
-                }
             }
             #[cfg(feature = "tracing_info_level")]
             iterator_item.emit_info_log();
-- 
2.43.0


From ca94b9a0a70c4d87b3fb8e1c61e3449fd0db25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 15/36] fix: do not panic on variable length integers that are
 too long

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 88d3368..ab6f1e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,13 +156,20 @@ pub fn parse_vlq_int(input: &[u8]) -> IResult<&[u8], i64> {
     let mut bits: i64 = 6;
     while (v_int_value & 0x80) != 0 {
         let (new_tail, new_v_int_value) = dbg_peek_hex(u8, "v_int")(tail)?;
+        if bits >= i64::BITS as i64 {
+            // No valid integer continues past 64 bits.
+            return Err(nom::Err::Error(nom::error::Error::new(
+                tail,
+                nom::error::ErrorKind::TooLarge,
+            )));
+        }
         tail = new_tail;
         result |= ((new_v_int_value as i64 & 0x7fi64) << bits) as i64;
         v_int_value = new_v_int_value;
         bits += 7;
     }
     if is_negative {
-        result = -result;
+        result = result.wrapping_neg();
     }
     Ok((tail, result))
 }
-- 
2.43.0


From 514a3be1159942e956744d95f8fca68437f5580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 16/36] fix: skip tracker events with invalid names instead of
 pausing the stream

---
 src/tracker_events/iterator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tracker_events/iterator.rs b/src/tracker_events/iterator.rs
index 6c79787..0ff220a 100644
--- a/src/tracker_events/iterator.rs
+++ b/src/tracker_events/iterator.rs
@@ -82,6 +82,10 @@ impl TrackertEventIteratorState {
                     return Some(event);
                 }
                 Err(S2ProtocolError::UnsupportedEventType) => {}
+                Err(S2ProtocolError::Utf8Error(err)) => {
+                    // The event was read, only its name is unusable, the stream is still sound.
+                    tracing::warn!("Skipping tracker event with an invalid name: {:?}", err);
+                }
                 Err(err) => {
                     // At this point we can't read the events, our state is either corrupted or the
                     // SC2ReplayState is corrupted.
-- 
2.43.0


From 5194e809f890129f08330e4d04026b68097153dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 17/36] fix: do not mark units as selected by users without a
 selection

---
 src/game_events/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index d3f224c..736644e 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -280,7 +280,10 @@ pub fn handle_selection_delta(
     selection_delta: GameSSelectionDeltaEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     let mut updated_units = vec![];
-    if selection_delta.m_control_group_id == ACTIVE_UNITS_GROUP_IDX as u8 {
+    // The selection of users outside of the lobby is not tracked, so it is never unmarked either.
+    if selection_delta.m_control_group_id == ACTIVE_UNITS_GROUP_IDX as u8
+        && sc2_state.user_state.contains_key(&user_id)
+    {
         let mut unmarked_units =
             match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
                 UnitChangeHint::Selection(units) => units,
-- 
2.43.0


From d5eb7f55b7c50031c765777cac1a0126007d0a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 18/36] fix: read the lobby data of builds up to 75689 with
 their own protocol

ReplaySInitData and GameSSetLobbySlotEvent were re-exported from protocol87702
together with its newer lobby slots, so the slot types of protocol75689 were
never used and the lobby data of old builds was read at the wrong positions.
---
 src/versions/protocol75689/mod.rs | 466 +++++++++++++++++++++++++++++-
 1 file changed, 461 insertions(+), 5 deletions(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index 3462b46..7ddf3b6 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -32,6 +32,7 @@ pub mod bit_packed {
     //! Generated code from source: ../s2protocol/json/protocol75689.json
     use crate::game_events::ReplayGameEvent;
     use crate::versions::GameEvent;
+    use crate::versions::protocol87702;
     pub use crate::versions::protocol87702::bit_packed::CAllowedObserveTypes;
     pub use crate::versions::protocol87702::bit_packed::CAllowedRaces;
     pub use crate::versions::protocol87702::bit_packed::CArtifactHandle;
@@ -60,7 +61,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameCCheatString;
     pub use crate::versions::protocol87702::bit_packed::GameCCommanderMasteryTalentArray;
     pub use crate::versions::protocol87702::bit_packed::GameCGameCacheName;
-    pub use crate::versions::protocol87702::bit_packed::GameCLobbySlotArray;
     pub use crate::versions::protocol87702::bit_packed::GameCModPaths;
     pub use crate::versions::protocol87702::bit_packed::GameCPlayerDetailsArray;
     pub use crate::versions::protocol87702::bit_packed::GameCRewardArray;
@@ -130,8 +130,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameSHijackReplaySessionUserInfo;
     pub use crate::versions::protocol87702::bit_packed::GameSLoadGameDoneEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSLoadingProgressMessage;
-    pub use crate::versions::protocol87702::bit_packed::GameSLobbyState;
-    pub use crate::versions::protocol87702::bit_packed::GameSLobbySyncState;
     pub use crate::versions::protocol87702::bit_packed::GameSMapCoord;
     pub use crate::versions::protocol87702::bit_packed::GameSMapCoord3D;
     pub use crate::versions::protocol87702::bit_packed::GameSMuteChatEvent;
@@ -164,7 +162,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameSSetAbsoluteGameSpeedEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetGameDurationEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetGameSpeedEvent;
-    pub use crate::versions::protocol87702::bit_packed::GameSSetLobbySlotEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetSyncLoadingTimeEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetSyncPlayingTimeEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSingleStepGameEvent;
@@ -296,7 +293,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::Int64;
     pub use crate::versions::protocol87702::bit_packed::MEventData;
     pub use crate::versions::protocol87702::bit_packed::ReplaySGameUserId;
-    pub use crate::versions::protocol87702::bit_packed::ReplaySInitData;
     pub use crate::versions::protocol87702::bit_packed::SUserInitialData;
     pub use crate::versions::protocol87702::bit_packed::SVarUint32;
     pub use crate::versions::protocol87702::bit_packed::SVersion;
@@ -316,6 +312,7 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::Uint64;
     use crate::*;
     use nom::*;
+    use nom_mpq::MPQ;
 
     #[derive(Debug, PartialEq, Clone)]
     pub enum GameEEventId {
@@ -2105,4 +2102,463 @@ pub mod bit_packed {
             }
         }
     }
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameCLobbySlotArray {
+        pub value: Vec<GameSLobbySlot>,
+    }
+    impl GameCLobbySlotArray {
+        #[tracing::instrument(name="75689::GameCLobbySlotArray::ArrayType::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let array_length_num_bits: usize = 5;
+            let (mut tail, array_length) = parse_packed_int(input, 0, array_length_num_bits)?;
+            // compat_count(GameSLobbySlot::parse, array_length as usize)(tail)?;
+            let array_length = array_length as usize;
+            tracing::debug!("Reading array length: {array_length}");
+            let max_initial_capacity =
+                MAX_INITIAL_CAPACITY_BYTES / std::mem::size_of::<GameSLobbySlot>().max(1);
+            let mut array = Vec::with_capacity(array_length.min(max_initial_capacity));
+            for _ in 0..array_length {
+                let (new_tail, data) = GameSLobbySlot::parse(tail)?;
+                tail = new_tail;
+                array.push(data);
+            }
+            Ok((tail, Self { value: array }))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSLobbyState {
+        pub m_phase: GameEPhase,
+        pub m_max_users: TUserCount,
+        pub m_max_observers: TUserCount,
+        pub m_slots: GameCLobbySlotArray,
+        pub m_random_seed: Uint32,
+        pub m_host_user_id: Option<TUserId>,
+        pub m_is_single_player: bool,
+        pub m_picked_map_tag: Uint8,
+        pub m_game_duration: Uint32,
+        pub m_default_difficulty: GameTDifficulty,
+        pub m_default_ai_build: GameTaiBuild,
+    }
+    impl GameSLobbyState {
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_phase(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), GameEPhase> {
+            let (tail, m_phase) = GameEPhase::parse(input)?;
+            tracing::debug!("m_phase: {:?}", m_phase);
+            Ok((tail, m_phase))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_max_users(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), TUserCount> {
+            let (tail, m_max_users) = TUserCount::parse(input)?;
+            tracing::debug!("m_max_users: {:?}", m_max_users);
+            Ok((tail, m_max_users))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_max_observers(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), TUserCount> {
+            let (tail, m_max_observers) = TUserCount::parse(input)?;
+            tracing::debug!("m_max_observers: {:?}", m_max_observers);
+            Ok((tail, m_max_observers))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slots(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameCLobbySlotArray> {
+            let (tail, m_slots) = GameCLobbySlotArray::parse(input)?;
+            tracing::debug!("m_slots: {:?}", m_slots);
+            Ok((tail, m_slots))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_random_seed(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Uint32> {
+            let (tail, m_random_seed) = Uint32::parse(input)?;
+            tracing::debug!("m_random_seed: {:?}", m_random_seed);
+            Ok((tail, m_random_seed))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_host_user_id(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), Option<TUserId>> {
+            let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
+            let (tail, m_host_user_id) = if is_provided {
+                let (tail, res) = TUserId::parse(tail)?;
+                (tail, Some(res))
+            } else {
+                (tail, None)
+            };
+            tracing::debug!("m_host_user_id: {:?}", m_host_user_id);
+            Ok((tail, m_host_user_id))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_is_single_player(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), bool> {
+            let (tail, m_is_single_player) = parse_bool(input)?;
+            tracing::debug!("m_is_single_player: {:?}", m_is_single_player);
+            Ok((tail, m_is_single_player))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_picked_map_tag(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), Uint8> {
+            let (tail, m_picked_map_tag) = Uint8::parse(input)?;
+            tracing::debug!("m_picked_map_tag: {:?}", m_picked_map_tag);
+            Ok((tail, m_picked_map_tag))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_game_duration(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), Uint32> {
+            let (tail, m_game_duration) = Uint32::parse(input)?;
+            tracing::debug!("m_game_duration: {:?}", m_game_duration);
+            Ok((tail, m_game_duration))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_default_difficulty(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameTDifficulty> {
+            let (tail, m_default_difficulty) = GameTDifficulty::parse(input)?;
+            tracing::debug!("m_default_difficulty: {:?}", m_default_difficulty);
+            Ok((tail, m_default_difficulty))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_default_ai_build(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameTaiBuild> {
+            let (tail, m_default_ai_build) = GameTaiBuild::parse(input)?;
+            tracing::debug!("m_default_ai_build: {:?}", m_default_ai_build);
+            Ok((tail, m_default_ai_build))
+        }
+        #[tracing::instrument(name="75689::bit_packed::GameSLobbyState::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let mut tail = input;
+            let mut m_phase: Option<GameEPhase> = None;
+            let mut m_max_users: Option<TUserCount> = None;
+            let mut m_max_observers: Option<TUserCount> = None;
+            let mut m_slots: Option<GameCLobbySlotArray> = None;
+            let mut m_random_seed: Option<Uint32> = None;
+            let mut m_host_user_id: Option<Option<TUserId>> = Some(None);
+            let mut m_is_single_player: Option<bool> = None;
+            let mut m_picked_map_tag: Option<Uint8> = None;
+            let mut m_game_duration: Option<Uint32> = None;
+            let mut m_default_difficulty: Option<GameTDifficulty> = None;
+            let mut m_default_ai_build: Option<GameTaiBuild> = None;
+            if m_phase.is_none() {
+                let (new_tail, parsed_m_phase) = Self::parse_m_phase(tail)?;
+                tail = new_tail;
+                m_phase = Some(parsed_m_phase);
+            }
+            if m_max_users.is_none() {
+                let (new_tail, parsed_m_max_users) = Self::parse_m_max_users(tail)?;
+                tail = new_tail;
+                m_max_users = Some(parsed_m_max_users);
+            }
+            if m_max_observers.is_none() {
+                let (new_tail, parsed_m_max_observers) = Self::parse_m_max_observers(tail)?;
+                tail = new_tail;
+                m_max_observers = Some(parsed_m_max_observers);
+            }
+            if m_slots.is_none() {
+                let (new_tail, parsed_m_slots) = Self::parse_m_slots(tail)?;
+                tail = new_tail;
+                m_slots = Some(parsed_m_slots);
+            }
+            if m_random_seed.is_none() {
+                let (new_tail, parsed_m_random_seed) = Self::parse_m_random_seed(tail)?;
+                tail = new_tail;
+                m_random_seed = Some(parsed_m_random_seed);
+            }
+            if let Some(None) = m_host_user_id {
+                let (new_tail, parsed_m_host_user_id) = Self::parse_m_host_user_id(tail)?;
+                tail = new_tail;
+                m_host_user_id = Some(parsed_m_host_user_id);
+            }
+            if m_is_single_player.is_none() {
+                let (new_tail, parsed_m_is_single_player) = Self::parse_m_is_single_player(tail)?;
+                tail = new_tail;
+                m_is_single_player = Some(parsed_m_is_single_player);
+            }
+            if m_picked_map_tag.is_none() {
+                let (new_tail, parsed_m_picked_map_tag) = Self::parse_m_picked_map_tag(tail)?;
+                tail = new_tail;
+                m_picked_map_tag = Some(parsed_m_picked_map_tag);
+            }
+            if m_game_duration.is_none() {
+                let (new_tail, parsed_m_game_duration) = Self::parse_m_game_duration(tail)?;
+                tail = new_tail;
+                m_game_duration = Some(parsed_m_game_duration);
+            }
+            if m_default_difficulty.is_none() {
+                let (new_tail, parsed_m_default_difficulty) =
+                    Self::parse_m_default_difficulty(tail)?;
+                tail = new_tail;
+                m_default_difficulty = Some(parsed_m_default_difficulty);
+            }
+            if m_default_ai_build.is_none() {
+                let (new_tail, parsed_m_default_ai_build) = Self::parse_m_default_ai_build(tail)?;
+                tail = new_tail;
+                m_default_ai_build = Some(parsed_m_default_ai_build);
+            }
+            Ok((
+                tail,
+                Self {
+                    m_phase: ok_or_return_missing_field_err!(m_phase),
+                    m_max_users: ok_or_return_missing_field_err!(m_max_users),
+                    m_max_observers: ok_or_return_missing_field_err!(m_max_observers),
+                    m_slots: ok_or_return_missing_field_err!(m_slots),
+                    m_random_seed: ok_or_return_missing_field_err!(m_random_seed),
+                    m_host_user_id: ok_or_return_missing_field_err!(m_host_user_id),
+                    m_is_single_player: ok_or_return_missing_field_err!(m_is_single_player),
+                    m_picked_map_tag: ok_or_return_missing_field_err!(m_picked_map_tag),
+                    m_game_duration: ok_or_return_missing_field_err!(m_game_duration),
+                    m_default_difficulty: ok_or_return_missing_field_err!(m_default_difficulty),
+                    m_default_ai_build: ok_or_return_missing_field_err!(m_default_ai_build),
+                },
+            ))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSLobbySyncState {
+        pub m_user_initial_data: CUserInitialDataArray,
+        pub m_game_description: GameSGameDescription,
+        pub m_lobby_state: GameSLobbyState,
+    }
+    impl GameSLobbySyncState {
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_user_initial_data(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), CUserInitialDataArray> {
+            let (tail, m_user_initial_data) = CUserInitialDataArray::parse(input)?;
+            tracing::debug!("m_user_initial_data: {:?}", m_user_initial_data);
+            Ok((tail, m_user_initial_data))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_game_description(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSGameDescription> {
+            let (tail, m_game_description) = GameSGameDescription::parse(input)?;
+            tracing::debug!("m_game_description: {:?}", m_game_description);
+            Ok((tail, m_game_description))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_lobby_state(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSLobbyState> {
+            let (tail, m_lobby_state) = GameSLobbyState::parse(input)?;
+            tracing::debug!("m_lobby_state: {:?}", m_lobby_state);
+            Ok((tail, m_lobby_state))
+        }
+        #[tracing::instrument(name="75689::bit_packed::GameSLobbySyncState::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let mut tail = input;
+            let mut m_user_initial_data: Option<CUserInitialDataArray> = None;
+            let mut m_game_description: Option<GameSGameDescription> = None;
+            let mut m_lobby_state: Option<GameSLobbyState> = None;
+            if m_user_initial_data.is_none() {
+                let (new_tail, parsed_m_user_initial_data) = Self::parse_m_user_initial_data(tail)?;
+                tail = new_tail;
+                m_user_initial_data = Some(parsed_m_user_initial_data);
+            }
+            if m_game_description.is_none() {
+                let (new_tail, parsed_m_game_description) = Self::parse_m_game_description(tail)?;
+                tail = new_tail;
+                m_game_description = Some(parsed_m_game_description);
+            }
+            if m_lobby_state.is_none() {
+                let (new_tail, parsed_m_lobby_state) = Self::parse_m_lobby_state(tail)?;
+                tail = new_tail;
+                m_lobby_state = Some(parsed_m_lobby_state);
+            }
+            Ok((
+                tail,
+                Self {
+                    m_user_initial_data: ok_or_return_missing_field_err!(m_user_initial_data),
+                    m_game_description: ok_or_return_missing_field_err!(m_game_description),
+                    m_lobby_state: ok_or_return_missing_field_err!(m_lobby_state),
+                },
+            ))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSSetLobbySlotEvent {
+        pub m_slot_id: GameTLobbySlotId,
+        pub m_slot_change: GameSLobbySlotChange,
+    }
+    impl GameSSetLobbySlotEvent {
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slot_id(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameTLobbySlotId> {
+            let (tail, m_slot_id) = GameTLobbySlotId::parse(input)?;
+            tracing::debug!("m_slot_id: {:?}", m_slot_id);
+            Ok((tail, m_slot_id))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slot_change(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSLobbySlotChange> {
+            let (tail, m_slot_change) = GameSLobbySlotChange::parse(input)?;
+            tracing::debug!("m_slot_change: {:?}", m_slot_change);
+            Ok((tail, m_slot_change))
+        }
+        #[tracing::instrument(name="75689::bit_packed::GameSSetLobbySlotEvent::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let mut tail = input;
+            let mut m_slot_id: Option<GameTLobbySlotId> = None;
+            let mut m_slot_change: Option<GameSLobbySlotChange> = None;
+            if m_slot_id.is_none() {
+                let (new_tail, parsed_m_slot_id) = Self::parse_m_slot_id(tail)?;
+                tail = new_tail;
+                m_slot_id = Some(parsed_m_slot_id);
+            }
+            if m_slot_change.is_none() {
+                let (new_tail, parsed_m_slot_change) = Self::parse_m_slot_change(tail)?;
+                tail = new_tail;
+                m_slot_change = Some(parsed_m_slot_change);
+            }
+            Ok((
+                tail,
+                Self {
+                    m_slot_id: ok_or_return_missing_field_err!(m_slot_id),
+                    m_slot_change: ok_or_return_missing_field_err!(m_slot_change),
+                },
+            ))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct ReplaySInitData {
+        pub m_sync_lobby_state: GameSLobbySyncState,
+    }
+    impl ReplaySInitData {
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_sync_lobby_state(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSLobbySyncState> {
+            let (tail, m_sync_lobby_state) = GameSLobbySyncState::parse(input)?;
+            tracing::debug!("m_sync_lobby_state: {:?}", m_sync_lobby_state);
+            Ok((tail, m_sync_lobby_state))
+        }
+        #[tracing::instrument(name="75689::bit_packed::ReplaySInitData::Parse", level = "debug", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let mut tail = input;
+            let mut m_sync_lobby_state: Option<GameSLobbySyncState> = None;
+            if m_sync_lobby_state.is_none() {
+                let (new_tail, parsed_m_sync_lobby_state) = Self::parse_m_sync_lobby_state(tail)?;
+                tail = new_tail;
+                m_sync_lobby_state = Some(parsed_m_sync_lobby_state);
+            }
+            Ok((
+                tail,
+                Self {
+                    m_sync_lobby_state: ok_or_return_missing_field_err!(m_sync_lobby_state),
+                },
+            ))
+        }
+    }
+
+    impl ReplaySInitData {
+        /// Read the Init Data
+        #[tracing::instrument(level = "debug", skip(mpq, file_contents))]
+        pub fn read_init_data(
+            mpq: &MPQ,
+            file_contents: &[u8],
+        ) -> Result<InitData, S2ProtocolError> {
+            let (_, init_data_sector) =
+                mpq.read_mpq_file_sector("replay.initData", false, file_contents)?;
+            let (_, replay_sinitdata) = Self::parse((&init_data_sector, 0usize))?;
+            protocol87702::bit_packed::ReplaySInitData::from(replay_sinitdata).try_into()
+        }
+    }
+
+    impl From<ReplaySInitData> for protocol87702::bit_packed::ReplaySInitData {
+        fn from(source: ReplaySInitData) -> Self {
+            Self {
+                m_sync_lobby_state: source.m_sync_lobby_state.into(),
+            }
+        }
+    }
+
+    impl From<GameSLobbySyncState> for protocol87702::bit_packed::GameSLobbySyncState {
+        fn from(source: GameSLobbySyncState) -> Self {
+            Self {
+                m_user_initial_data: source.m_user_initial_data,
+                m_game_description: source.m_game_description,
+                m_lobby_state: source.m_lobby_state.into(),
+            }
+        }
+    }
+
+    impl From<GameSLobbyState> for protocol87702::bit_packed::GameSLobbyState {
+        fn from(source: GameSLobbyState) -> Self {
+            let slots = source.m_slots.value.into_iter().map(|slot| slot.into());
+            Self {
+                m_phase: source.m_phase,
+                m_max_users: source.m_max_users,
+                m_max_observers: source.m_max_observers,
+                m_slots: protocol87702::bit_packed::GameCLobbySlotArray {
+                    value: slots.collect(),
+                },
+                m_random_seed: source.m_random_seed,
+                m_host_user_id: source.m_host_user_id,
+                m_is_single_player: source.m_is_single_player,
+                m_picked_map_tag: source.m_picked_map_tag,
+                m_game_duration: source.m_game_duration,
+                m_default_difficulty: source.m_default_difficulty,
+                m_default_ai_build: source.m_default_ai_build,
+            }
+        }
+    }
+
+    /// The fields that this protocol does not have are zero or empty.
+    impl From<GameSLobbySlot> for protocol87702::bit_packed::GameSLobbySlot {
+        fn from(source: GameSLobbySlot) -> Self {
+            Self {
+                m_control: source.m_control,
+                m_user_id: source.m_user_id,
+                m_team_id: source.m_team_id,
+                m_color_pref: source.m_color_pref,
+                m_race_pref: source.m_race_pref,
+                m_difficulty: source.m_difficulty,
+                m_ai_build: source.m_ai_build,
+                m_observe: source.m_observe,
+                m_logo_index: source.m_logo_index,
+                m_hero: source.m_hero,
+                m_skin: source.m_skin,
+                m_mount: source.m_mount,
+                m_artifacts: source.m_artifacts,
+                m_working_set_slot_id: source.m_working_set_slot_id,
+                m_rewards: source.m_rewards,
+                m_toon_handle: source.m_toon_handle,
+                m_tandem_leader_id: source.m_tandem_leader_id,
+                m_commander: source.m_commander,
+                m_commander_level: source.m_commander_level,
+                m_has_silence_penalty: source.m_has_silence_penalty,
+                m_tandem_id: source.m_tandem_id,
+                m_commander_mastery_level: source.m_commander_mastery_level,
+                m_commander_mastery_talents: source.m_commander_mastery_talents,
+                m_trophy_id: source.m_trophy_id,
+                m_reward_overrides: source.m_reward_overrides,
+                m_handicap: protocol87702::bit_packed::GameTHandicap {
+                    value: Uint32 {
+                        value: source.m_handicap.value,
+                    },
+                },
+                m_licenses: protocol87702::bit_packed::GameCLicenseArray {
+                    value: source.m_licenses.value,
+                },
+                m_brutal_plus_difficulty: Uint32 { value: 0 },
+                m_retry_mutation_indexes: protocol87702::bit_packed::GameCRetryMutationIndexArray {
+                    value: vec![],
+                },
+                m_a_c_enemy_race: Uint32 { value: 0 },
+                m_a_c_enemy_wave_type: Uint32 { value: 0 },
+                m_selected_commander_prestige: Uint32 { value: 0 },
+            }
+        }
+    }
 }
-- 
2.43.0


From 42342e13464772880dc5365e38eda2d8b2648964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 19/36] fix: read 64-bit packed integers with a negative offset
 without overflow

---
 src/bit_packed_decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bit_packed_decoder.rs b/src/bit_packed_decoder.rs
index 62c07a5..f257e43 100644
--- a/src/bit_packed_decoder.rs
+++ b/src/bit_packed_decoder.rs
@@ -147,7 +147,8 @@ pub fn parse_packed_int(
     num_bits: usize,
 ) -> S2ProtoResult<(&[u8], usize), i64> {
     let (tail, num) = take_n_bits_into_i64(input, num_bits)?;
-    let res = offset + num;
+    // With 64 bits the sum only fits after it wrapped around.
+    let res = offset.wrapping_add(num);
     tracing::debug!("parse_packed_int: {}", res);
     Ok((tail, res))
 }
-- 
2.43.0


From e7e99dae7ef5e4fb87e4a3ea1ade28136eb46c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:06 +0000
Subject: [PATCH 20/36] fix: read optional packed integers after their presence
 bit, not including it

---
 src/generator/decoder_type.rs     | 6 ++++--
 src/versions/protocol87702/mod.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 929b990..6fdf422 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -875,14 +875,14 @@ impl DecoderType {
                     let array_size_bits =
                         (array_length.parse::<f32>().unwrap().log2() + 1.).floor() as usize;
                     type_impl_def.push_str(&format!(
-                        "let (tail, array_length) = take_n_bits_into_i64(input, {array_size_bits})?;\n\
+                        "let (tail, array_length) = take_n_bits_into_i64(tail, {array_size_bits})?;\n\
                         let array_length = array_length as usize;\n\
                          tracing::debug!(\"Reading array length: {array_length}\");\n\
                          "
                     ));
                     if is_bit_array {
                         type_impl_def.push_str(&format!(
-                            "let (tail, array) = take_bit_array(input, array_length)?;\n"
+                            "let (tail, array) = take_bit_array(tail, array_length)?;\n"
                         ));
                     } else {
                         type_impl_def.push_str(&format!(
@@ -897,6 +897,8 @@ impl DecoderType {
                     type_impl_def.push_str("(tail, Some(array))");
                 } else {
                     if field_value_parser.contains("input,") {
+                        // The presence bit has been read already, the value starts at the tail.
+                        let field_value_parser = field_value_parser.replace("input,", "tail,");
                         type_impl_def
                             .push_str(&format!("let (tail, res) = {field_value_parser}?;\n"));
                     } else {
diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 71d60bc..cc0845a 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -6207,7 +6207,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<Vec<Uint8>>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_data_deprecated) = if is_provided {
-                let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+                let (mut tail, array_length) = take_n_bits_into_i64(tail, 5)?;
                 let array_length = array_length as usize;
                 tracing::debug!("Reading array length: {array_length}");
                 let max_initial_capacity =
@@ -12478,7 +12478,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<i64>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_sequence) = if is_provided {
-                let (tail, res) = parse_packed_int(input, 1, 32usize)?;
+                let (tail, res) = parse_packed_int(tail, 1, 32usize)?;
                 (tail, Some(res))
             } else {
                 (tail, None)
-- 
2.43.0


From 4ed922468c26621b2d87956b63400e0820874eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 21/36] fix: do not overflow on position reports with
 out-of-range numbers

---
 src/tracker_events/unit_positions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tracker_events/unit_positions.rs b/src/tracker_events/unit_positions.rs
index b010c75..c33c3b8 100644
--- a/src/tracker_events/unit_positions.rs
+++ b/src/tracker_events/unit_positions.rs
@@ -39,9 +39,9 @@ impl UnitPositionsEvent {
         let mut unit_index = self.first_unit_index as i32;
         let mut res = vec![];
         for relative_unit_pos in self.items.chunks_exact(3) {
-            unit_index += relative_unit_pos[0];
-            let x = relative_unit_pos[1] * 4;
-            let y = relative_unit_pos[2] * 4;
+            unit_index = unit_index.wrapping_add(relative_unit_pos[0]);
+            let x = relative_unit_pos[1].wrapping_mul(4);
+            let y = relative_unit_pos[2].wrapping_mul(4);
             res.push(UnitPosition {
                 tag: unit_index as u32,
                 x,
-- 
2.43.0


From 1c8fda2713f1a6005b7e1f601b96b8094fa69db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 22/36] fix: skip cache handles that are too short instead of
 panicking

---
 src/details.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/details.rs b/src/details.rs
index 595e68f..a50773e 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -81,6 +81,10 @@ impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow {
         let mut cache_handle_region = None;
         let mut cache_handle_extension = None;
         for cache_handle in &source.cache_handles {
+            // Extension, delimiter and region take 16 characters, shorter handles are malformed.
+            if cache_handle.len() < 16 {
+                continue;
+            }
             // 8 characters for the extension
             let (ext_str, remaining) = cache_handle.split_at(8);
             let extension = make_string_from_hex_chars(ext_str);
-- 
2.43.0


From c2a65f44ff9a6a7ddcbc4604c37e14f5dbc9eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 23/36] fix: report archives without user data as an error
 instead of panicking

---
 src/protocol_version_decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol_version_decoder.rs b/src/protocol_version_decoder.rs
index 468c96c..a0b19c8 100644
--- a/src/protocol_version_decoder.rs
+++ b/src/protocol_version_decoder.rs
@@ -53,6 +53,6 @@ pub fn read_protocol_header(mpq: &MPQ) -> S2ProtoResult<&[u8], ReplaySHeader> {
     let user_data = mpq
         .user_data
         .as_ref()
-        .expect("Unable to locate protocol version, missing user data in MPQ");
+        .ok_or_else(|| S2ProtocolError::MissingField("MPQ user data".to_string()))?;
     ReplaySHeader::parse(&user_data.content)
 }
-- 
2.43.0


From 56717972220884d98923cc0939f4f92a12a965be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 24/36] fix: do not panic on replay file names that are not
 UTF-8 when scanning a directory

---
 src/dir_stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dir_stats.rs b/src/dir_stats.rs
index 5b67468..cf96686 100644
--- a/src/dir_stats.rs
+++ b/src/dir_stats.rs
@@ -107,7 +107,7 @@ pub fn try_read_init_data(
     let (_, mpq) = parser::parse(&file_contents)?;
     let source_path: String = source
         .to_str()
-        .expect("Failed to convert file name to str")
+        .ok_or("Failed to convert file name to str")?
         .to_string();
     // NOTE: A fake "ext_fs_id" is created because the current impl is thought
     // of mainly for writing arrow ipc files... Maybe this is not a good idea.
-- 
2.43.0


From 71f0420602d26f9e2f66b011ed5c58b5692cbbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 25/36] fix: report replays with a foreign signature as an
 error instead of panicking

---
 src/versions/mod.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/versions/mod.rs b/src/versions/mod.rs
index f4a0c0c..61a0ce3 100644
--- a/src/versions/mod.rs
+++ b/src/versions/mod.rs
@@ -10,7 +10,20 @@ use nom_mpq::MPQ;
 pub mod protocol75689;
 pub mod protocol87702;
 
-/// Attempts to read the tracker events, panics under unknown protocol
+/// Replays of StarCraft II start with a fixed signature, anything else is not supported.
+fn check_signature(
+    proto_header: &protocol87702::byte_aligned::ReplaySHeader,
+) -> Result<(), S2ProtocolError> {
+    if proto_header.m_signature == b"StarCraft II replay\x1b11"[..] {
+        Ok(())
+    } else {
+        Err(S2ProtocolError::UnsupportedProtocolVersion(
+            proto_header.m_version.m_base_build,
+        ))
+    }
+}
+
+/// Attempts to read the tracker events, fails under unknown protocol
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_tracker_events(
     file_name: &str,
@@ -23,7 +36,7 @@ pub fn read_tracker_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    check_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::ReplayTrackerEEventId::read_tracker_events(
             mpq,
@@ -41,7 +54,7 @@ pub fn read_tracker_events(
     }
 }
 
-/// Attempts to read the game events, panics under unknown protocol
+/// Attempts to read the game events, fails under unknown protocol
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_game_events(
     file_name: &str,
@@ -54,7 +67,7 @@ pub fn read_game_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    check_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEEventId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -63,7 +76,7 @@ pub fn read_game_events(
     }
 }
 
-/// Attempts to read the message events, panics under unknown protocol
+/// Attempts to read the message events, fails under unknown protocol
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_message_events(
     file_name: &str,
@@ -76,7 +89,7 @@ pub fn read_message_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    check_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEMessageId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -85,7 +98,7 @@ pub fn read_message_events(
     }
 }
 
-/// Attempts to read the details, panics under unknown protocol
+/// Attempts to read the details, fails under unknown protocol
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_details(
     file_name: &str,
@@ -98,7 +111,7 @@ pub fn read_details(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    check_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::GameSDetails::read_details(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -120,7 +133,7 @@ pub fn read_init_data(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    check_signature(&proto_header)?;
     let res = match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::ReplaySInitData::read_init_data(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
-- 
2.43.0


From fd371cc19fc3506d5d8c009558974459c5cd7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:45 +0000
Subject: [PATCH 26/36] fix: skip player rows whose date does not fit the Arrow
 timestamp column

---
 src/arrow_store/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/arrow_store/mod.rs b/src/arrow_store/mod.rs
index b86671d..66802f6 100644
--- a/src/arrow_store/mod.rs
+++ b/src/arrow_store/mod.rs
@@ -22,6 +22,21 @@ use std::path::PathBuf;
 pub mod ipc_writer;
 use ipc_writer::*;
 
+/// Returns whether the date of the row fits the nanosecond timestamp column (years 1677 to 2262).
+/// A single row outside of it would otherwise abort the conversion of all the rows.
+fn has_storable_datetime(row: &PlayerLobbyDetailsFlatRow) -> bool {
+    if row.ext_datetime.and_utc().timestamp_nanos_opt().is_none() {
+        tracing::error!(
+            "Skipping {} of {}: date {} cannot be stored",
+            row.player_name,
+            row.ext_fs_file_name,
+            row.ext_datetime
+        );
+        return false;
+    }
+    true
+}
+
 ///  Create a subcommand that handles the max depth and max files to process
 #[derive(Debug, Clone)]
 pub struct WriteArrowIpcProps {
@@ -359,6 +374,7 @@ impl ArrowIpcTypes {
                 };
                 res.into_iter()
                     .map(|d| d.into())
+                    .filter(has_storable_datetime)
                     .collect::<Vec<PlayerLobbyDetailsFlatRow>>()
             })
             .collect();
@@ -394,6 +410,7 @@ impl ArrowIpcTypes {
                 };
                 res.into_iter()
                     .map(|d| d.into())
+                    .filter(has_storable_datetime)
                     .collect::<Vec<PlayerLobbyDetailsFlatRow>>()
             })
             .collect();
-- 
2.43.0


From 798ce7a39d3fd84c5fbfdb3c9e37a5bf79d639d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:45 +0000
Subject: [PATCH 27/36] fix: report negative map sizes as an error

---
 src/cache_handles/map_info.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cache_handles/map_info.rs b/src/cache_handles/map_info.rs
index 6983f24..ff55bec 100644
--- a/src/cache_handles/map_info.rs
+++ b/src/cache_handles/map_info.rs
@@ -77,6 +77,16 @@ impl MapInfo {
                 cell_width.max(cell_height),
             )));
         }
+        if cell_width < 0 || cell_height < 0 {
+            tracing::warn!(
+                "MapInfo cell_width({}) or cell_height({}) is negative",
+                cell_width,
+                cell_height
+            );
+            return Err(S2ProtocolError::Map(MapError::InvalidMapSize(
+                cell_width.min(cell_height),
+            )));
+        }
         let (tail, _unknown_bytes) =
             dbg_peek_hex(take(8usize), "read 8 unknown bytes after cell_height")(tail)?;
         let (tail, _) = dbg_peek_hex(
-- 
2.43.0


From 31046fe25dce55488bcc436b6f2f77733d3844f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:45 +0000
Subject: [PATCH 28/36] fix: return the rest after the fields of a document
 header

---
 src/cache_handles/document_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache_handles/document_header.rs b/src/cache_handles/document_header.rs
index 355ce6a..4371124 100644
--- a/src/cache_handles/document_header.rs
+++ b/src/cache_handles/document_header.rs
@@ -176,7 +176,7 @@ impl DocumentHeader {
             new_tail = tail;
         }
 
-        Ok((tail, res))
+        Ok((new_tail, res))
     }
 }
 
-- 
2.43.0


From 0bab43b53920d2fafd26297c157b6903fc7dd93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:54 +0000
Subject: [PATCH 29/36] fix: name the tag that generated byte-aligned readers
 report

---
 src/generator/decoder_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 6fdf422..cb04bae 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -561,7 +561,7 @@ impl DecoderType {
                             continue;\n\
                         }} else {{\n\
                             tracing::error!(\"Field {field_name} with tag {proto_field_tag} was already provided\");\n\
-                            return Err(S2ProtocolError::DuplicateTag(String::from(\"{field_name}\"), proto_field_tag));\n\
+                            return Err(S2ProtocolError::DuplicateTag(String::from(\"{field_name}\"), field_tag));\n\
                         }}\n\
                     }},\n"
                 ));
@@ -659,7 +659,7 @@ impl DecoderType {
                 "
                 _ => {\n\
                     tracing::error!(\"Unknown tag {field_tag}\");\n\
-                    Err(S2ProtocolError::UnknownTag(variant_tag))\n\
+                    return Err(S2ProtocolError::UnknownTag(field_tag));\n\
                 },\n\
             }\n\
           }",
-- 
2.43.0


From 273811afad5de6e9a82a765581b18a62f964ff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:54 +0000
Subject: [PATCH 30/36] fix: read generated lists with a loop, nom 8 has no
 callable count

---
 src/generator/decoder_type.rs | 59 ++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index cb04bae..3062c3a 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -71,6 +71,24 @@ impl DecoderType {
         format!("}}")
     }
 
+    /// Reads `array_length` elements with `element_parser`, leaving them in `name`.
+    fn array_loop(name: &str, element_parser: &str, do_try_from: bool) -> String {
+        let data = if do_try_from {
+            "<_>::try_from(data)?"
+        } else {
+            "data"
+        };
+        format!(
+            "let mut tail = tail;\n\
+             let mut {name} = vec![];\n\
+             for _ in 0..array_length {{\n\
+             let (new_tail, data) = {element_parser}(tail)?;\n\
+             tail = new_tail;\n\
+             {name}.push({data});\n\
+             }}\n"
+        )
+    }
+
     /// Opens the main parse function for the current DecoderType
     pub fn open_struct_main_parse_fn(
         self,
@@ -596,13 +614,13 @@ impl DecoderType {
                     "let (tail, _) = validate_array_tag(tail)?;\n\
                      let (tail, array_length) = parse_vlq_int(tail)?;\n\
                      tracing::debug!(\"Reading array length: {{array_length}}\");\n\
-                     let (tail, array) = nom::multi::count({field_value_parser}, array_length as usize)(tail)?;\n"
+                     "
                 ));
-                    if morph.do_try_from {
-                        type_impl_def.push_str(
-                            "let array = array.iter().map(|val| <_>::try_from(*val)?).collect();\n",
-                        );
-                    }
+                    type_impl_def.push_str(&Self::array_loop(
+                        "array",
+                        field_value_parser,
+                        morph.do_try_from,
+                    ));
                     type_impl_def.push_str("(tail, Some(array))");
                 } else {
                     type_impl_def
@@ -625,13 +643,13 @@ impl DecoderType {
                 "let (tail, _) = validate_array_tag(input)?;\n\
                  let (tail, array_length) = parse_vlq_int(tail)?;\n\
                  tracing::debug!(\"Reading array length: {{array_length}}\");\n\
-                 let (tail, array) = nom::multi::count({field_value_parser}, array_length as usize)(tail)?;\n"
+                 "
+                ));
+                type_impl_def.push_str(&Self::array_loop(
+                    "array",
+                    field_value_parser,
+                    morph.do_try_from,
                 ));
-                if morph.do_try_from {
-                    type_impl_def.push_str(
-                        "let array = array.iter().map(|val| <_>::try_from(*val)?).collect();\n",
-                    );
-                }
                 type_impl_def.push_str("Ok((tail, array))\n");
             } else if morph.is_sized_int {
                 type_impl_def.push_str(&format!(
@@ -885,15 +903,12 @@ impl DecoderType {
                             "let (tail, array) = take_bit_array(tail, array_length)?;\n"
                         ));
                     } else {
-                        type_impl_def.push_str(&format!(
-                            "let (tail, array) = nom::multi::count({field_value_parser}, array_length)(tail)?;\n"
+                        type_impl_def.push_str(&Self::array_loop(
+                            "array",
+                            field_value_parser,
+                            morph.do_try_from,
                         ));
                     }
-                    if morph.do_try_from {
-                        type_impl_def.push_str(
-                            "let array = array.iter().map(|val| <_>::try_from(*val)?).collect();\n",
-                        );
-                    }
                     type_impl_def.push_str("(tail, Some(array))");
                 } else {
                     if field_value_parser.contains("input,") {
@@ -1519,12 +1534,13 @@ impl DecoderType {
             array_max_value += 1.;
         }
         let array_length_num_bits = (array_max_value.log2() + 1.).floor() as usize;
+        let elements = Self::array_loop("value", &format!("{internal_type}::parse"), false);
         format!(
             "#[tracing::instrument(name=\"{proto_num}::{name}::ArrayType::Parse\", level = \"trace\", skip(input), fields(peek = peek_bits(input)))]\n\
          pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {{\n\
          let array_length_num_bits: usize = {array_length_num_bits};\n\
          let (tail, array_length) = parse_packed_int(input, 0, array_length_num_bits)?;\n\
-         let (tail, value) = nom::multi::count({internal_type}::parse, array_length as usize)(tail)?;\n\
+         {elements}\
          Ok((tail, Self {{ value }}))\n\
          ",
         )
@@ -1541,13 +1557,14 @@ impl DecoderType {
         name: &str,
         internal_type: &str,
     ) -> String {
+        let elements = Self::array_loop("value", &format!("{internal_type}::parse"), false);
         format!(
             "#[tracing::instrument(name=\"{proto_num}::{name}::ArrayType::Parse\", level = \"trace\", skip(input), fields(peek = peek_hex(input)))]\n\
          pub fn parse(input: &[u8]) -> S2ProtoResult<&[u8], Self> {{\n\
                  let (tail, _) = validate_array_tag(input)?;\n\
                  let (tail, array_length) = parse_vlq_int(tail)?;\n\
                  tracing::debug!(\"Reading array length: {{array_length}}\");\n\
-                 let (tail, value) = nom::multi::count({internal_type}::parse, array_length as usize)(tail)?;\n\
+                 {elements}\
                 Ok((tail, Self {{ value }}))\n\
          ",
         )
-- 
2.43.0


From e166bc7512679e6b4be20db698d8cd9fe080979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:55 +0000
Subject: [PATCH 31/36] fix: do not convert generated i64 values to themselves

---
 src/generator/decoder_type.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 3062c3a..b85b8fd 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -152,7 +152,6 @@ impl DecoderType {
             },
             "NNet.Game.TColorId" | "NNet.int64" => ProtoTypeConversion {
                 rust_ty: "i64".to_string(),
-                do_try_from: true,
                 parser: "tagged_vlq_int".to_string(),
                 ..Default::default()
             },
@@ -1278,7 +1277,7 @@ impl DecoderType {
          let offset: i64 = {offset};
          let num_bits: usize = {num_bits};
          let (tail, res) = parse_packed_int(input, offset, num_bits)?;\n\
-         Ok((tail, Self {{ value: <_>::try_from(res)? }}))\n\
+         Ok((tail, Self {{ value: res }}))\n\
          ",
         )
     }
-- 
2.43.0


From 17c96141ab3028ff53e2feadd852a07aba4cccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:14 +0000
Subject: [PATCH 32/36] fix: size the length of generated bit-packed lists by
 their largest length

---
 src/generator/decoder_type.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index b85b8fd..913555c 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -1524,15 +1524,7 @@ impl DecoderType {
         name: &str,
         internal_type: &str,
     ) -> String {
-        let mut array_max_value = bounds["max"]["evalue"]
-            .as_str()
-            .expect("Missing have .max value in ArrayType")
-            .parse::<f32>()
-            .expect(".max value must be parseable usize");
-        if bounds["max"]["inclusive"].as_bool() == Some(true) {
-            array_max_value += 1.;
-        }
-        let array_length_num_bits = (array_max_value.log2() + 1.).floor() as usize;
+        let array_length_num_bits = Self::bounds_max_value_to_bit_size(bounds);
         let elements = Self::array_loop("value", &format!("{internal_type}::parse"), false);
         format!(
             "#[tracing::instrument(name=\"{proto_num}::{name}::ArrayType::Parse\", level = \"trace\", skip(input), fields(peek = peek_bits(input)))]\n\
-- 
2.43.0


From 1439acff6bb8262f063c85f60b802e0ed50a125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:19 +0000
Subject: [PATCH 33/36] fix: generate readers for lists of variable capacity in
 fields

---
 src/generator/decoder_type.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 913555c..7d5782e 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -492,7 +492,9 @@ impl DecoderType {
                 // structure that can be arbirtrary wrapping of types and maybe we should then just
                 // create the serde for the whole protocol file and from there generate the code....
                 // Maybe that's step 2.
-                let enclosed_morph = if field["type_info"]["type_info"]["type"] == "ArrayType" {
+                let enclosed_morph = if field["type_info"]["type_info"]["type"] == "ArrayType"
+                    || field["type_info"]["type_info"]["type"] == "DynArrayType"
+                {
                     // The enclosed type is wrapped in an additional .element_type field.
                     let element_type = field["type_info"]["type_info"]["element_type"]["fullname"]
                         .as_str()
@@ -523,7 +525,9 @@ impl DecoderType {
                 morph.do_try_from = enclosed_morph.do_try_from;
                 morph.is_vec = enclosed_morph.is_vec;
                 morph.is_optional = true;
-            } else if proto_field_type_info == "ArrayType" {
+            } else if proto_field_type_info == "ArrayType"
+                || proto_field_type_info == "DynArrayType"
+            {
                 // The enclosed type is wrapped in an additional .element_type field.
                 let element_type = field["type_info"]["element_type"]["fullname"]
                     .as_str()
@@ -755,6 +759,7 @@ impl DecoderType {
                 // Maybe that's step 2.
                 let enclosed_morph = if type_info_type == "ArrayType"
                     || type_info_type == "BitArrayType"
+                    || type_info_type == "DynArrayType"
                 {
                     // The enclosed type is wrapped in an additional .element_type field.
                     let element_type = if type_info_type == "ArrayType"
-- 
2.43.0


From cdc8c4c4360a320d43a8b8a7cc139463b76bdc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:00 +0000
Subject: [PATCH 34/36] fix: read a negative list length in generated readers
 as too long, not as empty

---
 src/generator/decoder_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 7d5782e..9f467e9 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -81,7 +81,7 @@ impl DecoderType {
         format!(
             "let mut tail = tail;\n\
              let mut {name} = vec![];\n\
-             for _ in 0..array_length {{\n\
+             for _ in 0..array_length as usize {{\n\
              let (new_tail, data) = {element_parser}(tail)?;\n\
              tail = new_tail;\n\
              {name}.push({data});\n\
-- 
2.43.0


From fdba521964cd631c2fbab4db4b0e53e304e16627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:58 +0000
Subject: [PATCH 35/36] fix: generate readers of fixed-size blobs for all of
 their bytes

---
 src/generator/decoder_type.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 9f467e9..0b3bc38 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -1428,7 +1428,13 @@ impl DecoderType {
     ) -> String {
         assert!(bounds["type"] == "ExactConstraint");
         assert!(bounds["min"]["evalue"] == bounds["max"]["evalue"]);
-        let num_bits = Self::bounds_max_value_to_bit_size(bounds);
+        // A blob of a fixed size has no length, all of its bytes follow.
+        let num_bytes = bounds["max"]["evalue"]
+            .as_str()
+            .expect("Missing have .max.evalue string")
+            .parse::<usize>()
+            .expect(".max.evalue must be parseable usize");
+        let num_bits = num_bytes * 8;
         format!(
             "#[tracing::instrument(name=\"{proto_num}::{name}::BlobType::Parse\", level = \"trace\", skip(input), fields(peek = peek_bits(input)))]\n\
          pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {{\n\
-- 
2.43.0


From bced1c304389482bb9a406deac314c95327fd9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:52 +0000
Subject: [PATCH 36/36] fix: size negative integers in fields of generated
 bit-packed structures

---
 src/generator/decoder_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 0b3bc38..57783a8 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -803,6 +803,8 @@ impl DecoderType {
                     let num_bits = Self::bounds_max_value_to_bit_size(
                         &field["type_info"]["type_info"]["bounds"],
                     );
+                    // If the offset is negative, we need to account for one more bit.
+                    let num_bits = num_bits + usize::from(offset.starts_with('-'));
                     tracing::info!("IntType offset: {}, num_bits: {}", offset, num_bits);
                     morph.parser = morph
                         .parser
@@ -837,6 +839,8 @@ impl DecoderType {
                     .as_str()
                     .expect("Field should have .type_info.bounds.min.evalue");
                 let num_bits = Self::bounds_max_value_to_bit_size(&field["type_info"]["bounds"]);
+                // If the offset is negative, we need to account for one more bit.
+                let num_bits = num_bits + usize::from(offset.starts_with('-'));
                 tracing::info!("IntType offset: {}, num_bits: {}", offset, num_bits);
                 morph.parser = morph
                     .parser
-- 
2.43.0

