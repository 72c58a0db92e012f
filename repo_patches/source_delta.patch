From 88dcd273b1a78b20f2d7d36693101fbf903bd285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 01/20] fix: index rectangular boards by their width

The row-major index of a point is row * width + column; the height was used,
so boards with height != width mixed up points or indexed out of the board.
---
 src/pieces/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pieces/util.rs b/src/pieces/util.rs
index c681d4b..8b9083a 100644
--- a/src/pieces/util.rs
+++ b/src/pieces/util.rs
@@ -15,13 +15,13 @@ pub mod coord {
 
     #[inline(always)]
     pub const fn two_to_1dim(size: Size, point: Coord) -> usize {
-        (point.0 as u32 * size.0 as u32 + point.1 as u32) as usize
+        (point.0 as u32 * size.1 as u32 + point.1 as u32) as usize
     }
 
     #[inline(always)]
     pub const fn one_to_2dim(size: Size, index: usize) -> Coord {
         (
-            (index / size.0 as usize) as u8,
+            (index / size.1 as usize) as u8,
             (index % size.1 as usize) as u8,
         )
     }
@@ -30,7 +30,7 @@ pub mod coord {
     macro_rules! one2dim {
         ($size: expr, $index: expr) => {
             (
-                ($index / $size.0 as usize) as u8,
+                ($index / $size.1 as usize) as u8,
                 ($index % $size.1 as usize) as u8,
             )
         };
-- 
2.43.0


From 88262f4af33113527b69b96da0e85babead4a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 02/20] fix: to_vec and matrix return only the points of the
 goban

On boards smaller than 19x19 both appended the unused rest of the storage.
---
 src/pieces/goban.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 0470670..a720f86 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -74,6 +74,12 @@ impl Goban {
         self.size
     }
 
+    /// Number of points of the goban.
+    #[inline]
+    fn length(&self) -> usize {
+        self.size.0 as usize * self.size.1 as usize
+    }
+
     pub fn zobrist_hash(&self) -> u64 {
         self.zobrist_hash
     }
@@ -95,7 +101,7 @@ impl Goban {
 
     /// Returns the underlying goban in a vector with a RowMajor Policy, calculated on the fly.
     pub fn to_vec(&self) -> Vec<MaybeColor> {
-        self.board
+        self.board[..self.length()]
             .iter()
             .map(|point| {
                 point.map_or(EMPTY, |go_str_ptr| {
@@ -108,7 +114,7 @@ impl Goban {
     /// Like vec but in a matrix shape.
     pub fn matrix(&self) -> Vec<Vec<MaybeColor>> {
         let mut mat = vec![];
-        for line in self.board.chunks_exact(self.size.1 as usize) {
+        for line in self.board[..self.length()].chunks_exact(self.size.1 as usize) {
             let v = line
                 .iter()
                 .map(|o| o.map_or(EMPTY, |idx| self.chains[idx].color.into()))
-- 
2.43.0


From 9468ee76f0caf81334ee02816d5c17e52945746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 03/20] fix: get_empty_idx returns the empty points

It returned the occupied ones.
---
 src/pieces/goban.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index a720f86..27f223e 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -372,10 +372,10 @@ impl Goban {
     }
 
     pub fn get_empty_idx(&self) -> impl Iterator<Item = BoardIdx> + '_ {
-        self.board
+        self.board[..self.length()]
             .iter()
             .enumerate()
-            .filter_map(|(idx, group)| group.map(|_| idx))
+            .filter_map(|(idx, group)| group.is_none().then_some(idx))
     }
 
     pub fn get_empty_coords(&self) -> impl Iterator<Item = Coord> + '_ {
-- 
2.43.0


From fb8cc0a372bb35cfd67792ce813cad704fa7591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 04/20] fix: get_coords_by_color lists exactly the points of
 that color

Asking for the empty points returned every point, and on boards of 256
points or more the number of points overflowed its 8 bits (also for
get_stones_by_color).
---
 src/pieces/goban.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 27f223e..5425ef3 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -396,13 +396,9 @@ impl Goban {
     #[inline]
     pub fn get_coords_by_color(&self, color: MaybeColor) -> impl Iterator<Item = Coord> + '_ {
         let mut res = ArrayVec::<Coord, BOARD_MAX_LENGTH>::new();
-        for board_idx in 0..(self.size.0 * self.size.1) as usize {
-            match color {
-                EMPTY => res.push(one_to_2dim(self.size, board_idx)),
-                Some(c) => self.board[board_idx]
-                    .filter(|&chain_idx| self.chains[chain_idx.get() as usize].color == c)
-                    .map(|_| res.push(one_to_2dim(self.size, board_idx)))
-                    .unwrap_or(()),
+        for board_idx in 0..self.length() {
+            if self.get_color(board_idx) == color {
+                res.push(one_to_2dim(self.size, board_idx));
             }
         }
         res.into_iter()
-- 
2.43.0


From 6710e792ad8d3b0dce0a9450961a8a58cac14cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 05/20] fix: pseudo_legals_vec no longer overflows on boards of
 256 points or more

---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 56aea5c..bbc3ee3 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -138,7 +138,7 @@ impl Game {
     /// Get all moves on all empty intersections.
     pub fn pseudo_legals_vec(&self) -> Vec<Coord> {
         let size = self.size();
-        let mut vec = Vec::with_capacity((size.0 * size.1) as usize);
+        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);
         let board = self.goban.board();
         for i in 0..size.0 as Nat {
             for j in 0..size.1 as Nat {
-- 
2.43.0


From 343d128d5d488751106b5c4d98fc847fd7529a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 06/20] fix: play_for_verification removes suicides when they
 are allowed

The flag was inverted: a permitted suicide left the dead group on the
simulated board.
---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index bbc3ee3..c257211 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -203,7 +203,7 @@ impl Game {
         let mut test_goban = self.goban.clone();
         let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);
         test_goban.remove_captured_stones_aux(
-            self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
+            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
             &dead_go_strings,
             added_ren,
         );
-- 
2.43.0


From ae560a9eacfdb168576df37b949ff2861a8d0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 07/20] fix: the super ko rule forbids every repetition of a
 position

Repetitions without a capture, by a suicide, of the current position and
within the first plays of a game were allowed, and a capture at the ko point
was refused as super ko even when it made a new position.
---
 src/rules/game.rs | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index c257211..78b1194 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -2,14 +2,15 @@ use crate::pieces::goban::*;
 use crate::pieces::stones::Color::{Black, White};
 use crate::pieces::stones::{Color, Stone, EMPTY};
 use crate::pieces::util::coord::{corner_points, is_coord_valid, two_to_1dim, Coord, Size};
+use crate::pieces::zobrist::index_zobrist;
 use crate::pieces::{Connections, Nat};
 use crate::rules::EndGame::{Draw, WinnerByScore};
 use crate::rules::Rule;
 use crate::rules::{EndGame, GobanSizes, IllegalRules, Move, ScoreRules};
 use crate::rules::{PlayError, CHINESE};
 use hash_hasher::{HashBuildHasher, HashHasher};
-use indexmap::IndexSet;
-use std::hash::BuildHasherDefault;
+use indexmap::{Equivalent, IndexSet};
+use std::hash::{BuildHasherDefault, Hash, Hasher};
 use std::ops::Deref;
 
 /// Most important struct of the library, it's the entry point.
@@ -28,6 +29,21 @@ pub struct Game {
     pub(super) ko_point: Option<Coord>,
 }
 
+/// Finds a position of the history by its hash alone.
+struct PositionHash(u64);
+
+impl Hash for PositionHash {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        state.write_u64(self.0);
+    }
+}
+
+impl Equivalent<Goban> for PositionHash {
+    fn equivalent(&self, goban: &Goban) -> bool {
+        self.0 == goban.zobrist_hash()
+    }
+}
+
 impl Deref for Game {
     type Target = Goban;
 
@@ -411,15 +427,20 @@ impl Game {
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
     pub fn check_super_ko(&self, stone: Stone) -> bool {
-        if self.history.len() <= 2 || !self.will_capture(stone.coord) {
-            false
-        } else {
-            let to_check = self.play_for_verification(stone.coord);
-            let is_it_ko = self.check_ko(stone);
-                is_it_ko ||  self
-                    .history
-                    .contains(&to_check)
+        if self.goban.get_color(stone.coord).is_some() {
+            return false;
+        }
+        if !self.will_capture(stone.coord) && !self.check_suicide(stone) {
+            // No stone is removed, so the hash of the next position is known without playing.
+            let point = two_to_1dim(self.size(), stone.coord);
+            let hash = self.goban.zobrist_hash() ^ index_zobrist(point, self.turn);
+            if !self.history.contains(&PositionHash(hash)) {
+                return false;
+            }
         }
+        let to_check = self.play_for_verification(stone.coord);
+        // The current position is not yet in the history.
+        to_check == self.goban || self.history.contains(&to_check)
     }
 
     /// Add a stone to the board and then test if the stone or stone group is dead.
-- 
2.43.0


From 83de650fcca7c91dfb55e72821c25ae719dc532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 08/20] fix: a suicide at the ko point is not a ko

The stone that was captured there may be replayed without recapturing when
the capturing group has other liberties; that does not restore the previous
position and is forbidden at most as a suicide.
---
 src/rules/game.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 78b1194..157d98e 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -413,16 +413,19 @@ impl Game {
 
     /// Test if a play is ko.
     /// If the goban is in the configuration of two plays ago returns true
-    /// If the move captures more than 1 stone then it's not a ko.
+    /// If the move doesn't capture exactly 1 stone then it's not a ko.
     pub fn check_ko(&self, stone: Stone) -> bool {
         self.ko_point == Some(stone.coord)
-            && !self
+            && self
                 .goban
                 .get_connected_groups(stone.coord)
                 .into_iter()
-                .any(|neighbor_go_string| {
-                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1
+                .filter(|neighbor_go_string| {
+                    neighbor_go_string.color != stone.color && neighbor_go_string.is_atari()
                 })
+                .map(|captured| captured.num_stones)
+                .sum::<u16>()
+                == 1
     }
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
-- 
2.43.0


From 679e15712fa872bb6df65dc3828376a6ce56e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 09/20] fix: reuse the slots of removed groups

Slots were only ever appended, so every game or goban panicked once 65535
groups had been created, and copies grew with the length of the game.
---
 src/pieces/group.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index f5220bc..e020bdd 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -214,8 +214,13 @@ impl Groups {
     }
 
     pub fn put_free_spot(&mut self, group: Group) -> GroupIdx {
-        self.0.push(Some(group));
-        self.0.len() - 1
+        if let Some(index) = self.0.iter().position(Option::is_none) {
+            self.0[index] = Some(group);
+            index
+        } else {
+            self.0.push(Some(group));
+            self.0.len() - 1
+        }
     }
 
     pub fn remove(&mut self, index: usize) {
-- 
2.43.0


From f49f5a90551ae6ede3de6d6c7ca955b35a6cc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 10/20] fix: refuse points outside the goban in release builds
 too

Without debug assertions a stone or move outside the goban was put on another
point, or recorded in the history before the panic.
---
 src/pieces/goban.rs | 13 ++-----------
 src/pieces/util.rs  | 11 +++++++++++
 src/rules/game.rs   |  9 ++++++++-
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 5425ef3..24fda81 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -5,7 +5,7 @@ use crate::pieces::group::CircularGroupIter;
 use crate::pieces::group::{merge, set, Group, Groups, Liberties, EMPTY_LIBERTIES};
 use crate::pieces::stones::*;
 use crate::pieces::util::coord::{
-    one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size,
+    assert_in_board, one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size,
 };
 use crate::pieces::zobrist::*;
 use crate::pieces::{Connections, Nat};
@@ -160,6 +160,7 @@ impl Goban {
         point: Coord,
         color: Color,
     ) -> (ArrayVec<usize, 4>, GroupIdx) {
+        assert_in_board(self.size, point);
         let pushed_stone_idx = two_to_1dim(self.size, point);
 
         let mut adjacent_same_color_str_set = ArrayVec::<BoardIdx, 4>::new();
@@ -279,16 +280,6 @@ impl Goban {
     /// # Panics
     /// if the point is out of bounds
     pub fn push(&mut self, point: Coord, color: Color) -> &mut Self {
-        debug_assert!(
-            (point.0) < self.size.0,
-            "Coordinate point.0 {} out of bounds",
-            point.0
-        );
-        debug_assert!(
-            (point.1) < self.size.1,
-            "Coordinate point.1 {} out of bounds",
-            point.1
-        );
         self.push_wth_feedback(point, color);
         self
     }
diff --git a/src/pieces/util.rs b/src/pieces/util.rs
index 8b9083a..34c5ed5 100644
--- a/src/pieces/util.rs
+++ b/src/pieces/util.rs
@@ -13,6 +13,16 @@ pub mod coord {
         (coord.0) < height && (coord.1) < width
     }
 
+    /// # Panics
+    /// if the point is outside the board
+    #[inline(always)]
+    pub(crate) fn assert_in_board(size: Size, point: Coord) {
+        assert!(
+            is_coord_valid(size, point),
+            "The point {point:?} is outside the board of size {size:?}"
+        );
+    }
+
     #[inline(always)]
     pub const fn two_to_1dim(size: Size, point: Coord) -> usize {
         (point.0 as u32 * size.1 as u32 + point.1 as u32) as usize
@@ -85,6 +95,7 @@ pub mod coord {
 
     impl IntoIdx for Coord {
         fn into_idx(self, size: Size) -> BoardIdx {
+            assert_in_board(size, self);
             two_to_1dim(size, self)
         }
     }
diff --git a/src/rules/game.rs b/src/rules/game.rs
index 157d98e..ba68a07 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -1,7 +1,9 @@
 use crate::pieces::goban::*;
 use crate::pieces::stones::Color::{Black, White};
 use crate::pieces::stones::{Color, Stone, EMPTY};
-use crate::pieces::util::coord::{corner_points, is_coord_valid, two_to_1dim, Coord, Size};
+use crate::pieces::util::coord::{
+    assert_in_board, corner_points, is_coord_valid, two_to_1dim, Coord, Size,
+};
 use crate::pieces::zobrist::index_zobrist;
 use crate::pieces::{Connections, Nat};
 use crate::rules::EndGame::{Draw, WinnerByScore};
@@ -196,6 +198,7 @@ impl Game {
                 self
             }
             Move::Play(x, y) => {
+                assert_in_board(self.size(), (x, y));
                 //let hash = self.goban.zobrist_hash();
                 self.history.insert(self.goban.clone());
                 let (dead_rens, added_ren) = self.goban.push_wth_feedback((x, y), self.turn);
@@ -234,6 +237,10 @@ impl Game {
     /// If the move is a Ko Move returns Ko
     /// if point is already filled then return PointNotEmpty
     /// If the game is paused then return GamePaused
+    ///
+    /// # Panics
+    ///
+    /// If the coordinates of the move are outside the board.
     pub fn try_play(&mut self, play: Move) -> Result<&mut Self, PlayError> {
         if self.passes == 2 {
             Err(PlayError::GamePaused)
-- 
2.43.0


From 0455ed70b4b65877864d6946170e005ce5e04fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 11/20] fix: check_eye does not depend on the order of the
 corners

The first promising empty corner decided before the others were looked at,
so the same shape was an eye in one orientation and not in another.
---
 src/rules/game.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index ba68a07..b4decae 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -399,16 +399,16 @@ impl Game {
         // If one corner or 2 are not allied corners then we need to test if the remaining corners are an eye.
         // We cannot call this function recursively because fo complexity with loops.
         if [3, 2].contains(&total_corners) {
-            for coord in empty_corners {
-                // We test the cross again for the empty corner
-                if self
-                    .goban
-                    .get_connected_stones(coord)
-                    .any(move |s| s.color != color)
-                {
-                    return false;
-                }
-                let (ca, cof, _emc) = self.helper_check_eye(coord, color);
+            // We test the cross again for the empty corners
+            if empty_corners.iter().any(|&corner| {
+                self.goban
+                    .get_connected_stones(corner)
+                    .any(|s| s.color != color)
+            }) {
+                return false;
+            }
+            for corner in empty_corners {
+                let (ca, cof, _emc) = self.helper_check_eye(corner, color);
                 let c = ca.len() + cof.len();
                 if c == 3 || c == 2 {
                     return true;
-- 
2.43.0


From 1bce6efb3d17abab1481ec434c9b6246a0eba34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 12/20] fix: refuse custom sizes of 256 and more

They were cut down to their lowest 8 bits: a goban of 265x9 became 9x9.
---
 src/rules/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rules/mod.rs b/src/rules/mod.rs
index 9a0b8e1..0ff9af4 100644
--- a/src/rules/mod.rs
+++ b/src/rules/mod.rs
@@ -26,7 +26,10 @@ impl From<GobanSizes> for Size {
             GobanSizes::Nine => (9, 9),
             GobanSizes::Thirteen => (13, 13),
             GobanSizes::Nineteen => (19, 19),
-            GobanSizes::Custom(height, width) => (height as u8, width as u8),
+            GobanSizes::Custom(height, width) => (
+                height.try_into().expect("The height of the goban is too large"),
+                width.try_into().expect("The width of the goban is too large"),
+            ),
         }
     }
 }
-- 
2.43.0


From 249c766f4b1770b9ef14a42614237616b22a0022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 13/20] fix: chain_stones accepts the coordinates of a stone

The index of the point was taken for the index of the chain, so another
chain was listed or it panicked.
---
 src/pieces/goban.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 24fda81..db51f8b 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -34,6 +34,24 @@ pub struct Goban {
     zobrist_hash: u64,
 }
 
+/// Designates a chain, by its index or by the coordinates of one of its stones.
+pub trait IntoGroupIdx {
+    fn into_group_idx(self, goban: &Goban) -> GroupIdx;
+}
+
+impl IntoGroupIdx for GroupIdx {
+    fn into_group_idx(self, _goban: &Goban) -> GroupIdx {
+        self
+    }
+}
+
+impl IntoGroupIdx for Coord {
+    fn into_group_idx(self, goban: &Goban) -> GroupIdx {
+        let chain_idx = goban.board[self.into_idx(goban.size)];
+        chain_idx.expect("There is no chain at this point").get() as usize
+    }
+}
+
 impl From<&[MaybeColor]> for Goban {
     fn from(stones: &[MaybeColor]) -> Self {
         let size = (stones.len() as f32).sqrt() as u8;
@@ -89,9 +107,12 @@ impl Goban {
         self.chains.iter()
     }
 
-    pub fn chain_stones(&self, idx: impl IntoIdx) -> impl Iterator<Item = Stone> + '_ {
-        let idx = idx.into_idx(self.size);
-        let chain = self.chains[idx];
+    /// Returns the stones of a chain.
+    ///
+    /// # Panics
+    /// if there is no such chain
+    pub fn chain_stones(&self, idx: impl IntoGroupIdx) -> impl Iterator<Item = Stone> + '_ {
+        let chain = self.chains[idx.into_group_idx(self)];
         let color = chain.color;
         chain.iter(&self.next_stone).map(move |e| Stone {
             coord: one_to_2dim(self.size, e),
-- 
2.43.0


From c1526e5a31fd39af76e6b470e7ef5db7b507cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 14/20] fix: from_sgf reads SZ[columns:rows] in that order

Rectangular records were imported with rows and columns exchanged, so their
stones and moves fell outside the goban.
---
 src/rules/sgf_bridge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 9acad92..a597cd0 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -28,7 +28,8 @@ impl Game {
                             game_builder.komi(*komi);
                         }
                         SgfToken::Size(x, y) => {
-                            game_builder.size((*x as u8, *y as u8));
+                            // columns, rows
+                            game_builder.size((*y as u8, *x as u8));
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
-- 
2.43.0


From 0b4c7ef6c9e3e232e2157be11f6893c4738b11a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 15/20] fix: from_sgf plays every move of the main line with
 its color

Moves that were not the first property of their node or stood in the root
were skipped, and the recorded color was ignored, which shifted the colors of
all later moves.
---
 src/rules/sgf_bridge.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index a597cd0..b07ee1f 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -76,15 +76,21 @@ impl Game {
                     }
                 }
                 first = false;
-            } else if !node.tokens.is_empty() {
-                let token = node.tokens.first().unwrap();
-                if let SgfToken::Move { action, .. } = token {
-                    moves.push((*action).into());
+            }
+            // The move can stand anywhere in the node, the root node included
+            for token in &node.tokens {
+                if let SgfToken::Move { color, action } = token {
+                    moves.push((Color::from(*color), Move::from(*action)));
                 }
             }
         }
-        game_builder.moves(&moves);
-        game_builder.build()
+        let mut game = game_builder.build()?;
+        for (color, play) in moves {
+            // The colors don't always alternate
+            game.turn = color;
+            game.play(play);
+        }
+        Ok(game)
     }
 }
 
-- 
2.43.0


From 30fef7a5f2cbd71b8c7da9ae77afabe0295a079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:45 +0000
Subject: [PATCH 16/20] fix: from_sgf returns an error for records it can't
 import

Unsupported rule sets, other games, unknown players and points outside the
goban panicked (also B[tt], a pass); sizes were cut down to 8 bits, invalid
moves, stones and sizes were skipped, stones on occupied points corrupted the
goban and stones set up after the first node were dropped.
---
 src/rules/sgf_bridge.rs | 135 ++++++++++++++++++++++++++--------------
 1 file changed, 90 insertions(+), 45 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index b07ee1f..62c5625 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -1,6 +1,9 @@
+use std::collections::HashSet;
+
 use sgf_parser::{Action, Outcome, RuleSet, SgfToken};
 
 use crate::pieces::stones::{Color, Stone};
+use crate::pieces::util::coord::{is_coord_valid, Coord, Size};
 use crate::pieces::Nat;
 use crate::rules::game::Game;
 use crate::rules::game_builder::GameBuilder;
@@ -9,83 +12,115 @@ use crate::rules::{EndGame, Move, Rule, CHINESE, JAPANESE};
 type SgfColor = sgf_parser::Color;
 
 impl Game {
+    /// Imports the main line of an SGF record.
+    ///
+    /// # Errors
+    ///
+    /// If the text isn't a valid SGF record of Go, or uses something that isn't supported:
+    /// an unknown rule set, a goban larger than 19x19, stones outside the goban or on occupied
+    /// points, stones that are set up after the first node.
     pub fn from_sgf(sgf_str: &str) -> Result<Self, String> {
         let game_tree = match sgf_parser::parse(sgf_str) {
             Ok(game) => Ok(game),
             Err(e) => Err(e.to_string()),
         }?;
         let mut game_builder: GameBuilder = Default::default();
+        let mut size = (19, 19);
+        let mut setup = vec![];
         let mut first = true;
         let mut moves = vec![];
 
         for node in game_tree.iter() {
-            if first {
-                // first token if the root token
-                // Game information
-                for token in &node.tokens {
-                    match token {
+            for token in &node.tokens {
+                match token {
+                    // The move can stand anywhere in the node, the root node included
+                    SgfToken::Move { color, action } => {
+                        moves.push((Color::from(*color), *action));
+                    }
+                    SgfToken::Add { color, coordinate } if first => {
+                        setup.push((*coordinate, Color::from(*color)));
+                    }
+                    SgfToken::Add { .. } => {
+                        return Err("Setting stones up during the game is not supported".into());
+                    }
+                    SgfToken::Unknown((key, _)) if key == "AE" && !first => {
+                        return Err("Removing stones during the game is not supported".into());
+                    }
+                    SgfToken::Invalid((key, value)) => {
+                        let key: String = key.chars().filter(|c| c.is_uppercase()).collect();
+                        if ["B", "W", "AB", "AW", "SZ", "GM"].contains(&key.as_str()) {
+                            return Err(format!("Invalid or unsupported property {key}[{value}]"));
+                        }
+                    }
+                    // first token if the root token
+                    // Game information
+                    _ if first => match token {
                         SgfToken::Komi(komi) => {
                             game_builder.komi(*komi);
                         }
-                        SgfToken::Size(x, y) => {
-                            // columns, rows
-                            game_builder.size((*y as u8, *x as u8));
+                        SgfToken::Size(columns, rows) => {
+                            if !(1..=19).contains(columns) || !(1..=19).contains(rows) {
+                                return Err(format!("Unsupported size {columns}x{rows}"));
+                            }
+                            size = (*rows as Nat, *columns as Nat);
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
                         }
-                        SgfToken::Add {
-                            color,
-                            coordinate: (x, y),
-                        } => {
-                            game_builder.add(Stone {
-                                coord: ((*y - 1) as Nat, (*x - 1) as Nat),
-                                color: match color {
-                                    SgfColor::Black => Color::Black,
-                                    SgfColor::White => Color::White,
-                                },
-                            });
+                        SgfToken::Rule(rule @ (RuleSet::Japanese | RuleSet::Chinese)) => {
+                            game_builder.rule(rule.clone().into());
                         }
                         SgfToken::Rule(rule) => {
-                            game_builder.rule(rule.clone().into());
+                            return Err(format!("The rule {rule:?} is not implemented yet !"));
                         }
                         SgfToken::Handicap(handicap) => {
                             game_builder.handicap(*handicap);
                         }
-                        SgfToken::Game(go) => {
-                            assert_eq!(*go, sgf_parser::Game::Go);
+                        SgfToken::Game(sgf_parser::Game::Go) => (),
+                        SgfToken::Game(game) => {
+                            return Err(format!("The record is not a game of Go: {game:?}"));
+                        }
+                        SgfToken::Unknown((key, value)) if key == "PL" => {
+                            match value.as_str() {
+                                "B" => game_builder.turn(Color::Black),
+                                "W" => game_builder.turn(Color::White),
+                                _ => return Err(format!("Invalid player PL[{value}]")),
+                            };
                         }
 
                         //TODO another options
                         _ => (),
-                    }
-                    for tokens in node.get_unknown_tokens() {
-                        if let SgfToken::Unknown((key, value)) = tokens {
-                            if key.as_str() == "PL" {
-                                match value.as_str() {
-                                    "B" => {
-                                        game_builder.turn(Color::Black);
-                                    }
-                                    "W" => {
-                                        game_builder.turn(Color::White);
-                                    }
-                                    _ => unreachable!(),
-                                }
-                            }
-                        }
-                    }
+                    },
+                    _ => (),
                 }
-                first = false;
             }
-            // The move can stand anywhere in the node, the root node included
-            for token in &node.tokens {
-                if let SgfToken::Move { color, action } = token {
-                    moves.push((Color::from(*color), Move::from(*action)));
-                }
+            first = false;
+        }
+
+        game_builder.size(size);
+        let mut occupied = HashSet::new();
+        for ((column, line), color) in setup {
+            let coord = point(size, column, line)?;
+            if !occupied.insert(coord) {
+                return Err(format!("More than one stone is set up on {coord:?}"));
             }
+            game_builder.add(Stone { coord, color });
         }
+
         let mut game = game_builder.build()?;
-        for (color, play) in moves {
+        for (color, action) in moves {
+            let play = match action {
+                // FF[3] wrote a pass as a move on "tt"
+                Action::Pass | Action::Move(20, 20) => Move::Pass,
+                Action::Move(column, line) => point(size, column, line)?.into(),
+            };
+            match play {
+                Move::Pass if game.passes >= 2 => continue,
+                Move::Play(x, y) if game.get_color((x, y)).is_some() => {
+                    return Err(format!("The point {:?} is already occupied", (x, y)));
+                }
+                _ => (),
+            }
             // The colors don't always alternate
             game.turn = color;
             game.play(play);
@@ -94,6 +129,16 @@ impl Game {
     }
 }
 
+/// Converts SGF coordinates, which start at 1.
+fn point(size: Size, column: u8, line: u8) -> Result<Coord, String> {
+    let coord = (line.wrapping_sub(1), column.wrapping_sub(1));
+    if is_coord_valid(size, coord) {
+        Ok(coord)
+    } else {
+        Err(format!("The point {coord:?} is outside the goban"))
+    }
+}
+
 impl From<RuleSet> for Rule {
     fn from(r: RuleSet) -> Self {
         match r {
-- 
2.43.0


From 4929b01af1dc885f792f79ca3070c7e89119cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 17/20] fix: from_sgf returns an error for records that play a
 suicide

Both supported rule sets forbid it; a group without liberties was left on the
goban.
---
 src/rules/sgf_bridge.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 62c5625..69a8fef 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -7,7 +7,7 @@ use crate::pieces::util::coord::{is_coord_valid, Coord, Size};
 use crate::pieces::Nat;
 use crate::rules::game::Game;
 use crate::rules::game_builder::GameBuilder;
-use crate::rules::{EndGame, Move, Rule, CHINESE, JAPANESE};
+use crate::rules::{EndGame, IllegalRules, Move, Rule, CHINESE, JAPANESE};
 
 type SgfColor = sgf_parser::Color;
 
@@ -114,15 +114,18 @@ impl Game {
                 Action::Pass | Action::Move(20, 20) => Move::Pass,
                 Action::Move(column, line) => point(size, column, line)?.into(),
             };
+            // The colors don't always alternate
+            game.turn = color;
             match play {
                 Move::Pass if game.passes >= 2 => continue,
-                Move::Play(x, y) if game.get_color((x, y)).is_some() => {
-                    return Err(format!("The point {:?} is already occupied", (x, y)));
+                Move::Play(x, y) => {
+                    // Repetitions are taken as they are, the record may follow another ko rule
+                    if let Some(e) = game.check_point_by((x, y), IllegalRules::SUICIDE) {
+                        return Err(format!("Illegal move on {:?}: {e:?}", (x, y)));
+                    }
                 }
                 _ => (),
             }
-            // The colors don't always alternate
-            game.turn = color;
             game.play(play);
         }
         Ok(game)
-- 
2.43.0


From a3063fa6843538ba80ad320181bd0c763326efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 18/20] fix: get_floating_stones returns the groups without two
 eyes

---
 src/rules/dead_stones.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 83e9af4..1c20530 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -141,27 +141,23 @@ impl Game {
                 color: Color::White,
             })
         });
-        let mut chains_wth_eye = HashMap::new();
+        let mut eyes_by_chain: HashMap<GroupIdx, usize> = HashMap::new();
         for eye_coord in eyes {
-            let chain_connected_eye = self.goban.get_connected_groups_idx(eye_coord);
-            for chain_idx in chain_connected_eye {
-                chains_wth_eye
-                    .entry(chain_idx)
-                    .and_modify(|v| *v += 1)
-                    .or_insert(0);
+            for chain_idx in self.goban.get_connected_groups_idx(eye_coord) {
+                *eyes_by_chain.entry(chain_idx).or_insert(0) += 1;
             }
         }
-        let all_chains = self.goban.chains().enumerate();
-        let string_with_2eyes = chains_wth_eye
-            .into_iter()
-            .filter(|(_, v)| *v >= 2)
-            .map(|x| x.0)
-            .collect::<HashSet<_>>();
-
-        all_chains
-            .filter(|(idx, _chain)| string_with_2eyes.contains(idx))
-            .map(|(idx, _chain)| idx)
-            .collect()
+        let mut floating: Vec<GroupIdx> = self
+            .goban
+            .board()
+            .iter()
+            .flatten()
+            .map(|chain_idx| chain_idx.get() as GroupIdx)
+            .filter(|chain_idx| eyes_by_chain.get(chain_idx).map_or(true, |&eyes| eyes < 2))
+            .collect();
+        floating.sort_unstable();
+        floating.dedup();
+        floating
     }
 
     pub fn dead_stones_wth_simulations(&self, nb_simulations: usize) -> HashSet<GroupIdx> {
-- 
2.43.0


From cdced958b34d2bfa3d5240bf5520ce280d85dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 19/20] fix: a drawn playout no longer panics the dead stones
 search

---
 src/rules/dead_stones.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 1c20530..d713a2c 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -79,8 +79,9 @@ impl Evaluator<Game, Reward, ()> for Eval {
     }
 
     fn evaluate_leaf(child: Game, turn: &<Game as GameTrait>::Player) -> Self::EvalResult {
-        let winner = child.get_winner();
-        if winner == *turn {
+        // A playout can end in a draw, then nobody is rewarded.
+        let winner = child.outcome().and_then(|outcome| outcome.get_winner());
+        if winner == Some(*turn) {
             1
         } else {
             0
-- 
2.43.0


From e07c7cbc320be2e38925c5b737b26798a9956b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 20/20] fix: the iterator over a chain's stones announced its
 full length after having been advanced

---
 src/pieces/group.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index e020bdd..5fd48f6 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -263,6 +263,9 @@ impl Iterator for CircularGroupIter<'_> {
             panic!("infinite loop detected")
         }
 
+        // what is left, for the size hint
+        self.num_stones = self.num_stones.saturating_sub(ret.is_some() as u16);
+
         ret
     }
 
-- 
2.43.0

