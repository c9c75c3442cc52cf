From 2c1d4060e355aa8ab04f4de906b009814153a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 01/24] fix: a discarded tile number 0 is no longer unseen

---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 7a6a7f2..94f5641 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -188,7 +188,7 @@ class InvisibleTiles(GameState):
             return brand
 
         discard_val = discard_value(event)
-        if discard_val:
+        if discard_val is not None:
             return InvisibleTiles(self._player_num, self._invisible_tiles - {discard_val})
         elif is_open_hand(event):
             return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
-- 
2.43.0


From a61ffe2cfcb9a18700dc7f8f93e6c14adf38d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 02/24] fix: three-player unseen tiles hold tile numbers for 1m
 and 9m

---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 94f5641..4998032 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -174,7 +174,7 @@ class InvisibleTiles(GameState):
             if player_num == 4:
                 invisible_tiles = set(range(tile_total))
             elif player_num == 3:
-                color_1m_9m = ((0, num, i) for num, i in product([1 - 1, 9 - 1], range(4)))
+                color_1m_9m = (TENHOU_TILE_CATEGORY.index((0, num, i)) for num, i in product([1 - 1, 9 - 1], range(4)))
                 others = range(TENHOU_TILE_CATEGORY.index((1, 0, 0)), tile_total)
                 invisible_tiles = set(chain(color_1m_9m, others))
         self._invisible_tiles = invisible_tiles
-- 
2.43.0


From 2ec58d4a898613ee947fbb700ee8ce3f9806d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 03/24] fix: number range of a red five is that of the fives of
 its suit

---
 mahjong/record/utils/value/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/value/tile.py b/mahjong/record/utils/value/tile.py
index d4107c3..3c7aa95 100644
--- a/mahjong/record/utils/value/tile.py
+++ b/mahjong/record/utils/value/tile.py
@@ -20,6 +20,6 @@ def tile_from_tenhou(index):
 
 def tile_to_tenhou_range(tile: Tile):
     color = SUIT_ORDER.index(tile.color)
-    number = tile.number - 1
+    number = (5 if tile.number == 0 else tile.number) - 1
     start_tile, end_tile = (TENHOU_TILE_CATEGORY.index(t) for t in [(color, number, 0), (color, number, 3)])
     return range(start_tile, end_tile + 1)
-- 
2.43.0


From fafd745a240bdac9b9ce550975114b208dcfae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 04/24] fix: MixedCategory decodes and encodes with the part
 the index belongs to

---
 mahjong/record/category.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 27f80c0..61b7e3b 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -60,13 +60,13 @@ class MixedCategory(Category):
         belongs = self.category_list[belongs_id]
         if self._merged_category_classes:
             belongs_class = self._merged_category_classes[belongs_id]
-        sub_id = belongs.category(index - self._accumulate_range[category])
+        sub_id = belongs.category(index - self._accumulate_range[belongs_id])
         concated = (belongs_id,) + sub_id
         return concated if self._merged_category_classes is None else belongs_class(*concated)
 
     def index(self, category_tuple):
         category, *sub_id = category_tuple
-        return self._accumulate_range[category] + self.category_list[category - 1].index(tuple(sub_id))
+        return self._accumulate_range[category] + self.category_list[category].index(tuple(sub_id))
 
 
 class SubCategory(Category):
-- 
2.43.0


From 77b8fadd56193d18adb630a5abdb1d481c572676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 05/24] fix: repr of an event does not raise

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 1712e41..5d7c0b1 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -100,7 +100,7 @@ class TenhouEvent:
         return getattr(self._wrapped_xml_event, name)
 
     def __repr__(self):
-        return "[%s]:%s" % self, self._wrapped_xml_event
+        return "[%s]:%s" % (self, self._wrapped_xml_event)
 
     @property
     def meta_attribute(self):
-- 
2.43.0


From 0455ff13e63eafc2c5977d22be10e7c88d13175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 06/24] fix: new dora rows of the flat export hold text like
 every other row

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 5d7c0b1..238f479 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -232,7 +232,7 @@ class TenhouEvent:
 
         if is_dora_indicator_event(event):
             tile = tile_from_tenhou(int(attrs['hai']))
-            return [{'event_type': 'DORA', 'player': '0', 'player_see': tile, 'player_show': tile}]
+            return [{'event_type': 'DORA', 'player': '0', 'player_see': str(tile), 'player_show': str(tile)}]
 
         if is_somebody_win_game(event):
             player = attrs['who']
-- 
2.43.0


From 3678ff13f2a4254a847f1bf0d3c81d9b785ee7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 07/24] fix: han counts are not scoring elements

---
 mahjong/record/universe/tenhou/event_definition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/event_definition.py b/mahjong/record/universe/tenhou/event_definition.py
index 8762e8e..e655dd8 100644
--- a/mahjong/record/universe/tenhou/event_definition.py
+++ b/mahjong/record/universe/tenhou/event_definition.py
@@ -255,7 +255,9 @@ def agari_command(event: TenhouEvent, ctx):
     with cmd.when(update=Update.REPLACE):
         yield cmd(prop=GameView.nobody_win, value=False)
     attr = event.attrib
-    yaku = list(map(lambda t: SCORE_PATTERN[t], number_list(attr.get("yaku", attr.get("yakuman")))))
+    # "yaku" lists pairs of (yaku, han), "yakuman" lists yaku only.
+    yaku_ids = number_list(attr["yaku"])[::2] if "yaku" in attr else number_list(attr["yakuman"])
+    yaku = list(map(lambda t: SCORE_PATTERN[t], yaku_ids))
     yield from game_finish(cmd, ctx, from_player_id, player_id, sc_list, yaku, event)
 
 
-- 
2.43.0


From 2b505b2da4b0088912040b12b39db93e48a5d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 08/24] fix: discards of a complete hand are analysed too

---
 mahjong/container/pattern/reasoning.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index faafa6d..0dad7ab 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -175,6 +175,11 @@ class HeuristicPatternMatchWaiting(Waiting):
                 all_hand_cnt[can_pick_tile].update(borrows)
         for tile, hand_useful in all_hand_cnt.items():
             yield tile, waiting_step, hand_useful
+        if not all_hand_cnt:  # the win uses every tile, so each discard has to be looked at on its own.
+            discards = [(tile,) + self.waiting_and_useful_tiles(hand - TileSet([tile]), ignore_4counts)
+                        for tile in hand]
+            best_step = min((step for _, step, _ in discards), default=waiting_step)
+            yield from (discard for discard in discards if discard[1] == best_step)
 
     def count_hand_borrow_combinition_iter(self, hand, ignore_4counts, self_waiting):
         borrows = self.init_search_by_hand(hand)
-- 
2.43.0


From 0ae710157d9e15f0051f441939ae6f1f45addd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 09/24] fix: a complete hand needs no tile in
 PatternMatchWaiting

---
 mahjong/container/pattern/reasoning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index 0dad7ab..85082bc 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -85,11 +85,13 @@ class PatternMatchWaiting(Waiting):
 
         for need_tile_count in count(0):
             useful_tiles = set()
+            found = False
             for pattern, borrowed in self._win_selections_in_tiles(hand, need_tile_count, ignore_4counts,
                                                                    self.win_pattern, borrow_limit,
                                                                    TileDistribution.ALL_TILES.copy()):
+                found = True
                 useful_tiles.update(borrowed)
-            if len(useful_tiles) > 0:
+            if found:
                 return need_tile_count - 1, useful_tiles
 
     def useful_tiles(self, hand: TileSet, ignore_4counts=True):
-- 
2.43.0


From dcd22e0b306140ec904c797feb9ab2b2875fa087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 10/24] fix: ignore_4counts=False is honoured by every
 evaluator

---
 mahjong/container/pattern/reasoning.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index 85082bc..856f14f 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -36,14 +36,15 @@ class BruteForceWaiting(Waiting):
         for need_tiles in count(1):
             for tiles in product(TileDistribution.ALL_TILES, repeat=need_tiles):
                 added_hand = hand + TileSet(tiles)
-                if (ignore_4counts and all(v <= 4 for v in added_hand.values())) and self.win_pattern.match(added_hand):
+                if (not ignore_4counts or all(v <= 4 for v in added_hand.values())) \
+                        and self.win_pattern.match(added_hand):
                     return need_tiles - 1
 
     def useful_tiles(self, hand: TileSet, ignore_4counts=True):
-        self_waiting = self.before_waiting_step(hand)
+        self_waiting = self.before_waiting_step(hand, ignore_4counts)
         return set(tile for tile in TileDistribution.ALL_TILES if
-                   (ignore_4counts and hand[tile] < 4) and
-                   self.before_waiting_step(hand + TileSet([tile])) < self_waiting)
+                   (not ignore_4counts or hand[tile] < 4) and
+                   self.before_waiting_step(hand + TileSet([tile]), ignore_4counts) < self_waiting)
 
 
 def borrowed_limit(hand):
@@ -161,13 +162,13 @@ class HeuristicPatternMatchWaiting(Waiting):
 
     def waiting_and_useful_tiles(self, hand, ignore_4counts=True):
         logging.debug("finding waiting step")
-        self_waiting = self.before_waiting_step(hand)
+        self_waiting = self.before_waiting_step(hand, ignore_4counts)
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, self_waiting)
 
         return self_waiting, set(tile for _, _, borrows in result_iter for tile in borrows)
 
     def batch_waiting_and_useful_tiles(self, hand, ignore_4counts=True):
-        waiting_step = self.before_waiting_step(hand)
+        waiting_step = self.before_waiting_step(hand, ignore_4counts)
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, waiting_step)
         all_hand_cnt = defaultdict(set)
         for _, sub_win, borrows in result_iter:
-- 
2.43.0


From 3bd18946a03fb7e194c5875924070884a8314065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 11/24] fix: shanten number of hands shorter than the tiles
 they miss

---
 mahjong/container/pattern/reasoning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index 856f14f..c2db7d8 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -132,7 +132,7 @@ class HeuristicPatternMatchWaiting(Waiting):
         self.borrowed_count = None
 
     def before_waiting_step(self, hand: TileSet, ignore_4counts=True):
-        self.max_used_tiles = sum(hand.values())
+        self.max_used_tiles = self.win_pattern.need_count()
 
         borrows = self.init_search_by_hand(hand)
 
-- 
2.43.0


From 9e4a8cd52a0e432236635c33b9053ae85c1c95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 12/24] fix: report merges the analyses of the same discard,
 and shows each of them

---
 mahjong/tenhou_record_check.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 31cbca9..c9847be 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -7,8 +7,9 @@ import sys
 import pkg_resources
 
 from loguru import logger
+from collections import defaultdict
 from functools import reduce
-from itertools import groupby, product
+from itertools import chain, groupby, product
 from typing import Set, List, Callable, TypeVar, Optional
 
 from jinja2 import Environment, select_autoescape, PackageLoader, FileSystemLoader
@@ -230,10 +231,13 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     reasoning_names = ["normal_reasonings", "seven_pair_reasonings"]
     if meld_count == 0:
         win_types.append(UniquePairs())
-    win_reasonings = all_win_type_reasoning(hand, invisible_player_perspective, win_types)
+    win_reasonings = list(all_win_type_reasoning(hand, invisible_player_perspective, win_types))
+    reasonings_by_discard = defaultdict(list)
+    for item in chain.from_iterable(win_reasonings):
+        reasonings_by_discard[item.discard_tile].append(item)
     merged_win_reasonings = [
-        reasoning_merge(list(reasoning_same_discard), invisible_player_perspective)
-        for reasoning_same_discard in zip(*win_reasonings)
+        reasoning_merge(reasoning_same_discard, invisible_player_perspective)
+        for reasoning_same_discard in reasonings_by_discard.values()
     ]
     merged_win_reasonings.sort(key=reasoning_key)
     _, expected_reasonings = next(groupby(merged_win_reasonings, key=reasoning_key))
-- 
2.43.0


From b09e69cd4f8a6b765d695c827261729b6ad1e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 13/24] fix: report does not fail when no useful tile is left
 unseen

---
 mahjong/tenhou_record_check.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index c9847be..867a7bd 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -261,7 +261,10 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     base = expect_counts * shanten_sequence_count
     # print("base=", base, "expect_counts=", expect_counts, "your_counts=", your_counts)
 
-    correct_rate = your_counts / base
+    if base > 0:
+        correct_rate = your_counts / base
+    else:  # even the best discard has no useful tile left
+        correct_rate = 1 if your_shanten == expect_shanten else 0
     wrong_rate = 1 - correct_rate
     # print("correct=", correct_rate, "wrong=", wrong_rate)
 
-- 
2.43.0


From 7191363d92d7dee843da760895233c20e71aeeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 14/24] fix: suggested report file name is a single path
 component

---
 mahjong/tenhou_record_check.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 867a7bd..1519a7a 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -2,6 +2,7 @@
 import operator as op
 import base64
 import os
+import re
 import sys
 
 import pkg_resources
@@ -194,7 +195,8 @@ def render_template(player, record, template, log_url=None, log_id=None, generat
     render_str = template.render(player=str(player), record=str(record), log_url=log_url, games=games,
                                  all_tiles=all_tiles)
     if generate_filename:
-        return "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index), render_str
+        file_name = "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index)
+        return re.sub(r'[\x00-\x1f\x7f<>:"/\\|?*]', "_", file_name), render_str
     else:
         return render_str
 
-- 
2.43.0


From ecc84f34f1519e4d57a00ceac9f2d361185afd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 15/24] fix: win rate tool reports runs in which nothing wins

---
 mahjong/win_rate_demo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/win_rate_demo.py b/mahjong/win_rate_demo.py
index 1f99249..411a1bc 100644
--- a/mahjong/win_rate_demo.py
+++ b/mahjong/win_rate_demo.py
@@ -67,7 +67,7 @@ def main():
     min_rate = 1 / try_count
     condition_matrix = np.full((solution_count, solution_count), min_rate, dtype=np.double)
     for condition_index, condition_tile in enumerate(solution_tiles):
-        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count
+        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count if total_win_count > 0 else 0
         # self_transfer_rate = 0
         for transfer_index, transfer_tile in enumerate(solution_tiles):
             transfer_count = condition_win_counter[condition_tile][transfer_tile]
-- 
2.43.0


From e8c2bd0341b95605de1e0fc5e553f0a942a2dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 16/24] fix: translations of several records do not share their
 state

---
 mahjong/record/universe/tenhou/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/tenhou/__init__.py b/mahjong/record/universe/tenhou/__init__.py
index 027a402..6ce0fdd 100644
--- a/mahjong/record/universe/tenhou/__init__.py
+++ b/mahjong/record/universe/tenhou/__init__.py
@@ -1,11 +1,15 @@
+import copy
+
 import mahjong.record.universe.tenhou.event_definition as _event_def
+from mahjong.record.universe.interpreter import GameInterpreter
 from mahjong.record.universe.tenhou.xml_macher import tenhou_command
 
 
 def to_command_iter(record, strict):
-    tenhou_command.clear()
+    translator = copy.copy(tenhou_command)
+    translator.interpreter = GameInterpreter()
     for event in record.events:
-        yield from tenhou_command(event, strict)
+        yield from translator(event, strict)
 
 
 def to_command_records(record, raw=False, strict=False):
-- 
2.43.0


From e17b41a80c1006a5b38218b26621d45d83884b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 17/24] fix: TransferDict refuses clear and deletion like every
 other mutation

---
 mahjong/record/universe/executor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index ca67f28..6df3e1c 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -175,9 +175,9 @@ class TransferDict:
         return repr(self.nested_dict)
 
     def _readonly(self, *args, **kwards):
-        raise NotImplemented
+        raise TypeError("{} is read-only".format(type(self).__name__))
 
-    __setitem__ = __delattr__ = pop = update = popitem = _readonly
+    __setitem__ = __delitem__ = pop = update = popitem = clear = _readonly
 
     def set(self, key, value):
         modified_dict = {
-- 
2.43.0


From b45aa79231e9cca408628943149b9d8a196f9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 18/24] fix: TransferDict.setdefault always returns the full
 snapshot

---
 mahjong/record/universe/executor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index 6df3e1c..a7c04c1 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -210,8 +210,10 @@ class TransferDict:
     def setdefault(self, key, default):
         if key not in self:
             return self.set(key, default)
-        else:
-            return self
+        root = self
+        while root.parent is not None:
+            root = root.parent
+        return root
 
     def transfer_value(self, k, v):
         if isinstance(v, dict):
-- 
2.43.0


From 03a9aa631bce3fce16ebb02ee26aeb91a28b77b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 19/24] fix: text values of commands survive CSV whatever they
 look like

---
 mahjong/record/universe/command.py          | 5 ++++-
 mahjong/record/universe/property_manager.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/command.py b/mahjong/record/universe/command.py
index 4b0c2eb..f1c481d 100644
--- a/mahjong/record/universe/command.py
+++ b/mahjong/record/universe/command.py
@@ -88,7 +88,10 @@ class GameCommand:
 
     @staticmethod
     def read_clean_csv(csv_path):
-        return GameCommand.clean(pandas.read_csv(csv_path))
+        # only empty cells are missing, and texts stay as they were written.
+        return GameCommand.clean(pandas.read_csv(
+            csv_path, keep_default_na=False, na_values=[""], dtype={"value": str, "state": str}
+        ))
 
     @staticmethod
     def pandas_columns_clean(row_origin):
diff --git a/mahjong/record/universe/property_manager.py b/mahjong/record/universe/property_manager.py
index 9ea3c3a..2c83a57 100644
--- a/mahjong/record/universe/property_manager.py
+++ b/mahjong/record/universe/property_manager.py
@@ -73,7 +73,7 @@ def general_equal(expceted, actual):
 @prop_manager.register(ViewType.str, PropertyMethod.to_str)
 @prop_manager.register(ViewType.str, PropertyMethod.from_str)
 def plain_str(x):
-    return str(x)
+    return None if x is None or x != x else str(x)
 
 
 @prop_manager.register(None, PropertyMethod.to_str)
-- 
2.43.0


From 4f49402ffef72f417e1b4231a16f46f870d635c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 20/24] fix: text properties of the state table survive CSV
 whatever they look like

---
 mahjong/record/universe/executor.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index a7c04c1..b621998 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -58,20 +58,18 @@ setExecutor = {
 
 
 def state_series_apply(x):
-    col_last = x.name[-1]
-    if hasattr(col_last, "type"):
-        def from_str_view(t):
-            return prop_manager.from_str(t, prop=col_last)
+    def from_str_view(t):
+        return prop_manager.from_str(t, prop=x.name[-1])
 
-        return x.apply(from_str_view)
-    return x
+    return x.apply(from_str_view)
 
 
 
 class GameExecutor:
     @staticmethod
     def read_clean_csv(csv_path):
-        df_states = pd.read_csv(csv_path, header=[0, 1, 2], skipinitialspace=True)
+        # only empty cells are missing, and texts stay as they were written.
+        df_states = pd.read_csv(csv_path, header=[0, 1, 2], keep_default_na=False, na_values=[""], dtype=str)
         df_states = df_states.rename(columns=replace_enum_values)
         df_states = df_states.apply(state_series_apply, axis="rows")
         return df_states
-- 
2.43.0


From 3e4c2448291c9f509f5551e5375e83c1aea52d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 21/24] fix: a rating read from CSV is a number again

---
 mahjong/record/universe/format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/format.py b/mahjong/record/universe/format.py
index 02bd63c..22a115a 100644
--- a/mahjong/record/universe/format.py
+++ b/mahjong/record/universe/format.py
@@ -150,10 +150,10 @@ class PlayerView(View, Flag):
     final_score = auto()
     final_point = auto()
 
-    type__str = name | level | extra_level
+    type__str = name | level
     type__index = round
     type__int = rank
-    type__float = final_point
+    type__float = final_point | extra_level
     type__bool = is_dealer | is_win | is_self_win | is_discard_lose_game | in_richii | disconnected
     type__score = score | final_score
     type__tiles = hand | discard_tiles | meld_public_tiles | bonus_tiles
-- 
2.43.0


From 1139703a4bad60bbdf5e37b39f2a52107e8ee57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 22/24] fix: reading an abandoned group does not take items
 from the current one

---
 mahjong/record/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mahjong/record/stage.py b/mahjong/record/stage.py
index 383e69f..1b88417 100644
--- a/mahjong/record/stage.py
+++ b/mahjong/record/stage.py
@@ -53,6 +53,8 @@ class StageGroupby:
     def _grouper(self, tgtkey: List[K], id):
         while self.id is id and self._stage_accepted(tgtkey):
             yield self.currvalue
+            if self.id is not id:
+                return  # the consumer has advanced, the source belongs to the next group now.
             try:
                 self.currvalue = next(self.it)
             except StopIteration:
-- 
2.43.0


From c9e548b0649f25d57e79ae803a17c47625eb5299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 23/24] fix: look translations of a name with an attribute up
 under the key they are registered with

---
 mahjong/record/universe/tenhou/xml_macher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/xml_macher.py b/mahjong/record/universe/tenhou/xml_macher.py
index 5d1caf8..f3aed83 100644
--- a/mahjong/record/universe/tenhou/xml_macher.py
+++ b/mahjong/record/universe/tenhou/xml_macher.py
@@ -44,7 +44,7 @@ class TenhouCommandTranslator(CommandTranslator):
 
     def match_both(self, *, name: str, attr: str) -> Callable[[EventTransform], EventTransform]:
         def _matcher_decor(func: EventTransform):
-            self.both_match[(attr, name)].append(func)
+            self.both_match[(name, attr)].append(func)
             return func
 
         return _matcher_decor
-- 
2.43.0


From 9c82b2e5e5948038bbf6751fb9ad664cf33fe6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 24/24] fix: a superscript or circled digit is no player number
 and selects all players, as other texts do

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 1519a7a..15c61a4 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -166,7 +166,7 @@ def main():
         n=len(record.players)
     ))
     planned_players = record.players.copy()
-    if input_id.isdigit():
+    if input_id.isdecimal():
         input_id = int(input_id)
         if input_id in range(1, len(record.players) + 1):
             player = record.players[input_id - 1]
-- 
2.43.0

