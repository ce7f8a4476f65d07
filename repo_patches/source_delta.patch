From e5cd3486bdd8d9fd41fbef16429d3f280724684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 01/73] fix: compare link endpoint names by value when closing
 or reopening links

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index c78e94c..5aa6151 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -985,7 +985,7 @@ class Ecosystem:
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
-            if self.locations[x].links[i].endpoint.name is not endpoint:
+            if self.locations[x].links[i].endpoint.name != endpoint:
                 new_links += [self.locations[x].links[i]]
                 continue
 
@@ -1039,7 +1039,7 @@ class Ecosystem:
         #       )
 
         for i in range(0, len(self.locations[x].closed_links)):
-            if self.locations[x].closed_links[i].endpoint.name is not endpoint:
+            if self.locations[x].closed_links[i].endpoint.name != endpoint:
                 # print("[{}] to [{}] ({})".format(
                 #     startpoint,
                 #     self.locations[x].closed_links[i].endpoint.name,
-- 
2.43.0


From cc26827ab44f7cf7d2017fe93ee8eb3f9f6529c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 02/73] fix: close, reopen and remove both directions of a
 two-way link

The twoway flag is documented to *also* act on the reverse direction, but the
forward direction was left untouched.
---
 flee/flee.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 5aa6151..08b2cdc 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1086,14 +1086,16 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        removed = self._remove_link_1way(
+            startpoint=startpoint, endpoint=endpoint, close_only=close_only
+        )
         if twoway:
-            return self._remove_link_1way(
+            removed_back = self._remove_link_1way(
                 startpoint=endpoint, endpoint=startpoint, close_only=close_only
             )
+            removed = removed or removed_back
 
-        return self._remove_link_1way(
-            startpoint=startpoint, endpoint=endpoint, close_only=close_only
-        )
+        return removed
 
 
     @check_args_type
@@ -1111,10 +1113,12 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        reopened = self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
         if twoway:
-            return self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened_back = self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened = reopened or reopened_back
 
-        return self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
+        return reopened
 
 
     @check_args_type
-- 
2.43.0


From be3581e190ec4dc8a59d0855b4fe282807e475e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 03/73] fix: close and reopen all links of a location for every
 direction

Reopening with direction "in" never terminated, and incoming links were missed
when the link in the opposite direction had already been closed or reopened.
---
 flee/flee.py | 99 +++++++++++++++-------------------------------------
 1 file changed, 28 insertions(+), 71 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 08b2cdc..7f731a7 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1161,81 +1161,38 @@ class Ecosystem:
             bool: True if any links were changed, False otherwise.
         """
 
-        dir_mode = 0
-        if direction == "out":
-            dir_mode = 1
-        elif direction == "both":
-            dir_mode = 2
-
         print(
-            "{} location 1 way [{}] in direction {} ({}).".format(
-                mode, location_name, direction, dir_mode
-            ),
+            "{} location 1 way [{}] in direction {}.".format(mode, location_name, direction),
             file=sys.stderr,
         )
-        changed_anything = False
-
-        for i in range(0, len(self.locationNames)):
-            if self.locationNames[i] == location_name:
-                changed_anything = True
-
-                link_set = self.locations[i].links
-                if mode == "reopen":
-                    link_set = self.locations[i].closed_links
+        changed_anything = location_name in self.locationNames
 
-                j = 0
-                while j < len(link_set):
-                    if Debug:
-                        print(
-                            "starting to {} link "
-                            "[{}] [{}] in direction {}".format(
-                                mode, location_name, link_set[j].endpoint.name, direction
-                            ),
-                            file=sys.stderr,
-                        )
-                    if mode == "close":
-
-                        if dir_mode % 2 == 0:
-                            self.close_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.close_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].links
-                        else:
-                            j += 1
-
-                    elif mode == "reopen":
-
-                        if dir_mode % 2 == 0:
-                            self.reopen_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.reopen_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the closed link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].closed_links
-                            else:
-                                j += 1
+        # Collect the name pairs first, because (re)opening and closing links
+        # modifies the link lists.
+        pairs = []
+        for loc in self.locations:
+            link_set = loc.links
+            if mode == "reopen":
+                link_set = loc.closed_links
+
+            for link in link_set:
+                incoming = link.endpoint.name == location_name and direction in ["in", "both"]
+                outgoing = loc.name == location_name and direction in ["out", "both"]
+                if (incoming or outgoing) and (loc.name, link.endpoint.name) not in pairs:
+                    pairs.append((loc.name, link.endpoint.name))
+
+        for startpoint, endpoint in pairs:
+            if Debug:
+                print(
+                    "starting to {} link [{}] [{}] in direction {}".format(
+                        mode, startpoint, endpoint, direction
+                    ),
+                    file=sys.stderr,
+                )
+            if mode == "close":
+                self.close_link(startpoint=startpoint, endpoint=endpoint, twoway=False)
+            elif mode == "reopen":
+                self.reopen_link(startpoint=startpoint, endpoint=endpoint, twoway=False)
 
         return changed_anything
 
-- 
2.43.0


From 38795be1c1ef5c983954dea8073080b64e544a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 04/73] fix: changing a location type to conflict crashed and
 left spawn weights stale

---
 flee/flee.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 7f731a7..4f63676 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1368,7 +1368,7 @@ class Ecosystem:
                     l.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
         elif "conflict" in location_type.lower():
             l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-            l.conflict = float(self.attributes.get("conflict_intensity",1.0))
+            l.conflict = float(l.attributes.get("conflict_intensity",1.0))
         elif "forward" in location_type.lower():
             l.movechance = 1.0
             l.forward = True
@@ -1386,10 +1386,14 @@ class Ecosystem:
         else:
             print(
                 "Error in creating Location() object: cannot parse location_type value of"
-                " {} for location object with name {}".format(location_type, name),
+                " {} for location object with name {}".format(location_type, location_name),
                 file=sys.stderr
             )
 
+        # New agents spawn in proportion to these weights, so they need to
+        # reflect the new location type right away.
+        spawning.refresh_spawn_weights(self)
+
         print(f"Time = {self.time}. Location {location_name} changed type to {location_type}.", file=sys.stderr)
 
 
-- 
2.43.0


From 7a993bffdb9f45feb60d0458928850862cbb3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 05/73] fix: clearing agents from locations crashed in
 sequential Flee and on deactivated agents

---
 flee/flee.py  | 4 ++--
 flee/pflee.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 4f63676..ae2fad2 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1790,8 +1790,8 @@ class Ecosystem:
         """
         new_agents = []
         for i in range(0, len(self.agents)):
-            if self.agents[i].location.name not in location_names:
-                new_agents += self.agents[i]  # agent is preserved in ecosystem
+            if self.agents[i].location is None or self.agents[i].location.name not in location_names:
+                new_agents += [self.agents[i]]  # agent is preserved in ecosystem
             else:
                 # agent is removed from the ecosystem and number of agents
                 # drops by one.
diff --git a/flee/pflee.py b/flee/pflee.py
index 23c1b19..4597db5 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -687,7 +687,7 @@ class Ecosystem(flee.Ecosystem):
 
         new_agents = []
         for agent in self.agents:
-            if agent.location.name not in location_names:
+            if agent.location is None or agent.location.name not in location_names:
                 new_agents += [agent]
             else:
                 # print("Agent removed: ", agent.location.name)
-- 
2.43.0


From 8314e576b7ea4fb196e4e42023e2a4607efa9326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 06/73] fix: read camps_are_sinks from the settings file and
 accept CSV deactivation probabilities

---
 flee/SimulationSettings.py | 2 +-
 flee/flee.py               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index ba12563..2720e4e 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -143,7 +143,7 @@ class SimulationSettings:
             print("NOTE: conflict_zone_spawning_only is enabled by default, and needs to be disabled when you define flood_zone_spawning_only to be true.", file=sys.stderr)
             sys.exit()
 
-        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sicks", False)) # Camps can deactivate agents.
+        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sinks", False)) # Camps can deactivate agents.
         SimulationSettings.spawn_rules["read_from_agents_csv_file"] = bool(fetchss(dps, "read_from_agents_csv_file", False)) # Load agents from agents.csv file.
 
         SimulationSettings.spawn_rules["sum_from_camps"] = bool(fetchss(dps, "sum_from_camps", True)) #Sum total migrant numbers from camp data numbers, instead of from refugees.csv.
diff --git a/flee/flee.py b/flee/flee.py
index ae2fad2..ac4f90c 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1648,7 +1648,7 @@ class Ecosystem:
                     if a.location is not None:
                         if a.location.camp == True:
                             outcome = random.random()
-                            if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                                 a.location = None
 
         self.time += 1
-- 
2.43.0


From 653277816ce30512b6a524f0ddf079bfbbaab10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 07/73] fix: parallel Flee crashed when camps act as sinks

random was never imported and deactivated agents were still evolved. Also reset
the per-timestep list of visited locations, as sequential Flee does.
---
 flee/pflee.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 4597db5..4ac89fe 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import os
+import random
 import sys
 from functools import wraps
 from typing import List, Optional
@@ -852,14 +853,18 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
-            a.evolve(self, time=self.time)
+            if SimulationSettings.log_levels["agent"] > 1:
+                a.locations_visited = []
+            if a.location is not None:
+                a.evolve(self, time=self.time)
 
         # print("NumAgents after evolve:", file=sys.stderr)
         self.updateNumAgents(CountClosed=True, log=False)
 
         for a in self.agents:
-            a.finish_travel(self, time=self.time)
-            a.timesteps_since_departure += 1
+            if a.location is not None:
+                a.finish_travel(self, time=self.time)
+                a.timesteps_since_departure += 1
 
         if SimulationSettings.log_levels["agent"] > 0:
             write_agents_par(rank=self.mpi.rank, agents=self.agents, time=self.time)
@@ -885,10 +890,11 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["camps_are_sinks"] == True:
             for a in self.agents:
                 if a.travelling == False:
-                    if a.location.camp == True:
-                        outcome = random.random()
-                        if outcome < a.location.attributes.get("deactivation_probability", 0.0):
-                            a.location = None
+                    if a.location is not None:
+                        if a.location.camp == True:
+                            outcome = random.random()
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
+                                a.location = None
 
         self.time += 1
 
-- 
2.43.0


From e4b4a7c238d87cb806beff0bb12da7fedaf9d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 08/73] fix: parallel Flee multiplied the number of spawned
 agents by the number of ranks

---
 flee/pflee.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 4ac89fe..18b406d 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -619,7 +619,10 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["TakeFromPopulation"]:
             if location.pop > 1: 
                 location.pop -= 1
-                location.numAgentsSpawnedOnRank += 1
+                # Every rank adds every agent, but the spawn counts are summed over
+                # ranks in evolve(), so only the owning rank counts it.
+                if (self.total_agents + 1) % self.mpi.size == self.mpi.rank:
+                    location.numAgentsSpawnedOnRank += 1
                 location.numAgentsSpawned += 1
             else:
                 print(
-- 
2.43.0


From d8c4c98f84021f2f5d47e8301a7f5375b2e0596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 09/73] fix: parallel Flee lost count of agents underway on
 closed links

---
 flee/pflee.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 18b406d..4816a9f 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -552,9 +552,9 @@ class Ecosystem(flee.Ecosystem):
                         # print(self.time, "link [closed]:", loc.name, link.numAgents,
                         #       file=sys.stderr)
                         total += link.numAgents
-            self.total_agents = total
+            self.total_agents = self.mpi.CalcCommWorldTotalSingle(len(self.agents))
         elif mode == "high_latency":
-            buf_len = 0
+            buf_len = 1  # last entry holds the number of agents on this rank.
 
             buf_len += len(self.locations)
             for loc in self.locations:
@@ -575,6 +575,7 @@ class Ecosystem(flee.Ecosystem):
                     for link in loc.closed_links:
                         numAgent_buffer[index] = link.numAgentsOnRank
                         index += 1
+            numAgent_buffer[index] = len(self.agents)
 
             new_buffer = self.mpi.CalcCommWorldTotal(numAgent_buffer)
 
@@ -590,7 +591,9 @@ class Ecosystem(flee.Ecosystem):
                         link.numAgents = new_buffer[index]
                         index += 1
 
-            self.total_agents = np.sum(new_buffer)
+            # Not the sum of the counts above, because these do not include agents
+            # that are still underway on a link that has just been closed.
+            self.total_agents = new_buffer[index]
 
         if self.mpi.rank == 0 and log is True:
             print(
-- 
2.43.0


From 3d282f297ad6e68c96af03981be86f8d4fbe0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 10/73] fix: parallel Flee kept outdated fixed routes on ranks
 that do not own the location

---
 flee/pflee.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 4816a9f..8381f39 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -835,13 +835,12 @@ class Ecosystem(flee.Ecosystem):
                 start_loc_local=offset, end_loc_local=offset + num_locs_on_this_rank
             )
 
-            # Ensure Location Routes are updated on all cores for now.
+            # Ensure Location Routes are updated on all cores for now, as scores and
+            # links may have changed since the previous time step.
             if SimulationSettings.move_rules["FixedRoutes"] is True:
                 for i in range(len(self.locations)):
-                    loc = self.locations[i]
-                    if len(loc.routes) == 0:
-                        #print("INFO: Generating location routes.", file=sys.stderr)
-                        crawling.generateLocationRoutes(loc, self.time)
+                    #print("INFO: Generating location routes.", file=sys.stderr)
+                    crawling.generateLocationRoutes(self.locations[i], self.time)
 
 
         # SYNCHRONIZE SPAWN COUNTS IN LOCATIONS (needed for all versions).
-- 
2.43.0


From a5cad84609cea40f699ab13f32e2e2114298d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 11/73] fix: ethnicity matching rules crashed on a missing
 import and on CSV attribute values

---
 flee/moving.py   | 1 +
 flee/spawning.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 41fbd30..a9b9b60 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -3,6 +3,7 @@ import sys
 import numpy as np
 import random
 from beartype.typing import List, Optional, Tuple
+from flee import spawning
 from flee.SimulationSettings import SimulationSettings
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
diff --git a/flee/spawning.py b/flee/spawning.py
index 512f11a..024ca5a 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -32,7 +32,7 @@ def getAttributeRatio(location, attr_name):
     Returns:
         float: Ratio of attribute value to maximum attribute value in the location.
     """
-    return location.attributes[attr_name] / float(location.pop)
+    return float(location.attributes[attr_name]) / float(location.pop)
 
 
 def refresh_spawn_weights(e):
-- 
2.43.0


From 7ded81cec86899c310fee9c37dfd3028c5491460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 12/73] fix: population weighting of locations was capped at 1

use_pop_for_loc_weight is documented to multiply by
population^pop_power_for_loc_weight.
---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index a9b9b60..d4861aa 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -142,12 +142,12 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["MatchConflictEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
     else:
         if SimulationSettings.move_rules["MatchTownEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
 
     return base
 
-- 
2.43.0


From 0414850a31f7cf417eab02420a4b5c39e33951b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 13/73] fix: stay_close_to_home weighted the distance to the
 current location instead of home

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index d4861aa..780a68e 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -49,7 +49,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
         power_factor = SimulationSettings.move_rules["HomeDistancePower"]
-        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.location))**power_factor)
+        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.home_location))**power_factor)
 
     # DFlee Flood Location Weight implementation
     if SimulationSettings.move_rules["FloodRulesEnabled"] is True:
-- 
2.43.0


From eab167e7a890c3f5b44c5705e7ddc8118774ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 14/73] fix: agents never moved with awareness level 0, and
 crashed without any route

The road-only awareness level returned a link index where a list of location
names is expected, and failed at locations without links.
---
 flee/crawling.py | 3 +--
 flee/flee.py     | 5 +++++
 flee/moving.py   | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index c1f2d30..401a44b 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -262,8 +262,7 @@ def generateLocationRoutes(l, time: int, debug: bool = False):
   l.routes = {}
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
-    linklen = len(l.links)
-    return [np.random.randint(0, linklen)]
+    return {} # agents choose between roads without any route information.
 
   for k, e in enumerate(l.links):
     calculateLocCrawlLinkWeight(
diff --git a/flee/flee.py b/flee/flee.py
index ac4f90c..e77c5db 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -140,6 +140,11 @@ class Person:
             or `None` if the agent's route is empty 
             or the next link is invalid.
         """
+        # There is no route to anywhere from here.
+        if self.route is None:
+            self.route = []
+            return None
+
         for l in self.location.links:
             # If the name of the destination on the current link is same as the agents current waypoint on the route:
             if l.endpoint.name == self.route[0]:
diff --git a/flee/moving.py b/flee/moving.py
index 780a68e..e31d215 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -485,8 +485,11 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
   routes = []
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
+      # Agents are only aware of the roads: pick a random link.
       linklen = len(a.location.links)
-      return [np.random.randint(0, linklen)]
+      if linklen == 0:
+          return None
+      return [a.location.links[np.random.randint(0, linklen)].endpoint.name]
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
-- 
2.43.0


From 64ebb69f33aafd04bc9caaa5f6f40cde9ecbcc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 15/73] fix: route pruning mixed up duplicate routes and
 crashed at isolated locations

---
 flee/moving.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index e31d215..fa37a3c 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -450,7 +450,7 @@ def pruneRoutes(weights, routes):
     #check_routes(weights, routes, "START")
 
     threshold = SimulationSettings.move_rules["PruningThreshold"]
-    if threshold < 1.001:
+    if threshold < 1.001 or len(weights) == 0:
         #check_routes(weights, routes, "LOTHRESHOLD")
         return weights, routes
 
@@ -458,8 +458,8 @@ def pruneRoutes(weights, routes):
     i = 0
     while i < len(weights):
         if weights[i] < min_weight_threshold:
-            weights.remove(weights[i])
-            routes.remove(routes[i])
+            del weights[i]
+            del routes[i]
             i -= 1
         i += 1
 
-- 
2.43.0


From 37792da4645db4405b2315669c7ad56aaa09f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 16/73] fix: routes with forced redirection 1 were loaded twice

---
 flee/InputGeography.py       | 2 +-
 flee/micro_InputGeography.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index bfdbe6e..4ebc612 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -534,7 +534,7 @@ class InputGeography:
                         forced_redirection=True,
                         attributes=attributes,
                     )
-                if int(l3) == 2:
+                elif int(l3) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index e351c96..7a96aeb 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -159,7 +159,7 @@ class InputGeography(based_InputGeography_class):
                         forced_redirection=True,
                         link_type=str(link[4]),
                     )
-                if int(link[3]) == 2:
+                elif int(link[3]) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
-- 
2.43.0


From 465dd5a21d588456f910829588439864bc8f7b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 17/73] fix: conflict dates in locations.csv were never enacted

The conflict dates were read from outdated column numbers, so delayed conflict
zones stayed towns when no conflicts.csv is used.
---
 flee/InputGeography.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 4ebc612..0ae9b7b 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -124,7 +124,7 @@ class InputGeography:
         if len(SimulationSettings.ConflictInputFile) == 0:
             conflict_names = []
             for loc in self.locations:
-                if "conflict" in loc[4].lower():
+                if "conflict" in loc[5].lower():
                     conflict_names += [loc[0]]
             print(conflict_names, file=sys.stderr)
             return conflict_names
@@ -658,12 +658,14 @@ class InputGeography:
 
         elif len(SimulationSettings.ConflictInputFile) == 0:
             for loc in self.locations:
-                if "conflict" in loc[4].lower() and int(loc[5]) == time:
-                    conflict_intensity = 1.0
+                # Conflict zones that start on day 0 are already present, see StoreInputGeographyInEcosystem.
+                if "conflict" in loc[5].lower() and int(loc[6]) == time and time > 0:
+                    location = e.locations[e._convert_location_name_to_index(loc[0])]
+                    conflict_intensity = float(location.attributes.get("conflict_intensity", 1.0))
                     if e.print_location_output:
                         print(
                             "Time = {}. Adding a new conflict zone [{}] with pop. {} and intensity {}".format(
-                                time, loc[0], int(loc[1]), conflict_intensity
+                                time, loc[0], location.pop, conflict_intensity
                             ),
                             file=sys.stderr,
                         )
@@ -675,7 +677,7 @@ class InputGeography:
 
             for conflict_name in conflict_names:
                 if len(self.conflicts[conflict_name]) < (time - 1):
-                    print(f"Error: conflict value at time {time} requested, but the conflicts table for {conflict_name} only has values up to t = {len(conflicts[conflict_name])}.", file=sys.stderr)
+                    print(f"Error: conflict value at time {time} requested, but the conflicts table for {conflict_name} only has values up to t = {len(self.conflicts[conflict_name])}.", file=sys.stderr)
 
                 if Debug and e.getRankN(e.time) is True:
                     print("L:", conflict_name, self.conflicts[conflict_name], time, file=sys.stderr)
-- 
2.43.0


From 390c24b399ac7dd24fae4b23b0c678257aa2a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 18/73] fix: changes in the intensity of an ongoing conflict
 were ignored

Only the first non-zero value of a conflicts.csv column was ever used.
---
 flee/InputGeography.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 0ae9b7b..6e525af 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -3,6 +3,7 @@ import os
 import sys
 from typing import List
 
+from flee import spawning
 from flee.SimulationSettings import SimulationSettings
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
@@ -692,6 +693,12 @@ class InputGeography:
                                     file=sys.stderr,
                                 )
                             e.set_conflict_intensity(name=conflict_name, conflict_intensity=self.conflicts[conflict_name][time])
+                        elif self.conflicts[conflict_name][time] != self.conflicts[conflict_name][time - 1]:
+                            # Ongoing conflict that becomes more or less intense.
+                            for location in e.locations:
+                                if location.name == conflict_name and location.conflict > 0.0:
+                                    location.conflict = self.conflicts[conflict_name][time]
+                            spawning.refresh_spawn_weights(e)
                     else:
                         if e.getRankN(e.time) is True:
                             print(
-- 
2.43.0


From eb918f181aee86af537f17fef94c20e7d68121e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:12 +0000
Subject: [PATCH 19/73] fix: comment lines broke the loading of major routes
 and agents

---
 flee/InputGeography.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 6e525af..528225f 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -271,7 +271,8 @@ class InputGeography:
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
                     pass
-                self.major_routes.append(row)
+                else:
+                    self.major_routes.append(row)
 
 
     @check_args_type
@@ -382,11 +383,11 @@ class InputGeography:
         with open(csv_name, newline="", encoding="utf-8") as csvfile:
             values = csv.reader(csvfile)
 
-            i = 0
+            headers = None
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
                     pass
-                elif i == 0:
+                elif headers is None:
                     headers = row[1:]
                     print(headers)
                 else:
@@ -402,8 +403,7 @@ class InputGeography:
                             loc_found= True
 
                     if not loc_found:
-                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", sys.stderr)
-                i += 1
+                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", file=sys.stderr)
 
 
     def StoreInputGeographyInEcosystem(self, e):
-- 
2.43.0


From 1c8392bb16b2da0b8f78dafc0914e64ee3ee1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 20/73] fix: diagnostic messages ended up in the out.csv output
 of run.py

---
 flee/InputGeography.py | 4 ++--
 flee/flee.py           | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 528225f..e05daf1 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -389,9 +389,9 @@ class InputGeography:
                     pass
                 elif headers is None:
                     headers = row[1:]
-                    print(headers)
+                    print(headers, file=sys.stderr)
                 else:
-                    print(row)
+                    print(row, file=sys.stderr)
                     attr = {}
                     for i in range (1, len(row)):
                         attr[headers[i-1]] = row[i]
diff --git a/flee/flee.py b/flee/flee.py
index e77c5db..2d8b003 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1738,7 +1738,8 @@ class Ecosystem:
             else:
                 print(
                     "WARNING: Number of agents in the simulation is larger than the"
-                    "population of the conflict zone."
+                    "population of the conflict zone.",
+                    file=sys.stderr,
                 )
                 location.print()
             location.numAgentsSpawned += 1
-- 
2.43.0


From 20dba80ffe5c5bb8749c3328a9d7f4412e985adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 21/73] fix: unknown location names silently modified the first
 location

---
 flee/flee.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 2d8b003..89c872b 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -963,8 +963,7 @@ class Ecosystem:
         #         x = i
 
         if x < 0:
-            print("#Warning: location not found in remove_link", file=sys.stderr)
-            return False
+            print("#Warning: location {} not found.".format(name), file=sys.stderr)
 
         return x
 
@@ -988,6 +987,8 @@ class Ecosystem:
         new_links = []
         x = self._convert_location_name_to_index(name=startpoint)
         removed = False
+        if x < 0:
+            return removed
 
         for i in range(0, len(self.locations[x].links)):
             if self.locations[x].links[i].endpoint.name != endpoint:
@@ -1036,6 +1037,8 @@ class Ecosystem:
         new_closed_links = []
         x = self._convert_location_name_to_index(name=startpoint)
         reopened = False
+        if x < 0:
+            return reopened
         # print("Reopening link from {} to {}, "
         #       "closed link list length = {}.".format(
         #           startpoint, endpoint,
@@ -1337,7 +1340,10 @@ class Ecosystem:
         Returns:
             None.
         """     
-        self.locations[self._convert_location_name_to_index(location_name)].close_camp(IDP)
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        self.locations[x].close_camp(IDP)
         print("Time = {}. Close camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1355,7 +1361,10 @@ class Ecosystem:
             None.
         """
 
-        l = self.locations[self._convert_location_name_to_index(location_name)]
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        l = self.locations[x]
 
         l.town = False
         l.camp = False
@@ -1415,7 +1424,10 @@ class Ecosystem:
         Returns:
             None.
         """
-        self.locations[self._convert_location_name_to_index(location_name)].open_camp(IDP)
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        self.locations[x].open_camp(IDP)
         print("Time = {}. Open camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1434,6 +1446,8 @@ class Ecosystem:
             None.
         """
         id1 = self._convert_location_name_to_index(loc1_name)
+        if id1 < 0:
+            return
         for i in range(0, len(self.locations[id1].links)):
             if self.locations[id1].links[i].endpoint.name == loc2_name:
                 old_val = self.locations[id1].links[i].forced_redirection
-- 
2.43.0


From eaaf869871932b1fd576ad0f8a96851f4882a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 22/73] fix: attributes set on one location or link leaked into
 others

---
 flee/flee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 89c872b..7fe4d92 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -357,7 +357,9 @@ class Location:
         self.time_of_conflict = -1 # Time that a major conflict event last took place.
         self.numAgentsSpawned = 0
 
-        self.attributes = attributes # This will store a range of attributes that are read from file.
+        # This will store a range of attributes that are read from file.
+        # Copied, so that setAttribute() on one location does not affect others.
+        self.attributes = dict(attributes)
 
         if location_type is not None:
             if "camp" in location_type.lower():
@@ -684,7 +686,8 @@ class Link:
         # if True, then all Persons will go down this link.
         self.forced_redirection = forced_redirection
 
-        self.attributes = attributes
+        # Copied, so that setAttribute() on one link does not affect others.
+        self.attributes = dict(attributes)
 
 
     @check_args_type
-- 
2.43.0


From e96d693ad076da3b860c2214b4e00df4e7f0e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 23/73] fix: spawn_agents called a function that no longer
 exists

---
 flee/spawning.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 024ca5a..68f85ed 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -338,8 +338,7 @@ def spawn_agents(e, number):
         None.
     """
     #Insert refugee agents
-    for i in range(0, number):
-        loc = e.pick_spawn_location()
+    for loc in e.pick_spawn_locations(number):
         attributes = draw_samples(e, loc)
         e.addAgent(location=loc, attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
 
-- 
2.43.0


From bfe9122adc33238de6441a77bd50805c0a03af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 24/73] fix: refugee debt leaked into the next simulation in
 the same process

---
 flee/spawning.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flee/spawning.py b/flee/spawning.py
index 68f85ed..692c682 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -293,6 +293,11 @@ def spawn_daily_displaced(e, t, d):
 
     else:
 
+      # Do not carry over refugee counts from an earlier simulation in the same process.
+      if t == 0:
+        __refugees_raw = 0
+        __refugee_debt = 0
+
       # Determine number of new refugees to insert into the system.
       new_refs = d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps) - __refugee_debt
       __refugees_raw += d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps)
-- 
2.43.0


From 86953f65609265e12d272639e19eb49db3cf1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 25/73] fix: agent logs crashed without agents on day 0 and
 with region granularity

---
 flee/Diagnostics.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 8cef636..e799eac 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -46,6 +46,22 @@ def print_attribute_values(a):
     return out
 
 
+def get_region(location):
+    """
+    Summary:
+        Get the region of a location, or the regions that a link connects.
+
+    Args:
+        location (Location or Link): place of an agent.
+
+    Returns:
+        str: A string containing the region name(s).
+    """
+    if hasattr(location, "region"):
+        return location.region
+    return "L:{}:{}".format(location.startpoint.region, location.endpoint.region)
+
+
 @check_args_type
 def write_agents_par(
     rank: int, agents, time: int, max_written: int = -1, timestep_interval: int = 1
@@ -71,7 +87,7 @@ def write_agents_par(
         my_file = open("agents.out.%s" % rank, "w", encoding="utf-8")
         print(
             "#time,rank-agentid,original_location,current_location,gps_x,gps_y,is_travelling,distance_travelled,"
-            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0])),
+            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0]) if len(agents) > 0 else ""),
             file=my_file,
         )
     else:
@@ -92,7 +108,7 @@ def write_agents_par(
             y = a.location.y
 
             if SimulationSettings.log_levels["granularity"] == "region":
-                loc_name = location.region
+                loc_name = get_region(a.location)
                 x = 0.0
                 y = 0.0
 
@@ -122,7 +138,7 @@ def write_agents_par(
                         x = l.x
                         y = l.y
                         if SimulationSettings.log_levels["granularity"] == "region":
-                            loc_name = l.region
+                            loc_name = get_region(l)
                             x = 0.0
                             y = 0.0
 
@@ -151,7 +167,7 @@ def write_agents_par(
                         x = l.x
                         y = l.y
                         if SimulationSettings.log_levels["granularity"] == "region":
-                            loc_name = l.region
+                            loc_name = get_region(l)
                             x = 0.0
                             y = 0.0
 
-- 
2.43.0


From a104fc3f75537b444e09de8b0c94bad0887a2e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 26/73] fix: adding camp data tables dropped the last entries
 or crashed

Entries dated after the end of the other table were lost, and tables that
start on different dates could raise an IndexError.
---
 flee/datamanager/DataTable.py | 36 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index c365430..ea4c64f 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -130,32 +130,26 @@ def AddCSVTables(table1: np.ndarray, table2: np.ndarray) -> np.ndarray:
     table = np.zeros([0, 2])
 
     offset = 0
-    last_c2 = np.zeros(([1, 2]))
+    last_c2 = np.zeros(2)
     for c2 in table2:
 
         # If table 2 date value is higher, then keep adding entries from table
         # 1
-        while c2[0] > table1[offset][0]:
+        while offset < len(table1) and c2[0] > table1[offset][0]:
             table = np.vstack([table, [table1[offset][0], last_c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
-            else:
-                break
-
-        # If the two match, add a total.
-        if c2[0] == table1[offset][0]:
-            table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
-            last_c2 = c2
-            continue
-
-        # If table 1 value is higher, add an aggregate entry, and go to the
-        # next iteration without increasing the offset.
-        if c2[0] < table1[offset][0]:
-            table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            last_c2 = c2
-            continue
+            offset += 1
+
+        # Add a total, using the last value of table 1 if it has no entries
+        # left. The offset only increases if the dates match.
+        c1 = table1[min(offset, len(table1) - 1)]
+        table = np.vstack([table, [c2[0], c2[1] + c1[1]]])
+        if c2[0] == c1[0]:
+            offset += 1
+        last_c2 = c2
+
+    # Add any entries from table 1 that are dated after the last one of table 2.
+    for c1 in table1[offset:]:
+        table = np.vstack([table, [c1[0], last_c2[1] + c1[1]]])
 
     return table
 
-- 
2.43.0


From 02e2b16abb2ad1cb47b4d2e538f1daeb0a59525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:00 +0000
Subject: [PATCH 27/73] fix: level 1 registration corrections crashed if no
 earlier data is present

---
 flee/datamanager/handle_refugee_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flee/datamanager/handle_refugee_data.py b/flee/datamanager/handle_refugee_data.py
index bda8141..45643b7 100644
--- a/flee/datamanager/handle_refugee_data.py
+++ b/flee/datamanager/handle_refugee_data.py
@@ -71,6 +71,8 @@ class RefugeeTable(DataTable.DataTable):
             #If the wrong data is before the simulation period, then ignore the correction altogether.
             return 1.0
 
+        correction = 1.0  # Nothing to correct if there is no earlier data.
+
         for i in range(0, len(ref_table)):
             if int(ref_table[i][0]) == int(days):
                 # then scale all previous entries by ref_table[i][1]/ref_table[i-1][1]
@@ -84,10 +86,11 @@ class RefugeeTable(DataTable.DataTable):
                         print(f"Last level 1 value: {last_level_1_value} Last data value: {ref_table[i - 1, 1]} Day0Pop: {self.day0pops.get(name, 0)}", file=sys.stderr)
                         sys.exit()
                     # print(days, i, ref_table[0:i,1])
-                    ref_table[0:i, 1] *= first_level_2_value / last_level_1_value
+                    correction = first_level_2_value / last_level_1_value
+                    ref_table[0:i, 1] *= correction
                     # print(first_level_2_value, last_level_1_value, ref_table[0:i,1])
 
-        return float(first_level_2_value / last_level_1_value)
+        return float(correction)
 
     @check_args_type
     def getMaxFromData(self, name: str, days: int) -> int:
-- 
2.43.0


From 1605f0072498a7a03d6223a0885636522c5d4c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:49 +0000
Subject: [PATCH 28/73] fix: opening a regular camp left the location marked as
 IDP camp

---
 flee/flee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/flee.py b/flee/flee.py
index 7fe4d92..f764f5b 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -465,6 +465,7 @@ class Location:
         self.forward = False
         self.marker = False
         self.flood_zone = False
+        self.idpcamp = False
         if IDP:
             self.idpcamp = True
             self.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
-- 
2.43.0


From 7df13ab38dca520e12249d192ff1920a1d039468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 29/73] fix: conflict zones were not marked as such if the move
 chance is to be kept

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index f764f5b..64a35bf 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1524,8 +1524,8 @@ class Ecosystem:
             if self.locationNames[i] == name:
                 if change_movechance:
                     self.locations[i].movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-                    self.locations[i].conflict = conflict_intensity
-                    self.locations[i].town = False
+                self.locations[i].conflict = conflict_intensity
+                self.locations[i].town = False
 
                 self.locations[i].time_of_conflict = self.time                  
                 spawning.refresh_spawn_weights(self)
-- 
2.43.0


From ded88e5f37860bd4c1eec9f00e39d803c5b8fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:31 +0000
Subject: [PATCH 30/73] fix: coupling crashed on locations that are not in
 every exchanged message

---
 flee/coupling.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 84a9f8a..d3d78ba 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -259,13 +259,8 @@ class CouplingInterface:
                                 csv_string=msg.data["newAgents"].split("\n")
                             )
 
-                            if len(newAgents) == 0:
-                                newAgents = curr_newAgent
-                            else:
-                                for name, newAgents_num in curr_newAgent.items():
-                                    if not isinstance(newAgents[name], list):
-                                        newAgents[name] = [newAgents[name]]
-                                    newAgents[name].append(newAgents_num)
+                            for name, newAgents_num in curr_newAgent.items():
+                                newAgents.setdefault(name, []).append(newAgents_num)
 
                         # combined founded newAgents per location by each
                         # instance into one
@@ -291,13 +286,8 @@ class CouplingInterface:
                                 csv_string=msg.data["newAgents"].split("\n")
                             )
 
-                            if len(newAgents) == 0:
-                                newAgents = curr_newAgent
-                            else:
-                                for name, newAgents_num in curr_newAgent.items():
-                                    if not isinstance(newAgents[name], list):
-                                        newAgents[name] = [newAgents[name]]
-                                    newAgents[name].append(newAgents_num)
+                            for name, newAgents_num in curr_newAgent.items():
+                                newAgents.setdefault(name, []).append(newAgents_num)
 
                         # combined founded newAgents per location by
                         # each instance into one
@@ -352,7 +342,7 @@ class CouplingInterface:
                     if "in" in self.directions[i]:
 
                         print(
-                            "Couple IN: {} {}".format(self.names[i], newAgents[self.names[i]]),
+                            "Couple IN: {} {}".format(self.names[i], newAgents.get(self.names[i])),
                             file=sys.stderr,
                         )
 
@@ -523,13 +513,8 @@ class CouplingInterface:
                 csv_string = csvfile.read().split("\n")
 
             curr_newAgent = self.extractNewAgentsFromCSVString(csv_string=csv_string)
-            if len(aggNewAgents) == 0:
-                aggNewAgents = curr_newAgent
-            else:
-                for name, newAgents_num in curr_newAgent.items():
-                    if not isinstance(aggNewAgents[name], list):
-                        aggNewAgents[name] = [aggNewAgents[name]]
-                    aggNewAgents[name].append(newAgents_num)
+            for name, newAgents_num in curr_newAgent.items():
+                aggNewAgents.setdefault(name, []).append(newAgents_num)
 
         # combined founded newAgents per location by each instance into one
         # for now, we use arithmetic mean,
-- 
2.43.0


From 8fdf6a83ae08aff72b86a508d7fcfbe7fa8c3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 31/73] fix: coupled submodels could read an exchange file that
 is not complete yet

---
 flee/coupling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index d3d78ba..b5fef54 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -2,6 +2,7 @@ from __future__ import annotations, print_function
 
 import csv
 import logging
+import os
 import os.path
 import sys
 import time
@@ -448,8 +449,11 @@ class CouplingInterface:
         csv_outputfile_name = "{}[{}].{}.csv".format(self.outputfilename, self.instance_index, day)
         csv_outputfile_path = os.path.join(self.outputdir, "file", "coupled", csv_outputfile_name)
 
-        with open(csv_outputfile_path, "a", encoding="utf-8") as file:
+        # The coupled submodel reads this file as soon as it exists, so it may
+        # only appear once it is complete.
+        with open(csv_outputfile_path + ".tmp", "w", encoding="utf-8") as file:
             file.write(out_csv_string)
+        os.replace(csv_outputfile_path + ".tmp", csv_outputfile_path)
 
         print(
             "{}[{}] t={} Couple: output written to {}".format(
-- 
2.43.0


From d362616bf9931cce68fbbe7b3a8374e2c30aefa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:19 +0000
Subject: [PATCH 32/73] fix: logging of exchanged data crashed with sequential
 Flee

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index b5fef54..0b0ffdb 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -625,7 +625,7 @@ class CouplingInterface:
             self.logTotalAgents = []
             # logTotalAgents.append([day,total_agents])
 
-        self.logTotalAgents.append([t, self.e.total_agents])
+        self.logTotalAgents.append([t, self.e.numAgents()])
 
         # save log of numAgents in locations
         if not hasattr(self, "logLocationsNumAgents"):
-- 
2.43.0


From 1d68e152532a87544bb3248f606c5610357effab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 33/73] fix: combined coupling output contained the last
 instance instead of the mean of all instances

---
 flee/coupling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 0b0ffdb..e5204a4 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -670,9 +670,11 @@ class CouplingInterface:
 
         for column_name in list(frame):
             if "error" not in column_name.lower():
-                frame[column_name].round(0).astype(int)
+                frame[column_name] = frame[column_name].round(0).astype(int)
 
-        df.to_csv(os.path.join(dirInputFiles, "out.csv"), encoding="utf-8", index=False)
+        frame.reset_index().to_csv(
+            os.path.join(dirInputFiles, "out.csv"), encoding="utf-8", index=False
+        )
 
     # ------------------------------------------------------------------------
     #                           Plotting functions
-- 
2.43.0


From 5fe38cf8d5f3234d5bad03a763855c142e7492b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:24 +0000
Subject: [PATCH 34/73] fix: weather-coupled links crashed if no weather record
 is exactly at the link midpoint

---
 flee/pmicro_flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/pmicro_flee.py b/flee/pmicro_flee.py
index 82f1450..e37d070 100644
--- a/flee/pmicro_flee.py
+++ b/flee/pmicro_flee.py
@@ -444,14 +444,14 @@ class Link_weather_coupling(pflee.Link):
         if latitude.empty:
             result_index = history.iloc[(history["latitude"] - self.latMid).abs().argsort()[:1]]
             latitude_index = result_index["latitude"].to_numpy()
-            latitude = history[history["latitude"] == float(latitude_index)]
+            latitude = history[history["latitude"] == float(latitude_index[0])]
 
         treshhold_tp = latitude[latitude["longitude"] == self.lonMid]
 
         if treshhold_tp.empty:
             result_index = latitude.iloc[(latitude["longitude"] - self.lonMid).abs().argsort()[:1]]
             longitude_index = result_index["longitude"].to_numpy()
-            treshhold_tp = latitude[latitude["longitude"] == float(longitude_index)]
+            treshhold_tp = latitude[latitude["longitude"] == float(longitude_index[0])]
 
         X1 = treshhold_tp["tp"].quantile(q=0.15)
         X2 = treshhold_tp["tp"].quantile(q=0.75)
-- 
2.43.0


From a2c4c755be54337571b5c9ca49524d2682153a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 35/73] fix: parallel Flee multiplied the number of IDPs by the
 number of ranks

---
 flee/pflee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 8381f39..b67a040 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -468,8 +468,8 @@ class Ecosystem(flee.Ecosystem):
             if loc.idpcamp:
                 num_idps += loc.numAgents
 
-        num_idps_all = self.mpi.CalcCommWorldTotalSingle(num_idps)
-        return num_idps_all
+        # loc.numAgents already holds the total across all ranks.
+        return num_idps
 
 
     @check_args_type
-- 
2.43.0


From 8bb0583d22da6a4c2fdb13fc8f1466bec4a767af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 36/73] fix: parallel Flee kept location scores of earlier
 simulations, which broke their synchronization

---
 flee/pflee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index b67a040..2522aa2 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -408,6 +408,7 @@ class Ecosystem(flee.Ecosystem):
             print("Creating Flee Ecosystem.", file=sys.stderr)
 
         self.cur_loc_id = 0
+        Ecosystem.scores = np.array([1.0, 1.0])  # drop locations of any previous Ecosystem.
         self.scores_per_location = 2
 
         # Bring conflict zone management into FLEE.
-- 
2.43.0


From 9c45d43a232842f83675d52f3e2159ad5957dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 37/73] fix: ranks of parallel Flee disagreed on how many
 agents spawn where

---
 flee/pflee.py    | 18 ++++++++++++++++++
 flee/spawning.py |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 2522aa2..e1dfff8 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -677,6 +677,24 @@ class Ecosystem(flee.Ecosystem):
             self.insertAgent(location=location)
 
 
+    @check_args_type
+    def pick_spawn_locations(self, number: int = 1) -> list:
+        """
+        Summary:
+            Parallel version of flee.pick_spawn_locations. All ranks use the
+            draw of rank 0, as all of them keep track of the spawned agents.
+
+        Args:
+            number (int, optional): The number of locations to sample. Defaults to 1.
+
+        Returns:
+            list[Location]: A list of locations.
+        """
+        location_ids = [loc.id for loc in super().pick_spawn_locations(number)]
+        location_ids = self.mpi.comm.bcast(location_ids, root=0)
+        return [self.locations[i] for i in location_ids]
+
+
     @check_args_type
     def clearLocationsFromAgents(self, location_names: List[str]) -> None:
         """
diff --git a/flee/spawning.py b/flee/spawning.py
index 692c682..1efe312 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -255,6 +255,8 @@ def spawn_daily_displaced(e, t, d):
 
             elif SimulationSettings.spawn_rules["conflict_spawn_mode"].lower() == "poisson":
                 num_spawned = np.random.poisson(SimulationSettings.spawn_rules["displaced_per_conflict_day"] * e.locations[i].conflict)
+                if hasattr(e, "mpi"): # All ranks need to spawn the same number of agents.
+                    num_spawned = e.mpi.comm.bcast(num_spawned, root=0)
 
         ## Doing the actual spawning here.
         for j in range(0, num_spawned):
@@ -282,6 +284,8 @@ def spawn_daily_displaced(e, t, d):
     
             elif SimulationSettings.spawn_rules["flood_spawn_mode"].lower() == "poisson":
                 num_spawned = np.random.poisson(int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level]))
+                if hasattr(e, "mpi"): # All ranks need to spawn the same number of agents.
+                    num_spawned = e.mpi.comm.bcast(num_spawned, root=0)
 
         ## Doing the actual spawning here.
         for j in range(0, num_spawned):
-- 
2.43.0


From b3605e5e91b55d9b41299b8b02e81e835c96cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 38/73] fix: run_par.py crashed if IDP totals are to be logged

---
 runscripts/run_par.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runscripts/run_par.py b/runscripts/run_par.py
index 751844c..72b9337 100644
--- a/runscripts/run_par.py
+++ b/runscripts/run_par.py
@@ -62,7 +62,7 @@ if __name__ == "__main__":
   output_header_string += "Total error,refugees in camps (UNHCR),total refugees (simulation),raw UNHCR refugee count,refugees in camps (simulation),refugee_debt"
 
   if SimulationSettings.log_levels["idp_totals"] > 0:
-      output += ",total IDPs".format(e.numIDPs())
+      output_header_string += ",total IDPs"
 
   if e.getRankN(0):
       print(output_header_string)
-- 
2.43.0


From bf744b84f5285f0cc6461a0a90407cc40cac42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:20 +0000
Subject: [PATCH 39/73] fix: conflict decay of zones created by location
 changes counted from the start of the simulation

---
 flee/flee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/flee.py b/flee/flee.py
index 64a35bf..305a950 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1387,6 +1387,7 @@ class Ecosystem:
         elif "conflict" in location_type.lower():
             l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
             l.conflict = float(l.attributes.get("conflict_intensity",1.0))
+            l.time_of_conflict = self.time
         elif "forward" in location_type.lower():
             l.movechance = 1.0
             l.forward = True
-- 
2.43.0


From ba2ec15782fb31c81b26d1268f04100539091a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:58 +0000
Subject: [PATCH 40/73] fix: simulations crashed on days without arrivals if no
 conflict zone is active

---
 flee/flee.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index 305a950..e4f5f48 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1605,6 +1605,9 @@ class Ecosystem:
         Returns:
             list[Location]: A list of unique locations.
         """
+        if number < 1:
+            return []
+
         spawn_weight_total = sum(self.spawn_weights)
 
         assert spawn_weight_total > 0
-- 
2.43.0


From 70c91bdc0522c784d2ecd69a66aca068a4874a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 41/73] fix: agent logs with region granularity contained the
 names of home locations

---
 flee/Diagnostics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index e799eac..1066645 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -103,11 +103,13 @@ def write_agents_par(
             if a.location is None: #Do not write agent logs for agents that are removed from the simulation.
                 continue
 
+            home_name = a.home_location.name
             loc_name = a.location.name
             x = a.location.x
             y = a.location.y
 
             if SimulationSettings.log_levels["granularity"] == "region":
+                home_name = get_region(a.home_location)
                 loc_name = get_region(a.location)
                 x = 0.0
                 y = 0.0
@@ -117,7 +119,7 @@ def write_agents_par(
                     time,
                     rank,
                     k,
-                    a.home_location.name,
+                    home_name,
                     loc_name,
                     x,
                     y,
@@ -148,7 +150,7 @@ def write_agents_par(
                                 hop_number,
                                 rank,
                                 k,
-                                a.home_location.name,
+                                home_name,
                                 loc_name,
                                 x,
                                 y,
@@ -176,7 +178,7 @@ def write_agents_par(
                                 time,
                                 rank,
                                 k,
-                                a.home_location.name,
+                                home_name,
                                 loc_name,
                                 x,
                                 y,
-- 
2.43.0


From 322aecaedab76bfaccc3696a5172f7d88d04a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:05 +0000
Subject: [PATCH 42/73] fix: demographics of one simulation leaked into the
 next one in the same process

---
 flee/spawning.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 1efe312..b28328b 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -17,7 +17,21 @@ else:
 __refugees_raw = 0
 __refugee_debt = 0
 
-__demographics = {}
+def _get_demographics(e):
+  """
+  Summary:
+      Get the demographics that were read for an ecosystem.
+
+  Args:
+      e (Ecosystem): Ecosystem object
+
+  Returns:
+      Dict: Dictionary of attribute names and their weight tables.
+  """
+  if not hasattr(e, "demographics"):
+      e.demographics = {}
+  return e.demographics
+
 
 
 def getAttributeRatio(location, attr_name):
@@ -108,7 +122,7 @@ def read_demographic_csv(e, csvname):
   if SimulationSettings.log_levels["init"] > -1:
     print("INFO: ", attribute, " attributes loaded, with columns:", df.columns, file=sys.stderr)
   
-  __demographics[attribute] = df
+  _get_demographics(e)[attribute] = df
 
 
 def read_demographics(e):
@@ -151,13 +165,14 @@ def draw_sample(e, loc, attribute):
   Returns:
       float: Sample from the attribute distribution.
   """
-  #print(__demographics[attribute], file=sys.stderr)
-  #print(__demographics[attribute].iloc[0]['Default'], file=sys.stderr)
-  if attribute in __demographics:
-    if loc.name in __demographics[attribute].columns:
-      a = __demographics[attribute].sample(n=1,weights=loc.name)
+  demographics = _get_demographics(e)
+  #print(demographics[attribute], file=sys.stderr)
+  #print(demographics[attribute].iloc[0]['Default'], file=sys.stderr)
+  if attribute in demographics:
+    if loc.name in demographics[attribute].columns:
+      a = demographics[attribute].sample(n=1,weights=loc.name)
     else:
-      a = __demographics[attribute].sample(n=1,weights='Default')
+      a = demographics[attribute].sample(n=1,weights='Default')
   else:
     return -1
 
@@ -177,7 +192,7 @@ def draw_samples(e,loc):
         Dict: Dictionary of attribute names and values.
     """
     samples = {}
-    for a in __demographics.keys():
+    for a in _get_demographics(e).keys():
         samples[a] = draw_sample(e, loc, a)
     return samples
 
@@ -195,9 +210,8 @@ def add_initial_refugees(e, d, loc):
   Returns:
       None.
   """
-  global __demographics
   # Only initialize demographics when first called.
-  if len(__demographics) == 0:
+  if len(_get_demographics(e)) == 0:
       read_demographics(e)
 
   if SimulationSettings.spawn_rules["EmptyCampsOnDay0"] is True:
-- 
2.43.0


From a306320bc9bd27dee3b13dee7d9cb97016017a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:01 +0000
Subject: [PATCH 43/73] fix: the order of agent attributes depended on the file
 system

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index b28328b..279acc2 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -145,7 +145,7 @@ def read_demographics(e):
   if not os.path.exists("input_csv"):
       return
 
-  csv_list = glob.glob(os.path.join("input_csv","demographics_*.csv"))
+  csv_list = sorted(glob.glob(os.path.join("input_csv","demographics_*.csv")))
 
   for csvname in csv_list:
       read_demographic_csv(e, csvname)
-- 
2.43.0


From 0baf997ed78bcfe156b4e086f53fac58c74a13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:15 +0000
Subject: [PATCH 44/73] fix: out.csv reported no refugees in camps and no debt
 if the raw refugee count is not positive

---
 runscripts/run.py     | 2 +-
 runscripts/run_par.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runscripts/run.py b/runscripts/run.py
index 99138f5..383f784 100644
--- a/runscripts/run.py
+++ b/runscripts/run.py
@@ -112,7 +112,7 @@ if __name__ == "__main__":
     if refugees_raw>0:
       output += ",%s,%s,%s,%s,%s,%s" % (float(np.sum(abs_errors))/float(refugees_raw), int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
     else:
-      output += ",0.0,0,{},0,{},0".format(e.numAgents(), refugees_in_camps_sim)
+      output += ",0.0,{},{},{},{},{}".format(int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
 
     if SimulationSettings.log_levels["idp_totals"] > 0:
       output += ",{}".format(e.numIDPs())
diff --git a/runscripts/run_par.py b/runscripts/run_par.py
index 72b9337..9646293 100644
--- a/runscripts/run_par.py
+++ b/runscripts/run_par.py
@@ -116,7 +116,7 @@ if __name__ == "__main__":
     if refugees_raw>0:
       output += ",%s,%s,%s,%s,%s,%s" % (float(np.sum(abs_errors))/float(refugees_raw), int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
     else:
-      output += ",0.0,0,{},0,{},0".format(e.numAgents(), refugees_in_camps_sim)
+      output += ",0.0,{},{},{},{},{}".format(int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
 
     if SimulationSettings.log_levels["idp_totals"] > 0:
       output += ",{}".format(e.numIDPs())
-- 
2.43.0


From 79b061b0a65e2f29cba2355e5039eb4e7caf119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:21 +0000
Subject: [PATCH 45/73] fix: refugee counts of an earlier run were reported by
 conflict- and flood-driven runs

---
 flee/spawning.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 279acc2..f5d63dd 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -251,6 +251,11 @@ def spawn_daily_displaced(e, t, d):
 
     SumFromCamps = SimulationSettings.spawn_rules["sum_from_camps"]
 
+    # Do not carry over refugee counts from an earlier simulation in the same process.
+    if t == 0:
+      __refugees_raw = 0
+      __refugee_debt = 0
+
     if SimulationSettings.spawn_rules["conflict_driven_spawning"] is True:
 
       for i in range(0, len(e.locations)):
@@ -311,11 +316,6 @@ def spawn_daily_displaced(e, t, d):
 
     else:
 
-      # Do not carry over refugee counts from an earlier simulation in the same process.
-      if t == 0:
-        __refugees_raw = 0
-        __refugee_debt = 0
-
       # Determine number of new refugees to insert into the system.
       new_refs = d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps) - __refugee_debt
       __refugees_raw += d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps)
-- 
2.43.0


From 393e35aea07fa3fd41c18e49b9546418eebb0237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:08 +0000
Subject: [PATCH 46/73] fix: plots and validation results crashed on camp names
 with spaces and on IDP totals

---
 .../extract-validation-results.py             |  4 ++--
 flee/postprocessing/plot_flee_output.py       | 22 +++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/flee/postprocessing/extract-validation-results.py b/flee/postprocessing/extract-validation-results.py
index 1822054..5f6f8c8 100644
--- a/flee/postprocessing/extract-validation-results.py
+++ b/flee/postprocessing/extract-validation-results.py
@@ -277,9 +277,9 @@ if __name__ == "__main__":
     rd_cols = list(refugee_data.columns.values)
     location_names = []
     for i in rd_cols:
-        if " sim" in i:
+        if i.endswith(" sim"):
             if "numAgents" not in i:
-                location_names.append(" ".join(i.split()[:-1]))
+                location_names.append(i[:-len(" sim")])
 
     if "refugee_debt" in refugee_data.columns:
         refugee_data.loc[
diff --git a/flee/postprocessing/plot_flee_output.py b/flee/postprocessing/plot_flee_output.py
index f5727a5..46e406b 100644
--- a/flee/postprocessing/plot_flee_output.py
+++ b/flee/postprocessing/plot_flee_output.py
@@ -125,28 +125,28 @@ def plot_camps(data: pd.DataFrame, config: str, output: str) -> None:
 
     for i in range(len(cols)):
 
-        name = cols[i].split()
-
-        if name[0]=="Date": #Date is not a camp field.
+        if not cols[i].endswith(" sim"): # One plot per camp; Date and total IDPs are not camp fields.
             continue
 
-        y1 = data_filtered["%s sim" % name[0]]
-        y2 = data_filtered["%s data" % name[0]]
+        name = cols[i][:-len(" sim")]
+
+        y1 = data_filtered["%s sim" % name]
+        y2 = data_filtered["%s data" % name]
           
         fig = matplotlib.pyplot.gcf()
         fig.set_size_inches(10, 8)
 
         plt.xlabel("Days elapsed", fontsize=14)
         plt.ylabel("Number of asylum seekers / unrecognised refugees", fontsize=14)
-        plt.title("{}".format(name[0]), fontsize=18)
+        plt.title("{}".format(name), fontsize=18)
 
-        (label1,) = plt.plot(data_filtered.index, y1, "r", linewidth=5, label="{} simulation".format(name[0]))
+        (label1,) = plt.plot(data_filtered.index, y1, "r", linewidth=5, label="{} simulation".format(name))
         
-        (label2,) = plt.plot(data_filtered.index, y2, "b", linewidth=5, label="{} UNHCR data".format(name[0]))
+        (label2,) = plt.plot(data_filtered.index, y2, "b", linewidth=5, label="{} UNHCR data".format(name))
 
         plt.legend(handles=[label1, label2], loc=0, prop={"size": 14})
 
-        plt.savefig("{}/{}.png".format(output, name[0]), bbox_inches = 'tight')
+        plt.savefig("{}/{}.png".format(output, name), bbox_inches = 'tight')
 
         plt.clf()
 
@@ -240,9 +240,9 @@ def plot_errors(data, config: str, output: str, model: str = "macro") -> None:
     location_names = []
 
     for i in cols:
-        if " sim" in i:
+        if i.endswith(" sim"):
             if "numAgents" not in i:
-                location_names.append(" ".join(i.split()[:-1]))
+                location_names.append(i[:-len(" sim")])
 
     for i in location_names:
         loc_errors.append(error_quantification(output, data, i, naieve_model=nmodel))
-- 
2.43.0


From b3e8bf1c1d9da1878fba5bf8761230423cd4c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 47/73] fix: comparisons of runs reported plain errors as
 rescaled ones and crashed on camp names with spaces

---
 flee/postprocessing/plot_flee_compare.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/flee/postprocessing/plot_flee_compare.py b/flee/postprocessing/plot_flee_compare.py
index ec1fc90..81622cf 100644
--- a/flee/postprocessing/plot_flee_compare.py
+++ b/flee/postprocessing/plot_flee_compare.py
@@ -18,9 +18,9 @@ def find_locations_names(merged_df):
     location_names = []
 
     for i in cols:
-            if " sim" in i:
+            if i.endswith(" sim"):
                 if "numAgents" not in i:
-                    location_names.append(' '.join(i.split()[:-1])) 
+                    location_names.append(i[:-len(" sim")])
 
     return location_names
 
@@ -73,7 +73,7 @@ def compare_errors(data_dir,output_dir,config_name,list_of_directories_names):
    
         diffdata = sim_errors.abs_diff(rescaled=False) / np.maximum(un_refs, np.ones(len(un_refs)))
 
-        diffdata_rescaled = sim_errors.abs_diff(rescaled=False) / np.maximum(un_refs, np.ones(len(un_refs)))
+        diffdata_rescaled = sim_errors.abs_diff(rescaled=True) / np.maximum(un_refs, np.ones(len(un_refs)))
         '''
         execution_time = os.path.join(output_dir,'execution_time.txt')
         
@@ -119,18 +119,7 @@ def compare_camps(data_dir,output_dir,list_of_directories_names):
 
         df=pd.read_csv(os.path.join(input_dir,'out.csv'),sep=',', encoding='latin1')
 
-        columns_list = list(df.columns.values)
-
-        columns_list = columns_list[2:-6]
-
-        camps_list =[]
-
-        for i in range(len(columns_list)):
-
-            camp_name = columns_list[i].split()
-            camps_list.append(camp_name[0])
-
-        camps_list = list(dict.fromkeys(camps_list))
+        camps_list = find_locations_names(df)
 
         for camp_name in camps_list:
 
-- 
2.43.0


From 27ab5647ca6301221e2582df5c5e665767ee3e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:58 +0000
Subject: [PATCH 48/73] fix: stored routes used outdated scores of locations
 later in the list

---
 flee/flee.py    | 6 ++++++
 flee/pflee.py   | 5 +++++
 flee/scoring.py | 5 -----
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index e4f5f48..abb5670 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -13,6 +13,7 @@ from flee.SimulationSettings import SimulationSettings
 import flee.moving as moving
 import flee.spawning as spawning
 import flee.scoring as scoring
+import flee.crawling as crawling
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
     from beartype import beartype as check_args_type
@@ -1638,6 +1639,11 @@ class Ecosystem:
             loc.routes = {}
             scoring.updateLocationScore(self.time, loc)
 
+        # Routes depend on the scores of other locations, so generate them once all scores are updated.
+        if SimulationSettings.move_rules["FixedRoutes"] is True:
+            for loc in self.locations:
+                crawling.generateLocationRoutes(loc, self.time)
+
         # update agent locations
         for a in self.agents:
             if SimulationSettings.log_levels["agent"] > 1:
diff --git a/flee/pflee.py b/flee/pflee.py
index e1dfff8..0d8eb78 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -834,6 +834,11 @@ class Ecosystem(flee.Ecosystem):
                 loc.routes = {}
                 scoring.updateLocationScore(self.time, loc)
 
+            # Routes depend on the scores of other locations, so generate them once all scores are updated.
+            if SimulationSettings.move_rules["FixedRoutes"] is True:
+                for loc in self.locations:
+                    crawling.generateLocationRoutes(loc, self.time)
+
         elif self.parallel_mode == "loc-par":
             # update scores in reverse order for efficiency.
             # Neighbourhood and Region score will be outdated by 1 and 2 time
diff --git a/flee/scoring.py b/flee/scoring.py
index 9d745f7..33bb71d 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -1,5 +1,4 @@
 from flee.SimulationSettings import SimulationSettings
-from flee import crawling
 import numpy as np
 import os
 
@@ -124,7 +123,3 @@ def updateLocationScore(time: int, loc) -> None:
     loc.setScore(1, score)
     # print(time, loc.name,loc.camp,loc.foreign,loc.scores)
 
-    if SimulationSettings.move_rules["FixedRoutes"] is True:
-        #print("INFO: Generating location routes.", file=sys.stderr)
-        crawling.generateLocationRoutes(loc, time)
-
-- 
2.43.0


From 9ad4b6e75988b7a48657121b1226d39325817db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:57 +0000
Subject: [PATCH 49/73] fix: markers counted as steps when generating stored
 routes

---
 flee/crawling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flee/crawling.py b/flee/crawling.py
index 401a44b..4f7dbca 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -144,6 +144,10 @@ def calculateLocCrawlLinkWeight(
 
       _addLocationRoute(source_loc, loc, link, prior_distance, origin_names, time, major=False)
 
+  else:
+
+      step -= 1
+
   if SimulationSettings.move_rules["AwarenessLevel"] > step:
       # Traverse the tree one step further.
       for lel in link.endpoint.links:
-- 
2.43.0


From 9f28e925afb85cf04732a5e95b6717514414f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:24 +0000
Subject: [PATCH 50/73] fix: parallel Flee aborted when agents were added to a
 location without population

---
 flee/pflee.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 0d8eb78..30096f1 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -621,20 +621,21 @@ class Ecosystem(flee.Ecosystem):
             None.
         """
         if SimulationSettings.spawn_rules["TakeFromPopulation"]:
-            if location.pop > 1: 
+            if location.pop > 0:
                 location.pop -= 1
-                # Every rank adds every agent, but the spawn counts are summed over
-                # ranks in evolve(), so only the owning rank counts it.
-                if (self.total_agents + 1) % self.mpi.size == self.mpi.rank:
-                    location.numAgentsSpawnedOnRank += 1
-                location.numAgentsSpawned += 1
             else:
                 print(
-                    "ERROR: Number of agents in the simulation is larger than the combined "
-                    "population of the conflict zones. Please amend locations.csv." 
+                    "WARNING: Number of agents in the simulation is larger than the"
+                    "population of the conflict zone.",
+                    file=sys.stderr,
                 )
                 location.print()
-                assert location.pop > 1
+            # Every rank adds every agent, but the spawn counts are summed over
+            # ranks in evolve(), so only the owning rank counts it.
+            if (self.total_agents + 1) % self.mpi.size == self.mpi.rank:
+                location.numAgentsSpawnedOnRank += 1
+            location.numAgentsSpawned += 1
+
         self.total_agents += 1
         if self.total_agents % self.mpi.size == self.mpi.rank:
             self.agents.append(Person(self, location=location, attributes=attributes))
-- 
2.43.0


From fb72ed238aee5de989e0a17b29dd16e1be2d37bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:06 +0000
Subject: [PATCH 51/73] fix: read exchange logs that have a single row or
 column

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index e5204a4..ec9f93b 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -905,7 +905,7 @@ class CouplingInterface:
 
         for fname in inputFileNames:
             with open(os.path.join(dirInputFiles, fname), "rb") as csvfile:
-                data = np.loadtxt(csvfile, delimiter=",", skiprows=1)
+                data = np.loadtxt(csvfile, delimiter=",", skiprows=1, ndmin=2)
 
                 # keep day column for plotting purpose
                 if len(days) == 0:
-- 
2.43.0


From 8bb0111e6d26c57663fb57ea48f99ada93208626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:09 +0000
Subject: [PATCH 52/73] fix: agents could not travel on weather-coupled links

---
 flee/pmicro_flee.py | 43 +------------------------------------------
 1 file changed, 1 insertion(+), 42 deletions(-)

diff --git a/flee/pmicro_flee.py b/flee/pmicro_flee.py
index e37d070..47aaa04 100644
--- a/flee/pmicro_flee.py
+++ b/flee/pmicro_flee.py
@@ -249,24 +249,11 @@ class Link_weather_coupling(pflee.Link):
         Returns:
             None.
         """
-        self.name = "L:{}:{}".format(startpoint.name, endpoint.name)
-        self.closed = False
+        super().__init__(startpoint, endpoint, distance, forced_redirection)
 
         # distance in km.
         self.__distance = float(distance)
 
-        # links for now always connect two endpoints
-        self.startpoint = startpoint
-        self.endpoint = endpoint
-
-        # number of agents that are in transit.
-        self.numAgents = 0
-        # refugee population on current rank (for pflee).
-        self.numAgentsOnRank = 0
-
-        # if True, then all Persons will go down this link.
-        self.forced_redirection = forced_redirection
-
         self.link_type = link_type
 
         self.latMid, self.lonMid = self.midpoint()
@@ -290,34 +277,6 @@ class Link_weather_coupling(pflee.Link):
             ]
 
 
-    def DecrementNumAgents(self):
-        """
-        Summary:
-            Decrement the number of agents on this link by 1.
-
-        Args:
-            None.
-
-        Returns:
-            None.
-        """
-        self.numAgents -= 1
-
-
-    def IncrementNumAgents(self):
-        """
-        Summary:
-            Increment the number of agents on this link by 1.
-
-        Args:
-            None.
-
-        Returns:
-            None.
-        """
-        self.numAgents += 1
-
-
     @check_args_type
     def get_start_date(self, time: int):
         """
-- 
2.43.0


From 4f3996c6075f4191c126e009efba63c56736cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 53/73] fix: the simulation could not ask for the distance of
 weather-coupled links

---
 flee/pmicro_flee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flee/pmicro_flee.py b/flee/pmicro_flee.py
index 47aaa04..40f3bea 100644
--- a/flee/pmicro_flee.py
+++ b/flee/pmicro_flee.py
@@ -465,17 +465,20 @@ class Link_weather_coupling(pflee.Link):
 
 
     @check_args_type
-    def get_distance(self, time: int) -> float:
+    def get_distance(self, time: Optional[int] = None) -> float:
         """
         Summary:
             Get the distance of the link.
 
         Args:
-            time (int): time of the conflict
+            time (int, optional): day of the simulation. Defaults to the current day.
 
         Returns:
             new_distance (float): distance of the link      
         """
+        if time is None:
+            time = self.startpoint.e.time
+
         if len(weather_source_files) == 0:
             print("Error!!! there is NO input file names for weather coupling")
             sys.exit()
-- 
2.43.0


From 88d214f9cdebe52dc3d14f388b3f77c334c69497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:55 +0000
Subject: [PATCH 54/73] fix: micro models without link types failed type checks

---
 flee/pmicro_flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/pmicro_flee.py b/flee/pmicro_flee.py
index 40f3bea..752198d 100644
--- a/flee/pmicro_flee.py
+++ b/flee/pmicro_flee.py
@@ -129,7 +129,7 @@ class Ecosystem(pflee.Ecosystem):
         endpoint2: str,
         distance: float = 1.0,
         forced_redirection: bool = False,
-        link_type: str = None,
+        link_type: Optional[str] = None,
     ) -> None:
         """
         Summary:
@@ -203,7 +203,7 @@ class Link(pflee.Link):
         endpoint,
         distance: float,
         forced_redirection: bool = False,
-        link_type: str = None,
+        link_type: Optional[str] = None,
     ):
         """
         Summary:
-- 
2.43.0


From c35ec1888e8be9f494db458e1689d750e042ed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:37 +0000
Subject: [PATCH 55/73] fix: micro models read locations.csv in an outdated
 order of columns

---
 flee/micro_InputGeography.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index 7a96aeb..d7a3a51 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -58,7 +58,7 @@ class InputGeography(based_InputGeography_class):
             values = csv.reader(csvfile)
 
             for row in values:
-                if row[0][0] == "#":
+                if len(row) == 0 or row[0][0] == "#":
                     pass
                 else:
                     # print(row)
@@ -109,28 +109,28 @@ class InputGeography(based_InputGeography_class):
             name = loc[0]
 
             # if population field is empty, just set it to 0.
-            if len(loc[1]) < 1:
+            if len(loc[7]) < 1:
                 population = 0
             else:
-                population = int(loc[1]) // SimulationSettings.optimisations["PopulationScaleDownFactor"]
+                population = int(loc[7]) // SimulationSettings.optimisations["PopulationScaleDownFactor"]
 
-            x = float(loc[2]) if len(loc[2]) > 0 else 0.0
-            y = float(loc[3]) if len(loc[3]) > 0 else 0.0
+            x = float(loc[3]) if len(loc[3]) > 0 else 0.0
+            y = float(loc[4]) if len(loc[4]) > 0 else 0.0
 
-            # if population field is empty, just set it to 0.
-            if len(loc[7]) < 1:
+            # if country field is empty, just set it to unknown.
+            if len(loc[2]) < 1:
                 country = "unknown"
             else:
-                country = loc[7]
+                country = loc[2]
 
             # print(loc, file=sys.stderr)
-            location_type = loc[4]
+            location_type = loc[5]
             if "conflict" in location_type.lower():
                 num_conflict_zones += 1
-                if int(loc[5]) > 0:
+                if int(loc[6]) > 0:
                     location_type = "town"
 
-            if "camp" in loc[4].lower():
+            if "camp" in loc[5].lower():
                 lm[name] = e.addLocation(
                     name=name,
                     location_type=location_type,
-- 
2.43.0


From 4978aba32ceda2d6d48aac4b13181d98643fae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:40 +0000
Subject: [PATCH 56/73] fix: micro models could not add conflict zones of later
 days

---
 flee/micro_InputGeography.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index d7a3a51..b235b9c 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -194,4 +194,6 @@ class InputGeography(based_InputGeography_class):
                 file=sys.stderr,
             )
 
+        self.ReadLocationChangesFromCSV("location_changes.csv")
+
         return e, lm
-- 
2.43.0


From 62958867c67cb1c860c58dd235f8e6fbd3b7405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:19 +0000
Subject: [PATCH 57/73] fix: multiscale run script used functions and inputs
 that no longer exist

---
 multiscale/run_mscale.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/multiscale/run_mscale.py b/multiscale/run_mscale.py
index 969894f..5e4eac3 100644
--- a/multiscale/run_mscale.py
+++ b/multiscale/run_mscale.py
@@ -5,7 +5,8 @@ import sys
 
 import numpy as np
 import pandas as pd
-from flee import coupling  # coupling interface for multiscale models
+from flee.SimulationSettings import SimulationSettings
+from flee import coupling, spawning  # coupling interface for multiscale models
 from flee.datamanager import handle_refugee_data, read_period
 from flee.postprocessing import analysis as a
 
@@ -19,7 +20,7 @@ def AddInitialRefugees(e, d, loc):
     """
     num_refugees = int(d.get_field(name=loc.name, day=0, FullInterpolation=True))
     for _ in range(0, num_refugees):
-        e.addAgent(location=loc)
+        e.insertAgent(location=loc)
 
 
 def read_coupled_locations(csv_inputfile):
@@ -72,8 +73,7 @@ def run_micro_macro_model(e, c, submodel, ig, d, camp_locations, end_time):
             if submodel == "macro":
                 print("t={}, inserting {} new agents".format(t, new_refs), file=sys.stderr)
                 # e.add_agents_to_conflict_zones(number=new_refs)
-                for _ in range(0, new_refs):
-                    e.addAgent(location=e.pick_conflict_location())
+                spawning.spawn_agents(e, new_refs)
                 e.updateNumAgents(log=False)
 
             # e.printInfo()
@@ -83,7 +83,7 @@ def run_micro_macro_model(e, c, submodel, ig, d, camp_locations, end_time):
             # work correctly.
             c.Couple(time=t)
 
-            e.refresh_conflict_weights()
+            spawning.refresh_spawn_weights(e)
 
             # e.enact_border_closures(time=t)
             e.evolve()
@@ -212,6 +212,14 @@ if __name__ == "__main__":
         help="boolean flag to enable/disable weather coupling",
     )
 
+    parser.add_argument(
+        "--simsetting",
+        action="store",
+        type=str,
+        default=os.path.join(os.path.dirname(work_dir), "empty.yml"),
+        help="the simulation settings file",
+    )
+
     args, unknown = parser.parse_known_args()
 
     print("args: {}".format(args), file=sys.stderr)
@@ -335,6 +343,11 @@ if __name__ == "__main__":
     else:
         outputdir = os.path.join(work_dir, "out")
 
+    SimulationSettings.ReadFromYML(args.simsetting)
+    SimulationSettings.ConflictInputFile = os.path.join(
+        data_dir, "conflicts-{}.csv".format(submodel_id)
+    )
+
     e = flee.Ecosystem()
 
     c = coupling.CouplingInterface(
@@ -363,10 +376,6 @@ if __name__ == "__main__":
 
     ig = InputGeography.InputGeography()
 
-    ig.ReadFlareConflictInputCSV(
-        csv_name=os.path.join(data_dir, "conflicts-{}.csv".format(submodel_id))
-    )
-
     ig.ReadLocationsFromCSV(csv_name=os.path.join(data_dir, "locations-{}.csv".format(submodel_id)))
 
     ig.ReadLinksFromCSV(csv_name=os.path.join(data_dir, "routes-{}.csv".format(submodel_id)))
-- 
2.43.0


From c198dbdcd5f17c7281aa0c527d8d10159c94a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:40 +0000
Subject: [PATCH 58/73] fix: exchange logs could be read before they are
 complete

---
 flee/coupling.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index ec9f93b..9461012 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -551,10 +551,11 @@ class CouplingInterface:
             )
             # output csv header
             header_csv = "day,total_agents"
-            with open(outputfile, "a", encoding="utf-8") as file:
+            with open(outputfile + ".tmp", "w", encoding="utf-8") as file:
                 file.write("{}\n".format(header_csv))
                 csvWriter = csv.writer(file, delimiter=",")
                 csvWriter.writerows(self.logTotalAgents)
+            os.replace(outputfile + ".tmp", outputfile)
 
         # save logLocationsNumAgents to file
         if hasattr(self, "logLocationsNumAgents"):
@@ -569,10 +570,11 @@ class CouplingInterface:
                 if "out" in self.directions[i]:
                     header_csv += ",{}".format(self.names[i])
 
-            with open(outputfile, "a", encoding="utf-8") as file:
+            with open(outputfile + ".tmp", "w", encoding="utf-8") as file:
                 file.write("{}\n".format(header_csv))
                 csvWriter = csv.writer(file, delimiter=",")
                 csvWriter.writerows(self.logLocationsNumAgents)
+            os.replace(outputfile + ".tmp", outputfile)
 
         # save logNewRefugees to file
         if hasattr(self, "logNewRefugees"):
@@ -582,10 +584,11 @@ class CouplingInterface:
             )
             # output csv header
             header_csv = "day,new_refs"
-            with open(outputfile, "a", encoding="utf-8") as file:
+            with open(outputfile + ".tmp", "w", encoding="utf-8") as file:
                 file.write("{}\n".format(header_csv))
                 csvWriter = csv.writer(file, delimiter=",")
                 csvWriter.writerows(self.logNewRefugees)
+            os.replace(outputfile + ".tmp", outputfile)
 
 
     @check_args_type
-- 
2.43.0


From 4c602373135805e16682178a39335efc7592c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:34 +0000
Subject: [PATCH 59/73] fix: keep the score of a destination a float when boys
 take risks (FLEE_TYPE_CHECK)

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index fa37a3c..7e1b4a2 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -44,7 +44,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["BoysTakeRisk"]:
             if agent.attributes["gender"]=="male" and agent.attributes["age"]>14:
                 # Hypothesis that perceived safety does not affect routing decisions for teenage boys.
-                base = 1 
+                base = 1.0
 
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
-- 
2.43.0


From 7119a9e735884ee34301a52e49e814da955cd40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:44 +0000
Subject: [PATCH 60/73] fix: correct the type annotations of the error measures
 and the validation report (FLEE_TYPE_CHECK)

---
 flee/postprocessing/analysis.py               | 22 +++++++++----------
 .../extract-validation-results.py             |  3 +--
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/flee/postprocessing/analysis.py b/flee/postprocessing/analysis.py
index 3d6f016..902d7f2 100644
--- a/flee/postprocessing/analysis.py
+++ b/flee/postprocessing/analysis.py
@@ -1,6 +1,6 @@
 import os
 from functools import wraps
-from typing import List, Union
+from typing import Union
 
 import numpy as np
 
@@ -71,7 +71,7 @@ def abs_diffs(forecast_vals: np.ndarray, correct_vals: np.ndarray) -> np.ndarray
 
 
 @check_args_type
-def mean_abs_diffs(forecast_vals: np.ndarray, correct_vals: np.ndarray) -> np.ndarray:
+def mean_abs_diffs(forecast_vals: np.ndarray, correct_vals: np.ndarray) -> float:
     """
     Summary
 
@@ -80,13 +80,13 @@ def mean_abs_diffs(forecast_vals: np.ndarray, correct_vals: np.ndarray) -> np.nd
         correct_vals (np.ndarray): Description
 
     Returns:
-        np.ndarray: Description
+        float: Description
     """
     return np.round(np.mean(np.abs(forecast_vals - correct_vals)), ROUND_NDIGITS)
 
 
 @check_args_type
-def calculate_ln_accuracy_ratio(forecast_vals: np.ndarray, actual_vals: np.ndarray) -> np.ndarray:
+def calculate_ln_accuracy_ratio(forecast_vals: np.ndarray, actual_vals: np.ndarray) -> float:
     """
     Calculate the log of the accuracy ratio (forecast / actual)
     Return -1 if there is a 0 in the actual values
@@ -96,25 +96,25 @@ def calculate_ln_accuracy_ratio(forecast_vals: np.ndarray, actual_vals: np.ndarr
         actual_vals (np.ndarray): Description
 
     Returns:
-        np.ndarray: Description
+        float: Description
     """
     return np.round(np.mean(np.abs(np.log(forecast_vals / actual_vals))), ROUND_NDIGITS)
 
 
 @check_args_type
 def calculate_MASE(
-    forecast_vals: List[float],
-    actual_vals: List[float],
-    naieve_vals: List[float],
+    forecast_vals: np.ndarray,
+    actual_vals: np.ndarray,
+    naieve_vals: np.ndarray,
     start_of_forecast_period: int = 30,
 ) -> float:
     """
     Calculate the Mean Absolute Scaled Error.
 
     Args:
-        forecast_vals (List[float]): Description
-        actual_vals (List[float]): Description
-        naieve_vals (List[float]): Description
+        forecast_vals (np.ndarray): Description
+        actual_vals (np.ndarray): Description
+        naieve_vals (np.ndarray): Description
         start_of_forecast_period (int, optional): Description
 
     Returns:
diff --git a/flee/postprocessing/extract-validation-results.py b/flee/postprocessing/extract-validation-results.py
index 5f6f8c8..bd84eb6 100644
--- a/flee/postprocessing/extract-validation-results.py
+++ b/flee/postprocessing/extract-validation-results.py
@@ -2,7 +2,6 @@ import os
 import sys
 import warnings
 from functools import wraps
-from typing import Type
 
 # from flee.datamanager import handle_refugee_data
 import flee.postprocessing.analysis as a
@@ -98,7 +97,7 @@ class SimulationErrors:
 
 
 @check_args_type
-def plotme(data: Type[pd.DataFrame], name: str, naieve_model: bool = True) -> "LocationErrors":
+def plotme(data: pd.DataFrame, name: str, naieve_model: bool = True) -> "LocationErrors":
     """
     Advanced plotting function for validation of refugee registration numbers in camps.
 
-- 
2.43.0


From 80b90701dabd007f8293d43e231a736a020d35ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:39 +0000
Subject: [PATCH 61/73] fix: return the number of IDPs of a parallel run as int
 (FLEE_TYPE_CHECK)

---
 flee/pflee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 30096f1..7e1ca61 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -470,7 +470,7 @@ class Ecosystem(flee.Ecosystem):
                 num_idps += loc.numAgents
 
         # loc.numAgents already holds the total across all ranks.
-        return num_idps
+        return int(num_idps)
 
 
     @check_args_type
-- 
2.43.0


From a3aedf8b38565da47572451c3c2b67f4a654e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:59 +0000
Subject: [PATCH 62/73] fix: people inserted in camps on day 0 no longer use up
 the capacity twice

---
 flee/spawning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index f5d63dd..0fd19f6 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -328,7 +328,8 @@ def spawn_daily_displaced(e, t, d):
 
           for l in e.locations:
               #print(l.name, l.capacity, d.day0pops.get(l.name,0),  file=sys.stderr)
-              if l.capacity > 0 :
+              # People in the camp on Day 0 are agents (and count as its occupants), unless camps start empty.
+              if l.capacity > 0 and SimulationSettings.spawn_rules["EmptyCampsOnDay0"] is True:
                   l.capacity -= int(float(d.day0pops.get(l.name,0)))
               #print(l.name, l.capacity, file=sys.stderr)
 
-- 
2.43.0


From 4b2f6a398687f9a77aac31d22a2cbb551c641a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:47 +0000
Subject: [PATCH 63/73] fix: camps that start empty but have no room left are
 not without limit

---
 flee/spawning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 0fd19f6..69ecad6 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -330,7 +330,8 @@ def spawn_daily_displaced(e, t, d):
               #print(l.name, l.capacity, d.day0pops.get(l.name,0),  file=sys.stderr)
               # People in the camp on Day 0 are agents (and count as its occupants), unless camps start empty.
               if l.capacity > 0 and SimulationSettings.spawn_rules["EmptyCampsOnDay0"] is True:
-                  l.capacity -= int(float(d.day0pops.get(l.name,0)))
+                  # A capacity below 1 would mean no limit, so a camp that is full keeps a capacity of 1.
+                  l.capacity = max(1, l.capacity - int(float(d.day0pops.get(l.name,0))))
               #print(l.name, l.capacity, file=sys.stderr)
 
 
-- 
2.43.0


From 004ed7f44894fb9dddd3fbd6691b124e3e9e9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:38 +0000
Subject: [PATCH 64/73] fix: forecast plots crashed on date columns, camp names
 with spaces and regions named elsewhere in the path

---
 flee/postprocessing/plot_flee_forecast.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flee/postprocessing/plot_flee_forecast.py b/flee/postprocessing/plot_flee_forecast.py
index df25a65..6a58afe 100644
--- a/flee/postprocessing/plot_flee_forecast.py
+++ b/flee/postprocessing/plot_flee_forecast.py
@@ -52,7 +52,7 @@ def plot_flee_forecast(input_dir: str, region_names: list = None) -> None:
     # available config folder names in RUNS directory
     if region_names is None:
         region_names = []
-    region_names.append("")
+    region_names = region_names + [""]
     # print("region_names = {}".format(region_names))
 
     # clear the result_plots directory
@@ -76,7 +76,7 @@ def plot_flee_forecast(input_dir: str, region_names: list = None) -> None:
                 f
                 for f in glob.glob(input_dir + "/RUNS/**/out.csv")
                 if region_name in os.path.abspath(f)
-                and os.path.basename(os.path.dirname(f)).index(region_name) == 0
+                and os.path.basename(os.path.dirname(f)).startswith(region_name)
             ]
 
         # print("Collected out.csv files for analysis:")
@@ -100,11 +100,11 @@ def plot_flee_forecast(input_dir: str, region_names: list = None) -> None:
 
         frame.to_csv("{}/all_out.csv".format(output_dir), index=False)
 
-        mean_df = frame.groupby(["Day"]).mean()
+        mean_df = frame.groupby(["Day"]).mean(numeric_only=True)
 
         mean_df = mean_df.reset_index()
 
-        std_df = frame.groupby(["Day"]).std()
+        std_df = frame.groupby(["Day"]).std(numeric_only=True)
 
         std_df = std_df.reset_index()
 
@@ -134,8 +134,8 @@ def plot_flee_forecast(input_dir: str, region_names: list = None) -> None:
         # find the camps camp_names
         camp_names = []
         for col in list(dfList[0].columns.values):
-            if col.find(" data") != -1:
-                camp_names.append(col.split()[0])
+            if col.endswith(" data"):
+                camp_names.append(col[:-len(" data")])
 
         # print(camp_names)
 
-- 
2.43.0


From c418d7f6f705cfa5a2948113191132cadbb5ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:38 +0000
Subject: [PATCH 65/73] fix: uncertainty plots crashed on date columns, on
 whole numbers to be rescaled and under type checks

---
 flee/postprocessing/plot_flee_uq_output.py | 35 +++++++++++-----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/flee/postprocessing/plot_flee_uq_output.py b/flee/postprocessing/plot_flee_uq_output.py
index 1e252de..b36c9ff 100644
--- a/flee/postprocessing/plot_flee_uq_output.py
+++ b/flee/postprocessing/plot_flee_uq_output.py
@@ -2,7 +2,6 @@ import os
 import sys
 import warnings
 from functools import wraps
-from typing import Type
 
 import flee.postprocessing.analysis as a
 import matplotlib
@@ -120,14 +119,14 @@ def set_margins(
 
 
 @check_args_type
-def plotme_minimal(out_dir: str, data: Type[pd.DataFrame], name: str) -> None:
+def plotme_minimal(out_dir: str, data: pd.DataFrame, name: str) -> None:
     """
     Explaining minimal graphs: populating data points
     to generate graphs and an example
 
     Args:
         out_dir (str): Description
-        data (Type[pd.DataFrame]): Description
+        data (pd.DataFrame): Description
         name (str): Description
     """
 
@@ -186,7 +185,7 @@ def plotme_minimal(out_dir: str, data: Type[pd.DataFrame], name: str) -> None:
 @check_args_type
 def plotme(
     out_dir: str,
-    data: Type[pd.DataFrame],
+    data: pd.DataFrame,
     name: str,
     offset: int = 0,
     legend_loc: int = 4,
@@ -205,7 +204,7 @@ def plotme(
 
     Args:
         out_dir (str): Description
-        data (Type[pd.DataFrame]): Description
+        data (pd.DataFrame): Description
         name (str): Description
         offset (int, optional): Description
         legend_loc (int, optional): Description
@@ -223,13 +222,13 @@ def plotme(
     """
     plt.clf()
 
-    y1 = data.groupby(["Day"]).mean()["%s sim" % name].to_numpy()
-    y2 = data.groupby(["Day"]).mean()["%s data" % name].to_numpy()
+    y1 = data.groupby(["Day"]).mean(numeric_only=True)["%s sim" % name].to_numpy()
+    y2 = data.groupby(["Day"]).mean(numeric_only=True)["%s data" % name].to_numpy()
 
     # calculate error bar based on the standard deviation
     # as the height of our error bars
-    y1err = data.groupby(["Day"]).std()["%s sim" % name].to_numpy() * 2.0
-    y2err = data.groupby(["Day"]).std()["%s data" % name].to_numpy() * 2.0
+    y1err = data.groupby(["Day"]).std(numeric_only=True)["%s sim" % name].to_numpy() * 2.0
+    y2err = data.groupby(["Day"]).std(numeric_only=True)["%s data" % name].to_numpy() * 2.0
 
     days = np.arange(len(y1))
 
@@ -329,9 +328,9 @@ def plotme(
     plt.ylabel("Number of refugees")
     handles_set = []
 
-    untot = data.groupby(["Day"]).mean()["refugees in camps (UNHCR)"].to_numpy().flatten()
-    y1_rescaled = data.groupby(["Day"]).mean()["%s sim rescaled" % name].to_numpy()
-    y1_rescalederr = data.groupby(["Day"]).std()["%s sim rescaled" % name].to_numpy() * 2.0
+    untot = data.groupby(["Day"]).mean(numeric_only=True)["refugees in camps (UNHCR)"].to_numpy().flatten()
+    y1_rescaled = data.groupby(["Day"]).mean(numeric_only=True)["%s sim rescaled" % name].to_numpy()
+    y1_rescalederr = data.groupby(["Day"]).std(numeric_only=True)["%s sim rescaled" % name].to_numpy() * 2.0
 
     if Filled is False:
         labelsim = plt.errorbar(
@@ -570,12 +569,12 @@ def plot_flee_uq_output(in_dir: str, out_dir: str) -> None:
 
     location_names = []
     for i in rd_cols:
-        if " sim" in i:
+        if i.endswith(" sim"):
             if "numAgents" not in i:
-                location_names.append(" ".join(i.split()[:-1]))
+                location_names.append(i[:-len(" sim")])
 
     for name in location_names:
-        refugee_data["%s sim rescaled" % name] = refugee_data["%s sim" % name]
+        refugee_data["%s sim rescaled" % name] = refugee_data["%s sim" % name].astype(float)
 
     end_ch = "\r"
     for i in range(0, len(refugee_data)):
@@ -609,7 +608,7 @@ def plot_flee_uq_output(in_dir: str, out_dir: str) -> None:
     if "refugee_debt" in refugee_data.columns:
         numagents_data = (
             refugee_data.groupby(["Day"])
-            .mean()
+            .mean(numeric_only=True)
             .loc[
                 :,
                 [
@@ -623,7 +622,7 @@ def plot_flee_uq_output(in_dir: str, out_dir: str) -> None:
     else:
         numagents_data = (
             refugee_data.groupby(["Day"])
-            .mean()
+            .mean(numeric_only=True)
             .loc[
                 :,
                 [
@@ -693,7 +692,7 @@ def plot_flee_uq_output(in_dir: str, out_dir: str) -> None:
 
     un_refs = (
         refugee_data.groupby(["Day"])
-        .mean()
+        .mean(numeric_only=True)
         .loc[:, ["refugees in camps (UNHCR)"]]
         .to_numpy()
         .flatten()
-- 
2.43.0


From c821b3d353b3fb0bdf5983d826f41239f68d6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:38 +0000
Subject: [PATCH 66/73] fix: interactive plots crashed on camp names with
 spaces and on IDP totals

---
 flee/postprocessing/plotly_flee_output.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/flee/postprocessing/plotly_flee_output.py b/flee/postprocessing/plotly_flee_output.py
index 10fbdb7..c8dc9d2 100644
--- a/flee/postprocessing/plotly_flee_output.py
+++ b/flee/postprocessing/plotly_flee_output.py
@@ -124,19 +124,19 @@ def plot_camps(data: pd.DataFrame, config: str, output: str) -> None:
 
     for i in range(len(cols)):
 
-        name = cols[i].split()
-
-        if name[0]=="Date": #Date is not a camp field.
+        if not cols[i].endswith(" sim"): # Only camps have such a field.
             continue
-        
-        fig = px.line(data_filtered, x=data_filtered.index, y=[f"{name[0]} sim", f"{name[0]} data"],
+
+        name = cols[i][:-len(" sim")]
+
+        fig = px.line(data_filtered, x=data_filtered.index, y=[f"{name} sim", f"{name} data"],
                       labels={"x": "Days elapsed", "y": "Number of asylum seekers / unrecognised refugees"},
-                      title=f"{name[0]} camp")
+                      title=f"{name} camp")
 
         fig.update_layout(showlegend=True, legend_title_text='', legend=dict(orientation="h", yanchor="bottom", y=1.02, xanchor="right", x=1))
         fig.update_xaxes(title_text="Days elapsed")
         fig.update_yaxes(title_text="Refugees")
-        fig.write_html("{}/{}.html".format(output, name[0]))
+        fig.write_html("{}/{}.html".format(output, name))
 
 @check_args_type
 def plot_numagents(data: pd.DataFrame, config: str, output: str) -> None:
@@ -175,9 +175,9 @@ def plot_errors(data, config: str, output: str, model: str = "macro") -> None:
     location_names = []
 
     for i in cols:
-        if " sim" in i:
+        if i.endswith(" sim"):
             if "numAgents" not in i:
-                location_names.append(" ".join(i.split()[:-1]))
+                location_names.append(i[:-len(" sim")])
 
     for i in location_names:
         loc_errors.append(error_quantification(output, data, i, naieve_model=nmodel))
-- 
2.43.0


From 131590c1b12e20d49a810240eb0ae65d9714d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:38 +0000
Subject: [PATCH 67/73] fix: the precipitation script crashed on every input
 with current numpy

---
 multiscale/micro_discharge_filtered_csv.py | 2 +-
 multiscale/precipitation.py                | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/multiscale/micro_discharge_filtered_csv.py b/multiscale/micro_discharge_filtered_csv.py
index eb3a2a1..a169968 100644
--- a/multiscale/micro_discharge_filtered_csv.py
+++ b/multiscale/micro_discharge_filtered_csv.py
@@ -44,7 +44,7 @@ def return_date(day):
     date_1 = datetime.datetime.strptime(start_date, "%Y-%m-%d").date()
 
     if isinstance(day, np.generic):
-        day = np.asscalar(day)
+        day = day.item()
 
     date = date_1 + datetime.timedelta(day)
 
diff --git a/multiscale/precipitation.py b/multiscale/precipitation.py
index 9b2e4d4..c205bde 100644
--- a/multiscale/precipitation.py
+++ b/multiscale/precipitation.py
@@ -53,14 +53,14 @@ def X1_X2(link, date):
     if latitude.empty:
         result_index = history.iloc[(history["latitude"] - latMid).abs().argsort()[:1]]
         latitude_index = result_index["latitude"].to_numpy()
-        latitude = history[history["latitude"] == float(latitude_index)]
+        latitude = history[history["latitude"] == float(latitude_index[0])]
 
     treshhold_tp = latitude[latitude["longitude"] == lonMid]
 
     if treshhold_tp.empty:
         result_index = latitude.iloc[(latitude["longitude"] - lonMid).abs().argsort()[:1]]
         longitude_index = result_index["longitude"].to_numpy()
-        treshhold_tp = latitude[latitude["longitude"] == float(longitude_index)]
+        treshhold_tp = latitude[latitude["longitude"] == float(longitude_index[0])]
 
     X1 = treshhold_tp["tp"].quantile(q=0.15)
     X2 = treshhold_tp["tp"].quantile(q=0.75)
@@ -126,7 +126,7 @@ def midpoint_tp(link, date):
     midpoint_longitude = midpoint_latitude[midpoint_latitude["longitude"] == lonMid]
     midpoint_tp = midpoint_longitude["tp"].to_numpy()
 
-    midpoint_tp = float(midpoint_tp)
+    midpoint_tp = float(midpoint_tp[0])
 
     return midpoint_tp
 
@@ -143,7 +143,7 @@ def return_date(day):
     date_1 = datetime.datetime.strptime(start_date, "%Y-%m-%d").date()
 
     if isinstance(day, np.generic):
-        day = np.asscalar(day)
+        day = day.item()
 
     date = date_1 + datetime.timedelta(day)
 
-- 
2.43.0


From c29a95199e5e256d2190f2275b1f85d92dbec244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:40 +0000
Subject: [PATCH 68/73] fix: the modified input that override_input reads was
 never used

---
 flee/datamanager/DataTable.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index ea4c64f..0585106 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -330,9 +330,10 @@ class DataTable:
         self.total_refugee_column = count_column
         self.days_column = day_column
 
-        # ref_table = self.data_table[0]
-        # if self.override_refugee_input is True:
-        #   ref_table = self.data_table[self._find_headerindex("total (modified input)")]
+        # Use the modified input data instead of the total, if there is any.
+        total_name = "total"
+        if self.override_refugee_input is True:
+            total_name = "total (modified input)"
 
 
         # Refugees only come in *after* day 0.
@@ -352,15 +353,15 @@ class DataTable:
                 if self.day0pops.get(i,0) == 0:
                     self.day0pops[i] = camp_pop
 
-                if SumFromCamps is True:
+                if SumFromCamps is True and i != "total (modified input)":
                     new_refugees += camp_pop
                     self.day0pops["total"] += camp_pop
 
             if SumFromCamps is False:
                 new_refugees = self.get_field(
-                    name="total", day=0, FullInterpolation=FullInterpolation
+                    name=total_name, day=0, FullInterpolation=FullInterpolation
                 )
-                self.day0pops["total"] = new_refugees
+                self.day0pops[total_name] = new_refugees
 
             # Don't have new refugees on Day 0 if we start empty
             new_refugees *= (1 - self.start_empty)
@@ -372,13 +373,16 @@ class DataTable:
             new_refugees = 0
             if SumFromCamps is True:
                 for i in self.header[1:]:
+                    # The modified input is not a camp.
+                    if i == "total (modified input)":
+                        continue
                     new_refugees += self.get_field(
                         name=i, day=day, FullInterpolation=FullInterpolation
                     ) - self.get_field(i, day - 1, FullInterpolation)
             else:
                 new_refugees += self.get_field(
-                    name="total", day=day, FullInterpolation=FullInterpolation
-                ) - self.get_field("total", day - 1, FullInterpolation)
+                    name=total_name, day=day, FullInterpolation=FullInterpolation
+                ) - self.get_field(total_name, day - 1, FullInterpolation)
 
             # return int(new_refugees)
 
-- 
2.43.0


From 418091009f9e430ceee8c9df6d5fe7de09326896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:32 +0000
Subject: [PATCH 69/73] fix: Location.SetCampMoveChance crashed

---
 flee/flee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index abb5670..1131ef6 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -610,7 +610,7 @@ class Location:
             None.
 
         """
-        self.movechance = SimulationSettings.CampMoveChance
+        self.movechance = SimulationSettings.move_rules["CampMoveChance"]
 
 
     @check_args_type
-- 
2.43.0


From 3f571cfa1fbc214edef84d21baa14c6a832bde23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:32 +0000
Subject: [PATCH 70/73] fix: Ecosystem.printInfo crashed

---
 flee/flee.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 1131ef6..b88cac1 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1961,15 +1961,16 @@ class Ecosystem:
         Returns:
             None.
         """
+        conflict_zones = [loc for loc in self.locations if loc.conflict > 0.0]
         print(
             "Time: {}, # of agents: {}, # of conflict zones {}.".format(
-                self.time, len(self.agents), len(self.conflict_zones)
+                self.time, len(self.agents), len(conflict_zones)
             ),
             file=sys.stderr,
         )
-        if len(self.conflict_zones) > 0:
+        if len(conflict_zones) > 0:
             print(
-                "First conflict zone is called {}".format(self.conflict_zones[0].name),
+                "First conflict zone is called {}".format(conflict_zones[0].name),
                 file=sys.stderr,
             )
         for loc in self.locations:
-- 
2.43.0


From 134fcbca9b6b3d6bd4009094530a73785eb58f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:35 +0000
Subject: [PATCH 71/73] fix: demographic attributes with underscores in their
 names lost their ends

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 69ecad6..386cd58 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -112,7 +112,7 @@ def read_demographic_csv(e, csvname):
   Returns:
         None.
   """
-  attribute = (csvname.split(os.sep)[1].split('.')[0]).split('_')[1]
+  attribute = (csvname.split(os.sep)[1].split('.')[0]).split('_', 1)[1]
 
   if not os.path.exists(csvname):
       return
-- 
2.43.0


From dde7661f205716dc799220f506cd13ec943bb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:41 +0000
Subject: [PATCH 72/73] fix: worse major routes replaced better ones and were
 compared with the routes of other places

---
 flee/crawling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 4f7dbca..4ffe089 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -72,7 +72,7 @@ def _addLocationRoute(
     weight = weight**SimulationSettings.move_rules["WeightPower"]
 
     #print("Adding loc route:", origin_names[1:], link.endpoint.name, file=sys.stderr)
-    if weight > loc.routes.get(link.endpoint.name, [0,None])[0]:
+    if weight > source_loc.routes.get(link.endpoint.name, [0,None])[0]:
         source_loc.routes[link.endpoint.name] = [weight, origin_names[1:] + [link.endpoint.name], link.endpoint]
 
 
-- 
2.43.0


From 3b1d620f2e2801c55345cad804ef75671e540830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:37 +0000
Subject: [PATCH 73/73] fix: MakeLocationColorsList failed the type checks

---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index e05daf1..fb3bde1 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -209,7 +209,7 @@ class InputGeography:
 
 
     @check_args_type
-    def MakeLocationColorsList(self) -> dict:
+    def MakeLocationColorsList(self) -> list:
         """
         Summary:
             Returns a list of location colors.
-- 
2.43.0

