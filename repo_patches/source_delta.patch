From 21d4b2a689d2607b23ed2fe7a3fb957e6bfd1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 01/51] fix: compare link endpoint names by value when closing
 and reopening links

Names read from CSV files are equal but not identical string objects, so
closures.csv entries never matched any link.
---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index c78e94c..5aa6151 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -985,7 +985,7 @@ class Ecosystem:
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
-            if self.locations[x].links[i].endpoint.name is not endpoint:
+            if self.locations[x].links[i].endpoint.name != endpoint:
                 new_links += [self.locations[x].links[i]]
                 continue
 
@@ -1039,7 +1039,7 @@ class Ecosystem:
         #       )
 
         for i in range(0, len(self.locations[x].closed_links)):
-            if self.locations[x].closed_links[i].endpoint.name is not endpoint:
+            if self.locations[x].closed_links[i].endpoint.name != endpoint:
                 # print("[{}] to [{}] ({})".format(
                 #     startpoint,
                 #     self.locations[x].closed_links[i].endpoint.name,
-- 
2.43.0


From 075f18e053126f83eb438a3d305bd5bda2f5b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 02/51] fix: two-way link removal, closing and reopening act on
 both directions

With twoway=True only the reverse direction was removed, closed or
reopened; the requested direction itself was left untouched.
---
 flee/flee.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 5aa6151..96cf998 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1086,14 +1086,16 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        removed = self._remove_link_1way(
+            startpoint=startpoint, endpoint=endpoint, close_only=close_only
+        )
+
         if twoway:
-            return self._remove_link_1way(
+            removed = self._remove_link_1way(
                 startpoint=endpoint, endpoint=startpoint, close_only=close_only
-            )
+            ) or removed
 
-        return self._remove_link_1way(
-            startpoint=startpoint, endpoint=endpoint, close_only=close_only
-        )
+        return removed
 
 
     @check_args_type
@@ -1111,10 +1113,12 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        reopened = self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
+
         if twoway:
-            return self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened = self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint) or reopened
 
-        return self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
+        return reopened
 
 
     @check_args_type
-- 
2.43.0


From d04bb7e949efa0c1bca583b4e5b20a8786e6642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 03/51] fix: closing or reopening a location handles every link
 to and from it

Reopening incoming links only (twoway=False) looped forever or did nothing,
and incoming links were skipped when the opposite direction was already
closed or open.
---
 flee/flee.py | 79 ++++++++++++++++------------------------------------
 1 file changed, 24 insertions(+), 55 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 96cf998..5e3cd25 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1179,63 +1179,32 @@ class Ecosystem:
             if self.locationNames[i] == location_name:
                 changed_anything = True
 
-                link_set = self.locations[i].links
+                change_link = self.close_link
                 if mode == "reopen":
-                    link_set = self.locations[i].closed_links
-
-                j = 0
-                while j < len(link_set):
-                    if Debug:
-                        print(
-                            "starting to {} link "
-                            "[{}] [{}] in direction {}".format(
-                                mode, location_name, link_set[j].endpoint.name, direction
-                            ),
-                            file=sys.stderr,
-                        )
-                    if mode == "close":
-
-                        if dir_mode % 2 == 0:
-                            self.close_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.close_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].links
-                        else:
-                            j += 1
-
-                    elif mode == "reopen":
-
-                        if dir_mode % 2 == 0:
-                            self.reopen_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
+                    change_link = self.reopen_link
+
+                # Names of all locations with a link to, respectively from, this location
+                # which is still in need of changing.
+                in_names = []
+                out_names = []
+                for loc in self.locations:
+                    for link in loc.closed_links if mode == "reopen" else loc.links:
+                        if link.endpoint.name == location_name and loc.name not in in_names:
+                            in_names.append(loc.name)
+                        if loc.name == location_name and link.endpoint.name not in out_names:
+                            out_names.append(link.endpoint.name)
+
+                if dir_mode % 2 == 0:
+                    for name in in_names:
+                        if Debug:
+                            print(f"starting to {mode} link [{name}] [{location_name}]", file=sys.stderr)
+                        change_link(startpoint=name, endpoint=location_name, twoway=False)
 
-                        if dir_mode > 0:
-                            if self.reopen_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the closed link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].closed_links
-                            else:
-                                j += 1
+                if dir_mode > 0:
+                    for name in out_names:
+                        if Debug:
+                            print(f"starting to {mode} link [{location_name}] [{name}]", file=sys.stderr)
+                        change_link(startpoint=location_name, endpoint=name, twoway=False)
 
         return changed_anything
 
-- 
2.43.0


From c2a2cbc432c816b3ef866878997b386a54672e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 04/51] fix: operations on an unknown location name no longer
 hit location 0

The name lookup returned False (index 0) instead of the documented -1, so
closing a misspelt camp closed the first location of the model.
---
 flee/flee.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 5e3cd25..f9dfbaa 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -958,8 +958,7 @@ class Ecosystem:
         #         x = i
 
         if x < 0:
-            print("#Warning: location not found in remove_link", file=sys.stderr)
-            return False
+            print(f"#Warning: location {name} not found.", file=sys.stderr)
 
         return x
 
@@ -983,6 +982,8 @@ class Ecosystem:
         new_links = []
         x = self._convert_location_name_to_index(name=startpoint)
         removed = False
+        if x < 0:
+            return removed
 
         for i in range(0, len(self.locations[x].links)):
             if self.locations[x].links[i].endpoint.name != endpoint:
@@ -1031,6 +1032,8 @@ class Ecosystem:
         new_closed_links = []
         x = self._convert_location_name_to_index(name=startpoint)
         reopened = False
+        if x < 0:
+            return reopened
         # print("Reopening link from {} to {}, "
         #       "closed link list length = {}.".format(
         #           startpoint, endpoint,
@@ -1344,7 +1347,10 @@ class Ecosystem:
         Returns:
             None.
         """     
-        self.locations[self._convert_location_name_to_index(location_name)].close_camp(IDP)
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        self.locations[x].close_camp(IDP)
         print("Time = {}. Close camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1362,7 +1368,10 @@ class Ecosystem:
             None.
         """
 
-        l = self.locations[self._convert_location_name_to_index(location_name)]
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        l = self.locations[x]
 
         l.town = False
         l.camp = False
@@ -1418,7 +1427,10 @@ class Ecosystem:
         Returns:
             None.
         """
-        self.locations[self._convert_location_name_to_index(location_name)].open_camp(IDP)
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        self.locations[x].open_camp(IDP)
         print("Time = {}. Open camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1437,6 +1449,8 @@ class Ecosystem:
             None.
         """
         id1 = self._convert_location_name_to_index(loc1_name)
+        if id1 < 0:
+            return
         for i in range(0, len(self.locations[id1].links)):
             if self.locations[id1].links[i].endpoint.name == loc2_name:
                 old_val = self.locations[id1].links[i].forced_redirection
-- 
2.43.0


From 36c16fbb7312fd066e369689f0c61bf2ffab0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 05/51] fix: clearing locations from agents works in serial
 Flee

It raised a TypeError as soon as one agent had to be preserved, and could
not handle agents deactivated by a camp sink.
---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index f9dfbaa..58153d5 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1812,8 +1812,8 @@ class Ecosystem:
         """
         new_agents = []
         for i in range(0, len(self.agents)):
-            if self.agents[i].location.name not in location_names:
-                new_agents += self.agents[i]  # agent is preserved in ecosystem
+            if self.agents[i].location is None or self.agents[i].location.name not in location_names:
+                new_agents += [self.agents[i]]  # agent is preserved in ecosystem
             else:
                 # agent is removed from the ecosystem and number of agents
                 # drops by one.
-- 
2.43.0


From c61d40f00239d8127780b6c200f9c0911851c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 06/51] fix: changing a location's type to conflict zone no
 longer crashes

The intensity was looked up on the ecosystem instead of the location, the
start of the conflict was not recorded and spawn weights were left stale
for that day's spawning.
---
 flee/flee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 58153d5..c01ae77 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1389,7 +1389,8 @@ class Ecosystem:
                     l.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
         elif "conflict" in location_type.lower():
             l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-            l.conflict = float(self.attributes.get("conflict_intensity",1.0))
+            l.conflict = float(l.attributes.get("conflict_intensity",1.0))
+            l.time_of_conflict = self.time
         elif "forward" in location_type.lower():
             l.movechance = 1.0
             l.forward = True
@@ -1407,10 +1408,12 @@ class Ecosystem:
         else:
             print(
                 "Error in creating Location() object: cannot parse location_type value of"
-                " {} for location object with name {}".format(location_type, name),
+                " {} for location object with name {}".format(location_type, location_name),
                 file=sys.stderr
             )
 
+        spawning.refresh_spawn_weights(self)
+
         print(f"Time = {self.time}. Location {location_name} changed type to {location_type}.", file=sys.stderr)
 
 
-- 
2.43.0


From 78e6028219c54a52d366fa78ad3b1617d3902a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 07/51] fix: locations and links no longer share one attributes
 dictionary

The mutable default argument (and the dictionary passed for both directions
of a link) was shared, so setting an attribute on one location or link
changed it on all others.
---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index c01ae77..adfcaec 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -352,7 +352,7 @@ class Location:
         self.time_of_conflict = -1 # Time that a major conflict event last took place.
         self.numAgentsSpawned = 0
 
-        self.attributes = attributes # This will store a range of attributes that are read from file.
+        self.attributes = dict(attributes) # This will store a range of attributes that are read from file.
 
         if location_type is not None:
             if "camp" in location_type.lower():
@@ -679,7 +679,7 @@ class Link:
         # if True, then all Persons will go down this link.
         self.forced_redirection = forced_redirection
 
-        self.attributes = attributes
+        self.attributes = dict(attributes)
 
 
     @check_args_type
-- 
2.43.0


From 84c1751aff4781a36e0b2ce75b3fba80c07c4c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 08/51] fix: make the documented camps_are_sinks setting work

The YAML key was misspelt, deactivation_probability read from locations.csv
is a string, and parallel Flee lacked the random import and the handling of
deactivated agents.
---
 flee/SimulationSettings.py |  2 +-
 flee/flee.py               |  2 +-
 flee/pflee.py              | 20 ++++++++++++--------
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index ba12563..2720e4e 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -143,7 +143,7 @@ class SimulationSettings:
             print("NOTE: conflict_zone_spawning_only is enabled by default, and needs to be disabled when you define flood_zone_spawning_only to be true.", file=sys.stderr)
             sys.exit()
 
-        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sicks", False)) # Camps can deactivate agents.
+        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sinks", False)) # Camps can deactivate agents.
         SimulationSettings.spawn_rules["read_from_agents_csv_file"] = bool(fetchss(dps, "read_from_agents_csv_file", False)) # Load agents from agents.csv file.
 
         SimulationSettings.spawn_rules["sum_from_camps"] = bool(fetchss(dps, "sum_from_camps", True)) #Sum total migrant numbers from camp data numbers, instead of from refugees.csv.
diff --git a/flee/flee.py b/flee/flee.py
index adfcaec..24b04ad 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1673,7 +1673,7 @@ class Ecosystem:
                     if a.location is not None:
                         if a.location.camp == True:
                             outcome = random.random()
-                            if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                                 a.location = None
 
         self.time += 1
diff --git a/flee/pflee.py b/flee/pflee.py
index 23c1b19..ddcec32 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import os
+import random
 import sys
 from functools import wraps
 from typing import List, Optional
@@ -687,7 +688,7 @@ class Ecosystem(flee.Ecosystem):
 
         new_agents = []
         for agent in self.agents:
-            if agent.location.name not in location_names:
+            if agent.location is None or agent.location.name not in location_names:
                 new_agents += [agent]
             else:
                 # print("Agent removed: ", agent.location.name)
@@ -852,14 +853,16 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
-            a.evolve(self, time=self.time)
+            if a.location is not None:
+                a.evolve(self, time=self.time)
 
         # print("NumAgents after evolve:", file=sys.stderr)
         self.updateNumAgents(CountClosed=True, log=False)
 
         for a in self.agents:
-            a.finish_travel(self, time=self.time)
-            a.timesteps_since_departure += 1
+            if a.location is not None:
+                a.finish_travel(self, time=self.time)
+                a.timesteps_since_departure += 1
 
         if SimulationSettings.log_levels["agent"] > 0:
             write_agents_par(rank=self.mpi.rank, agents=self.agents, time=self.time)
@@ -885,10 +888,11 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["camps_are_sinks"] == True:
             for a in self.agents:
                 if a.travelling == False:
-                    if a.location.camp == True:
-                        outcome = random.random()
-                        if outcome < a.location.attributes.get("deactivation_probability", 0.0):
-                            a.location = None
+                    if a.location is not None:
+                        if a.location.camp == True:
+                            outcome = random.random()
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
+                                a.location = None
 
         self.time += 1
 
-- 
2.43.0


From 2251a40f5761af36e92daccd958aa65d2cef987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 09/51] fix: use the conflict_date column of locations.csv
 again

Without a conflict input file, conflict zones starting after day 0 never
started because the type and date were read from outdated column numbers.
---
 flee/InputGeography.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index bfdbe6e..01f4d23 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -23,6 +23,7 @@ class InputGeography:
     """
 
     def __init__(self):
+        self.columns = []
         self.locations = []
         self.links = []
         self.major_routes = []
@@ -124,7 +125,7 @@ class InputGeography:
         if len(SimulationSettings.ConflictInputFile) == 0:
             conflict_names = []
             for loc in self.locations:
-                if "conflict" in loc[4].lower():
+                if "conflict" in loc[5].lower():
                     conflict_names += [loc[0]]
             print(conflict_names, file=sys.stderr)
             return conflict_names
@@ -170,6 +171,7 @@ class InputGeography:
             "conflict_date",
             "pop/cap",
         ]
+        self.columns = columns
 
 
         with open(csv_name, newline="", encoding="utf-8") as csvfile:
@@ -658,12 +660,14 @@ class InputGeography:
 
         elif len(SimulationSettings.ConflictInputFile) == 0:
             for loc in self.locations:
-                if "conflict" in loc[4].lower() and int(loc[5]) == time:
+                if "conflict" in loc[5].lower() and int(loc[6]) == time:
                     conflict_intensity = 1.0
+                    if "conflict_intensity" in self.columns[8:len(loc)]:
+                        conflict_intensity = float(loc[self.columns.index("conflict_intensity")])
                     if e.print_location_output:
                         print(
                             "Time = {}. Adding a new conflict zone [{}] with pop. {} and intensity {}".format(
-                                time, loc[0], int(loc[1]), conflict_intensity
+                                time, loc[0], loc[7], conflict_intensity
                             ),
                             file=sys.stderr,
                         )
-- 
2.43.0


From ef7d126653ffc0c1d8689f182b185571e286e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 10/51] fix: routes.csv entries with forced_redirection 1
 create one link pair

They were created twice: once with and once without forced redirection.
---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 01f4d23..67f0a86 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -536,7 +536,7 @@ class InputGeography:
                         forced_redirection=True,
                         attributes=attributes,
                     )
-                if int(l3) == 2:
+                elif int(l3) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
-- 
2.43.0


From cc837c7513f5d848a0092fa618652a89d78dfa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 11/51] fix: skip comments and blank lines when reading major
 routes

---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 67f0a86..4079afc 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -271,7 +271,7 @@ class InputGeography:
             values = csv.reader(csvfile)
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
-                    pass
+                    continue
                 self.major_routes.append(row)
 
 
-- 
2.43.0


From 503939d1b3b83afaa347c82c9f935898cb14cdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 12/51] fix: apply changes in intensity of an ongoing conflict
 from conflicts.csv

Only the switches between no conflict and conflict were applied; later
intensities in the file were silently ignored.
---
 flee/InputGeography.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 4079afc..3d87493 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -3,6 +3,7 @@ import os
 import sys
 from typing import List
 
+from flee import spawning
 from flee.SimulationSettings import SimulationSettings
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
@@ -694,6 +695,12 @@ class InputGeography:
                                     file=sys.stderr,
                                 )
                             e.set_conflict_intensity(name=conflict_name, conflict_intensity=self.conflicts[conflict_name][time])
+                        elif self.conflicts[conflict_name][time] != self.conflicts[conflict_name][time - 1]:
+                            # Ongoing conflict that changes in intensity.
+                            for l in e.locations:
+                                if l.name == conflict_name:
+                                    l.conflict = self.conflicts[conflict_name][time]
+                            spawning.refresh_spawn_weights(e)
                     else:
                         if e.getRankN(e.time) is True:
                             print(
-- 
2.43.0


From 7c2e113ecb0de92763a171c0bba256b467da84b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 13/51] fix: use_pop_for_loc_weight weights locations by their
 population

The population was capped at 1, so every populated location got the same
multiplier instead of the documented population^pop_power_for_loc_weight.
---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 41fbd30..3bf1354 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -141,12 +141,12 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["MatchConflictEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
     else:
         if SimulationSettings.move_rules["MatchTownEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
 
     return base
 
-- 
2.43.0


From a83134d21ce65c579364f9f727981ec905e360b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 14/51] fix: stay_close_to_home uses the distance to the home
 location

As documented; it used the distance to the agent's current location.
---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 3bf1354..e3dd00a 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -48,7 +48,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
         power_factor = SimulationSettings.move_rules["HomeDistancePower"]
-        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.location))**power_factor)
+        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.home_location))**power_factor)
 
     # DFlee Flood Location Weight implementation
     if SimulationSettings.move_rules["FloodRulesEnabled"] is True:
-- 
2.43.0


From d5174cee22e8d12bc26c5900649deb62d4835dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:16 +0000
Subject: [PATCH 15/51] fix: route pruning removes the route that belongs to
 the pruned weight

Removal by value dropped another entry when a route occurs twice (parallel
links), shifting weights onto other routes; and an empty route list crashed.
---
 flee/moving.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index e3dd00a..5ffa2a1 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -449,7 +449,7 @@ def pruneRoutes(weights, routes):
     #check_routes(weights, routes, "START")
 
     threshold = SimulationSettings.move_rules["PruningThreshold"]
-    if threshold < 1.001:
+    if threshold < 1.001 or len(weights) == 0:
         #check_routes(weights, routes, "LOTHRESHOLD")
         return weights, routes
 
@@ -457,8 +457,8 @@ def pruneRoutes(weights, routes):
     i = 0
     while i < len(weights):
         if weights[i] < min_weight_threshold:
-            weights.remove(weights[i])
-            routes.remove(routes[i])
+            del weights[i]
+            del routes[i]
             i -= 1
         i += 1
 
-- 
2.43.0


From fa63694db38c10724f11199e377cc328608b9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 16/51] fix: route selection for awareness level 0 and for
 agents without a route

With awareness_level 0 a link index was returned where a location name is
expected, so agents never moved, and isolated locations crashed. An agent
with links but no viable route (e.g. a dead-end marker) crashed as well.
---
 flee/crawling.py | 3 +--
 flee/flee.py     | 5 +++++
 flee/moving.py   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index c1f2d30..e5bfd48 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -262,8 +262,7 @@ def generateLocationRoutes(l, time: int, debug: bool = False):
   l.routes = {}
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
-    linklen = len(l.links)
-    return [np.random.randint(0, linklen)]
+    return l.routes
 
   for k, e in enumerate(l.links):
     calculateLocCrawlLinkWeight(
diff --git a/flee/flee.py b/flee/flee.py
index 24b04ad..7ea71de 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -140,6 +140,11 @@ class Person:
             or `None` if the agent's route is empty 
             or the next link is invalid.
         """
+        # No viable route was found.
+        if self.route is None:
+            self.route = []
+            return None
+
         for l in self.location.links:
             # If the name of the destination on the current link is same as the agents current waypoint on the route:
             if l.endpoint.name == self.route[0]:
diff --git a/flee/moving.py b/flee/moving.py
index 5ffa2a1..a398f68 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -485,7 +485,9 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
       linklen = len(a.location.links)
-      return [np.random.randint(0, linklen)]
+      if linklen == 0:
+          return None
+      return [a.location.links[np.random.randint(0, linklen)].endpoint.name]
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
-- 
2.43.0


From 05cf17c92492e00c561bad07c3c53ff002ff731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 17/51] fix: ethnicity matching move rules no longer raise a
 NameError

---
 flee/moving.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/moving.py b/flee/moving.py
index a398f68..dc8a684 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -4,6 +4,7 @@ import numpy as np
 import random
 from beartype.typing import List, Optional, Tuple
 from flee.SimulationSettings import SimulationSettings
+import flee.spawning as spawning
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
     from beartype import beartype as check_args_type
-- 
2.43.0


From 2903e30eb5f8028462c2e8e252767452d1c1bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 18/51] fix: compare a major route with the existing route from
 the same source

It was compared with the route table of the last hub before the
destination, so a worse route could replace a better one (or vice versa).
---
 flee/crawling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index e5bfd48..0d81bd5 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -72,7 +72,7 @@ def _addLocationRoute(
     weight = weight**SimulationSettings.move_rules["WeightPower"]
 
     #print("Adding loc route:", origin_names[1:], link.endpoint.name, file=sys.stderr)
-    if weight > loc.routes.get(link.endpoint.name, [0,None])[0]:
+    if weight > source_loc.routes.get(link.endpoint.name, [0,None])[0]:
         source_loc.routes[link.endpoint.name] = [weight, origin_names[1:] + [link.endpoint.name], link.endpoint]
 
 
-- 
2.43.0


From dc5a60f17092b2b12418c600e4ddc2572f845059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 19/51] fix: markers do not use up an awareness step with
 fixed_routes either

As in the agent-based route search and as the comments describe.
---
 flee/crawling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/crawling.py b/flee/crawling.py
index 0d81bd5..4a36478 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -144,6 +144,9 @@ def calculateLocCrawlLinkWeight(
 
       _addLocationRoute(source_loc, loc, link, prior_distance, origin_names, time, major=False)
 
+  else:
+      step -= 1
+
   if SimulationSettings.move_rules["AwarenessLevel"] > step:
       # Traverse the tree one step further.
       for lel in link.endpoint.links:
-- 
2.43.0


From e3f1314d7a26f7d767a248722af201a9f3b88ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 20/51] fix: spawning zero agents needs no conflict zone;
 spawn_agents works

A day without new arrivals aborted when no conflict zone was active, and
spawn_agents called a method that does not exist.
---
 flee/flee.py     | 3 +++
 flee/spawning.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index 7ea71de..edbe827 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1611,6 +1611,9 @@ class Ecosystem:
         Returns:
             list[Location]: A list of unique locations.
         """
+        if number == 0:
+            return []
+
         spawn_weight_total = sum(self.spawn_weights)
 
         assert spawn_weight_total > 0
diff --git a/flee/spawning.py b/flee/spawning.py
index 512f11a..9d19c64 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -339,7 +339,7 @@ def spawn_agents(e, number):
     """
     #Insert refugee agents
     for i in range(0, number):
-        loc = e.pick_spawn_location()
+        loc = e.pick_spawn_locations()[0]
         attributes = draw_samples(e, loc)
         e.addAgent(location=loc, attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
 
-- 
2.43.0


From 580ccf09a0e8c4a232a07c04c65eb12a66b64ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 21/51] fix: agent logs with region granularity or without
 agents, printInfo

All of these raised NameError, AttributeError or IndexError.
---
 flee/Diagnostics.py | 8 ++++----
 flee/flee.py        | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 8cef636..2e7a2f3 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -71,7 +71,7 @@ def write_agents_par(
         my_file = open("agents.out.%s" % rank, "w", encoding="utf-8")
         print(
             "#time,rank-agentid,original_location,current_location,gps_x,gps_y,is_travelling,distance_travelled,"
-            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0])),
+            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0]) if agents else ""),
             file=my_file,
         )
     else:
@@ -92,7 +92,7 @@ def write_agents_par(
             y = a.location.y
 
             if SimulationSettings.log_levels["granularity"] == "region":
-                loc_name = location.region
+                loc_name = a.location.startpoint.region if a.travelling else a.location.region
                 x = 0.0
                 y = 0.0
 
@@ -122,7 +122,7 @@ def write_agents_par(
                         x = l.x
                         y = l.y
                         if SimulationSettings.log_levels["granularity"] == "region":
-                            loc_name = l.region
+                            loc_name = l.startpoint.region
                             x = 0.0
                             y = 0.0
 
@@ -151,7 +151,7 @@ def write_agents_par(
                         x = l.x
                         y = l.y
                         if SimulationSettings.log_levels["granularity"] == "region":
-                            loc_name = l.region
+                            loc_name = l.startpoint.region
                             x = 0.0
                             y = 0.0
 
diff --git a/flee/flee.py b/flee/flee.py
index edbe827..64eb5c7 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -606,7 +606,7 @@ class Location:
             None.
 
         """
-        self.movechance = SimulationSettings.CampMoveChance
+        self.movechance = SimulationSettings.move_rules["CampMoveChance"]
 
 
     @check_args_type
@@ -1960,15 +1960,16 @@ class Ecosystem:
         Returns:
             None.
         """
+        conflict_zones = [loc for loc in self.locations if loc.conflict > 0.0]
         print(
             "Time: {}, # of agents: {}, # of conflict zones {}.".format(
-                self.time, len(self.agents), len(self.conflict_zones)
+                self.time, len(self.agents), len(conflict_zones)
             ),
             file=sys.stderr,
         )
-        if len(self.conflict_zones) > 0:
+        if len(conflict_zones) > 0:
             print(
-                "First conflict zone is called {}".format(self.conflict_zones[0].name),
+                "First conflict zone is called {}".format(conflict_zones[0].name),
                 file=sys.stderr,
             )
         for loc in self.locations:
-- 
2.43.0


From d5b381d1e73a37f90bcadffd85c8831d0b1859c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 22/51] fix: level 1 correction on a date without data is a
 no-op

It raised an UnboundLocalError.
---
 flee/datamanager/handle_refugee_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/datamanager/handle_refugee_data.py b/flee/datamanager/handle_refugee_data.py
index bda8141..8c64ed9 100644
--- a/flee/datamanager/handle_refugee_data.py
+++ b/flee/datamanager/handle_refugee_data.py
@@ -71,6 +71,9 @@ class RefugeeTable(DataTable.DataTable):
             #If the wrong data is before the simulation period, then ignore the correction altogether.
             return 1.0
 
+        # No scaling if the date does not appear in the table, or is its first entry.
+        first_level_2_value = last_level_1_value = 1.0
+
         for i in range(0, len(ref_table)):
             if int(ref_table[i][0]) == int(days):
                 # then scale all previous entries by ref_table[i][1]/ref_table[i-1][1]
-- 
2.43.0


From 908b843a64fd0dbc430c82ceeb0ad6b0d12a65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 23/51] fix: summing data files keeps entries after the end of
 the shorter file

Trailing entries of either table were dropped (and the last entry of the
first one repeated), so aggregated camp counts stopped changing early.
---
 flee/datamanager/DataTable.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index c365430..ef902b3 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -130,32 +130,30 @@ def AddCSVTables(table1: np.ndarray, table2: np.ndarray) -> np.ndarray:
     table = np.zeros([0, 2])
 
     offset = 0
-    last_c2 = np.zeros(([1, 2]))
+    last_c2 = np.zeros(2)
     for c2 in table2:
 
         # If table 2 date value is higher, then keep adding entries from table
         # 1
-        while c2[0] > table1[offset][0]:
+        while offset < len(table1) and c2[0] > table1[offset][0]:
             table = np.vstack([table, [table1[offset][0], last_c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
-            else:
-                break
+            offset += 1
 
         # If the two match, add a total.
-        if c2[0] == table1[offset][0]:
+        if offset < len(table1) and c2[0] == table1[offset][0]:
             table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
+            offset += 1
             last_c2 = c2
             continue
 
-        # If table 1 value is higher, add an aggregate entry, and go to the
-        # next iteration without increasing the offset.
-        if c2[0] < table1[offset][0]:
-            table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            last_c2 = c2
-            continue
+        # If table 1 value is higher, or table 1 has ended, add an aggregate entry,
+        # and go to the next iteration without increasing the offset.
+        table = np.vstack([table, [c2[0], c2[1] + table1[min(offset, len(table1) - 1)][1]]])
+        last_c2 = c2
+
+    # Add the entries from table 1 that come after the end of table 2.
+    for c1 in table1[offset:]:
+        table = np.vstack([table, [c1[0], last_c2[1] + c1[1]]])
 
     return table
 
-- 
2.43.0


From cc585bf0a20b37adeb6a62a249d92733f1439501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 24/51] fix: parallel IDP total counts every agent once

It summed the already global camp totals over all ranks.
---
 flee/pflee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index ddcec32..eff239c 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -466,7 +466,7 @@ class Ecosystem(flee.Ecosystem):
 
         for loc in self.locations:
             if loc.idpcamp:
-                num_idps += loc.numAgents
+                num_idps += loc.numAgentsOnRank
 
         num_idps_all = self.mpi.CalcCommWorldTotalSingle(num_idps)
         return num_idps_all
-- 
2.43.0


From 3a1a1c2bc1e1ec4b48f5db093e29aceaab8710e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 25/51] fix: parallel spawn counts are no longer multiplied by
 the number of ranks

---
 flee/pflee.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index eff239c..39998d1 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -619,7 +619,6 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["TakeFromPopulation"]:
             if location.pop > 1: 
                 location.pop -= 1
-                location.numAgentsSpawnedOnRank += 1
                 location.numAgentsSpawned += 1
             else:
                 print(
@@ -630,6 +629,8 @@ class Ecosystem(flee.Ecosystem):
                 assert location.pop > 1
         self.total_agents += 1
         if self.total_agents % self.mpi.size == self.mpi.rank:
+            if SimulationSettings.spawn_rules["TakeFromPopulation"]:
+                location.numAgentsSpawnedOnRank += 1
             self.agents.append(Person(self, location=location, attributes=attributes))
 
 
-- 
2.43.0


From ec938125e1fc2992eca8a06e092c4dbcba092fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 26/51] fix: parallel agent total keeps agents in transit on
 closed links

Agents on a link that was closed or removed during their journey were
missing from the total until they arrived.
---
 flee/pflee.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 39998d1..15ce4ef 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -535,26 +535,23 @@ class Ecosystem(flee.Ecosystem):
         """
         mode = self.latency_mode
 
-        total = 0
-
         if mode == "low_latency":
             for loc in self.locations:
                 loc.numAgents = self.mpi.CalcCommWorldTotalSingle(loc.numAgentsOnRank)
-                total += loc.numAgents
                 # print("location:", self.time, loc.name, loc.numAgents, file=sys.stderr)
                 for link in loc.links:
                     link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                     # print(self.time, "link:", loc.name, link.numAgents, file=sys.stderr)
-                    total += link.numAgents
                 if CountClosed:
                     for link in loc.closed_links:
                         link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                         # print(self.time, "link [closed]:", loc.name, link.numAgents,
                         #       file=sys.stderr)
-                        total += link.numAgents
-            self.total_agents = total
+            # Not a sum over locations and links: agents can be in transit on a link that
+            # has been closed or removed in the meantime.
+            self.total_agents = self.mpi.CalcCommWorldTotalSingle(len(self.agents))
         elif mode == "high_latency":
-            buf_len = 0
+            buf_len = 1
 
             buf_len += len(self.locations)
             for loc in self.locations:
@@ -576,6 +573,10 @@ class Ecosystem(flee.Ecosystem):
                         numAgent_buffer[index] = link.numAgentsOnRank
                         index += 1
 
+            # Last entry: number of agents, including those in transit on a link that has
+            # been closed or removed in the meantime.
+            numAgent_buffer[index] = len(self.agents)
+
             new_buffer = self.mpi.CalcCommWorldTotal(numAgent_buffer)
 
             index = 0
@@ -590,7 +591,7 @@ class Ecosystem(flee.Ecosystem):
                         link.numAgents = new_buffer[index]
                         index += 1
 
-            self.total_agents = np.sum(new_buffer)
+            self.total_agents = new_buffer[index]
 
         if self.mpi.rank == 0 and log is True:
             print(
-- 
2.43.0


From 5af1206713f65d3c2385c146e12cc6939fc5ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 27/51] fix: agents.csv may start with comment or empty lines

---
 flee/InputGeography.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 3d87493..7fc2ece 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -384,11 +384,11 @@ class InputGeography:
         with open(csv_name, newline="", encoding="utf-8") as csvfile:
             values = csv.reader(csvfile)
 
-            i = 0
+            headers = None
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
                     pass
-                elif i == 0:
+                elif headers is None:
                     headers = row[1:]
                     print(headers)
                 else:
@@ -405,7 +405,6 @@ class InputGeography:
 
                     if not loc_found:
                         print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", sys.stderr)
-                i += 1
 
 
     def StoreInputGeographyInEcosystem(self, e):
-- 
2.43.0


From 1190f562a516a3aa7c38602cd3f8506b62882e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 28/51] fix: fixed routes are generated every day, from the
 scores of that day

---
 flee/flee.py    |  6 ++++++
 flee/pflee.py   | 12 +++++-------
 flee/scoring.py |  5 -----
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 64eb5c7..6ef6565 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -13,6 +13,7 @@ from flee.SimulationSettings import SimulationSettings
 import flee.moving as moving
 import flee.spawning as spawning
 import flee.scoring as scoring
+import flee.crawling as crawling
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
     from beartype import beartype as check_args_type
@@ -1644,6 +1645,11 @@ class Ecosystem:
             loc.routes = {}
             scoring.updateLocationScore(self.time, loc)
 
+        # routes depend on the scores of other locations, so all of these need to be updated first.
+        if SimulationSettings.move_rules["FixedRoutes"] is True:
+            for loc in self.locations:
+                crawling.generateLocationRoutes(loc, self.time)
+
         # update agent locations
         for a in self.agents:
             if SimulationSettings.log_levels["agent"] > 1:
diff --git a/flee/pflee.py b/flee/pflee.py
index 15ce4ef..ea8698d 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -831,13 +831,11 @@ class Ecosystem(flee.Ecosystem):
                 start_loc_local=offset, end_loc_local=offset + num_locs_on_this_rank
             )
 
-            # Ensure Location Routes are updated on all cores for now.
-            if SimulationSettings.move_rules["FixedRoutes"] is True:
-                for i in range(len(self.locations)):
-                    loc = self.locations[i]
-                    if len(loc.routes) == 0:
-                        #print("INFO: Generating location routes.", file=sys.stderr)
-                        crawling.generateLocationRoutes(loc, self.time)
+        # Ensure Location Routes are updated on all cores for now.
+        if SimulationSettings.move_rules["FixedRoutes"] is True:
+            for loc in self.locations:
+                loc.routes = {}
+                crawling.generateLocationRoutes(loc, self.time)
 
 
         # SYNCHRONIZE SPAWN COUNTS IN LOCATIONS (needed for all versions).
diff --git a/flee/scoring.py b/flee/scoring.py
index 9d745f7..33bb71d 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -1,5 +1,4 @@
 from flee.SimulationSettings import SimulationSettings
-from flee import crawling
 import numpy as np
 import os
 
@@ -124,7 +123,3 @@ def updateLocationScore(time: int, loc) -> None:
     loc.setScore(1, score)
     # print(time, loc.name,loc.camp,loc.foreign,loc.scores)
 
-    if SimulationSettings.move_rules["FixedRoutes"] is True:
-        #print("INFO: Generating location routes.", file=sys.stderr)
-        crawling.generateLocationRoutes(loc, time)
-
-- 
2.43.0


From c15b549f558e9976f9766187365d63bd73c37403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:30 +0000
Subject: [PATCH 29/51] fix: run_par.py adds the total IDPs column to its
 header

---
 runscripts/run_par.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runscripts/run_par.py b/runscripts/run_par.py
index 751844c..72b9337 100644
--- a/runscripts/run_par.py
+++ b/runscripts/run_par.py
@@ -62,7 +62,7 @@ if __name__ == "__main__":
   output_header_string += "Total error,refugees in camps (UNHCR),total refugees (simulation),raw UNHCR refugee count,refugees in camps (simulation),refugee_debt"
 
   if SimulationSettings.log_levels["idp_totals"] > 0:
-      output += ",total IDPs".format(e.numIDPs())
+      output_header_string += ",total IDPs"
 
   if e.getRankN(0):
       print(output_header_string)
-- 
2.43.0


From 5b1e68433afc5302828bce09e051c8d38e5a13a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 30/51] fix: parallel agent log lists the places visited that
 day only

---
 flee/pflee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index ea8698d..7e631ce 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -853,6 +853,8 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
+            if SimulationSettings.log_levels["agent"] > 1:
+                a.locations_visited = []
             if a.location is not None:
                 a.evolve(self, time=self.time)
 
-- 
2.43.0


From f8652ee5e6dceabdaed74840636185ebef62339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 31/51] fix: parallel evolve refreshes the spawn weights, as in
 serial

---
 flee/pflee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 7e631ce..092ba94 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -793,6 +793,8 @@ class Ecosystem(flee.Ecosystem):
             None.
 
         """
+        spawning.refresh_spawn_weights(self) # Required to correctly incorporate TakeFromPopulation and ConflictSpawnDecay.
+
         if self.time == 0:
             # print("rank, num_agents:", self.mpi.rank, len(self.agents))
 
-- 
2.43.0


From 555f20ea3cdeacaf6ef819906641cf00ebe3ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:39 +0000
Subject: [PATCH 32/51] fix: coupled runs write the mean of all instances to
 out.csv, not the last one

---
 flee/coupling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 84a9f8a..d2e7b32 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -681,9 +681,9 @@ class CouplingInterface:
 
         for column_name in list(frame):
             if "error" not in column_name.lower():
-                frame[column_name].round(0).astype(int)
+                frame[column_name] = frame[column_name].round(0).astype(int)
 
-        df.to_csv(os.path.join(dirInputFiles, "out.csv"), encoding="utf-8", index=False)
+        frame.to_csv(os.path.join(dirInputFiles, "out.csv"), encoding="utf-8", index_label="Day")
 
     # ------------------------------------------------------------------------
     #                           Plotting functions
-- 
2.43.0


From 13e90958ca831ac2859df419cbff81f5bf64eed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:51 +0000
Subject: [PATCH 33/51] fix: a coupled model never reads a half-written
 exchange file

---
 flee/coupling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index d2e7b32..c5686df 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -458,8 +458,11 @@ class CouplingInterface:
         csv_outputfile_name = "{}[{}].{}.csv".format(self.outputfilename, self.instance_index, day)
         csv_outputfile_path = os.path.join(self.outputdir, "file", "coupled", csv_outputfile_name)
 
-        with open(csv_outputfile_path, "a", encoding="utf-8") as file:
+        # Write under another name first: the other model starts reading as soon as the
+        # file exists.
+        with open(csv_outputfile_path + ".part", "w", encoding="utf-8") as file:
             file.write(out_csv_string)
+        os.replace(csv_outputfile_path + ".part", csv_outputfile_path)
 
         print(
             "{}[{}] t={} Couple: output written to {}".format(
-- 
2.43.0


From 8daf4911193940efe5ef5de40bad56d7924337f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:49 +0000
Subject: [PATCH 34/51] fix: coupled location the other model sends nothing for

---
 flee/coupling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index c5686df..a57523f 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -352,7 +352,9 @@ class CouplingInterface:
                     if "in" in self.directions[i]:
 
                         print(
-                            "Couple IN: {} {}".format(self.names[i], newAgents[self.names[i]]),
+                            "Couple IN: {} {}".format(
+                                self.names[i], newAgents.get(self.names[i], 0)
+                            ),
                             file=sys.stderr,
                         )
 
-- 
2.43.0


From dd55859fdc7a813ac74905035a4e031a4a42eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 35/51] fix: exchange logs of a single day can be read back

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index a57523f..df5125c 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -919,7 +919,7 @@ class CouplingInterface:
 
         for fname in inputFileNames:
             with open(os.path.join(dirInputFiles, fname), "rb") as csvfile:
-                data = np.loadtxt(csvfile, delimiter=",", skiprows=1)
+                data = np.loadtxt(csvfile, delimiter=",", skiprows=1, ndmin=2)
 
                 # keep day column for plotting purpose
                 if len(days) == 0:
-- 
2.43.0


From 2aed24017ff1f666bea6b4ae3b2992f783f74fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:24 +0000
Subject: [PATCH 36/51] fix: exchange log also works with serial Flee

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index df5125c..681affb 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -641,7 +641,7 @@ class CouplingInterface:
             self.logTotalAgents = []
             # logTotalAgents.append([day,total_agents])
 
-        self.logTotalAgents.append([t, self.e.total_agents])
+        self.logTotalAgents.append([t, self.e.numAgents()])
 
         # save log of numAgents in locations
         if not hasattr(self, "logLocationsNumAgents"):
-- 
2.43.0


From fbde1f0238e9912405166090c191872501ab160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:49 +0000
Subject: [PATCH 37/51] fix: camp plots skip columns that are not camps, e.g.
 total IDPs

---
 flee/postprocessing/plot_flee_output.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/flee/postprocessing/plot_flee_output.py b/flee/postprocessing/plot_flee_output.py
index f5727a5..e784e38 100644
--- a/flee/postprocessing/plot_flee_output.py
+++ b/flee/postprocessing/plot_flee_output.py
@@ -125,28 +125,29 @@ def plot_camps(data: pd.DataFrame, config: str, output: str) -> None:
 
     for i in range(len(cols)):
 
-        name = cols[i].split()
-
-        if name[0]=="Date": #Date is not a camp field.
+        # One plot for each camp; other columns (e.g. Date, total IDPs) are not camp fields.
+        if not cols[i].endswith(" sim"):
             continue
 
-        y1 = data_filtered["%s sim" % name[0]]
-        y2 = data_filtered["%s data" % name[0]]
-          
+        name = cols[i][: -len(" sim")]
+
+        y1 = data_filtered["%s sim" % name]
+        y2 = data_filtered["%s data" % name]
+
         fig = matplotlib.pyplot.gcf()
         fig.set_size_inches(10, 8)
 
         plt.xlabel("Days elapsed", fontsize=14)
         plt.ylabel("Number of asylum seekers / unrecognised refugees", fontsize=14)
-        plt.title("{}".format(name[0]), fontsize=18)
+        plt.title("{}".format(name), fontsize=18)
 
-        (label1,) = plt.plot(data_filtered.index, y1, "r", linewidth=5, label="{} simulation".format(name[0]))
+        (label1,) = plt.plot(data_filtered.index, y1, "r", linewidth=5, label="{} simulation".format(name))
         
-        (label2,) = plt.plot(data_filtered.index, y2, "b", linewidth=5, label="{} UNHCR data".format(name[0]))
+        (label2,) = plt.plot(data_filtered.index, y2, "b", linewidth=5, label="{} UNHCR data".format(name))
 
         plt.legend(handles=[label1, label2], loc=0, prop={"size": 14})
 
-        plt.savefig("{}/{}.png".format(output, name[0]), bbox_inches = 'tight')
+        plt.savefig("{}/{}.png".format(output, name), bbox_inches = 'tight')
 
         plt.clf()
 
-- 
2.43.0


From b836cbe81f7ab3fd8e4e56c8929da21bce181573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 38/51] fix: validation data leave out the day 0 population
 also in conflict-driven runs

---
 flee/datamanager/DataTable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index ef902b3..f93d35d 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -504,6 +504,11 @@ class DataTable:
         """
         i = self._find_headerindex(name=name)
 
+        # The Day 0 population is also left out when no daily differences are requested from this
+        # table, e.g. because the displacement is conflict- or flood-driven.
+        if self.start_empty and name not in self.day0pops:
+            self.day0pops[name] = self.get_interpolated_data(column=i, day=0)
+
         if FullInterpolation:
             # print(name, day, self.day0pops.get(name,0), self.start_empty, file=sys.stderr)
             return self.get_interpolated_data(column=i, day=day) - (self.day0pops.get(name,0) * self.start_empty)
-- 
2.43.0


From 203f058fb2b6a0641a3f6c70532d043acc0e3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:23 +0000
Subject: [PATCH 39/51] fix: reading agents.csv no longer prints into the
 simulation's output table

---
 flee/InputGeography.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 7fc2ece..f95c67d 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -390,9 +390,7 @@ class InputGeography:
                     pass
                 elif headers is None:
                     headers = row[1:]
-                    print(headers)
                 else:
-                    print(row)
                     attr = {}
                     for i in range (1, len(row)):
                         attr[headers[i-1]] = row[i]
@@ -404,7 +402,7 @@ class InputGeography:
                             loc_found= True
 
                     if not loc_found:
-                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", sys.stderr)
+                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", file=sys.stderr)
 
 
     def StoreInputGeographyInEcosystem(self, e):
-- 
2.43.0


From ef8c0584432e1777f7b2b0453fdc383284333f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:42 +0000
Subject: [PATCH 40/51] fix: the weight of a flood level applies once, and not
 to unflooded flood zones

---
 flee/scoring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/scoring.py b/flee/scoring.py
index 33bb71d..709e4f2 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -48,9 +48,9 @@ def updateLocationScore(time: int, loc) -> None:
 
         flood_level = loc.attributes.get("flood_level")
         
+        # The weight of the current flood level is applied in moving.getEndPointScore().
         if flood_level is not None:
-            score *= float(SimulationSettings.move_rules["FloodLocWeights"][flood_level])
-        
+
             #Flooding Forecaster Location Score Implementation:
             if SimulationSettings.move_rules["FloodForecaster"] is True:
 
-- 
2.43.0


From 85abd60b77617f7c657309ac0a1d1e6c6ee3dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:16 +0000
Subject: [PATCH 41/51] fix: a second simulation in one process starts without
 the counts and demographics of the first

---
 flee/flee.py     |  1 +
 flee/pflee.py    |  1 +
 flee/spawning.py | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index 6ef6565..144d621 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -791,6 +791,7 @@ class Ecosystem:
         Returns:
             None.
         """
+        spawning.reset()
         self.locations = []
         self.locationNames = []
         self.agents = []
diff --git a/flee/pflee.py b/flee/pflee.py
index 092ba94..8e1cc74 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -395,6 +395,7 @@ class Ecosystem(flee.Ecosystem):
         Returns: 
             None.
         """
+        spawning.reset()
         self.locations = []
         self.locationNames = []
         self.agents = []
diff --git a/flee/spawning.py b/flee/spawning.py
index 9d19c64..0a7c694 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -20,6 +20,25 @@ __refugee_debt = 0
 __demographics = {}
 
 
+def reset():
+    """
+    Summary:
+        Forgets the refugee counts and demographics of any earlier simulation in this process.
+        Called when a new Ecosystem is created.
+
+    Args:
+        None.
+
+    Returns:
+        None.
+    """
+    global __refugees_raw, __refugee_debt
+
+    __refugees_raw = 0
+    __refugee_debt = 0
+    __demographics.clear()
+
+
 def getAttributeRatio(location, attr_name):
     """
     Summary:
-- 
2.43.0


From d5886200aa4f89fc0b4487717c6654004c336624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:04 +0000
Subject: [PATCH 42/51] fix: a second parallel simulation in one process starts
 with its own scores

---
 flee/pflee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 8e1cc74..c49f852 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -396,6 +396,7 @@ class Ecosystem(flee.Ecosystem):
             None.
         """
         spawning.reset()
+        Ecosystem.scores = np.array([1.0, 1.0])
         self.locations = []
         self.locationNames = []
         self.agents = []
-- 
2.43.0


From 6931990bcf3817e33aa23d6a45936b01ec0fda6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 43/51] fix: the distance between opposite points of the globe
 no longer raises an error

---
 flee/flee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index 144d621..21686cf 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -440,7 +440,7 @@ class Location:
         dlat = lat2 - lat1
 
         a = math.sin(dlat / 2)**2 + math.cos(lat1) * math.cos(lat2) * math.sin(dlon / 2)**2
-        c = 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))
+        c = 2 * math.atan2(math.sqrt(a), math.sqrt(max(0.0, 1 - a)))
 
         return R * c
 
-- 
2.43.0


From b9784aafb6fe2826e29cea0767b463681cdefff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 44/51] fix: forecast plots cope with the Date column and camp
 names with spaces

---
 flee/postprocessing/plot_flee_forecast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flee/postprocessing/plot_flee_forecast.py b/flee/postprocessing/plot_flee_forecast.py
index df25a65..119598f 100644
--- a/flee/postprocessing/plot_flee_forecast.py
+++ b/flee/postprocessing/plot_flee_forecast.py
@@ -100,11 +100,11 @@ def plot_flee_forecast(input_dir: str, region_names: list = None) -> None:
 
         frame.to_csv("{}/all_out.csv".format(output_dir), index=False)
 
-        mean_df = frame.groupby(["Day"]).mean()
+        mean_df = frame.groupby(["Day"]).mean(numeric_only=True)
 
         mean_df = mean_df.reset_index()
 
-        std_df = frame.groupby(["Day"]).std()
+        std_df = frame.groupby(["Day"]).std(numeric_only=True)
 
         std_df = std_df.reset_index()
 
@@ -134,8 +134,8 @@ def plot_flee_forecast(input_dir: str, region_names: list = None) -> None:
         # find the camps camp_names
         camp_names = []
         for col in list(dfList[0].columns.values):
-            if col.find(" data") != -1:
-                camp_names.append(col.split()[0])
+            if col.endswith(" data"):
+                camp_names.append(col[: -len(" data")])
 
         # print(camp_names)
 
-- 
2.43.0


From e0a899652e773cfd02d0d71f8a2d488609cdf3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 45/51] fix: model comparison reports the rescaled error as
 such

---
 flee/postprocessing/plot_flee_compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/postprocessing/plot_flee_compare.py b/flee/postprocessing/plot_flee_compare.py
index ec1fc90..d1a879d 100644
--- a/flee/postprocessing/plot_flee_compare.py
+++ b/flee/postprocessing/plot_flee_compare.py
@@ -73,7 +73,7 @@ def compare_errors(data_dir,output_dir,config_name,list_of_directories_names):
    
         diffdata = sim_errors.abs_diff(rescaled=False) / np.maximum(un_refs, np.ones(len(un_refs)))
 
-        diffdata_rescaled = sim_errors.abs_diff(rescaled=False) / np.maximum(un_refs, np.ones(len(un_refs)))
+        diffdata_rescaled = sim_errors.abs_diff(rescaled=True) / np.maximum(un_refs, np.ones(len(un_refs)))
         '''
         execution_time = os.path.join(output_dir,'execution_time.txt')
         
-- 
2.43.0


From ea84762b30c53cd1bc27b915821aa2d077af9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:41 +0000
Subject: [PATCH 46/51] fix: model comparison finds the camps by their columns,
 not by column position

---
 flee/postprocessing/plot_flee_compare.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/flee/postprocessing/plot_flee_compare.py b/flee/postprocessing/plot_flee_compare.py
index d1a879d..11f8e18 100644
--- a/flee/postprocessing/plot_flee_compare.py
+++ b/flee/postprocessing/plot_flee_compare.py
@@ -119,18 +119,7 @@ def compare_camps(data_dir,output_dir,list_of_directories_names):
 
         df=pd.read_csv(os.path.join(input_dir,'out.csv'),sep=',', encoding='latin1')
 
-        columns_list = list(df.columns.values)
-
-        columns_list = columns_list[2:-6]
-
-        camps_list =[]
-
-        for i in range(len(columns_list)):
-
-            camp_name = columns_list[i].split()
-            camps_list.append(camp_name[0])
-
-        camps_list = list(dict.fromkeys(camps_list))
+        camps_list = find_locations_names(df)
 
         for camp_name in camps_list:
 
-- 
2.43.0


From 6f1ca09a1901df5672b303e45a21b3f6628f192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:44 +0000
Subject: [PATCH 47/51] fix: the order of the demographics files on disk does
 not affect a simulation

---
 flee/spawning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 0a7c694..c9bb284 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -150,7 +150,8 @@ def read_demographics(e):
   if not os.path.exists("input_csv"):
       return
 
-  csv_list = glob.glob(os.path.join("input_csv","demographics_*.csv"))
+  # Sorted, because the order in which files are listed depends on the file system.
+  csv_list = sorted(glob.glob(os.path.join("input_csv","demographics_*.csv")))
 
   for csvname in csv_list:
       read_demographic_csv(e, csvname)
-- 
2.43.0


From 340ef4dda47de5703547559a8c76dec3f0c32de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 48/51] fix: day 0 refugees only take up capacity when they are
 not agents

---
 flee/spawning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index c9bb284..174dedc 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -323,10 +323,14 @@ def spawn_daily_displaced(e, t, d):
           new_refs = 0
           #__refugees_raw = 0
 
-          for l in e.locations:
+          # If the simulation starts with empty camps, then the people there on Day 0 still take up
+          # part of the capacity. Otherwise they are agents, and count as such.
+          if SimulationSettings.spawn_rules["EmptyCampsOnDay0"]:
+            for l in e.locations:
               #print(l.name, l.capacity, d.day0pops.get(l.name,0),  file=sys.stderr)
               if l.capacity > 0 :
-                  l.capacity -= int(float(d.day0pops.get(l.name,0)))
+                  # A capacity of 0 or less would mean that there is no limit.
+                  l.capacity = max(1, l.capacity - int(float(d.day0pops.get(l.name,0))))
               #print(l.name, l.capacity, file=sys.stderr)
 
 
-- 
2.43.0


From 50d9af09951ab0d0d5a3fef60bdf8a36d647e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:12 +0000
Subject: [PATCH 49/51] fix: the attractiveness of flood zones follows the
 flood forecast

---
 flee/scoring.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/flee/scoring.py b/flee/scoring.py
index 709e4f2..c5af36f 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -83,14 +83,8 @@ def updateLocationScore(time: int, loc) -> None:
                                     forecast_day = forecast_end_time  # same as time + x
 
                                 #Get the forecast flood level for the location on the day we're considering in the for loop
-                                forecast_flood_level = loc.attributes.get("forecast_flood_level",0)
-                        
-                                # print("forecast_flood_level",forecast_flood_level, file=sys.stderr)
-                                # print("forecast_day",forecast_day, file=sys.stderr)
-                                # forecast_flood_level = loc.attributes.get("forecast_flood_level",0)[forecast_day]
-                                # [forecast_day]
-
-                        
+                                forecast_flood_level = loc.attributes.get("forecast_flood_levels",0)[forecast_day]
+
                                 # if it's not zero, then we need to modify the base forecast value, otherwise leave the base as it will zero.
                                 if forecast_flood_level > 0.0: 
                                     #get the endpoint locations current flood level weight based on that flood level.
-- 
2.43.0


From 94566b0b61cc271b975fac1d4d3bdcb336007c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:12 +0000
Subject: [PATCH 50/51] fix: a flood forecast of one day takes effect

---
 flee/moving.py  | 8 ++++----
 flee/scoring.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index dc8a684..b21c512 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -72,10 +72,10 @@ def getEndPointScore(agent, endpoint, time) -> float:
             forecast_end_time = SimulationSettings.move_rules["FloodForecasterEndTime"] 
 
             # If there is a forecast timescale and endtime are set
-            # If forecast_timescale is greater than 1 and the current time step is less than the forecast end time
+            # If forecast_timescale is greater than 0 and the current time step is less than the forecast end time
             if forecast_timescale is not None:
               if forecast_end_time is not None:
-                if (forecast_timescale > 1.0) and (time <= forecast_end_time): 
+                if (forecast_timescale > 0) and (time <= forecast_end_time): 
               
                   #Set the base forecast value
                   flood_forecast_base = 0.0 #no forecast, no flooding 
@@ -367,10 +367,10 @@ def calculateMoveChance(a, ForceTownMove: bool, time) -> float:
           forecast_end_time = SimulationSettings.move_rules["FloodForecasterEndTime"] 
 
           # If there is a forecast timescale and endtime are set
-          # If forecast_timescale is greater than 1 and the current time step is less than the forecast end time
+          # If forecast_timescale is greater than 0 and the current time step is less than the forecast end time
           if forecast_timescale is not None:
             if forecast_end_time is not None:
-              if (forecast_timescale > 1.0) and (time <= forecast_end_time): 
+              if (forecast_timescale > 0) and (time <= forecast_end_time): 
                 
                 #Set the base forecast value
                 flood_forecast_base = 0.0 #no forecast, no flooding 
diff --git a/flee/scoring.py b/flee/scoring.py
index c5af36f..1f66f38 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -61,10 +61,10 @@ def updateLocationScore(time: int, loc) -> None:
                 forecast_end_time = SimulationSettings.move_rules["FloodForecasterEndTime"] 
 
                 # If there is a forecast timescale and endtime are set
-                # If forecast_timescale is greater than 1 and the current time step is less than the forecast end time
+                # If forecast_timescale is greater than 0 and the current time step is less than the forecast end time
                 if forecast_timescale is not None:
                     if forecast_end_time is not None:
-                        if (forecast_timescale > 1.0) and (time <= forecast_end_time): 
+                        if (forecast_timescale > 0) and (time <= forecast_end_time): 
                     
                             #Set the default score value
                             flood_forecast_score = 0.0 #no forecast, no flooding
-- 
2.43.0


From 72fe3ee1a5b4f99f2f2a670656576ef525073c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:03 +0000
Subject: [PATCH 51/51] fix: write_agents and write_links write as often and as
 much as asked

---
 flee/Diagnostics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 2e7a2f3..aa602a1 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -77,7 +77,7 @@ def write_agents_par(
     else:
         my_file = open("agents.out.%s" % rank, "a", encoding="utf-8")
 
-    if max_written < 0:
+    if max_written < 0 or max_written > len(agents):
         max_written = len(agents)
 
     if time % timestep_interval == 0:
@@ -191,7 +191,9 @@ def write_agents(agents, time: int, max_written: int = -1, timestep_interval: in
     Returns:
         None.
     """
-    write_agents_par(rank=0, agents=agents, time=time, max_written=-1, timestep_interval=1)
+    write_agents_par(
+        rank=0, agents=agents, time=time, max_written=max_written, timestep_interval=timestep_interval
+    )
 
 
 @check_args_type
@@ -300,5 +302,5 @@ def write_links(locations, time: int, timestep_interval: int = 1) -> None:
     Returns:
         None.
     """
-    write_links_par(rank=0, locations=locations, time=time, timestep_interval=1)
+    write_links_par(rank=0, locations=locations, time=time, timestep_interval=timestep_interval)
 
-- 
2.43.0

