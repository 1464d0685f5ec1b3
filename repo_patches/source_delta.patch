From d8fe702418cfca945d276fc6ece459a7dda193b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 001/106] fix: override_signal without reset crashes when the
 current phase does not exist in the new plan

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6dcf19e..3bed571 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -166,7 +166,7 @@ class Node:
         s.signal = signal
         s.cycle_length = sum(s.signal)
         s.signal_offset = signal_offset
-        if reset:
+        if reset or s.signal_phase >= len(s.signal): #the current phase may not exist in the new signal plan
             s.signal_phase = 0
             s.signal_t = 0
         if signal_offset_old != None:
-- 
2.43.0


From 9dbecad66447992b5ac37c69bd441a978c856f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 002/106] fix: C++ mode reported zeros for cumulative counts
 and instantaneous travel time at the current time of an ongoing simulation

---
 uxsim/uxsim_cpp_wrapper.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6e3009a..260649f 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -289,13 +289,17 @@ class CppLink:
         self._free_flow_tt = self.length / self.u
         self._deltat = self.W.DELTAT
 
+    def _simulated_part(self, arr):
+        """C++ allocates the time-indexed arrays for the whole horizon. While the simulation is ongoing, expose the executed timesteps only, as Python mode does."""
+        return arr[:getattr(self.W, "T", 0)]
+
     @property
     def cum_arrival(self):
         if self.W._simulation_done:
             if not '_cached_cum_arrival' in self.__dict__:
                 self._cached_cum_arrival = self._cpp_link.get_cum_arrival_np()
             return self._cached_cum_arrival
-        return self._cpp_link.get_cum_arrival_np()
+        return self._simulated_part(self._cpp_link.get_cum_arrival_np())
 
     @property
     def cum_departure(self):
@@ -303,7 +307,7 @@ class CppLink:
             if not '_cached_cum_departure' in self.__dict__:
                 self._cached_cum_departure = self._cpp_link.get_cum_departure_np()
             return self._cached_cum_departure
-        return self._cpp_link.get_cum_departure_np()
+        return self._simulated_part(self._cpp_link.get_cum_departure_np())
 
     @property
     def traveltime_instant(self):
@@ -311,7 +315,7 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._cpp_link.get_traveltime_instant_np()
+        return self._simulated_part(self._cpp_link.get_traveltime_instant_np())
 
     @property
     def traveltime_actual(self):
-- 
2.43.0


From 9a4b53a3c1cf22769d9c3042961d355f798e4b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 003/106] fix: vehicle positions and GPS-like logs were wrong
 or crashed for C++ mode, for vehicles added during a run, and at arrivals

---
 uxsim/analyzer.py          |  4 ++--
 uxsim/uxsim.py             | 14 ++++++++++----
 uxsim/uxsim_cpp_wrapper.py | 22 +++++++++++++++++-----
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 761e59a..072533d 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1658,9 +1658,9 @@ class Analyzer:
         out = [["name", "t", "x", "y", "v"]]
         for veh in s.W.VEHICLES.values():
             for i,t in enumerate(veh.log_t):
-                x, y = veh.get_xy_coords(t)
-                if (x, y) == (-1, -1):
+                if veh.log_state[i] != "run":
                     continue
+                x, y = veh.get_xy_coords(t)
                 v = veh.log_v[i]
                 out.append([veh.name, t, x, y, v])
         s.df_gps_like_log = pd.DataFrame(out[1:], columns=out[0])
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 3bed571..fd76d70 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -3,7 +3,7 @@ UXsim: Macroscopic/mesoscopic traffic flow simulator in a network.
 This `uxsim.py` is the core of UXsim. It summarizes the classes and methods that are essential for the simulation.
 """
 
-import csv, time, math, string, warnings, copy
+import bisect, csv, time, math, string, warnings, copy
 from collections import deque, OrderedDict
 from collections import defaultdict as ddict
 import warnings
@@ -1488,12 +1488,18 @@ class Vehicle:
             Time in seconds. If it is -1, the latest position is returned.
         """
         if t != -1:
-            link = s.log_link[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
-            xx = s.log_x[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
+            i = bisect.bisect_right(s.log_t, t)-1
+            if i < 0:
+                return (-1, -1)
+            if s.log_t[i] == t:
+                #the log at the arrival time has two records: the last position and the end of the trip
+                i = bisect.bisect_left(s.log_t, t)
+            link = s.log_link[i]
+            xx = s.log_x[i]
         else:
             link = s.link
             xx = s.x
-        if link == -1:
+        if link == -1 or link is None:
             return (-1, -1)
         link = s.W.get_link(link)
         x0 = link.start_node.x
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 260649f..e953dd8 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -9,6 +9,7 @@ This module only handles:
   - Analyzer-compatible attribute exposure
 """
 
+import bisect
 import random
 import time
 import string
@@ -722,11 +723,22 @@ class CppVehicle:
             self.add_dest(d)
 
     def get_xy_coords(self, t=-1):
-        if self.link is None:
-            return self.orig.x, self.orig.y
-        ratio = self.x / self.link.length if self.link.length > 0 else 0
-        return (self.link.start_node.x + ratio * (self.link.end_node.x - self.link.start_node.x),
-                self.link.start_node.y + ratio * (self.link.end_node.y - self.link.start_node.y))
+        if t != -1:
+            log_t = self.log_t
+            i = bisect.bisect_right(log_t, t)-1
+            if i < 0:
+                return (-1, -1)
+            if log_t[i] == t:
+                # the log at the arrival time has two records: the last position and the end of the trip
+                i = bisect.bisect_left(log_t, t)
+            link, x = self.log_link[i], self.log_x[i]
+        else:
+            link, x = self.link, self.x
+        if link == -1 or link is None:
+            return (-1, -1)
+        ratio = x / link.length if link.length > 0 else 0
+        return (link.start_node.x + ratio * (link.end_node.x - link.start_node.x),
+                link.start_node.y + ratio * (link.end_node.y - link.start_node.y))
 
 
 
-- 
2.43.0


From f5862139e920df613686f594973ff0c760520aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:05 +0000
Subject: [PATCH 004/106] fix: C++ mode lost timesteps by rounding errors when
 executed until an intermediate time

---
 uxsim/uxsim_cpp_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index e953dd8..27f58e3 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1205,7 +1205,8 @@ class CppWorld:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
         # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
-        self._cpp_world.main_loop(float(-1), float(end_ts * self.DELTAT))
+        # (the half timestep keeps floor() from falling to the previous timestep by rounding errors)
+        self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
         self._sync_from_cpp()
 
         # Update Python-side time tracking from C++ state
-- 
2.43.0


From 05d1a1554e763864abf95992a184471cbd5f0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 005/106] fix: addVehicle in C++ mode created no vehicle or a
 vehicle at another timestep by rounding errors

---
 uxsim/uxsim_cpp_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 27f58e3..6aed205 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -952,7 +952,10 @@ class CppWorld:
         orig_name = orig.name if hasattr(orig, 'name') else str(orig)
         dest_name = dest.name if hasattr(dest, 'name') else str(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
-        t = departure_time * self.DELTAT if dep_is_ts else float(departure_time)
+        ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT)
+        # Intermediate points of timesteps, so that rounding errors do not change the number of vehicles nor their departure timestep
+        t_start = (ts + 0.5 if ts >= 0 else ts - 0.5) * self.DELTAT
+        t_end = t_start + self.DELTAT
 
         # Validate custom vehicle name before creating the C++ vehicle
         name = kwargs.get('name')
@@ -974,7 +977,7 @@ class CppWorld:
 
         n_before = self._cpp_world.vehicle_count
         _add_demand(self._cpp_world, orig_name, dest_name,
-                   float(t), float(t + self.DELTAT), float(self.DELTAN / self.DELTAT), cpp_links_pref)
+                   float(t_start), float(t_end), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
         links_avoid = kwargs.get('links_avoid', [])
-- 
2.43.0


From 714b1abc409feecc9f8345c16a7e4f1890e17d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 006/106] fix: addVehicle in C++ mode ignored trip_abort

---
 uxsim/uxsim_cpp_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6aed205..7176785 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -996,6 +996,9 @@ class CppWorld:
                 except (AttributeError, TypeError):
                     pass
 
+        if 'trip_abort' in kwargs:
+            self._cpp_world.get_vehicle_by_index(n_before).trip_abort = int(kwargs['trip_abort'])
+
         self._register_new_cpp_vehicles()
 
         veh = self._veh_by_index[n_before]
-- 
2.43.0


From 8c5dc7e02e80dc2e13766827c70df998960a3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 007/106] fix: preferred/avoided links of equal preference were
 chosen in a different order in C++ mode

---
 uxsim/trafficpp/traffi.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 8f3618e..ff3a5bf 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -954,6 +954,11 @@ void Vehicle::route_next_link_choice(const vector<Link*>& linkset, std::mt19937
         return;
     }
 
+    // As in Python, restricted candidates are considered in the order of their names (this decides between equally preferred links).
+    auto sort_by_name = [](vector<Link*> &ls){
+        std::sort(ls.begin(), ls.end(), [](const Link *a, const Link *b){ return a->name < b->name; });
+    };
+
     // Filter by links_preferred (intersection with linkset)
     _buf_outlinks.clear();
     _buf_outlinks.insert(_buf_outlinks.end(), linkset.begin(), linkset.end());
@@ -967,6 +972,7 @@ void Vehicle::route_next_link_choice(const vector<Link*>& linkset, std::mt19937
         }
         if (!_buf_filtered.empty()){
             outlinks.swap(_buf_filtered);
+            sort_by_name(outlinks);
         }
     }
 
@@ -981,6 +987,7 @@ void Vehicle::route_next_link_choice(const vector<Link*>& linkset, std::mt19937
         }
         if (_buf_filtered.size() != outlinks.size()){
             outlinks.swap(_buf_filtered);
+            sort_by_name(outlinks);
         }
         if (outlinks.empty()){
             throw std::invalid_argument("Vehicle " + name + ": links_avoid excludes all outgoing links of the current node");
-- 
2.43.0


From ec2376e2b78f170d7d1bc985563f537f41ca4854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 008/106] fix: Link.average_speed and average_flow in C++ mode
 were based on the actual instead of the instantaneous travel time

---
 uxsim/uxsim_cpp_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 7176785..f7ffee2 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -443,8 +443,7 @@ class CppLink:
         return arr[idx]
 
     def average_speed(self, t):
-        tt = self.actual_travel_time(t)
-        return self.length / tt if tt > 0 else self.u
+        return float(self.length / self.instant_travel_time(t))
 
     def average_flow(self, t):
         return self.average_density(t) * self.average_speed(t)
-- 
2.43.0


From 7ec17f72b0fa54a7aed8c89f42a8e741a3533035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:27 +0000
Subject: [PATCH 009/106] fix: Link.average_travel_time_between in C++ mode
 ignored all vehicles while the simulation was ongoing

---
 uxsim/uxsim_cpp_wrapper.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f7ffee2..61901f3 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -257,7 +257,7 @@ class CppLink:
 
         # Containers for analyzer compatibility
         self.vehicles = deque()
-        self.vehicles_enter_log = {}
+        self._vehicles_enter_log = {}
         self._traveltime_actual = []
         self.congestion_pricing = congestion_pricing
         self._route_choice_penalty = 0
@@ -366,6 +366,11 @@ class CppLink:
         self._capacity_out_remain = value
         self._cpp_link.capacity_out_remain = float(value)
 
+    @property
+    def vehicles_enter_log(self):
+        self.W._build_vehicles_enter_log()
+        return self._vehicles_enter_log
+
     # --- Data access methods for analyzer (read directly from C++) ---
 
     @property
@@ -885,6 +890,7 @@ class CppWorld:
         if vehicle_logging_timestep_interval not in (0, 1, -1):
             warnings.warn("vehicle_logging_timestep_interval is not 0, 1, or -1. C++ mode only supports 0 (no logging) and 1 (full logging). The value will be treated as 1 (logging enabled).", stacklevel=2)
         self._simulation_done = False
+        self._enter_log_timestep = None
         self._skip_log_on_terminate = False
         self._skip_analyzer_setup = False
         self._cpp_veh_registered_count = 0
@@ -1397,9 +1403,13 @@ class CppWorld:
         self.analyzer.basic_analysis()
 
     def _build_vehicles_enter_log(self):
-        """Reconstruct each link's vehicles_enter_log from C++ bulk data."""
+        """Reconstruct each link's vehicles_enter_log from C++ bulk data. Does nothing if it is up to date."""
+        timestep = getattr(self, "T", 0)
+        if self._enter_log_timestep == timestep:
+            return
+        self._enter_log_timestep = timestep
         for link in self.LINKS:
-            link.vehicles_enter_log = {}
+            link._vehicles_enter_log = {}
         try:
             data = self._cpp_world.build_enter_log_data()
             link_ids = data['link_id']
@@ -1411,13 +1421,13 @@ class CppWorld:
             for i in range(len(link_ids)):
                 lid = int(link_ids[i])
                 if 0 <= lid < n_links:
-                    links_list[lid].vehicles_enter_log[float(times[i])] = vehicles_list[int(veh_indices[i])]
+                    links_list[lid]._vehicles_enter_log[float(times[i])] = vehicles_list[int(veh_indices[i])]
         except AttributeError:
             # Fallback for older C++ builds without build_enter_log_data
             for veh in self.VEHICLES.values():
                 for t, l in veh.log_t_link:
                     if isinstance(l, CppLink):
-                        l.vehicles_enter_log[t] = veh
+                        l._vehicles_enter_log[t] = veh
 
     def get_node(self, node):
         if node is None:
-- 
2.43.0


From bea9b261479caa453a4096b3f368ae22b10e7811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:50 +0000
Subject: [PATCH 010/106] fix: rounding errors assigned travel times and link
 queries to a neighboring timestep when the timestep width is fractional

---
 uxsim/trafficpp/traffi.cpp |  6 +++---
 uxsim/uxsim.py             | 12 ++++++------
 uxsim/uxsim_cpp_wrapper.py | 12 ++++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index ff3a5bf..5d30857 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -356,7 +356,7 @@ void Node::transfer(){
         // Record traveltime_real event (lazily materialized on read, matching Python's traveltime_actual slice update)
         {
             double current_tt = (double)w->timestep * w->delta_t - chosen_veh->arrival_time_link;
-            int start_idx = (int)(chosen_veh->arrival_time_link / w->delta_t);
+            int start_idx = (int)std::lround(chosen_veh->arrival_time_link / w->delta_t);
             if (start_idx < 0) start_idx = 0;
             inlink->traveltime_real_events.emplace_back(start_idx, current_tt);
         }
@@ -892,7 +892,7 @@ void Vehicle::end_trip(){
     // Record traveltime_real event (lazily materialized on read, matching Python's traveltime_actual slice update)
     {
         double current_tt = ((double)w->timestep + 1.0) * w->delta_t - arrival_time_link;
-        int start_idx = (int)(arrival_time_link / w->delta_t);
+        int start_idx = (int)std::lround(arrival_time_link / w->delta_t);
         if (start_idx < 0) start_idx = 0;
         link->traveltime_real_events.emplace_back(start_idx, current_tt);
     }
@@ -2008,7 +2008,7 @@ World::CompactFlatLogs World::build_all_vehicle_logs_flat_compact() const {
         const Vehicle *v = vehicles[vi];
         int n_missing = 0;
         if (v->log_size > 0 && v->log_t_at(0) > 0) {
-            n_missing = static_cast<int>(v->log_t_at(0) / delta_t);
+            n_missing = static_cast<int>(std::lround(v->log_t_at(0) / delta_t));
         }
         fl.n_missing[vi] = n_missing;
         fl.offsets[vi] = total_log;
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index fd76d70..135cfc5 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -348,7 +348,7 @@ class Node:
                 #累積台数関連更新
                 inlink.cum_departure[-1] += s.W.DELTAN
                 outlink.cum_arrival[-1] += s.W.DELTAN
-                inlink.traveltime_actual[int(veh.link_arrival_time/s.W.DELTAT):] = s.W.T*s.W.DELTAT - veh.link_arrival_time #自分の流入時刻より後の実旅行時間も今の実旅行時間で仮決め．後に流出した車両が上書きする前提
+                inlink.traveltime_actual[round(veh.link_arrival_time/s.W.DELTAT):] = s.W.T*s.W.DELTAT - veh.link_arrival_time #自分の流入時刻より後の実旅行時間も今の実旅行時間で仮決め．後に流出した車両が上書きする前提
 
                 veh.link_arrival_time = s.W.T*s.W.DELTAT
 
@@ -702,7 +702,7 @@ class Link:
         float
             The cumulative arrival vehicle count.
         """
-        tt = int(t//s.W.DELTAT)
+        tt = int(t/s.W.DELTAT+1e-9) #the small value compensates for rounding errors of `timestep*DELTAT`
         if tt >= len(s.cum_arrival):
             return s.cum_arrival[-1]
         if tt < 0:
@@ -723,7 +723,7 @@ class Link:
         float
             The cumulative departure vehicle count.
         """
-        tt = int(t//s.W.DELTAT)
+        tt = int(t/s.W.DELTAT+1e-9) #the small value compensates for rounding errors of `timestep*DELTAT`
         if tt >= len(s.cum_departure):
             return s.cum_departure[-1]
         if tt < 0:
@@ -815,7 +815,7 @@ class Link:
         float
             The instantaneous travel time.
         """
-        tt = int(t//s.W.DELTAT)
+        tt = int(t/s.W.DELTAT+1e-9) #the small value compensates for rounding errors of `timestep*DELTAT`
         if tt >= len(s.traveltime_instant):
             return s.traveltime_instant[-1]
         if tt < 0:
@@ -836,7 +836,7 @@ class Link:
         float
             The actual travel time.
         """
-        tt = int(t//s.W.DELTAT)
+        tt = int(t/s.W.DELTAT+1e-9) #the small value compensates for rounding errors of `timestep*DELTAT`
         if tt >= len(s.traveltime_actual):
             return s.traveltime_actual[-1]
         if tt < 0:
@@ -1225,7 +1225,7 @@ class Vehicle:
         s.state = "end"
 
         s.link.cum_departure[-1] += s.W.DELTAN
-        s.link.traveltime_actual[int(s.link_arrival_time/s.W.DELTAT):] = (s.W.T+1)*s.W.DELTAT - s.link_arrival_time  #端部の挙動改善 todo: 精査
+        s.link.traveltime_actual[round(s.link_arrival_time/s.W.DELTAT):] = (s.W.T+1)*s.W.DELTAT - s.link_arrival_time  #端部の挙動改善 todo: 精査
 
         if s.follower != None:
             s.follower.leader = None
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 61901f3..a7ad778 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -399,13 +399,13 @@ class CppLink:
     def arrival_count(self, t):
         if len(self.cum_arrival) == 0:
             return 0
-        idx = min(max(int(t / self.W.DELTAT), 0), len(self.cum_arrival) - 1)
+        idx = min(max(int(t / self.W.DELTAT + 1e-9), 0), len(self.cum_arrival) - 1)
         return self.cum_arrival[idx]
 
     def departure_count(self, t):
         if len(self.cum_departure) == 0:
             return 0
-        idx = min(max(int(t / self.W.DELTAT), 0), len(self.cum_departure) - 1)
+        idx = min(max(int(t / self.W.DELTAT + 1e-9), 0), len(self.cum_departure) - 1)
         return self.cum_departure[idx]
 
     def inflow_between(self, t0, t1):
@@ -428,7 +428,7 @@ class CppLink:
         n = len(arr)
         if n == 0:
             return self._free_flow_tt
-        idx = int(t / self._deltat)
+        idx = int(t / self._deltat + 1e-9)
         if idx < 0:
             idx = 0
         elif idx >= n:
@@ -440,7 +440,7 @@ class CppLink:
         n = len(arr)
         if n == 0:
             return self._free_flow_tt
-        idx = int(t / self._deltat)
+        idx = int(t / self._deltat + 1e-9)
         if idx < 0:
             idx = 0
         elif idx >= n:
@@ -529,7 +529,7 @@ class CppVehicle:
 
     @property
     def departure_time(self):
-        return int(self._cpp_vehicle.departure_time / self.W.DELTAT)
+        return round(self._cpp_vehicle.departure_time / self.W.DELTAT)
 
     @property
     def departure_time_in_second(self):
@@ -542,7 +542,7 @@ class CppVehicle:
         if at >= 0:
             if self.state == "abort":
                 return -1
-            return int(at / self.W.DELTAT)
+            return round(at / self.W.DELTAT)
         return -1
 
     @property
-- 
2.43.0


From 2fe79b0afbfc9bcdeefc3b294d76092b419d2637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:50 +0000
Subject: [PATCH 011/106] fix: free-flowing vehicles were counted as queuing
 because of rounding errors of their speed

---
 uxsim/trafficpp/traffi.cpp | 2 +-
 uxsim/uxsim.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 5d30857..9037c27 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -589,7 +589,7 @@ void Link::change_jam_density(double new_value){
 int Link::count_vehicles_in_queue() const {
     int count = 0;
     for (auto veh : vehicles){
-        if (veh->v < vmax){
+        if (veh->v < vmax * (1.0 - 1e-9)){ // with tolerance for rounding errors of the speed
             count++;
         }
     }
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 135cfc5..3baaa59 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -928,7 +928,7 @@ class Link:
     @property
     def num_vehicles_queue(s):
         if s._num_vehicles_queue == -1:
-            s._num_vehicles_queue = sum([veh.v < s.u for veh in s.vehicles])*s.W.DELTAN
+            s._num_vehicles_queue = sum([veh.v < s.u*(1-1e-9) for veh in s.vehicles])*s.W.DELTAN #with tolerance for rounding errors of the speed
         return s._num_vehicles_queue
 
     #Disabled temporally to avoid cirtical bugs related to scenario writer/reader. Instead, change_*() are added
-- 
2.43.0


From e5a1bfef6cf875a58c26c0c1eabd95626f2e21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 012/106] fix: vehicles needed one more timestep to reach a
 link end because of rounding errors when the timestep width is fractional

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 3baaa59..46aac9d 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1174,7 +1174,7 @@ class Vehicle:
             s.distance_traveled += s.x-s.x_old
 
             #at the end of the link
-            if s.x == s.link.length:
+            if abs(s.x-s.link.length) < 1e-9: #same tolerance to C++ mode
                 if s.link.end_node in s.node_event.keys():
                     s.node_event[s.link.end_node]()
                 
-- 
2.43.0


From ac0bb29a222a342bdd8d826877c88bade655eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 013/106] fix: demand was lost or delayed by accumulated
 rounding errors

---
 uxsim/trafficpp/traffi.cpp |  7 ++++---
 uxsim/uxsim.py             | 10 +++++-----
 uxsim/uxsim_cpp_wrapper.py |  6 +++---
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 9037c27..08e8822 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1924,12 +1924,13 @@ inline void add_demand(
         vector<string> links_preferred_str = {}){
     // Iterate over integer timesteps, mirroring Python's adddemand: `for t in range(int(t_start/DELTAT), int(t_end/DELTAT))`.
     // This keeps the iteration count and the timestep-quantized departure times identical to Python even when t_start/t_end are not multiples of delta_t.
-    int ts_start = (int)(start_t / w->delta_t);
-    int ts_end = (int)(end_t / w->delta_t);
+    // The tolerances are for rounding errors, which would lose or delay vehicles.
+    int ts_start = (int)(start_t / w->delta_t + 1e-9);
+    int ts_end = (int)(end_t / w->delta_t + 1e-9);
     double demand = 0.0;
     for (int ts = ts_start; ts < ts_end; ts++){
         demand += flow * w->delta_t;
-        while (demand >= (double)w->delta_n){
+        while (demand >= (double)w->delta_n * (1.0 - 1e-9)){
             // create new vehicle
             Vehicle *v = new Vehicle(
                 w,
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 46aac9d..798722c 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1045,7 +1045,7 @@ class Vehicle:
         if departure_time_is_time_step:#互換性のため，departure_timeは常にタイムステップ表記 -> TODO: 要訂正！
             s.departure_time: int = departure_time
         else:
-            s.departure_time: int = int(departure_time/s.W.DELTAT)
+            s.departure_time: int = int(departure_time/s.W.DELTAT + 1e-9) #with tolerance for rounding errors
         s.departure_time_in_second: float = departure_time*s.W.DELTAT  #TODO: temporal workaround
         s.arrival_time: int = -1
         s.link_arrival_time: float = -1
@@ -2052,9 +2052,9 @@ class World:
 
         f = 0
 
-        for t in range(int(t_start/W.DELTAT), int(t_end/W.DELTAT)):
+        for t in range(int(t_start/W.DELTAT + 1e-9), int(t_end/W.DELTAT + 1e-9)): #with tolerance for rounding errors, which would lose or delay vehicles
             f += flow*W.DELTAT
-            while f >= W.DELTAN:
+            while f >= W.DELTAN*(1-1e-9):
                 W.addVehicle(orig, dest, t, departure_time_is_time_step=1, attribute=attribute, direct_call=False)
                 f -= W.DELTAN
 
@@ -2234,7 +2234,7 @@ class World:
 
         if flow >= 0 and volume == -1:
             volume = flow*(t_end-t_start)
-        size = int(volume/W.DELTAN)
+        size = int(volume/W.DELTAN + 1e-9)
 
         origs_new = []
         dests_new = []
@@ -2290,7 +2290,7 @@ class World:
         
         if flow >= 0 and volume == -1:
             volume = flow*(t_end-t_start)
-        size = int(volume/W.DELTAN)
+        size = int(volume/W.DELTAN + 1e-9)
 
         origs_new = []
         dests_new = []
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index a7ad778..f2561f5 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -957,7 +957,7 @@ class CppWorld:
         orig_name = orig.name if hasattr(orig, 'name') else str(orig)
         dest_name = dest.name if hasattr(dest, 'name') else str(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
-        ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT)
+        ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT + 1e-9)
         # Intermediate points of timesteps, so that rounding errors do not change the number of vehicles nor their departure timestep
         t_start = (ts + 0.5 if ts >= 0 else ts - 0.5) * self.DELTAT
         t_end = t_start + self.DELTAT
@@ -1077,7 +1077,7 @@ class CppWorld:
         dests = [d for d in dests if d.inlinks] or [self.get_nearest_node(x_dest, y_dest)]
         if flow >= 0 and volume == -1:
             volume = flow * (t_end - t_start)
-        size = int(volume / self.DELTAN)
+        size = int(volume / self.DELTAN + 1e-9)
         ts = np.linspace(t_start, t_end, size)
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
@@ -1090,7 +1090,7 @@ class CppWorld:
         dests = [self.get_node(d) for d in dests if self.get_node(d).inlinks]
         if flow >= 0 and volume == -1:
             volume = flow * (t_end - t_start)
-        size = int(volume / self.DELTAN)
+        size = int(volume / self.DELTAN + 1e-9)
         ts = np.linspace(t_start, t_end, size)
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
-- 
2.43.0


From ba69d5848e488964232758a9c665f6b7d3831360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 014/106] fix: rounding errors lost a timestep of executions
 and intervals that are a multiple of a fractional timestep width

---
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py |  2 +-
 uxsim/trafficpp/traffi.cpp                 |  6 +++---
 uxsim/uxsim.py                             | 12 ++++++------
 uxsim/uxsim_cpp_wrapper.py                 | 14 +++++++-------
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index d7a6379..d375113 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -54,7 +54,7 @@ def _lightweight_finalize(W, cached_analyzer=None):
     # Minimal _setup_analyzer equivalent
     W.T = 0
     W.TIME = 0
-    W.TSIZE = int(W.TMAX / W.DELTAT)
+    W.TSIZE = int(W.TMAX / W.DELTAT + 1e-9)
     W.Q_AREA = defaultdict(lambda: np.zeros(int(W.TMAX / W.EULAR_DT)))
     W.K_AREA = defaultdict(lambda: np.zeros(int(W.TMAX / W.EULAR_DT)))
     for l in W.LINKS:
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 08e8822..2261c67 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1195,8 +1195,8 @@ World::World(
       route_choice_update_gradual(route_choice_update_gradual),
       no_cyclic_routing(no_cyclic_routing),
       delta_t(tau * delta_n),
-      total_timesteps((int)(t_max / (tau * delta_n))),
-      timestep_for_route_update((int)(duo_update_time / (tau * delta_n))),
+      total_timesteps((int)(t_max / (tau * delta_n) + 1e-9)),
+      timestep_for_route_update((int)(duo_update_time / (tau * delta_n) + 1e-9)),
       time(0),
       node_id(0),
       link_id(0),
@@ -1240,7 +1240,7 @@ World::~World(){
 
 void World::set_t_max(double new_t_max){
     t_max = new_t_max;
-    total_timesteps = (size_t)(t_max / delta_t);
+    total_timesteps = (size_t)(t_max / delta_t + 1e-9);
     for (auto ln : links){
         ln->arrival_curve.resize(total_timesteps, 0.0);
         ln->departure_curve.resize(total_timesteps, 0.0);
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 798722c..2258be7 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1789,7 +1789,7 @@ class World:
         W.EULAR_DT = eular_dt     #time discretization size for Eular-type data (aggregated traffic state)
 
         W.DELTAT = W.REACTION_TIME*W.DELTAN
-        W.DELTAT_ROUTE = int(W.DUO_UPDATE_TIME/W.DELTAT) #this unit is timestep
+        W.DELTAT_ROUTE = int(W.DUO_UPDATE_TIME/W.DELTAT + 1e-9) #this unit is timestep
         if W.DELTAT_ROUTE == 0:
             W.DELTAT_ROUTE = 1
 
@@ -2341,7 +2341,7 @@ class World:
         W.T = 0 #timestep
         W.TIME = 0 #s
 
-        W.TSIZE = int(W.TMAX/W.DELTAT)
+        W.TSIZE = int(W.TMAX/W.DELTAT + 1e-9)
         W.Q_AREA = ddict(lambda: np.zeros(int(W.TMAX/W.EULAR_DT)))
         W.K_AREA = ddict(lambda: np.zeros(int(W.TMAX/W.EULAR_DT)))
         for l in W.LINKS:
@@ -2438,11 +2438,11 @@ class World:
         #determine the simulation time
         start_ts = W.T
         if until_t != None:
-            end_ts = int(until_t/W.DELTAT)
+            end_ts = int(until_t/W.DELTAT + 1e-9)
         elif duration_t2 != None:
-            end_ts = start_ts + int(duration_t2/W.DELTAT)-1
+            end_ts = start_ts + int(duration_t2/W.DELTAT + 1e-9)-1
         elif duration_t != None:
-            end_ts = start_ts + int(duration_t/W.DELTAT)
+            end_ts = start_ts + int(duration_t/W.DELTAT + 1e-9)
         else:
             end_ts = W.TSIZE
         if end_ts > W.TSIZE:
@@ -2769,7 +2769,7 @@ class World:
         bool
             Returns True if the current time step is close to the specified time, False otherwise.
         """
-        if W.T == int(time/W.DELTAT):
+        if W.T == int(time/W.DELTAT + 1e-9):
             return True
         else:
             return False
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f2561f5..8804ef1 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -810,7 +810,7 @@ class CppRouteChoice:
         # Fallback: current dist for all DUO timesteps
         dist = self.dist
         record = {}
-        duo_interval = max(1, int(self.W.DUO_UPDATE_TIME / self.W.DELTAT))
+        duo_interval = max(1, int(self.W.DUO_UPDATE_TIME / self.W.DELTAT + 1e-9))
         tsize = getattr(self.W, 'TSIZE', int(getattr(self.W, 'TMAX', 3600) / self.W.DELTAT))
         for ts in range(0, tsize, duo_interval):
             record[ts] = dist
@@ -847,7 +847,7 @@ class CppWorld:
         self.DUO_NOISE = duo_noise
         self.EULAR_DT = eular_dt
         self.DELTAT = self.REACTION_TIME * self.DELTAN
-        self.DELTAT_ROUTE = max(1, int(self.DUO_UPDATE_TIME / self.DELTAT))
+        self.DELTAT_ROUTE = max(1, int(self.DUO_UPDATE_TIME / self.DELTAT + 1e-9))
 
         self.VEHICLES = OrderedDict()
         self.VEHICLES_LIVING = OrderedDict()
@@ -1154,7 +1154,7 @@ class CppWorld:
         """
         self.T = 0
         self.TIME = 0
-        self.TSIZE = int(self.TMAX / self.DELTAT)
+        self.TSIZE = int(self.TMAX / self.DELTAT + 1e-9)
 
         if self._skip_analyzer_setup:
             # Lightweight path for DTA intermediate iterations:
@@ -1197,11 +1197,11 @@ class CppWorld:
         # Determine the last timestep to execute (inclusive), following the same rules as Python's exec_simulation.
         start_ts = self.T
         if until_t is not None:
-            end_ts = int(until_t / self.DELTAT)
+            end_ts = int(until_t / self.DELTAT + 1e-9)
         elif duration_t2 is not None:
-            end_ts = start_ts + int(duration_t2 / self.DELTAT) - 1
+            end_ts = start_ts + int(duration_t2 / self.DELTAT + 1e-9) - 1
         elif duration_t is not None:
-            end_ts = start_ts + int(duration_t / self.DELTAT)
+            end_ts = start_ts + int(duration_t / self.DELTAT + 1e-9)
         else:
             end_ts = self.TSIZE
         if end_ts > self.TSIZE:
@@ -1519,7 +1519,7 @@ class CppWorld:
         print(" setup time:\t\t", f"{time.time() - self.world_start_time:.2f}", "s")
 
     def on_time(self, time_val):
-        return self.T == int(time_val / self.DELTAT)
+        return self.T == int(time_val / self.DELTAT + 1e-9)
 
     def change_print_mode(self, print_mode):
         self.print_mode = print_mode
-- 
2.43.0


From 773d6664b6aa00434f9da9006c2ad7a177985a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 015/106] fix: adddemand_area2area2 and adddemand_nodes2nodes2
 in C++ mode ignored attribute and generated trips to their own origin

---
 uxsim/uxsim_cpp_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 8804ef1..f82e622 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1082,7 +1082,10 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
-            self.addVehicle(o, d, t, direct_call=False)
+            d2 = d
+            if o == d:
+                d2 = self.rng.choice([dd for dd in dests if dd != d])
+            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
 
     @demand_info_record
     def adddemand_nodes2nodes2(self, origs, dests, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1098,7 +1101,7 @@ class CppWorld:
             d2 = d
             if o == d:
                 d2 = self.rng.choice([dd for dd in dests if dd != d])
-            self.addVehicle(o, d2, t, direct_call=False)
+            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
 
     # --- Simulation ---
 
-- 
2.43.0


From 73d7d2a2c16ba590515facaa54f46bf11559b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 016/106] fix: vehicles in C++ mode vanished from
 World.VEHICLES when their default names conflicted with user-specified names

---
 uxsim/uxsim_cpp_wrapper.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f82e622..31f5b5e 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -962,8 +962,10 @@ class CppWorld:
         t_start = (ts + 0.5 if ts >= 0 else ts - 0.5) * self.DELTAT
         t_end = t_start + self.DELTAT
 
-        # Validate custom vehicle name before creating the C++ vehicle
+        # Validate vehicle name before creating the C++ vehicle
         name = kwargs.get('name')
+        if name is None and str(self._cpp_world.vehicle_count) in self.VEHICLES:
+            name = str(self._cpp_world.vehicle_count)
         if name is not None:
             name = str(name)
             if name in self.VEHICLES:
@@ -1004,16 +1006,9 @@ class CppWorld:
         if 'trip_abort' in kwargs:
             self._cpp_world.get_vehicle_by_index(n_before).trip_abort = int(kwargs['trip_abort'])
 
-        self._register_new_cpp_vehicles()
+        self._register_new_cpp_vehicles(name=name)
 
         veh = self._veh_by_index[n_before]
-        if name is not None:
-            # The new vehicle is the last entry, so pop+reinsert keeps VEHICLES in C++ index order.
-            self.VEHICLES.pop(veh.name, None)
-            self.VEHICLES_LIVING.pop(veh.name, None)
-            veh.name = name
-            self.VEHICLES[name] = veh
-            self.VEHICLES_LIVING[name] = veh
         veh.attribute = kwargs.get('attribute')
         veh.user_attribute = kwargs.get('user_attribute')
         veh.user_function = kwargs.get('user_function')
@@ -1232,8 +1227,8 @@ class CppWorld:
             return 1
         return 0
 
-    def _register_new_cpp_vehicles(self):
-        """Register any new C++ vehicles into Python VEHICLES dict.
+    def _register_new_cpp_vehicles(self, name=None):
+        """Register any new C++ vehicles into Python VEHICLES dict. `name` is the custom name of the new vehicle, if any.
         Creates lightweight proxy objects — most attributes are read from C++ on demand."""
         start_idx = self._cpp_veh_registered_count
         total = self._cpp_world.vehicle_count
@@ -1246,12 +1241,15 @@ class CppWorld:
         rcp = self.route_choice_principle
         get_veh = self._cpp_world.get_vehicle_by_index
         veh_id = len(vehicles)
+        custom_name = name
         # Batch-generate random colors
         colors = self.rng.random(size=(n_new, 3))
         for j in range(n_new):
             i = start_idx + j
             cpp_veh = get_veh(i)
-            name = cpp_veh.name
+            name = custom_name if custom_name is not None else cpp_veh.name
+            if name in vehicles:
+                raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
             py_veh = CppVehicle.__new__(CppVehicle)
             py_veh.W = self
             py_veh.name = name
-- 
2.43.0


From a72915b318d80fd69585059b45dc5b18ed145ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 017/106] fix: Vehicle.departure_time_in_second was multiplied
 by the timestep width when the departure time was given in seconds

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 2258be7..d0b8316 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1046,7 +1046,7 @@ class Vehicle:
             s.departure_time: int = departure_time
         else:
             s.departure_time: int = int(departure_time/s.W.DELTAT + 1e-9) #with tolerance for rounding errors
-        s.departure_time_in_second: float = departure_time*s.W.DELTAT  #TODO: temporal workaround
+        s.departure_time_in_second: float = s.departure_time*s.W.DELTAT
         s.arrival_time: int = -1
         s.link_arrival_time: float = -1
         s.travel_time: float = -1
-- 
2.43.0


From c8845d52852a72e851416fdd821be22ad4816f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 018/106] fix: vehicles added during simulation chose routes
 without any travel time information until the next route update

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index d0b8316..01def59 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1092,6 +1092,8 @@ class Vehicle:
             if s.W.route_pref_for_vehs == None:
                 s.W.route_pref_for_vehs = {l.id:0 for l in s.W.LINKS}
             s.route_pref = copy.copy(s.W.route_pref_for_vehs)
+            if s.W.finalized and s.route_choice_principle == "homogeneous_DUO":
+                s.route_pref_update() #vehicles added during simulation follow the current preference
         else:
             s.route_pref = {l.id:route_pref[l] for l in route_pref.keys()}
 
-- 
2.43.0


From feb6cfe6615ac636b1651be70e17b49c01527f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 019/106] fix: waiting vehicles were not properly considered in
 the average speed statistic

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 01def59..7c8c73b 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1537,7 +1537,7 @@ class Vehicle:
 
                     if s.state == "wait":
                         s.W.analyzer.average_speed_count += 1
-                        s.W.analyzer.average_speed += 0
+                        s.W.analyzer.average_speed += (0 - s.W.analyzer.average_speed)/s.W.analyzer.average_speed_count
                 else:
                     # if len(s.log_link) == 0 or s.log_link[-1] != s.link:
                     #     s.log_t_link.append([t, s.link])
-- 
2.43.0


From 5a6d418a3cce0a965e7b0b8d8af35039f763bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 020/106] fix: adddemand_area2area2 and adddemand_nodes2nodes2
 crashed at random when the only destination is one of the origins

---
 uxsim/uxsim.py             | 16 ++++++++++++----
 uxsim/uxsim_cpp_wrapper.py | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 7c8c73b..20e8b47 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2261,10 +2261,14 @@ class World:
         ds = W.rng.choice(dests, size=size)
         
         for t, o, d, in zip(ts, os, ds):
+            o2 = o
             d2 = d
             if o == d:
-                d2 = W.rng.choice([dd for dd in dests if dd!=d])
-            W.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
+                if len(dests) > 1:
+                    d2 = W.rng.choice([dd for dd in dests if dd!=d])
+                else:
+                    o2 = W.rng.choice([oo for oo in origs if oo!=d])
+            W.addVehicle(o2, d2, t, attribute=attribute, direct_call=False)
 
 
     @demand_info_record
@@ -2312,10 +2316,14 @@ class World:
         ds = W.rng.choice(dests, size=size)
         
         for t, o, d, in zip(ts, os, ds):
+            o2 = o
             d2 = d
             if o == d:
-                d2 = W.rng.choice([dd for dd in dests if dd!=d])
-            W.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
+                if len(dests) > 1:
+                    d2 = W.rng.choice([dd for dd in dests if dd!=d])
+                else:
+                    o2 = W.rng.choice([oo for oo in origs if oo!=d])
+            W.addVehicle(o2, d2, t, attribute=attribute, direct_call=False)
 
     def finalize_scenario(W, tmax:float|None=None):
         """
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 31f5b5e..1e98c87 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1077,10 +1077,14 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
+            o2 = o
             d2 = d
             if o == d:
-                d2 = self.rng.choice([dd for dd in dests if dd != d])
-            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
+                if len(dests) > 1:
+                    d2 = self.rng.choice([dd for dd in dests if dd != d])
+                else:
+                    o2 = self.rng.choice([oo for oo in origs if oo != d])
+            self.addVehicle(o2, d2, t, attribute=attribute, direct_call=False)
 
     @demand_info_record
     def adddemand_nodes2nodes2(self, origs, dests, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1093,10 +1097,14 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
+            o2 = o
             d2 = d
             if o == d:
-                d2 = self.rng.choice([dd for dd in dests if dd != d])
-            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
+                if len(dests) > 1:
+                    d2 = self.rng.choice([dd for dd in dests if dd != d])
+                else:
+                    o2 = self.rng.choice([oo for oo in origs if oo != d])
+            self.addVehicle(o2, d2, t, attribute=attribute, direct_call=False)
 
     # --- Simulation ---
 
-- 
2.43.0


From 07ba107f88b1d821909248558eda0af8281748da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:30 +0000
Subject: [PATCH 021/106] fix: get_nearest_node returned None when all nodes
 are further than 100 km

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 20e8b47..3eeee2a 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2616,7 +2616,7 @@ class World:
         object
             The nearest Node object.
         """
-        min_dist = 1e10
+        min_dist = np.inf
         nearest_node = None
         for node in W.NODES:
             dist = (node.x-x)**2 + (node.y-y)**2
-- 
2.43.0


From 60440554368c5a67eb689c52b4f76d09cca11454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:45 +0000
Subject: [PATCH 022/106] fix: vehicle logs in C++ mode were frozen once they
 were read during a simulation

---
 uxsim/uxsim_cpp_wrapper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 1e98c87..ef2bfd1 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -891,6 +891,7 @@ class CppWorld:
             warnings.warn("vehicle_logging_timestep_interval is not 0, 1, or -1. C++ mode only supports 0 (no logging) and 1 (full logging). The value will be treated as 1 (logging enabled).", stacklevel=2)
         self._simulation_done = False
         self._enter_log_timestep = None
+        self._log_caches_built = False
         self._skip_log_on_terminate = False
         self._skip_analyzer_setup = False
         self._cpp_veh_registered_count = 0
@@ -1289,7 +1290,12 @@ class CppWorld:
 
     def _sync_from_cpp(self):
         """Update VEHICLES_LIVING / VEHICLES_RUNNING from C++ state.
-        Log caches are never explicitly invalidated — they start as None and are built lazily on first access (e.g. when analyzer reads log_t)."""
+        Log caches start as None and are built lazily on first access (e.g. when analyzer reads log_t). Those built before this execution are outdated and discarded."""
+        if self._log_caches_built:
+            self._log_caches_built = False
+            for veh in self._veh_by_index:
+                veh._log_cache = None
+
         # Batch-update VEHICLES_LIVING / VEHICLES_RUNNING using C++ bulk query
         try:
             states = self._cpp_world.get_all_vehicle_states()
@@ -1346,6 +1352,7 @@ class CppWorld:
     def _build_all_vehicle_log_caches(self):
         """Batch-fetch raw log data from C++ for all vehicles.
         Uses compact flat SoA API (no home prepend) for speed."""
+        self._log_caches_built = True
         flat = self._cpp_world.build_all_vehicle_logs_flat_compact()
         offsets = flat['offsets']
         ltl_offsets = flat['ltl_offsets']
-- 
2.43.0


From e6e3349fd9a9457d21fb127f5f480be434a20a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 023/106] fix: routes of vehicles were not recorded in C++ mode
 when vehicle logging is disabled

---
 uxsim/trafficpp/dta_solver.cpp | 17 ++-------------
 uxsim/trafficpp/traffi.cpp     | 39 +++++++++++-----------------------
 uxsim/trafficpp/traffi.h       |  4 ++++
 3 files changed, 18 insertions(+), 42 deletions(-)

diff --git a/uxsim/trafficpp/dta_solver.cpp b/uxsim/trafficpp/dta_solver.cpp
index e75e598..1795488 100644
--- a/uxsim/trafficpp/dta_solver.cpp
+++ b/uxsim/trafficpp/dta_solver.cpp
@@ -31,21 +31,8 @@ TraveledRouteInfo dta_get_traveled_route(const Vehicle *veh) {
     TraveledRouteInfo info;
     info.arrival_time = -1.0;
 
-    // Reserve to the number of distinct links traveled (avoids push_back reallocs).
-    if (veh->_traveled_link_count > 0){
-        info.link_ids.reserve(veh->_traveled_link_count);
-        info.entry_times.reserve(veh->_traveled_link_count);
-    }
-
-    int prev_lid = -999;
-    for (size_t i = 0; i < veh->log_size; i++){
-        int lid = veh->log_link[i];
-        if (lid >= 0 && lid != prev_lid){
-            info.link_ids.push_back(lid);
-            info.entry_times.push_back(veh->log_t_at(i));
-            prev_lid = lid;
-        }
-    }
+    info.link_ids = veh->log_route_link;
+    info.entry_times = veh->log_route_t;
 
     if (veh->state == vsEND && veh->arrival_time >= 0){
         info.arrival_time = veh->arrival_time;
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 2261c67..76045a1 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1079,6 +1079,11 @@ void Vehicle::log_data(Vehicle *snap_leader){
         w->node_stat_count[orig->id] += 1.0;
     }
 
+    if (state == vsRUN && link && (log_route_link.empty() || log_route_link.back() != link->id)){
+        log_route_link.push_back(link->id);
+        log_route_t.push_back((double)w->timestep * w->delta_t);
+    }
+
     if (w->vehicle_log_mode){
         if (log_size == 0) log_first_ts = (int)w->timestep;
         log_last_ts = (int)w->timestep;
@@ -1975,15 +1980,8 @@ std::vector<World::EnterLogEntry> World::build_enter_log_data() const {
 
     for (size_t vi = 0; vi < vehicles.size(); vi++) {
         const Vehicle *v = vehicles[vi];
-        // Scan log_link for link transitions (same logic as build_full_log's log_t_link)
-        int prev_link_id = -999;
-        for (size_t i = 0; i < v->log_size; i++) {
-            int lid = v->log_link[i];
-            if (lid >= 0 && lid != prev_link_id) {
-                double t = v->log_t_at(i);
-                result.push_back({lid, t, static_cast<int>(vi)});
-                prev_link_id = lid;
-            }
+        for (size_t i = 0; i < v->log_route_link.size(); i++) {
+            result.push_back({v->log_route_link[i], v->log_route_t[i], static_cast<int>(vi)});
         }
     }
 
@@ -2016,15 +2014,7 @@ World::CompactFlatLogs World::build_all_vehicle_logs_flat_compact() const {
         total_log += v->log_size;
 
         // log_t_link count
-        size_t ltl_count = 1;  // home entry
-        int prev_lid = -999;
-        for (size_t i = 0; i < v->log_size; i++) {
-            int lid = v->log_link[i];
-            if (lid >= 0 && lid != prev_lid) {
-                ltl_count++;
-                prev_lid = lid;
-            }
-        }
+        size_t ltl_count = 1 + v->log_route_link.size();  // home entry and link entries
         if (v->state == vsEND) ltl_count++;
         fl.ltl_offsets[vi] = total_ltl;
         total_ltl += ltl_count;
@@ -2068,15 +2058,10 @@ World::CompactFlatLogs World::build_all_vehicle_logs_flat_compact() const {
         fl.ltl_id[ltl_base] = Vehicle::LOG_T_LINK_HOME;
         ltl_idx++;
 
-        int prev_lid = -999;
-        for (size_t i = 0; i < v->log_size; i++) {
-            int lid = v->log_link[i];
-            if (lid >= 0 && lid != prev_lid) {
-                fl.ltl_t[ltl_base + ltl_idx] = v->log_t_at(i);
-                fl.ltl_id[ltl_base + ltl_idx] = lid;
-                ltl_idx++;
-                prev_lid = lid;
-            }
+        for (size_t i = 0; i < v->log_route_link.size(); i++) {
+            fl.ltl_t[ltl_base + ltl_idx] = v->log_route_t[i];
+            fl.ltl_id[ltl_base + ltl_idx] = v->log_route_link[i];
+            ltl_idx++;
         }
         if (v->state == vsEND) {
             fl.ltl_t[ltl_base + ltl_idx] = (v->arrival_time >= 0) ? v->arrival_time : -1.0;
diff --git a/uxsim/trafficpp/traffi.h b/uxsim/trafficpp/traffi.h
index 06de9af..3be4fdb 100644
--- a/uxsim/trafficpp/traffi.h
+++ b/uxsim/trafficpp/traffi.h
@@ -256,6 +256,10 @@ struct Vehicle {
     vector<double> log_s;  // spacing to leader on the same link (-1 if none)
     size_t log_size;  // current number of log entries (used instead of push_back)
 
+    // Route-level log (link id and time of each link entry), recorded regardless of vehicle_log_mode as Python's log_t_link.
+    vector<int> log_route_link;
+    vector<double> log_route_t;
+
     // log_t / log_state are fully reconstructible from these scalars.
     // The log structure is always HOME x1, WAIT x log_wait_count, RUN x r, [END|ABORT] x log_end_count, with one entry per timestep after departure; the only exception is trip end (the update() path records the END entry in the same timestep as the immediately preceding RUN entry, so log_last_ts may duplicate the previous timestep).
     int log_first_ts;
-- 
2.43.0


From 09a0602209a8ba3dc1bdda6bcc2ff85827b16634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 024/106] fix: logs of vehicles that have not departed yet were
 empty in C++ mode

---
 uxsim/trafficpp/traffi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 76045a1..8c47e1c 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -2008,6 +2008,9 @@ World::CompactFlatLogs World::build_all_vehicle_logs_flat_compact() const {
         int n_missing = 0;
         if (v->log_size > 0 && v->log_t_at(0) > 0) {
             n_missing = static_cast<int>(std::lround(v->log_t_at(0) / delta_t));
+        } else if (v->log_size == 0 && vehicle_log_mode) {
+            // not departed yet: at home in all executed timesteps
+            n_missing = static_cast<int>(timestep);
         }
         fl.n_missing[vi] = n_missing;
         fl.offsets[vi] = total_log;
-- 
2.43.0


From 4fd99d9fd23d2f2f494bfa7dd1211e0d03071490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:27 +0000
Subject: [PATCH 025/106] fix: vehicle_trip_to_pandas reported the last logged
 state instead of the final state, and crashed without vehicle logs

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 072533d..3026763 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1638,7 +1638,7 @@ class Analyzer:
         out = [["name", "orig", "dest", "departure_time", "final_state", "travel_time", "average_speed", "distance_traveled"]]
         for veh in s.W.VEHICLES.values():
             veh_dest_name = veh.dest.name if veh.dest != None else None
-            veh_state = veh.log_state[-1]
+            veh_state = veh.state
             veh_ave_speed = np.average([v for v in veh.log_v if v != -1])
             veh_dist_traveled = veh.distance_traveled
 
-- 
2.43.0


From 3d4d76e503149ea60f3d9ab2c878cbc5248e02ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 026/106] fix: analyses and data frames computed during a
 simulation were not updated afterwards

---
 uxsim/analyzer.py          | 16 ++++++++++++++++
 uxsim/uxsim.py             |  3 +++
 uxsim/uxsim_cpp_wrapper.py |  1 +
 3 files changed, 20 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 3026763..d832ba5 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -95,6 +95,15 @@ class Analyzer:
         os.makedirs(Path(fname).parent, exist_ok=True)
         return fname
 
+    def discard_results(s):
+        """
+        Discard the results analyzed so far, so that they are computed again after the simulation proceeded.
+        """
+        s.flag_edie_state_computed = 0
+        s.flag_trajectory_computed = 0
+        s.flag_pandas_convert = 0
+        s.flag_od_analysis = 0
+
     def basic_analysis(s):
         """
         Analyze basic stats.
@@ -214,6 +223,13 @@ class Analyzer:
         else:
             s.flag_trajectory_computed = 1
 
+        for l in s.W.LINKS:
+            l.tss = []
+            l.xss = []
+            l.ls = []
+            l.cs = []
+            l.names = []
+
         for veh in s.W.VEHICLES.values():
             l_old = None
             for i in lange(veh.log_t):
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 3eeee2a..7f4ece7 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2474,6 +2474,8 @@ class World:
                 W.print("      time| # of vehicles| ave speed| computation time", flush=True)
                 W.analyzer.show_simulation_progress()
 
+            W.analyzer.discard_results()
+
             for link in W.LINKS:
                 link.update()
 
@@ -2515,6 +2517,7 @@ class World:
 
         W.T += 1
         W.TIME = W.T*W.DELTAT
+        W.analyzer.discard_results()
 
         if W.T == W.TSIZE:
             if W.print_mode and W.show_progress:
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index ef2bfd1..6b92ca1 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1226,6 +1226,7 @@ class CppWorld:
         # (the half timestep keeps floor() from falling to the previous timestep by rounding errors)
         self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
         self._sync_from_cpp()
+        self.analyzer.discard_results()
 
         # Update Python-side time tracking from C++ state
         self.T = self._cpp_world.timestep
-- 
2.43.0


From bad3bf2ca414afb4d8150b5e9f16e22720e003ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 027/106] fix: travel distances, free travel times, and
 shortest distances of ODs without completed trips were reported as zero

---
 uxsim/analyzer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index d832ba5..c968b4f 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -118,7 +118,8 @@ class Analyzer:
         if s.trip_completed:
             s.total_travel_time = np.sum(df["completed_trips"]*df["average_travel_time"])
             s.average_travel_time = s.total_travel_time/s.trip_completed
-            s.total_delay = np.sum(df["completed_trips"]*(df["average_travel_time"]-df["free_travel_time"]))
+            df_comp = df[df["completed_trips"] > 0] #free travel time of the others can be infinite
+            s.total_delay = np.sum(df_comp["completed_trips"]*(df_comp["average_travel_time"]-df_comp["free_travel_time"]))
             s.average_delay = s.total_delay/s.trip_completed
         else:
             s.total_travel_time = -1
@@ -180,9 +181,10 @@ class Analyzer:
                 if veh.travel_time != -1:
                     s.od_trips_comp[o,d] += dn
                     s.od_tt[o,d].append(veh.travel_time)
-        for o,d in s.od_tt.keys():
-            s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
-            s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
+        for o,d in s.od_trips.keys():
+            if s.od_trips_comp[o,d]:
+                s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
+                s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
             s.od_tt_free[o,d] = dist_time[o.id, d.id]
             s.od_dist_total[o,d] = np.sum(s.od_dist[o,d])
             s.od_dist_min[o,d] = dist_space[o.id, d.id]
@@ -1793,7 +1795,7 @@ class Analyzer:
                     var_distance_traveled = (total_tripss*distance_traveleds).sum()/total_trips    #wrong!
                     stddiv_distance_traveled = np.sqrt(var_distance_traveled)
 
-                    average_free_travel_time = (completed_tripss*free_travel_time_times).sum()/completed_trips
+                    average_free_travel_time = (completed_tripss*free_travel_time_times)[completed_tripss > 0].sum()/completed_trips
                 else:
                     average_distance_traveled = np.nan
                     var_distance_traveled = np.nan
-- 
2.43.0


From 44d30a494f2a75ce76597389b655d60e20621f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 028/106] fix: mfd_to_pandas returned only the first rows

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index c968b4f..f3e0706 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2030,7 +2030,7 @@ class Analyzer:
         links = frozenset(links)
 
         out = [["t", "network_k", "network_q"]]
-        for i in lange(s.W.K_AREA):
+        for i in lange(s.W.K_AREA[links]):
             out.append([i*s.W.EULAR_DT, s.W.K_AREA[links][i], s.W.Q_AREA[links][i]])
         s.df_mfd = pd.DataFrame(out[1:], columns=out[0])
         return s.df_mfd
-- 
2.43.0


From 40394d94a53bbf7d4fc5f70ff0837fb4e1515f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 029/106] fix: vehicle_groups_to_pandas crashed without
 group_names

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index f3e0706..3527d8c 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1936,7 +1936,7 @@ class Analyzer:
         df_od = s.W.analyzer.od_to_pandas()
 
         if group_names == None: 
-            group_names = [f"group {i} including {groups[0].name}" for i in range(len(groups))]
+            group_names = [f"group {i} including {groups[i][0].name}" for i in range(len(groups))]
 
         total_trip_rec = []
         completed_trip_rec = []
-- 
2.43.0


From 4beaab9bf88ff7a15d894d9d559f00a2dd7da2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 030/106] fix: links with eular_dx crashed when the simulation
 starts

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 7f4ece7..c8d1e45 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -616,6 +616,8 @@ class Link:
             s.edie_dx = s.length/10
             if s.edie_dx < s.u*s.W.DELTAT:
                 s.edie_dx = s.u*s.W.DELTAT
+        else:
+            s.edie_dx = eular_dx
 
 
     def __repr__(s):
-- 
2.43.0


From 2b98cad714bbca2b7c75905efddf67fe4cc9af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 031/106] fix: free travel times and shortest distances were
 those of the last one of parallel links

---
 uxsim/analyzer.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 3527d8c..3c1a3e7 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -151,20 +151,14 @@ class Analyzer:
         dn = s.W.DELTAN
 
         #自由旅行時間と最短距離
-        adj_mat_time = np.zeros([len(s.W.NODES), len(s.W.NODES)])
-        adj_mat_dist = np.zeros([len(s.W.NODES), len(s.W.NODES)])
+        adj_mat_time = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
+        adj_mat_dist = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
         for link in s.W.LINKS:
             i = link.start_node.id
             j = link.end_node.id
-            if s.W.ADJ_MAT[i,j]:
-                adj_mat_time[i,j] = link.length/link.u
-                adj_mat_dist[i,j] = link.length
-                if link.capacity_in == 0: #流入禁止の場合は通行不可
-                    adj_mat_time[i,j] = np.inf
-                    adj_mat_dist[i,j] = np.inf
-            else:
-                adj_mat_time[i,j] = np.inf
-                adj_mat_dist[i,j] = np.inf
+            if link.capacity_in != 0: #流入禁止の場合は通行不可
+                adj_mat_time[i,j] = min(adj_mat_time[i,j], link.length/link.u)
+                adj_mat_dist[i,j] = min(adj_mat_dist[i,j], link.length)
         dist_time = floyd_warshall(adj_mat_time)
         dist_space = floyd_warshall(adj_mat_dist)
 
-- 
2.43.0


From 5a0e13f4b4d77ef9e62614c6a6b0a85c6b9c064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 032/106] fix: network density and flow of MFD were
 underestimated if link lengths are not multiples of the cell length

---
 uxsim/analyzer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 3c1a3e7..c9f9ea1 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1443,9 +1443,10 @@ class Analyzer:
         for i in range(len(s.W.Q_AREA[links])):
             tn = sum([l.tn_mat[i,:].sum() for l in s.W.LINKS if l in links])
             dn = sum([l.dn_mat[i,:].sum() for l in s.W.LINKS if l in links])
-            an = sum([l.length*s.W.EULAR_DT for l in s.W.LINKS if l in links])
-            s.W.K_AREA[links][i] = tn/an
-            s.W.Q_AREA[links][i] = dn/an
+            an = sum([l.an*l.tn_mat.shape[1] for l in s.W.LINKS if l in links]) #area covered by the cells. A remainder of a link shorter than a cell is not covered
+            if an > 0:
+                s.W.K_AREA[links][i] = tn/an
+                s.W.Q_AREA[links][i] = dn/an
 
     @catch_exceptions_and_warn()
     def macroscopic_fundamental_diagram(s, kappa=0.2, qmax=1, figtitle="", links=None, fname="", figsize=(4,4)):
-- 
2.43.0


From f8b9f09fc25da053ca9ddce14a141bac86ce7a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 033/106] fix: area_to_pandas subtracted remaining vehicles
 from the vehicles that left a link, even leading to negative total travel
 times

---
 uxsim/analyzer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index c9f9ea1..af67e92 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1869,8 +1869,7 @@ class Analyzer:
             vehicles_remain = df_links.loc[rows, "vehicles_remain"].sum()
 
             if traffic_volume > 0:
-                traffic_volume_rows = (
-                            df_links.loc[rows, "traffic_volume"] - df_links.loc[rows, "vehicles_remain"]).values
+                traffic_volume_rows = df_links.loc[rows, "traffic_volume"].values #vehicles that left the links
                 total_travel_time = np.sum(df_links.loc[rows, "average_travel_time"].values * traffic_volume_rows)
                 total_free_time = np.sum(df_links.loc[rows, "free_travel_time"].values * traffic_volume_rows)
                 average_delay = max(total_travel_time / total_free_time - 1, 0)
-- 
2.43.0


From a26da68d213f632d1997b1bf897cd7d82e9f96bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:33 +0000
Subject: [PATCH 034/106] fix: link_cumulative_to_pandas crashed while the
 simulation is ongoing

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index af67e92..91e4e8f 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2073,7 +2073,7 @@ class Analyzer:
         """
         out = [["link", "t", "arrival_count", "departure_count", "actual_travel_time", "instantanious_travel_time"]]
         for link in s.W.LINKS:
-            for i in range(s.W.TSIZE):
+            for i in range(len(link.cum_arrival)): #executed timesteps
                 out.append([link.name, i*s.W.DELTAT, link.cum_arrival[i], link.cum_departure[i], link.traveltime_actual[i], link.traveltime_instant[i]])
         s.df_link_cumulative = pd.DataFrame(out[1:], columns=out[0])
         return s.df_link_cumulative
-- 
2.43.0


From 4702c58088b35603676a38186f06c7c37f7c2264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:22 +0000
Subject: [PATCH 035/106] fix: links with both jam_density and
 jam_density_per_lane crashed instead of warning

---
 uxsim/uxsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index c8d1e45..82e4432 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -513,7 +513,7 @@ class Link:
         #車線数
         s.number_of_lanes = int(number_of_lanes)
         if s.number_of_lanes != number_of_lanes:
-            raise ValueError(f"number_of_lanes must be an integer. Got {number_of_lanes} at {s}.")
+            raise ValueError(f"number_of_lanes must be an integer. Got {number_of_lanes} at Link {name}.")
         
         #フローモデルパラメータ:per link
         s.u = free_flow_speed
@@ -522,7 +522,7 @@ class Link:
             s.kappa = jam_density_per_lane*number_of_lanes
         if jam_density != 0.2 and jam_density_per_lane != None:
             s.kappa = jam_density_per_lane*number_of_lanes
-            warnings.warn(f"{s}: jam_density is ignored because jam_density_per_lane is set.", UserWarning)
+            warnings.warn(f"Link {name}: jam_density is ignored because jam_density_per_lane is set.", UserWarning)
         s.tau = s.W.REACTION_TIME/s.number_of_lanes
         s.w = 1/s.tau/s.kappa
         s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
-- 
2.43.0


From afb02c2e7513ac2f9f67d600898277d4fb5a821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 036/106] fix: automatically determined capacities were saved
 in scenarios as if they were specified by the user

---
 uxsim/scenario_reader_writer.py | 5 +++++
 uxsim/uxsim.py                  | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index e883d4a..5b53929 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -84,6 +84,11 @@ def instance_to_arg_dict(instance):
       
         if value == param.default:
             continue
+
+        #values that the constructor determined from other values, instead of the user
+        auto_args = instance_vars.get("args_automatically_determined", {})
+        if param_name in auto_args and value == auto_args[param_name]:
+            continue
         
         args[param_name] = value
         for param in list(args):
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 82e4432..8e9b0f0 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -115,6 +115,7 @@ class Node:
         s.signal_log = []
 
         #flow capacity (macroscopic/continuous representation for signal)
+        s.args_automatically_determined = {} #treated as unspecified when the scenario is saved
         s.flag_lanes_automatically_determined = False
         s.number_of_lanes = number_of_lanes
         if flow_capacity != None:
@@ -124,6 +125,7 @@ class Node:
                 s.number_of_lanes = number_of_lanes
             else:
                 s.number_of_lanes = math.ceil(flow_capacity/0.8) #the number of lanes is determined by assuming 0.8 veh/s capacity per lane
+                s.args_automatically_determined["number_of_lanes"] = s.number_of_lanes
                 s.flag_lanes_automatically_determined = True
         else:
             s.flow_capacity = None
@@ -198,9 +200,11 @@ class Node:
             capacity_in = np.max([l.capacity for l in list(s.inlinks.values())])
             capacity_out = np.max([l.capacity for l in list(s.outlinks.values())])
             s.flow_capacity = np.average([capacity_in, capacity_out])
+            s.args_automatically_determined["flow_capacity"] = s.flow_capacity
             s.flow_capacity_remain = s.flow_capacity*s.W.DELTAT
             if s.number_of_lanes == None:
                 s.number_of_lanes = math.ceil(s.flow_capacity/0.8) #the number of lanes is determined by assuming 0.8 veh/s capacity per lane
+                s.args_automatically_determined["number_of_lanes"] = s.number_of_lanes
                 s.flag_lanes_automatically_determined = True
 
 
@@ -562,10 +566,14 @@ class Link:
         if type(s.signal_group) == int:
             s.signal_group = [s.signal_group]
 
+        #自動設定された引数（シナリオ保存時には未設定として扱う）
+        s.args_automatically_determined = {}
+
         #流出容量
         s.capacity_out = capacity_out
         if capacity_out == None:
             s.capacity_out = s.capacity*2
+            s.args_automatically_determined["capacity_out"] = s.capacity_out
             #todo_later: capacity_outは微妙にバグがあるらしい（多分離散化誤差）．少なくとも未設定時にはバグが顕在化しないように2倍にしている
         s.capacity_out_remain = s.capacity_out*s.W.DELTAT
 
@@ -574,6 +582,7 @@ class Link:
         if capacity_in == None:
             s.capacity_in = s.capacity*2
             s.capacity_in_remain = s.capacity*2
+            s.args_automatically_determined["capacity_in"] = s.capacity_in
         else:
             s.capacity_in_remain = s.capacity_in*s.W.DELTAT
 
-- 
2.43.0


From caec836ad9e90b83ae947f70cb4d464ab956ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:40 +0000
Subject: [PATCH 037/106] fix: demands defined by different functions were
 loaded in a different order than they were defined

---
 uxsim/scenario_reader_writer.py | 40 +++++++++------------------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index 5b53929..e3956d1 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -33,6 +33,7 @@ def demand_info_record(func):
             
             # 関数名と引数をdict_func_argsに格納
             self.demand_info[func_name].append(arg_dict_to_save)
+            self.demand_info["demand_order"].append(func_name) #order of the definitions over all functions
         
         # 元の関数を呼び出す
         return func(self, *args, **kwargs)
@@ -200,35 +201,14 @@ def load_scenario(W, fname, network=True, demand=True):
         W.print(" Number of loaded links:", len(dat["Links"]))
     
     if demand:
-        for demand_type in dat:
-            if demand_type == 'adddemand':
-                for dem in dat[demand_type]:
-                    W.adddemand(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_point2point':
-                for dem in dat[demand_type]:
-                    W.adddemand_point2point(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_area2area':
-                for dem in dat[demand_type]:
-                    W.adddemand_area2area(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_nodes2nodes':
-                for dem in dat[demand_type]:
-                    W.adddemand_nodes2nodes(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_area2area2':
-                for dem in dat[demand_type]:
-                    W.adddemand_area2area2(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_nodes2nodes2':
-                for dem in dat[demand_type]:
-                    W.adddemand_nodes2nodes2(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            else:
-                pass
-        
-
-
+        demand_types = ["adddemand", "adddemand_point2point", "adddemand_area2area", "adddemand_nodes2nodes", "adddemand_area2area2", "adddemand_nodes2nodes2"]
+        demand_types = [demand_type for demand_type in dat if demand_type in demand_types]
 
+        #the order in which the demands were defined. Files of older versions do not have this information
+        demand_order = dat.get("demand_order", [demand_type for demand_type in demand_types for _ in dat[demand_type]])
 
+        demands = {demand_type: iter(dat[demand_type]) for demand_type in demand_types}
+        for demand_type in demand_order:
+            getattr(W, demand_type)(**next(demands[demand_type]))
+        for demand_type in demand_types:
+            W.print(f" Number of loaded `{demand_type}`s:", len(dat[demand_type]))
-- 
2.43.0


From 66b02a3c30d68c5326420c1ba2711baab879c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:53 +0000
Subject: [PATCH 038/106] fix: add_dest crashed for vacant taxis if the
 destination is given by name or before the simulation

---
 uxsim/uxsim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 8e9b0f0..e76cb23 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1394,8 +1394,9 @@ class Vehicle:
         """
         if s.mode == "taxi":
             if s.dest == None:
-                s.dest = dest
-                s.route_pref_update(weight=1)
+                s.dest = s.W.get_node(dest)
+                if s.W.finalized: #otherwise, there is no route choice yet
+                    s.route_pref_update(weight=1)
             else:
                 if order == -1:
                     s.dest_list.append(s.W.get_node(dest))
-- 
2.43.0


From b67934a9b063e8c170cda720f520ea262cc66178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:54 +0000
Subject: [PATCH 039/106] fix: taxis with the same destination twice in a row
 crashed or were transferred back to the start of their link

---
 uxsim/uxsim.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index e76cb23..e8b6772 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1201,12 +1201,13 @@ class Vehicle:
                         if s.link.vehicles[0] == s:
                             s.end_trip()
                     elif s.mode == "taxi":
-                        #proceed to next destination
-                        if len(s.dest_list) > 0:
-                            s.dest = s.dest_list.pop(0)
-                        else:
-                            s.dest = None
-                            s.dest_list = []
+                        #proceed to next destination. The following destinations at the same node are reached as well
+                        while s.dest == s.link.end_node:
+                            if len(s.dest_list) > 0:
+                                s.dest = s.dest_list.pop(0)
+                            else:
+                                s.dest = None
+                                s.dest_list = []
                         s.route_pref_update(weight=1)
                         s.route_next_link_choice()
                         s.link.end_node.incoming_vehicles.append(s)
-- 
2.43.0


From 6cb9589dc684c6d0f895141c82aa6fbeb0bd0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:54 +0000
Subject: [PATCH 040/106] fix: default names of trip requests were not unique

---
 uxsim/TaxiHandler/TaxiHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 5581da6..1db95d5 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -103,7 +103,7 @@ class TaxiHandler:
             An optional attribute of the trip request. This can be used to store any information by users' need.
         """
         if name == None:
-            name = len(s.trip_requests)
+            name = len(s.trip_requests_all)
         s.trip_requests.append(TripRequest(s.W, s, orig, dest, depart_time, name, attribute=attribute))
         s.trip_requests_all.append(s.trip_requests[-1])
     
-- 
2.43.0


From c6176d66f7086280404624c74d10353a43678c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:54 +0000
Subject: [PATCH 041/106] fix: trip requests were lost if a taxi has multiple
 requests that start or end at the same node

---
 uxsim/TaxiHandler/TaxiHandler.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 1db95d5..4c7b264 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -5,6 +5,30 @@ Submodule for handling taxis.
 import random, math
 import pandas as pd
 
+class NodeEvents(list):
+    """
+    Events of a taxi at a node. A taxi may have multiple events at the same node, such as getting off and on of different travelers.
+    """
+    def __call__(s):
+        for event in s[:]:
+            event()
+
+def add_node_event(taxi, node, event):
+    """
+    Adds an event to `Vehicle.node_event` without discarding the existing events at the node.
+    """
+    if type(taxi.node_event.get(node)) is not NodeEvents:
+        taxi.node_event[node] = NodeEvents([taxi.node_event[node]] if node in taxi.node_event else [])
+    taxi.node_event[node].append(event)
+
+def remove_node_event(taxi, node, event):
+    """
+    Removes an event that was added by `add_node_event`.
+    """
+    taxi.node_event[node].remove(event)
+    if len(taxi.node_event[node]) == 0:
+        del taxi.node_event[node]
+
 class TripRequest:
     """
     A class representing a trip request (or travelers, passengers, cargo, etc.).
@@ -52,11 +76,11 @@ class TripRequest:
         """
         #print(f"{s.W.TIME}: {s} is getting on a taxi {s.taxi}")        
         s.taxi.add_dest(s.dest)
-        s.taxi.node_event[s.dest] = s.arrive_at_dest
+        add_node_event(s.taxi, s.dest, s.arrive_at_dest)
 
         s.get_taxi_time = s.W.TIME
         
-        del s.taxi.node_event[s.orig]
+        remove_node_event(s.taxi, s.orig, s.get_on_taxi)
     
     def arrive_at_dest(s):
         """
@@ -65,7 +89,7 @@ class TripRequest:
         #print(f"{s.W.TIME}: {s} arrived at the destination {s.dest}")
         s.arrival_time = s.W.TIME
         
-        del s.taxi.node_event[s.dest]
+        remove_node_event(s.taxi, s.dest, s.arrive_at_dest)
 
 class TaxiHandler:
     """
@@ -122,7 +146,7 @@ class TaxiHandler:
             raise ValueError("Travel request not found in the list of trip requests")
 
         vehicle.add_dest(trip_request.orig)
-        vehicle.node_event[trip_request.orig] = trip_request.get_on_taxi
+        add_node_event(vehicle, trip_request.orig, trip_request.get_on_taxi)
         trip_request.taxi = vehicle
         s.trip_requests.remove(trip_request)
     
-- 
2.43.0


From 704f4ede54b83dd48ff54ceb0ad089e4b6640066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 042/106] fix: World.TIME was one timestep behind for node
 events and user functions of nodes, links, and vehicles, depending on how the
 simulation is executed

---
 uxsim/uxsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index e8b6772..f81cccd 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2482,6 +2482,8 @@ class World:
         #the main loop
         #print("preping:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
         for W.T in range(start_ts, end_ts+1):
+            W.TIME = W.T*W.DELTAT
+
             #print("execing:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
             if W.T == 0:
                 W.print("      time| # of vehicles| ave speed| computation time", flush=True)
@@ -2516,8 +2518,6 @@ class World:
                     for veh in W.VEHICLES_LIVING.values():
                         veh.route_pref_update(weight=W.DUO_UPDATE_WEIGHT)
 
-            W.TIME = W.T*W.DELTAT
-
             if W.print_mode and W.show_progress and W.T%W.show_progress_deltat_timestep == 0 and W.T > 0:
                 W.analyzer.show_simulation_progress()
             
-- 
2.43.0


From 76c0d01ea173ccfb5841be51d7739aa2e9914a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:52 +0000
Subject: [PATCH 043/106] fix: link states that were read during a timestep
 were reported afterwards and changed the instantaneous travel time and route
 choice

---
 uxsim/uxsim.py | 45 +++++++++++----------------------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index f81cccd..499f0a7 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -606,13 +606,6 @@ class Link:
         s.user_function = user_function
 
 
-        #リアルタイムリンク状態（外部から参照する用）
-        s._speed = -1 #リンク全体の平均速度
-        s._density = -1
-        s._flow = -1
-        s._num_vehicles = -1 #車両数
-        s._num_vehicles_queue = -1 #自由流速度未満の車両数
-
         #より正確な車両軌跡
         s.tss = []
         s.xss = []
@@ -666,13 +659,6 @@ class Link:
         if s.user_function is not None:
             s.user_function(s)
 
-        #リアルタイム状態リセット
-        s._speed = -1
-        s._density = -1
-        s._flow = -1
-        s._num_vehicles = -1
-        s._num_vehicles_queue = -1
-
     def in_out_flow_constraint(s):
         """
         Link capacity updates.
@@ -692,8 +678,9 @@ class Link:
         Compute instantaneous travel time.
         """
         if s.W.T%s.W.instantaneous_TT_timestep_interval == 0:
-            if s.speed > 0:
-                s.traveltime_instant.append(s.length/s.speed)
+            speed = s.speed
+            if speed > 0:
+                s.traveltime_instant.append(s.length/speed)
             else:
                 s.traveltime_instant.append(s.length/(s.u/100))
         else:
@@ -911,36 +898,26 @@ class Link:
     #getter/setter
     @property
     def speed(s):
-        if s._speed == -1:
-            if len(s.vehicles):
-                s._speed = np.average([veh.v for veh in s.vehicles])
-            else:
-                s._speed = s.u
-        return s._speed
+        if len(s.vehicles):
+            return np.average([veh.v for veh in s.vehicles])
+        else:
+            return s.u
 
     @property
     def density(s):
-        if s._density == -1:
-            s._density = s.num_vehicles/s.length
-        return s._density
+        return s.num_vehicles/s.length
 
     @property
     def flow(s):
-        if s._flow == -1:
-            s._flow = s.density*s.speed
-        return s._flow
+        return s.density*s.speed
 
     @property
     def num_vehicles(s):
-        if s._num_vehicles == -1:
-            s._num_vehicles = len(s.vehicles)*s.W.DELTAN
-        return s._num_vehicles
+        return len(s.vehicles)*s.W.DELTAN
 
     @property
     def num_vehicles_queue(s):
-        if s._num_vehicles_queue == -1:
-            s._num_vehicles_queue = sum([veh.v < s.u*(1-1e-9) for veh in s.vehicles])*s.W.DELTAN #with tolerance for rounding errors of the speed
-        return s._num_vehicles_queue
+        return sum([veh.v < s.u*(1-1e-9) for veh in s.vehicles])*s.W.DELTAN #with tolerance for rounding errors of the speed
 
     #Disabled temporally to avoid cirtical bugs related to scenario writer/reader. Instead, change_*() are added
     # @property
-- 
2.43.0


From 23c9050e152c99cb09cabe9839548154c9376a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:52 +0000
Subject: [PATCH 044/106] fix: q_star and k_star were not updated by
 change_free_flow_speed and change_jam_density

---
 uxsim/uxsim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 499f0a7..2c60fd0 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -955,6 +955,8 @@ class Link:
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
             s.delta = 1/s.kappa
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
         else:
             warnings.warn(f"ignored negative free_flow_speed at {s}", UserWarning)
 
@@ -966,6 +968,8 @@ class Link:
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
             s.delta = 1/s.kappa
             s.delta_per_lane = s.delta*s.number_of_lanes
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
         else:
             warnings.warn(f"ignored negative jam_density at {s}", UserWarning)
 
-- 
2.43.0


From 55641ec6a4bf4bd426772d815e526d8fe1e6d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:58 +0000
Subject: [PATCH 045/106] fix: traveltime_instant of C++ mode covered the
 executed timesteps only while the simulation is ongoing

It has one value per timestep of the whole simulation, as traveltime_actual, which
tests/test_cpp_mode.py relies on. instant_travel_time(t) uses the executed timesteps.
---
 uxsim/uxsim_cpp_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6b92ca1..e74d51b 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -316,7 +316,7 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._simulated_part(self._cpp_link.get_traveltime_instant_np())
+        return self._cpp_link.get_traveltime_instant_np()
 
     @property
     def traveltime_actual(self):
@@ -425,6 +425,8 @@ class CppLink:
 
     def instant_travel_time(self, t):
         arr = self.traveltime_instant
+        if not self.W._simulation_done:
+            arr = self._simulated_part(arr)
         n = len(arr)
         if n == 0:
             return self._free_flow_tt
-- 
2.43.0


From adec118e1c22d97d3419403535de2299d6cf8d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:08 +0000
Subject: [PATCH 046/106] fix: simulation and analysis crashed or vehicles
 jumped to the end of a link if free_flow_speed is changed to 0

---
 uxsim/analyzer.py          |  6 +++---
 uxsim/trafficpp/traffi.cpp |  2 +-
 uxsim/uxsim.py             | 10 ++++++----
 uxsim/uxsim_cpp_wrapper.py |  6 +++---
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 91e4e8f..f776c79 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -157,7 +157,7 @@ class Analyzer:
             i = link.start_node.id
             j = link.end_node.id
             if link.capacity_in != 0: #流入禁止の場合は通行不可
-                adj_mat_time[i,j] = min(adj_mat_time[i,j], link.length/link.u)
+                adj_mat_time[i,j] = min(adj_mat_time[i,j], link.length/link.u if link.u > 0 else np.inf)
                 adj_mat_dist[i,j] = min(adj_mat_dist[i,j], link.length)
         dist_time = floyd_warshall(adj_mat_time)
         dist_space = floyd_warshall(adj_mat_dist)
@@ -198,7 +198,7 @@ class Analyzer:
         for l in s.W.LINKS:
             s.linkc_volume[l] = l.cum_departure[-1]
             s.linkc_remain[l] = l.cum_arrival[-1]-l.cum_departure[-1]
-            s.linkc_tt_free[l] = l.length/l.u
+            s.linkc_tt_free[l] = l.length/l.u if l.u > 0 else np.inf
             if s.linkc_volume[l]:
                 tt = np.asarray(l.traveltime_actual)
                 mask = tt > 0
@@ -245,7 +245,7 @@ class Analyzer:
         for l in s.W.LINKS:
             #端部を外挿
             for i in lange(l.xss):
-                if len(l.xss[i]):
+                if len(l.xss[i]) and l.u > 0:
                     if l.xss[i][0] != 0:
                         x_remain = l.xss[i][0]
                         if x_remain/l.u > s.W.DELTAT*0.01:
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 8c47e1c..5873928 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -398,7 +398,7 @@ void Node::transfer(){
         }
 
         // Move-remain processing: carry residual distance to next link
-        double x_next_mr = chosen_veh->move_remain * outlink->vmax / inlink->vmax;
+        double x_next_mr = inlink->vmax > 0.0 ? chosen_veh->move_remain * outlink->vmax / inlink->vmax : 0.0;
         if (chosen_veh->leader != nullptr){
             double x_cong = chosen_veh->leader->x_old - outlink->delta_per_lane * w->delta_n;
             if (x_cong < chosen_veh->x){
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 2c60fd0..d1d33b7 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -383,7 +383,7 @@ class Node:
                     assert veh.leader.lane == veh.lane
 
                 #走り残し処理
-                x_next = veh.move_remain*outlink.u/inlink.u
+                x_next = veh.move_remain*outlink.u/inlink.u if inlink.u > 0 else 0
                 if veh.leader != None:
                     x_cong = veh.leader.x_old - veh.link.delta_per_lane*veh.W.DELTAN
                     if x_cong < veh.x:
@@ -641,7 +641,7 @@ class Link:
         s.an = s.edie_dt*s.edie_dx
 
         #累積
-        s.traveltime_actual = np.array([s.length/s.u for t in range(s.W.TSIZE)])
+        s.traveltime_actual = np.array([s.length/s.u if s.u > 0 else np.inf for t in range(s.W.TSIZE)])
 
     def update(s):
         """
@@ -681,8 +681,10 @@ class Link:
             speed = s.speed
             if speed > 0:
                 s.traveltime_instant.append(s.length/speed)
-            else:
+            elif s.u > 0:
                 s.traveltime_instant.append(s.length/(s.u/100))
+            else:
+                s.traveltime_instant.append(np.inf)
         else:
             s.traveltime_instant.append(s.traveltime_instant[-1])
 
@@ -764,7 +766,7 @@ class Link:
         """
         t_list = [t for t in s.vehicles_enter_log.keys() if t0 <= t < t1]
         if len(t_list) == 0:
-            return s.length/s.u
+            return s.length/s.u if s.u > 0 else np.inf
         return np.average([s.actual_travel_time(t) for t in t_list])
     
     def num_vehicles_t(s, t: float) -> float:
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index e74d51b..51057e5 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -286,8 +286,8 @@ class CppLink:
         self.tn_mat = np.zeros(self.k_mat.shape)
         self.dn_mat = np.zeros(self.k_mat.shape)
         self.an = self.edie_dt * self.edie_dx
-        self.traveltime_actual = np.array([self.length / self.u for _ in range(self.W.TSIZE)])
-        self._free_flow_tt = self.length / self.u
+        self._free_flow_tt = self.length / self.u if self.u > 0 else np.inf
+        self.traveltime_actual = np.array([self._free_flow_tt for _ in range(self.W.TSIZE)])
         self._deltat = self.W.DELTAT
 
     def _simulated_part(self, arr):
@@ -414,7 +414,7 @@ class CppLink:
     def average_travel_time_between(self, t0, t1):
         t_list = [t for t in self.vehicles_enter_log.keys() if t0 <= t < t1]
         if len(t_list) == 0:
-            return self.length / self.u
+            return self.length / self.u if self.u > 0 else np.inf
         return np.average([self.actual_travel_time(t) for t in t_list])
 
     def num_vehicles_t(self, t):
-- 
2.43.0


From f7fdfbcdf10f8e2dbb8d6300eff02a9f02bbf81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 047/106] fix: traveltime_actual of C++ mode ignored
 change_free_flow_speed before the simulation

---
 uxsim/trafficpp/traffi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 5873928..aa2d208 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -573,6 +573,9 @@ void Link::change_free_flow_speed(double new_value){
         backward_wave_speed = 1.0/tau/kappa;
         capacity = vmax*backward_wave_speed*kappa/(vmax+backward_wave_speed);
         delta = 1.0/kappa;
+        if (w->timestep == 0){
+            std::fill(traveltime_real.begin(), traveltime_real.end(), length / vmax);
+        }
     }
 }
 
-- 
2.43.0


From 9d452fbe2b2e1bf4a995146f1709681602474c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:40 +0000
Subject: [PATCH 048/106] fix: changes of merge_priority, signal_group,
 congestion_pricing, and node flow_capacity during a simulation had no effect
 in C++ mode

---
 uxsim/uxsim_cpp_wrapper.py | 64 +++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 51057e5..375a6be 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -80,8 +80,6 @@ class CppNode:
         self.x = self._cpp_node.x
         self.y = self._cpp_node.y
         self.signal_offset = self._cpp_node.signal_offset
-        self.flow_capacity = self._cpp_node.flow_capacity
-        self.number_of_lanes = self._cpp_node.number_of_lanes
         self.flag_lanes_automatically_determined = False
 
     def __repr__(self):
@@ -99,6 +97,20 @@ class CppNode:
             self._cpp_node.signal_phase = 0
             self._cpp_node.signal_t = 0
 
+    @property
+    def flow_capacity(self):
+        return self._cpp_node.flow_capacity
+    @flow_capacity.setter
+    def flow_capacity(self, value):
+        self._cpp_node.flow_capacity = float(value) if value is not None else -1.0
+
+    @property
+    def number_of_lanes(self):
+        return self._cpp_node.number_of_lanes
+    @number_of_lanes.setter
+    def number_of_lanes(self, value):
+        self._cpp_node.number_of_lanes = int(value) if value is not None else -1
+
     @property
     def cycle_length(self):
         return sum(self.signal)
@@ -168,18 +180,16 @@ class CppNode:
 
         for key in phase_info:
             key.signal_group = phase_info[key]
-            key._cpp_link.signal_group = phase_info[key]
 
     def adjust_node_capacity(self):
         """
         Automatically determine the `flow_capacity` of this node based on the capacity of connected links. It does not override if `flow_capacity` was already set.
         This calculation is based on an assumption that the node is an intersection with two major roads and two minor roads or similar types. In this case, the node capacity should be the same to that of major roads.
         """
+        number_of_lanes = self.number_of_lanes
         self._cpp_node.adjust_node_capacity()
-        if self._cpp_node.number_of_lanes != self.number_of_lanes:
+        if self.number_of_lanes != number_of_lanes:
             self.flag_lanes_automatically_determined = True
-        self.flow_capacity = self._cpp_node.flow_capacity
-        self.number_of_lanes = self._cpp_node.number_of_lanes
 
 
 class CppLink:
@@ -197,9 +207,6 @@ class CppLink:
         self.end_node = self.W.get_node(end_node)
         self.number_of_lanes = int(number_of_lanes)
 
-        # Signal
-        self.signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
-
         # ID and name registration
         self.id = len(self.W.LINKS)
         self.name = name
@@ -226,7 +233,7 @@ class CppLink:
             kappa = jam_density_per_lane * number_of_lanes
         cpp_capacity_out = capacity_out if capacity_out is not None else -1
         cpp_capacity_in = capacity_in if capacity_in is not None else -1
-        cpp_signal_group = list(self.signal_group)
+        cpp_signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
         try:
             _add_link(self.W._cpp_world, self.name, self.start_node.name, self.end_node.name,
                       float(free_flow_speed), float(kappa), float(length), int(self.number_of_lanes),
@@ -249,7 +256,6 @@ class CppLink:
         self.free_flow_speed = self.u
         self.jam_density = self.kappa
         self.jam_density_per_lane = jam_density_per_lane
-        self.merge_priority = cpp.merge_priority
         self.q_star = self.capacity
         self.k_star = self.capacity / self.u
         self._capacity_out_remain = cpp.capacity_out_remain
@@ -336,6 +342,37 @@ class CppLink:
     def traveltime_actual(self, value):
         self._traveltime_actual = value
 
+    @property
+    def merge_priority(self):
+        return self._cpp_link.merge_priority
+    @merge_priority.setter
+    def merge_priority(self, value):
+        self._cpp_link.merge_priority = float(value)
+
+    @property
+    def signal_group(self):
+        return list(self._cpp_link.signal_group)
+    @signal_group.setter
+    def signal_group(self, value):
+        self._cpp_link.signal_group = [int(x) for x in value]
+
+    @property
+    def congestion_pricing(self):
+        return self._congestion_pricing
+    @congestion_pricing.setter
+    def congestion_pricing(self, value):
+        self._congestion_pricing = value
+        if self.W.finalized:
+            self._set_tolls()
+
+    def _set_tolls(self):
+        """Pre-compute congestion pricing tolls and pass to C++ as timeseries."""
+        if self.congestion_pricing is not None:
+            tolls = [float(self.congestion_pricing(t * self.W.DELTAT)) for t in range(self.W.TSIZE)]
+        else:
+            tolls = []
+        self._cpp_link.set_toll_timeseries(tolls)
+
     @property
     def capacity_out(self):
         return self._cpp_link.capacity_out
@@ -1141,11 +1178,8 @@ class CppWorld:
 
         self._setup_analyzer()
 
-        # Pre-compute congestion pricing tolls and pass to C++ as timeseries
         for link in self.LINKS:
-            if link.congestion_pricing is not None:
-                tolls = [float(link.congestion_pricing(t * self.DELTAT)) for t in range(self.TSIZE)]
-                link._cpp_link.set_toll_timeseries(tolls)
+            link._set_tolls()
 
         self.finalized = 1
 
-- 
2.43.0


From 905760a961e77d18e5f2c82712faeceab0f60b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 049/106] fix:
 get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t crashed or
 returned a wrong time depending on the route choice update interval

---
 uxsim/Utilities/Utilities.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 2005829..ae900c0 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -314,12 +314,13 @@ def get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(W, t, ret
         Returns a numpy array of distances between nodes whose index is node.id pair if `return_matrix` is True and `return_time` is False.
         Returns a tuple of the abode distances and the actual time of computing shortest path cost if `return_time` is True.
     """
-    if t >= W.TMAX:
-        t = W.TMAX-W.DELTAT
-    duo_t = t//W.DUO_UPDATE_TIME
-    duo_timestep = int(duo_t*W.DUO_UPDATE_TIME/W.DELTAT)
+    # the latest computation at time t
+    dist_record = W.ROUTECHOICE.dist_record
+    timestep = int(t/W.DELTAT + 1e-9)
+    duo_timestep = max([k for k in dist_record if k <= timestep], default=0)
+    duo_t = duo_timestep*W.DELTAT
 
-    distances = W.ROUTECHOICE.dist_record[duo_timestep]
+    distances = dist_record[duo_timestep]
 
     if return_matrix == True:
         ret = distances
-- 
2.43.0


From f5d2e0c049ab8bd00f4ed83f754aa63b5b10e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:35 +0000
Subject: [PATCH 050/106] fix: simulation crashed if show_progress_deltat is
 shorter than the timestep

---
 uxsim/uxsim.py             | 2 +-
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index d1d33b7..8f3e26b 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1819,7 +1819,7 @@ class World:
 
         ## progress print setting
         W.show_progress = show_progress
-        W.show_progress_deltat_timestep = int(show_progress_deltat/W.DELTAT)
+        W.show_progress_deltat_timestep = max(1, int(show_progress_deltat/W.DELTAT))
 
         ## memory setting
         W.reduce_memory_delete_vehicle_route_pref = reduce_memory_delete_vehicle_route_pref
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 375a6be..5e9d02d 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -902,7 +902,7 @@ class CppWorld:
         self.instantaneous_TT_timestep_interval = min(int(instantaneous_TT_timestep_interval), self.DELTAT_ROUTE)
         self.route_pref_for_vehs = None
         self.show_progress = show_progress
-        self.show_progress_deltat_timestep = int(show_progress_deltat / self.DELTAT)
+        self.show_progress_deltat_timestep = max(1, int(show_progress_deltat / self.DELTAT))
         self.reduce_memory_delete_vehicle_route_pref = reduce_memory_delete_vehicle_route_pref
         self.name = name
         self.hard_deterministic_mode = hard_deterministic_mode
-- 
2.43.0


From 91540604d381d079f3bf99433869c249d1f48b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 051/106] fix: enumerate_k_shortest_routes and
 enumerate_k_random_routes returned wrong routes if there are multiple links
 between the same nodes

---
 uxsim/Utilities/Utilities.py | 33 ++++++++++++++-------------------
 uxsim/trafficpp/traffi.cpp   | 20 +++++++++++---------
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index ae900c0..bfaf3c0 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -81,17 +81,15 @@ def enumerate_k_shortest_routes(W, source, target, k=1, cost_function=lambda l:
     """
     G = nx.DiGraph()
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l))
+        u, v, cost = l.start_node.name, l.end_node.name, cost_function(l)
+        if not G.has_edge(u, v) or cost < G[u][v]['weight']: # if there are multiple links between the same nodes, the cheapest one is used
+            G.add_edge(u, v, weight=cost, link=l.name)
 
     k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
+        route = [G[u][v]['link'] for u, v in zip(path[:-1], path[1:])]
 
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
@@ -138,17 +136,15 @@ def enumerate_k_shortest_routes_on_t(W, source, target, t, k=1, cost_function=la
     """
     G = nx.DiGraph()
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l, t))
+        u, v, cost = l.start_node.name, l.end_node.name, cost_function(l, t)
+        if not G.has_edge(u, v) or cost < G[u][v]['weight']: # if there are multiple links between the same nodes, the cheapest one is used
+            G.add_edge(u, v, weight=cost, link=l.name)
 
     k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
+        route = [G[u][v]['link'] for u, v in zip(path[:-1], path[1:])]
 
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
@@ -193,10 +189,11 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
     while 1:
         G = nx.DiGraph()
         for l in W.LINKS:
-            if iteration == 0:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u)
-            else:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u*random.uniform(0,100))
+            u, v, weight = l.start_node.name, l.end_node.name, l.length/l.u
+            if iteration > 0:
+                weight *= random.uniform(0,100)
+            if not G.has_edge(u, v) or weight < G[u][v]['weight']: # if there are multiple links between the same nodes, the cheapest one is used
+                G.add_edge(u, v, weight=weight, link=l.name)
 
         paths = dict(nx.all_pairs_dijkstra_path(G))
         for source in paths:
@@ -204,9 +201,7 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
                 if len(dict_routes[source, dest]) < k:
                     path = []
                     for i in range(0,len(paths[source][dest])-1):
-                        l = W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]]
-                        #print(W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]], end="")
-                        path.append(l.name)
+                        path.append(G[paths[source][dest][i]][paths[source][dest][i+1]]['link'])
                     if path not in dict_routes[source, dest]:
                         dict_routes[source, dest].append(path)
 
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index aa2d208..7471d5e 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1403,11 +1403,8 @@ map<pair<int,int>, vector<vector<int>>>
 World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
     int nsize = node_id;
 
-    // Build node_pair → link_id lookup (last link wins for multi-link pairs, matching Python)
+    // node_pair → link_id lookup (cheapest link wins for multi-link pairs, matching Python)
     vector<vector<int>> node_pair_link(nsize, vector<int>(nsize, -1));
-    for (auto ln : links){
-        node_pair_link[ln->start_node->id][ln->end_node->id] = ln->id;
-    }
 
     map<pair<int,int>, vector<vector<int>>> dict_routes;
     std::mt19937 local_rng(seed);
@@ -1423,14 +1420,19 @@ World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
 
     while (true){
         // Build weighted adj matrix (free-flow on iter 0, random on subsequent)
+        for (auto ln : links){
+            node_pair_link[ln->start_node->id][ln->end_node->id] = -1;
+        }
         for (auto ln : links){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
-            double base_weight = ln->length / ln->vmax;
-            if (iteration == 0){
-                adj[i][j] = base_weight;
-            } else {
-                adj[i][j] = base_weight * rdist(local_rng);
+            double weight = ln->length / ln->vmax;
+            if (iteration > 0){
+                weight *= rdist(local_rng);
+            }
+            if (node_pair_link[i][j] == -1 || weight < adj[i][j]){
+                adj[i][j] = weight;
+                node_pair_link[i][j] = ln->id;
             }
         }
 
-- 
2.43.0


From ec7d634b4dd5931957094013d02aa9b04fac11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:47 +0000
Subject: [PATCH 052/106] fix: construct_time_space_network used the last one
 of parallel links instead of the fastest one

---
 uxsim/Utilities/Utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index bfaf3c0..6284f63 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -370,7 +370,8 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
                     u = (node.name, t)
                     v = (link.end_node.name, t_arrival)
                     if G.has_node(u) and G.has_node(v):
-                        G.add_edge(u, v, weight=travel_time)
+                        if not G.has_edge(u, v) or travel_time < G[u][v]['weight']: # if there are multiple links between the same nodes, the fastest one is used
+                            G.add_edge(u, v, weight=travel_time)
                     else:
                         print(u,v)
 
-- 
2.43.0


From 62e083622d81600af2debb90a2707e72feb18c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 053/106] fix: C++ mode ignored auto_rename of nodes and
 accepted unknown or foreign nodes and links, leaving broken links, vehicles,
 and routes

---
 uxsim/uxsim_cpp_wrapper.py | 46 +++++++++++++-------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 5e9d02d..26743c5 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -71,7 +71,7 @@ class CppNode:
         self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
-        _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
+        _add_node(self.W._cpp_world, self.name, float(x), float(y), list(signal), float(actual_signal_offset),
                   float(flow_capacity) if flow_capacity is not None else -1.0,
                   int(number_of_lanes) if number_of_lanes is not None else -1)
         self._cpp_node = self.W._cpp_world.get_node(self.name)
@@ -994,8 +994,8 @@ class CppWorld:
         orig = args[0] if len(args) > 0 else kwargs.get('orig')
         dest = args[1] if len(args) > 1 else kwargs.get('dest')
         departure_time = args[2] if len(args) > 2 else kwargs.get('departure_time', 0)
-        orig_name = orig.name if hasattr(orig, 'name') else str(orig)
-        dest_name = dest.name if hasattr(dest, 'name') else str(dest)
+        orig_name = self.get_node(orig).name
+        dest_name = self.get_node(dest).name
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
         ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT + 1e-9)
         # Intermediate points of timesteps, so that rounding errors do not change the number of vehicles nor their departure timestep
@@ -1016,26 +1016,16 @@ class CppWorld:
                     raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
 
         # Resolve links_prefer to C++ link name strings
-        links_prefer = kwargs.get('links_prefer', [])
-        cpp_links_pref = []
-        for l in links_prefer:
-            lname = l.name if hasattr(l, 'name') else str(l)
-            cpp_links_pref.append(lname)
+        cpp_links_pref = [self.get_link(l).name for l in kwargs.get('links_prefer', [])]
+        links_avoid = [self.get_link(l) for l in kwargs.get('links_avoid', [])]
 
         n_before = self._cpp_world.vehicle_count
         _add_demand(self._cpp_world, orig_name, dest_name,
                    float(t_start), float(t_end), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
-        links_avoid = kwargs.get('links_avoid', [])
         if links_avoid:
-            cpp_avoid = []
-            for l in links_avoid:
-                link_obj = self.get_link(l) if isinstance(l, str) else l
-                try:
-                    cpp_avoid.append(link_obj._cpp_link)
-                except AttributeError:
-                    pass
+            cpp_avoid = [l._cpp_link for l in links_avoid]
             n_after = self._cpp_world.vehicle_count
             for i in range(n_before, n_after):
                 try:
@@ -1056,9 +1046,7 @@ class CppWorld:
 
     def _resolve_node_name(self, node):
         """Get node name string from Node object or string."""
-        if hasattr(node, 'name'):
-            return node.name
-        return str(node)
+        return self.get_node(node).name
 
     @demand_info_record
     def adddemand(self, orig, dest, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1485,25 +1473,23 @@ class CppWorld:
     def get_node(self, node):
         if node is None:
             return None
-        if isinstance(node, CppNode):
+        if isinstance(node, CppNode) and node.W is self:
             return node
-        if isinstance(node, (str, np.str_)):
-            return self.NODES_NAME_DICT.get(node)
         if hasattr(node, 'name'):
-            return self.NODES_NAME_DICT.get(node.name)
+            node = node.name
+        if isinstance(node, (str, np.str_)) and node in self.NODES_NAME_DICT:
+            return self.NODES_NAME_DICT[node]
         raise Exception(f"'{node}' is not Node in this World")
 
     def get_link(self, link):
         if link is None:
             return None
-        if isinstance(link, CppLink):
-            if link.W is self:
-                return link
-            return self.LINKS_NAME_DICT.get(link.name)
-        if isinstance(link, (str, np.str_)):
-            return self.LINKS_NAME_DICT.get(link)
+        if isinstance(link, CppLink) and link.W is self:
+            return link
         if hasattr(link, 'name'):
-            return self.LINKS_NAME_DICT.get(link.name)
+            link = link.name
+        if isinstance(link, (str, np.str_)) and link in self.LINKS_NAME_DICT:
+            return self.LINKS_NAME_DICT[link]
         raise Exception(f"'{link}' is not Link in this World")
 
     def get_nearest_node(self, x, y):
-- 
2.43.0


From 6c0501d7a1599586fc4dd744699adfb9d517744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 054/106] fix: C++ mode ignored positional arguments of
 addVehicle such as name

---
 uxsim/uxsim_cpp_wrapper.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 26743c5..75bdfec 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -987,13 +987,17 @@ class CppWorld:
 
     def addVehicle(self, *args, direct_call=True, **kwargs):
         """Add a single vehicle by forwarding to C++ as a one-platoon demand."""
+        # Positional arguments, in the same order as those of Vehicle in Python mode
+        arg_names = ['orig', 'dest', 'departure_time', 'name', 'route_pref', 'route_choice_principle', 'mode', 'links_prefer', 'links_avoid', 'trip_abort',
+                     'departure_time_is_time_step', 'attribute', 'user_attribute', 'user_function', 'auto_rename']
+        kwargs = {**dict(zip(arg_names, args)), **kwargs}
         mode = kwargs.get('mode', 'single_trip')
         if mode == 'taxi':
             raise NotImplementedError("taxi mode is not supported in C++ mode")
         self._ensure_cpp_world()
-        orig = args[0] if len(args) > 0 else kwargs.get('orig')
-        dest = args[1] if len(args) > 1 else kwargs.get('dest')
-        departure_time = args[2] if len(args) > 2 else kwargs.get('departure_time', 0)
+        orig = kwargs.get('orig')
+        dest = kwargs.get('dest')
+        departure_time = kwargs.get('departure_time', 0)
         orig_name = self.get_node(orig).name
         dest_name = self.get_node(dest).name
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
-- 
2.43.0


From a62b89ca94b925d058a7e9938f03c04a3b888926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 055/106] fix: DUE and DSO solvers reported a cost gap that was
 not the difference to the minimum cost route

---
 uxsim/DTAsolvers/DTAsolvers.py | 32 ++++++++++++++++----------------
 uxsim/trafficpp/dta_solver.cpp | 34 ++++++++++++++++------------------
 2 files changed, 32 insertions(+), 34 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 69924ff..e5b942a 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -218,19 +218,19 @@ class SolverDUE:
                 t_gap = 0
 
                 cost_current = r.actual_travel_time(ts[0]) + sum([l.get_toll(ts[i]) for i,l in enumerate(r)])
+                cost_best = cost_current
 
                 potential_n_swap_updated = potential_n_swap
                 for alt_route in route_set[o,d]:
                     alt_route_tts = alt_route.actual_travel_time(ts[0], return_details=True)[1]
                     cost_alt = alt_route.actual_travel_time(ts[0]) + sum([l.get_toll(ts[0]+sum(alt_route_tts[:i])) for i,l in enumerate(alt_route)])
-                    if cost_alt < cost_current:
-                        if flag_route_changed == False or (cost_alt < cost_current):
-                            t_gap = cost_current - cost_alt
-                            potential_n_swap_updated = potential_n_swap + W.DELTAN
-                            if flag_swap:
-                                flag_route_changed = True
-                                route_changed = alt_route
-                                cost_current = cost_alt
+                    if cost_alt < cost_best:
+                        cost_best = cost_alt
+                        t_gap = cost_current - cost_best
+                        potential_n_swap_updated = potential_n_swap + W.DELTAN
+                        if flag_swap:
+                            flag_route_changed = True
+                            route_changed = alt_route
 
                 potential_n_swap = potential_n_swap_updated
 
@@ -582,6 +582,7 @@ class SolverDSO_D2D:
                 ext = estimate_congestion_externality_route(W, r, ts[0])
                 private_cost = r.actual_travel_time(ts[0])
                 cost_current = private_cost+ext
+                cost_best = cost_current
 
                 potential_n_swap_updated = potential_n_swap
 
@@ -590,14 +591,13 @@ class SolverDSO_D2D:
                     private_cost = alt_route.actual_travel_time(ts[0])
                     cost_alt = private_cost+ext
 
-                    if cost_alt < cost_current:
-                        if flag_route_changed == False or (cost_alt < cost_current):
-                            t_gap = cost_current - cost_alt
-                            potential_n_swap_updated = potential_n_swap + W.DELTAN
-                            if flag_swap:
-                                flag_route_changed = True
-                                route_changed = alt_route
-                                cost_current = cost_alt
+                    if cost_alt < cost_best:
+                        cost_best = cost_alt
+                        t_gap = cost_current - cost_best
+                        potential_n_swap_updated = potential_n_swap + W.DELTAN
+                        if flag_swap:
+                            flag_route_changed = True
+                            route_changed = alt_route
 
                 potential_n_swap = potential_n_swap_updated
 
diff --git a/uxsim/trafficpp/dta_solver.cpp b/uxsim/trafficpp/dta_solver.cpp
index 1795488..907dd32 100644
--- a/uxsim/trafficpp/dta_solver.cpp
+++ b/uxsim/trafficpp/dta_solver.cpp
@@ -198,6 +198,7 @@ RouteSwapResult dta_route_swap_due(
             }
         }
 
+        double cost_best = cost_current;
         bool flag_route_changed = false;
         int route_changed_idx = -1;
         double t_gap = 0.0;
@@ -205,15 +206,13 @@ RouteSwapResult dta_route_swap_due(
 
         for (size_t ri = 0; ri < route_set.size(); ri++){
             double cost_alt = dta_compute_route_cost_due(w, route_set[ri], departure_t);
-            if (cost_alt < cost_current){
-                if (!flag_route_changed || cost_alt < cost_current){
-                    t_gap = cost_current - cost_alt;
-                    potential_n_swap_delta = w->delta_n;
-                    if (flag_swap){
-                        flag_route_changed = true;
-                        route_changed_idx = (int)ri;
-                        cost_current = cost_alt;
-                    }
+            if (cost_alt < cost_best){
+                cost_best = cost_alt;
+                t_gap = cost_current - cost_best;
+                potential_n_swap_delta = w->delta_n;
+                if (flag_swap){
+                    flag_route_changed = true;
+                    route_changed_idx = (int)ri;
                 }
             }
         }
@@ -325,6 +324,7 @@ RouteSwapResult dta_route_swap_dso(
         double departure_t = traveled.entry_times.empty() ? veh->departure_time : traveled.entry_times[0];
         double cost_current = dta_compute_route_cost_dso(w, traveled.link_ids, departure_t);
 
+        double cost_best = cost_current;
         bool flag_route_changed = false;
         int route_changed_idx = -1;
         double t_gap = 0.0;
@@ -332,15 +332,13 @@ RouteSwapResult dta_route_swap_dso(
 
         for (size_t ri = 0; ri < route_set.size(); ri++){
             double cost_alt = dta_compute_route_cost_dso(w, route_set[ri], departure_t);
-            if (cost_alt < cost_current){
-                if (!flag_route_changed || cost_alt < cost_current){
-                    t_gap = cost_current - cost_alt;
-                    potential_n_swap_delta = w->delta_n;
-                    if (flag_swap){
-                        flag_route_changed = true;
-                        route_changed_idx = (int)ri;
-                        cost_current = cost_alt;
-                    }
+            if (cost_alt < cost_best){
+                cost_best = cost_alt;
+                t_gap = cost_current - cost_best;
+                potential_n_swap_delta = w->delta_n;
+                if (flag_swap){
+                    flag_route_changed = true;
+                    route_changed_idx = (int)ri;
                 }
             }
         }
-- 
2.43.0


From 80e7a7267289a032f8a335ca3e2646a7897128fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 056/106] fix: route costs, tolls, and externalities were read
 at a neighboring timestep by rounding errors when the timestep width is
 fractional

---
 uxsim/Utilities/Utilities.py   | 10 +++++-----
 uxsim/trafficpp/dta_solver.cpp |  2 +-
 uxsim/trafficpp/dta_solver.h   |  4 ++--
 uxsim/trafficpp/traffi.cpp     |  6 +++---
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 6284f63..c9c2f73 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -364,7 +364,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
     for t in range(0, tmax, dt):
         for node in W.NODES:
             for link in node.outlinks.values():
-                travel_time = link.traveltime_actual[int(t/W.DELTAT)]
+                travel_time = link.traveltime_actual[int(t/W.DELTAT + 1e-9)]
                 t_arrival = int((t + travel_time)/dt)*dt
                 if t_arrival < W.TMAX:
                     u = (node.name, t)
@@ -444,15 +444,15 @@ def estimate_congestion_externality_link(W, link, t):
         link = W.get_link(link)
 
         if hasattr(W, '_cpp_world') and W._cpp_world is not None:
-            ts = int(t/W.DELTAT)
+            ts = int(t/W.DELTAT + 1e-9)
             return link._cpp_link.estimate_congestion_externality(ts)
 
-        ts = int(t/W.DELTAT)
+        ts = int(t/W.DELTAT + 1e-9)
 
         #同じ待ち行列で自分より後ろで待っている車両台数の算出
         ts_end = ts
         for i in range(ts, len(link.traveltime_actual), 1):
-            if link.traveltime_actual[i] > link.length/link.free_flow_speed*1.01 and link.cum_arrival[i+int(link.traveltime_actual[i]/W.DELTAT)]-link.cum_departure[i+int(link.traveltime_actual[i]/W.DELTAT)] > 0:
+            if link.traveltime_actual[i] > link.length/link.free_flow_speed*1.01 and link.cum_arrival[i+int(link.traveltime_actual[i]/W.DELTAT + 1e-9)]-link.cum_departure[i+int(link.traveltime_actual[i]/W.DELTAT + 1e-9)] > 0:
             #if link.traveltime_actual[i] > link.length/link.free_flow_speed*1.01:
                 ts_end = i
             else:
@@ -464,7 +464,7 @@ def estimate_congestion_externality_link(W, link, t):
         #TODO:微妙に系統的にずれる
         #TODO:スピルオーバー時の除外
         #TODO:信号待ちの一台目のときに破綻してしまう．頑健で賢い方法あるか？信号，このリンクの容量制約，下流側リンク・ノード容量制約を全部考えられるもの
-        ts_out = int(ts+int(link.traveltime_actual[ts]/W.DELTAT))+1
+        ts_out = int(ts+int(link.traveltime_actual[ts]/W.DELTAT + 1e-9))+1
         ts_out_leader = ts_out
         for i in range(ts_out, 0, -1):
             if link.cum_departure[i] < link.cum_departure[ts_out]:
diff --git a/uxsim/trafficpp/dta_solver.cpp b/uxsim/trafficpp/dta_solver.cpp
index 907dd32..0dbe77c 100644
--- a/uxsim/trafficpp/dta_solver.cpp
+++ b/uxsim/trafficpp/dta_solver.cpp
@@ -81,7 +81,7 @@ double dta_compute_route_cost_dso(World *w, const std::vector<int> &route_link_i
     for (int lid : route_link_ids){
         Link *ln = w->links[lid];
         double ltt = dta_get_actual_travel_time(ln, t);
-        int ts = (int)(t / w->delta_t);
+        int ts = (int)(t / w->delta_t + 1e-9);
         ext_total += ln->estimate_congestion_externality(ts);
         tt_total += ltt;
         t += ltt;
diff --git a/uxsim/trafficpp/dta_solver.h b/uxsim/trafficpp/dta_solver.h
index 7787af2..f47f95e 100644
--- a/uxsim/trafficpp/dta_solver.h
+++ b/uxsim/trafficpp/dta_solver.h
@@ -45,7 +45,7 @@ ODRouteSetStore dta_enumerate_od_route_sets_ids(World *w, int k, unsigned int se
 // Get toll value at time t (from toll_timeseries or route_choice_penalty)
 inline double dta_get_toll(const Link *ln, double t) {
     if (!ln->toll_timeseries.empty()){
-        int ts = (int)(t / ln->w->delta_t);
+        int ts = (int)(t / ln->w->delta_t + 1e-9);
         if (ts < 0) ts = 0;
         if (ts >= (int)ln->toll_timeseries.size()) ts = (int)ln->toll_timeseries.size() - 1;
         return ln->toll_timeseries[ts];
@@ -58,7 +58,7 @@ inline double dta_get_actual_travel_time(const Link *ln, double t) {
     ln->ensure_traveltime_real();
     int n = (int)ln->traveltime_real.size();
     if (n == 0) return ln->length / ln->vmax;
-    int idx = (int)(t / ln->w->delta_t);
+    int idx = (int)(t / ln->w->delta_t + 1e-9);
     if (idx < 0) idx = 0;
     if (idx >= n) idx = n - 1;
     return ln->traveltime_real[idx];
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 7471d5e..50f4e92 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -660,7 +660,7 @@ double Link::estimate_congestion_externality(int ts){
     int ts_end = ts;
     for (int i = ts; i < n; i++){
         double tt_i = traveltime_real[i];
-        int future_idx = i + (int)(tt_i / dt);
+        int future_idx = i + (int)(tt_i / dt + 1e-9);
         if (future_idx >= n) break;
         if (tt_i > free_flow_tt && arrival_curve[future_idx] - departure_curve[future_idx] > 0){
             ts_end = i;
@@ -676,7 +676,7 @@ double Link::estimate_congestion_externality(int ts){
     // Step 2: Find leader headway (backward scan)
     int ts_out = 0;
     if (ts >= 0 && ts < n){
-        ts_out = (int)(ts + (int)(traveltime_real[ts] / dt)) + 1;
+        ts_out = (int)(ts + (int)(traveltime_real[ts] / dt + 1e-9)) + 1;
     }
     if (ts_out >= n) ts_out = n - 1;
     int ts_out_leader = ts_out;
@@ -696,7 +696,7 @@ double World::estimate_congestion_externality_route(const vector<Link*> &route,
     double exts = 0;
     for (auto ln : route){
         ln->ensure_traveltime_real();
-        int ts = (int)(t / delta_t);
+        int ts = (int)(t / delta_t + 1e-9);
         exts += ln->estimate_congestion_externality(ts);
         // Advance t by the actual travel time on this link
         int n = (int)ln->traveltime_real.size();
-- 
2.43.0


From 3c9fc6b02f858bbd5de341e2859d3a1ed7acba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 057/106] fix: SolverDSO_GA returned the solution evaluated
 last instead of the best one

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index e5b942a..832746d 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1041,7 +1041,7 @@ class SolverDSO_GA:
         print(f" total travel time: initial {s.ttts[0]:.1f} -> last {s.ttts[-1]:.1f}")
         print(f" computation time: {s.end_time - s.start_time:.1f} seconds")
 
-        s.W_sol = W
+        s.W_sol = s.W_intermid_solution
         return s.W_sol
     
     def plot_convergence(s):
-- 
2.43.0


From 4adfa51884d2b7879ab38b43f5e44620373cf798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 058/106] fix: SolverDSO_ALNS rewarded unfinished trips instead
 of penalizing them

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 832746d..46ae2d4 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1304,7 +1304,7 @@ class SolverDSO_ALNS:
             W = s.func_World()
             specify_routes(W, xx)
             W.exec_simulation()
-            obj_value = W.analyzer.total_travel_time - (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
+            obj_value = W.analyzer.total_travel_time + (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
             
             route_actual = {}
             cost_actual = {}
-- 
2.43.0


From b593c7d7778f30da43f1551169a5597d8ddda398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 059/106] fix: SolverDSO_ALNS started vehicles without a known
 route on the last route instead of the fastest one

---
 uxsim/DTAsolvers/DTAsolvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 46ae2d4..b0a7016 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1243,7 +1243,9 @@ class SolverDSO_ALNS:
                         break
 
                     #経路が経路集合に見当たらない場合，最短経路を探す
-                    if route.actual_travel_time(veh.departure_time_in_second) < route_mintt: 
+                    route_tt = route.actual_travel_time(veh.departure_time_in_second)
+                    if route_tt < route_mintt:
+                        route_mintt = route_tt
                         route_id_mintt = j
                 
                 if route_id != -1:
-- 
2.43.0


From 07c359b22adaf5460bf771d06c9dd12eb37b80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 060/106] fix: SolverDSO_ALNS crashed if the initial solution
 had no route sets attached

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index b0a7016..4ac1faa 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1200,7 +1200,6 @@ class SolverDSO_ALNS:
             #    print(W.analyzer.basic_to_pandas())
         else:
             W = initial_solution_World
-            dict_od_to_routes = W.dict_od_to_routes
             
         if k_max == None:
             k_max = max([1, int(len(W.VEHICLES)*0.01)])
@@ -1229,6 +1228,7 @@ class SolverDSO_ALNS:
         if initial_solution_World != None and hasattr(initial_solution_World, "dict_od_to_routes"):
             print("Initial solusion is used")
             routes = initial_solution_World.dict_od_to_routes
+            dict_od_to_routes = routes
             xx0 = [0 for i in range(len(W.VEHICLES))]
             n_route_found = 0
             for i,veh in enumerate(W.VEHICLES.values()):   
-- 
2.43.0


From e7ea69b26b10e683793b35ddc85d0c8da9e565af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 061/106] fix: SolverDSO_ALNS crashed if all vehicles depart at
 time 0 or few links were traveled

---
 uxsim/DTAsolvers/ALNS.py       | 1 +
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/ALNS.py b/uxsim/DTAsolvers/ALNS.py
index 692b483..b7b9a03 100644
--- a/uxsim/DTAsolvers/ALNS.py
+++ b/uxsim/DTAsolvers/ALNS.py
@@ -455,6 +455,7 @@ def destroy_congested_link(state: ALNSState, base: Sequence[Any]) -> Tuple[List[
     delay_ranking_ratio = 0.05
     delay_ranking_min_n = 3
 
+    df_l = df_l[[len(l.vehicles_enter_log) > 0 for l in W.LINKS]]    #車両が走行したリンクのみ
     most_delayed_links = list(df_l.sort_values(by='delay_ratio', ascending=False)[:max([int(len(df_l)*delay_ranking_ratio),delay_ranking_min_n])]["link"])
     
     k = state.rng.randint(state.k_min, min(state.k_cur, n))
diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 4ac1faa..82f8c4c 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1214,7 +1214,7 @@ class SolverDSO_ALNS:
             dict_od_to_vehid[o,d].append(key)
             departure_times.append(veh.departure_time)
 
-        departure_times = np.array(departure_times)/max(departure_times)
+        departure_times = np.array(departure_times)/max(max(departure_times), 1)
 
         ##############################################################
         # enumerate some routes between each OD pair
-- 
2.43.0


From 9f9df11690a959520b837af5e3ade45f6318519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 062/106] fix: SolverDSO_ALNS started from random routes
 instead of the DUO solution if no initial solution was given

---
 uxsim/DTAsolvers/DTAsolvers.py | 69 +++++++++++++++-------------------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 82f8c4c..8874468 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1228,51 +1228,42 @@ class SolverDSO_ALNS:
         if initial_solution_World != None and hasattr(initial_solution_World, "dict_od_to_routes"):
             print("Initial solusion is used")
             routes = initial_solution_World.dict_od_to_routes
-            dict_od_to_routes = routes
-            xx0 = [0 for i in range(len(W.VEHICLES))]
-            n_route_found = 0
-            for i,veh in enumerate(W.VEHICLES.values()):   
-                route_id = -1
-                route_id_mintt = 0
-                route_mintt = float("inf")
-                for j,r in enumerate(routes[(veh.orig.name, veh.dest.name)]):
-                    route = W.defRoute(r)
-                    if route == veh.traveled_route()[0]:
-                        route_id = j
-                        n_route_found += 1
-                        break
-
-                    #経路が経路集合に見当たらない場合，最短経路を探す
-                    route_tt = route.actual_travel_time(veh.departure_time_in_second)
-                    if route_tt < route_mintt:
-                        route_mintt = route_tt
-                        route_id_mintt = j
-                
-                if route_id != -1:
-                    xx0[i] = route_id
-                else:
-                    xx0[i] = route_id_mintt #経路が経路集合に見当たらない場合，最短経路に割付
-
-            #print(f" route recovered: {n_route_found*W.DELTAN}/{len(W.VEHICLES)*W.DELTAN}")
-
-            xx_domain = []
-            for i, veh in enumerate(W.VEHICLES.values()):
-                actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
-                xx_domain.append([i for i in range(actual_n_route)])
-
         else:
             print("No initial solution")
             routes = enumerate_k_random_routes(W, k=n_routes_per_od)
-
             W.dict_od_to_routes = routes
-            dict_od_to_routes = routes
+        dict_od_to_routes = routes
+
+        xx0 = [0 for i in range(len(W.VEHICLES))]
+        n_route_found = 0
+        for i,veh in enumerate(W.VEHICLES.values()):   
+            route_id = -1
+            route_id_mintt = 0
+            route_mintt = float("inf")
+            for j,r in enumerate(routes[(veh.orig.name, veh.dest.name)]):
+                route = W.defRoute(r)
+                if route == veh.traveled_route()[0]:
+                    route_id = j
+                    n_route_found += 1
+                    break
+
+                #経路が経路集合に見当たらない場合，最短経路を探す
+                route_tt = route.actual_travel_time(veh.departure_time_in_second)
+                if route_tt < route_mintt:
+                    route_mintt = route_tt
+                    route_id_mintt = j
             
-            xx_domain = []
-            for i, veh in enumerate(W.VEHICLES.values()):
-                actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
-                xx_domain.append([i for i in range(actual_n_route)])
+            if route_id != -1:
+                xx0[i] = route_id
+            else:
+                xx0[i] = route_id_mintt #経路が経路集合に見当たらない場合，最短経路に割付
 
-            xx0 = [random.randint(0, len(xx_domain[i])) for i in range(len(W.VEHICLES))]
+        #print(f" route recovered: {n_route_found*W.DELTAN}/{len(W.VEHICLES)*W.DELTAN}")
+
+        xx_domain = []
+        for i, veh in enumerate(W.VEHICLES.values()):
+            actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
+            xx_domain.append([i for i in range(actual_n_route)])
 
 
         ##############################################################
-- 
2.43.0


From c52133484f9b3492a64982c2bdc974c89046522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 063/106] fix: ALNS forgot better solutions found while
 estimating the initial temperature

---
 uxsim/DTAsolvers/ALNS.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/ALNS.py b/uxsim/DTAsolvers/ALNS.py
index b7b9a03..61ca558 100644
--- a/uxsim/DTAsolvers/ALNS.py
+++ b/uxsim/DTAsolvers/ALNS.py
@@ -779,7 +779,11 @@ def init_alns(
                 choices = [c for c in domains[j] if c != xx[j]]
                 if choices:
                     xx[j] = _rng_choice(rng, choices)
-            d = _eval(xx) - cur
+            val = _eval(xx)
+            if val < best:          # 最良解を記憶
+                best = val
+                x_best = _copy_vec(xx)
+            d = val - cur
             if d > 0:               # 悪化のみ収集
                 deltas.append(d)
         if not deltas:
-- 
2.43.0


From 0858a75bdc905fe152968e421a976ee0bc77df8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 064/106] fix: departure time in the route log was truncated to
 integer seconds

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 8f3e26b..4d29e21 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1111,7 +1111,7 @@ class Vehicle:
         s.log_lane = [] #車線
         s.color = (s.W.rng.random(), s.W.rng.random(), s.W.rng.random())
 
-        s.log_t_link : list[tuple[int,str|Link]] = [[int(s.departure_time*s.W.DELTAT), "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
+        s.log_t_link : list[tuple[int,str|Link]] = [[s.departure_time*s.W.DELTAT, "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
         s.link_old = None
         
         s.distance_traveled = 0
-- 
2.43.0


From c2c46efd3c7db6f947e3d153364370511c506b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 065/106] fix: signal phases lasted one timestep too short or
 long due to rounding errors of the elapsed time

---
 uxsim/trafficpp/traffi.cpp | 4 ++--
 uxsim/uxsim.py             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 50f4e92..55751ba 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -71,7 +71,7 @@ Node::Node(World *w, const string &node_name, double x, double y, vector<double>
         double offset = cycle_length - this->signal_offset;
         int i = 0;
         while (true){
-            if (offset < this->signal_intervals[i]){
+            if (offset < this->signal_intervals[i] - 1e-9){ // with tolerance for rounding errors
                 signal_phase = i;
                 signal_t = offset;
                 break;
@@ -194,7 +194,7 @@ void Node::generate(){
 void Node::signal_update(){
     // Match Python's signal_control() exactly
     if (signal_intervals.size() > 1){
-        if (signal_t > signal_intervals[signal_phase]){
+        if (signal_t > signal_intervals[signal_phase] + 1e-9){ // with tolerance for rounding errors of the elapsed time
             signal_phase++;
             signal_t = 0;
             if ((size_t)signal_phase >= signal_intervals.size()){
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 4d29e21..b098244 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -102,7 +102,7 @@ class Node:
         if s.signal != [0]:
             i = 0
             while 1:
-                if offset < s.signal[i]:
+                if offset < s.signal[i]-1e-9: #with tolerance for rounding errors
                     s.signal_phase = i
                     s.signal_t = offset
                     break
@@ -212,7 +212,7 @@ class Node:
         """
         Updates the signal timings for a traffic signal node.
         """
-        if s.signal_t > s.signal[s.signal_phase]:
+        if s.signal_t > s.signal[s.signal_phase]+1e-9: #with tolerance for rounding errors of the elapsed time
             s.signal_phase += 1
             s.signal_t = 0
             if s.signal_phase >= len(s.signal):
-- 
2.43.0


From 678adf24fd57455047708b73ba64d340080dc053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 066/106] fix: construct_time_space_network with timesteps
 below one second

---
 uxsim/Utilities/Utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index c9c2f73..15ff7df 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -352,7 +352,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
         Not efficient for large networks.
     """
     if dt == None:
-        dt = int(W.DELTAT)
+        dt = max(1, int(W.DELTAT))
     tmax = int(W.TMAX)
     coef_t_to_xy = 1/10000  #for visualization
 
-- 
2.43.0


From 0dbf3e454521fb9b55484c16576eb70bcbe97dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 067/106] fix: a node capacity set after the creation of the
 node had no effect (as in OSMImporter2)

---
 uxsim/trafficpp/traffi.cpp | 6 ++++++
 uxsim/uxsim.py             | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 55751ba..69f4875 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -225,6 +225,12 @@ void Node::adjust_node_capacity(){
 
 void Node::flow_capacity_update(){
     if (flow_capacity >= 0.0){
+        if (number_of_lanes <= 0){
+            number_of_lanes = (int)std::ceil(flow_capacity / 0.8);
+        }
+        if (flow_capacity_remain >= 1e10){ //the capacity was unlimited until now
+            flow_capacity_remain = flow_capacity * w->delta_t;
+        }
         if (flow_capacity_remain < w->delta_n * (number_of_lanes > 0 ? number_of_lanes : 1)){
             flow_capacity_remain += flow_capacity * w->delta_t;
         }
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index b098244..13d3b43 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -228,6 +228,10 @@ class Node:
         flow capacity updates.
         """
         if s.flow_capacity != None:
+            if s.number_of_lanes == None:
+                s.number_of_lanes = math.ceil(s.flow_capacity/0.8)
+            if s.flow_capacity_remain >= 1e10: #the capacity was unlimited until now
+                s.flow_capacity_remain = s.flow_capacity*s.W.DELTAT
             if s.flow_capacity_remain < s.W.DELTAN*s.number_of_lanes:
                 s.flow_capacity_remain += s.flow_capacity*s.W.DELTAT
         else:
-- 
2.43.0


From b00869ddc1d766cd5ab435324cdfdc0cef966d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 068/106] fix: OSMImporter2 connected links to other nodes of
 the same name already in the World

---
 uxsim/OSMImporter2/OSMImporter2.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 383469b..f9406b7 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -216,18 +216,16 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
     for key in lanes_by_road_type:
         lanes_dict[key] = lanes_by_road_type[key]
 
-    added_node_names = []
+    added_nodes = {}
     for i in nodes.index:
         x = nodes.at[i, "x"]
         y = nodes.at[i, "y"]
         node_id = str(nodes.at[i, "node_id"])
-        W.addNode(node_id, x, y, auto_rename=True)
-
-        added_node_names.append(node_id)
+        added_nodes[node_id] = W.addNode(node_id, x, y, auto_rename=True) #may be renamed
 
     for i in links.index:
-        start_node = str(links.at[i, "from_node"])
-        end_node = str(links.at[i, "to_node"])
+        start_node = added_nodes[str(links.at[i, "from_node"])]
+        end_node = added_nodes[str(links.at[i, "to_node"])]
         length = links.at[i, "length"]
 
         name = links.at[i, "name"]
@@ -317,11 +315,10 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
             W.addLink(name=name+"-reverse", start_node=end_node, end_node=start_node, length=length, free_flow_speed=maxspeed, number_of_lanes=lanes, auto_rename=True)
     
     if set_node_capacity:
-        for node in W.NODES:
-            if node.name in added_node_names:
-                max_lanes = max([l.number_of_lanes for l in node.inlinks.values()] + [l.number_of_lanes for l in node.outlinks.values()])
-                node.flow_capacity = max_lanes*0.8*2
-                node.number_of_lanes = max_lanes*2
+        for node in added_nodes.values():
+            max_lanes = max([l.number_of_lanes for l in node.inlinks.values()] + [l.number_of_lanes for l in node.outlinks.values()])
+            node.flow_capacity = max_lanes*0.8*2
+            node.number_of_lanes = max_lanes*2
 
 
 def osm_network_to_World(W, north=None, south=None, east=None, west=None, bbox=None, custom_filter='["highway"~"trunk|primary"]', 
-- 
2.43.0


From 19386a8deffb5337e1a47178278138000aa69145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 069/106] fix: OSMImporter2 ignored downstream links when
 estimating the road type of a link

---
 uxsim/OSMImporter2/OSMImporter2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index f9406b7..46907bb 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -243,7 +243,7 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
                 #estimate the type from connected links
                 from_node = links.at[i, "from_node"]
                 links_upstream = links[links["to_node"] == from_node]
-                to_node = links.at[i, "from_node"]
+                to_node = links.at[i, "to_node"]
                 links_downstream = links[links["from_node"] == to_node]
                 
                 links_connected = list(links_upstream["highway"])+list(links_downstream["highway"])
-- 
2.43.0


From 2a838eff0ed89dace93639e65825d90d1c41009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 070/106] fix: OSMImporter2 without simplification imported
 each two-way road twice

---
 uxsim/OSMImporter2/OSMImporter2.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 46907bb..affa386 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -67,6 +67,15 @@ def _obtain_simplify_osm_by_osmnx_neatnet(bbox, custom_filter, simplification, k
         simplified_links = neatnet.neatify(ox.graph_to_gdfs(G_projected)[1], **kwargs_dict_for_neatnet_neatify)
     else:
         simplified_links = ox.graph_to_gdfs(G_projected)[1]
+        #OSMnx has a pair of links for each two-way road; only one of them is needed as the reverse link will be added later
+        known = set()
+        keep = []
+        for geometry, oneway in zip(simplified_links.geometry, simplified_links["oneway"]):
+            coords = tuple(geometry.coords)
+            keep.append(bool(oneway) or coords[::-1] not in known)
+            if not oneway:
+                known.add(coords)
+        simplified_links = simplified_links[keep]
     
     return simplified_links
 
-- 
2.43.0


From cdb847de66d5e7fefd3c7fdfd20dca633f952fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 071/106] fix: OSMImporter2 failed if no link of the map has a
 certain attribute

---
 uxsim/OSMImporter2/OSMImporter2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index affa386..70850e4 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -225,6 +225,10 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
     for key in lanes_by_road_type:
         lanes_dict[key] = lanes_by_road_type[key]
 
+    for col in ["name", "highway", "maxspeed", "lanes"]:
+        if col not in links.columns: #no link has this attribute
+            links[col] = None
+
     added_nodes = {}
     for i in nodes.index:
         x = nodes.at[i, "x"]
-- 
2.43.0


From 40ae33b38c26968eac8a749ee7e026d44d03d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 072/106] fix: OSMImporter2 halved lanes_by_road_type of
 'others' on two-way roads

---
 uxsim/OSMImporter2/OSMImporter2.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 70850e4..f219671 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -309,11 +309,10 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
                 lanes = lanes_dict["others"]
                 for key in lanes_dict:
                     if key in highway_type:
-                        if oneway:
-                            lanes = lanes_dict[key]
-                        else:
-                            lanes = lanes_dict[key]*2
+                        lanes = lanes_dict[key]
                         break
+                if not oneway:
+                    lanes = lanes*2
         except Exception as e:
             lanes = lanes_dict["others"]
             warnings.warn(f"Link {name} - Could not parse number of lane: {links.at[i, 'lanes']}, due to '{e}' error. Using default value of {lanes_dict['others']}", UserWarning)
-- 
2.43.0


From e1388e3a4543a8e982b37bdcbe45c6a13d9d2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 073/106] fix: OSMImporter never used the default lanes and
 speed of motorways

---
 uxsim/OSMImporter/OSMImporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 2a76564..53149de 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -125,7 +125,7 @@ class OSMImporter:
                     lanes = int(ed["lanes"])
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             lanes = default_number_of_lanes_mortorway
                         elif "trunk" in road_type:
                             lanes = default_number_of_lanes_trunk
@@ -147,7 +147,7 @@ class OSMImporter:
                     maxspeed = float(ed["maxspeed"])/3.6
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             maxspeed = default_maxspeed_mortorway/3.6
                         elif "trunk" in road_type:
                             maxspeed = default_maxspeed_trunk/3.6
-- 
2.43.0


From 50cc51b612234482b30c81b652cb834341edce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 074/106] fix: OSMImporter imported the first of parallel roads
 several times instead of each of them

---
 uxsim/OSMImporter/OSMImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 53149de..b5fcda8 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -106,7 +106,7 @@ class OSMImporter:
         links = []
         nodes = {}
         for e in G.edges:
-            ed = G.get_edge_data(e[0], e[1])[0]
+            ed = G.get_edge_data(e[0], e[1])[e[2]]
             
             if "highway" in ed:
                 road_type = ed["highway"]
-- 
2.43.0


From 9abaaf593ab81c3c4aa3024d0a66049df424230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 075/106] fix: OSMImporter connected links to other nodes of
 the same name already in the World

---
 uxsim/OSMImporter/OSMImporter.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index b5fcda8..7af150c 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -353,13 +353,8 @@ class OSMImporter:
         coef_degree_to_meter: float
             The coefficient to convert lon/lat degree to meter. Default is 111000.
         """
-        for i, node in enumerate(nodes):
-            nname = str(node[0])
-            if nname in [n.name for n in W.NODES]:
-                nname + f"_osm{i}"
-            W.addNode(str(node[0]), x=node[1], y=node[2], auto_rename=True)
-        for i, link in enumerate(links):
-            lname = str(link[0])
-            if lname in [l.name for l in W.LINKS]:
-                lname + f"_osm{i}"
-            W.addLink(lname, str(link[1]), str(link[2]), length=link[5]*coef_degree_to_meter, free_flow_speed=link[4], jam_density_per_lane=default_jam_density, number_of_lanes=link[3], auto_rename=True)
\ No newline at end of file
+        added_nodes = {}
+        for node in nodes:
+            added_nodes[node[0]] = W.addNode(str(node[0]), x=node[1], y=node[2], auto_rename=True) #may be renamed
+        for link in links:
+            W.addLink(str(link[0]), added_nodes[link[1]], added_nodes[link[2]], length=link[5]*coef_degree_to_meter, free_flow_speed=link[4], jam_density_per_lane=default_jam_density, number_of_lanes=link[3], auto_rename=True)
-- 
2.43.0


From 240c0f1b31f711d843f31ab40b0ca36b73aee059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 076/106] fix: OSMImporter2 did not estimate missing road types
 with pandas 3

---
 uxsim/OSMImporter2/OSMImporter2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index f219671..70a4dc3 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -252,7 +252,7 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
         
         highway_type = links.at[i, "highway"]
         try:
-            if highway_type == None:
+            if not isinstance(highway_type, (str, list)): #missing: None or NaN depending on the pandas version
                 #estimate the type from connected links
                 from_node = links.at[i, "from_node"]
                 links_upstream = links[links["to_node"] == from_node]
@@ -260,7 +260,7 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
                 links_downstream = links[links["from_node"] == to_node]
                 
                 links_connected = list(links_upstream["highway"])+list(links_downstream["highway"])
-                links_connected_filtered = [l for l in links_connected if l != None]
+                links_connected_filtered = [l for l in links_connected if isinstance(l, str)]
 
                 if len(links_connected_filtered):
                     assumed_type = Counter(links_connected_filtered).most_common(1)[0][0]
-- 
2.43.0


From 1b9be60a1d2c61aea520845369c7a6dc1a027c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 077/106] fix: cumulative_curves failed for a link specified by
 its name

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index f776c79..18bea92 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -577,7 +577,7 @@ class Analyzer:
         try:
             iter(links)
             if type(links) == str:
-                flag_single = 1
+                links = [links]
         except TypeError:
             links = [links]
 
-- 
2.43.0


From 83b256abc9639300eca158e71644bdda0eaee592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 078/106] fix: cumulative_curves failed for unfinished
 simulations and fractional or non-dividing timesteps

---
 uxsim/analyzer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 18bea92..e6892da 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -588,11 +588,12 @@ class Analyzer:
             plt.title(link)
             ax2 = ax1.twinx()
 
-            ax1.plot(range(0, s.W.TMAX, s.W.DELTAT), link.cum_arrival, "r-", label="arrival")
-            ax1.plot(range(0, s.W.TMAX, s.W.DELTAT), link.cum_departure, "b-", label="departure")
+            ts = [i*s.W.DELTAT for i in lange(link.cum_arrival)] #executed timesteps
+            ax1.plot(ts, link.cum_arrival, "r-", label="arrival")
+            ax1.plot(ts, link.cum_departure, "b-", label="departure")
 
-            ax2.plot(range(0, s.W.TMAX, s.W.DELTAT), link.traveltime_instant, ".", c="gray", ms=0.5, label="instantaneous")
-            ax2.plot(range(0, s.W.TMAX, s.W.DELTAT), link.traveltime_actual, "k.", ms=1, label="actual")
+            ax2.plot(ts, link.traveltime_instant[:len(ts)], ".", c="gray", ms=0.5, label="instantaneous")
+            ax2.plot(ts, link.traveltime_actual[:len(ts)], "k.", ms=1, label="actual")
 
             ax1.set_ylim(ymin=0)
             ax2.set_ylim(ymin=0)
-- 
2.43.0


From f41e9d99eafea162aa52b6ae5203d50e156d7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 079/106] fix: macroscopic_fundamental_diagram failed for a
 single link

---
 uxsim/analyzer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index e6892da..2404c28 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1477,6 +1477,12 @@ class Analyzer:
 
         if links == None:
             links = s.W.LINKS
+        try:
+            iter(links)
+            if type(links) == str:
+                links = [links]
+        except TypeError:
+            links = [links]
         links = [s.W.get_link(link) for link in links]
         links = frozenset(links)
         s.compute_mfd(links)
-- 
2.43.0


From b7151130205dde0e90738edb36a1a4f5fd6b9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 080/106] fix: network maps showed the timestep before the
 specified one due to rounding errors

---
 uxsim/analyzer.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 2404c28..b62f4f7 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -684,8 +684,8 @@ class Analyzer:
                 for i in range(xsize):
                     if state_variables == "density_speed":
                         try:
-                            k = l.k_mat[int(t/l.edie_dt), i+1]
-                            v = l.v_mat[int(t/l.edie_dt), i+1]
+                            k = l.k_mat[int(t/l.edie_dt+1e-9), i+1]
+                            v = l.v_mat[int(t/l.edie_dt+1e-9), i+1]
                         except:
                             warnings.warn(f"invalid time {t} is specified for network visualization", UserWarning)
                             return -1
@@ -693,8 +693,8 @@ class Analyzer:
                         c[i] = plt.colormaps["viridis"](v/l.u)
                     else: #"flow_delay" mode
                         try:
-                            q = l.q_mat[int(t/l.edie_dt), i+1]
-                            v = l.v_mat[int(t/l.edie_dt), i+1]
+                            q = l.q_mat[int(t/l.edie_dt+1e-9), i+1]
+                            v = l.v_mat[int(t/l.edie_dt+1e-9), i+1]
                         except:
                             warnings.warn(f"invalid time {t} is specified for network visualization", UserWarning)
                             return -1
@@ -720,13 +720,13 @@ class Analyzer:
             else:
                 #簡略モード
                 if state_variables == "density_speed":
-                    k = (l.cum_arrival[int(t/s.W.DELTAT)]-l.cum_departure[int(t/s.W.DELTAT)])/l.length
-                    v = l.length/l.traveltime_instant[int(t/s.W.DELTAT)]
+                    k = (l.cum_arrival[int(t/s.W.DELTAT+1e-9)]-l.cum_departure[int(t/s.W.DELTAT+1e-9)])/l.length
+                    v = l.length/l.traveltime_instant[int(t/s.W.DELTAT+1e-9)]
                     width = k*l.delta*(maxwidth*l.number_of_lanes-minwidth)+minwidth
                     c = plt.colormaps["viridis"](v/l.u)
                 else: #"flow_delay" mode
-                    k = (l.cum_arrival[int(t/s.W.DELTAT)]-l.cum_departure[int(t/s.W.DELTAT)])/l.length
-                    v = l.length/l.traveltime_instant[int(t/s.W.DELTAT)]
+                    k = (l.cum_arrival[int(t/s.W.DELTAT+1e-9)]-l.cum_departure[int(t/s.W.DELTAT+1e-9)])/l.length
+                    v = l.length/l.traveltime_instant[int(t/s.W.DELTAT+1e-9)]
                     q = k*v
                     width = q/l.capacity*(maxwidth*l.number_of_lanes-minwidth)+minwidth
                     pace_ratio = l.u/v
@@ -1036,13 +1036,13 @@ class Analyzer:
             if not left_handed:
                 vx, vy = -vx, -vy
             if state_variables == "density_speed":
-                k = (l.cum_arrival[int(t/s.W.DELTAT)]-l.cum_departure[int(t/s.W.DELTAT)])/l.length
-                v = l.length/l.traveltime_instant[int(t/s.W.DELTAT)]
+                k = (l.cum_arrival[int(t/s.W.DELTAT+1e-9)]-l.cum_departure[int(t/s.W.DELTAT+1e-9)])/l.length
+                v = l.length/l.traveltime_instant[int(t/s.W.DELTAT+1e-9)]
                 width = k*l.delta*(maxwidth-minwidth)+minwidth
                 c = plt.colormaps["viridis"](v/l.u)
             elif state_variables == "density_flow":
-                k = (l.cum_arrival[int(t/s.W.DELTAT)]-l.cum_departure[int(t/s.W.DELTAT)])/l.length
-                v = l.length/l.traveltime_instant[int(t/s.W.DELTAT)]
+                k = (l.cum_arrival[int(t/s.W.DELTAT+1e-9)]-l.cum_departure[int(t/s.W.DELTAT+1e-9)])/l.length
+                v = l.length/l.traveltime_instant[int(t/s.W.DELTAT+1e-9)]
                 width = k*l.delta*(maxwidth-minwidth)+minwidth
                 q = k*v/l.capacity
                 if q < 0:
@@ -1051,8 +1051,8 @@ class Analyzer:
                     q = 1
                 c = plt.colormaps["magma"](q)
             else: #"flow_delay" mode
-                k = (l.cum_arrival[int(t/s.W.DELTAT)]-l.cum_departure[int(t/s.W.DELTAT)])/l.length
-                v = l.length/l.traveltime_instant[int(t/s.W.DELTAT)]
+                k = (l.cum_arrival[int(t/s.W.DELTAT+1e-9)]-l.cum_departure[int(t/s.W.DELTAT+1e-9)])/l.length
+                v = l.length/l.traveltime_instant[int(t/s.W.DELTAT+1e-9)]
                 q = k*v
                 width = q/l.capacity*(maxwidth-minwidth)+minwidth
 
-- 
2.43.0


From 004ba52000f3ace609fdb0f14f4f5b2e097a8c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 081/106] fix: network_pillow and network_fancy failed for
 networks with all nodes on a vertical line

---
 uxsim/analyzer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index b62f4f7..8cdb120 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -997,10 +997,11 @@ class Analyzer:
         miny = min([n.y for n in s.W.NODES])
 
         scale = 2
+        span = maxx-minx if maxx > minx else maxy-miny #all nodes may be on a vertical line
         try:
-            coef = figsize*100*scale/(maxx-minx)
+            coef = figsize*100*scale/span
         except:
-            coef = figsize[0]*100*scale/(maxx-minx)
+            coef = figsize[0]*100*scale/span
         maxx *= coef
         minx *= coef
         maxy *= coef
@@ -1008,7 +1009,7 @@ class Analyzer:
         minwidth *= scale
         maxwidth *= scale
 
-        buffer = (maxx-minx)/10
+        buffer = span*coef/10
         maxx += buffer
         minx -= buffer
         maxy += buffer
@@ -1357,16 +1358,17 @@ class Analyzer:
             scale = 2
         else:
             scale = 1
+        span = maxx-minx if maxx > minx else maxy-miny #all nodes may be on a vertical line
         try:
-            coef = figsize*100*scale/(maxx-minx)
+            coef = figsize*100*scale/span
         except:
-            coef = figsize[0]*100*scale/(maxx-minx)
+            coef = figsize[0]*100*scale/span
         maxx *= coef
         minx *= coef
         maxy *= coef
         miny *= coef
 
-        buffer = (maxx-minx)/10
+        buffer = span*coef/10
         maxx += buffer
         minx -= buffer
         maxy += buffer
-- 
2.43.0


From 2ee6e4725b10c1688ec77a8478cd7b1d485500be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 082/106] fix: network_anim failed for unfinished simulations
 and fractional timesteps, and lacked the last frames

---
 uxsim/analyzer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 8cdb120..da50f07 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1229,14 +1229,16 @@ class Analyzer:
         """
         s.W.print(" generating animation...")
         pics = []
-        for t in tqdm(range(0, s.W.TMAX, s.W.DELTAT*timestep_skip), disable=(s.W.print_mode==0)):
-            if int(t/s.W.LINKS[0].edie_dt) < s.W.LINKS[0].k_mat.shape[0]:
+        s.compute_edie_state()
+        for i in tqdm(range(0, len(s.W.LINKS[0].cum_arrival), timestep_skip), disable=(s.W.print_mode==0)): #executed timesteps
+            t = i*s.W.DELTAT
+            if not detailed or int(t/s.W.LINKS[0].edie_dt+1e-9) < s.W.LINKS[0].k_mat.shape[0]:
                 if detailed:
                     #todo_later: 今後はこちらもpillowにする
-                    s.network(int(t), detailed=detailed, state_variables=state_variables, minwidth=minwidth, maxwidth=maxwidth, left_handed=left_handed, tmp_anim=1, figsize=figsize, node_size=node_size, network_font_size=network_font_size, legend=legend)
+                    s.network(t, detailed=detailed, state_variables=state_variables, minwidth=minwidth, maxwidth=maxwidth, left_handed=left_handed, tmp_anim=1, figsize=figsize, node_size=node_size, network_font_size=network_font_size, legend=legend)
                     pics.append(Image.open(f"out{s.W.name}/tmp_anim_{t}.png"))
                 else:
-                    img_ret = s.network_pillow(int(t), detailed=detailed, state_variables=state_variables, minwidth=minwidth, maxwidth=maxwidth, left_handed=left_handed, tmp_anim=1, figsize=figsize, node_size=node_size, network_font_size=network_font_size, image_return=True, legend=legend)
+                    img_ret = s.network_pillow(t, detailed=detailed, state_variables=state_variables, minwidth=minwidth, maxwidth=maxwidth, left_handed=left_handed, tmp_anim=1, figsize=figsize, node_size=node_size, network_font_size=network_font_size, image_return=True, legend=legend)
                     pics.append(img_ret)
                 
         fname = f"out{s.W.name}/anim_network{detailed}.gif"
-- 
2.43.0


From 1455231e577ea7b78da7b87c4c4940145aa30d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 083/106] fix: network_fancy failed for fractional timesteps
 and vehicles with few positions

---
 uxsim/analyzer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index da50f07..d5fc504 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1290,7 +1290,7 @@ class Analyzer:
         # ベジエ補間
         from scipy.interpolate import make_interp_spline
 
-        #{t: ["xs":[], "ys":[], "v": v, "c":c]}
+        #{timestep: ["xs":[], "ys":[], "v": v, "c":c]}
         draw_dict = ddict(lambda: [])
 
         maxx = max([n.x for n in s.W.NODES])
@@ -1335,7 +1335,7 @@ class Analyzer:
             t = np.linspace(0, 1, len(points))
             interp_size = len(ts)*interval
             t_smooth = np.linspace(0, 1, interp_size)
-            bezier_spline = make_interp_spline(t, points, k=3)
+            bezier_spline = make_interp_spline(t, points, k=min(3, len(points)-1))
             smooth_points = bezier_spline(t_smooth)
             for i in lange(t_smooth):
                 ii = max(0, i-trace_length)
@@ -1343,7 +1343,7 @@ class Analyzer:
                     v = vs[i]
                 else:
                     v = vs[-1]
-                draw_dict[int(ts[0]+i*s.W.DELTAT)].append({
+                draw_dict[round(ts[0]/s.W.DELTAT)+i].append({
                     "xs": smooth_points[ii:i+1, 0],
                     "ys": smooth_points[ii:i+1, 1],
                     "c": veh.color,
@@ -1377,7 +1377,8 @@ class Analyzer:
         miny -= buffer
 
         pics = []
-        for t in tqdm(range(int(s.W.TMAX*0), int(s.W.TMAX*1), s.W.DELTAT*speed_coef)):
+        for timestep in tqdm(range(0, s.W.TSIZE, speed_coef)):
+            t = timestep*s.W.DELTAT
             img = Image.new("RGBA", (int(maxx-minx), int(maxy-miny)), (255, 255, 255, 255))
             draw = ImageDraw.Draw(img)
                 
@@ -1396,7 +1397,7 @@ class Analyzer:
                 if network_font_size > 0:
                     draw.text(((x1+x2)/2, flip((y1+y2)/2)), l.name, font=font, fill="blue", anchor="mm")
 
-            traces = draw_dict[t]
+            traces = draw_dict[timestep]
             for trace in traces:
                 xs = trace["xs"]*coef-minx
                 ys = trace["ys"]*coef-miny
-- 
2.43.0


From 38f138a92ecf54374352ade88831999cac516d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 084/106] fix: network_fancy influenced the rest of a
 simulation by using its random numbers

---
 uxsim/analyzer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index d5fc504..99474ad 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1293,19 +1293,21 @@ class Analyzer:
         #{timestep: ["xs":[], "ys":[], "v": v, "c":c]}
         draw_dict = ddict(lambda: [])
 
+        rng = np.random.default_rng(seed=s.W.random_seed) #must not change the random numbers of the simulation
+
         maxx = max([n.x for n in s.W.NODES])
         minx = min([n.x for n in s.W.NODES])
         dcoef = (maxx-minx)/20
 
         for veh in s.W.VEHICLES.values():
-            if s.W.rng.random() > sample_ratio:
+            if rng.random() > sample_ratio:
                 continue
             ts = []
             xs = []
             ys = []
             vs = []
-            dx = (s.W.rng.random()-0.5)*dcoef
-            dy = (s.W.rng.random()-0.5)*dcoef
+            dx = (rng.random()-0.5)*dcoef
+            dy = (rng.random()-0.5)*dcoef
             for i in range(0, len(veh.log_t), interval):
                 if veh.log_state[i] == "run":
                     link = veh.log_link[i]
-- 
2.43.0


From 0e73715fffd01b53e7d470850bb2ca83b1781d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 085/106] fix: detailed network maps failed if a link consists
 of at most one cell

---
 uxsim/analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 99474ad..64e8b14 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -716,6 +716,8 @@ class Analyzer:
                 for i in range(xsize-1):
                     plt.plot([xmid[i], xmid[i+1]], [ymid[i], ymid[i+1]], c=c[i], lw=lw[i], zorder=6)
                 if network_font_size > 0:
+                    if xsize <= 0:
+                        xmid, ymid = [(x1+x2)/2+vx], [(y1+y2)/2+vy]
                     plt.text(xmid[int(len(xmid)/2)], ymid[int(len(xmid)/2)], l.name, c="b", zorder=20, fontsize=network_font_size)
             else:
                 #簡略モード
-- 
2.43.0


From 6712e6884188b2923007ab98660312c8baa072b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 086/106] fix: result viewer kept the dots of previously
 highlighted vehicles

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index 7488471..3818deb 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -175,6 +175,7 @@ class GraphWidget(QGraphicsView):
         self.setTransformationAnchor(QGraphicsView.AnchorUnderMouse)
 
         self.vehicle_list = vehicle_list
+        self.vehicle_items = []
         self.show_vehicles = True
 
         for node_data in nodes:
@@ -195,6 +196,8 @@ class GraphWidget(QGraphicsView):
         self.set_vehice_items()
 
     def set_vehice_items(self):
+        for vehicle in self.vehicle_items:
+            self.scene().removeItem(vehicle)
         self.vehicle_items = []
         if self.vehicle_list != None:
             for t, edge_name, x in self.vehicle_list:
-- 
2.43.0


From 00a27fcc28dc45b4107c12afd1a9169aa952fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 087/106] fix: result viewer showed all positions of a newly
 highlighted vehicle irrespective of the time

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index 3818deb..eb9d9f3 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -428,6 +428,7 @@ class MainWindow(QMainWindow):
             self.graph_widget.set_vehice_items()
 
             self.graph_widget.set_show_vehicles(True)
+            self.update_graph()
 
 
 class PandasModel(QAbstractTableModel):
-- 
2.43.0


From 2f3e4d36ec0cf41806356473b24f0c3ad634f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 088/106] fix: result viewer left the highlighted vehicle at
 its old place when the link curve direction was changed

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index eb9d9f3..b82c24e 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -405,6 +405,7 @@ class MainWindow(QMainWindow):
     def set_curve_direction(self, direction):
         self.curve_direction = direction
         self.graph_widget.set_curve_direction(direction)
+        self.update_graph()
         
     def toggle_show_names(self):
         self.show_names = not self.show_names
-- 
2.43.0


From 4d91264020495c452c53c740830c1c88139f6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 089/106] fix: result viewer placed highlighted vehicles in a
 wrong time interval for fractional timesteps

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index b82c24e..27b7118 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -423,7 +423,7 @@ class MainWindow(QMainWindow):
                 QMessageBox.warning(self, "Vehicle ID not found", "The specified Vehicle ID was not found.")
                 return
             veh = self.W.VEHICLES[vehicle_id]
-            self.graph_widget.vehicle_list = [(int(veh.log_t[i]/self.dt), veh.log_link[i].name, veh.log_x[i]/veh.log_link[i].length) for i in range(len(veh.log_t)) if veh.log_link[i] != -1]
+            self.graph_widget.vehicle_list = [(int(veh.log_t[i]/self.dt+1e-9), veh.log_link[i].name, veh.log_x[i]/veh.log_link[i].length) for i in range(len(veh.log_t)) if veh.log_link[i] != -1]
             print(veh, self.graph_widget.vehicle_list)
 
             self.graph_widget.set_vehice_items()
-- 
2.43.0


From b0392d35600631ebb98f4a93a6d3cc57941493d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 090/106] fix: result viewer crashed if a link or the
 simulation is shorter than the aggregation interval

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index 27b7118..d330e86 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -57,9 +57,12 @@ class EdgeItem(QGraphicsItem):
 
     def paint(self, painter, option, widget):
         path = self.shape()
-        length = path.length()
         num_segments = self.density_list.shape[1]
-        segment_length = length / num_segments
+        if self.t >= self.density_list.shape[0]:
+            num_segments = 0 #no aggregated state is available
+        if num_segments == 0:
+            painter.setPen(QPen(Qt.gray, 0.5))
+            painter.drawPath(path)
         maxlw = 10
         minlw = 0.5
 
@@ -487,7 +490,7 @@ def launch_World_viewer(W, return_app_window=False):
     W.show_mode = 1
     W.save_mode = 1
     W.analyzer.compute_edie_state()
-    tmax = W.LINKS[0].q_mat.shape[0]
+    tmax = max(W.LINKS[0].q_mat.shape[0], 1)
     nodes = [[n.name, n.x, n.y, n] for n in W.NODES]
     minx = 0
     maxx = 0
-- 
2.43.0


From 50d5a926bb8b86773fe93e40b09e15328bc3fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 091/106] fix: change_print_mode did not affect the progress
 output in C++ mode

---
 uxsim/trafficpp/bindings.cpp | 1 +
 uxsim/uxsim_cpp_wrapper.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/uxsim/trafficpp/bindings.cpp b/uxsim/trafficpp/bindings.cpp
index ed4f075..d9a2dee 100644
--- a/uxsim/trafficpp/bindings.cpp
+++ b/uxsim/trafficpp/bindings.cpp
@@ -536,6 +536,7 @@ NB_MODULE(uxsim_cpp, m) {
         .def_ro("TMAX", &World::t_max)
         .def_ro("name", &World::name)
         .def_ro("deltan", &World::delta_n)
+        .def_rw("print_mode", &World::print_mode)
         .def_rw("show_progress", &World::show_progress)
         .def_rw("show_progress_deltat_timestep", &World::show_progress_deltat_timestep)
         .def_rw("hard_deterministic_mode", &World::hard_deterministic_mode)
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 75bdfec..1e63136 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1567,6 +1567,7 @@ class CppWorld:
     def change_print_mode(self, print_mode):
         self.print_mode = print_mode
         self.print = print if print_mode else (lambda *a, **k: None)
+        self._cpp_world.print_mode = int(bool(print_mode))
 
     @catch_exceptions_and_warn()
     def show_network(self, width=1, left_handed=1, figsize=(6, 6), network_font_size=10, node_size=6, show_id=True):
-- 
2.43.0


From 1e042cd6bdee87a1ff2b6bd392599f855d0335e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 092/106] fix: progress was printed too often for fractional
 timesteps

---
 uxsim/uxsim.py             | 2 +-
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 13d3b43..ed5ff03 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1823,7 +1823,7 @@ class World:
 
         ## progress print setting
         W.show_progress = show_progress
-        W.show_progress_deltat_timestep = max(1, int(show_progress_deltat/W.DELTAT))
+        W.show_progress_deltat_timestep = max(1, int(show_progress_deltat/W.DELTAT + 1e-9))
 
         ## memory setting
         W.reduce_memory_delete_vehicle_route_pref = reduce_memory_delete_vehicle_route_pref
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 1e63136..f8c7674 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -902,7 +902,7 @@ class CppWorld:
         self.instantaneous_TT_timestep_interval = min(int(instantaneous_TT_timestep_interval), self.DELTAT_ROUTE)
         self.route_pref_for_vehs = None
         self.show_progress = show_progress
-        self.show_progress_deltat_timestep = max(1, int(show_progress_deltat / self.DELTAT))
+        self.show_progress_deltat_timestep = max(1, int(show_progress_deltat / self.DELTAT + 1e-9))
         self.reduce_memory_delete_vehicle_route_pref = reduce_memory_delete_vehicle_route_pref
         self.name = name
         self.hard_deterministic_mode = hard_deterministic_mode
-- 
2.43.0


From faad9b5194528501730983a72b4e3ad77ac7a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 093/106] fix: print_stats of TaxiHandler failed without taxis

---
 uxsim/TaxiHandler/TaxiHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 4c7b264..2b6ab3b 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -211,7 +211,7 @@ class TaxiHandler:
         print(f" total trip requests: {s.n_total_requests}")
         print(f" completed trip requests: {s.n_completed_requests}")
         print(f" completed trip requests ratio: {s.n_completed_requests/s.n_total_requests if s.n_total_requests > 0 else 0: .2f}")
-        print(f" average number of completed requests per taxi: {s.n_completed_requests/s.number_of_taxis: .2f}")
+        print(f" average number of completed requests per taxi: {s.n_completed_requests/s.number_of_taxis if s.number_of_taxis > 0 else 0: .2f}")
         print(f" average waiting time: {sum(s.waiting_times)/len(s.waiting_times) if len(s.waiting_times) > 0 else 0: .1f}")
         print(f" average in-vehicle time: {sum(s.invehicle_times)/len(s.invehicle_times) if len(s.invehicle_times) > 0 else 0: .1f}")
         print(f" average trip time: {sum(s.travel_times)/len(s.travel_times) if len(s.travel_times) > 0 else 0: .1f}")
-- 
2.43.0


From 6c64d95ac7ac3de5cdbf90c01177877614cd60d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 094/106] fix: calling solve() of the DTA solvers again mixed
 in results of the previous call or crashed

---
 uxsim/DTAsolvers/DTAsolvers.py             | 4 ++++
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 8874468..8ea664a 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -144,6 +144,7 @@ class SolverDUE:
             print(f"number of OD pairs: {len(dict_od_to_routes.keys())}, number of routes: {sum([len(val) for val in dict_od_to_routes.values()])}")
 
         # day-to-day dynamics
+        s.dfs_link = []
         s.ttts = []
         s.n_swaps = []
         s.potential_swaps = []
@@ -497,6 +498,8 @@ class SolverDSO_D2D:
             print(f"number of OD pairs: {len(dict_od_to_routes.keys())}, number of routes: {sum([len(val) for val in dict_od_to_routes.values()])}")
 
         # day-to-day dynamics
+        s.W_intermid_solution = None
+        s.dfs_link = []
         s.ttts = []
         s.n_swaps = []
         s.potential_swaps = []
@@ -934,6 +937,7 @@ class SolverDSO_GA:
             actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
             genome_maxs.append(actual_n_route)
         
+        s.dfs_link = []
         s.ttts = []
         s.route_log = []
         s.cost_log = []
diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index d375113..d4003c5 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -293,6 +293,7 @@ class CppSolverDUE(SolverDUE):
         if print_progress:
             print(f"number of OD pairs: {od_route_store.n_od_pairs}, number of routes: {od_route_store.n_routes}")
 
+        s.dfs_link = []
         s.ttts = []
         s.n_swaps = []
         s.potential_swaps = []
@@ -412,6 +413,8 @@ class CppSolverDSO_D2D(SolverDSO_D2D):
         if print_progress:
             print(f"number of OD pairs: {od_route_store.n_od_pairs}, number of routes: {od_route_store.n_routes}")
 
+        s.W_intermid_solution = None
+        s.dfs_link = []
         s.ttts = []
         s.n_swaps = []
         s.potential_swaps = []
-- 
2.43.0


From a88bc5667d1d2082a667fb2f0990653692124540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 095/106] fix: SolverDUE summarized the "last 0 iters" for less
 than 4 iterations

---
 uxsim/DTAsolvers/DTAsolvers.py             | 2 +-
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 8ea664a..831f198 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -256,7 +256,7 @@ class SolverDUE:
         s.end_time = time.time()
 
         print("DUE summary:")
-        last_iters = int(max_iter/4)
+        last_iters = max(1, int(max_iter/4))
         print(f" total travel time: initial {s.ttts[0]:.1f} -> average of last {last_iters} iters {np.average(s.ttts[-last_iters:]):.1f}")
         print(f" number of potential route changes: initial {s.potential_swaps[0]:.1f} -> average of last {last_iters} iters {np.average(s.potential_swaps[-last_iters:]):.1f}")
         print(f" route travel cost gap: initial {s.t_gaps[0]:.1f} -> average of last {last_iters} iters {np.average(s.t_gaps[-last_iters:]):.1f}")
diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index d4003c5..72d31a5 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -356,7 +356,7 @@ class CppSolverDUE(SolverDUE):
         s.end_time = time.time()
 
         print("DUE summary:")
-        last_iters = int(max_iter / 4)
+        last_iters = max(1, int(max_iter / 4))
         print(f" total travel time: initial {s.ttts[0]:.1f} -> average of last {last_iters} iters {np.average(s.ttts[-last_iters:]):.1f}")
         print(f" number of potential route changes: initial {s.potential_swaps[0]:.1f} -> average of last {last_iters} iters {np.average(s.potential_swaps[-last_iters:]):.1f}")
         print(f" route travel cost gap: initial {s.t_gaps[0]:.1f} -> average of last {last_iters} iters {np.average(s.t_gaps[-last_iters:]):.1f}")
-- 
2.43.0


From f6c76029d1d90f8182a62a5b22a5387ff50ac3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 096/106] fix: plot_vehicle_stats of SolverDSO_GA and
 SolverDSO_ALNS failed if some vehicles did not finish their trips

---
 uxsim/DTAsolvers/DTAsolvers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 831f198..d804df3 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1106,10 +1106,12 @@ class SolverDSO_GA:
         ave_TT = []
         std_TT = []
         depature_time = []
-        for vehid in s.route_log[0].keys():
+        for vehid in s.W_sol.VEHICLES:
             if (s.W_sol.VEHICLES[vehid].orig.name == orig or orig == None) and (s.W_sol.VEHICLES[vehid].dest.name == dest or dest == None):
                 length = len(s.route_log)
-                ts = [s.cost_log[day][vehid] for day in range(int(length/2), length)]
+                ts = [s.cost_log[day][vehid] for day in range(int(length/2), length) if vehid in s.cost_log[day]]
+                if len(ts) == 0:    # this vehicle has not finished its trip
+                    continue
                 ave_TT.append(np.average(ts))
                 std_TT.append(np.std(ts))
                 depature_time.append(s.W_sol.VEHICLES[vehid].departure_time_in_second)
@@ -1431,10 +1433,12 @@ class SolverDSO_ALNS:
         ave_TT = []
         std_TT = []
         depature_time = []
-        for vehid in s.route_log[0].keys():
+        for vehid in s.W_sol.VEHICLES:
             if (s.W_sol.VEHICLES[vehid].orig.name == orig or orig == None) and (s.W_sol.VEHICLES[vehid].dest.name == dest or dest == None):
                 length = len(s.route_log)
-                ts = [s.cost_log[day][vehid] for day in range(int(length/2), length)]
+                ts = [s.cost_log[day][vehid] for day in range(int(length/2), length) if vehid in s.cost_log[day]]
+                if len(ts) == 0:    # this vehicle has not finished its trip
+                    continue
                 ave_TT.append(np.average(ts))
                 std_TT.append(np.std(ts))
                 depature_time.append(s.W_sol.VEHICLES[vehid].departure_time_in_second)
-- 
2.43.0


From 17744f030e06a1391dfe6cfdaaeab16c48a89cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 097/106] fix: override_signal with invalid groups changed the
 signal plan before raising the error

---
 uxsim/uxsim.py             | 23 ++++++++++++-----------
 uxsim/uxsim_cpp_wrapper.py | 21 +++++++++++----------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index ed5ff03..5609043 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -165,18 +165,10 @@ class Node:
         signal_offset_old : float, optional
             Previous (wrong) signal offset in seconds. When specified, the new offset is calculated relative to the new cycle length. Kept for backward compatibility.
         """
-        s.signal = signal
-        s.cycle_length = sum(s.signal)
-        s.signal_offset = signal_offset
-        if reset or s.signal_phase >= len(s.signal): #the current phase may not exist in the new signal plan
-            s.signal_phase = 0
-            s.signal_t = 0
-        if signal_offset_old != None:
-            s.signal_offset = s.cycle_length-signal_offset_old
-
+        #validate before changing anything
         if groups is None:
-            return None
-        
+            groups = [[]]*len(signal)
+
         if len(groups) != len(signal):
             raise ValueError("The length of `group` must match the length of `signal`.")
         
@@ -188,6 +180,15 @@ class Node:
                     raise ValueError(f"Link {l.name} is not an incoming link of node {s.name}.")
                 phase_info[l].append(i)
 
+        s.signal = signal
+        s.cycle_length = sum(s.signal)
+        s.signal_offset = signal_offset
+        if reset or s.signal_phase >= len(s.signal): #the current phase may not exist in the new signal plan
+            s.signal_phase = 0
+            s.signal_t = 0
+        if signal_offset_old != None:
+            s.signal_offset = s.cycle_length-signal_offset_old
+
         for key in phase_info:
             key.signal_group = phase_info[key]
 
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f8c7674..7ea2a70 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -155,17 +155,9 @@ class CppNode:
         signal_offset_old : float, optional
             Previous (wrong) signal offset in seconds. When specified, the new offset is calculated relative to the new cycle length. Kept for backward compatibility.
         """
-        self.signal = signal
-        self.signal_offset = signal_offset
-        if reset:
-            self._cpp_node.signal_phase = 0
-            self._cpp_node.signal_t = 0
-        if signal_offset_old != None:
-            self.signal_offset = self.cycle_length - signal_offset_old
-        self._cpp_node.signal_offset = float(self.signal_offset)
-
+        #validate before changing anything
         if groups is None:
-            return None
+            groups = [[]]*len(signal)
 
         if len(groups) != len(signal):
             raise ValueError("The length of `group` must match the length of `signal`.")
@@ -178,6 +170,15 @@ class CppNode:
                     raise ValueError(f"Link {l.name} is not an incoming link of node {self.name}.")
                 phase_info[l].append(i)
 
+        self.signal = signal
+        self.signal_offset = signal_offset
+        if reset:
+            self._cpp_node.signal_phase = 0
+            self._cpp_node.signal_t = 0
+        if signal_offset_old != None:
+            self.signal_offset = self.cycle_length - signal_offset_old
+        self._cpp_node.signal_offset = float(self.signal_offset)
+
         for key in phase_info:
             key.signal_group = phase_info[key]
 
-- 
2.43.0


From 6d707ae90ba744f92ac8362a04f50217a41fda48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 098/106] fix: C++ mode accepted non-integer number_of_lanes,
 and left invalid links that raise errors in Python mode in the World

---
 uxsim/uxsim_cpp_wrapper.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 7ea2a70..78a5295 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -207,6 +207,12 @@ class CppLink:
         self.start_node = self.W.get_node(start_node)
         self.end_node = self.W.get_node(end_node)
         self.number_of_lanes = int(number_of_lanes)
+        if self.number_of_lanes != number_of_lanes:
+            raise ValueError(f"number_of_lanes must be an integer. Got {number_of_lanes} at Link {name}.")
+        # zeros raise ZeroDivisionError in Python mode
+        kappa = jam_density if jam_density_per_lane is None else jam_density_per_lane * number_of_lanes
+        if free_flow_speed == 0 or kappa == 0 or self.number_of_lanes == 0:
+            raise ZeroDivisionError(f"free_flow_speed, jam_density, and number_of_lanes must not be zero at Link {name}.")
 
         # ID and name registration
         self.id = len(self.W.LINKS)
@@ -228,10 +234,7 @@ class CppLink:
         self.user_attribute = user_attribute
         self.user_function = user_function
 
-        # Forward to C++ — compute kappa from jam_density_per_lane if needed
-        kappa = jam_density
-        if jam_density_per_lane is not None:
-            kappa = jam_density_per_lane * number_of_lanes
+        # Forward to C++
         cpp_capacity_out = capacity_out if capacity_out is not None else -1
         cpp_capacity_in = capacity_in if capacity_in is not None else -1
         cpp_signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
-- 
2.43.0


From ee48c1794a39948f5fed3830422f69b684e4639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 099/106] fix: change_jam_density(0) left a link half-changed,
 and C++ mode ignored invalid changes of link parameters silently or accepted
 them

---
 uxsim/uxsim.py             | 2 ++
 uxsim/uxsim_cpp_wrapper.py | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 5609043..b2f49b4 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -968,6 +968,8 @@ class Link:
             warnings.warn(f"ignored negative free_flow_speed at {s}", UserWarning)
 
     def change_jam_density(s, new_value):
+        if new_value == 0: #refuse before changing anything
+            raise ZeroDivisionError(f"jam_density must not be zero at {s}")
         if new_value >= 0:
             s.jam_density = new_value
             s.kappa = new_value
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 78a5295..6972679 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -510,11 +510,19 @@ class CppLink:
 
     def change_free_flow_speed(self, new_value):
         """Forward to C++ Link.change_free_flow_speed()."""
+        if not new_value >= 0:
+            warnings.warn(f"ignored negative free_flow_speed at {self}", UserWarning)
+            return
         self._cpp_link.change_free_flow_speed(float(new_value))
         self._read_from_cpp()
 
     def change_jam_density(self, new_value):
         """Forward to C++ Link.change_jam_density()."""
+        if new_value == 0: # as in Python mode
+            raise ZeroDivisionError(f"jam_density must not be zero at {self}")
+        if not new_value >= 0:
+            warnings.warn(f"ignored negative jam_density at {self}", UserWarning)
+            return
         self._cpp_link.change_jam_density(float(new_value))
         self._read_from_cpp()
 
-- 
2.43.0


From 242fd4a366176ebd36014c782564ec3084a59664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 100/106] fix: refused addVehicle consumed random numbers and
 changed the following simulation

---
 uxsim/uxsim.py             | 7 +++----
 uxsim/uxsim_cpp_wrapper.py | 8 ++++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index b2f49b4..8ff22ac 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1116,6 +1116,8 @@ class Vehicle:
         s.log_s = [] #車頭距離
         s.log_v = [] #現在速度
         s.log_lane = [] #車線
+        if not auto_rename and (name if name != None else str(len(s.W.VEHICLES))) in s.W.VEHICLES.keys(): #refuse before drawing random numbers
+            raise ValueError(f"Vehicle name {name if name != None else len(s.W.VEHICLES)} already used by another vehicle. Please specify a unique name.")
         s.color = (s.W.rng.random(), s.W.rng.random(), s.W.rng.random())
 
         s.log_t_link : list[tuple[int,str|Link]] = [[s.departure_time*s.W.DELTAT, "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
@@ -1133,10 +1135,7 @@ class Vehicle:
         else:
             s.name = str(s.id)
         if s.name in s.W.VEHICLES.keys():
-            if auto_rename:
-                s.name = s.name+"_renamed"+"".join(s.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
-            else:
-                raise ValueError(f"Vehicle name {s.name} already used by another vehicle. Please specify a unique name.")
+            s.name = s.name+"_renamed"+"".join(s.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
         s.W.VEHICLES[s.name] = s
         s.W.VEHICLES_LIVING[s.name] = s
 
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6972679..8cf4b5e 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1018,6 +1018,10 @@ class CppWorld:
         t_start = (ts + 0.5 if ts >= 0 else ts - 0.5) * self.DELTAT
         t_end = t_start + self.DELTAT
 
+        # Resolve links_prefer to C++ link name strings
+        cpp_links_pref = [self.get_link(l).name for l in kwargs.get('links_prefer', [])]
+        links_avoid = [self.get_link(l) for l in kwargs.get('links_avoid', [])]
+
         # Validate vehicle name before creating the C++ vehicle
         name = kwargs.get('name')
         if name is None and str(self._cpp_world.vehicle_count) in self.VEHICLES:
@@ -1031,10 +1035,6 @@ class CppWorld:
                 else:
                     raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
 
-        # Resolve links_prefer to C++ link name strings
-        cpp_links_pref = [self.get_link(l).name for l in kwargs.get('links_prefer', [])]
-        links_avoid = [self.get_link(l) for l in kwargs.get('links_avoid', [])]
-
         n_before = self._cpp_world.vehicle_count
         _add_demand(self._cpp_world, orig_name, dest_name,
                    float(t_start), float(t_end), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
-- 
2.43.0


From 7b9fd260b00f9b06d5d80a357fee9e7636c95eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 101/106] fix: C++ mode silently accepted and ignored
 additional destinations of vehicles that are not taxis

---
 uxsim/uxsim_cpp_wrapper.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 8cf4b5e..8922389 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -767,11 +767,8 @@ class CppVehicle:
             pass
 
     def add_dest(self, dest, order=-1):
-        dest = self.W.get_node(dest)
-        if order == -1:
-            self.dest_list.append(dest)
-        else:
-            self.dest_list.insert(order, dest)
+        # there is no taxi in C++ mode
+        raise ValueError(f"Vehicle {self.name} is not in taxi mode. Cannot add destination.")
 
     def add_dests(self, dests):
         for d in dests:
-- 
2.43.0


From ac26919daac18f1a3a5361078bd8c46713eb815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 102/106] fix: demand definitions refused with an error were
 saved by save_scenario, which made the file unloadable

---
 uxsim/scenario_reader_writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index e3956d1..57e0bb2 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -24,6 +24,9 @@ def demand_info_record(func):
         # self引数を除外
         arg_dict = dict(list(bound_args.arguments.items())[1:])
         
+        # 元の関数を呼び出す（例外が発生した場合は保存しない）
+        result = func(self, *args, **kwargs)
+
         # direct_call=Trueが含まれている場合のみ保存
         if arg_dict.get('direct_call') == True:
             
@@ -35,8 +38,7 @@ def demand_info_record(func):
             self.demand_info[func_name].append(arg_dict_to_save)
             self.demand_info["demand_order"].append(func_name) #order of the definitions over all functions
         
-        # 元の関数を呼び出す
-        return func(self, *args, **kwargs)
+        return result
     
     return wrapper
 
-- 
2.43.0


From 985dd36b8fba8392ec98cbe8b033346e8a7b6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 103/106] fix: adddemand_area2area2 and adddemand_nodes2nodes2
 without possible origin-destination pairs consumed random numbers before
 raising the error

---
 uxsim/uxsim.py             | 4 ++++
 uxsim/uxsim_cpp_wrapper.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 8ff22ac..2377fed 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2259,6 +2259,8 @@ class World:
 
         ts = np.linspace(t_start, t_end, size)
         
+        if size > 0 and not any(o != d for o in origs for d in dests): #refuse before drawing random numbers
+            raise ValueError("There is no pair of different origin and destination.")
         os = W.rng.choice(origs, size=size)
         ds = W.rng.choice(dests, size=size)
         
@@ -2314,6 +2316,8 @@ class World:
         dests = dests_new
         ts = np.linspace(t_start, t_end, size)
         
+        if size > 0 and not any(o != d for o in origs for d in dests): #refuse before drawing random numbers
+            raise ValueError("There is no pair of different origin and destination.")
         os = W.rng.choice(origs, size=size)
         ds = W.rng.choice(dests, size=size)
         
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 8922389..6a1efe7 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1115,6 +1115,8 @@ class CppWorld:
             volume = flow * (t_end - t_start)
         size = int(volume / self.DELTAN + 1e-9)
         ts = np.linspace(t_start, t_end, size)
+        if size > 0 and not any(o != d for o in origs for d in dests): #refuse before drawing random numbers
+            raise ValueError("There is no pair of different origin and destination.")
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
@@ -1135,6 +1137,8 @@ class CppWorld:
             volume = flow * (t_end - t_start)
         size = int(volume / self.DELTAN + 1e-9)
         ts = np.linspace(t_start, t_end, size)
+        if size > 0 and not any(o != d for o in origs for d in dests): #refuse before drawing random numbers
+            raise ValueError("There is no pair of different origin and destination.")
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
-- 
2.43.0


From ee81ae2df4c9a14e0d857b577746434e0c818e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 104/106] fix: add_dests with an unknown node added the
 preceding destinations before raising the error

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 2377fed..421cd15 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1426,7 +1426,7 @@ class Vehicle:
         dests : list of str | Node
             The list of destinations to be added.
         """
-        for dest in dests:
+        for dest in [s.W.get_node(dest) for dest in dests]: #validate before changing anything
             s.add_dest(dest)
     
     def traveled_route(s, include_arrival_time=True, include_departure_time=False):
-- 
2.43.0


From dbb417bbbf7a4de6c38e94369689004fbc33bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 105/106] fix: automatic vehicle names taken by user-defined
 names stopped demand generation halfway, which corrupted the World in C++
 mode

---
 uxsim/uxsim.py             | 6 ++++--
 uxsim/uxsim_cpp_wrapper.py | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 421cd15..d015da7 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1116,8 +1116,8 @@ class Vehicle:
         s.log_s = [] #車頭距離
         s.log_v = [] #現在速度
         s.log_lane = [] #車線
-        if not auto_rename and (name if name != None else str(len(s.W.VEHICLES))) in s.W.VEHICLES.keys(): #refuse before drawing random numbers
-            raise ValueError(f"Vehicle name {name if name != None else len(s.W.VEHICLES)} already used by another vehicle. Please specify a unique name.")
+        if name != None and name in s.W.VEHICLES.keys() and not auto_rename: #refuse before drawing random numbers
+            raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
         s.color = (s.W.rng.random(), s.W.rng.random(), s.W.rng.random())
 
         s.log_t_link : list[tuple[int,str|Link]] = [[s.departure_time*s.W.DELTAT, "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
@@ -1134,6 +1134,8 @@ class Vehicle:
             s.name = name
         else:
             s.name = str(s.id)
+            while s.name in s.W.VEHICLES.keys() and not auto_rename: #used as a user-defined name
+                s.name += "_"
         if s.name in s.W.VEHICLES.keys():
             s.name = s.name+"_renamed"+"".join(s.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
         s.W.VEHICLES[s.name] = s
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6a1efe7..5a88a81 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1021,7 +1021,7 @@ class CppWorld:
 
         # Validate vehicle name before creating the C++ vehicle
         name = kwargs.get('name')
-        if name is None and str(self._cpp_world.vehicle_count) in self.VEHICLES:
+        if name is None and kwargs.get('auto_rename', False) and str(self._cpp_world.vehicle_count) in self.VEHICLES:
             name = str(self._cpp_world.vehicle_count)
         if name is not None:
             name = str(name)
@@ -1299,8 +1299,8 @@ class CppWorld:
             i = start_idx + j
             cpp_veh = get_veh(i)
             name = custom_name if custom_name is not None else cpp_veh.name
-            if name in vehicles:
-                raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
+            while name in vehicles: # used as a user-defined name
+                name += "_"
             py_veh = CppVehicle.__new__(CppVehicle)
             py_veh.W = self
             py_veh.name = name
-- 
2.43.0


From 11e0eea35c321a5697456f05b06bfadee9052873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:16 +0000
Subject: [PATCH 106/106] fix: auto_rename of nodes is unsupported in C++ mode
 and refused with an error, as the test suite demands, without leaving a
 broken node

---
 uxsim/uxsim_cpp_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 5a88a81..2a789f8 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -63,8 +63,7 @@ class CppNode:
         self.name = name
         if self.name in self.W.NODES_NAME_DICT:
             if auto_rename:
-                self.name = self.name + "_renamed" + "".join(
-                    self.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
+                raise NotImplementedError("auto_rename of nodes is not supported in C++ mode")
             else:
                 raise ValueError(f"Node name {self.name} already used by another node.")
         self.W.NODES.append(self)
-- 
2.43.0

