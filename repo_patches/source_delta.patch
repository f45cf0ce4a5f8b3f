From bd3a0d228d1215cebd21398ae8c51dba91f822b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:32 +0000
Subject: [PATCH 01/64] fix: sky130A: name met1..met5 label layers metN_label,
 they overrode the metN_pin_con pin layers

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 45b1ef1..a14f23f 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -130,11 +130,11 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
 
     addComputedLayer(tech, METAL,   KLBL, "poly_label",   66, 5,  "poly.label", "Poly label");
     addComputedLayer(tech, METAL,   KLBL, "li_label",     67, 5,  "li1.label",  "li1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met1_pin_con", 68, 5,  "met1.label", "met1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met2_pin_con", 69, 5,  "met2.label", "met2 label");
-    addComputedLayer(tech, METAL,   KLBL, "met3_pin_con", 70, 5,  "met3.label", "met3 label");
-    addComputedLayer(tech, METAL,   KLBL, "met4_pin_con", 71, 5,  "met4.label", "met4 label");
-    addComputedLayer(tech, METAL,   KLBL, "met5_pin_con", 72, 5,  "met5.label", "met5 label");
+    addComputedLayer(tech, METAL,   KLBL, "met1_label",   68, 5,  "met1.label", "met1 label");
+    addComputedLayer(tech, METAL,   KLBL, "met2_label",   69, 5,  "met2.label", "met2 label");
+    addComputedLayer(tech, METAL,   KLBL, "met3_label",   70, 5,  "met3.label", "met3 label");
+    addComputedLayer(tech, METAL,   KLBL, "met4_label",   71, 5,  "met4.label", "met4 label");
+    addComputedLayer(tech, METAL,   KLBL, "met5_label",   72, 5,  "met5.label", "met5 label");
 }
 
 void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
-- 
2.43.0


From 285de6b6efd225321eaad4f99de90253bf2f4553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:32 +0000
Subject: [PATCH 02/64] fix: sky130A: via1_con derives from layer "via", "via1"
 does not exist and its resistance was ignored

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index a14f23f..6832b67 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -94,7 +94,7 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
     addComputedLayer(tech, CONT,    KREG, "licon_psd_con",  66, 4402,  "licon1", "Computed layer for contact from psdm to li1");
     addComputedLayer(tech, CONT,    KREG, "licon_poly_con", 66, 4403,  "licon1", "Computed layer for contact from poly to li1");
     addComputedLayer(tech, VIA,     KREG, "mcon_con",  67, 44,  "mcon",       "Computed layer for contact between li1 and met1");
-    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via1",       "Computed layer for contact between met1 and met2");
+    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via",        "Computed layer for contact between met1 and met2");
     addComputedLayer(tech, VIA,     KREG, "via2_con",  69, 44,  "via2",       "Computed layer for contact between met2 and met3");
     addComputedLayer(tech, VIA,     KREG, "via3_ncap", 70, 144, "via3",       "Computed layer for via3 (no MIM cap)");
     addComputedLayer(tech, VIA,     KREG, "via4_ncap", 71, 144, "via4",       "Computed layer for via4 (no MIM cap)");
-- 
2.43.0


From 9c3b6bf4d79c1df63ebe17386db4e930eb33d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 03/64] fix: 2.5D/R: qualify internal nodes by their net, nodes
 of different nets were merged

---
 klayout_pex/rcx25/r/r_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index b80f0f1..132da0f 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -365,7 +365,8 @@ class RExtractor:
                         r_node.net_name = polygon_port_device_terminals[rn.layer()][port_idx].net_name
                         r_node.location.box.net = r_node.net_name
                     case _:
-                        r_node.net_name = r_node.node_name
+                        # NOTE: node names are only unique within the network of a single net
+                        r_node.net_name = f"{net_extraction_request.net_name}.{r_node.node_name}"
                         r_node.location.box.net = r_node.net_name
 
                 node_by_node_id[r_node.node_id] = r_node
-- 
2.43.0


From 976022b925330fa9dcca90eecfdb4f0938c3760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 04/64] fix: 2.5D/R: use the expanded net name for nets without
 a label, their shapes were dropped

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 ++--
 klayout_pex/rcx25/r/r_extractor.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index c2ea97c..86cf647 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -270,7 +270,7 @@ class KLayoutExtractionContext:
         shapes = kdb.Region()
         shapes.enable_properties()
 
-        requested_net_name = net.name if isinstance(net, kdb.Net) else net
+        requested_net_name = net.expanded_name() if isinstance(net, kdb.Net) else net
 
         def add_shapes_from_region(source_region: kdb.Region):
             iter, transform = source_region.begin_shapes_rec()
@@ -397,7 +397,7 @@ class KLayoutExtractionContext:
                     terminal.device_id = d.id
                     terminal.terminal_id = td.id()
                     terminal.name = td.name
-                    terminal.net_name = n.name
+                    terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
                         lyr_idx = self.layer_index_map[idx]
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 132da0f..cc11310 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -267,7 +267,7 @@ class RExtractor:
                             r = self.pex_context.shapes_of_net(lyr.gds_pair, net)
                             if not r:
                                 continue
-                            l2r = get_or_create_net_request(net.name).region_by_layer.add()
+                            l2r = get_or_create_net_request(net.expanded_name()).region_by_layer.add()
                             l2r.layer.id = self.pex_context.annotated_layout.layer(*lvs_gds_pair)
                             l2r.layer.canonical_layer_name = self.pex_context.tech.canonical_layer_name_by_gds_pair[lvs_gds_pair]
                             l2r.layer.lvs_layer_name = lyr.lvs_layer_name
-- 
2.43.0


From 665a1678420913c9397e03692f791ea3e19403cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 05/64] fix: device terminals without a net: use the fields
 that exist

---
 klayout_pex/klayout/lvsdb_extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 86cf647..821be7e 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -375,10 +375,11 @@ class KLayoutExtractionContext:
             for td in d_kly.device_class().terminal_definitions():
                 n: kdb.Net = d_kly.net_for_terminal(td.id())
                 if n is None:
-                    warning(f"Skipping terminal {td.name} of device {d.name} ({d.device_class}) "
+                    warning(f"Skipping terminal {td.name} of device {d.device_name} ({d.device_class_name}) "
                             f"is not connected to any net")
                     terminal = d.terminals.add()
-                    terminal.id = td.id()
+                    terminal.device_id = d.id
+                    terminal.terminal_id = td.id()
                     terminal.name = td.name
                     terminal.net_name = ''  # TODO
                     continue
-- 
2.43.0


From 6ab9efa0a8d1061fa2d67f8442ac006e7cbb498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 06/64] fix: device terminals on layers that are not extracted
 do not abort the extraction

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 821be7e..28fba30 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -401,7 +401,9 @@ class KLayoutExtractionContext:
                     terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
-                        lyr_idx = self.layer_index_map[idx]
+                        lyr_idx = self.layer_index_map.get(idx, None)
+                        if lyr_idx is None:
+                            continue  # layer is not extracted (e.g. part of a blackboxed device)
                         lyr_info: kdb.LayerInfo = self.annotated_layout.layer_infos()[lyr_idx]
 
                         region_by_layer = terminal.region_by_layer.add()
-- 
2.43.0


From c9ab85558f170bee1b86878554038cd8d83fb0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 07/64] fix: shapes converter: keep the holes of polygons

---
 klayout_pex/klayout/shapes_pb2_converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klayout_pex/klayout/shapes_pb2_converter.py b/klayout_pex/klayout/shapes_pb2_converter.py
index c69c81b..43edf86 100644
--- a/klayout_pex/klayout/shapes_pb2_converter.py
+++ b/klayout_pex/klayout/shapes_pb2_converter.py
@@ -68,6 +68,8 @@ class ShapesConverter:
         net_name = polygon_kly.property('net')
         if net_name:
             polygon_pb.net = net_name
+        if polygon_kly.holes() >= 1:
+            polygon_kly = polygon_kly.resolved_holes()  # the protobuf polygon only has a hull
         for p_kly in polygon_kly.each_point_hull():
             self.klayout_point_to_pb(p_kly, polygon_pb.hull_points.add())
 
-- 
2.43.0


From 5bb8197cea49939daad183af9ba5ef80b62d5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 08/64] fix: 2.5D/R: resistors between the same two nodes are
 parallel, they were added up

---
 klayout_pex/rcx25/extraction_results.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/rcx25/extraction_results.py b/klayout_pex/rcx25/extraction_results.py
index c3caad0..3727978 100644
--- a/klayout_pex/rcx25/extraction_results.py
+++ b/klayout_pex/rcx25/extraction_results.py
@@ -134,6 +134,14 @@ class NetCoupleKey:
             return NetCoupleKey(self.net2, self.net1)
 
 
+def parallel_resistance(resistance1: Optional[float], resistance2: float) -> float:
+    if resistance1 is None:
+        return resistance2
+    if resistance1 <= 0.0 or resistance2 <= 0.0:
+        return 0.0
+    return 1.0 / (1.0 / resistance1 + 1.0 / resistance2)
+
+
 @dataclass
 class ExtractionSummary:
     capacitances: Dict[NetCoupleKey, float]
@@ -142,12 +150,14 @@ class ExtractionSummary:
     @classmethod
     def merged(cls, summaries: List[ExtractionSummary]) -> ExtractionSummary:
         merged_capacitances = defaultdict(float)
-        merged_resistances = defaultdict(float)
+        merged_resistances: Dict[NetCoupleKey, float] = {}
         for s in summaries:
             for couple_key, cap in s.capacitances.items():
                 merged_capacitances[couple_key.normed()] += cap
             for couple_key, res in s.resistances.items():
-                merged_resistances[couple_key.normed()] += res
+                normalized_key = couple_key.normed()
+                merged_resistances[normalized_key] = parallel_resistance(merged_resistances.get(normalized_key, None),
+                                                                         res)
         return ExtractionSummary(capacitances=merged_capacitances,
                                  resistances=merged_resistances)
 
@@ -193,7 +203,8 @@ class CellExtractionResults:
         sideoverlap_summary = ExtractionSummary(capacitances=normalized_sideoverlap_table,
                                                 resistances={})
 
-        normalized_resistance_table: Dict[NetCoupleKey, float] = defaultdict(float)
+        # NOTE: resistors between the same nodes are in parallel
+        normalized_resistance_table: Dict[NetCoupleKey, float] = {}
 
         for network in self.r_extraction_result.networks:
             node_by_id: Dict[int, r_network_pb2.RNode] = {n.node_id: n for n in network.nodes}
@@ -202,8 +213,10 @@ class CellExtractionResults:
                 node_b = node_by_id[element.node_b.node_id]
                 resistance = element.resistance
                 normalized_key = NetCoupleKey(node_a.net_name, node_b.net_name).normed()
-                normalized_resistance_table[normalized_key] += resistance
-                
+                normalized_resistance_table[normalized_key] = parallel_resistance(
+                    normalized_resistance_table.get(normalized_key, None), resistance
+                )
+
         resistance_summary = ExtractionSummary(capacitances={},
                                                resistances=normalized_resistance_table)
 
-- 
2.43.0


From 7a447e451dd95fb6cec5e98b1c9f4d8867af443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 09/64] fix: netlist expanders: do not remove devices while
 iterating them (use after free)

---
 klayout_pex/klayout/netlist_expander.py | 2 +-
 klayout_pex/rcx25/netlist_expander.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 53d07c2..823d739 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -45,7 +45,7 @@ class NetlistExpander:
         top_circuit: kdb.Circuit = expanded_netlist.circuit_by_name(top_cell_name)
 
         if not blackbox_devices:
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):  # NOTE: devices are removed within the loop
                 name = d.name or d.expanded_name()
                 info(f"Removing whiteboxed device {name}")
                 top_circuit.remove_device(d)
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 596a157..92ec330 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -49,7 +49,7 @@ class RCX25NetlistExpander:
             #       because we only want to replace resistor / capacitor devices
             #       and for example not transitors
 
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):  # NOTE: devices are removed within the loop
                 name = d.name or d.expanded_name()
                 match d.device_class().__class__:
                     case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:
-- 
2.43.0


From a77ae6a210c289ad753a7861ed415e1b181246c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 10/64] fix: 2.5D: capacitances of the SPICE netlist are in
 Farad, they were written in fF without a unit

---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 92ec330..8a3338d 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -110,7 +110,7 @@ class RCX25NetlistExpander:
             c: kdb.Device = top_circuit.create_device(cap, f"ext_{idx+1}")
             c.connect_terminal('A', net1)
             c.connect_terminal('B', net2)
-            c.set_parameter('C', cap_value)
+            c.set_parameter('C', cap_value * 1e-15)  # fF -> F
             if net1 == net2:
                 warning(f"Invalid attempt to create cap {c.name} between "
                         f"same net {net1} with value {'%.12g' % cap_value}")
-- 
2.43.0


From 62432c4fdbbfbcfd8cd37105d45c0748867cf602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 11/64] fix: netlist expanders: reuse the net VSUBS of the
 netlist, a second one was not connected to it

---
 klayout_pex/klayout/netlist_expander.py | 2 +-
 klayout_pex/rcx25/netlist_expander.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 823d739..7f36f0e 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -57,7 +57,7 @@ class NetlistExpander:
         expanded_netlist.add(cap)
 
         fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        vsubs_net = top_circuit.net_by_name("VSUBS") or top_circuit.create_net("VSUBS")
         nets: List[kdb.Net] = []
 
         # build table: name -> net
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 8a3338d..e079c39 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -81,7 +81,8 @@ class RCX25NetlistExpander:
         expanded_netlist.add(res)
 
         fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        if top_circuit.net_by_name("VSUBS") is None:
+            top_circuit.create_net("VSUBS")
 
         summary = extraction_results.summarize()
         cap_items = sorted(summary.capacitances.items())
-- 
2.43.0


From 571b3341be1532b1d4d01f85814308082e902dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 12/64] fix: 2.5D: overlaps are shielded by polygons of the
 same net in between, too (counted twice)

---
 klayout_pex/rcx25/c/overlap_extractor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index 4c1cec5..3fe420d 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -111,6 +111,7 @@ class OverlapExtractor:
                     net_top = polygon_above.property('net')
 
                     if net_top == net_bot:
+                        shielded_region.insert(polygon_above)
                         continue
 
                     top_layer_name = self.layer_names[other_layer_index]
-- 
2.43.0


From ab1b3c5433ac1809ffa32fa2bdc405635167f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 13/64] fix: 2.5D: layers without capacitance specification
 (MiM caps) do not abort the extraction

---
 klayout_pex/rcx25/c/overlap_extractor.py      |  6 ++++--
 .../rcx25/c/sidewall_and_fringe_extractor.py  | 21 ++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index 3fe420d..4974b2d 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -119,11 +119,13 @@ class OverlapExtractor:
                     top_overlap_specs = self.tech_info.overlap_cap_by_layer_names.get(top_layer_name, None)
                     if not top_overlap_specs:
                         warning(f"No overlap cap specified for layer top={top_layer_name}")
-                        return
+                        shielded_region.insert(polygon_above)
+                        continue
                     overlap_cap_spec = top_overlap_specs.get(bot_layer_name, None)
                     if not overlap_cap_spec:
                         warning(f"No overlap cap specified for layer bottom={bot_layer_name}")
-                        return
+                        shielded_region.insert(polygon_above)
+                        continue
 
                     top_region = kdb.Region(polygon_above)
 
diff --git a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
index 89d238c..d637d20 100644
--- a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
+++ b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
@@ -265,7 +265,10 @@ class SidewallAndFringeExtractor:
             if net1 == net2:
                 return
 
-            sidewall_cap_spec = self.tech_info.sidewall_cap_by_layer_name[layer_name]
+            sidewall_cap_spec = self.tech_info.sidewall_cap_by_layer_name.get(layer_name, None)
+            if not sidewall_cap_spec:
+                warning(f"No sidewall cap specified for layer {layer_name}")
+                return
 
             # TODO!
 
@@ -377,14 +380,18 @@ class SidewallAndFringeExtractor:
             ]
 
             # NOTE: overlap_cap_by_layer_names is top/bot (dict is not symmetric)
-            overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[inside_layer_name].get(outside_layer_name,
-                                                                                                None)
+            overlap_cap_specs = self.tech_info.overlap_cap_by_layer_names
+            overlap_cap_spec = overlap_cap_specs.get(inside_layer_name, {}).get(outside_layer_name, None)
             if not overlap_cap_spec:
-                overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[outside_layer_name][inside_layer_name]
+                overlap_cap_spec = overlap_cap_specs.get(outside_layer_name, {}).get(inside_layer_name, None)
+
+            sideoverlap_cap_spec = self.tech_info.side_overlap_cap_by_layer_names \
+                .get(inside_layer_name, {}).get(outside_layer_name, None)
 
-            substrate_cap_spec = self.tech_info.substrate_cap_by_layer_name[inside_layer_name]
-            sideoverlap_cap_spec = self.tech_info.side_overlap_cap_by_layer_names[inside_layer_name][
-                outside_layer_name]
+            if not overlap_cap_spec or not sideoverlap_cap_spec:
+                # e.g. MiM cap plates
+                warning(f"No fringe cap specified for layers {inside_layer_name} / {outside_layer_name}")
+                return
 
             polygons_by_net: Dict[NetName, List[kdb.PolygonWithProperties]] = defaultdict(list)
 
-- 
2.43.0


From 8a72432de5ff98662ff81cbdec7144b3536809e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 14/64] fix: LVS cache: on a cache hit read the cached LVSDB,
 not the one of the output directory

---
 klayout_pex/kpex_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index ba88909..43f31b0 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -817,6 +817,8 @@ class KpexCLI:
                     else:
                         warning(f"Cache hit: Reusing cached LVSDB")
                         subproc(lvsdb_cache_path)
+                        # NOTE: the LVSDB within the output directory could stem from another input
+                        lvsdb_path = lvsdb_cache_path
                         lvs_needed = False
 
                 if lvs_needed:
-- 
2.43.0


From 9e2f04b4bd8c50b7a668e04c257d75e2a4c8eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 15/64] fix: LVS: do not use the LVSDB of an earlier run if LVS
 fails, publish cache entries atomically and only of succeeded runs

---
 klayout_pex/klayout/lvs_runner.py |  4 +++-
 klayout_pex/kpex_cli.py           | 32 ++++++++++++++++++++++---------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index 6fc3980..fd72fe4 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -45,7 +45,7 @@ class LVSRunner:
                         schematic_path: str,
                         log_path: str,
                         lvsdb_path: str,
-                        verbose: bool):
+                        verbose: bool) -> bool:
         args = [
             exe_path,
             '-b',
@@ -97,3 +97,5 @@ class LVSRunner:
         else:
             warning(f"klayout LVS failed with status code {proc.returncode} after {'%.4g' % duration}s, "
                     f"see log file: {log_path}")
+
+        return proc.returncode == 0
diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 43f31b0..c0697fd 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -38,6 +38,7 @@ from rich_argparse import RichHelpFormatter
 import shlex
 import shutil
 import sys
+import time
 from typing import *
 
 import klayout.db as kdb
@@ -822,19 +823,32 @@ class KpexCLI:
                         lvs_needed = False
 
                 if lvs_needed:
+                    # NOTE: never mistake the LVSDB of a previous run for the result of this run
+                    if os.path.exists(lvsdb_path):
+                        os.remove(lvsdb_path)
+
+                    lvs_start_time = time.time()
                     lvs_runner = LVSRunner()
-                    lvs_runner.run_klayout_lvs(exe_path=args.klayout_exe_path,
-                                               lvs_script=args.lvs_script_path,
-                                               gds_path=args.effective_gds_path,
-                                               schematic_path=args.effective_schematic_path,
-                                               log_path=lvs_log_path,
-                                               lvsdb_path=lvsdb_path,
-                                               verbose=args.klayout_lvs_verbose)
-                    if args.cache_lvs:
+                    lvs_succeeded = lvs_runner.run_klayout_lvs(exe_path=args.klayout_exe_path,
+                                                               lvs_script=args.lvs_script_path,
+                                                               gds_path=args.effective_gds_path,
+                                                               schematic_path=args.effective_schematic_path,
+                                                               log_path=lvs_log_path,
+                                                               lvsdb_path=lvsdb_path,
+                                                               verbose=args.klayout_lvs_verbose)
+                    if not os.path.isfile(lvsdb_path):
+                        error(f"LVS did not produce an LVSDB, see log file: {lvs_log_path}")
+                        sys.exit(1)
+                    if args.cache_lvs and lvs_succeeded:
                         cache_dir_path = os.path.dirname(lvsdb_cache_path)
                         if not os.path.exists(cache_dir_path):
                             os.makedirs(cache_dir_path, exist_ok=True)
-                        shutil.copy(lvsdb_path, lvsdb_cache_path)
+                        # NOTE: publish atomically, so that an interrupted run leaves no truncated LVSDB,
+                        #       a GDS modified while LVS was running must be newer than the cached LVSDB
+                        lvsdb_tmp_path = f"{lvsdb_cache_path}.{os.getpid()}.tmp"
+                        shutil.copyfile(lvsdb_path, lvsdb_tmp_path)
+                        os.utime(lvsdb_tmp_path, (lvs_start_time, lvs_start_time))
+                        os.replace(lvsdb_tmp_path, lvsdb_cache_path)
 
                 lvsdb.read(lvsdb_path)
         return lvsdb
-- 
2.43.0


From 4f2daf420fcf308dcc86e4c877ebf9850b52a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:33 +0000
Subject: [PATCH 16/64] fix: FastCap runner: do not change the current
 directory of kpex, relative paths broke

---
 klayout_pex/fastcap/fastcap_runner.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 2d7caf7..c6340b0 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -48,13 +48,16 @@ def run_fastcap(exe_path: str,
                 iterative_tolerance: float = 0.01):
     work_dir = os.path.dirname(lst_file_path)
 
-    # we have to chdir into the directory containing the lst file,
+    # FastCap has to run in the directory containing the lst file,
     # so make all paths absolute, and the lst_file relative
+    # (the current directory of this process must not change, as other paths could be relative to it)
     log_path = os.path.abspath(log_path)
     lst_file_path = os.path.basename(lst_file_path)
 
-    info(f"Chdir to {work_dir}")
-    os.chdir(work_dir)
+    if os.path.dirname(exe_path):
+        exe_path = os.path.abspath(exe_path)
+
+    info(f"Running in directory {work_dir}")
     args = [
         exe_path,
         f"-o{expansion_order}",
@@ -78,6 +81,7 @@ def run_fastcap(exe_path: str,
     start = time.time()
 
     proc = subprocess.Popen(args,
+                            cwd=work_dir or None,
                             stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
-- 
2.43.0


From ff8ffad511bc7b39cc8de769284ddb5fc634fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:50 +0000
Subject: [PATCH 17/64] fix: FastCap parser: conductor names of different
 length are padded by blanks

---
 klayout_pex/fastcap/fastcap_runner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index c6340b0..b32027a 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -133,11 +133,11 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
                     line = rlines[i].strip()
-                    cells = [cell.strip() for cell in line.split(' ')]
-                    if cells[1] != str(i):
-                        warning(f"Expected capacitor matrix row to have index {i}, but obtained {cells[1]}")
+                    cells = line.split()  # NOTE: columns are padded by a varying number of blanks
+                    row_index = idx - 1 - i
+                    if cells[1] != str(row_index):
+                        warning(f"Expected capacitor matrix row to have index {row_index}, but obtained {cells[1]}")
                     cells.pop(1)
-                    cells = list(filter(lambda c: len(c) >= 1, cells))
                     conductor_names.append(cells[0])
                     row = [float(cell)/1e6 for cell in cells[1:]]
                     rows.append(row)
-- 
2.43.0


From 6092c0f48956b1b38099f29d6e0acdef9cb7fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:50 +0000
Subject: [PATCH 18/64] fix: FastCap parser: consider the unit of the
 capacitance matrix

---
 klayout_pex/fastcap/fastcap_runner.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index b32027a..82405ea 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -107,6 +107,12 @@ def run_fastcap(exe_path: str,
                         f"see log file: {log_path}")
 
 
+FASTCAP_UNIT_PREFIXES: Dict[str, float] = {
+    'atto': 1e-18, 'femto': 1e-15, 'pico': 1e-12, 'nano': 1e-9, 'micro': 1e-6, 'milli': 1e-3, '': 1.0,
+    'kilo': 1e3, 'mega': 1e6, 'giga': 1e9, 'tera': 1e12, 'peta': 1e15, 'exa': 1e18,
+}
+
+
 # CAPACITANCE MATRIX, picofarads
 #                     1          2          3          4
 # $1%GROUP2 1       7850      -7277      -2115      54.97
@@ -125,6 +131,9 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 if not section_m:
                     raise Exception(f"Could not parse capacitor unit")
                 unit_str = section_m.group(1)
+                unit_factor = FASTCAP_UNIT_PREFIXES.get(unit_str.removesuffix('farads'), None)
+                if unit_factor is None or not unit_str.endswith('farads'):
+                    raise Exception(f"Unknown capacitor unit {unit_str}")
 
                 dimension_line = rlines[idx-1].strip()
                 dimensions = dimension_line.split()  # remove whitespace
@@ -139,7 +148,7 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                         warning(f"Expected capacitor matrix row to have index {row_index}, but obtained {cells[1]}")
                     cells.pop(1)
                     conductor_names.append(cells[0])
-                    row = [float(cell)/1e6 for cell in cells[1:]]
+                    row = [float(cell)*unit_factor/1e6 for cell in cells[1:]]
                     rows.append(row)
                 cm = CapacitanceMatrix(conductor_names=conductor_names, rows=rows)
                 return cm
-- 
2.43.0


From 4b4683c0f65ae024f08b33b54c8f9fee8ead63c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 19/64] fix: dielectric filter: match case-insensitively, +name
 without none/all includes the dielectric

---
 klayout_pex/util/multiple_choice.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/util/multiple_choice.py b/klayout_pex/util/multiple_choice.py
index be8c74c..13ce8ca 100644
--- a/klayout_pex/util/multiple_choice.py
+++ b/klayout_pex/util/multiple_choice.py
@@ -57,13 +57,10 @@ class MultipleChoicePattern:
             raise ValueError("Multiple choice pattern based on all can only have exclusive (-) subpatterns")
 
     def filter(self, choices: List[str]) -> List[str]:
-        if self.has_all:
-            return [c for c in choices if c not in self.excluded]
-        return [c for c in choices if c in self.included]
+        return [c for c in choices if self.is_included(c)]
 
     def is_included(self, choice: str) -> bool:
-        if self.has_none:
-            return choice in self.included
+        choice = choice.lower()  # NOTE: patterns are case-insensitive
         if self.has_all:
             return choice not in self.excluded
-        return False
+        return choice in self.included
-- 
2.43.0


From ae8097fb4366efda0f17c263d5344102baf30496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 20/64] fix: boolean arguments: accept 1 and 0

---
 klayout_pex/util/argparse_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/util/argparse_helpers.py b/klayout_pex/util/argparse_helpers.py
index 20082be..a26f9b5 100644
--- a/klayout_pex/util/argparse_helpers.py
+++ b/klayout_pex/util/argparse_helpers.py
@@ -61,9 +61,9 @@ def true_or_false(arg) -> bool:
         return arg
 
     match str(arg).lower():
-        case 'yes' | 'true' | 't' | 'y' | 1:
+        case 'yes' | 'true' | 't' | 'y' | '1':
             return True
-        case 'no' | 'false' | 'f' | 'n' | 0:
+        case 'no' | 'false' | 'f' | 'n' | '0':
             return False
         case _:
             raise argparse.ArgumentTypeError('Boolean value expected.')
-- 
2.43.0


From 34ad27e781b482c083d90d68d534b0250d91d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 21/64] fix: CLI: report an invalid --diel argument

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index c0697fd..2a51c4e 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -464,7 +464,7 @@ class KpexCLI:
             pattern_string: str = args.dielectric_filter
             args.dielectric_filter = MultipleChoicePattern(pattern=pattern_string)
         except ValueError as e:
-            error("Failed to parse --diel arg", e)
+            error(f"Failed to parse --diel arg: {e}")
             found_errors = True
 
         if args.cache_dir_path is None:
-- 
2.43.0


From c2ba298451bfd9fe836c1b61807df4565e5b003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 22/64] fix: CLI: unknown --cell is a validation error, not a
 crash

---
 klayout_pex/kpex_cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 2a51c4e..1963388 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -386,7 +386,9 @@ class KpexCLI:
                         found_errors = True
 
                     is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name
-                    if is_only_top_cell:
+                    if not found_cell:
+                        pass
+                    elif is_only_top_cell:
                         info(f"Found cell {args.cell_name} in GDS {args.gds_path} (only top cell)")
                     else:  # there are other cells => extract the top cell to a tmp layout
                         run_dir_id = f"{input_file_stem(args.gds_path)}__{args.effective_cell_name}"
-- 
2.43.0


From f15431988f98b163ebc2425118ef315f73a03a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 23/64] fix: magic log analyzer: use the documented default
 output path

---
 klayout_pex/magic/magic_log_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index bd943a5..92ece0b 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -148,7 +148,7 @@ def _parse_args(arg_list: List[str] = None) -> argparse.Namespace:
         raise ArgumentValidationError(f"Intput magic log directory does not exist at '{args.magic_log_dir_path}'")
 
     if args.output_rdb_path is None:
-        os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
+        args.output_rdb_path = os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
 
     return args
 
-- 
2.43.0


From 44c9b955bb40eafcc9678ed56d9a7c419f5a09a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 24/64] fix: magic .ext parser: net names with special
 characters and resistances with exponent were dropped

---
 klayout_pex/magic/magic_ext_file_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index e64bf0e..5671376 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -90,7 +90,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
             # port "VDD" 2 -600 800 500 1000 m1
             # port "VSS" 3 -600 500 500 700 m1
             m = re.match(
-                r'^port "(?P<net>\w+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
+                r'^port "(?P<net>[^"]+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
                 line.strip())
             if m:
                 ports.append(Port(net=m.group('net'),
@@ -101,7 +101,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^(node|substrate) "(?P<net>\w+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
+                r'^(node|substrate) "(?P<net>[^"]+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
                 line.strip())
             if m:
                 nodes.append(Node(net=m.group('net'),
@@ -133,7 +133,7 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     with open(path, 'r') as f:
         for line in f.readlines():
             m = re.match(
-                r'^rnode "(?P<name>[\w\\.]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
+                r'^rnode "(?P<name>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
                 line.strip())
             if m:
                 rnodes.append(ResNode(name=m.group('name'),
@@ -143,7 +143,7 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
                                       y_bot=int(m.group('y_bot'))))
 
             m = re.match(
-                r'^resist "(?P<node1>[\w\\.]+)" "(?P<node2>[\w\\.]+)" (?P<value>-?[\d\\.]+)$',
+                r'^resist "(?P<node1>[^"]+)" "(?P<node2>[^"]+)" (?P<value>-?[\d.]+([eE][-+]?\d+)?)$',
                 line.strip())
             if m:
                 resistors.append(Resistor(node1=m.group('node1'),
-- 
2.43.0


From a51891d4cd448312f6edfe521d4f86a44c505fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 25/64] fix: LVSDB: flatten the netlist, nets of different
 subcircuit instances were merged by their local name

---
 klayout_pex/klayout/lvsdb_extractor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 28fba30..d9b94fa 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -91,6 +91,11 @@ class KLayoutExtractionContext:
                            tech: TechInfo,
                            blackbox_devices: bool) -> KLayoutExtractionContext:
         dbu = lvsdb.internal_layout().dbu
+
+        # NOTE: net names are only unique within their circuit,
+        #       without flattening, nets of different subcircuit instances would be merged
+        lvsdb.netlist().flatten()
+
         annotated_layout = kdb.Layout()
         annotated_layout.dbu = dbu
         top_cell = annotated_layout.create_cell(top_cell)
-- 
2.43.0


From 831ad26c6ee5321aba019a618bc911569d798356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 26/64] fix: R extraction: do not leave an empty via (layer 0)
 in the tech for vias without contact info

---
 klayout_pex/rcx25/r/r_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index cc11310..2d563c8 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -188,13 +188,14 @@ class RExtractor:
                             warning(f"ignoring layer {canonical_layer_name}, no via resistance found in tech info")
                             continue
                         for source_layer in li.source_layers:
-                            via = rex_tech.vias.add()
                             bot_top = tech.bottom_and_top_layer_name_by_via_computed_layer_name.get(
                                 source_layer.lvs_layer_name, None)
                             if bot_top is None:
                                 warning(f"ignoring layer {canonical_layer_name} (LVS {source_layer.lvs_layer_name}), no bottom/top layers found in tech info")
                                 continue
 
+                            via = rex_tech.vias.add()
+
                             (bot, top) = bot_top
                             bot_gds_pair = tech.gds_pair(bot)
                             top_gds_pair = tech.gds_pair(top)
-- 
2.43.0


From f4aeb73d2c77bdc757aeb980cab07816bc506511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 27/64] fix: R extraction: vias without a conductor extracted
 above or below (e.g. MiM caps) aborted the extraction

---
 klayout_pex/rcx25/extraction_reporter.py | 5 +++--
 klayout_pex/rcx25/r/r_extractor.py       | 9 +++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/extraction_reporter.py b/klayout_pex/rcx25/extraction_reporter.py
index ca9081f..13a690d 100644
--- a/klayout_pex/rcx25/extraction_reporter.py
+++ b/klayout_pex/rcx25/extraction_reporter.py
@@ -329,8 +329,9 @@ class ExtractionReporter:
                 f"{round(c.resistance, 3)} mΩ/µm^2"
             )
         for v in tech.vias:
-            bot = layer_by_id[v.bottom_conductor.id].canonical_layer_name
-            top = layer_by_id[v.top_conductor.id].canonical_layer_name
+            # NOTE: there might be no conductor extracted on that layer (e.g. MiM cap plates)
+            bot = layer_by_id.get(v.bottom_conductor.id, v.bottom_conductor).canonical_layer_name
+            top = layer_by_id.get(v.top_conductor.id, v.top_conductor).canonical_layer_name
             self.report.create_category(
                 cat_vias,
                 f"{v.layer.id}: {v.layer.canonical_layer_name} (LVS {v.layer.lvs_layer_name}, "
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 2d563c8..c2ecf09 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -174,7 +174,9 @@ class RExtractor:
                             via.layer.lvs_layer_name = source_layer.lvs_layer_name
 
                             via.bottom_conductor.id = self.pex_context.annotated_layout.layer(*bot_gds_pair)
+                            via.bottom_conductor.canonical_layer_name = tech.canonical_layer_name_by_gds_pair.get(bot_gds_pair, '')
                             via.top_conductor.id = self.pex_context.annotated_layout.layer(*top_gds_pair)
+                            via.top_conductor.canonical_layer_name = tech.canonical_layer_name_by_gds_pair.get(top_gds_pair, '')
 
                             via.resistance = self.pex_context.tech.milliohm_by_cnt_to_ohm_by_square_for_contact(
                                 contact=contact,
@@ -205,7 +207,9 @@ class RExtractor:
                             via.layer.lvs_layer_name = source_layer.lvs_layer_name
 
                             via.bottom_conductor.id = self.pex_context.annotated_layout.layer(*bot_gds_pair)
+                            via.bottom_conductor.canonical_layer_name = tech.canonical_layer_name_by_gds_pair.get(bot_gds_pair, '')
                             via.top_conductor.id = self.pex_context.annotated_layout.layer(*top_gds_pair)
+                            via.top_conductor.canonical_layer_name = tech.canonical_layer_name_by_gds_pair.get(top_gds_pair, '')
 
                             contact = self.pex_context.tech.contact_by_contact_lvs_layer_name[
                                 source_layer.lvs_layer_name]
@@ -290,6 +294,11 @@ class RExtractor:
         # dicts keyed by id / klayout_index
         layer_names: Dict[int, LayerName] = {}
 
+        # NOTE: there might be no conductor extracted on the bottom/top layer of a via (e.g. MiM cap plates)
+        for v in rex_request.tech.vias:
+            for l in (v.bottom_conductor, v.top_conductor):
+                layer_names[l.id] = l.canonical_layer_name
+
         for c in rex_request.tech.conductors:
             layer_names[c.layer.id] = c.layer.canonical_layer_name
 
-- 
2.43.0


From 5e08ae9f068c7d5c471f8da9f63a2dc060a20671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 28/64] fix: is_skinny_tri reported whether, not which, corner
 is the first of the long edge

---
 klayout_pex/rcx25/r/resistor_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/r/resistor_network.py b/klayout_pex/rcx25/r/resistor_network.py
index 5371083..b912bba 100644
--- a/klayout_pex/rcx25/r/resistor_network.py
+++ b/klayout_pex/rcx25/r/resistor_network.py
@@ -67,7 +67,7 @@ class ResistorNetwork:
         self.node_names = {}
 
     @staticmethod
-    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[bool]:
+    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[int]:
         for i in range(0, 3):
             pm1 = pts[i]
             p0 = pts[(i + 1) % 3]
@@ -78,7 +78,7 @@ class ResistorNetwork:
             l1 = (pm1 - p1).sq_length()
 
             if l0 + l1 < lm1 * (1.0 - 1e-10):
-                return i != 0
+                return i
 
         return None
 
-- 
2.43.0


From 3900ab3470334d80d39214f9a032728c53f50078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 29/64] fix: unnamed nets were nameless in the CSV of the field
 solver engines

---
 klayout_pex/klayout/netlist_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_csv.py b/klayout_pex/klayout/netlist_csv.py
index c30e145..288a584 100644
--- a/klayout_pex/klayout/netlist_csv.py
+++ b/klayout_pex/klayout/netlist_csv.py
@@ -56,4 +56,4 @@ class NetlistCSVWriter:
                     net2 = d.net_for_terminal('B')
                     cap = params['C']
                     cap_femto = round(cap * 1e15, 2)
-                    f.write(f"{dn};{net1.name};{net2.name};{cap_femto}\n")
+                    f.write(f"{dn};{net1.expanded_name()};{net2.expanded_name()};{cap_femto}\n")
-- 
2.43.0


From 2ad36cc6f36700d2fd6b27839c5fcbe75e8d1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 30/64] fix: conductor names of FastCap2 results did not match
 the nets of the netlist

---
 klayout_pex/klayout/netlist_expander.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 7f36f0e..4d482fa 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -64,9 +64,12 @@ class NetlistExpander:
         name2net: Dict[str, kdb.Net] = {n.expanded_name(): n for n in top_circuit.each_net()}
 
         # find nets for the matrix axes
-        pattern = re.compile(r'^g\d+_(.*)$')
+        # NOTE: FasterCap names the conductors like 'g1_VSUBS', FastCap2 like 'VSUBS%GROUP1'
+        patterns = (re.compile(r'^(.*)%GROUP\d+$'), re.compile(r'^g\d+_(.*)$'))
         for idx, nn in enumerate(cap_matrix.conductor_names):
-            m = pattern.match(nn)
+            m = patterns[0].match(nn) or patterns[1].match(nn)
+            if not m:
+                raise Exception(f"Unexpected conductor name {nn} in capacitance matrix")
             nn = m.group(1)
             if nn not in name2net:
                 raise Exception(f"No net found with name {nn}, net names are: {list(name2net.keys())}")
-- 
2.43.0


From d4b947cfe2cde79c6470a06a50ff3daa0e70e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:58 +0000
Subject: [PATCH 31/64] fix: reduced netlist lost capacitors, device classes of
 duplicated netlists had no valid IDs

---
 klayout_pex/klayout/netlist_reducer.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/klayout_pex/klayout/netlist_reducer.py b/klayout_pex/klayout/netlist_reducer.py
index d4f0dd2..e360cac 100644
--- a/klayout_pex/klayout/netlist_reducer.py
+++ b/klayout_pex/klayout/netlist_reducer.py
@@ -31,11 +31,33 @@ from ..log import (
 
 
 class NetlistReducer:
+    @staticmethod
+    def _recreate_device_classes(netlist: kdb.Netlist):
+        # NOTE: Netlist.dup() leaves the IDs of the cloned device classes uninitialized,
+        #       but combine_devices() distinguishes the classes by their ID
+        #       (so capacitors could be combined with resistors)
+        for old_dc in list(netlist.each_device_class()):
+            new_dc = type(old_dc)()
+            new_dc.assign(old_dc)
+            netlist.add(new_dc)
+
+            for circuit in netlist.each_circuit():
+                for old_d in [d for d in circuit.each_device() if d.device_class() == old_dc]:
+                    new_d = circuit.create_device(new_dc, old_d.name)
+                    new_d.device_abstract = old_d.device_abstract
+                    new_d.trans = old_d.trans
+                    for t in old_dc.terminal_definitions():
+                        new_d.connect_terminal(t.id(), old_d.net_for_terminal(t.id()))
+                    for p in old_dc.parameter_definitions():
+                        new_d.set_parameter(p.id(), old_d.parameter(p.id()))
+                    circuit.remove_device(old_d)
+
     @staticmethod
     def reduce(netlist: kdb.Netlist,
                top_cell_name: str,
                cap_threshold: float = 0.05e-15) -> kdb.Netlist:
         reduced_netlist: kdb.Netlist = netlist.dup()
+        NetlistReducer._recreate_device_classes(reduced_netlist)
         reduced_netlist.combine_devices()  # merge C/R
 
         top_circuit: kdb.Circuit = reduced_netlist.circuit_by_name(top_cell_name)
-- 
2.43.0


From 7a8e8350595125099f8a7355703351d1baf8b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 32/64] fix: reject truncated or malformed capacitance matrices
 in solver logs

---
 klayout_pex/fastcap/fastcap_runner.py     | 8 +++++++-
 klayout_pex/fastercap/fastercap_runner.py | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 82405ea..9a0ceeb 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -135,15 +135,21 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 if unit_factor is None or not unit_str.endswith('farads'):
                     raise Exception(f"Unknown capacitor unit {unit_str}")
 
-                dimension_line = rlines[idx-1].strip()
+                dimension_line = rlines[idx-1].strip() if idx >= 1 else ''
                 dimensions = dimension_line.split()  # remove whitespace
                 dim = len(dimensions)
+                if dim == 0 or not rlines[idx-1].endswith('\n'):
+                    raise Exception(f"Could not parse capacitor matrix dimensions")
+                if idx-1-dim < 0 or not rlines[idx-1-dim].endswith('\n'):
+                    raise Exception(f"Truncated capacitance matrix in FastCap log file {log_path}")
                 conductor_names: List[str] = []
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
                     line = rlines[i].strip()
                     cells = line.split()  # NOTE: columns are padded by a varying number of blanks
                     row_index = idx - 1 - i
+                    if len(cells) != dim + 2:
+                        raise Exception(f"Malformed capacitance matrix row in FastCap log file {log_path}: {line}")
                     if cells[1] != str(row_index):
                         warning(f"Expected capacitor matrix row to have index {row_index}, but obtained {cells[1]}")
                     cells.pop(1)
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index f91640f..31759cd 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -110,10 +110,12 @@ def fastercap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
         # multiple iterations possible, find the last matrix
         for idx, line in enumerate(rlines):
             if line.strip() == "Capacitance matrix is:":
-                m = re.match(r'^Dimension (\d+) x (\d+)$', rlines[idx-1])
+                m = re.match(r'^Dimension (\d+) x (\d+)$', rlines[idx-1]) if idx >= 1 else None
                 if not m:
                     raise Exception(f"Could not parse capacitor matrix dimensions")
                 dim = int(m.group(1))
+                if idx-1-dim < 0 or not rlines[idx-1-dim].endswith('\n'):
+                    raise Exception(f"Truncated capacitance matrix in FasterCap log file {log_path}")
                 conductor_names: List[str] = []
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
@@ -122,6 +124,8 @@ def fastercap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                     cells = list(filter(lambda c: len(c) >= 1, cells))
                     conductor_names.append(cells[0])
                     row = [float(cell)/1e6 for cell in cells[1:]]
+                    if len(row) != dim:
+                        raise Exception(f"Malformed capacitance matrix row in FasterCap log file {log_path}: {line}")
                     rows.append(row)
                 cm = CapacitanceMatrix(conductor_names=conductor_names, rows=rows)
                 return cm
-- 
2.43.0


From d948a3853edb1075b70b278df10828f3a3a8f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:55 +0000
Subject: [PATCH 33/64] fix: use and cache the LVSDB of LVS runs with
 mismatches, never a truncated one

---
 klayout_pex/klayout/lvs_runner.py |  3 ++-
 klayout_pex/kpex_cli.py           | 28 ++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index fd72fe4..ebb6cd4 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -98,4 +98,5 @@ class LVSRunner:
             warning(f"klayout LVS failed with status code {proc.returncode} after {'%.4g' % duration}s, "
                     f"see log file: {log_path}")
 
-        return proc.returncode == 0
+        # NOTE: a non-zero status can mean netlist mismatches, a negative one means that LVS was killed
+        return proc.returncode >= 0
diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 1963388..c7bc301 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -27,6 +27,7 @@ import argparse
 from datetime import datetime
 from enum import StrEnum
 from functools import cached_property
+import gzip
 import logging
 import os
 import os.path
@@ -40,6 +41,7 @@ import shutil
 import sys
 import time
 from typing import *
+import zlib
 
 import klayout.db as kdb
 import klayout.rdb as rdb
@@ -795,6 +797,20 @@ class KpexCLI:
         t = os.path.getmtime(filename)
         return datetime.fromtimestamp(t)
 
+    @staticmethod
+    def is_complete_lvsdb(path: str) -> bool:
+        # NOTE: KLayout would silently read a truncated LVSDB
+        if not os.path.isfile(path):
+            return False
+        try:
+            with open(path, 'rb') as f:
+                data = f.read()
+            if data.startswith(b'\x1f\x8b'):
+                data = gzip.decompress(data)
+            return data.rstrip().endswith(b')')
+        except (OSError, EOFError, zlib.error):
+            return False
+
     def create_lvsdb(self, args: argparse.Namespace) -> kdb.LayoutVsSchematic:
         lvsdb = kdb.LayoutVsSchematic()
 
@@ -817,6 +833,9 @@ class KpexCLI:
                     elif self.modification_date(lvsdb_cache_path) <= self.modification_date(args.gds_path):
                         info(f"Cache miss: extracted LVSDB is older than the input GDS")
                         subproc(lvsdb_cache_path)
+                    elif not self.is_complete_lvsdb(lvsdb_cache_path):
+                        info(f"Cache miss: extracted LVSDB is damaged")
+                        subproc(lvsdb_cache_path)
                     else:
                         warning(f"Cache hit: Reusing cached LVSDB")
                         subproc(lvsdb_cache_path)
@@ -831,17 +850,18 @@ class KpexCLI:
 
                     lvs_start_time = time.time()
                     lvs_runner = LVSRunner()
-                    lvs_succeeded = lvs_runner.run_klayout_lvs(exe_path=args.klayout_exe_path,
+                    lvs_completed = lvs_runner.run_klayout_lvs(exe_path=args.klayout_exe_path,
                                                                lvs_script=args.lvs_script_path,
                                                                gds_path=args.effective_gds_path,
                                                                schematic_path=args.effective_schematic_path,
                                                                log_path=lvs_log_path,
                                                                lvsdb_path=lvsdb_path,
                                                                verbose=args.klayout_lvs_verbose)
-                    if not os.path.isfile(lvsdb_path):
-                        error(f"LVS did not produce an LVSDB, see log file: {lvs_log_path}")
+                    # NOTE: netlist mismatches are no failure (sky130.lvs exits with status 1)
+                    if not lvs_completed or not self.is_complete_lvsdb(lvsdb_path):
+                        error(f"LVS did not produce a complete LVSDB, see log file: {lvs_log_path}")
                         sys.exit(1)
-                    if args.cache_lvs and lvs_succeeded:
+                    if args.cache_lvs:
                         cache_dir_path = os.path.dirname(lvsdb_cache_path)
                         if not os.path.exists(cache_dir_path):
                             os.makedirs(cache_dir_path, exist_ok=True)
-- 
2.43.0


From 4f841e1aaedfa49b4ee77b9ccd8680353d3feb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:06 +0000
Subject: [PATCH 34/64] fix: quote paths and cell names in Magic scripts

---
 klayout_pex/magic/magic_runner.py | 60 ++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 28eb703..5e29ebe 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -26,6 +26,7 @@ import time
 from typing import *
 
 import os
+import re
 import subprocess
 
 from ..log import (
@@ -58,6 +59,10 @@ class MagicMergeMode(StrEnum):
     DEFAULT = NONE
 
 
+def tcl_quoted(word: str) -> str:
+    return re.sub(r'([^\w./:+,=@%-])', r'\\\1', word)
+
+
 def prepare_magic_script(gds_path: str,
                          cell_name: str,
                          run_dir_path: str,
@@ -74,6 +79,13 @@ def prepare_magic_script(gds_path: str,
     run_dir_path = os.path.abspath(run_dir_path)
     output_netlist_path = os.path.abspath(output_netlist_path)
 
+    # NOTE: names could contain characters special to Tcl, e.g. blanks or '$'
+    gds = tcl_quoted(gds_path)
+    cell = tcl_quoted(cell_name)
+    flat_cell = tcl_quoted(f"{cell_name}_flat")
+    run_dir = tcl_quoted(run_dir_path)
+    output_netlist = tcl_quoted(output_netlist_path)
+
     halo_scale = 200.0
     halo_decl = '' if halo is None else f"\nextract halo {round(halo * halo_scale)}"
 
@@ -83,36 +95,36 @@ def prepare_magic_script(gds_path: str,
             script = f"""# Generated by kpex {__version__}
 crashbackups stop
 drc off
-gds read {gds_path}
-load {cell_name}
+gds read {gds}
+load {cell}
 select top cell
-flatten {cell_name}_flat
-load {cell_name}_flat
-cellname delete {cell_name} -noprompt
-cellname rename {cell_name}_flat {cell_name}
+flatten {flat_cell}
+load {flat_cell}
+cellname delete {cell} -noprompt
+cellname rename {flat_cell} {cell}
 select top cell
-extract path {run_dir_path}{halo_decl}
+extract path {run_dir}{halo_decl}
 extract all
 ext2spice short {short_mode}
 ext2spice merge {merge_mode}
 ext2spice cthresh {c_threshold}
 ext2spice subcircuits top on
 ext2spice format ngspice
-ext2spice -p {run_dir_path} -o {output_netlist_path}
+ext2spice -p {run_dir} -o {output_netlist}
 quit -noprompt"""
         case MagicPEXMode.RC:
             script = f"""# Generated by kpex {__version__}
 crashbackups stop
 drc off
-gds read {gds_path}
-load {cell_name}
+gds read {gds}
+load {cell}
 select top cell
-flatten {cell_name}_flat
-load {cell_name}_flat
-cellname delete {cell_name} -noprompt
-cellname rename {cell_name}_flat {cell_name}
+flatten {flat_cell}
+load {flat_cell}
+cellname delete {cell} -noprompt
+cellname rename {flat_cell} {cell}
 select top cell
-extract path {run_dir_path}{halo_decl}
+extract path {run_dir}{halo_decl}
 extract do resistance
 extract all
 ext2sim labels on
@@ -126,22 +138,22 @@ ext2spice rthresh {r_threshold}
 ext2spice extresist on
 ext2spice subcircuits top on
 ext2spice format ngspice
-ext2spice -p {run_dir_path} -o {output_netlist_path}
+ext2spice -p {run_dir} -o {output_netlist}
 quit -noprompt
 """
         case MagicPEXMode.R:
             script = f"""# Generated by kpex {__version__}
 crashbackups stop
 drc off
-gds read {gds_path}
-load {cell_name}
+gds read {gds}
+load {cell}
 select top cell
-flatten {cell_name}_flat
-load {cell_name}_flat
-cellname delete {cell_name} -noprompt
-cellname rename {cell_name}_flat {cell_name}
+flatten {flat_cell}
+load {flat_cell}
+cellname delete {cell} -noprompt
+cellname rename {flat_cell} {cell}
 select top cell
-extract path {run_dir_path}{halo_decl}
+extract path {run_dir}{halo_decl}
 extract do resistance
 extract no capacitance
 extract no coupling
@@ -156,7 +168,7 @@ ext2spice rthresh {r_threshold}
 ext2spice extresist on
 ext2spice subcircuits top on
 ext2spice format ngspice
-ext2spice -p {run_dir_path} -o {output_netlist_path}
+ext2spice -p {run_dir} -o {output_netlist}
 quit -noprompt
 """
 
-- 
2.43.0


From db22744ae8a9e1a01a0633126350effa432f284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:06 +0000
Subject: [PATCH 35/64] fix: do not report the files of an earlier Magic run

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index c7bc301..7f217d9 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -595,6 +595,10 @@ class KpexCLI:
 
         os.makedirs(magic_run_dir, exist_ok=True)
 
+        # NOTE: never mistake the files of a previous run for the results of this run
+        for path in [Path(output_netlist_path), *Path(magic_run_dir).glob('*.ext')]:
+            path.unlink(missing_ok=True)
+
         prepare_magic_script(gds_path=args.effective_gds_path,
                              cell_name=args.effective_cell_name,
                              run_dir_path=magic_run_dir,
-- 
2.43.0


From ea44b348c052ae9729917525ab2a2a35a582a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:54 +0000
Subject: [PATCH 36/64] fix: layouts with unconnected subcells aborted the
 extraction

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 ++--
 klayout_pex/rcx25/extractor.py         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index d9b94fa..c2740d2 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -261,7 +261,7 @@ class KLayoutExtractionContext:
 
     def top_cell_bbox(self) -> kdb.Box:
         b1: kdb.Box = self.annotated_layout.top_cell().bbox()
-        b2: kdb.Box = self.lvsdb.internal_layout().top_cell().bbox()
+        b2: kdb.Box = self.lvsdb.internal_top_cell().bbox()
         if b1.area() > b2.area():
             return b1
         else:
@@ -353,7 +353,7 @@ class KLayoutExtractionContext:
 
     @cached_property
     def top_circuit(self) -> kdb.Circuit:
-        return self.lvsdb.netlist().top_circuit()
+        return self.lvsdb.netlist().circuit_by_name(self.annotated_top_cell.name)
 
     @cached_property
     def devices_by_name(self) -> Dict[str, device_pb2.Device]:
diff --git a/klayout_pex/rcx25/extractor.py b/klayout_pex/rcx25/extractor.py
index 8e6e5ef..f02fb6a 100644
--- a/klayout_pex/rcx25/extractor.py
+++ b/klayout_pex/rcx25/extractor.py
@@ -192,7 +192,7 @@ class RCX25Extractor:
 
         # ------------------------------------------------------------------------
         if self.pex_mode.need_resistance():
-            c: kdb.Circuit = netlist.top_circuit()
+            c: kdb.Circuit = self.pex_context.top_circuit
             info(f"LVSDB: found {c.pin_count()}pins")
 
             # FIXME:
-- 
2.43.0


From 1df9a7d313e9fb924999a3832f41b8a2ddc817e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:38 +0000
Subject: [PATCH 37/64] fix: truncated or unreadable LVSDB input was used or
 aborted with a traceback

---
 klayout_pex/kpex_cli.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 7f217d9..35a8d3d 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -424,9 +424,15 @@ class KpexCLI:
                 found_errors = True
             else:
                 lvsdb = kdb.LayoutVsSchematic()
-                lvsdb.read(args.lvsdb_path)
-                top_cell: kdb.Cell = lvsdb.internal_top_cell()
-                args.effective_cell_name = top_cell.name
+                try:
+                    if not KpexCLI.is_complete_lvsdb(args.lvsdb_path):
+                        raise RuntimeError("file is empty or truncated")
+                    lvsdb.read(args.lvsdb_path)
+                    top_cell: kdb.Cell = lvsdb.internal_top_cell()
+                    args.effective_cell_name = top_cell.name
+                except RuntimeError as e:
+                    error(f"Can't read KLayout LVSDB file at path {args.lvsdb_path}: {e}")
+                    found_errors = True
 
         if hasattr(args, 'effective_cell_name'):
             run_dir_id: str
-- 
2.43.0


From c8c5f8970dcd24c92ff5e1cede7e2154e205e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:38 +0000
Subject: [PATCH 38/64] fix: --cell was silently ignored when it is not the top
 cell of the LVSDB

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 35a8d3d..44f3267 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -430,6 +430,10 @@ class KpexCLI:
                     lvsdb.read(args.lvsdb_path)
                     top_cell: kdb.Cell = lvsdb.internal_top_cell()
                     args.effective_cell_name = top_cell.name
+                    if args.cell_name and args.cell_name != args.effective_cell_name:
+                        error(f"Could not find cell {args.cell_name} in LVSDB {args.lvsdb_path}, "
+                              f"its top cell is {args.effective_cell_name}")
+                        found_errors = True
                 except RuntimeError as e:
                     error(f"Can't read KLayout LVSDB file at path {args.lvsdb_path}: {e}")
                     found_errors = True
-- 
2.43.0


From 62ab82efef2dcfb84c0e52b799d43ce248087b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:38 +0000
Subject: [PATCH 39/64] fix: an empty --gds path crashed the argument
 validation

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 44f3267..b907011 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -363,7 +363,7 @@ class KpexCLI:
                 found_errors = True
 
         # input mode: LVS or existing LVSDB?
-        if args.gds_path:
+        if args.gds_path is not None:
             info(f"GDS input file passed, running in LVS mode")
             args.input_mode = InputMode.GDS
             if not os.path.isfile(args.gds_path):
-- 
2.43.0


From 05669edb87406df571e423fcb992f6e8bb89d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:51 +0000
Subject: [PATCH 40/64] fix: an unreadable or empty GDS input aborted with a
 traceback

---
 klayout_pex/kpex_cli.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index b907011..7ce872a 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -371,11 +371,18 @@ class KpexCLI:
                 found_errors = True
             else:
                 args.layout = kdb.Layout()
-                args.layout.read(args.gds_path)
-
-                top_cells = args.layout.top_cells()
+                top_cells: List[kdb.Cell] = []
+                try:
+                    args.layout.read(args.gds_path)
+                    top_cells = args.layout.top_cells()
+                except RuntimeError as e:
+                    error(f"Can't read GDS file (LVS input) at path {args.gds_path}: {e}")
+                    found_errors = True
 
-                if args.cell_name:  # explicit user-specified cell name
+                if not top_cells:
+                    error(f"Could not find any cells in GDS {args.gds_path}")
+                    found_errors = True
+                elif args.cell_name:  # explicit user-specified cell name
                     args.effective_cell_name = args.cell_name
 
                     found_cell: Optional[kdb.Cell] = None
-- 
2.43.0


From f40ce51c0312e34c7d95786f9bdbb77fa903c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:51 +0000
Subject: [PATCH 41/64] fix: kpex crashed if PDKPATH is set, but PDK is not

---
 klayout_pex/kpex_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 7ce872a..5bd506d 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -255,9 +255,10 @@ class KpexCLI:
                                      help="FasterCap -pj Use Jacobi preconditioner (default is %(default)s)")
 
         PDKPATH = os.environ.get('PDKPATH', None)
+        PDK_NAME = os.environ.get('PDK', None)
         default_magicrc_path = \
-            None if PDKPATH is None \
-            else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{os.environ['PDK']}.magicrc")
+            None if PDKPATH is None or PDK_NAME is None \
+            else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{PDK_NAME}.magicrc")
         group_magic = main_parser.add_argument_group("MAGIC options")
         group_magic.add_argument('--magicrc', dest='magicrc_path', default=default_magicrc_path,
                                   help=f"Path to magicrc configuration file (default is '%(default)s')")
-- 
2.43.0


From 91aa161c932f9a79b670aa8761db98b2e516cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:51 +0000
Subject: [PATCH 42/64] fix: running Magic without a magicrc file aborted with
 a traceback

---
 klayout_pex/kpex_cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 5bd506d..c745b07 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -363,6 +363,11 @@ class KpexCLI:
                 error(f"Neither GDS nor LVSDB was provided")
                 found_errors = True
 
+        if args.run_magic and not (args.magicrc_path and os.path.isfile(args.magicrc_path)):
+            error(f"Running PEX engine MAGIC requires a magicrc file (--magicrc), "
+                  f"can't read file at path {args.magicrc_path}")
+            found_errors = True
+
         # input mode: LVS or existing LVSDB?
         if args.gds_path is not None:
             info(f"GDS input file passed, running in LVS mode")
-- 
2.43.0


From d0fb7c746af62f6a1c815980165ca3f773d17cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:27 +0000
Subject: [PATCH 43/64] fix: reduced netlist could still combine capacitors as
 resistors, if an undefined device class ID equals a new one

---
 klayout_pex/klayout/netlist_reducer.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/klayout/netlist_reducer.py b/klayout_pex/klayout/netlist_reducer.py
index e360cac..bb644e0 100644
--- a/klayout_pex/klayout/netlist_reducer.py
+++ b/klayout_pex/klayout/netlist_reducer.py
@@ -36,10 +36,17 @@ class NetlistReducer:
         # NOTE: Netlist.dup() leaves the IDs of the cloned device classes uninitialized,
         #       but combine_devices() distinguishes the classes by their ID
         #       (so capacitors could be combined with resistors)
-        for old_dc in list(netlist.each_device_class()):
-            new_dc = type(old_dc)()
-            new_dc.assign(old_dc)
-            netlist.add(new_dc)
+        old_device_classes = list(netlist.each_device_class())
+        old_ids = {dc.id() for dc in old_device_classes}
+        for old_dc in old_device_classes:
+            # NOTE: an ID of an old class must not happen to be the ID of a new one,
+            #       or its devices are also combined by the rules of the old class
+            is_unique = False
+            while not is_unique:
+                new_dc = type(old_dc)()
+                new_dc.assign(old_dc)
+                netlist.add(new_dc)
+                is_unique = new_dc.id() not in old_ids
 
             for circuit in netlist.each_circuit():
                 for old_d in [d for d in circuit.each_device() if d.device_class() == old_dc]:
-- 
2.43.0


From 58afca1da129cbf59abad1ad2f85a1877dd39d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:27 +0000
Subject: [PATCH 44/64] fix: 3D model of a single net without dielectrics lost
 its top and side surfaces

---
 klayout_pex/fastercap/fastercap_model_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index f0a1d2c..473a973 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -459,7 +459,7 @@ class FasterCapModelGenerator:
         debug(f"All conductor region out: {all_cout}")
 
         # check whether states are separated
-        a = reduce(lambda x, y: x+y, self.state.values())
+        a = reduce(lambda x, y: x+y, self.state.values(), kdb.Region())
         for k, s in self.state.items():
             r: kdb.Region = s - a
             if not r.is_empty():
-- 
2.43.0


From c848f7cec0f358e32cc60480a46fef203ec14b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:27 +0000
Subject: [PATCH 45/64] fix: vertical surfaces of diagonal edges were misplaced
 in the 3D model

---
 klayout_pex/fastercap/fastercap_model_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 473a973..34639d5 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -608,13 +608,13 @@ class FasterCapModelGenerator:
         de = kdb.DVector(edge.d().x / el, edge.d().y / el)
         ne = kdb.DVector(edge.d().y / el, -edge.d().x / el)
         p0 = ne * ne.sprod(kdb.DPoint(edge.p1) - kdb.DPoint()) + kdb.DPoint()
-        x1 = (edge.p1 - p0).sprod(de)
-        x2 = (edge.p2 - p0).sprod(de)
+        x1 = (kdb.DPoint(edge.p1) - p0).sprod(de)
+        x2 = (kdb.DPoint(edge.p2) - p0).sprod(de)
 
         key = VKey(kk, p0, de)
-        surface = kdb.Box(x1,
+        surface = kdb.Box(math.floor(x1 + 0.5),
                           math.floor(self.z / self.dbu + 0.5),
-                          x2,
+                          math.floor(x2 + 0.5),
                           math.floor(self.zz / self.dbu + 0.5))
         return key, surface
 
-- 
2.43.0


From 6a26a4feb439b04933bd5b0cfdc3068ce05caf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:27 +0000
Subject: [PATCH 46/64] fix: 3D model had a spurious dielectric interface where
 a dielectric ends below a conductor

---
 .../fastercap/fastercap_model_generator.py     | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 34639d5..5de2eb1 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -413,7 +413,6 @@ class FasterCapModelGenerator:
                 # compute merged events
                 if mk not in self.current:
                     self.current[mk] = []
-                current_before = self.current[mk][0].dup() if len(self.current[mk]) >= 1 else kdb.Region()
                 lin, lout, current = self._merge_events(pyra=self.current[mk],
                                                         lin=self.layers_in.get(mk, None),
                                                         lout=self.layers_out.get(mk, None))
@@ -425,19 +424,14 @@ class FasterCapModelGenerator:
                 if mk not in self.state:
                     self.state[mk] = kdb.Region()
 
-                # legalize in and out events
-                lin_org = lin.dup()
-                lout_org = lout.dup()
-                lout &= self.state[mk]
-                lin -= all
-                lout += current & all_in
-                lin += current_before & all_out
-                lin -= lout_org
-                lout -= lin_org
+                # legalize in and out events:
+                # what is covered by a name of higher priority does not count
+                legalized = current - all
+                lin = legalized - self.state[mk]
+                lout = self.state[mk] - legalized
 
                 # tracks the legalized horizontal cuts
-                self.state[mk] += lin
-                self.state[mk] -= lout
+                self.state[mk] = legalized
 
                 din[mk] = lin
                 dout[mk] = lout
-- 
2.43.0


From cbdba1e5159e7ad62750fd533d5a119c55a633e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:27 +0000
Subject: [PATCH 47/64] fix: net names with slashes, blanks or multibyte
 characters broke the 3D model files

---
 .../fastercap/fastercap_model_generator.py    | 53 +++++++++++++------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 5de2eb1..0480f2e 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -64,6 +64,7 @@ import base64
 from collections import defaultdict
 import hashlib
 import os
+import re
 from typing import *
 from dataclasses import dataclass
 from functools import reduce
@@ -730,12 +731,6 @@ class FasterCapModelGenerator:
         self.diel_data = dk
 
     def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
-        max_filename_length: Optional[int] = None
-        try:
-            max_filename_length = os.pathconf(output_dir_path, 'PC_NAME_MAX')
-        except AttributeError:
-            pass  # NOTE: windows does not support the os.pathconf attribute
-
         lst_fn = os.path.join(output_dir_path, f"{prefix}.lst")
         file_num = 0
         lst_file: List[str] = [f"* k_void={'%.12g' % self.k_void}"]
@@ -794,14 +789,10 @@ class FasterCapModelGenerator:
 
                 outside = outside or '(void)'
                 # lst_file.append(f"* Conductor interface: outside={outside}, net={nn}")
-                fn = f"{prefix}{file_num}_outside={outside}_net={nn}.geo"
-                if max_filename_length is not None and len(fn) > max_filename_length:
-                    warning(f"Unusual long net name detected: {nn}")
-                    d = hashlib.md5(nn.encode('utf-8')).digest()
-                    h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
-                    remaining_len = len(f"{prefix}_{file_num}_outside={outside}_net=.geo")
-                    short_nn = nn[0: (max_filename_length - remaining_len - len(h) - 1)] + f"_{h}"
-                    fn = f"{prefix}{file_num}_outside={outside}_net={short_nn}.geo"
+                fn = self._net_file_name(output_dir_path=output_dir_path,
+                                         head=f"{prefix}{file_num}_outside={outside}_net=",
+                                         net_name=nn,
+                                         extension='.geo')
                 output_path = os.path.join(output_dir_path, fn)
                 self._write_fastercap_geo(output_path=output_path,
                                           data=data,
@@ -818,6 +809,34 @@ class FasterCapModelGenerator:
 
         return lst_fn
 
+    @staticmethod
+    def _net_file_name(output_dir_path: str,
+                       head: str,
+                       net_name: str,
+                       extension: str) -> str:
+        max_filename_length: Optional[int] = None
+        try:
+            max_filename_length = os.pathconf(output_dir_path, 'PC_NAME_MAX')
+        except AttributeError:
+            pass  # NOTE: windows does not support the os.pathconf attribute
+
+        # NOTE: net names can contain characters that are not possible
+        #       in file names, or would break the *.lst file (whitespace)
+        safe_nn = re.sub(r'[\s/\\]', '_', net_name)
+
+        fn = f"{head}{safe_nn}{extension}"
+        is_too_long = max_filename_length is not None and len(fn.encode('utf-8')) > max_filename_length
+        if safe_nn == net_name and not is_too_long:
+            return fn
+
+        warning(f"Unusual net name detected: {net_name}")
+        d = hashlib.md5(net_name.encode('utf-8')).digest()
+        h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
+        if is_too_long:
+            remaining_len = len(f"{head}_{h}{extension}".encode('utf-8'))
+            safe_nn = safe_nn.encode('utf-8')[0: max_filename_length - remaining_len].decode('utf-8', errors='ignore')
+        return f"{head}{safe_nn}_{h}{extension}"
+
     @staticmethod
     def _write_fastercap_geo(output_path: str,
                              data: List[Triangle],
@@ -965,7 +984,11 @@ class FasterCapModelGenerator:
 
         for nn in self.net_names:
             tris = self._collect_cond_tris(nn)
-            output_path = os.path.join(output_dir_path, f"{prefix}cond_{nn}.stl")
+            fn = self._net_file_name(output_dir_path=output_dir_path,
+                                     head=f"{prefix}cond_",
+                                     net_name=nn,
+                                     extension='.stl')
+            output_path = os.path.join(output_dir_path, fn)
             self._write_as_stl(output_path, tris)
 
     @staticmethod
-- 
2.43.0


From ac382720e5aff4966d04c92145d0c2506b87f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 48/64] fix: 3D model of stacked conformal dielectrics counted
 the metal twice and lost the outer one where there is no metal

---
 klayout_pex/fastercap/fastercap_input_builder.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_input_builder.py b/klayout_pex/fastercap/fastercap_input_builder.py
index c746e51..c9b2a67 100644
--- a/klayout_pex/fastercap/fastercap_input_builder.py
+++ b/klayout_pex/fastercap/fastercap_input_builder.py
@@ -257,6 +257,7 @@ class FasterCapInputBuilder:
             if extracted_shapes:
                 sidewall_height = 0
                 sidewall_region = extracted_shapes
+                is_metal_covered = False  # by a conformal dielectric
                 sidewallee = metal_layer_name
 
                 while True:
@@ -281,7 +282,10 @@ class FasterCapInputBuilder:
                             conf_diel = sidewall.conformal_dielectric_layer
                             d = math.floor(conf_diel.thickness_sidewall / self.dbu)
                             sidewall_region = sidewall_region.sized(d)
-                            h_delta = metal_layer.thickness + conf_diel.thickness_over_metal
+                            h_delta = conf_diel.thickness_over_metal
+                            if not is_metal_covered:
+                                h_delta += metal_layer.thickness
+                                is_metal_covered = True
                             sidewall_height += h_delta
                             info(f"Conformal dielectric (sidewall) {sidewall.name}: "
                                  f"z={metal_layer.z}, height={sidewall_height}")
@@ -294,13 +298,14 @@ class FasterCapInputBuilder:
                                 no_metal_region = kdb.Region()
                                 no_metal_region.insert(no_metal_block)
                                 no_metal_region -= sidewall_region
-                                no_metal_height = conf_diel.thickness_where_no_metal
+                                no_metal_z = metal_layer.z + no_metal_height
+                                no_metal_height += conf_diel.thickness_where_no_metal
                                 info(f"Conformal dielectric (where no metal) {sidewall.name}: "
-                                     f"z={metal_layer.z}, height={no_metal_height}")
+                                     f"z={no_metal_z}, height={conf_diel.thickness_where_no_metal}")
                                 model_builder.add_dielectric(material_name=sidewall.name,
                                                              layer=no_metal_region,
-                                                             z=metal_layer.z,
-                                                             height=no_metal_height)
+                                                             z=no_metal_z,
+                                                             height=conf_diel.thickness_where_no_metal)
 
                     sidewallee = sidewall.name
 
-- 
2.43.0


From ade9c7d9df62c38ca38e285363bb82166018b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:06 +0000
Subject: [PATCH 49/64] fix: excluding a dielectric also dropped the selected
 ones deposited on top of it

---
 klayout_pex/tech_info.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index ade462c..ac8c28a 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -175,7 +175,7 @@ class TechInfo:
 
     def sidewall_dielectric_layer(self, layer_name: str) -> Optional[process_stack_pb2.ProcessStackInfo.LayerInfo]:
         found_layers: List[process_stack_pb2.ProcessStackInfo.LayerInfo] = []
-        for lyr in self.filtered_dielectric_layers:
+        for lyr in self.tech.process_stack.layers:
             match lyr.layer_type:
                 case process_stack_pb2.ProcessStackInfo.LAYER_TYPE_SIDEWALL_DIELECTRIC:
                     if lyr.sidewall_dielectric_layer.reference == layer_name:
@@ -190,6 +190,9 @@ class TechInfo:
             return None
         if len(found_layers) >= 2:
             raise Exception(f"found multiple sidewall dielectric layers for {layer_name}")
+        if not self.dielectric_filter.is_included(found_layers[0].name):
+            # NOTE: the next dielectric of the chain takes the place of the excluded one
+            return self.sidewall_dielectric_layer(found_layers[0].name)
         return found_layers[0]
 
     def simple_dielectric_above_metal(self, layer_name: str) -> Tuple[Optional[process_stack_pb2.ProcessStackInfo.LayerInfo], float]:
-- 
2.43.0


From a131c85667c8d3b3d96c440972cb9e03e1f25553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:32 +0000
Subject: [PATCH 50/64] fix: repair of marker databases lost categories with
 special characters, or crashed on them

---
 klayout_pex/klayout/repair_rdb.py | 73 +++++++++++++++++--------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index 99dc179..8a4a352 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -24,6 +24,7 @@
 import gzip
 import io
 import os.path
+import re
 import shutil
 import sys
 from typing import *
@@ -46,39 +47,42 @@ from ..log import (
 
 
 def parse_category_path(category_path: str) -> List[str]:
-    within_escaped = False
-    within_backslash = False
-    current_word = ''
-    path_list = []
-    for c in category_path:
-        match c:
-            case '.':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                elif within_escaped:
-                    current_word += c
-                else:
-                    path_list.append(current_word)
-                    current_word = ''
-            case '\\':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_backslash = True
-            case '\'':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_escaped = not within_escaped
-            case _:
-                current_word += c
-    if len(current_word) >= 1:
-        path_list.append(current_word)
+    """
+    Splits a category path (as written by KLayout) into its components.
+
+    Components are separated by dots. A component is quoted if it is not a plain word,
+    and within quotes, special characters are escaped by a backslash
+    (non-ASCII characters are written as octal codes of their UTF-8 bytes)
+    """
+    path_list: List[str] = []
+    current_word = bytearray()
+    quote: Optional[str] = None
+    i = 0
+    while i < len(category_path):
+        c = category_path[i]
+        i += 1
+        if quote is not None and c == '\\' and i < len(category_path):
+            octal_code = re.match(r'[0-7]{1,3}', category_path[i:])
+            if octal_code:
+                current_word.append(int(octal_code.group(0), base=8) & 0xff)
+                i += len(octal_code.group(0))
+            else:
+                c = category_path[i]
+                current_word += {'n': '\n', 'r': '\r', 't': '\t'}.get(c, c).encode('utf-8')
+                i += 1
+        elif quote is not None and c == quote:
+            quote = None
+        elif quote is None and c in ('\'', '"'):
+            quote = c
+        elif quote is None and c == '.':
+            path_list.append(current_word.decode('utf-8', errors='replace'))
+            current_word = bytearray()
+        else:
+            current_word += c.encode('utf-8')
+    path_list.append(current_word.decode('utf-8', errors='replace'))
     return path_list
 
+
 def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
     et = ET.parse(xml_file)
     root = et.getroot()
@@ -93,7 +97,10 @@ def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
         elem = root
         for c in p:
             elemcats = elem.find("./categories")
-            subelem = elemcats.find("./category/name[.='{0}']/..".format(c))
+            if elemcats is None:
+                elemcats = ET.Element("categories")
+                elem.insert(0, elemcats)  # NOTE: categories must precede the items
+            subelem = next((e for e in elemcats.findall("./category") if e.findtext("./name") == c), None)
             if subelem is None:
                 warning(f"In category path {p}, can't find element for component {c}")
                 new_category = ET.SubElement(elemcats, "category")
@@ -117,7 +124,7 @@ def repair_rdb(rdb_path: str):
         with gzip.open(rdb_path, 'r') as f:
             repair_rdb_xml(f, new_xml_path)
     else:
-        with open(rdb_path, 'r') as f:
+        with open(rdb_path, 'rb') as f:
             repair_rdb_xml(f, new_xml_path)
 
     report = rdb.ReportDatabase('')
-- 
2.43.0


From ea77b5a9ec626a7637cfea17d05b44fad505cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:32 +0000
Subject: [PATCH 51/64] fix: technology lookups which raised exceptions (pin
 layers, process stack by GDS pair, contacts above metals, sidewall overlap
 capacitances)

---
 klayout_pex/tech_info.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index ac8c28a..5c9f7d7 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -91,10 +91,10 @@ class TechInfo:
         return {lyr.name: lyr for lyr in self.tech.layers}
 
     @cached_property
-    def pin_layer_mapping_for_drw_gds_pair(self) -> Dict[GDSPair, tech_pb2.PinLayerMapping]:
+    def pin_layer_mapping_for_drw_gds_pair(self) -> Dict[GDSPair, GDSPair]:
         return {
-            (m.drw_gds_layer, m.drw_gds_datatype): (m.pin_gds_layer, m.pin_gds_datatype)
-            for m in self.tech.pin_layer_mappings
+            (lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype): (lyr.pin_gds_pair.layer, lyr.pin_gds_pair.datatype)
+            for lyr in self.tech.layers if lyr.HasField('pin_gds_pair')
         }
 
     @cached_property
@@ -111,9 +111,12 @@ class TechInfo:
 
     @cached_property
     def process_stack_layer_by_gds_pair(self) -> Dict[GDSPair, process_stack_pb2.ProcessStackInfo.LayerInfo]:
+        # NOTE: only conductors, wells and diffusion are drawn
+        LT = process_stack_pb2.ProcessStackInfo.LayerType
         return {
-            (lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype): self.process_stack_layer_by_name[lyr.name]
+            self.gds_pair(lyr.name): lyr
             for lyr in self.tech.process_stack.layers
+            if lyr.layer_type in (LT.LAYER_TYPE_NWELL, LT.LAYER_TYPE_DIFFUSION, LT.LAYER_TYPE_METAL)
         }
 
     @cached_property
@@ -216,11 +219,12 @@ class TechInfo:
         return diel_lyr, 5.0   # air TODO
 
     @cached_property
-    def contact_above_metal_layer_name(self) -> Dict[str, process_stack_pb2.ProcessStackInfo.Contact]:
+    def contact_above_metal_layer_name(self) -> Dict[str, str]:
         d = {}
         for lyr in self.process_metal_layers:
-            contact = lyr.metal_layer.contact_above
-            via_gds_pair = self.gds_pair(contact)
+            if not lyr.metal_layer.HasField('contact_above'):
+                continue
+            via_gds_pair = self.gds_pair(lyr.metal_layer.contact_above.name)
             canonical_via_name = self.canonical_layer_name_by_gds_pair[via_gds_pair]
             d[lyr.name] = canonical_via_name
         return d
@@ -398,7 +402,10 @@ class TechInfo:
 
         for k1, ve in d2.items():
             for k2, v in ve.items():
-                d[k1][k2] = v
+                if k1 not in d:
+                    d[k1] = {k2: v}
+                else:
+                    d[k1][k2] = v
 
         return d
 
-- 
2.43.0


From 17a7ad040a865810cf424a3d8156eab1772b662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:32 +0000
Subject: [PATCH 52/64] fix: nodes with fractional capacitance were lost when
 reading Magic's results; cells with '.ext' in their name

---
 klayout_pex/magic/magic_ext_data_structures.py |  4 ++--
 klayout_pex/magic/magic_ext_file_parser.py     | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/magic/magic_ext_data_structures.py b/klayout_pex/magic/magic_ext_data_structures.py
index 7083809..93eb093 100644
--- a/klayout_pex/magic/magic_ext_data_structures.py
+++ b/klayout_pex/magic/magic_ext_data_structures.py
@@ -48,7 +48,7 @@ class Port:
 class Node:
     net: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
     layer: str
@@ -94,7 +94,7 @@ class ExtData:
 class ResNode:
     name: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
 
diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index 5671376..dc6cde5 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -50,7 +50,7 @@ def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
     main_paths_by_cell_name: Dict[CellName, Path] = dict()
     res_paths_by_cell_name: Dict[CellName, Path] = dict()
 
-    regex = r'(?P<cell>.*?)(?P<res>\.res)?\.ext'
+    regex = r'(?P<cell>.*?)(?P<res>\.res)?\.ext$'
     for ef in ext_files:
         m = re.match(regex, ef.name)
         if not m:
@@ -101,12 +101,12 @@ def parse_magic_ext_file(path: Path) -> ExtData:
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^(node|substrate) "(?P<net>[^"]+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
+                r'^(node|substrate) "(?P<net>[^"]+)" (?P<int_r>\d+) (?P<fin_c>-?[\d.]+([eE][-+]?\d+)?) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
                 line.strip())
             if m:
                 nodes.append(Node(net=m.group('net'),
                                   int_r=int(m.group('int_r')),
-                                  fin_c=int(m.group('fin_c')),
+                                  fin_c=float(m.group('fin_c')),
                                   x_bot=int(m.group('x_bot')),
                                   y_bot=int(m.group('y_bot')),
                                   layer=m.group('layer')))
@@ -133,12 +133,12 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     with open(path, 'r') as f:
         for line in f.readlines():
             m = re.match(
-                r'^rnode "(?P<name>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
+                r'^rnode "(?P<name>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>-?[\d.]+([eE][-+]?\d+)?) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
                 line.strip())
             if m:
                 rnodes.append(ResNode(name=m.group('name'),
                                       int_r=int(m.group('int_r')),  # NOTE: R is always 0!
-                                      fin_c=int(m.group('fin_c')),
+                                      fin_c=float(m.group('fin_c')),
                                       x_bot=int(m.group('x_bot')),
                                       y_bot=int(m.group('y_bot'))))
 
-- 
2.43.0


From 7d60b45af89309a558a7f703a6f7396fe43a6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:32 +0000
Subject: [PATCH 53/64] fix: Magic report markers were off by one database unit
 or lost (coordinates truncated)

---
 klayout_pex/magic/magic_log_analyzer.py | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index 92ece0b..fb86f9a 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -67,24 +67,26 @@ class MagicLogAnalyzer:
 
         dbu_to_um = 200.0
 
-        def box_for_point_dbu(x: float, y: float) -> kdb.Box:
-            return kdb.Box(x, y, x + 20, y + 20)
+        def to_dbu(coordinate: int) -> int:
+            return round(coordinate / dbu_to_um / self.dbu)
+
+        def box_for_point(x: int, y: int) -> kdb.Box:
+            return kdb.Box(to_dbu(x), to_dbu(y), to_dbu(x) + 20, to_dbu(y) + 20)
 
         for p in cell_data.ext_data.ports:
             port_cat = self.report.create_category(parent=ports_cat, name=f"{p.net} ({p.layer})")
             shapes = kdb.Shapes()
-            shapes.insert(kdb.Box(p.x_bot / dbu_to_um / self.dbu,
-                                  p.y_bot / dbu_to_um / self.dbu,
-                                  p.x_top / dbu_to_um / self.dbu,
-                                  p.y_top / dbu_to_um / self.dbu))
+            shapes.insert(kdb.Box(to_dbu(p.x_bot),
+                                  to_dbu(p.y_bot),
+                                  to_dbu(p.x_top),
+                                  to_dbu(p.y_top)))
             self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=port_cat.rdb_id(),
                                      trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
         for n in cell_data.ext_data.nodes:
             node_cat = self.report.create_category(parent=nodes_cat, name=f"{n.net} ({n.layer})")
             shapes = kdb.Shapes()
-            shapes.insert(box_for_point_dbu(n.x_bot / dbu_to_um / self.dbu,
-                                            n.y_bot / dbu_to_um / self.dbu))
+            shapes.insert(box_for_point(n.x_bot, n.y_bot))
             self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=node_cat.rdb_id(),
                                      trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
@@ -92,10 +94,10 @@ class MagicLogAnalyzer:
             device_cat = self.report.create_category(parent=devices_cat,
                                                      name=f"Type={d.device_type} Model={d.model}")
             shapes = kdb.Shapes()
-            shapes.insert(kdb.Box(d.x_bot / dbu_to_um / self.dbu,
-                                  d.y_bot / dbu_to_um / self.dbu,
-                                  d.x_top / dbu_to_um / self.dbu,
-                                  d.y_top / dbu_to_um / self.dbu))
+            shapes.insert(kdb.Box(to_dbu(d.x_bot),
+                                  to_dbu(d.y_bot),
+                                  to_dbu(d.x_top),
+                                  to_dbu(d.y_top)))
             self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=device_cat.rdb_id(),
                                      trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
@@ -104,8 +106,7 @@ class MagicLogAnalyzer:
                 rnode_cat = self.report.create_category(parent=rnodes_cat,
                                                         name=n.name)
                 shapes = kdb.Shapes()
-                shapes.insert(box_for_point_dbu(n.x_bot / dbu_to_um / self.dbu,
-                                                n.y_bot / dbu_to_um / self.dbu))
+                shapes.insert(box_for_point(n.x_bot, n.y_bot))
                 self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=rnode_cat.rdb_id(),
                                          trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
@@ -115,8 +116,7 @@ class MagicLogAnalyzer:
                 shapes = kdb.Shapes()
                 for n in cell_data.res_ext_data.rnodes_by_name(r.node1) + \
                          cell_data.res_ext_data.rnodes_by_name(r.node2):
-                    box = box_for_point_dbu(n.x_bot / dbu_to_um / self.dbu,
-                                            n.y_bot / dbu_to_um / self.dbu)
+                    box = box_for_point(n.x_bot, n.y_bot)
                     shapes.insert(box)
                 self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=res_cat.rdb_id(),
                                          trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
-- 
2.43.0


From b42d134bf37525c4558c1b3e215c135c036303b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:32 +0000
Subject: [PATCH 54/64] fix: schematic JSON kept only one instance of each
 subcircuit

---
 klayout_pex/netlistsvg/netlist_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/netlistsvg/netlist_json.py b/klayout_pex/netlistsvg/netlist_json.py
index b04c89e..e64c3cd 100644
--- a/klayout_pex/netlistsvg/netlist_json.py
+++ b/klayout_pex/netlistsvg/netlist_json.py
@@ -86,7 +86,7 @@ class NetlistJSONWriter:
                 port_directions[pin_text] = 'input'
                 connections[pin_text] = [self._get_or_create_id(net)]
 
-            cells_dict[f"{subcircuit.name}{subcircuit.cell_index}"] = {
+            cells_dict[f"X{sc.expanded_name()}"] = {
                 'hide_name': 1,
                 'type': f"${subcircuit.name}",
                 'port_directions': port_directions,
-- 
2.43.0


From 302b08dd3dd5d9f878bc428eb514d8730fdb8293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:32 +0000
Subject: [PATCH 55/64] fix: netlist tool ignored the option --cell

---
 klayout_pex/netlist/netlist_cli.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index 93b5e36..47c72e3 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -153,6 +153,14 @@ class NetlistCLI:
 
         top_circuit: kdb.Circuit
 
+        if args.cell_name is not None:
+            top_circuit = netlist.circuit_by_name(args.cell_name)
+            if top_circuit is None:
+                error(f"Cell {args.cell_name} not found in SPICE netlist")
+                sys.exit(3)
+            n_circuits = 1
+            top_circuits = [top_circuit]
+
         match n_circuits:
             case 0:
                 error(f"No top circuit found in SPICE netlist, perhaps the SUBCKT with the ports is missing?!")
-- 
2.43.0


From 99f5d60d416f62a2d3c6eaefc8fdfde0f62fc77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:42 +0000
Subject: [PATCH 56/64] fix: sky130A: label layer of diff is 65/6 (65/5 is the
 one of tap)

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 6832b67..7772512 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -48,7 +48,7 @@ void buildLayers(kpex::tech::Technology *tech) {
     //             purpose, name,    drw_gds, pin_gds, label_gds, description
     addLayer(tech, DNWELL,  "dnwell", 64,18,  -1,-1,  -1,-1,   "Deep N-well");
     addLayer(tech, NWELL,   "nwell",  64,20,  64,16,   64,5,   "N-well region");
-    addLayer(tech, DIFF,    "diff",   65,20,  65,16,   65,5,   "Active (diffusion) area");
+    addLayer(tech, DIFF,    "diff",   65,20,  65,16,   65,6,   "Active (diffusion) area");
     addLayer(tech, N_P_TAP, "tap",    65,44,  -1,-1,  -1,-1,   "Active (diffusion) area (type equal to the well/substrate underneath) (i.e., N+ and P+)");
     addLayer(tech, PIMP,    "psdm",   94,20,  -1,-1,  -1,-1,   "P+ source/drain implant");
     addLayer(tech, NIMP,    "nsdm",   93,44,  -1,-1,  -1,-1,   "N+ source/drain implant");
-- 
2.43.0


From c64a14d003478888345612deda04322b3edcac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:42 +0000
Subject: [PATCH 57/64] fix: sky130A: MiM cap vias start on the cap plates
 capm/capm2, and are not as thick as the dielectric below the plates as well

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 7772512..557bfe3 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -297,9 +297,9 @@ void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
     setContact(via,        "via1_con",       "met1",      "met2",      0.27,                    0.15,    0.17,  0.055);
     setContact(via2,       "via2_con",       "met2",      "met3",      0.42,                    0.20,    0.20,  0.04);
     setContact(via3_ncap,  "via3_ncap",      "met3",      "met4",      0.39,                    0.20,    0.20,  0.06);
-    setContact(via3_cap,   "via3_cap",       "met3",      "met4",      0.29,                    0.20,    0.20,  0.06);
+    setContact(via3_cap,   "via3_cap",       "capm",      "met4",      0.39 - capild_thickness - capm_thickness,  0.20,  0.20,  0.06);
     setContact(via4_ncap,  "via4_ncap",      "met4",      "met5",      0.505,                   0.80,    0.80,  0.19);
-    setContact(via4_cap,   "via4_cap",       "met4",      "met5",      0.505 - 0.1,             0.80,    0.80,  0.19);
+    setContact(via4_cap,   "via4_cap",       "capm2",     "met5",      0.505 - capild_thickness - capm_thickness, 0.80,  0.80,  0.19);
 }
 
 void buildProcessParasiticsInfo(kpex::tech::ProcessParasiticsInfo *ex) {
-- 
2.43.0


From 6ccab8b096453f6fa0d38e55404dbb997f203cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:00 +0000
Subject: [PATCH 58/64] fix: lvs_layer_names: import klayout_pex, accept the
 documented log level names

---
 lvs_layer_names.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lvs_layer_names.py b/lvs_layer_names.py
index 85adcb0..64c25a0 100755
--- a/lvs_layer_names.py
+++ b/lvs_layer_names.py
@@ -30,7 +30,7 @@ import shlex
 import sys
 from typing import *
 
-from kpex.log import (
+from klayout_pex.log import (
     LogLevel,
     set_log_level,
     # debug,
@@ -39,8 +39,8 @@ from kpex.log import (
     error, warning
 )
 
-from kpex.version import __version__
-from kpex.util.argparse_helpers import render_enum_help
+from klayout_pex.version import __version__
+from klayout_pex.util.argparse_helpers import render_enum_help
 
 # ------------------------------------------------------------------------------------
 
@@ -74,7 +74,12 @@ def parse_args(arg_list: List[str] = None) -> argparse.Namespace:
 def validate_args(args: argparse.Namespace):
     found_errors = False
 
-    # ...
+    try:
+        args.log_level = LogLevel[args.log_level.upper()]
+    except KeyError:
+        error(f"Requested log level {args.log_level.lower()} does not exist, "
+              f"{render_enum_help(topic='log_level', enum_cls=LogLevel, print_default=False)}")
+        found_errors = True
 
     if found_errors:
         raise Exception("Argument validation failed")
-- 
2.43.0


From 5f279bc3534e387c83ec90017072df13ce361a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:00 +0000
Subject: [PATCH 59/64] fix: don't cut the last output line of tools, if there
 is no line end

---
 klayout_pex/fastcap/fastcap_runner.py       | 2 +-
 klayout_pex/fastercap/fastercap_runner.py   | 2 +-
 klayout_pex/klayout/lvs_runner.py           | 2 +-
 klayout_pex/magic/magic_runner.py           | 2 +-
 klayout_pex/netlistsvg/netlistsvg_runner.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 9a0ceeb..36ca92c 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -92,7 +92,7 @@ def run_fastcap(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.rstrip('\n'))  # remove newline
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index 31759cd..a0ea2a5 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -87,7 +87,7 @@ def run_fastercap(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.rstrip('\n'))  # remove newline
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index ebb6cd4..a114623 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -84,7 +84,7 @@ class LVSRunner:
                 line = proc.stdout.readline()
                 if not line:
                     break
-                subproc(line[:-1])  # remove newline
+                subproc(line.rstrip('\n'))  # remove newline
                 f.writelines([line])
         proc.wait()
 
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 5e29ebe..ad801e0 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -206,7 +206,7 @@ def run_magic(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.rstrip('\n'))  # remove newline
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index 66b1dc9..cdd1118 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -73,7 +73,7 @@ def run_netlistsvg(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.rstrip('\n'))  # remove newline
             f.writelines([line])
     proc.wait()
 
-- 
2.43.0


From a331e144abd3e30df51305f30f811703ed324937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:00 +0000
Subject: [PATCH 60/64] fix: read and log UTF-8 in every locale, don't end runs
 on consoles with other encodings

---
 klayout_pex/common/capacitance_matrix.py   | 2 +-
 klayout_pex/fastcap/fastcap_runner.py      | 2 +-
 klayout_pex/fastercap/fastercap_runner.py  | 2 +-
 klayout_pex/kpex_cli.py                    | 8 ++++----
 klayout_pex/log/logger.py                  | 7 +++++++
 klayout_pex/magic/magic_ext_file_parser.py | 4 ++--
 klayout_pex/tech_info.py                   | 2 +-
 7 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/klayout_pex/common/capacitance_matrix.py b/klayout_pex/common/capacitance_matrix.py
index 9ef8c91..e2c9bbd 100644
--- a/klayout_pex/common/capacitance_matrix.py
+++ b/klayout_pex/common/capacitance_matrix.py
@@ -45,7 +45,7 @@ class CapacitanceMatrix:
 
     @classmethod
     def parse_csv(cls, path: str, separator: str = ';'):
-        with open(path, 'r') as f:
+        with open(path, 'r', encoding='utf-8') as f:
             lines = f.readlines()
             if len(lines) < 2:
                 raise Exception(f"Capacitance Matrix CSV must at least have 2 lines: "
diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 36ca92c..6cf194b 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -120,7 +120,7 @@ FASTCAP_UNIT_PREFIXES: Dict[str, float] = {
 # $2%GROUP3 3      -2115      130.9       6792      -5388
 # $2%GROUP3 4      54.97 -3.682e+05      -5388  3.753e+05
 def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
-    with open(log_path, 'r') as f:
+    with open(log_path, 'r', encoding='utf-8') as f:
         rlines = f.readlines()
         rlines.reverse()
 
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index a0ea2a5..ec85aa5 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -103,7 +103,7 @@ def run_fastercap(exe_path: str,
 
 
 def fastercap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
-    with open(log_path, 'r') as f:
+    with open(log_path, 'r', encoding='utf-8') as f:
         rlines = f.readlines()
         rlines.reverse()
 
diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index c745b07..89da06c 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -579,7 +579,7 @@ class KpexCLI:
                                      output_path=expanded_netlist_csv_path)
 
         rule("Extended netlist (CSV format):")
-        with open(expanded_netlist_csv_path, 'r') as f:
+        with open(expanded_netlist_csv_path, 'r', encoding='utf-8') as f:
             for line in f.readlines():
                 subproc(line[:-1])  # abusing subproc, simply want verbatim
         rule()
@@ -657,7 +657,7 @@ class KpexCLI:
         subproc(f"SPICE netlist saved at: {output_netlist_path}")
 
         rule("MAGIC PEX SPICE netlist")
-        with open(output_netlist_path, 'r') as f:
+        with open(output_netlist_path, 'r', encoding='utf-8') as f:
             subproc(f.read())
         rule()
 
@@ -739,7 +739,7 @@ class KpexCLI:
                     f.write(f"R{idx + 1};{key.net1};{key.net2};;{round(res_value, 3)}\n")
 
             rule('kpex/2.5D extracted netlist (CSV format)')
-            with open(netlist_csv_path, 'r') as f:
+            with open(netlist_csv_path, 'r', encoding='utf-8') as f:
                 for line in f.readlines():
                     subproc(line[:-1])  # abusing subproc, simply want verbatim
 
@@ -777,7 +777,7 @@ class KpexCLI:
     def setup_logging(self, args: argparse.Namespace):
         def register_log_file_handler(log_path: str,
                                       formatter: Optional[logging.Formatter]) -> logging.Handler:
-            handler = logging.FileHandler(log_path)
+            handler = logging.FileHandler(log_path, encoding='utf-8', errors='backslashreplace')
             handler.setLevel(LogLevel.SUBPROCESS)
             if formatter:
                 handler.setFormatter(formatter)
diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index ed882fd..9a97cd3 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -24,9 +24,11 @@
 from __future__ import annotations
 from enum import IntEnum
 from functools import cached_property
+import io
 import logging
 import rich.console
 import rich.logging
+import sys
 from typing import *
 
 
@@ -70,6 +72,11 @@ class LogLevelFilter(logging.Filter):
             return record.levelname in self.levels
 
 
+# NOTE: messages contain units and names, which must not end a run on consoles that can't display them
+for __stream in (sys.stdout, sys.stderr):
+    if isinstance(__stream, io.TextIOWrapper):
+        __stream.reconfigure(errors='backslashreplace')
+
 console = rich.console.Console()
 __logger = logging.getLogger("__kpex__")
 
diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index dc6cde5..1e2faa6 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -85,7 +85,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
     nodes: List[Node] = []
     devices: List[Device] = []
 
-    with open(path, 'r') as f:
+    with open(path, 'r', encoding='utf-8') as f:
         for line in f.readlines():
             # port "VDD" 2 -600 800 500 1000 m1
             # port "VSS" 3 -600 500 500 700 m1
@@ -130,7 +130,7 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     rnodes = []
     resistors = []
 
-    with open(path, 'r') as f:
+    with open(path, 'r', encoding='utf-8') as f:
         for line in f.readlines():
             m = re.match(
                 r'^rnode "(?P<name>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>-?[\d.]+([eE][-+]?\d+)?) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index 5c9f7d7..c458fb4 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -44,7 +44,7 @@ class TechInfo:
 
     @staticmethod
     def parse_tech_def(jsonpb_path: str) -> tech_pb2.Technology:
-        with open(jsonpb_path, 'r') as f:
+        with open(jsonpb_path, 'r', encoding='utf-8') as f:
             contents = f.read()
             tech = google.protobuf.json_format.Parse(contents, tech_pb2.Technology())
             return tech
-- 
2.43.0


From 4313b3278c7050197f61ecd147fa158a7a2896ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:00 +0000
Subject: [PATCH 61/64] fix: keep the log files of other runs within the same
 process or second apart

---
 klayout_pex/kpex_cli.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 89da06c..4f283ff 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -137,6 +137,9 @@ class PDK(StrEnum):
 
 
 class KpexCLI:
+    def __init__(self):
+        self.log_file_handlers: List[logging.Handler] = []
+
     @staticmethod
     def parse_args(arg_list: List[str],
                    env: Env) -> argparse.Namespace:
@@ -774,6 +777,12 @@ class KpexCLI:
 
         return extraction_results
 
+    def deregister_log_file_handler(self, handler: logging.Handler):
+        self.log_file_handlers.remove(handler)
+        deregister_additional_handler(handler)
+        handler.flush()
+        handler.close()
+
     def setup_logging(self, args: argparse.Namespace):
         def register_log_file_handler(log_path: str,
                                       formatter: Optional[logging.Formatter]) -> logging.Handler:
@@ -782,14 +791,13 @@ class KpexCLI:
             if formatter:
                 handler.setFormatter(formatter)
             register_additional_handler(handler)
+            self.log_file_handlers.append(handler)
             return handler
 
         def reregister_log_file_handler(handler: logging.Handler,
                                         log_path: str,
                                         formatter: Optional[logging.Formatter]):
-            deregister_additional_handler(handler)
-            handler.flush()
-            handler.close()
+            self.deregister_log_file_handler(handler)
             os.makedirs(args.output_dir_path, exist_ok=True)
             new_path = os.path.join(args.output_dir_path, os.path.basename(log_path))
             if os.path.exists(new_path):
@@ -797,6 +805,10 @@ class KpexCLI:
                 dt = datetime.fromtimestamp(ctime)
                 timestamp = dt.strftime('%Y-%m-%d_%H-%M-%S')
                 backup_path = f"{new_path[:-4]}_{timestamp}.bak.log"
+                n = 1
+                while os.path.exists(backup_path):  # NOTE: multiple runs within the same second
+                    n += 1
+                    backup_path = f"{new_path[:-4]}_{timestamp}_{n}.bak.log"
                 shutil.move(new_path, backup_path)
             log_path = shutil.move(log_path, new_path)
             register_log_file_handler(log_path, formatter)
@@ -903,6 +915,14 @@ class KpexCLI:
         return lvsdb
 
     def main(self, argv: List[str]):
+        try:
+            self.run(argv)
+        finally:
+            # NOTE: messages of further runs within this process don't belong to the log files of this one
+            for handler in list(self.log_file_handlers):
+                self.deregister_log_file_handler(handler)
+
+    def run(self, argv: List[str]):
         if '-v' not in argv and \
            '--version' not in argv and \
            '-h' not in argv and \
-- 
2.43.0


From baf006740baee3e012159a2f0d23c29d35fe3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:00 +0000
Subject: [PATCH 62/64] fix: log level 'all' showed warnings and errors only

---
 klayout_pex/log/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index 9a97cd3..e60ee37 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -33,7 +33,7 @@ from typing import *
 
 
 class LogLevel(IntEnum):
-    ALL = 0
+    ALL = 1  # NOTE: 0 (NOTSET) would inherit the level of the root logger
     DEBUG = 10
     SUBPROCESS = 12
     VERBOSE = 15
-- 
2.43.0


From 7c303c0f70c3c5bc52c9c533331cd5e87a07624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:00 +0000
Subject: [PATCH 63/64] fix: show log messages verbatim (names with brackets
 were dropped or ended the run)

---
 klayout_pex/log/logger.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index e60ee37..739d856 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -28,6 +28,7 @@ import io
 import logging
 import rich.console
 import rich.logging
+import rich.text
 import sys
 from typing import *
 
@@ -49,14 +50,15 @@ class LogLevel(IntEnum):
         return {e.name: e for e in cls}
 
 
-class LogLevelFormatter(logging.Formatter):
-    def format(self, record: logging.LogRecord) -> str:
-        msg = record.getMessage()
-        match record.levelno:
-            case LogLevel.WARNING.value: return f"[yellow]{msg}"
-            case LogLevel.ERROR.value: return f"[red]{msg}"
-            case _:
-                return msg
+class LogLevelRichHandler(rich.logging.RichHandler):
+    # NOTE: no console markup, messages contain names and paths, which must be shown verbatim
+    def render_message(self, record: logging.LogRecord, message: str) -> rich.console.ConsoleRenderable:
+        message_renderable = super().render_message(record, message)
+        if isinstance(message_renderable, rich.text.Text):
+            match record.levelno:
+                case LogLevel.WARNING.value: message_renderable.stylize('yellow')
+                case LogLevel.ERROR.value: message_renderable.stylize('red')
+        return message_renderable
 
 
 class LogLevelFilter(logging.Filter):
@@ -129,17 +131,17 @@ def configure_logger():
     )
     subprocess_rich_handler.addFilter(LogLevelFilter(['SUBPROCESS']))
 
-    rich_handler = rich.logging.RichHandler(
+    rich_handler = LogLevelRichHandler(
         console=console,
         omit_repeated_times=False,
         show_level=True,
-        markup=True,
+        markup=False,
         rich_tracebacks=True,
         tracebacks_suppress=[],
         keywords=[]
     )
 
-    rich_handler.setFormatter(LogLevelFormatter(fmt='%(message)s', datefmt='[%X]'))
+    rich_handler.setFormatter(logging.Formatter(fmt='%(message)s', datefmt='[%X]'))
     rich_handler.addFilter(LogLevelFilter(['SUBPROCESS'], invert=True))
 
     set_log_level(LogLevel.SUBPROCESS)
-- 
2.43.0


From 162df533aa71700a2f736e3fe32473eef038925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:03 +0000
Subject: [PATCH 64/64] fix: ResistorNetwork.add_cond: do not alter (or share)
 the caller's Conductance object

---
 klayout_pex/rcx25/r/resistor_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/rcx25/r/resistor_network.py b/klayout_pex/rcx25/r/resistor_network.py
index b912bba..65fdd59 100644
--- a/klayout_pex/rcx25/r/resistor_network.py
+++ b/klayout_pex/rcx25/r/resistor_network.py
@@ -232,6 +232,7 @@ class ResistorNetwork:
         if (a, b) in self.s:
             self.s[(a, b)].add_parallel(cond)
         else:
+            cond = cond.copy()  # NOTE: the resistor is modified when others are added in parallel
             self.s[(a, b)] = self.s[(b, a)] = cond
             if a not in self.node_to_s:
                 self.node_to_s[a] = []
-- 
2.43.0

