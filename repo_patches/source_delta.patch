From 288fd70fcdf62b04d19fe08c758334d33d9143a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 01/72] fix: remove the synthetic exit vertex from the graph
 after post_dominator_tree

With several exits the helper vertex stayed in the caller's graph (as one more
exit) and in the returned tree.
---
 sdfg/src/graph/graph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index f889f9a..c678b17 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -177,6 +177,13 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
     // Remove synthetic super-terminal if added
     if (modified) {
         boost::clear_vertex(src, graph);
+        boost::remove_vertex(src, graph);
+        pdom_tree.erase(src);
+        for (auto& entry : pdom_tree) {
+            if (entry.second == src) {
+                entry.second = boost::graph_traits<Graph>::null_vertex();
+            }
+        }
     }
 
     return pdom_tree;
-- 
2.43.0


From 0555790ea34a637cc99aad7e59767abe71e48520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 02/72] fix: all_simple_paths no longer returns paths that
 revisit the source

---
 sdfg/src/graph/graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index c678b17..ca70ce5 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -257,6 +257,9 @@ const std::list<std::list<Edge>> all_simple_paths(const Graph& graph, const Vert
     std::list<std::list<Edge>> all_paths;
 
     std::set<Vertex> visited;
+    if (src != dst) {
+        visited.insert(src);
+    }
     std::list<Edge> current_path;
 
     auto [eb, ee] = boost::out_edges(src, graph);
-- 
2.43.0


From 8e03ab047628fac3f5c903aaca3b3524410ce8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 03/72] fix: mark unreachable vertices when computing dominator
 trees

Boost requires unreachable vertices to have the maximal DFS number; with 0 they
were taken as ancestors and wiped out the dominators of reachable vertices.
---
 sdfg/src/graph/graph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index ca70ce5..2f379b3 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -1,5 +1,7 @@
 #include "sdfg/graph/graph.h"
 
+#include <limits>
+
 namespace sdfg {
 namespace graph {
 
@@ -97,7 +99,7 @@ const std::unordered_map<Vertex, Vertex> dominator_tree(const Graph& graph, cons
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(graph), 0);
+    std::vector<size_t> df_num(num_vertices(graph), std::numeric_limits<size_t>::max()); // max: unreachable
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(graph), boost::graph_traits<Graph>::null_vertex());
@@ -155,7 +157,7 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(rgraph), 0);
+    std::vector<size_t> df_num(num_vertices(rgraph), std::numeric_limits<size_t>::max()); // max: unreachable
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(rgraph), boost::graph_traits<Graph>::null_vertex());
-- 
2.43.0


From 79ca0ef0455bc400cdfa6761f1641aef611b0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 04/72] fix: compute inline capture sizes in size_t

The int accumulator wrapped for captures of 2 GiB and more (4 GiB captures
stored no data at all).
---
 arg-capture-io/src/arg_capture_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index cb4a9ca..afa9295 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -129,7 +129,7 @@ bool ArgCaptureIO::create_and_capture_to_file(
 }
 
 bool ArgCaptureIO::capture_inline(ArgCapture& capture, const void* data, std::string element_id) {
-    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), 1, std::multiplies<size_t>());
+    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());
 
     DEBUG_PRINT(
         "Capturing " << (capture.dims.size() - 1) << "D arg" << capture.arg_idx << ": type "
-- 
2.43.0


From 4c7608fd238be030e723fb166c5b7fe55e1e87c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 05/72] fix: report a capture index that could not be written
 completely

---
 arg-capture-io/src/arg_capture_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index afa9295..905955c 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -286,6 +286,10 @@ void ArgCaptureIO::write_index(std::filesystem::path base_path) {
 
         ofs.close();
 
+        if (ofs.fail()) {
+            throw std::runtime_error("Failed to write index file: " + file.string());
+        }
+
         DEBUG_PRINTLN("Wrote capture index to " << file.string());
     }
 }
-- 
2.43.0


From 00b3b5c3e3466bc705becdd23b040e44da7d7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 06/72] fix: report captures that are read back incompletely

---
 arg-capture-io/src/arg_capture_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index 905955c..edfda62 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -249,6 +249,9 @@ void ArgCaptureIO::read_data_from_raw_file(const std::filesystem::path& file, vo
     }
 
     ifs.read(reinterpret_cast<char*>(write_ptr), size);
+    if (static_cast<size_t>(ifs.gcount()) != size) {
+        throw std::runtime_error("Failed to read " + std::to_string(size) + " bytes from file: " + file.string());
+    }
     ifs.close();
 }
 
-- 
2.43.0


From fd920cf10dd347b8bc2c199ca6fd28934bea891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 07/72] fix: no trailing comma in trace events without SDFG
 metadata

---
 rtl/src/instrumentation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 8650db4..b80caeb 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -247,12 +247,14 @@ private:
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\",";
+            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
         } else {
-            entry << "\"opt_report_file\":\"\",";
+            entry << "\"opt_report_file\":\"\"";
         }
 
         if (md.sdfg_name && md.sdfg_file) {
+            entry << ",";
+
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
             entry << "\"element_type\":\"" << md.element_type << "\",";
-- 
2.43.0


From b641903e12040289324eb73844955335cd4fa08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 08/72] fix: separate trace events only from events, not from
 regions that have none

---
 rtl/src/instrumentation.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index b80caeb..f6f3f3d 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -543,6 +543,7 @@ public:
         std::fprintf(f, "{\"traceEvents\":[\n");
 
         // Output all events
+        bool first_event = true;
         for (auto iter = regions.begin(); iter != regions.end(); ++iter) {
             auto& region = iter->second;
 
@@ -554,11 +555,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event_aggregated(f, region, event_names);
-
-                if (std::next(iter) != regions.end()) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
+                first_event = false;
+                append_event_aggregated(f, region, event_names);
                 continue;
             }
 
@@ -570,13 +571,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event(f, region, event_index, event_names);
-                if (event_index < region.starts.size() - 1) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
-            }
-            if (std::next(iter) != regions.end()) {
-                std::fprintf(f, ",\n");
+                first_event = false;
+                append_event(f, region, event_index, event_names);
             }
         }
 
-- 
2.43.0


From 3ac3ad8424ea8d952aecc082df6354024e148f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 09/72] fix: escape strings in the instrumentation trace

---
 rtl/src/instrumentation.cpp | 71 ++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index f6f3f3d..3d8249d 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -138,6 +138,27 @@ static std::ostream& operator<<(std::ostream& os, JsSafeDouble val) {
     return os;
 }
 
+struct JsString {
+    std::string value;
+    explicit JsString(const char* value) : value(value ? value : "") {}
+    explicit JsString(const std::string& value) : value(value) {}
+};
+
+static std::ostream& operator<<(std::ostream& os, const JsString& val) {
+    for (unsigned char c : val.value) {
+        if (c == '"' || c == '\\') {
+            os << '\\' << static_cast<char>(c);
+        } else if (c < 0x20) {
+            char buffer[8];
+            std::snprintf(buffer, sizeof(buffer), "\\u%04x", c);
+            os << buffer;
+        } else {
+            os << static_cast<char>(c);
+        }
+    }
+    return os;
+}
+
 class DaisyInstrumentationState {
 private:
     size_t next_region_id = 1;
@@ -203,7 +224,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << JsString(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         if (region.starts.size() > index) {
@@ -215,10 +236,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << JsString(md.function_name) << "\",";
+        entry << "\"module\":\"" << JsString(std::filesystem::path(md.file_name).filename().string()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << JsString(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -227,27 +248,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << JsString(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << JsString(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << JsString(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << JsString(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << JsString(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -257,7 +278,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << JsString(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -279,7 +300,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << JsString(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -289,7 +310,7 @@ private:
         if (index < region.counts.size()) {
             auto& counts = region.counts.at(index);
             for (size_t i = 0; i < counts.size(); ++i) {
-                entry << "\"" << event_names[i] << "\":" << counts[i];
+                entry << "\"" << JsString(event_names[i]) << "\":" << counts[i];
                 if (i < counts.size() - 1) {
                     entry << ",";
                 }
@@ -335,7 +356,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"aggregated_region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << JsString(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         // First start
@@ -345,10 +366,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << JsString(md.function_name) << "\",";
+        entry << "\"module\":\"" << JsString(std::filesystem::path(md.file_name).filename().string()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << JsString(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -358,27 +379,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << JsString(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << JsString(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << JsString(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << JsString(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << JsString(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -388,7 +409,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << JsString(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -410,7 +431,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << JsString(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -418,7 +439,7 @@ private:
         entry << "\"metrics\":{";
         // PAPI counters
         for (size_t i = 0; i < event_names.size(); ++i) {
-            entry << "\"" << event_names[i] << "\":{";
+            entry << "\"" << JsString(event_names[i]) << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
             entry << "\"count\":" << region.n[i] << ",";
@@ -429,7 +450,7 @@ private:
         }
         // Static counters
         for (auto& [name, mean] : region.static_counters_mean) {
-            entry << "\"static:::" << name << "\":{";
+            entry << "\"static:::" << JsString(name) << "\":{";
             entry << "\"mean\":" << JsSafeDouble(mean) << ", ";
             entry << "\"variance\":" << JsSafeDouble(region.static_counters_variance[name]) << ", ";
             entry << "\"count\":" << region.static_counters_n[name] << ", ";
-- 
2.43.0


From f372ff86b30754694eef97ba6800761aa80d282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 10/72] fix: write instrumentation values with full precision

---
 rtl/src/instrumentation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 3d8249d..b84c056 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -7,6 +7,7 @@
 #include <filesystem>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <list>
 #include <mutex>
 #include <sstream>
@@ -221,6 +222,7 @@ private:
 
         const __daisy_metadata& md = region.metadata;
         std::stringstream entry;
+        entry.precision(std::numeric_limits<double>::max_digits10);
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"region,daisy\",";
@@ -353,6 +355,7 @@ private:
 
         const __daisy_metadata& md = region.metadata;
         std::stringstream entry;
+        entry.precision(std::numeric_limits<double>::max_digits10);
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"aggregated_region,daisy\",";
-- 
2.43.0


From aa7b628c307f90decb67cd313e5a7bd969532296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 11/72] fix: match nested measurements of a region with their
 own start

---
 rtl/src/instrumentation.cpp | 49 ++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index b84c056..8336ec8 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -82,13 +82,20 @@ static void load_papi_symbols() {
 }
 } // namespace
 
+// A measurement that has been entered but not exited yet
+struct DaisyMeasurement {
+    size_t index = 0;
+    long long start = 0;
+    std::vector<long long> counts;
+};
+
 struct DaisyRegion {
     __daisy_metadata metadata;
     enum __daisy_event_set event_set;
     int papi_eventset = -1;
 
-    // Temporary buffers
-    std::vector<long long> last_counts;
+    // Open measurements, innermost last
+    std::vector<DaisyMeasurement> open;
 
     // Full results
 
@@ -103,7 +110,6 @@ struct DaisyRegion {
 
     // Runtime
     long long first_start = 0;
-    long long last_start;
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
@@ -232,7 +238,7 @@ private:
         if (region.starts.size() > index) {
             entry << "\"ts\":" << (region.starts.at(index) / 1000) << ",";
         }
-        if (region.durations.size() > index) {
+        if (region.durations.size() > index && region.durations.at(index) >= 0) {
             entry << "\"dur\":" << ns_to_us(region.durations.at(index)) << ",";
         }
         entry << "\"args\":{";
@@ -701,15 +707,17 @@ public:
 
         DaisyRegion& region = it->second;
 
+        DaisyMeasurement measurement;
+
         // Save start counters (before timing)
         if (region.event_set == __DAISY_EVENT_SET_CPU && this->event_names_cpu.size() > 0) {
             std::vector<long long> counts(this->event_names_cpu.size(), 0);
             _PAPI_read(region.papi_eventset, counts.data());
-            region.last_counts = counts;
+            measurement.counts = counts;
         } else if (region.event_set == __DAISY_EVENT_SET_CUDA && this->event_names_cuda.size() > 0) {
             std::vector<long long> counts(this->event_names_cuda.size(), 0);
             _PAPI_read(region.papi_eventset, counts.data());
-            region.last_counts = counts;
+            measurement.counts = counts;
         }
 
         // Save start time
@@ -718,10 +726,14 @@ public:
             if (region.first_start == 0) {
                 region.first_start = start_ns;
             }
-            region.last_start = start_ns;
         } else {
+            measurement.index = region.starts.size();
             region.starts.push_back(start_ns);
+            region.durations.push_back(-1);
+            region.counts.emplace_back();
         }
+        measurement.start = start_ns;
+        region.open.push_back(measurement);
     }
 
     void exit_region(size_t region_id) {
@@ -737,8 +749,17 @@ public:
 
         // Save duration (before counters)
         long long end_ns = _PAPI_get_real_nsec();
+
+        // This exit belongs to the innermost measurement that is still open
+        if (region.open.empty()) {
+            std::fprintf(stderr, "[daisy-rtl] Warning: exiting region %zu that was not entered\n", region_id);
+            return;
+        }
+        DaisyMeasurement measurement = region.open.back();
+        region.open.pop_back();
+
         if (this->aggregate_events) {
-            long long duration_ns = end_ns - region.last_start;
+            long long duration_ns = end_ns - measurement.start;
 
             // Update aggregated runtime stats
             if (region.runtime_n == 0) {
@@ -757,8 +778,8 @@ public:
                 if (duration_ns > region.runtime_max) region.runtime_max = duration_ns;
             }
         } else {
-            long long duration_ns = end_ns - region.starts.back();
-            region.durations.push_back(duration_ns);
+            long long duration_ns = end_ns - measurement.start;
+            region.durations[measurement.index] = duration_ns;
         }
 
         // Save end counters
@@ -767,11 +788,11 @@ public:
             _PAPI_read(region.papi_eventset, counts.data());
 
             for (size_t i = 0; i < counts.size(); ++i) {
-                counts[i] -= region.last_counts[i];
+                counts[i] -= measurement.counts[i];
             }
 
             if (!this->aggregate_events) {
-                region.counts.push_back(counts);
+                region.counts[measurement.index] = counts;
                 return;
             }
 
@@ -809,11 +830,11 @@ public:
             _PAPI_read(region.papi_eventset, counts.data());
 
             for (size_t i = 0; i < counts.size(); ++i) {
-                counts[i] -= region.last_counts[i];
+                counts[i] -= measurement.counts[i];
             }
 
             if (!this->aggregate_events) {
-                region.counts.push_back(counts);
+                region.counts[measurement.index] = counts;
                 return;
             }
 
-- 
2.43.0


From 9636a94dc859dfa041eee5ad81d074cb5c8ed6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 12/72] fix: keep one event set for a region that is registered
 while live

---
 rtl/src/instrumentation.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 8336ec8..0a4dcd4 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -94,6 +94,9 @@ struct DaisyRegion {
     enum __daisy_event_set event_set;
     int papi_eventset = -1;
 
+    // Number of registrations that are not finalized yet
+    size_t live = 0;
+
     // Open measurements, innermost last
     std::vector<DaisyMeasurement> open;
 
@@ -619,6 +622,13 @@ public:
     size_t register_region(const __daisy_metadata* metadata, enum __daisy_event_set event_set) {
         std::lock_guard<std::mutex> lock(mutex);
 
+        // Region is already live
+        auto live_region = this->region_name_to_id.find(metadata->region_uuid);
+        if (live_region != this->region_name_to_id.end() && this->regions[live_region->second].live > 0) {
+            this->regions[live_region->second].live += 1;
+            return live_region->second;
+        }
+
         // Check cache first
         if (this->sleeping_regions_id_lookup.find(metadata->region_uuid) != this->sleeping_regions_id_lookup.end()) {
             auto region_id = this->sleeping_regions_id_lookup[metadata->region_uuid];
@@ -629,6 +639,7 @@ public:
 
             // start region
             auto& region = this->regions[region_id];
+            region.live = 1;
             _PAPI_start(region.papi_eventset);
 
             return region_id;
@@ -659,12 +670,14 @@ public:
             }
 
             // start region
+            region.live = 1;
             _PAPI_start(region.papi_eventset);
 
             return region_id;
         }
 
         DaisyRegion region;
+        region.live = 1;
         std::memcpy(&region.metadata, metadata, sizeof(__daisy_metadata));
         region.event_set = event_set;
 
@@ -930,6 +943,16 @@ public:
 
         DaisyRegion& region = it->second;
 
+        // Only the last registration stops the region
+        if (region.live == 0) {
+            std::fprintf(stderr, "[daisy-rtl] Warning: finalizing region %zu that is not live\n", region_id);
+            return;
+        }
+        region.live -= 1;
+        if (region.live > 0) {
+            return;
+        }
+
         // Stop counters
         if (region.event_set == __DAISY_EVENT_SET_CPU && this->event_names_cpu.size() > 0) {
             std::vector<long long> counts(this->event_names_cpu.size(), 0);
-- 
2.43.0


From d92daffdaa2c9f1416e7b271dc6110fd6823ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 13/72] fix: aggregated events of regions that were never
 measured

---
 rtl/src/instrumentation.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 0a4dcd4..4707ec4 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -116,8 +116,8 @@ struct DaisyRegion {
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
-    long long runtime_min;
-    long long runtime_max;
+    long long runtime_min = 0;
+    long long runtime_max = 0;
 
     // Counters
     std::vector<long long> n;
@@ -452,6 +452,11 @@ private:
         // PAPI counters
         for (size_t i = 0; i < event_names.size(); ++i) {
             entry << "\"" << JsString(event_names[i]) << "\":{";
+            if (i >= region.n.size()) {
+                // Never measured
+                entry << "\"mean\":0,\"variance\":0,\"count\":0,\"min\":0,\"max\":0},";
+                continue;
+            }
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
             entry << "\"count\":" << region.n[i] << ",";
-- 
2.43.0


From 6aaaaba3afa143d60edd50e7a69b47b30d6de186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 14/72] fix: write the runtime variance in squared microseconds

---
 rtl/src/instrumentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 4707ec4..3711aec 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -480,7 +480,7 @@ private:
         // Runtime stats
         entry << "\"runtime\":{";
         entry << "\"mean\":" << ns_to_us(region.runtime_mean) << ",";
-        entry << "\"variance\":" << ns_to_us(region.runtime_variance) << ",";
+        entry << "\"variance\":" << ns_to_us(ns_to_us(region.runtime_variance)) << ",";
         entry << "\"count\":" << region.runtime_n << ",";
         entry << "\"min\":" << ns_to_us(region.runtime_min) << ",";
         entry << "\"max\":" << ns_to_us(region.runtime_max);
-- 
2.43.0


From a2ff373a47a4305ef185f79507a1f20b7266e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 15/72] fix: parenthesize the operands and the result of
 __daisy_fma

---
 rtl/include/daisy_rtl/daisy_rtl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 2251794..4d68cca 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -130,7 +130,7 @@ void __daisy_capture_3d(
 
 #define __daisy_min(a, b) ((a) < (b) ? (a) : (b))
 #define __daisy_max(a, b) ((a) > (b) ? (a) : (b))
-#define __daisy_fma(a, b, c) a* b + c
+#define __daisy_fma(a, b, c) ((a) * (b) + (c))
 
 // Implementation of integer functions for symbolic expressions
 inline int __daisy_sym_pow(int base, int exp) {
-- 
2.43.0


From ec090b67f13111923e052bbcda5f4dd071f1592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 16/72] fix: link C programs that call __daisy_sym_pow without
 inlining it

---
 rtl/include/daisy_rtl/daisy_rtl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 4d68cca..80e70cd 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -133,7 +133,7 @@ void __daisy_capture_3d(
 #define __daisy_fma(a, b, c) ((a) * (b) + (c))
 
 // Implementation of integer functions for symbolic expressions
-inline int __daisy_sym_pow(int base, int exp) {
+static inline int __daisy_sym_pow(int base, int exp) {
     if (exp < 0) {
         return 0;
     }
-- 
2.43.0


From fcc710c095976d7be078fa43a2715cd9ebaa8aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 17/72] fix: no overflow in __daisy_sym_pow when the result is
 representable

---
 rtl/include/daisy_rtl/daisy_rtl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 80e70cd..ec7396c 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -144,7 +144,9 @@ static inline int __daisy_sym_pow(int base, int exp) {
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if (exp) {
+            base *= base;
+        }
     }
     return result;
 }
-- 
2.43.0


From 69aab187d6c694db495fab0569d8a5591d5e797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 18/72] fix: do not use an empty token file as a credential

---
 rpc/src/passes/rpc/daisytuner_rpc_context.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rpc/src/passes/rpc/daisytuner_rpc_context.cpp b/rpc/src/passes/rpc/daisytuner_rpc_context.cpp
index 102db5b..065789d 100644
--- a/rpc/src/passes/rpc/daisytuner_rpc_context.cpp
+++ b/rpc/src/passes/rpc/daisytuner_rpc_context.cpp
@@ -52,7 +52,9 @@ std::optional<std::pair<std::string, bool>> DaisytunerRpcContext::find_docc_auth
             ss << infile.rdbuf();
             std::string token = ss.str();
             token.erase(token.find_last_not_of(" \n\r\t") + 1);
-            return std::make_pair(token, false);
+            if (!token.empty()) {
+                return std::make_pair(token, false);
+            }
         }
     }
 
@@ -63,7 +65,9 @@ std::optional<std::pair<std::string, bool>> DaisytunerRpcContext::find_docc_auth
         ss << session_file.rdbuf();
         std::string token = ss.str();
         token.erase(token.find_last_not_of(" \n\r\t") + 1);
-        return std::make_pair(token, false);
+        if (!token.empty()) {
+            return std::make_pair(token, false);
+        }
     }
 
     return std::nullopt;
-- 
2.43.0


From 8d8583cdbe89a88e0b26d11f718a19c44d81150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 19/72] fix: do not keep a caller's header list in a curl
 handle

---
 rpc/src/util/utils_curl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rpc/src/util/utils_curl.cpp b/rpc/src/util/utils_curl.cpp
index 71aee5e..b3ac21c 100644
--- a/rpc/src/util/utils_curl.cpp
+++ b/rpc/src/util/utils_curl.cpp
@@ -24,6 +24,9 @@ HttpResult post_json(CURL* curl, const std::string& url, const std::string& payl
     result.curl_code = curl_easy_perform(curl);
     result.body = response_data;
 
+    // The list belongs to the caller and may be freed before the handle is used again
+    if (headers) curl_easy_setopt(curl, CURLOPT_HTTPHEADER, nullptr);
+
     if (result.curl_code != CURLE_OK) {
         result.error_message = curl_easy_strerror(result.curl_code);
         return result;
-- 
2.43.0


From 9446bc8e1e8f8642ac60af4c7499b259bbb0d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 20/72] fix: post the whole payload, including null bytes

---
 rpc/src/util/utils_curl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpc/src/util/utils_curl.cpp b/rpc/src/util/utils_curl.cpp
index b3ac21c..673a995 100644
--- a/rpc/src/util/utils_curl.cpp
+++ b/rpc/src/util/utils_curl.cpp
@@ -18,6 +18,7 @@ HttpResult post_json(CURL* curl, const std::string& url, const std::string& payl
 
     curl_easy_setopt(curl, CURLOPT_URL, url.c_str());
     curl_easy_setopt(curl, CURLOPT_POSTFIELDS, payload.c_str());
+    curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE_LARGE, static_cast<curl_off_t>(payload.size()));
 
     if (headers) curl_easy_setopt(curl, CURLOPT_HTTPHEADER, headers);
 
-- 
2.43.0


From 2de6172d071ab3291067142f219aa62d59e4cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 21/72] fix: no uninitialised status after a failed transfer

---
 rpc/include/sdfg/util/utils_curl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpc/include/sdfg/util/utils_curl.h b/rpc/include/sdfg/util/utils_curl.h
index 8efcc53..74896f3 100644
--- a/rpc/include/sdfg/util/utils_curl.h
+++ b/rpc/include/sdfg/util/utils_curl.h
@@ -4,8 +4,8 @@
 #include <string>
 
 struct HttpResult {
-    CURLcode curl_code;
-    long http_status;
+    CURLcode curl_code = CURLE_OK;
+    long http_status = 0;
     std::string body;
     std::string error_message;
 };
-- 
2.43.0


From 3cbf100acb8e7cc6d964f31b5dac2ea9325a4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:08 +0000
Subject: [PATCH 22/72] fix: Dependence analysis keeps reads that may see an
 older value

---
 .../sdfg/analysis/data_dependency_analysis.h  |  18 +-
 .../src/analysis/data_dependency_analysis.cpp | 416 ++++++++----------
 sdfg/src/symbolic/sets.cpp                    |  21 +-
 3 files changed, 203 insertions(+), 252 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/data_dependency_analysis.h b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
index 246a90e..1d1122c 100644
--- a/sdfg/include/sdfg/analysis/data_dependency_analysis.h
+++ b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
@@ -51,9 +51,14 @@ private:
         structured_control_flow::StructuredLoop& loop
     );
 
-    bool supersedes_restrictive(User& previous, User& current, analysis::AnalysisManager& analysis_manager);
+    void match_read(
+        analysis::AnalysisManager& analysis_manager,
+        User& read,
+        std::unordered_set<User*>& undefined,
+        std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+    );
 
-    bool intersects(User& previous, User& current, analysis::AnalysisManager& analysis_manager);
+    bool covers(analysis::AnalysisManager& analysis_manager, User& covered, User& covering);
 
     bool closes(analysis::AnalysisManager& analysis_manager, User& previous, User& current, bool requires_dominance);
 
@@ -134,6 +139,15 @@ public:
      */
     std::unordered_map<User*, std::unordered_set<User*>> definitions(const std::string& container);
 
+    /**
+     * @brief Checks if the final value of a loop's induction variable may be read after the loop.
+     *
+     * @param users The users of the SDFG.
+     * @param loop The loop.
+     * @return True if a user outside of the loop may read the value.
+     */
+    bool is_indvar_read_after(Users& users, structured_control_flow::StructuredLoop& loop);
+
     /**
      * @brief Get all definitions (writes) for each user (reads).
      *
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index f77381c..ed47afc 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -1,6 +1,8 @@
 #include "sdfg/analysis/data_dependency_analysis.h"
 
+#include <algorithm>
 #include <cassert>
+#include <list>
 #include <string>
 #include <unordered_map>
 #include <unordered_set>
@@ -8,6 +10,7 @@
 
 #include "sdfg/analysis/analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
+#include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/structured_sdfg.h"
 #include "sdfg/symbolic/maps.h"
 #include "sdfg/symbolic/sets.h"
@@ -57,8 +60,6 @@ void DataDependencyAnalysis::visit_block(
     std::unordered_map<User*, std::unordered_set<User*>>& open_definitions,
     std::unordered_map<User*, std::unordered_set<User*>>& closed_definitions
 ) {
-    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
     auto& users = analysis_manager.get<analysis::Users>();
 
     auto& dataflow = block.dataflow();
@@ -113,19 +114,7 @@ void DataDependencyAnalysis::visit_block(
                         auto current_user = users.get_user(access_node->data(), access_node, use);
 
                         // Assign to open definitions
-                        bool found_user = false;
-                        bool found_undefined_user = false;
-                        for (auto& user : open_definitions) {
-                            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                                user.second.insert(current_user);
-                                found_user = true;
-                                found_undefined_user = this->is_undefined_user(*user.first);
-                            }
-                        }
-                        // If no definition found or undefined user found, mark as undefined
-                        if (!found_user || found_undefined_user) {
-                            undefined.insert(current_user);
-                        }
+                        this->match_read(analysis_manager, *current_user, undefined, open_definitions);
                     }
                 }
             }
@@ -134,19 +123,7 @@ void DataDependencyAnalysis::visit_block(
                 auto current_user = users.get_user(symbol->get_name(), library_node, Use::READ);
 
                 // Assign to open definitions
-                bool found_user = false;
-                bool found_undefined_user = false;
-                for (auto& user : open_definitions) {
-                    if (this->depends(analysis_manager, *user.first, *current_user)) {
-                        user.second.insert(current_user);
-                        found_user = true;
-                        found_undefined_user = this->is_undefined_user(*current_user);
-                    }
-                }
-                // If no definition found or undefined user found, mark as undefined
-                if (!found_user || found_undefined_user) {
-                    undefined.insert(current_user);
-                }
+                this->match_read(analysis_manager, *current_user, undefined, open_definitions);
             }
         }
 
@@ -161,19 +138,7 @@ void DataDependencyAnalysis::visit_block(
                 auto current_user = users.get_user(atom, &oedge, Use::READ);
 
                 // Assign to open definitions
-                bool found_user = false;
-                bool found_undefined_user = false;
-                for (auto& user : open_definitions) {
-                    if (this->depends(analysis_manager, *user.first, *current_user)) {
-                        user.second.insert(current_user);
-                        found_user = true;
-                        found_undefined_user = this->is_undefined_user(*user.first);
-                    }
-                }
-                // If no definition found or undefined user found, mark as undefined
-                if (!found_user || found_undefined_user) {
-                    undefined.insert(current_user);
-                }
+                this->match_read(analysis_manager, *current_user, undefined, open_definitions);
             }
         }
     }
@@ -193,19 +158,7 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
-            undefined.insert(current_user);
-        }
+        this->match_read(analysis_manager, *current_user, undefined, open_definitions);
     }
 
     // Init - Write
@@ -240,19 +193,7 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
-            undefined.insert(current_user);
-        }
+        this->match_read(analysis_manager, *current_user, undefined, open_definitions);
     }
 
     std::unordered_map<User*, std::unordered_set<User*>> open_definitions_for;
@@ -267,23 +208,10 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, false, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions_for) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
-            undefined_for.insert(current_user);
-        }
+        this->match_read(analysis_manager, *current_user, undefined_for, open_definitions_for);
     }
 
     // Merge for with outside
-    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
 
     // Closed definitions are simply merged
     for (auto& entry : closed_definitions_for) {
@@ -292,38 +220,7 @@ void DataDependencyAnalysis::visit_for(
 
     // Undefined reads are matched or forwarded
     for (auto open_read : undefined_for) {
-        // Simple check: no match or undefined user
-        std::unordered_set<User*> frontier;
-        bool found = false;
-        bool found_undefined_user = false;
-        for (auto& entry : open_definitions) {
-            if (intersects(*entry.first, *open_read, analysis_manager)) {
-                entry.second.insert(open_read);
-                found = true;
-                found_undefined_user = this->is_undefined_user(*entry.first);
-                frontier.insert(entry.first);
-            }
-        }
-        if (!found || found_undefined_user) {
-            undefined.insert(open_read);
-            continue;
-        }
-
-        // Users found, check if they fully cover the read
-        bool covered = false;
-        for (auto& entry : frontier) {
-            if (!dominance_analysis.dominates(*entry, *open_read)) {
-                continue;
-            }
-            bool covers = supersedes_restrictive(*open_read, *entry, analysis_manager);
-            if (covers) {
-                covered = true;
-                break;
-            }
-        }
-        if (!covered) {
-            undefined.insert(open_read);
-        }
+        this->match_read(analysis_manager, *open_read, undefined, open_definitions);
     }
 
     // Open definitions may close outside open definitions after loop
@@ -419,19 +316,7 @@ void DataDependencyAnalysis::visit_if_else(
         for (auto atom : symbolic::atoms(child)) {
             auto current_user = users.get_user(atom->get_name(), &if_else, Use::READ);
 
-            bool found_user = false;
-            bool found_undefined_user = false;
-            for (auto& user : open_definitions) {
-                if (this->depends(analysis_manager, *user.first, *current_user)) {
-                    user.second.insert(current_user);
-                    found_user = true;
-                    found_undefined_user = this->is_undefined_user(*user.first);
-                }
-            }
-            // If no definition found or undefined user found, mark as undefined
-            if (!found_user || found_undefined_user) {
-                undefined.insert(current_user);
-            }
+            this->match_read(analysis_manager, *current_user, undefined, open_definitions);
         }
     }
 
@@ -452,19 +337,7 @@ void DataDependencyAnalysis::visit_if_else(
     // merge partial open reads
     for (size_t i = 0; i < if_else.size(); i++) {
         for (auto& entry : undefined_branches.at(i)) {
-            bool found_user = false;
-            bool found_undefined_user = false;
-            for (auto& user : open_definitions) {
-                if (this->depends(analysis_manager, *user.first, *entry)) {
-                    user.second.insert(entry);
-                    found_user = true;
-                    found_undefined_user = this->is_undefined_user(*user.first);
-                }
-            }
-            // If no definition found or undefined user found, mark as undefined
-            if (!found_user || found_undefined_user) {
-                undefined.insert(entry);
-            }
+            this->match_read(analysis_manager, *entry, undefined, open_definitions);
         }
     }
 
@@ -505,6 +378,10 @@ void DataDependencyAnalysis::visit_if_else(
         }
 
         for (auto& entry : open_definitions) {
+            // Writing some elements in every branch does not overwrite the whole container
+            if (this->sdfg_.type(entry.first->container()).type_id() != types::TypeID::Scalar) {
+                continue;
+            }
             if (candidates.find(entry.first->container()) != candidates.end()) {
                 to_close.insert(entry);
             }
@@ -572,16 +449,7 @@ void DataDependencyAnalysis::visit_while(
         }
 
         // Connect to outside
-        bool found = false;
-        for (auto& entry : open_definitions) {
-            if (entry.first->container() == open_read->container()) {
-                entry.second.insert(open_read);
-                found = true;
-            }
-        }
-        if (!found) {
-            undefined.insert(open_read);
-        }
+        this->match_read(analysis_manager, *open_read, undefined, open_definitions);
     }
 
     // Add open definitions from while to outside
@@ -642,6 +510,8 @@ void DataDependencyAnalysis::visit_sequence(
             visit_while(analysis_manager, *while_loop, undefined, open_definitions, closed_definitions);
         } else if (auto return_statement = dynamic_cast<structured_control_flow::Return*>(&child.first)) {
             visit_return(analysis_manager, *return_statement, undefined, open_definitions, closed_definitions);
+            // Everything after is unreachable
+            break;
         } else if (auto sequence = dynamic_cast<structured_control_flow::Sequence*>(&child.first)) {
             visit_sequence(analysis_manager, *sequence, undefined, open_definitions, closed_definitions);
         }
@@ -654,16 +524,7 @@ void DataDependencyAnalysis::visit_sequence(
                 }
                 auto current_user = users.get_user(atom->get_name(), &child.second, Use::READ);
 
-                bool found = false;
-                for (auto& user : open_definitions) {
-                    if (user.first->container() == atom->get_name()) {
-                        user.second.insert(current_user);
-                        found = true;
-                    }
-                }
-                if (!found) {
-                    undefined.insert(current_user);
-                }
+                this->match_read(analysis_manager, *current_user, undefined, open_definitions);
             }
         }
 
@@ -750,88 +611,161 @@ bool DataDependencyAnalysis::loop_depends(
     return false;
 }
 
-bool DataDependencyAnalysis::
-    supersedes_restrictive(User& previous, User& current, analysis::AnalysisManager& analysis_manager) {
-    if (previous.container() != current.container()) {
-        return false;
-    }
-    // Shortcut for scalars
-    auto& type = this->sdfg_.type(previous.container());
-    if (dynamic_cast<const types::Scalar*>(&type)) {
-        return true;
+void DataDependencyAnalysis::match_read(
+    analysis::AnalysisManager& analysis_manager,
+    User& read,
+    std::unordered_set<User*>& undefined,
+    std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+) {
+    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
+    auto read_ancestors = scope_analysis.ancestor_scopes(Users::scope(&read));
+    bool is_scalar = sdfg_.type(read.container()).type_id() == types::TypeID::Scalar;
+
+    bool found = false;
+    bool found_undefined = false;
+    bool covered = false;
+    for (auto& entry : open_definitions) {
+        auto definition = entry.first;
+        if (!this->depends(analysis_manager, *definition, read)) {
+            continue;
+        }
+        entry.second.insert(&read);
+        if (this->is_undefined_user(*definition)) {
+            found_undefined = true;
+            continue;
+        }
+        found = true;
+        for (auto scope : scope_analysis.ancestor_scopes(Users::scope(definition))) {
+            // A loop around the definition only may have no iterations
+            if (!dynamic_cast<structured_control_flow::StructuredLoop*>(scope) &&
+                !dynamic_cast<structured_control_flow::While*>(scope)) {
+                continue;
+            }
+            if (std::find(read_ancestors.begin(), read_ancestors.end(), scope) == read_ancestors.end()) {
+                found_undefined = true;
+            }
+        }
+        if (!covered && dominance_analysis.dominates(*definition, read)) {
+            covered = is_scalar || this->covers(analysis_manager, read, *definition);
+        }
     }
 
-    if (this->is_undefined_user(previous) || this->is_undefined_user(current)) {
-        return false;
+    // The read may see an older value unless one definition covers it,
+    // or, for scalars, all branches define it
+    if (!covered && !(is_scalar && found && !found_undefined)) {
+        undefined.insert(&read);
     }
+}
 
+bool DataDependencyAnalysis::covers(analysis::AnalysisManager& analysis_manager, User& covered, User& covering) {
     auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto& previous_subsets = previous.subsets();
-    auto& current_subsets = current.subsets();
-    auto previous_scope = Users::scope(&previous);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto current_scope = Users::scope(&current);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
-
-    // Check if previous subset is subset of any current subset
-    for (auto& previous_subset : previous_subsets) {
-        bool found = false;
-        for (auto& current_subset : current_subsets) {
-            if (symbolic::is_subset(previous_subset, current_subset, previous_assumptions, previous_assumptions)) {
-                found = true;
-                break;
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
+
+    auto covered_scope = Users::scope(&covered);
+    auto covering_scope = Users::scope(&covering);
+
+    // Loops around only one of the users
+    auto covered_ancestors = scope_analysis.ancestor_scopes(covered_scope);
+    auto covering_ancestors = scope_analysis.ancestor_scopes(covering_scope);
+    auto separate_indvars = [](const std::vector<structured_control_flow::ControlFlowNode*>& scopes,
+                               const std::vector<structured_control_flow::ControlFlowNode*>& other_scopes) {
+        symbolic::SymbolSet indvars;
+        for (auto scope : scopes) {
+            if (std::find(other_scopes.begin(), other_scopes.end(), scope) != other_scopes.end()) {
+                continue;
+            }
+            if (auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(scope)) {
+                indvars.insert(loop->indvar());
             }
         }
-        if (!found) {
-            return false;
+        return indvars;
+    };
+    auto covered_indvars = separate_indvars(covered_ancestors, covering_ancestors);
+    auto covering_indvars = separate_indvars(covering_ancestors, covered_ancestors);
+
+    // All other symbols must have the same value for both users
+    structured_control_flow::ControlFlowNode* common_scope = nullptr;
+    for (auto scope : covered_ancestors) {
+        if (std::find(covering_ancestors.begin(), covering_ancestors.end(), scope) != covering_ancestors.end()) {
+            common_scope = scope;
+            break;
         }
     }
-
-    return true;
-}
-
-bool DataDependencyAnalysis::intersects(User& previous, User& current, analysis::AnalysisManager& analysis_manager) {
-    if (previous.container() != current.container()) {
+    if (common_scope == nullptr) {
         return false;
     }
-    // Shortcut for scalars
-    auto& type = this->sdfg_.type(previous.container());
-    if (dynamic_cast<const types::Scalar*>(&type)) {
-        return true;
-    }
+    auto& common_assumptions = assumptions_analysis.get(*common_scope, true);
+    auto is_fixed = [&](const symbolic::Symbol& sym) {
+        if (assumptions_analysis.is_parameter(sym)) {
+            return true;
+        }
+        auto entry = common_assumptions.find(sym);
+        return entry != common_assumptions.end() && entry->second.constant();
+    };
 
-    if (this->is_undefined_user(previous) || this->is_undefined_user(current)) {
-        return true;
+    auto covered_assumptions = assumptions_analysis.get(*covered_scope, true);
+    auto covering_assumptions = assumptions_analysis.get(*covering_scope, true);
+    for (auto& entry : covered_assumptions) {
+        entry.second.constant(is_fixed(entry.first) && !covered_indvars.contains(entry.first));
     }
-
-    if (!this->detailed_) {
-        return true;
+    for (auto& entry : covering_assumptions) {
+        entry.second.constant(is_fixed(entry.first) && !covering_indvars.contains(entry.first));
     }
 
-    auto& previous_subsets = previous.subsets();
-    auto& current_subsets = current.subsets();
-
-    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto previous_scope = Users::scope(&previous);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto current_scope = Users::scope(&current);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
-
-    // Check if any current subset intersects with any previous subset
-    bool found = false;
-    for (auto& current_subset : current_subsets) {
-        for (auto& previous_subset : previous_subsets) {
-            if (!symbolic::is_disjoint(current_subset, previous_subset, current_assumptions, previous_assumptions)) {
+    for (auto& covered_subset : covered.subsets()) {
+        bool found = false;
+        for (auto& covering_subset : covering.subsets()) {
+            // Exact range of the covering subset must be known
+            bool exact = true;
+            symbolic::SymbolSet visited;
+            std::list<symbolic::Symbol> queue;
+            for (auto& dim : covering_subset) {
+                for (auto& sym : symbolic::atoms(dim)) {
+                    queue.push_back(sym);
+                }
+            }
+            while (!queue.empty() && exact) {
+                auto sym = queue.front();
+                queue.pop_front();
+                if (!visited.insert(sym).second) {
+                    continue;
+                }
+                auto entry = covering_assumptions.find(sym);
+                if (entry == covering_assumptions.end()) {
+                    exact = false;
+                    break;
+                }
+                auto& assumption = entry->second;
+                if (assumption.constant()) {
+                    continue;
+                }
+                if (!covering_indvars.contains(sym) || assumption.tight_lower_bound().is_null() ||
+                    assumption.tight_upper_bound().is_null()) {
+                    exact = false;
+                    break;
+                }
+                for (auto& bound_sym : symbolic::atoms(assumption.tight_lower_bound())) {
+                    queue.push_back(bound_sym);
+                }
+                for (auto& bound_sym : symbolic::atoms(assumption.tight_upper_bound())) {
+                    queue.push_back(bound_sym);
+                }
+            }
+            if (!exact) {
+                continue;
+            }
+            if (symbolic::is_subset(covered_subset, covering_subset, covered_assumptions, covering_assumptions)) {
                 found = true;
                 break;
             }
         }
-        if (found) {
-            break;
+        if (!found) {
+            return false;
         }
     }
 
-    return found;
+    return true;
 }
 
 bool DataDependencyAnalysis::
@@ -862,30 +796,7 @@ bool DataDependencyAnalysis::
         return false;
     }
 
-    // Collect memlets and assumptions
-    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto previous_scope = Users::scope(&previous);
-    auto current_scope = Users::scope(&current);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
-
-    auto& previous_memlets = previous.subsets();
-    auto& current_memlets = current.subsets();
-
-    for (auto& subset_ : previous_memlets) {
-        bool overwritten = false;
-        for (auto& subset : current_memlets) {
-            if (symbolic::is_subset(subset_, subset, previous_assumptions, current_assumptions)) {
-                overwritten = true;
-                break;
-            }
-        }
-        if (!overwritten) {
-            return false;
-        }
-    }
-
-    return true;
+    return this->covers(analysis_manager, previous, current);
 }
 
 bool DataDependencyAnalysis::depends(analysis::AnalysisManager& analysis_manager, User& previous, User& current) {
@@ -960,6 +871,25 @@ std::unordered_map<User*, std::unordered_set<User*>> DataDependencyAnalysis::def
     return results_.at(container);
 };
 
+bool DataDependencyAnalysis::is_indvar_read_after(Users& users, structured_control_flow::StructuredLoop& loop) {
+    UsersView body_users(users, loop.root());
+    auto body_reads = body_users.reads(loop.indvar()->get_name());
+    for (auto& definition : this->definitions(loop.indvar()->get_name())) {
+        if (definition.first->element() != &loop) {
+            continue;
+        }
+        for (auto& read : definition.second) {
+            if (read->element() == &loop) {
+                continue;
+            }
+            if (std::find(body_reads.begin(), body_reads.end(), read) == body_reads.end()) {
+                return true;
+            }
+        }
+    }
+    return false;
+};
+
 std::unordered_map<User*, std::unordered_set<User*>> DataDependencyAnalysis::defined_by(const std::string& container) {
     auto reads = this->definitions(container);
 
diff --git a/sdfg/src/symbolic/sets.cpp b/sdfg/src/symbolic/sets.cpp
index 3b1802f..d56967b 100644
--- a/sdfg/src/symbolic/sets.cpp
+++ b/sdfg/src/symbolic/sets.cpp
@@ -17,8 +17,7 @@ bool is_subset(
         return true;
     }
 
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
@@ -48,9 +47,18 @@ bool is_subset(
     isl_map* aligned_map_1 = isl_map_align_params(map_1, isl_space_copy(unified_params));
     isl_map* aligned_map_2 = isl_map_align_params(map_2, isl_space_copy(unified_params));
 
-    // Remove parameters explicitly (project them out)
-    aligned_map_1 = isl_map_project_out(aligned_map_1, isl_dim_param, 0, isl_map_dim(aligned_map_1, isl_dim_param));
-    aligned_map_2 = isl_map_project_out(aligned_map_2, isl_dim_param, 0, isl_map_dim(aligned_map_2, isl_dim_param));
+    // Project out parameters, except for constants, which have the same value in both sets
+    for (int i = isl_map_dim(aligned_map_1, isl_dim_param) - 1; i >= 0; i--) {
+        auto sym = symbolic::symbol(isl_map_get_dim_name(aligned_map_1, isl_dim_param, i));
+        auto assum_1 = assums1.find(sym);
+        auto assum_2 = assums2.find(sym);
+        if (assum_1 != assums1.end() && assum_1->second.constant() && assum_2 != assums2.end() &&
+            assum_2->second.constant()) {
+            continue;
+        }
+        aligned_map_1 = isl_map_project_out(aligned_map_1, isl_dim_param, i, 1);
+        aligned_map_2 = isl_map_project_out(aligned_map_2, isl_dim_param, i, 1);
+    }
 
     canonicalize_map_dims(aligned_map_1, "in_", "out_");
     canonicalize_map_dims(aligned_map_2, "in_", "out_");
@@ -73,8 +81,7 @@ bool is_subset(
 bool is_disjoint(
     const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
 ) {
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
-- 
2.43.0


From b34b0f02d3ca1cbbc5b4aac54e602e3b3f74285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 23/72] fix: Intersection of accesses relates only equal
 strides and distinct iterations

---
 sdfg/include/sdfg/symbolic/utils.h | 16 +++++
 sdfg/src/symbolic/utils.cpp        | 93 +++++++++++++++++++++---------
 2 files changed, 83 insertions(+), 26 deletions(-)

diff --git a/sdfg/include/sdfg/symbolic/utils.h b/sdfg/include/sdfg/symbolic/utils.h
index fa4f399..1fcd230 100644
--- a/sdfg/include/sdfg/symbolic/utils.h
+++ b/sdfg/include/sdfg/symbolic/utils.h
@@ -104,5 +104,21 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
  */
 MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums);
 
+/**
+ * @brief Delinearizes two expressions of the same container such that the results can be compared
+ *
+ * The dimensions of two delinearized expressions correspond to each other only if they
+ * were obtained with the same strides. Otherwise, both expressions are returned unchanged.
+ *
+ * @param expr1 First expression
+ * @param expr2 Second expression
+ * @param assums1 Assumptions about the symbols of the first expression
+ * @param assums2 Assumptions about the symbols of the second expression
+ * @return The two comparable expressions
+ */
+std::pair<MultiExpression, MultiExpression> delinearize(
+    const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
+);
+
 } // namespace symbolic
 } // namespace sdfg
diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index f404343..f2ae6fc 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -100,7 +100,8 @@ std::string expression_to_map_str(const MultiExpression& expr, const Assumptions
     std::vector<std::string> parameters;
     SymbolSet parameters_syms;
     for (auto& sym : syms) {
-        if (assums.find(sym) == assums.end() && assums.at(sym).constant()) {
+        auto assum = assums.find(sym);
+        if (assum == assums.end() || assum->second.constant()) {
             if (parameters_syms.find(sym) != parameters_syms.end()) {
                 continue;
             }
@@ -186,8 +187,8 @@ std::string expression_to_map_str(const MultiExpression& expr, const Assumptions
         if (symbolic::eq(arg1, symbolic::one())) {
             continue;
         }
-        auto lb = assums.at(sym).lower_bound_deprecated();
-        if (!SymEngine::is_a<SymEngine::Integer>(*lb)) {
+        auto lb = assums.at(sym).tight_lower_bound();
+        if (lb.is_null() || !SymEngine::is_a<SymEngine::Integer>(*lb)) {
             continue;
         }
 
@@ -252,29 +253,30 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
     seen.clear();
     auto constraints_syms_2 = generate_constraints(syms, assums2, seen);
 
-    // Extend parameters with additional symbols from constraints
+    // Extend dimensions and parameters with additional symbols from constraints
+    SymbolSet constraint_syms;
     for (auto& con : constraints_syms_1) {
         auto con_syms = symbolic::atoms(con);
-        for (auto& con_sym : con_syms) {
-            if (dimensions_syms.find(con_sym) == dimensions_syms.end()) {
-                if (parameters_syms.find(con_sym) != parameters_syms.end()) {
-                    continue;
-                }
-                parameters.push_back(con_sym->get_name());
-                parameters_syms.insert(con_sym);
-            }
-        }
+        constraint_syms.insert(con_syms.begin(), con_syms.end());
     }
     for (auto& con : constraints_syms_2) {
         auto con_syms = symbolic::atoms(con);
-        for (auto& con_sym : con_syms) {
-            if (dimensions_syms.find(con_sym) == dimensions_syms.end()) {
-                if (parameters_syms.find(con_sym) != parameters_syms.end()) {
-                    continue;
-                }
-                parameters.push_back(con_sym->get_name());
-                parameters_syms.insert(con_sym);
-            }
+        constraint_syms.insert(con_syms.begin(), con_syms.end());
+    }
+    for (auto& con_sym : constraint_syms) {
+        if (dimensions_syms.find(con_sym) != dimensions_syms.end() ||
+            parameters_syms.find(con_sym) != parameters_syms.end()) {
+            continue;
+        }
+        auto assum1 = assums1.find(con_sym);
+        auto assum2 = assums2.find(con_sym);
+        if (con_sym->get_name() != indvar->get_name() && assum1 != assums1.end() && assum1->second.constant() &&
+            assum2 != assums2.end() && assum2->second.constant()) {
+            parameters.push_back(con_sym->get_name());
+            parameters_syms.insert(con_sym);
+        } else {
+            dimensions.push_back(con_sym->get_name());
+            dimensions_syms.insert(con_sym);
         }
     }
 
@@ -339,6 +341,9 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
     }
     for (auto& dim : dimensions) {
         auto sym = symbolic::symbol(dim);
+        if (assums1.find(sym) == assums1.end()) {
+            continue;
+        }
         auto map_func = assums1.at(sym).map();
         if (map_func == SymEngine::null) {
             continue;
@@ -365,8 +370,8 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
         if (symbolic::eq(arg1, symbolic::one())) {
             continue;
         }
-        auto lb = assums2.at(sym).lower_bound_deprecated();
-        if (!SymEngine::is_a<SymEngine::Integer>(*lb)) {
+        auto lb = assums1.at(sym).tight_lower_bound();
+        if (lb.is_null() || !SymEngine::is_a<SymEngine::Integer>(*lb)) {
             continue;
         }
 
@@ -396,6 +401,9 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
     }
     for (auto& dim : dimensions) {
         auto sym = symbolic::symbol(dim);
+        if (assums2.find(sym) == assums2.end()) {
+            continue;
+        }
         auto map_func = assums2.at(sym).map();
         if (map_func.is_null()) {
             continue;
@@ -422,8 +430,8 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
         if (symbolic::eq(arg1, symbolic::one())) {
             continue;
         }
-        auto lb = assums2.at(sym).lower_bound_deprecated();
-        if (!SymEngine::is_a<SymEngine::Integer>(*lb)) {
+        auto lb = assums2.at(sym).tight_lower_bound();
+        if (lb.is_null() || !SymEngine::is_a<SymEngine::Integer>(*lb)) {
             continue;
         }
 
@@ -588,7 +596,7 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
     }
 }
 
-MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums) {
+static MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums, MultiExpression& strides) {
     MultiExpression delinearized;
     for (auto& dim : expr) {
         // Check if more than two symbols are involved
@@ -600,6 +608,7 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
         }
         if (symbols.size() < 1) {
             delinearized.push_back(dim);
+            strides.push_back(symbolic::one());
             continue;
         }
 
@@ -607,11 +616,13 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
         auto poly = polynomial(dim, symbols);
         if (poly == SymEngine::null) {
             delinearized.push_back(dim);
+            strides.push_back(symbolic::one());
             continue;
         }
         auto aff_coeffs = affine_coefficients(poly, symbols);
         if (aff_coeffs.empty()) {
             delinearized.push_back(dim);
+            strides.push_back(symbolic::one());
             continue;
         }
         auto offset = aff_coeffs.at(symbolic::symbol("__daisy_constant__"));
@@ -621,6 +632,7 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
         bool success = true;
         Expression remaining = symbolic::sub(dim, offset);
         std::vector<Expression> peeled_dims;
+        std::vector<Expression> peeled_strides;
         while (!aff_coeffs.empty()) {
             // Find the symbol with largest stride (= largest atom count)
             Symbol new_dim = SymEngine::null;
@@ -688,16 +700,19 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
             auto final_dim = symbolic::add(new_dim, q);
 
             peeled_dims.push_back(final_dim);
+            peeled_strides.push_back(stride);
             aff_coeffs.erase(new_dim);
         }
         // Not all dimensions could be peeled off
         if (!aff_coeffs.empty()) {
             delinearized.push_back(dim);
+            strides.push_back(symbolic::one());
             continue;
         }
         // Offset did not reduce to zero
         if (!symbolic::eq(offset, symbolic::zero())) {
             delinearized.push_back(dim);
+            strides.push_back(symbolic::one());
             continue;
         }
 
@@ -705,10 +720,36 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
         for (auto& peeled_dim : peeled_dims) {
             delinearized.push_back(peeled_dim);
         }
+        for (auto& peeled_stride : peeled_strides) {
+            strides.push_back(peeled_stride);
+        }
     }
 
     return delinearized;
 }
 
+MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums) {
+    MultiExpression strides;
+    return delinearize(expr, assums, strides);
+}
+
+std::pair<MultiExpression, MultiExpression> delinearize(
+    const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
+) {
+    MultiExpression strides1;
+    MultiExpression strides2;
+    auto expr1_delinearized = delinearize(expr1, assums1, strides1);
+    auto expr2_delinearized = delinearize(expr2, assums2, strides2);
+    if (strides1.size() != strides2.size()) {
+        return {expr1, expr2};
+    }
+    for (size_t i = 0; i < strides1.size(); i++) {
+        if (!symbolic::eq(strides1[i], strides2[i])) {
+            return {expr1, expr2};
+        }
+    }
+    return {expr1_delinearized, expr2_delinearized};
+}
+
 } // namespace symbolic
 } // namespace sdfg
-- 
2.43.0


From 976c93c4defd934f2df70250e86b54510347a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 24/72] fix: Powers are monotonic only in their base

---
 sdfg/src/symbolic/maps.cpp   | 6 ++++--
 sdfg/src/symbolic/series.cpp | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/symbolic/maps.cpp b/sdfg/src/symbolic/maps.cpp
index cccbccb..05096b1 100644
--- a/sdfg/src/symbolic/maps.cpp
+++ b/sdfg/src/symbolic/maps.cpp
@@ -59,6 +59,9 @@ bool is_monotonic_pow(const Expression expr, const Symbol sym, const Assumptions
                 return false;
             }
             auto base_sym = SymEngine::rcp_static_cast<const SymEngine::Symbol>(base);
+            if (!symbolic::eq(base_sym, sym)) {
+                return false;
+            }
             auto ub_sym = minimum(base_sym, {}, assums);
             if (ub_sym == SymEngine::null) {
                 return false;
@@ -93,8 +96,7 @@ bool is_disjoint_isl(
     }
 
     // Transform both expressions into two maps with separate dimensions
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
     if (expr1_delinearized.size() != expr2_delinearized.size()) {
         return false;
     }
diff --git a/sdfg/src/symbolic/series.cpp b/sdfg/src/symbolic/series.cpp
index 7c7fae3..b6d7576 100644
--- a/sdfg/src/symbolic/series.cpp
+++ b/sdfg/src/symbolic/series.cpp
@@ -83,6 +83,9 @@ bool is_monotonic_pow(const Expression expr, const Symbol sym, const Assumptions
                 return false;
             }
             auto base_sym = SymEngine::rcp_static_cast<const SymEngine::Symbol>(base);
+            if (!symbolic::eq(base_sym, sym)) {
+                return false;
+            }
             auto ub_sym = minimum(base_sym, {}, assums);
             if (ub_sym == SymEngine::null) {
                 return false;
-- 
2.43.0


From 3977d78b11be93c8e48d74962525bda036e136c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 25/72] fix: Bounds assumed for symbols in a loop condition are
 consistent

---
 sdfg/src/analysis/assumptions_analysis.cpp | 27 ++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index 8a63fb3..ae379f6 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -283,10 +283,29 @@ void AssumptionsAnalysis::traverse_structured_loop(
         }
     }
 
-    // Assumption: any ub symbol is at least init
-    for (auto& sym : symbolic::atoms(ub)) {
-        body_assumptions[sym].add_lower_bound(symbolic::add(init, symbolic::one()));
-        body_assumptions[sym].lower_bound_deprecated(symbolic::add(init, symbolic::one()));
+    // Assumption: any symbol that bounds ub is at least init minus its offset
+    std::vector<symbolic::Expression> ub_terms = {ub};
+    while (!ub_terms.empty()) {
+        auto term = ub_terms.back();
+        ub_terms.pop_back();
+        if (SymEngine::is_a<SymEngine::Min>(*term)) {
+            for (auto& arg : SymEngine::rcp_static_cast<const SymEngine::Min>(term)->get_args()) {
+                ub_terms.push_back(arg);
+            }
+            continue;
+        }
+        for (auto& sym : symbolic::atoms(term)) {
+            auto offset = symbolic::expand(symbolic::sub(term, sym));
+            if (!SymEngine::is_a<SymEngine::Integer>(*offset) || symbolic::uses(init, sym)) {
+                continue;
+            }
+            body_assumptions[sym].lower_bound_deprecated(symbolic::sub(init, offset));
+            if (SymEngine::rcp_static_cast<const SymEngine::Integer>(offset)->is_positive()) {
+                body_assumptions[sym].add_lower_bound(symbolic::sub(init, offset));
+            } else {
+                body_assumptions[sym].add_lower_bound(symbolic::add(init, symbolic::one()));
+            }
+        }
     }
 
     this->propagate(body, body_assumptions, outer_assumptions, outer_assumptions_with_trivial);
-- 
2.43.0


From 7d3c2d8a1c89f536fb3ad3927ac0dcb7c1983ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 26/72] fix: For2Map checks that the induction variable is not
 used after the loop

---
 sdfg/src/passes/structured_control_flow/for2map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index 676961b..212ece0 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -128,7 +128,7 @@ bool For2MapPass::can_be_applied(
     }
 
     // c. indvar not used after for
-    if (locals.find(for_stmt.indvar()->get_name()) != locals.end()) {
+    if (data_dependency_analysis_->is_indvar_read_after(users, for_stmt)) {
         return false;
     }
 
-- 
2.43.0


From d00f6fb90487adbbe76053a855dba52871823324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 27/72] fix: Local storage and loop distribution check bounds
 and returns

---
 sdfg/include/sdfg/transformations/utils.h     |  4 ++
 sdfg/src/transformations/loop_distribute.cpp  |  6 +++
 .../src/transformations/out_local_storage.cpp | 33 ++++++++---------
 sdfg/src/transformations/utils.cpp            | 37 ++++++++++++++++---
 4 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/sdfg/include/sdfg/transformations/utils.h b/sdfg/include/sdfg/transformations/utils.h
index dfbe0c7..7efd997 100644
--- a/sdfg/include/sdfg/transformations/utils.h
+++ b/sdfg/include/sdfg/transformations/utils.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "sdfg/structured_control_flow/control_flow_node.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
 #include "sdfg/symbolic/symbolic.h"
 
@@ -7,4 +8,7 @@ namespace sdfg {
 
 sdfg::symbolic::Integer get_iteration_count(sdfg::structured_control_flow::StructuredLoop& loop);
 
+/// Whether executing the node may leave the function
+bool contains_return(const sdfg::structured_control_flow::ControlFlowNode& node);
+
 } // namespace sdfg
diff --git a/sdfg/src/transformations/loop_distribute.cpp b/sdfg/src/transformations/loop_distribute.cpp
index 1c2f9ec..02a7f9d 100644
--- a/sdfg/src/transformations/loop_distribute.cpp
+++ b/sdfg/src/transformations/loop_distribute.cpp
@@ -3,6 +3,7 @@
 #include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/deepcopy/structured_sdfg_deep_copy.h"
+#include "sdfg/transformations/utils.h"
 
 namespace sdfg {
 namespace transformations {
@@ -26,6 +27,11 @@ bool LoopDistribute::can_be_applied(builder::StructuredSDFGBuilder& builder, ana
         return false;
     }
 
+    // Criterion: No iteration leaves the function
+    if (contains_return(body)) {
+        return false;
+    }
+
     // Criterion: Child does not write to loop-local containers
     /**
      * Positive example:
diff --git a/sdfg/src/transformations/out_local_storage.cpp b/sdfg/src/transformations/out_local_storage.cpp
index 3df8f24..59596a7 100644
--- a/sdfg/src/transformations/out_local_storage.cpp
+++ b/sdfg/src/transformations/out_local_storage.cpp
@@ -37,26 +37,25 @@ bool OutLocalStorage::can_be_applied(builder::StructuredSDFGBuilder& builder, an
         return false;
     }
 
+    // Criterion: The loop does not leave the function before the container is written back
+    if (contains_return(body)) {
+        return false;
+    }
+
     // Criterion: Check if all accesses to the container within the loop are identical
     auto accesses = body_users.uses(this->container_);
     auto first_access = accesses.at(0);
     auto first_subset = first_access->subsets().at(0);
 
-    if (accesses.size() > 1) {
-        for (auto access : accesses) {
-            if (first_access->subsets().size() != access->subsets().size()) {
+    for (auto access : accesses) {
+        for (auto& subset : access->subsets()) {
+            if (first_subset.size() != subset.size()) {
                 return false;
             }
-            for (size_t i = 0; i < first_access->subsets().size(); i++) {
-                auto subset = access->subsets().at(i);
-                if (first_subset.size() != subset.size()) {
+            for (size_t j = 0; j < first_subset.size(); j++) {
+                if (!symbolic::eq(first_subset.at(j), subset.at(j))) {
                     return false;
                 }
-                for (size_t j = 0; j < first_subset.size(); j++) {
-                    if (!symbolic::eq(first_subset.at(j), subset.at(j))) {
-                        return false;
-                    }
-                }
             }
         }
     }
@@ -100,7 +99,7 @@ bool OutLocalStorage::can_be_applied(builder::StructuredSDFGBuilder& builder, an
     // required
     if (this->requires_array_) {
         auto iteration_count = get_iteration_count(this->loop_);
-        if (iteration_count == SymEngine::null) {
+        if (iteration_count == SymEngine::null || !iteration_count->is_positive()) {
             return false;
         }
     }
@@ -170,7 +169,7 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
     auto& init_memlet_in =
         builder.add_computational_memlet(init_block, init_access_read, init_tasklet, "_in", first_subset, *type);
     init_memlet_in.replace(loop_.indvar(), indvar);
-    builder.add_computational_memlet(init_block, init_tasklet, "_out", init_access_write, {indvar}, array_type);
+    builder.add_computational_memlet(init_block, init_tasklet, "_out", init_access_write, {symbolic::sub(indvar, init)}, array_type);
 
     auto& reset_loop = builder.add_for_after(*parent, loop_, indvar, condition, init, update, {}, loop_.debug_info());
     auto& reset_body = reset_loop.root();
@@ -178,7 +177,7 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
     auto& reset_access_read = builder.add_access(reset_block, replacement_name);
     auto& reset_access_write = builder.add_access(reset_block, this->container_);
     auto& reset_tasklet = builder.add_tasklet(reset_block, data_flow::TaskletCode::assign, "_out", {"_in"});
-    builder.add_computational_memlet(reset_block, reset_access_read, reset_tasklet, "_in", {indvar}, array_type);
+    builder.add_computational_memlet(reset_block, reset_access_read, reset_tasklet, "_in", {symbolic::sub(indvar, init)}, array_type);
     auto& reset_memlet_out =
         builder.add_computational_memlet(reset_block, reset_tasklet, "_out", reset_access_write, first_subset, *type);
     reset_memlet_out.replace(loop_.indvar(), indvar);
@@ -188,7 +187,7 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
         if (auto memlet = dynamic_cast<data_flow::Memlet*>(element)) {
             auto subset = memlet->subset();
             subset.clear();
-            subset.push_back(this->loop_.indvar());
+            subset.push_back(symbolic::sub(this->loop_.indvar(), init));
             memlet->set_subset(subset);
         }
     }
@@ -200,7 +199,7 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
                 auto memlet = &iedge;
                 auto subset = memlet->subset();
                 subset.clear();
-                subset.push_back(this->loop_.indvar());
+                subset.push_back(symbolic::sub(this->loop_.indvar(), init));
                 memlet->set_subset(subset);
                 memlet->set_base_type(array_type);
             }
@@ -208,7 +207,7 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
                 auto memlet = &oedge;
                 auto subset = memlet->subset();
                 subset.clear();
-                subset.push_back(this->loop_.indvar());
+                subset.push_back(symbolic::sub(this->loop_.indvar(), init));
                 memlet->set_subset(subset);
                 memlet->set_base_type(array_type);
             }
diff --git a/sdfg/src/transformations/utils.cpp b/sdfg/src/transformations/utils.cpp
index 2f3787b..9b0129d 100644
--- a/sdfg/src/transformations/utils.cpp
+++ b/sdfg/src/transformations/utils.cpp
@@ -1,6 +1,12 @@
 #include "sdfg/transformations/utils.h"
 
+#include <list>
+
+#include "sdfg/structured_control_flow/if_else.h"
+#include "sdfg/structured_control_flow/return.h"
+#include "sdfg/structured_control_flow/sequence.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
+#include "sdfg/structured_control_flow/while.h"
 #include "sdfg/symbolic/symbolic.h"
 #include "symengine/logic.h"
 
@@ -19,9 +25,6 @@ symbolic::Integer sdfg::get_iteration_count(sdfg::structured_control_flow::Struc
             auto stl = SymEngine::rcp_static_cast<const SymEngine::StrictLessThan>(*it);
             auto lhs = stl->get_args()[0];
             auto rhs = stl->get_args()[1];
-            if (!symbolic::eq(lhs, loop.indvar())) {
-                std::swap(lhs, rhs);
-            }
             if (!symbolic::eq(lhs, loop.indvar())) {
                 continue;
             }
@@ -35,9 +38,6 @@ symbolic::Integer sdfg::get_iteration_count(sdfg::structured_control_flow::Struc
         auto stl = SymEngine::rcp_static_cast<const SymEngine::StrictLessThan>(condition);
         auto lhs = stl->get_args()[0];
         auto rhs = stl->get_args()[1];
-        if (!symbolic::eq(lhs, loop.indvar())) {
-            std::swap(lhs, rhs);
-        }
         if (!symbolic::eq(lhs, loop.indvar())) {
             return SymEngine::null;
         }
@@ -49,3 +49,28 @@ symbolic::Integer sdfg::get_iteration_count(sdfg::structured_control_flow::Struc
     }
     return SymEngine::null;
 };
+
+bool sdfg::contains_return(const sdfg::structured_control_flow::ControlFlowNode& node) {
+    std::list<const structured_control_flow::ControlFlowNode*> queue = {&node};
+    while (!queue.empty()) {
+        auto current = queue.front();
+        queue.pop_front();
+
+        if (dynamic_cast<const structured_control_flow::Return*>(current)) {
+            return true;
+        } else if (auto sequence = dynamic_cast<const structured_control_flow::Sequence*>(current)) {
+            for (size_t i = 0; i < sequence->size(); i++) {
+                queue.push_back(&sequence->at(i).first);
+            }
+        } else if (auto if_else = dynamic_cast<const structured_control_flow::IfElse*>(current)) {
+            for (size_t i = 0; i < if_else->size(); i++) {
+                queue.push_back(&if_else->at(i).first);
+            }
+        } else if (auto while_loop = dynamic_cast<const structured_control_flow::While*>(current)) {
+            queue.push_back(&while_loop->root());
+        } else if (auto loop = dynamic_cast<const structured_control_flow::StructuredLoop*>(current)) {
+            queue.push_back(&loop->root());
+        }
+    }
+    return false;
+}
-- 
2.43.0


From 14df7f47e0597ce689a4954b73c546bbcd381bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 28/72] fix: Loop tiling requires a canonical bound and an
 unused indvar

---
 sdfg/src/transformations/loop_tiling.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/transformations/loop_tiling.cpp b/sdfg/src/transformations/loop_tiling.cpp
index 32cc927..dbe0fdb 100644
--- a/sdfg/src/transformations/loop_tiling.cpp
+++ b/sdfg/src/transformations/loop_tiling.cpp
@@ -1,8 +1,10 @@
 #include "sdfg/transformations/loop_tiling.h"
 
 #include "sdfg/analysis/assumptions_analysis.h"
+#include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
+#include "sdfg/analysis/users.h"
 #include "sdfg/builder/structured_sdfg_builder.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
 #include "sdfg/symbolic/symbolic.h"
@@ -21,7 +23,17 @@ bool LoopTiling::can_be_applied(builder::StructuredSDFGBuilder& builder, analysi
     }
     // Criterion contiguous loop
     auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    return analysis::LoopAnalysis::is_contiguous(&loop_, assumptions_analysis);
+    if (!analysis::LoopAnalysis::is_contiguous(&loop_, assumptions_analysis)) {
+        return false;
+    }
+    // Criterion: Condition holds up to a bound, such that tiles starting beyond the bound are empty
+    if (analysis::LoopAnalysis::canonical_bound(&loop_, assumptions_analysis) == SymEngine::null) {
+        return false;
+    }
+    // Criterion: Induction variable is not used after the loop, since it is not initialized without a tile
+    auto& users = analysis_manager.get<analysis::Users>();
+    auto& data_dependency_analysis = analysis_manager.get<analysis::DataDependencyAnalysis>();
+    return !data_dependency_analysis.is_indvar_read_after(users, loop_);
 };
 
 void LoopTiling::apply(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager) {
-- 
2.43.0


From 2c85a1f53a0dcc836d1aa08c09cc847f5e08c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 29/72] fix: Map fusion considers the other writes of producer
 and consumer

---
 sdfg/src/transformations/map_fusion.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sdfg/src/transformations/map_fusion.cpp b/sdfg/src/transformations/map_fusion.cpp
index 06dcd77..a9fc976 100644
--- a/sdfg/src/transformations/map_fusion.cpp
+++ b/sdfg/src/transformations/map_fusion.cpp
@@ -100,6 +100,22 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
         return false;
     }
 
+    // Criterion: Replicating the producer in the second loop must read the same values
+    // and must not write anything but the fused containers
+    auto& users = analysis_manager.get<analysis::Users>();
+    analysis::UsersView first_users(users, first_map_.root());
+    analysis::UsersView second_users(users, second_loop_.root());
+    for (auto& user : first_users.uses()) {
+        if (!second_users.writes(user->container()).empty() || !second_users.moves(user->container()).empty()) {
+            return false;
+        }
+    }
+    for (auto& write : first_users.writes()) {
+        if (!fusion_containers.contains(write->container())) {
+            return false;
+        }
+    }
+
     // Analyze memory access patterns for each fusion candidate
     auto& first_dataflow = first_block->dataflow();
 
-- 
2.43.0


From 38b5d6bd195a794fbd4a92839f7de5ea6bfddb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 30/72] fix: Block fusion keeps accesses of a container ordered

---
 .../structured_control_flow/block_fusion.cpp  | 68 +++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/block_fusion.cpp b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
index 409eab6..a64167f 100644
--- a/sdfg/src/passes/structured_control_flow/block_fusion.cpp
+++ b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
@@ -2,12 +2,34 @@
 #include <cstddef>
 #include <unordered_set>
 #include <utility>
+#include <vector>
 #include "sdfg/data_flow/access_node.h"
 #include "sdfg/data_flow/data_flow_node.h"
 
 namespace sdfg {
 namespace passes {
 
+namespace {
+
+/// All nodes that can be reached from a node, including the node itself
+std::unordered_set<const data_flow::DataFlowNode*>
+reachable(const data_flow::DataFlowGraph& graph, const data_flow::DataFlowNode& from) {
+    std::unordered_set<const data_flow::DataFlowNode*> visited = {&from};
+    std::vector<const data_flow::DataFlowNode*> stack = {&from};
+    while (!stack.empty()) {
+        auto* node = stack.back();
+        stack.pop_back();
+        for (auto* next : graph.successors(*node)) {
+            if (visited.insert(next).second) {
+                stack.push_back(next);
+            }
+        }
+    }
+    return visited;
+}
+
+} // namespace
+
 BlockFusion::BlockFusion(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager)
     : visitor::NonStoppingStructuredSDFGVisitor(builder, analysis_manager) {}
 
@@ -155,6 +177,52 @@ bool BlockFusion::can_be_applied(
         }
     }
 
+    // Criterion: Accesses of the same container remain ordered by the connections made on fusion
+    auto pdoms = std::as_const(first_graph).post_dominators();
+    auto ordered_before = [&](const data_flow::DataFlowNode& first, const data_flow::DataFlowNode& second) {
+        auto after_first = reachable(first_graph, first);
+        for (auto* source : std::as_const(second_graph).sources()) {
+            auto* access_node = dynamic_cast<const data_flow::AccessNode*>(source);
+            if (!access_node) {
+                continue;
+            }
+            auto connector = pdoms.find(access_node->data());
+            if (connector != pdoms.end() && after_first.contains(connector->second) &&
+                reachable(second_graph, *source).contains(&second)) {
+                return true;
+            }
+        }
+        return false;
+    };
+    for (auto& first_entry : first_components) {
+        auto* first_node = dynamic_cast<const data_flow::AccessNode*>(first_entry.first);
+        if (!first_node || dynamic_cast<const data_flow::ConstantNode*>(first_node)) {
+            continue;
+        }
+        for (auto& second_entry : second_components) {
+            auto* second_node = dynamic_cast<const data_flow::AccessNode*>(second_entry.first);
+            if (!second_node || second_node->data() != first_node->data()) {
+                continue;
+            }
+            std::unordered_set<const data_flow::DataFlowNode*> before;
+            std::unordered_set<const data_flow::DataFlowNode*> after = {second_node};
+            if (first_graph.in_degree(*first_node) > 0) {
+                before.insert(first_node);
+            }
+            if (second_graph.in_degree(*second_node) > 0) {
+                before.merge(std::as_const(first_graph).successors(*first_node));
+                after = std::as_const(second_graph).predecessors(*second_node);
+            }
+            for (auto* first : before) {
+                for (auto* second : after) {
+                    if (!ordered_before(*first, *second)) {
+                        return false;
+                    }
+                }
+            }
+        }
+    }
+
     return true;
 };
 
-- 
2.43.0


From 9f043110dd897064520830d93923a74677d0a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 31/72] fix: Common assignment elimination checks uses in the
 branches

---
 .../common_assignment_elimination.cpp         | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp b/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
index 500a2f1..8009d02 100644
--- a/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
@@ -27,7 +27,7 @@ bool CommonAssignmentElimination::
             for (size_t i = 0; i < sequence_stmt->size(); i++) {
                 auto child = sequence_stmt->at(i);
                 if (auto if_else_stmt = dynamic_cast<structured_control_flow::IfElse*>(&child.first)) {
-                    if (if_else_stmt->size() < 2) {
+                    if (if_else_stmt->size() < 2 || !if_else_stmt->is_complete()) {
                         continue;
                     }
                     auto& first_branch = if_else_stmt->at(0).first;
@@ -40,16 +40,27 @@ bool CommonAssignmentElimination::
                     }
 
                     // Check waw dependencies
-                    for (auto& entry : last_transition.assignments()) {
-                        auto& first_assign = entry.first;
-                        auto& first_assignment = entry.second;
+                    auto candidates = last_transition.assignments();
+                    for (auto& entry : candidates) {
+                        auto first_assign = entry.first;
+                        auto first_assignment = entry.second;
                         if (child.second.assignments().find(first_assign) != child.second.assignments().end()) {
                             continue;
                         }
 
+                        // Assignments of a transition are simultaneous
+                        bool used = false;
+                        for (auto& assignment : child.second.assignments()) {
+                            used |= symbolic::uses(assignment.second, first_assign);
+                            used |= symbolic::uses(first_assignment, assignment.first);
+                        }
+                        if (used) {
+                            continue;
+                        }
+
                         // Check if all branches end with same assignment
                         bool all_branches_same = true;
-                        for (size_t j = 1; j < if_else_stmt->size(); j++) {
+                        for (size_t j = 0; j < if_else_stmt->size(); j++) {
                             auto& branch = if_else_stmt->at(j).first;
                             if (branch.size() == 0) {
                                 all_branches_same = false;
@@ -65,12 +76,24 @@ bool CommonAssignmentElimination::
                                 all_branches_same = false;
                                 break;
                             }
+                            for (auto& assignment : transition.assignments()) {
+                                if (!symbolic::eq(assignment.first, first_assign) &&
+                                    symbolic::uses(first_assignment, assignment.first)) {
+                                    all_branches_same = false;
+                                    break;
+                                }
+                            }
                         }
 
                         if (!all_branches_same) {
                             continue;
                         }
 
+                        // Move assignment behind the branches
+                        for (size_t j = 0; j < if_else_stmt->size(); j++) {
+                            auto& branch = if_else_stmt->at(j).first;
+                            branch.at(branch.size() - 1).second.assignments().erase(first_assign);
+                        }
                         child.second.assignments().insert({first_assign, first_assignment});
                         applied = true;
                     }
-- 
2.43.0


From 0a1f4df71cfce0f43f8561b9fd9d4d95c2fef3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 32/72] fix: Loop normalization keeps an indvar that is read
 after the loop

---
 .../passes/structured_control_flow/loop_normalization.cpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
index 8a264f1..95d8526 100644
--- a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
+++ b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
@@ -1,6 +1,7 @@
 #include "sdfg/passes/structured_control_flow/loop_normalization.h"
 
 #include "sdfg/analysis/assumptions_analysis.h"
+#include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/symbolic/conjunctive_normal_form.h"
 #include "sdfg/symbolic/polynomials.h"
@@ -182,6 +183,12 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
         return applied;
     }
 
+    // Further steps change the value of the indvar after the loop
+    auto& data_dependency_analysis = analysis_manager_.get<analysis::DataDependencyAnalysis>();
+    if (data_dependency_analysis.is_indvar_read_after(users_analysis, loop)) {
+        return applied;
+    }
+
     try {
         new_cnf = symbolic::conjunctive_normal_form(condition);
     } catch (const symbolic::CNFException e) {
-- 
2.43.0


From 48084ebf57ad92285decf7e2add4858ecc11b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 33/72] fix: Symbol evolution initialises once per loop
 execution

---
 sdfg/src/passes/symbolic/symbol_evolution.cpp | 43 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/symbolic/symbol_evolution.cpp b/sdfg/src/passes/symbolic/symbol_evolution.cpp
index 2ad6932..b33787d 100644
--- a/sdfg/src/passes/symbolic/symbol_evolution.cpp
+++ b/sdfg/src/passes/symbolic/symbol_evolution.cpp
@@ -125,6 +125,7 @@ bool SymbolEvolution::eliminate_symbols(
 
     auto& users = analysis_manager.get<analysis::Users>();
     auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
     analysis::UsersView body_users(users, loop.root());
 
     // Loop-dependent symbols are written in the loop body
@@ -201,6 +202,46 @@ bool SymbolEvolution::eliminate_symbols(
         auto& init_transition = static_cast<structured_control_flow::Transition&>(*init_write->element());
         auto init_sym = init_transition.assignments().at(symbolic::symbol(sym));
 
+        // Criterion: Initialization is executed once per execution of the loop
+        bool initialized_per_loop = false;
+        auto init_scope = static_cast<const structured_control_flow::ControlFlowNode*>(&init_transition.parent());
+        const structured_control_flow::ControlFlowNode* scope = scope_analysis.parent_scope(&loop);
+        while (scope != nullptr) {
+            if (scope == init_scope) {
+                initialized_per_loop = true;
+                break;
+            }
+            if (dynamic_cast<const structured_control_flow::StructuredLoop*>(scope) ||
+                dynamic_cast<const structured_control_flow::While*>(scope)) {
+                break;
+            }
+            scope = scope_analysis.parent_scope(scope);
+        }
+        if (!initialized_per_loop) {
+            continue;
+        }
+
+        // Criterion: Initial value still holds on entering the loop
+        std::unordered_set<std::string> init_symbols;
+        for (auto& atom : symbolic::atoms(init_sym)) {
+            init_symbols.insert(atom->get_name());
+        }
+        bool init_modified = false;
+        for (auto& entry : init_transition.assignments()) {
+            if (init_symbols.contains(entry.first->get_name())) {
+                init_modified = true;
+            }
+        }
+        for (auto& use : users.all_uses_between(*init_write, *update_write)) {
+            if ((use->use() == analysis::Use::WRITE || use->use() == analysis::Use::MOVE) &&
+                init_symbols.contains(use->container())) {
+                init_modified = true;
+            }
+        }
+        if (init_modified) {
+            continue;
+        }
+
         // Criterion: Infer scalar evolution
         auto evolution =
             scalar_evolution(loop, indvar, update, init, symbolic::symbol(sym), update_sym, init_sym, candidates);
@@ -214,7 +255,7 @@ bool SymbolEvolution::eliminate_symbols(
             loop.root(), old_first_block, {{symbolic::symbol(sym), evolution}}, old_first_block.debug_info()
         );
         update_transition.assignments().erase(symbolic::symbol(sym));
-        transition.assignments().insert({symbolic::symbol(sym), update_sym});
+        transition.assignments().insert({symbolic::symbol(sym), evolution});
 
         applied = true;
     }
-- 
2.43.0


From 13bea60981a61f9e64b7e2d1b09c8e65d2c7b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 34/72] fix: Symbol propagation respects uses and modifications
 in between

---
 .../passes/symbolic/symbol_propagation.cpp    | 90 +++++++++++++------
 1 file changed, 63 insertions(+), 27 deletions(-)

diff --git a/sdfg/src/passes/symbolic/symbol_propagation.cpp b/sdfg/src/passes/symbolic/symbol_propagation.cpp
index d6a90c5..862a0fc 100644
--- a/sdfg/src/passes/symbolic/symbol_propagation.cpp
+++ b/sdfg/src/passes/symbolic/symbol_propagation.cpp
@@ -2,6 +2,7 @@
 
 #include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/dominance_analysis.h"
+#include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/analysis/users.h"
 
 namespace sdfg {
@@ -57,6 +58,21 @@ symbolic::Expression inverse(const symbolic::Symbol lhs, const symbolic::Express
     return SymEngine::null;
 };
 
+/**
+ * @brief Finds the innermost loop around a scope.
+ */
+static const structured_control_flow::ControlFlowNode*
+enclosing_loop(analysis::ScopeAnalysis& scope_analysis, const structured_control_flow::ControlFlowNode* scope) {
+    while (scope != nullptr) {
+        if (dynamic_cast<const structured_control_flow::StructuredLoop*>(scope) ||
+            dynamic_cast<const structured_control_flow::While*>(scope)) {
+            return scope;
+        }
+        scope = scope_analysis.parent_scope(scope);
+    }
+    return nullptr;
+};
+
 SymbolPropagation::SymbolPropagation()
     : Pass() {
 
@@ -71,6 +87,7 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
     auto& users = analysis_manager.get<analysis::Users>();
     auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
     auto& data_dependency_analysis = analysis_manager.get<analysis::DataDependencyAnalysis>();
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
     std::unordered_set<data_flow::AccessNode*> replaced_nodes;
     std::unordered_set<std::string> skip;
     for (auto& name : sdfg.containers()) {
@@ -145,6 +162,20 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                     continue;
                 }
 
+                // Criterion: LHS is not used between write and read
+                bool lhs_used = false;
+                for (auto* write : {write1, write2}) {
+                    for (auto* user : users.all_uses_between(*write, *read)) {
+                        if (user->container() == lhs->get_name()) {
+                            lhs_used = true;
+                            break;
+                        }
+                    }
+                }
+                if (lhs_used) {
+                    continue;
+                }
+
                 auto rhs1 = transition1->assignments().at(rhs);
                 if (symbolic::uses(rhs1, lhs)) {
                     if (!symbolic::eq(rhs1, lhs)) {
@@ -205,37 +236,36 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
 
                 auto rhs_modified = rhs;
 
-                // Find dangerous users between write and read
-                auto is_dangerous = [&](analysis::User* user) {
-                    if (user == write || user == read) {
-                        return false;
-                    }
-
-                    // Criterion: RHS must dominate modification
-                    if (!dominance_analysis.dominates(*write, *user)) {
-                        return false;
+                // Criterion: RHS' symbols are not overwritten by the write's transition
+                bool overwritten = false;
+                for (auto& assign_entry : transition->assignments()) {
+                    if (rhs_symbols.contains(assign_entry.first->get_name())) {
+                        overwritten = true;
+                        break;
                     }
+                }
+                if (overwritten) {
+                    continue;
+                }
 
-                    // Criterion: Modification must dominate read
-                    if (dominance_analysis.dominates(*read, *user)) {
-                        return false;
+                // Find dangerous users between write and read
+                std::unordered_set<std::string> modifiable_symbols;
+                for (const auto& sym : rhs_symbols) {
+                    if (!users.writes(sym).empty() || !users.moves(sym).empty()) {
+                        modifiable_symbols.insert(sym);
                     }
-
-                    return true;
-                };
+                }
+                std::unordered_set<analysis::User*> middle_users;
                 std::unordered_set<std::string> dangerous_users;
-                for (const auto& sym : rhs_symbols) {
-                    for (auto* user : users.writes(sym)) {
-                        if (is_dangerous(user)) {
-                            dangerous_users.insert(sym);
-                            break;
-                        }
+                if (!modifiable_symbols.empty()) {
+                    middle_users = users.all_uses_between(*write, *read);
+                }
+                for (auto* user : middle_users) {
+                    if (user->use() != analysis::Use::WRITE && user->use() != analysis::Use::MOVE) {
+                        continue;
                     }
-                    for (auto* user : users.moves(sym)) {
-                        if (is_dangerous(user)) {
-                            dangerous_users.insert(sym);
-                            break;
-                        }
+                    if (modifiable_symbols.contains(user->container())) {
+                        dangerous_users.insert(user->container());
                     }
                 }
                 if (!dangerous_users.empty()) {
@@ -243,7 +273,6 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                     // We attempt to create the new RHS
                     bool success = true;
                     std::unordered_set<std::string> modified_symbols;
-                    auto middle_users = users.all_uses_between(*write, *read);
                     for (auto& user : middle_users) {
                         if (user->use() != analysis::Use::WRITE && user->use() != analysis::Use::MOVE) {
                             continue;
@@ -270,6 +299,13 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                             break;
                         }
 
+                        // Criterion: Modification is executed once
+                        if (enclosing_loop(scope_analysis, users.scope(write)) !=
+                            enclosing_loop(scope_analysis, users.scope(user))) {
+                            success = false;
+                            break;
+                        }
+
                         // Criterion: Only transitions
                         if (!dynamic_cast<structured_control_flow::Transition*>(user->element())) {
                             success = false;
-- 
2.43.0


From bdfbb65992d3de793c831d561419e7fa18dd4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 35/72] fix: Reference propagation respects reassigned offsets
 and self views

---
 .../passes/dataflow/reference_propagation.cpp | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/sdfg/src/passes/dataflow/reference_propagation.cpp b/sdfg/src/passes/dataflow/reference_propagation.cpp
index cecde30..bfb1397 100644
--- a/sdfg/src/passes/dataflow/reference_propagation.cpp
+++ b/sdfg/src/passes/dataflow/reference_propagation.cpp
@@ -118,6 +118,9 @@ bool ReferencePropagation::run_pass(builder::StructuredSDFGBuilder& builder, ana
                 continue;
             }
             auto& viewed_container = viewed_node.data();
+            if (viewed_container == container) {
+                continue;
+            }
 
             // Criterion: Must be an access node
             if (!dynamic_cast<data_flow::AccessNode*>(user->element())) {
@@ -148,6 +151,28 @@ bool ReferencePropagation::run_pass(builder::StructuredSDFGBuilder& builder, ana
                 }
             }
 
+            // Criterion: No reassignment of the offset in between
+            std::unordered_set<std::string> offset_symbols;
+            for (auto& dim : move_subset) {
+                for (auto& atom : symbolic::atoms(dim)) {
+                    if (users_analysis.num_writes(atom->get_name()) > 0) {
+                        offset_symbols.insert(atom->get_name());
+                    }
+                }
+            }
+            if (!offset_symbols.empty()) {
+                bool reassigned = false;
+                for (auto& use : users_analysis.all_uses_between(*move, *user)) {
+                    if (use->use() == analysis::Use::WRITE && offset_symbols.contains(use->container())) {
+                        reassigned = true;
+                        break;
+                    }
+                }
+                if (reassigned) {
+                    continue;
+                }
+            }
+
             auto& user_node = static_cast<data_flow::AccessNode&>(*user->element());
 
             // Simple case: No arithmetic on pointer, just replace container
-- 
2.43.0


From 76351d082f28366da790f75593df6d2dd55c991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 36/72] fix: Dead CFG elimination keeps observable induction
 variables

---
 .../dead_cfg_elimination.cpp                  | 59 ++++++++++++++++++-
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
index 4aa60d7..32ebda6 100644
--- a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
@@ -1,6 +1,8 @@
 #include "sdfg/passes/structured_control_flow/dead_cfg_elimination.h"
 
+#include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
+#include "sdfg/analysis/users.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
 #include "sdfg/symbolic/assumptions.h"
 #include "sdfg/symbolic/conjunctive_normal_form.h"
@@ -22,7 +24,6 @@ bool DeadCFGElimination::is_dead(const structured_control_flow::ControlFlowNode&
         if (sloop->root().size() != 0) {
             return false;
         }
-        // TODO: Check use of indvar later
         return permissive_;
     }
 
@@ -46,6 +47,54 @@ bool DeadCFGElimination::is_trivial(structured_control_flow::Map* loop) {
     return symbolic::eq(trip_count, symbolic::one());
 }
 
+/// Checks that a symbol is only used symbolically and that it as well as the replacement's symbols are not written
+static bool is_replaceable(
+    const structured_control_flow::ControlFlowNode& node,
+    const symbolic::Symbol symbol,
+    const symbolic::SymbolSet& replacement_symbols
+) {
+    auto is_written = [&](const symbolic::Symbol lhs) {
+        return symbolic::eq(lhs, symbol) || replacement_symbols.find(lhs) != replacement_symbols.end();
+    };
+    if (auto block = dynamic_cast<const structured_control_flow::Block*>(&node)) {
+        auto& dataflow = block->dataflow();
+        for (auto& access_node : dataflow.data_nodes()) {
+            if (access_node->data() == symbol->get_name()) {
+                return false;
+            }
+            if (dataflow.in_degree(*access_node) == 0 || dynamic_cast<const data_flow::ConstantNode*>(access_node)) {
+                continue;
+            }
+            if (is_written(symbolic::symbol(access_node->data()))) {
+                return false;
+            }
+        }
+    } else if (auto sequence = dynamic_cast<const structured_control_flow::Sequence*>(&node)) {
+        for (size_t i = 0; i < sequence->size(); i++) {
+            auto child = sequence->at(i);
+            for (auto& entry : child.second.assignments()) {
+                if (is_written(entry.first)) {
+                    return false;
+                }
+            }
+            if (!is_replaceable(child.first, symbol, replacement_symbols)) {
+                return false;
+            }
+        }
+    } else if (auto if_else = dynamic_cast<const structured_control_flow::IfElse*>(&node)) {
+        for (size_t i = 0; i < if_else->size(); i++) {
+            if (!is_replaceable(if_else->at(i).first, symbol, replacement_symbols)) {
+                return false;
+            }
+        }
+    } else if (auto while_loop = dynamic_cast<const structured_control_flow::While*>(&node)) {
+        return is_replaceable(while_loop->root(), symbol, replacement_symbols);
+    } else if (auto loop = dynamic_cast<const structured_control_flow::StructuredLoop*>(&node)) {
+        return !is_written(loop->indvar()) && is_replaceable(loop->root(), symbol, replacement_symbols);
+    }
+    return true;
+}
+
 DeadCFGElimination::DeadCFGElimination()
     : Pass(), permissive_(false) {
 
@@ -110,7 +159,11 @@ bool DeadCFGElimination::run_pass(builder::StructuredSDFGBuilder& builder, analy
                 }
 
                 // Dead
-                if (is_dead(child.first)) {
+                auto empty_loop = dynamic_cast<structured_control_flow::StructuredLoop*>(&child.first);
+                if (is_dead(child.first) &&
+                    (empty_loop == nullptr || !analysis_manager.get<analysis::DataDependencyAnalysis>().is_indvar_read_after(
+                                                  analysis_manager.get<analysis::Users>(), *empty_loop
+                                              ))) {
                     builder.remove_child(*sequence_stmt, i);
                     applied = true;
                     continue;
@@ -129,7 +182,7 @@ bool DeadCFGElimination::run_pass(builder::StructuredSDFGBuilder& builder, analy
 
                 // Trivial structured loop (bound - init == 1 and stride == 1)
                 if (auto sloop = dynamic_cast<structured_control_flow::Map*>(&child.first)) {
-                    if (is_trivial(sloop)) {
+                    if (is_trivial(sloop) && is_replaceable(sloop->root(), sloop->indvar(), symbolic::atoms(sloop->init()))) {
                         auto indvar = sloop->indvar();
                         auto init = sloop->init();
                         sloop->root().replace(indvar, init);
-- 
2.43.0


From 16805dc8665ef80416ea51968a8ba6f989261dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 37/72] fix: Constant propagation merges identical definitions
 only

---
 .../passes/dataflow/constant_propagation.cpp  | 90 ++++++++++++++++++-
 1 file changed, 87 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/passes/dataflow/constant_propagation.cpp b/sdfg/src/passes/dataflow/constant_propagation.cpp
index 6e1c750..6751772 100644
--- a/sdfg/src/passes/dataflow/constant_propagation.cpp
+++ b/sdfg/src/passes/dataflow/constant_propagation.cpp
@@ -65,6 +65,78 @@ std::unordered_set<analysis::User*> inputs(analysis::User& user, analysis::Users
     }
 }
 
+static bool identical_edges(const data_flow::Memlet& edge1, const data_flow::Memlet& edge2) {
+    if (edge1.type() != edge2.type() || edge1.src_conn() != edge2.src_conn() || edge1.dst_conn() != edge2.dst_conn()) {
+        return false;
+    }
+    if (edge1.base_type() != edge2.base_type() || edge1.subset().size() != edge2.subset().size()) {
+        return false;
+    }
+    for (size_t i = 0; i < edge1.subset().size(); i++) {
+        if (!symbolic::eq(edge1.subset()[i], edge2.subset()[i])) {
+            return false;
+        }
+    }
+    return true;
+}
+
+static bool identical_sources(const data_flow::DataFlowNode& node1, const data_flow::DataFlowNode& node2) {
+    auto access_node1 = dynamic_cast<const data_flow::AccessNode*>(&node1);
+    auto access_node2 = dynamic_cast<const data_flow::AccessNode*>(&node2);
+    if (!access_node1 || !access_node2 || access_node1->data() != access_node2->data()) {
+        return false;
+    }
+    auto constant_node1 = dynamic_cast<const data_flow::ConstantNode*>(&node1);
+    auto constant_node2 = dynamic_cast<const data_flow::ConstantNode*>(&node2);
+    if (!constant_node1 || !constant_node2) {
+        return !constant_node1 && !constant_node2;
+    }
+    return constant_node1->type() == constant_node2->type();
+}
+
+/// Two definitions compute the same function of their inputs
+static bool identical_definitions(const std::string& container, analysis::User& define1, analysis::User& define2) {
+    auto transition1 = dynamic_cast<structured_control_flow::Transition*>(define1.element());
+    auto transition2 = dynamic_cast<structured_control_flow::Transition*>(define2.element());
+    if (transition1 && transition2) {
+        auto symbol = symbolic::symbol(container);
+        return symbolic::eq(transition1->assignments().at(symbol), transition2->assignments().at(symbol));
+    }
+    auto access_node1 = dynamic_cast<data_flow::AccessNode*>(define1.element());
+    auto access_node2 = dynamic_cast<data_flow::AccessNode*>(define2.element());
+    if (!access_node1 || !access_node2) {
+        return false;
+    }
+    auto& graph1 = access_node1->get_parent();
+    auto& graph2 = access_node2->get_parent();
+    auto& iedge1 = *graph1.in_edges(*access_node1).begin();
+    auto& iedge2 = *graph2.in_edges(*access_node2).begin();
+    if (!identical_edges(iedge1, iedge2)) {
+        return false;
+    }
+    auto tasklet1 = dynamic_cast<const data_flow::Tasklet*>(&iedge1.src());
+    auto tasklet2 = dynamic_cast<const data_flow::Tasklet*>(&iedge2.src());
+    if (!tasklet1 || !tasklet2) {
+        return identical_sources(iedge1.src(), iedge2.src());
+    }
+    if (tasklet1->code() != tasklet2->code() || graph1.in_degree(*tasklet1) != graph2.in_degree(*tasklet2)) {
+        return false;
+    }
+    for (auto& input1 : graph1.in_edges(*tasklet1)) {
+        bool found = false;
+        for (auto& input2 : graph2.in_edges(*tasklet2)) {
+            if (identical_edges(input1, input2) && identical_sources(input1.src(), input2.src())) {
+                found = true;
+                break;
+            }
+        }
+        if (!found) {
+            return false;
+        }
+    }
+    return true;
+}
+
 bool ConstantPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager) {
     bool applied = false;
 
@@ -73,6 +145,8 @@ bool ConstantPropagation::run_pass(builder::StructuredSDFGBuilder& builder, anal
     auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
     auto& data_dependency_analysis = analysis_manager.get<analysis::DataDependencyAnalysis>();
 
+    std::vector<data_flow::AccessNode*> eliminated_nodes;
+
     // We seek to find two identical definitions of the same container
     for (auto& name : sdfg.containers()) {
         std::unordered_set<analysis::User*> defines;
@@ -237,19 +311,29 @@ bool ConstantPropagation::run_pass(builder::StructuredSDFGBuilder& builder, anal
             continue;
         }
 
+        // Criterion: Same function of the inputs
+        if (!identical_definitions(name, *define1, *define2)) {
+            continue;
+        }
+
         // Eliminate the dominated definition
         auto write = define2->element();
         if (auto transition = dynamic_cast<structured_control_flow::Transition*>(write)) {
             transition->assignments().erase(symbolic::symbol(name));
             applied = true;
         } else if (auto access_node = dynamic_cast<data_flow::AccessNode*>(write)) {
-            auto& graph = access_node->get_parent();
-            auto& block = dynamic_cast<structured_control_flow::Block&>(*graph.get_parent());
-            builder.clear_node(block, *access_node);
+            eliminated_nodes.push_back(access_node);
             applied = true;
         }
     }
 
+    // Avoid removing elements while iterating above
+    for (auto* access_node : eliminated_nodes) {
+        auto& graph = access_node->get_parent();
+        auto& block = dynamic_cast<structured_control_flow::Block&>(*graph.get_parent());
+        builder.clear_node(block, *access_node);
+    }
+
     return applied;
 };
 
-- 
2.43.0


From 450dcd6b1ec2455dccc7b4b6bc8fb5071b367951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 38/72] fix: Alternatives in a loop condition are not upper
 bounds

---
 sdfg/src/analysis/assumptions_analysis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index ae379f6..469a5ea 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -21,6 +21,10 @@ symbolic::Expression AssumptionsAnalysis::cnf_to_upper_bound(const symbolic::CNF
     std::vector<symbolic::Expression> candidates;
 
     for (const auto& clause : cnf) {
+        // Only one literal of a disjunction needs to hold
+        if (clause.size() != 1) {
+            continue;
+        }
         for (const auto& literal : clause) {
             // Comparison: indvar < expr
             if (SymEngine::is_a<SymEngine::StrictLessThan>(*literal)) {
-- 
2.43.0


From ce7dd0736f1bc296e7c3c38e25dc1b6f2eb6ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 39/72] fix: fp_ord is true if neither operand is NaN

---
 sdfg/src/codegen/language_extensions/c_language_extension.cpp   | 2 +-
 sdfg/src/codegen/language_extensions/cpp_language_extension.cpp | 2 +-
 .../src/codegen/language_extensions/cuda_language_extension.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/codegen/language_extensions/c_language_extension.cpp b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
index 8cdda02..20fbcfe 100644
--- a/sdfg/src/codegen/language_extensions/c_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
@@ -222,7 +222,7 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "isnan(" + tasklet.inputs().at(0) + ") && isnan(" + tasklet.inputs().at(1) + ")";
+            return "!isnan(" + tasklet.inputs().at(0) + ") && !isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "isnan(" + tasklet.inputs().at(0) + ") || isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
index f59377a..74eaba2 100644
--- a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
@@ -216,7 +216,7 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
index 9c3d3c5..0ed7739 100644
--- a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
@@ -232,7 +232,7 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
-- 
2.43.0


From ea30c00de9ae307572c88fa64b7c8c303e17c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 40/72] fix: fp_one is false if an operand is NaN

---
 sdfg/src/codegen/language_extensions/c_language_extension.cpp  | 3 ++-
 .../src/codegen/language_extensions/cpp_language_extension.cpp | 3 ++-
 .../codegen/language_extensions/cuda_language_extension.cpp    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/codegen/language_extensions/c_language_extension.cpp b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
index 20fbcfe..1e8d00b 100644
--- a/sdfg/src/codegen/language_extensions/c_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
@@ -212,7 +212,8 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
diff --git a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
index 74eaba2..07b5951 100644
--- a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
@@ -206,7 +206,8 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
diff --git a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
index 0ed7739..9e0b2d4 100644
--- a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
@@ -222,7 +222,8 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
-- 
2.43.0


From 4e21f27c6771e1062e79871ae207b0a6d6d11192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 41/72] fix: Containers of type UInt8 are unsigned in generated
 C and CUDA

---
 sdfg/src/codegen/code_generators/c_code_generator.cpp  | 10 ++++++++--
 .../codegen/code_generators/cuda_code_generator.cpp    | 10 ++++++++--
 .../language_extensions/c_language_extension.cpp       |  4 ++++
 .../language_extensions/cuda_language_extension.cpp    |  4 ++++
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/sdfg/src/codegen/code_generators/c_code_generator.cpp b/sdfg/src/codegen/code_generators/c_code_generator.cpp
index f03516c..00b4b19 100644
--- a/sdfg/src/codegen/code_generators/c_code_generator.cpp
+++ b/sdfg/src/codegen/code_generators/c_code_generator.cpp
@@ -116,8 +116,14 @@ void CCodeGenerator::dispatch_structures() {
                     this->classes_stream_ << "struct ";
                 }
             }
-            this->classes_stream_
-                << language_extension_.declaration("member_" + std::to_string(i), member_type, false, true);
+            auto name = "member_" + std::to_string(i);
+            if (member_type.type_id() == types::TypeID::Scalar && member_type.alignment() == 0 &&
+                member_type.primitive_type() == types::PrimitiveType::UInt8) {
+                // Members are read through connectors only; the layout does not depend on the sign
+                this->classes_stream_ << language_extension_.primitive_type(member_type.primitive_type()) << " " << name;
+            } else {
+                this->classes_stream_ << language_extension_.declaration(name, member_type, false, true);
+            }
             this->classes_stream_ << ";" << std::endl;
         }
 
diff --git a/sdfg/src/codegen/code_generators/cuda_code_generator.cpp b/sdfg/src/codegen/code_generators/cuda_code_generator.cpp
index a0b88e4..0ce6b68 100644
--- a/sdfg/src/codegen/code_generators/cuda_code_generator.cpp
+++ b/sdfg/src/codegen/code_generators/cuda_code_generator.cpp
@@ -141,8 +141,14 @@ void CUDACodeGenerator::dispatch_structures() {
             if (dynamic_cast<const sdfg::types::Structure*>(&member_type)) {
                 this->classes_stream_ << "struct ";
             }
-            this->classes_stream_
-                << language_extension_.declaration("member_" + std::to_string(i), member_type, false, true);
+            auto name = "member_" + std::to_string(i);
+            if (member_type.type_id() == types::TypeID::Scalar && member_type.alignment() == 0 &&
+                member_type.primitive_type() == types::PrimitiveType::UInt8) {
+                // Members are read through connectors only; the layout does not depend on the sign
+                this->classes_stream_ << language_extension_.primitive_type(member_type.primitive_type()) << " " << name;
+            } else {
+                this->classes_stream_ << language_extension_.declaration(name, member_type, false, true);
+            }
             this->classes_stream_ << ";" << std::endl;
         }
 
diff --git a/sdfg/src/codegen/language_extensions/c_language_extension.cpp b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
index 1e8d00b..47ebacc 100644
--- a/sdfg/src/codegen/language_extensions/c_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
@@ -61,6 +61,10 @@ std::string CLanguageExtension::
     std::stringstream val;
 
     if (auto scalar_type = dynamic_cast<const types::Scalar*>(&type)) {
+        if (scalar_type->primitive_type() == types::PrimitiveType::UInt8) {
+            // A plain char may be signed
+            val << "unsigned ";
+        }
         val << primitive_type(scalar_type->primitive_type());
         val << " ";
         val << name;
diff --git a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
index 9e0b2d4..5f992a2 100644
--- a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
@@ -63,6 +63,10 @@ std::string CUDALanguageExtension::
         } else if (scalar_type->storage_type().is_nv_constant()) {
             val << "__constant__ ";
         }
+        if (scalar_type->primitive_type() == types::PrimitiveType::UInt8) {
+            // A plain char may be signed
+            val << "unsigned ";
+        }
         val << primitive_type(scalar_type->primitive_type());
         val << " ";
         val << name;
-- 
2.43.0


From 414195e390b0c66828e9c19cb755963a2851b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 42/72] fix: Signed tasklets treat operands of unsigned
 containers as signed

---
 sdfg/include/sdfg/data_flow/tasklet.h         | 23 +++++++++++++++++++
 .../codegen/dispatchers/block_dispatcher.cpp  |  5 ++++
 2 files changed, 28 insertions(+)

diff --git a/sdfg/include/sdfg/data_flow/tasklet.h b/sdfg/include/sdfg/data_flow/tasklet.h
index a5d12e0..ffae690 100644
--- a/sdfg/include/sdfg/data_flow/tasklet.h
+++ b/sdfg/include/sdfg/data_flow/tasklet.h
@@ -250,6 +250,29 @@ constexpr bool is_unsigned(TaskletCode c) {
     }
 };
 
+/**
+ * @brief Check if a tasklet operation is signed
+ * @param c TaskletCode operation
+ * @return True if the operation treats operands as signed
+ */
+constexpr bool is_signed(TaskletCode c) {
+    switch (c) {
+        case TaskletCode::int_sdiv:
+        case TaskletCode::int_srem:
+        case TaskletCode::int_ashr:
+        case TaskletCode::int_smin:
+        case TaskletCode::int_smax:
+        case TaskletCode::int_scmp:
+        case TaskletCode::int_sge:
+        case TaskletCode::int_sgt:
+        case TaskletCode::int_sle:
+        case TaskletCode::int_slt:
+            return true;
+        default:
+            return false;
+    }
+};
+
 /**
  * @brief Check if a tasklet operation is an integer operation
  * @param c TaskletCode operation
diff --git a/sdfg/src/codegen/dispatchers/block_dispatcher.cpp b/sdfg/src/codegen/dispatchers/block_dispatcher.cpp
index a1e026d..4b0d8bf 100644
--- a/sdfg/src/codegen/dispatchers/block_dispatcher.cpp
+++ b/sdfg/src/codegen/dispatchers/block_dispatcher.cpp
@@ -221,6 +221,7 @@ void DataFlowDispatcher::dispatch_tasklet(PrettyPrinter& stream, const data_flow
     stream.setIndent(stream.indent() + 4);
 
     bool is_unsigned = data_flow::is_unsigned(tasklet.code());
+    bool is_signed = data_flow::is_signed(tasklet.code());
 
     for (auto* iedge : this->data_flow_graph_.in_edges_by_connector(tasklet)) {
         auto& src = dynamic_cast<const data_flow::AccessNode&>(iedge->src());
@@ -233,6 +234,10 @@ void DataFlowDispatcher::dispatch_tasklet(PrettyPrinter& stream, const data_flow
             types::Scalar conn_type_unsigned(types::as_unsigned(conn_type_scalar.primitive_type()));
             stream << this->language_extension_.declaration(conn, conn_type_unsigned);
             stream << " = ";
+        } else if (is_signed) {
+            types::Scalar conn_type_signed(types::as_signed(conn_type_scalar.primitive_type()));
+            stream << this->language_extension_.declaration(conn, conn_type_signed);
+            stream << " = ";
         } else {
             stream << this->language_extension_.declaration(conn, conn_type_scalar);
             stream << " = ";
-- 
2.43.0


From 2a2601d1231fcc9bce90d7c8122e0bff943f7f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 43/72] fix: Symbolic powers are computed in 64 bits

---
 rtl/include/daisy_rtl/daisy_rtl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index ec7396c..392df89 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -133,12 +133,12 @@ void __daisy_capture_3d(
 #define __daisy_fma(a, b, c) ((a) * (b) + (c))
 
 // Implementation of integer functions for symbolic expressions
-static inline int __daisy_sym_pow(int base, int exp) {
+static inline long long __daisy_sym_pow(long long base, long long exp) {
     if (exp < 0) {
         return 0;
     }
 
-    int result = 1;
+    long long result = 1;
     while (exp) {
         if (exp & 1) {
             result *= base;
-- 
2.43.0


From fbab05796e0294665785eb88262643b0dadca117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 44/72] fix: Managed allocations are cast to the container's
 type in generated C++

---
 .../codegen/code_generators/cpp_code_generator.cpp  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sdfg/src/codegen/code_generators/cpp_code_generator.cpp b/sdfg/src/codegen/code_generators/cpp_code_generator.cpp
index 041864e..8f6e9c9 100644
--- a/sdfg/src/codegen/code_generators/cpp_code_generator.cpp
+++ b/sdfg/src/codegen/code_generators/cpp_code_generator.cpp
@@ -178,14 +178,17 @@ void CPPCodeGenerator::dispatch_schedule() {
             );
             if (type.storage_type().is_cpu_stack()) {
                 this->main_stream_ << container << " = ";
-                this->main_stream_
-                    << "alloca(" << this->language_extension_.expression(type.storage_type().allocation_size()) << ")";
+                this->main_stream_ << this->language_extension_.type_cast(
+                    "alloca(" + this->language_extension_.expression(type.storage_type().allocation_size()) + ")", type
+                );
                 this->main_stream_ << ";" << std::endl;
             } else if (type.storage_type().is_cpu_heap()) {
                 this->main_stream_ << container << " = ";
-                this->main_stream_ << this->externals_prefix_ << "malloc("
-                                   << this->language_extension_.expression(type.storage_type().allocation_size())
-                                   << ")";
+                this->main_stream_ << this->language_extension_.type_cast(
+                    this->externals_prefix_ + "malloc(" +
+                        this->language_extension_.expression(type.storage_type().allocation_size()) + ")",
+                    type
+                );
                 this->main_stream_ << ";" << std::endl;
             } else if (type.storage_type().is_nv_generic()) {
                 this->main_stream_ << "cudaSetDevice(0);" << std::endl;
-- 
2.43.0


From 627a6d99d1013f15adb0817f7db049ee5947346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:07 +0000
Subject: [PATCH 45/72] fix: A copied or loaded invoke has one unwind output

---
 sdfg/src/data_flow/library_nodes/invoke_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/invoke_node.cpp b/sdfg/src/data_flow/library_nodes/invoke_node.cpp
index 969510e..294b8f6 100644
--- a/sdfg/src/data_flow/library_nodes/invoke_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/invoke_node.cpp
@@ -24,7 +24,10 @@ InvokeNode::InvokeNode(
           data_flow::ImplementationType_NONE
       ),
       callee_name_(callee_name) {
-    this->outputs_.push_back("_unwind"); // Add unwind output
+    // Add unwind output, unless the outputs are those of an existing node (clone, deserialization)
+    if (this->outputs_.empty() || this->outputs_.back() != "_unwind") {
+        this->outputs_.push_back("_unwind");
+    }
 }
 
 const std::string& InvokeNode::callee_name() const { return this->callee_name_; }
-- 
2.43.0


From 5cb61a3b0d1e050c2821709cc8557b1422067469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:07 +0000
Subject: [PATCH 46/72] fix: A loaded barrier keeps its debug information

---
 sdfg/src/data_flow/library_nodes/barrier_local_node.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp b/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
index b2d590f..a48eae7 100644
--- a/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
@@ -3,6 +3,7 @@
 #include "sdfg/codegen/language_extensions/c_language_extension.h"
 #include "sdfg/codegen/language_extensions/cpp_language_extension.h"
 #include "sdfg/codegen/language_extensions/cuda_language_extension.h"
+#include "sdfg/serializer/json_serializer.h"
 
 namespace sdfg {
 namespace data_flow {
@@ -47,7 +48,13 @@ data_flow::LibraryNode& BarrierLocalNodeSerializer::deserialize(
     if (code != data_flow::LibraryNodeType_BarrierLocal.value()) {
         throw std::runtime_error("Invalid library node code");
     }
-    return builder.add_library_node<data_flow::BarrierLocalNode>(parent, DebugInfo());
+    DebugInfo debug_info;
+    if (j.contains("debug_info")) {
+        sdfg::serializer::JSONSerializer serializer;
+        debug_info = serializer.json_to_debug_info(j["debug_info"]);
+    }
+
+    return builder.add_library_node<data_flow::BarrierLocalNode>(parent, debug_info);
 };
 
 BarrierLocalNodeDispatcher::BarrierLocalNodeDispatcher(
-- 
2.43.0


From fd5704295c879d9123e6037be5e712d7d6d001e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:07 +0000
Subject: [PATCH 47/72] fix: A copied library node keeps its implementation
 type

---
 sdfg/src/builder/structured_sdfg_builder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/builder/structured_sdfg_builder.cpp b/sdfg/src/builder/structured_sdfg_builder.cpp
index 6e20e78..dcb4082 100644
--- a/sdfg/src/builder/structured_sdfg_builder.cpp
+++ b/sdfg/src/builder/structured_sdfg_builder.cpp
@@ -1600,7 +1600,12 @@ void StructuredSDFGBuilder::add_dataflow(const data_flow::DataFlowGraph& from, B
     std::unordered_map<graph::Vertex, graph::Vertex> node_mapping;
     for (auto& entry : from.nodes_) {
         auto vertex = boost::add_vertex(to_dataflow.graph_);
-        to_dataflow.nodes_.insert({vertex, entry.second->clone(this->new_element_id(), vertex, to_dataflow)});
+        auto node = entry.second->clone(this->new_element_id(), vertex, to_dataflow);
+        if (auto* lib_node = dynamic_cast<data_flow::LibraryNode*>(node.get())) {
+            lib_node->implementation_type() =
+                static_cast<const data_flow::LibraryNode&>(*entry.second).implementation_type();
+        }
+        to_dataflow.nodes_.insert({vertex, std::move(node)});
         node_mapping.insert({entry.first, vertex});
     }
 
-- 
2.43.0


From 8ddd2890fa951e46e8835fd53397149d396d3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:07 +0000
Subject: [PATCH 48/72] fix: Programs with a tensor cast can be loaded from
 JSON

---
 sdfg/src/serializer/json_serializer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdfg/src/serializer/json_serializer.cpp b/sdfg/src/serializer/json_serializer.cpp
index d6614b2..d7e9701 100644
--- a/sdfg/src/serializer/json_serializer.cpp
+++ b/sdfg/src/serializer/json_serializer.cpp
@@ -10,6 +10,7 @@
 #include "sdfg/data_flow/library_nodes/call_node.h"
 #include "sdfg/data_flow/library_nodes/invoke_node.h"
 #include "sdfg/data_flow/library_nodes/math/math.h"
+#include "sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/cast_node.h"
 #include "sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.h"
 #include "sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/tasklet_node.h"
 #include "sdfg/data_flow/library_nodes/metadata_node.h"
@@ -1443,6 +1444,10 @@ void register_default_serializers() {
         .register_library_node_serializer(math::tensor::LibraryNodeType_Fill.value(), []() {
             return std::make_unique<math::tensor::FillNodeSerializer>();
         });
+    LibraryNodeSerializerRegistry::instance()
+        .register_library_node_serializer(math::tensor::LibraryNodeType_Cast.value(), []() {
+            return std::make_unique<math::tensor::CastNodeSerializer>();
+        });
     LibraryNodeSerializerRegistry::instance()
         .register_library_node_serializer(math::tensor::LibraryNodeType_TensorTasklet.value(), []() {
             return std::make_unique<math::tensor::TaskletTensorNodeSerializer>();
-- 
2.43.0


From 56291d35ec20e444425446530441611000a23ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:51 +0000
Subject: [PATCH 49/72] fix: Linear coefficients belong to the polynomial's own
 generators

The exponents of a multivariate polynomial follow the order of its
generator set, so with several symbols given in another order their
coefficients were swapped.
---
 sdfg/src/symbolic/polynomials.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/polynomials.cpp b/sdfg/src/symbolic/polynomials.cpp
index e5c8cb7..3144eaf 100644
--- a/sdfg/src/symbolic/polynomials.cpp
+++ b/sdfg/src/symbolic/polynomials.cpp
@@ -24,6 +24,12 @@ AffineCoeffs affine_coefficients(Polynomial poly, SymbolVec& symbols) {
     }
     coeffs[symbolic::symbol("__daisy_constant__")] = symbolic::zero();
 
+    // The exponents are in the order of the polynomial's generators, not of the given symbols
+    SymbolVec generators;
+    for (auto& var : poly->get_vars()) {
+        generators.push_back(SymEngine::rcp_static_cast<const SymEngine::Symbol>(var));
+    }
+
     auto& D = poly->get_poly().get_dict();
     for (auto& [exponents, coeff] : D) {
         // Check if sum of exponents is <= 1
@@ -32,7 +38,7 @@ AffineCoeffs affine_coefficients(Polynomial poly, SymbolVec& symbols) {
         for (size_t i = 0; i < exponents.size(); i++) {
             auto& e = exponents[i];
             if (e > 0) {
-                symbol = symbols[i];
+                symbol = generators[i];
             }
             total_deg += e;
         }
-- 
2.43.0


From f1316223ce9fd22ebd7d5a3dce298cc18ccda754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 50/72] fix: Bounds of zext/trunc apply to those functions
 only, and trunc within int32

---
 sdfg/src/symbolic/extreme_values.cpp | 96 ++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 28 deletions(-)

diff --git a/sdfg/src/symbolic/extreme_values.cpp b/sdfg/src/symbolic/extreme_values.cpp
index 9e6adfd..262c0e2 100644
--- a/sdfg/src/symbolic/extreme_values.cpp
+++ b/sdfg/src/symbolic/extreme_values.cpp
@@ -1,11 +1,35 @@
 #include "sdfg/symbolic/extreme_values.h"
 
+#include <cstdint>
+#include <limits>
+
 #include "sdfg/symbolic/polynomials.h"
 
 namespace sdfg {
 namespace symbolic {
 
 size_t MAX_DEPTH = 100;
+
+// All function symbols share one type code, so that the functions are told apart by their names
+static bool is_zext_i64(const Expression expr) {
+    return SymEngine::is_a<SymEngine::FunctionSymbol>(*expr) &&
+           SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_name() == "zext_i64";
+}
+
+static bool is_trunc_i32(const Expression expr) {
+    return SymEngine::is_a<SymEngine::FunctionSymbol>(*expr) &&
+           SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_name() == "trunc_i32";
+}
+
+// Truncation is monotonic only if all values between the bounds are 32-bit integers
+static bool fits_i32(const Expression min_val, const Expression max_val) {
+    if (min_val == SymEngine::null || max_val == SymEngine::null) {
+        return false;
+    }
+    return symbolic::is_true(symbolic::Ge(min_val, symbolic::integer(std::numeric_limits<int32_t>::min()))) &&
+           symbolic::is_true(symbolic::Le(max_val, symbolic::integer(std::numeric_limits<int32_t>::max())));
+}
+
 Expression minimum(const Expression expr, const SymbolSet& parameters, const Assumptions& assumptions, const size_t depth);
 Expression maximum(const Expression expr, const SymbolSet& parameters, const Assumptions& assumptions, const size_t depth);
 
@@ -23,18 +47,18 @@ Expression minimum(const Expression expr, const SymbolSet& parameters, const Ass
         return expr;
     } else if (SymEngine::is_a<SymEngine::Infty>(*expr)) {
         return expr;
-    } else if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto min_arg = minimum(zext->get_args()[0], parameters, assumptions, depth + 1);
+    } else if (is_zext_i64(expr)) {
+        auto min_arg = minimum(expr->get_args()[0], parameters, assumptions, depth + 1);
         if (min_arg == SymEngine::null) {
             return SymEngine::null;
         } else {
             return symbolic::zext_i64(min_arg);
         }
-    } else if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto min_arg = minimum(trunc->get_args()[0], parameters, assumptions, depth + 1);
-        if (min_arg == SymEngine::null) {
+    } else if (is_trunc_i32(expr)) {
+        auto arg = expr->get_args()[0];
+        auto min_arg = minimum(arg, parameters, assumptions, depth + 1);
+        auto max_arg = maximum(arg, parameters, assumptions, depth + 1);
+        if (!fits_i32(min_arg, max_arg)) {
             return SymEngine::null;
         } else {
             return symbolic::trunc_i32(min_arg);
@@ -83,6 +107,10 @@ Expression minimum(const Expression expr, const SymbolSet& parameters, const Ass
                 Expression val = (mask & (1ULL << i)) ? bound.second : bound.first;
                 product = symbolic::mul(product, val);
             }
+            // Zero times infinity
+            if (SymEngine::is_a<SymEngine::NaN>(*product)) {
+                return SymEngine::null;
+            }
             if (min_product == SymEngine::null) {
                 min_product = product;
             } else {
@@ -179,19 +207,19 @@ Expression maximum(const Expression expr, const SymbolSet& parameters, const Ass
         return SymEngine::null;
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto max_arg = maximum(zext->get_args()[0], parameters, assumptions, depth + 1);
+    if (is_zext_i64(expr)) {
+        auto max_arg = maximum(expr->get_args()[0], parameters, assumptions, depth + 1);
         if (max_arg == SymEngine::null) {
             return SymEngine::null;
         } else {
             return symbolic::zext_i64(max_arg);
         }
     }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto max_arg = maximum(trunc->get_args()[0], parameters, assumptions, depth + 1);
-        if (max_arg == SymEngine::null) {
+    if (is_trunc_i32(expr)) {
+        auto arg = expr->get_args()[0];
+        auto min_arg = minimum(arg, parameters, assumptions, depth + 1);
+        auto max_arg = maximum(arg, parameters, assumptions, depth + 1);
+        if (!fits_i32(min_arg, max_arg)) {
             return SymEngine::null;
         } else {
             return symbolic::trunc_i32(max_arg);
@@ -228,6 +256,10 @@ Expression maximum(const Expression expr, const SymbolSet& parameters, const Ass
                 Expression val = (mask & (1ULL << i)) ? bound.second : bound.first;
                 product = symbolic::mul(product, val);
             }
+            // Zero times infinity
+            if (SymEngine::is_a<SymEngine::NaN>(*product)) {
+                return SymEngine::null;
+            }
             if (max_product == SymEngine::null) {
                 max_product = product;
             } else {
@@ -335,19 +367,19 @@ Expression minimum_new(
         }
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto min_arg = minimum_new(zext->get_args()[0], parameters, assumptions, depth + 1, tight);
+    if (is_zext_i64(expr)) {
+        auto min_arg = minimum_new(expr->get_args()[0], parameters, assumptions, depth + 1, tight);
         if (min_arg == SymEngine::null) {
             return SymEngine::null;
         } else {
             return symbolic::zext_i64(min_arg);
         }
     }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto min_arg = minimum_new(trunc->get_args()[0], parameters, assumptions, depth + 1, tight);
-        if (min_arg == SymEngine::null) {
+    if (is_trunc_i32(expr)) {
+        auto arg = expr->get_args()[0];
+        auto min_arg = minimum_new(arg, parameters, assumptions, depth + 1, tight);
+        auto max_arg = maximum_new(arg, parameters, assumptions, depth + 1, tight);
+        if (!fits_i32(min_arg, max_arg)) {
             return SymEngine::null;
         } else {
             return symbolic::trunc_i32(min_arg);
@@ -411,6 +443,10 @@ Expression minimum_new(
                 Expression val = (mask & (1ULL << i)) ? bound.second : bound.first;
                 product = symbolic::mul(product, val);
             }
+            // Zero times infinity
+            if (SymEngine::is_a<SymEngine::NaN>(*product)) {
+                return SymEngine::null;
+            }
             if (min_product == SymEngine::null) {
                 min_product = product;
             } else {
@@ -503,19 +539,19 @@ Expression maximum_new(
         }
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto max_arg = maximum_new(zext->get_args()[0], parameters, assumptions, depth + 1, tight);
+    if (is_zext_i64(expr)) {
+        auto max_arg = maximum_new(expr->get_args()[0], parameters, assumptions, depth + 1, tight);
         if (max_arg == SymEngine::null) {
             return SymEngine::null;
         } else {
             return symbolic::zext_i64(max_arg);
         }
     }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto max_arg = maximum_new(trunc->get_args()[0], parameters, assumptions, depth + 1, tight);
-        if (max_arg == SymEngine::null) {
+    if (is_trunc_i32(expr)) {
+        auto arg = expr->get_args()[0];
+        auto min_arg = minimum_new(arg, parameters, assumptions, depth + 1, tight);
+        auto max_arg = maximum_new(arg, parameters, assumptions, depth + 1, tight);
+        if (!fits_i32(min_arg, max_arg)) {
             return SymEngine::null;
         } else {
             return symbolic::trunc_i32(max_arg);
@@ -579,6 +615,10 @@ Expression maximum_new(
                 Expression val = (mask & (1ULL << i)) ? bound.second : bound.first;
                 product = symbolic::mul(product, val);
             }
+            // Zero times infinity
+            if (SymEngine::is_a<SymEngine::NaN>(*product)) {
+                return SymEngine::null;
+            }
             if (max_product == SymEngine::null) {
                 max_product = product;
             } else {
-- 
2.43.0


From d4e32c6aa924c25088a3adb096f63ece87575a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 51/72] fix: Contiguity and affine coefficients require exact
 coefficients

---
 sdfg/src/symbolic/series.cpp | 37 +++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/series.cpp b/sdfg/src/symbolic/series.cpp
index b6d7576..f9a4bbb 100644
--- a/sdfg/src/symbolic/series.cpp
+++ b/sdfg/src/symbolic/series.cpp
@@ -9,6 +9,41 @@ namespace series {
 
 std::pair<bool, std::pair<Integer, Integer>>
 affine_int_coeffs(const Expression expr, const Symbol sym, const Assumptions& assums) {
+    SymbolVec symbols = {sym};
+    auto poly = polynomial(expr, symbols);
+    if (poly == SymEngine::null) {
+        return {false, {integer(0), integer(0)}};
+    }
+    auto coeffs = affine_coefficients(poly, symbols);
+    if (coeffs.empty()) {
+        return {false, {integer(0), integer(0)}};
+    }
+    auto mul = minimum(coeffs[sym], {}, assums);
+    if (mul == SymEngine::null) {
+        return {false, {integer(0), integer(0)}};
+    }
+    auto offset = minimum(coeffs[symbol("__daisy_constant__")], {}, assums);
+    if (offset == SymEngine::null) {
+        return {false, {integer(0), integer(0)}};
+    }
+    // The coefficients must have a single value
+    auto mul_ub = maximum(coeffs[sym], {}, assums);
+    auto offset_ub = maximum(coeffs[symbol("__daisy_constant__")], {}, assums);
+    if (mul_ub == SymEngine::null || !symbolic::eq(mul, mul_ub) || offset_ub == SymEngine::null ||
+        !symbolic::eq(offset, offset_ub)) {
+        return {false, {integer(0), integer(0)}};
+    }
+    if (!SymEngine::is_a<SymEngine::Integer>(*mul) || !SymEngine::is_a<SymEngine::Integer>(*offset)) {
+        return {false, {integer(0), integer(0)}};
+    }
+    auto mul_int = SymEngine::rcp_dynamic_cast<const SymEngine::Integer>(mul);
+    auto offset_int = SymEngine::rcp_dynamic_cast<const SymEngine::Integer>(offset);
+    return {true, {mul_int, offset_int}};
+}
+
+// Lower bounds of the coefficients
+static std::pair<bool, std::pair<Integer, Integer>>
+minimum_int_coeffs(const Expression expr, const Symbol sym, const Assumptions& assums) {
     SymbolVec symbols = {sym};
     auto poly = polynomial(expr, symbols);
     if (poly == SymEngine::null) {
@@ -35,7 +70,7 @@ affine_int_coeffs(const Expression expr, const Symbol sym, const Assumptions& as
 }
 
 bool is_monotonic_affine(const Expression expr, const Symbol sym, const Assumptions& assums) {
-    auto [success, coeffs] = affine_int_coeffs(expr, sym, assums);
+    auto [success, coeffs] = minimum_int_coeffs(expr, sym, assums);
     if (!success) {
         return false;
     }
-- 
2.43.0


From 7018a6c5c9fac02b01c392188be8b9fa838ab25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 52/72] fix: Print idiv and iabs with their meaning for
 negative values

---
 sdfg/src/symbolic/utils.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index f2ae6fc..c40ce92 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -14,20 +14,30 @@
 namespace sdfg {
 namespace symbolic {
 
-// ISL-compatible printer that converts idiv to floord
+// ISL-compatible printer that expresses idiv by floord
 class ISLSymbolicPrinter : public SymEngine::BaseVisitor<ISLSymbolicPrinter, SymEngine::CodePrinter> {
+private:
+    static bool is_nonzero_integer(const Expression& expr) {
+        return SymEngine::is_a<SymEngine::Integer>(*expr) && !symbolic::eq(expr, symbolic::zero());
+    }
+
 public:
     using SymEngine::CodePrinter::apply;
     using SymEngine::CodePrinter::bvisit;
     using SymEngine::CodePrinter::str_;
 
     void bvisit(const SymEngine::FunctionSymbol& x) {
-        if (x.get_name() == "idiv") {
-            // ISL uses floord(a, b) for floor division
-            str_ = "floord(" + apply(x.get_args()[0]) + ", " + apply(x.get_args()[1]) + ")";
+        if (x.get_name() == "idiv" && is_nonzero_integer(x.get_args()[1])) {
+            // ISL uses floord(a, b) for floor division, whereas idiv rounds towards zero
+            auto dividend = apply(x.get_args()[0]);
+            bool negative = SymEngine::rcp_static_cast<const SymEngine::Integer>(x.get_args()[1])->is_negative();
+            auto divisor = apply(negative ? SymEngine::neg(x.get_args()[1]) : x.get_args()[1]);
+            auto quotient = "max(0, floord(" + dividend + ", " + divisor + ")) + min(0, -floord(-(" + dividend + "), " +
+                            divisor + "))";
+            str_ = (negative ? "-(" : "(") + quotient + ")";
         } else if (x.get_name() == "iabs") {
-            // ISL doesn't support abs directly, but we can express it
-            str_ = apply(x.get_args()[0]); // Simplify: assume non-negative for ISL constraints
+            auto arg = apply(x.get_args()[0]);
+            str_ = "max(" + arg + ", -(" + arg + "))";
         } else {
             // Unknown function - print as-is and let ISL reject it during parsing
             std::ostringstream ss;
-- 
2.43.0


From aa0278ea896a9fb2b9b52fcd21149b8adf55dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 53/72] fix: Covering sets respect strides with symbolic bounds

---
 sdfg/src/symbolic/utils.cpp | 39 +++++++++++++++----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index c40ce92..9887b9f 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -169,42 +169,35 @@ std::string expression_to_map_str(const MultiExpression& expr, const Assumptions
             constraints.push_back(con_str);
         }
     }
-    for (auto& dim : dimensions) {
+    // Add strides, also for symbols of the constraints
+    std::vector<std::string> strided(dimensions);
+    strided.insert(strided.end(), parameters.begin(), parameters.end());
+    for (auto& dim : strided) {
         auto sym = symbolic::symbol(dim);
-        auto map_func = assums.at(sym).map();
-        if (map_func == SymEngine::null) {
-            continue;
-        }
-        if (!SymEngine::is_a<SymEngine::Add>(*map_func)) {
-            continue;
-        }
-        auto args = SymEngine::rcp_static_cast<const SymEngine::Add>(map_func)->get_args();
-        if (args.size() != 2) {
+        auto assum = assums.find(sym);
+        if (assum == assums.end() || assum->second.map() == SymEngine::null) {
             continue;
         }
-        auto arg0 = args[0];
-        auto arg1 = args[1];
-        if (!symbolic::eq(arg0, symbolic::symbol(dim))) {
-            arg0 = args[1];
-            arg1 = args[0];
-        }
-        if (!symbolic::eq(arg0, symbolic::symbol(dim))) {
+        auto stride = symbolic::expand(symbolic::sub(assum->second.map(), sym));
+        if (!SymEngine::is_a<SymEngine::Integer>(*stride) || symbolic::eq(stride, symbolic::one()) ||
+            symbolic::eq(stride, symbolic::zero())) {
             continue;
         }
-        if (!SymEngine::is_a<SymEngine::Integer>(*arg1)) {
+        auto lb = assum->second.tight_lower_bound();
+        if (lb.is_null()) {
             continue;
         }
-        if (symbolic::eq(arg1, symbolic::one())) {
-            continue;
+        bool known = true;
+        for (auto& lb_sym : symbolic::atoms(lb)) {
+            known &= dimensions_syms.contains(lb_sym) || parameters_syms.contains(lb_sym);
         }
-        auto lb = assums.at(sym).tight_lower_bound();
-        if (lb.is_null() || !SymEngine::is_a<SymEngine::Integer>(*lb)) {
+        if (!known) {
             continue;
         }
 
         std::string iter = "__daisy_iterator_" + dim;
         std::string con = "exists " + iter + " : " + dim + " = " + isl_printer.apply(lb) + " + " + iter + " * " +
-                          isl_printer.apply(arg1);
+                          isl_printer.apply(stride);
         constraints.push_back(con);
     }
     if (!constraints.empty()) {
-- 
2.43.0


From 6773133eecb128888da6a26f9fde0bf9380d57c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 54/72] fix: Delinearize only if the inner part stays within
 the stride

---
 sdfg/src/symbolic/utils.cpp | 74 ++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 9 deletions(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 9887b9f..7ea5e8b 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -599,6 +599,58 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
     }
 }
 
+// Upper bounds of a symbol in terms of constants
+static std::vector<Expression> constant_upper_bounds(const Symbol sym, const Assumptions& assums) {
+    SymbolSet constants;
+    for (auto& [other, assum] : assums) {
+        if (assum.constant() && assum.map().is_null()) {
+            constants.insert(other);
+        }
+    }
+    std::vector<Expression> candidates = {sym};
+    auto ub = assums.at(sym).upper_bound_deprecated();
+    if (SymEngine::is_a<SymEngine::Min>(*ub)) {
+        candidates = SymEngine::rcp_static_cast<const SymEngine::Min>(ub)->get_args();
+    }
+    std::vector<Expression> bounds;
+    for (auto& candidate : candidates) {
+        for (auto& parameters : {constants, SymbolSet()}) {
+            auto bound = maximum(candidate, parameters, assums);
+            if (!bound.is_null() && !SymEngine::is_a<SymEngine::Infty>(*bound)) {
+                bounds.push_back(bound);
+            }
+        }
+    }
+    return bounds;
+}
+
+// Proves that the sum of the dimensions and the offset is less than the stride, for nonnegative dimensions
+static bool is_within_stride(
+    const AffineCoeffs& dims, const Expression offset, const Expression stride, const Assumptions& assums
+) {
+    std::vector<Expression> distances = {symbolic::sub(stride, offset)};
+    for (auto& [sym, coeff] : dims) {
+        auto coeff_lb = minimum(coeff, {}, assums);
+        if (coeff_lb.is_null() || !symbolic::is_true(symbolic::Ge(coeff_lb, symbolic::zero()))) {
+            return false;
+        }
+        std::vector<Expression> next;
+        for (auto& bound : constant_upper_bounds(sym, assums)) {
+            for (auto& distance : distances) {
+                next.push_back(symbolic::sub(distance, symbolic::mul(coeff, bound)));
+            }
+        }
+        distances = next;
+    }
+    for (auto& distance : distances) {
+        auto distance_lb = minimum(symbolic::simplify(symbolic::expand(distance)), {}, assums);
+        if (!distance_lb.is_null() && symbolic::is_true(symbolic::Ge(distance_lb, symbolic::one()))) {
+            return true;
+        }
+    }
+    return false;
+}
+
 static MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums, MultiExpression& strides) {
     MultiExpression delinearized;
     for (auto& dim : expr) {
@@ -689,22 +741,26 @@ static MultiExpression delinearize(const MultiExpression& expr, const Assumption
                 break;
             }
 
-            // remaining must be less than stride
-            auto ub_stride = maximum(stride, {}, assums);
-            auto ub_remaining = maximum(remaining, {}, assums);
-            auto cond_stride = symbolic::Ge(ub_stride, ub_remaining);
-            if (!symbolic::is_true(cond_stride)) {
-                break;
-            }
-
             // Add offset contribution of peeled dimension
             auto [q, r] = polynomial_div(offset, stride);
             offset = r;
+
+            // The inner part, with its offset, must be nonnegative and less than the stride
+            auto inner = symbolic::simplify(symbolic::expand(symbolic::add(remaining, offset)));
+            auto inner_lb = minimum(inner, {}, assums);
+            if (inner_lb.is_null() || !symbolic::is_true(symbolic::Ge(inner_lb, symbolic::zero()))) {
+                break;
+            }
+            aff_coeffs.erase(new_dim);
+            if (!is_within_stride(aff_coeffs, offset, stride, assums)) {
+                aff_coeffs.insert({new_dim, stride});
+                break;
+            }
+
             auto final_dim = symbolic::add(new_dim, q);
 
             peeled_dims.push_back(final_dim);
             peeled_strides.push_back(stride);
-            aff_coeffs.erase(new_dim);
         }
         // Not all dimensions could be peeled off
         if (!aff_coeffs.empty()) {
-- 
2.43.0


From fd4798e030f98945f585fc14a39cf1e672dfe900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 55/72] fix: Monotonic disjointness requires equal constants on
 both sides

---
 sdfg/src/symbolic/maps.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sdfg/src/symbolic/maps.cpp b/sdfg/src/symbolic/maps.cpp
index 05096b1..f99cc6b 100644
--- a/sdfg/src/symbolic/maps.cpp
+++ b/sdfg/src/symbolic/maps.cpp
@@ -248,11 +248,15 @@ bool is_disjoint_monotonic(
         // Collect all non-constant symbols
         bool can_analyze = true;
         for (auto& sym : syms) {
-            if (!assums1.at(sym).constant()) {
-                if (sym->get_name() != indvar->get_name()) {
-                    can_analyze = false;
-                    break;
-                }
+            if (sym->get_name() == indvar->get_name()) {
+                continue;
+            }
+            // The symbol must have the same value on both sides
+            auto it1 = assums1.find(sym);
+            auto it2 = assums2.find(sym);
+            if (it1 == assums1.end() || it2 == assums2.end() || !it1->second.constant() || !it2->second.constant()) {
+                can_analyze = false;
+                break;
             }
         }
         if (!can_analyze) {
-- 
2.43.0


From 6e6da88f7c4a75f17ca01615be8f028a5d499198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 56/72] fix: Derive assumptions only from accesses every
 iteration performs, fixed initial values and pure upper-bound conditions

---
 sdfg/src/analysis/assumptions_analysis.cpp | 162 ++++++++++++++++-----
 1 file changed, 128 insertions(+), 34 deletions(-)

diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index 469a5ea..025aa12 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -1,5 +1,6 @@
 #include "sdfg/analysis/assumptions_analysis.h"
 
+#include <algorithm>
 #include <utility>
 #include <vector>
 
@@ -17,6 +18,32 @@
 namespace sdfg {
 namespace analysis {
 
+// Whether a break, continue or return may end an iteration early
+static bool leaves_early(structured_control_flow::ControlFlowNode& node) {
+    if (auto sequence = dynamic_cast<structured_control_flow::Sequence*>(&node)) {
+        for (size_t i = 0; i < sequence->size(); i++) {
+            if (leaves_early(sequence->at(i).first)) {
+                return true;
+            }
+        }
+        return false;
+    } else if (auto if_else = dynamic_cast<structured_control_flow::IfElse*>(&node)) {
+        for (size_t i = 0; i < if_else->size(); i++) {
+            if (leaves_early(if_else->at(i).first)) {
+                return true;
+            }
+        }
+        return false;
+    } else if (auto while_loop = dynamic_cast<structured_control_flow::While*>(&node)) {
+        return leaves_early(while_loop->root());
+    } else if (auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(&node)) {
+        return leaves_early(loop->root());
+    }
+    return dynamic_cast<structured_control_flow::Break*>(&node) ||
+           dynamic_cast<structured_control_flow::Continue*>(&node) ||
+           dynamic_cast<structured_control_flow::Return*>(&node);
+}
+
 symbolic::Expression AssumptionsAnalysis::cnf_to_upper_bound(const symbolic::CNF& cnf, const symbolic::Symbol indvar) {
     std::vector<symbolic::Expression> candidates;
 
@@ -181,54 +208,109 @@ void AssumptionsAnalysis::traverse_structured_loop(
     body_assumptions[indvar].map(update);
     body_assumptions[indvar].constant(true);
 
+    // A symbol is fixed if the body does not change it
+    auto is_fixed = [&](const symbolic::Symbol& sym) {
+        return users_view.uses(sym->get_name()).size() == users_view.reads(sym->get_name()).size();
+    };
+    auto are_fixed = [&](const symbolic::SymbolSet& syms) {
+        return std::all_of(syms.begin(), syms.end(), [&](const symbolic::Symbol& sym) {
+            return symbolic::eq(sym, indvar) || is_fixed(sym);
+        });
+    };
+
     // Determine non-tight lower and upper bounds from inverse index access
-    std::vector<symbolic::Expression> lbs, ubs;
-    for (auto user : this->users_analysis_->reads(indvar->get_name())) {
-        if (auto* memlet = dynamic_cast<data_flow::Memlet*>(user->element())) {
-            const types::IType* memlet_type = &memlet->base_type();
-            for (long long i = memlet->subset().size() - 1; i >= 0; i--) {
-                symbolic::Expression num_elements = SymEngine::null;
-                if (auto* pointer_type = dynamic_cast<const types::Pointer*>(memlet_type)) {
-                    memlet_type = &pointer_type->pointee_type();
-                } else if (auto* array_type = dynamic_cast<const types::Array*>(memlet_type)) {
-                    memlet_type = &array_type->element_type();
-                    num_elements = array_type->num_elements();
-                } else {
-                    break;
+    // Only accesses that every iteration performs restrict the values
+    typedef std::vector<symbolic::Expression> Bounds;
+    bool left_early = leaves_early(body);
+    auto access_bounds = [&](const symbolic::Symbol& sym) -> std::pair<Bounds, Bounds> {
+        Bounds lbs, ubs;
+        for (auto user : users_view.reads(sym->get_name())) {
+            if (auto* memlet = dynamic_cast<data_flow::Memlet*>(user->element())) {
+                auto* block = memlet->get_parent().get_parent();
+                bool unconditional = false;
+                for (size_t i = 0; i < body.size() && !left_early; i++) {
+                    unconditional |= &body.at(i).first == block;
                 }
-                if (!symbolic::uses(memlet->subset().at(i), indvar)) {
+                if (!unconditional || !is_fixed(sym)) {
                     continue;
                 }
-                symbolic::Expression inverse = symbolic::inverse(memlet->subset().at(i), indvar);
-                if (inverse.is_null()) {
-                    continue;
-                }
-                lbs.push_back(symbolic::subs(inverse, indvar, symbolic::zero()));
-                if (num_elements.is_null()) {
-                    std::string container;
-                    if (memlet->src_conn() == "void") {
-                        container = dynamic_cast<data_flow::AccessNode&>(memlet->src()).data();
+                const types::IType* memlet_type = &memlet->base_type();
+                for (long long i = memlet->subset().size() - 1; i >= 0; i--) {
+                    symbolic::Expression num_elements = SymEngine::null;
+                    if (auto* pointer_type = dynamic_cast<const types::Pointer*>(memlet_type)) {
+                        memlet_type = &pointer_type->pointee_type();
+                    } else if (auto* array_type = dynamic_cast<const types::Array*>(memlet_type)) {
+                        memlet_type = &array_type->element_type();
+                        num_elements = array_type->num_elements();
                     } else {
-                        container = dynamic_cast<data_flow::AccessNode&>(memlet->dst()).data();
+                        break;
+                    }
+                    auto& dim = memlet->subset().at(i);
+                    if (!symbolic::uses(dim, sym) || !are_fixed(symbolic::atoms(dim))) {
+                        continue;
+                    }
+                    // The index must grow with the symbol
+                    auto coefficient = symbolic::expand(
+                        symbolic::sub(symbolic::subs(dim, sym, symbolic::add(sym, symbolic::one())), dim)
+                    );
+                    if (!SymEngine::is_a<SymEngine::Integer>(*coefficient) ||
+                        !SymEngine::rcp_static_cast<const SymEngine::Integer>(coefficient)->is_positive()) {
+                        continue;
                     }
-                    if (this->is_parameter(container)) {
-                        ubs.push_back(symbolic::sub(
-                            symbolic::subs(inverse, indvar, symbolic::dynamic_sizeof(symbolic::symbol(container))),
-                            symbolic::one()
-                        ));
+                    symbolic::Expression inverse = symbolic::inverse(dim, sym);
+                    if (inverse.is_null()) {
+                        continue;
+                    }
+                    lbs.push_back(symbolic::subs(inverse, sym, symbolic::zero()));
+                    if (num_elements.is_null()) {
+                        std::string container;
+                        if (memlet->src_conn() == "void") {
+                            container = dynamic_cast<data_flow::AccessNode&>(memlet->src()).data();
+                        } else {
+                            container = dynamic_cast<data_flow::AccessNode&>(memlet->dst()).data();
+                        }
+                        if (!this->is_parameter(container)) {
+                            continue;
+                        }
+                        num_elements = symbolic::dynamic_sizeof(symbolic::symbol(container));
+                    }
+                    // The last element is at the number of elements minus one
+                    if (symbolic::eq(coefficient, symbolic::one())) {
+                        ubs.push_back(symbolic::sub(symbolic::subs(inverse, sym, num_elements), symbolic::one()));
+                    } else {
+                        ubs.push_back(symbolic::subs(inverse, sym, symbolic::sub(num_elements, symbolic::one())));
                     }
-                } else {
-                    ubs.push_back(symbolic::sub(symbolic::subs(inverse, indvar, num_elements), symbolic::one()));
                 }
             }
         }
-    }
+        return {lbs, ubs};
+    };
+    auto [lbs, ubs] = access_bounds(indvar);
     for (auto lb : lbs) {
         body_assumptions[indvar].add_lower_bound(lb);
     }
     for (auto ub : ubs) {
         body_assumptions[indvar].add_upper_bound(ub);
     }
+    // The body also restricts the induction variables of the outer loops
+    for (auto& entry : outer_assumptions) {
+        if (entry.second.map().is_null() || symbolic::eq(entry.first, indvar)) {
+            continue;
+        }
+        auto [outer_lbs, outer_ubs] = access_bounds(entry.first);
+        if (outer_lbs.empty() && outer_ubs.empty()) {
+            continue;
+        }
+        if (!body_assumptions.contains(entry.first)) {
+            body_assumptions.insert({entry.first, symbolic::Assumption(entry.first)});
+        }
+        for (auto& lb : outer_lbs) {
+            body_assumptions[entry.first].add_lower_bound(lb);
+        }
+        for (auto& ub : outer_ubs) {
+            body_assumptions[entry.first].add_upper_bound(ub);
+        }
+    }
 
     // Prove that update is monotonic -> assume bounds
     if (!symbolic::series::is_monotonic(update, indvar, outer_assumptions_with_trivial)) {
@@ -237,6 +319,13 @@ void AssumptionsAnalysis::traverse_structured_loop(
         return;
     }
 
+    // The initial value must still be known in the body
+    if (!are_fixed(symbolic::atoms(init))) {
+        this->propagate(body, body_assumptions, outer_assumptions, outer_assumptions_with_trivial);
+        this->traverse(body, this->assumptions_[&body], this->assumptions_with_trivial_[&body]);
+        return;
+    }
+
     // Assumption: init is tight lower bound for indvar
     body_assumptions[indvar].add_lower_bound(init);
     body_assumptions[indvar].tight_lower_bound(init);
@@ -272,12 +361,17 @@ void AssumptionsAnalysis::traverse_structured_loop(
     body_assumptions[indvar].upper_bound_deprecated(ub);
     // TODO: handle non-contiguous tight upper bounds with modulo
     // Example: for (i = 0; i < n; i += 3) -> tight_upper_bound = (n - 1) - ((n - 1) % 3)
-    if (symbolic::series::is_contiguous(update, indvar, outer_assumptions_with_trivial)) {
+    // All parts of the condition must be upper bounds
+    bool tight = std::all_of(cnf.begin(), cnf.end(), [&](const auto& clause) {
+        return !cnf_to_upper_bound({clause}, indvar).is_null();
+    });
+    tight &= symbolic::series::is_contiguous(update, indvar, outer_assumptions_with_trivial);
+    if (tight) {
         body_assumptions[indvar].tight_upper_bound(ub);
     }
 
     // Assumption: inverse index access upper bounds are upper bound for ub
-    if (SymEngine::is_a<SymEngine::Symbol>(*ub) && !ubs.empty()) {
+    if (SymEngine::is_a<SymEngine::Symbol>(*ub) && !ubs.empty() && tight) {
         auto sym = SymEngine::rcp_static_cast<const SymEngine::Symbol>(ub);
         if (!body_assumptions.contains(sym)) {
             body_assumptions.insert({sym, symbolic::Assumption(sym)});
-- 
2.43.0


From 967e7739dd34804ab3a8991ee937b9eee903815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 57/72] fix: Expand a library node only if it is the only
 operation of its block

---
 sdfg/src/passes/schedules/expansion_pass.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sdfg/src/passes/schedules/expansion_pass.cpp b/sdfg/src/passes/schedules/expansion_pass.cpp
index 6edcd2b..b52d93f 100644
--- a/sdfg/src/passes/schedules/expansion_pass.cpp
+++ b/sdfg/src/passes/schedules/expansion_pass.cpp
@@ -18,6 +18,22 @@ bool Expansion::accept(structured_control_flow::Block& node) {
         }
 
         if (auto math_node = dynamic_cast<math::MathNode*>(library_node)) {
+            // An expansion replaces the whole block, hence the node must be the only operation in it
+            bool alone = true;
+            for (auto& other : dataflow.nodes()) {
+                if (&other == library_node) {
+                    continue;
+                }
+                for (auto& edge : dataflow.edges()) {
+                    if ((&edge.src() == &other && &edge.dst() != library_node) ||
+                        (&edge.dst() == &other && &edge.src() != library_node)) {
+                        alone = false;
+                    }
+                }
+            }
+            if (!alone) {
+                continue;
+            }
             if (math_node->expand(this->builder_, this->analysis_manager_)) {
                 return true;
             }
-- 
2.43.0


From dc83f901ef29390e0a061ba02765faa1ff6a04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 58/72] fix: Initialize integer reductions with valid
 constants, accept unsigned 64-bit constants

---
 sdfg/src/data_flow/access_node.cpp            |  6 +++++-
 .../math/tensor/reduce_ops/max_node.cpp       | 12 +++++++----
 .../math/tensor/reduce_ops/min_node.cpp       | 20 +++++++++++--------
 sdfg/src/passes/symbolic/symbol_promotion.cpp | 11 ++++++++++
 4 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/sdfg/src/data_flow/access_node.cpp b/sdfg/src/data_flow/access_node.cpp
index 8908a07..d1a5ba4 100644
--- a/sdfg/src/data_flow/access_node.cpp
+++ b/sdfg/src/data_flow/access_node.cpp
@@ -102,7 +102,11 @@ void ConstantNode::validate(const Function& function) const {
                     }
 
                     try {
-                        helpers::parse_number_signed(this->data());
+                        if (types::is_unsigned(scalar_type.primitive_type())) {
+                            helpers::parse_number_unsigned(this->data());
+                        } else {
+                            helpers::parse_number_signed(this->data());
+                        }
                     } catch (const std::exception& e) {
                         throw InvalidSDFGException("ConstantNode " + this->data() + " has non-integer scalar type");
                     }
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/max_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/max_node.cpp
index 3466f44..c58595d 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/max_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/max_node.cpp
@@ -1,5 +1,9 @@
 #include "sdfg/data_flow/library_nodes/math/tensor/reduce_ops/max_node.h"
 
+#include <cstdint>
+#include <limits>
+#include <string>
+
 #include "sdfg/builder/structured_sdfg_builder.h"
 #include "sdfg/data_flow/library_nodes/math/cmath/cmath_node.h"
 #include "sdfg/data_flow/library_nodes/math/tensor/tensor_node.h"
@@ -73,13 +77,13 @@ bool MaxNode::expand_reduction(
 std::string MaxNode::identity(types::PrimitiveType primitive_type) const {
     switch (primitive_type) {
         case types::PrimitiveType::Int8:
-            return "INT8_MIN";
+            return std::to_string(std::numeric_limits<int8_t>::min());
         case types::PrimitiveType::Int16:
-            return "INT16_MIN";
+            return std::to_string(std::numeric_limits<int16_t>::min());
         case types::PrimitiveType::Int32:
-            return "INT32_MIN";
+            return std::to_string(std::numeric_limits<int32_t>::min());
         case types::PrimitiveType::Int64:
-            return "INT64_MIN";
+            return std::to_string(std::numeric_limits<int64_t>::min());
         case types::PrimitiveType::UInt8:
         case types::PrimitiveType::UInt16:
         case types::PrimitiveType::UInt32:
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/min_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/min_node.cpp
index 025841a..4936afe 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/min_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/min_node.cpp
@@ -1,5 +1,9 @@
 #include "sdfg/data_flow/library_nodes/math/tensor/reduce_ops/min_node.h"
 
+#include <cstdint>
+#include <limits>
+#include <string>
+
 #include "sdfg/builder/structured_sdfg_builder.h"
 #include "sdfg/data_flow/library_nodes/math/cmath/cmath_node.h"
 #include "sdfg/data_flow/library_nodes/math/tensor/tensor_node.h"
@@ -73,21 +77,21 @@ bool MinNode::expand_reduction(
 std::string MinNode::identity(types::PrimitiveType primitive_type) const {
     switch (primitive_type) {
         case types::PrimitiveType::Int8:
-            return "INT8_MAX";
+            return std::to_string(std::numeric_limits<int8_t>::max());
         case types::PrimitiveType::Int16:
-            return "INT16_MAX";
+            return std::to_string(std::numeric_limits<int16_t>::max());
         case types::PrimitiveType::Int32:
-            return "INT32_MAX";
+            return std::to_string(std::numeric_limits<int32_t>::max());
         case types::PrimitiveType::Int64:
-            return "INT64_MAX";
+            return std::to_string(std::numeric_limits<int64_t>::max());
         case types::PrimitiveType::UInt8:
-            return "UINT8_MAX";
+            return std::to_string(std::numeric_limits<uint8_t>::max());
         case types::PrimitiveType::UInt16:
-            return "UINT16_MAX";
+            return std::to_string(std::numeric_limits<uint16_t>::max());
         case types::PrimitiveType::UInt32:
-            return "UINT32_MAX";
+            return std::to_string(std::numeric_limits<uint32_t>::max());
         case types::PrimitiveType::UInt64:
-            return "UINT64_MAX";
+            return std::to_string(std::numeric_limits<uint64_t>::max());
         default:
             return "INFINITY";
     }
diff --git a/sdfg/src/passes/symbolic/symbol_promotion.cpp b/sdfg/src/passes/symbolic/symbol_promotion.cpp
index 72214f8..9bb19d2 100644
--- a/sdfg/src/passes/symbolic/symbol_promotion.cpp
+++ b/sdfg/src/passes/symbolic/symbol_promotion.cpp
@@ -55,6 +55,17 @@ bool SymbolPromotion::can_be_applied(
         return false;
     }
 
+    // Criterion: Constants are representable as signed integers
+    for (auto& iedge : dataflow.in_edges(*tasklet)) {
+        if (auto const_node = dynamic_cast<const data_flow::ConstantNode*>(&iedge.src())) {
+            try {
+                helpers::parse_number_signed(const_node->data());
+            } catch (const std::out_of_range&) {
+                return false;
+            }
+        }
+    }
+
     // Special case: Constant assign
     if (tasklet->code() == data_flow::TaskletCode::assign) {
         if (is_safe_constant_assign(builder.subject(), dataflow, *tasklet)) {
-- 
2.43.0


From 9cdc9e1b4e6dd781a573f26a715aac647309aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 59/72] fix: Use one access node if both operands of a maximum,
 minimum or power are the same

---
 .../math/tensor/elementwise_ops/maximum_node.cpp              | 4 +++-
 .../math/tensor/elementwise_ops/minimum_node.cpp              | 4 +++-
 .../library_nodes/math/tensor/elementwise_ops/pow_node.cpp    | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/maximum_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/maximum_node.cpp
index 2ff22e7..20e9f9c 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/maximum_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/maximum_node.cpp
@@ -40,7 +40,9 @@ bool MaximumNode::expand_operation(
         input_node_a = &builder.add_constant(code_block, input_name_a, const_type);
     }
     data_flow::AccessNode* input_node_b;
-    if (builder.subject().exists(input_name_b)) {
+    if (input_name_b == input_name_a) {
+        input_node_b = input_node_a;
+    } else if (builder.subject().exists(input_name_b)) {
         input_node_b = &builder.add_access(code_block, input_name_b);
     } else {
         types::Scalar const_type(input_type_b.primitive_type());
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/minimum_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/minimum_node.cpp
index c6f820a..02b9bc7 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/minimum_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/minimum_node.cpp
@@ -40,7 +40,9 @@ bool MinimumNode::expand_operation(
         input_node_a = &builder.add_constant(code_block, input_name_a, const_type);
     }
     data_flow::AccessNode* input_node_b;
-    if (builder.subject().exists(input_name_b)) {
+    if (input_name_b == input_name_a) {
+        input_node_b = input_node_a;
+    } else if (builder.subject().exists(input_name_b)) {
         input_node_b = &builder.add_access(code_block, input_name_b);
     } else {
         types::Scalar const_type(input_type_b.primitive_type());
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/pow_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/pow_node.cpp
index 2e608e0..40f2119 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/pow_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/pow_node.cpp
@@ -41,7 +41,9 @@ bool PowNode::expand_operation(
         input_node_a = &builder.add_constant(code_block, input_name_a, const_type);
     }
     data_flow::AccessNode* input_node_b;
-    if (builder.subject().exists(input_name_b)) {
+    if (input_name_b == input_name_a) {
+        input_node_b = input_node_a;
+    } else if (builder.subject().exists(input_name_b)) {
         input_node_b = &builder.add_access(code_block, input_name_b);
     } else {
         types::Scalar const_type(input_type_b.primitive_type());
-- 
2.43.0


From d7a6bd81d3a6860e4bb834e5d39493429288ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 60/72] fix: Keep the assignments after a broadcast and align
 its dimensions

---
 .../math/tensor/broadcast_node.cpp            | 45 +++++++------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/broadcast_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/broadcast_node.cpp
index 760b2cb..051da03 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/broadcast_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/broadcast_node.cpp
@@ -110,8 +110,11 @@ bool BroadcastNode::expand(builder::StructuredSDFGBuilder& builder, analysis::An
     auto& in_node = static_cast<data_flow::AccessNode&>(in_edge.src());
     auto& out_node = static_cast<data_flow::AccessNode&>(out_edge.dst());
 
+    auto& transition = parent.at(parent.index(block)).second;
+    auto& new_sequence = builder.add_sequence_before(parent, block, transition.assignments(), block.debug_info());
+
     symbolic::MultiExpression loop_vars;
-    structured_control_flow::Sequence* inner_scope = nullptr;
+    structured_control_flow::Sequence* inner_scope = &new_sequence;
 
     for (size_t i = 0; i < output_shape_.size(); ++i) {
         std::string var_name = builder.find_new_name("_i" + std::to_string(i));
@@ -122,32 +125,17 @@ bool BroadcastNode::expand(builder::StructuredSDFGBuilder& builder, analysis::An
         auto init = symbolic::zero();
         auto update = symbolic::add(sym_var, symbolic::one());
 
-        if (i == 0) {
-            auto& loop = builder.add_map_before(
-                parent,
-                block,
-                sym_var,
-                condition,
-                init,
-                update,
-                structured_control_flow::ScheduleType_Sequential::create(),
-                {},
-                this->debug_info()
-            );
-            inner_scope = &loop.root();
-        } else {
-            auto& loop = builder.add_map(
-                *inner_scope,
-                sym_var,
-                condition,
-                init,
-                update,
-                structured_control_flow::ScheduleType_Sequential::create(),
-                {},
-                this->debug_info()
-            );
-            inner_scope = &loop.root();
-        }
+        auto& loop = builder.add_map(
+            *inner_scope,
+            sym_var,
+            condition,
+            init,
+            update,
+            structured_control_flow::ScheduleType_Sequential::create(),
+            {},
+            this->debug_info()
+        );
+        inner_scope = &loop.root();
         loop_vars.push_back(sym_var);
     }
 
@@ -159,7 +147,8 @@ bool BroadcastNode::expand(builder::StructuredSDFGBuilder& builder, analysis::An
     symbolic::MultiExpression input_subset = {};
     for (size_t i = 0; i < input_shape_.size(); ++i) {
         if (!symbolic::eq(input_shape_[i], symbolic::one())) {
-            input_subset.push_back(loop_vars[i]);
+            // Dimensions are aligned at the right
+            input_subset.push_back(loop_vars[output_shape_.size() - input_shape_.size() + i]);
         } else {
             input_subset.push_back(symbolic::zero());
         }
-- 
2.43.0


From c36b743d03336f980c19d50a1f81e6a595f20f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 61/72] fix: Convert an integer divisor of a floating-point
 division

---
 .../math/tensor/elementwise_ops/div_node.cpp  | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/div_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/div_node.cpp
index d0be0ef..e609854 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/div_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/div_node.cpp
@@ -60,7 +60,27 @@ bool DivNode::expand_operation(
         builder.add_computational_memlet(code_block, input_node_a, tasklet, "_in1", subset, input_type_a);
     }
 
-    if (builder.subject().exists(input_name_b)) {
+    // The divisor of a floating-point division may be an integer, e.g., the number of elements of a mean
+    bool integer_divisor = false;
+    if (!is_int && input_type_b.is_scalar() && builder.subject().exists(input_name_b)) {
+        auto& divisor_type = builder.subject().type(input_name_b);
+        integer_divisor = divisor_type.type_id() == types::TypeID::Scalar &&
+                          types::is_integer(divisor_type.primitive_type());
+    }
+
+    if (integer_divisor) {
+        types::Scalar value_type(input_type_b.primitive_type());
+        auto value_name = builder.find_new_name(input_name_b + "_value");
+        builder.add_container(value_name, value_type);
+        auto& input_node_b = builder.add_access(code_block, input_name_b);
+        auto& value_node = builder.add_access(code_block, value_name);
+        auto& conversion = builder.add_tasklet(code_block, data_flow::TaskletCode::assign, "_out", {"_in"});
+        builder.add_computational_memlet(
+            code_block, input_node_b, conversion, "_in", {}, builder.subject().type(input_name_b)
+        );
+        builder.add_computational_memlet(code_block, conversion, "_out", value_node, {}, value_type);
+        builder.add_computational_memlet(code_block, value_node, tasklet, "_in2", {}, value_type);
+    } else if (builder.subject().exists(input_name_b)) {
         auto& input_node_b = builder.add_access(code_block, input_name_b);
         if (input_type_b.is_scalar()) {
             builder.add_computational_memlet(code_block, input_node_b, tasklet, "_in2", {}, input_type_b);
-- 
2.43.0


From a3904354721b6091c83095fb69369a2bbee25605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 62/72] fix: Address the temporaries of softmax and standard
 deviation densely, keep the assignments after a softmax

---
 .../math/tensor/reduce_ops/softmax_node.cpp   | 33 +++++++++++--------
 .../math/tensor/reduce_ops/std_node.cpp       | 22 ++++++++-----
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/softmax_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/softmax_node.cpp
index d6d7b4f..a27cac5 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/softmax_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/softmax_node.cpp
@@ -46,6 +46,7 @@ bool SoftmaxNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Anal
     auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
     auto& parent = static_cast<structured_control_flow::Sequence&>(*scope_analysis.parent_scope(&block));
     int index = parent.index(block);
+    auto& transition = parent.at(index).second;
 
     auto& in_edge = *dataflow.in_edges(*this).begin();
     auto& out_edge = *dataflow.out_edges(*this).begin();
@@ -89,6 +90,10 @@ bool SoftmaxNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Anal
     types::Scalar element_type(this->primitive_type(dataflow));
     types::Pointer pointer_type(element_type);
 
+    // The temporaries are dense
+    types::Tensor tmp_full_type(element_type.primitive_type(), this->shape_);
+    types::Tensor tmp_reduced_type(element_type.primitive_type(), reduced_shape);
+
     // Temporary buffers
     std::string tmp_max_name = builder.find_new_name("_softmax_max");
     builder.add_container(tmp_max_name, pointer_type);
@@ -151,7 +156,7 @@ bool SoftmaxNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Anal
         builder
             .add_computational_memlet(max_block, in_access, max_node, "X", {}, in_edge.base_type(), this->debug_info());
         builder
-            .add_computational_memlet(max_block, max_node, "Y", out_access, {}, out_edge.base_type(), this->debug_info());
+            .add_computational_memlet(max_block, max_node, "Y", out_access, {}, tmp_reduced_type, this->debug_info());
     }
 
     // 1.5 Broadcast Max -> TmpMaxBcast
@@ -164,10 +169,10 @@ bool SoftmaxNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Anal
         auto& out_access = builder.add_access(bcast_block, tmp_max_bcast_name);
 
         builder.add_computational_memlet(
-            bcast_block, in_access, bcast_node, "X", {}, out_edge.base_type(), this->debug_info()
+            bcast_block, in_access, bcast_node, "X", {}, tmp_reduced_type, this->debug_info()
         );
         builder.add_computational_memlet(
-            bcast_block, bcast_node, "Y", out_access, {}, out_edge.base_type(), this->debug_info()
+            bcast_block, bcast_node, "Y", out_access, {}, tmp_full_type, this->debug_info()
         );
     }
 
@@ -183,9 +188,9 @@ bool SoftmaxNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Anal
         builder
             .add_computational_memlet(sub_block, in1_access, sub_node, "A", {}, in_edge.base_type(), this->debug_info());
         builder
-            .add_computational_memlet(sub_block, in2_access, sub_node, "B", {}, out_edge.base_type(), this->debug_info());
+            .add_computational_memlet(sub_block, in2_access, sub_node, "B", {}, tmp_full_type, this->debug_info());
         builder
-            .add_computational_memlet(sub_block, sub_node, "C", out_access, {}, out_edge.base_type(), this->debug_info());
+            .add_computational_memlet(sub_block, sub_node, "C", out_access, {}, tmp_full_type, this->debug_info());
     }
 
     // 3. Exp(TmpSub) -> TmpExp
@@ -197,9 +202,9 @@ bool SoftmaxNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Anal
         auto& out_access = builder.add_access(exp_block, tmp_exp_name);
 
         builder
-            .add_computational_memlet(exp_block, in_access, exp_node, "X", {}, out_edge.base_type(), this->debug_info());
+            .add_computational_memlet(exp_block, in_access, exp_node, "X", {}, tmp_full_type, this->debug_info());
         builder
-            .add_computational_memlet(exp_block, exp_node, "Y", out_access, {}, out_edge.base_type(), this->debug_info());
+            .add_computational_memlet(exp_block, exp_node, "Y", out_access, {}, tmp_full_type, this->debug_info());
     }
 
     // 4. Sum(TmpExp) -> TmpSum
@@ -212,9 +217,9 @@ bool SoftmaxNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Anal
         auto& out_access = builder.add_access(sum_block, tmp_sum_name);
 
         builder
-            .add_computational_memlet(sum_block, in_access, sum_node, "X", {}, out_edge.base_type(), this->debug_info());
+            .add_computational_memlet(sum_block, in_access, sum_node, "X", {}, tmp_full_type, this->debug_info());
         builder
-            .add_computational_memlet(sum_block, sum_node, "Y", out_access, {}, out_edge.base_type(), this->debug_info());
+            .add_computational_memlet(sum_block, sum_node, "Y", out_access, {}, tmp_reduced_type, this->debug_info());
     }
 
     // 4.5 Broadcast Sum -> TmpSumBcast
@@ -227,16 +232,16 @@ bool SoftmaxNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Anal
         auto& out_access = builder.add_access(bcast_block, tmp_sum_bcast_name);
 
         builder.add_computational_memlet(
-            bcast_block, in_access, bcast_node, "X", {}, out_edge.base_type(), this->debug_info()
+            bcast_block, in_access, bcast_node, "X", {}, tmp_reduced_type, this->debug_info()
         );
         builder.add_computational_memlet(
-            bcast_block, bcast_node, "Y", out_access, {}, out_edge.base_type(), this->debug_info()
+            bcast_block, bcast_node, "Y", out_access, {}, tmp_full_type, this->debug_info()
         );
     }
 
     // 5. Div(TmpExp, TmpSumBcast) -> Output
     {
-        auto& div_block = builder.add_block_before(parent, block, {}, this->debug_info());
+        auto& div_block = builder.add_block_before(parent, block, transition.assignments(), this->debug_info());
         auto& div_node = builder.add_library_node<DivNode>(div_block, this->debug_info(), this->shape_);
 
         auto& in1_access = builder.add_access(div_block, tmp_exp_name);
@@ -244,9 +249,9 @@ bool SoftmaxNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Anal
         auto& out_access = builder.add_access(div_block, out_node.data());
 
         builder
-            .add_computational_memlet(div_block, in1_access, div_node, "A", {}, out_edge.base_type(), this->debug_info());
+            .add_computational_memlet(div_block, in1_access, div_node, "A", {}, tmp_full_type, this->debug_info());
         builder
-            .add_computational_memlet(div_block, in2_access, div_node, "B", {}, out_edge.base_type(), this->debug_info());
+            .add_computational_memlet(div_block, in2_access, div_node, "B", {}, tmp_full_type, this->debug_info());
         builder
             .add_computational_memlet(div_block, div_node, "C", out_access, {}, out_edge.base_type(), this->debug_info());
     }
diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/std_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/std_node.cpp
index 25c0c8e..6392af6 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/std_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/reduce_ops/std_node.cpp
@@ -87,6 +87,10 @@ bool StdNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysis
     std::string tmp_mean_x2_name = builder.find_new_name("_std_mean_x2");
     std::string tmp_mean_x_name = builder.find_new_name("_std_mean_x");
 
+    // The temporaries are dense
+    types::Tensor tmp_full_type(element_type.primitive_type(), shape_);
+    types::Tensor tmp_reduced_type(element_type.primitive_type(), output_shape);
+
     symbolic::Expression bytes_in = types::get_type_size(element_type, false);
     for (auto& dim : this->shape_) {
         bytes_in = symbolic::mul(dim, bytes_in);
@@ -155,7 +159,7 @@ bool StdNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysis
     builder
         .add_computational_memlet(pow_block, pow_in_node, pow_node_1, "B", {}, in_edge.base_type(), this->debug_info());
     builder
-        .add_computational_memlet(pow_block, pow_node_1, "C", pow_out_node, {}, in_edge.base_type(), this->debug_info());
+        .add_computational_memlet(pow_block, pow_node_1, "C", pow_out_node, {}, tmp_full_type, this->debug_info());
 
     // 2. Mean(X^2)
     auto& mean_x2_block = builder.add_block_before(parent, block, {}, this->debug_info());
@@ -164,10 +168,10 @@ bool StdNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysis
 
     auto& mean_node_1 = builder.add_library_node<MeanNode>(mean_x2_block, this->debug_info(), shape_, axes_, keepdims_);
     builder.add_computational_memlet(
-        mean_x2_block, mean_x2_in_node, mean_node_1, "X", {}, in_edge.base_type(), this->debug_info()
+        mean_x2_block, mean_x2_in_node, mean_node_1, "X", {}, tmp_full_type, this->debug_info()
     );
     builder.add_computational_memlet(
-        mean_x2_block, mean_node_1, "Y", mean_x2_out_node, {}, out_edge.base_type(), this->debug_info()
+        mean_x2_block, mean_node_1, "Y", mean_x2_out_node, {}, tmp_reduced_type, this->debug_info()
     );
 
     // 3. Mean(X)
@@ -180,7 +184,7 @@ bool StdNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysis
         mean_x_block, mean_x_in_node, mean_node_2, "X", {}, in_edge.base_type(), this->debug_info()
     );
     builder.add_computational_memlet(
-        mean_x_block, mean_node_2, "Y", mean_x_out_node, {}, out_edge.base_type(), this->debug_info()
+        mean_x_block, mean_node_2, "Y", mean_x_out_node, {}, tmp_reduced_type, this->debug_info()
     );
 
     // 4. Mean(X)^2
@@ -191,13 +195,13 @@ bool StdNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysis
     auto& pow_node_2 = builder.add_library_node<MulNode>(pow_mean_x_block, this->debug_info(), output_shape);
 
     builder.add_computational_memlet(
-        pow_mean_x_block, pow_mean_x_in_node, pow_node_2, "A", {}, out_edge.base_type(), this->debug_info()
+        pow_mean_x_block, pow_mean_x_in_node, pow_node_2, "A", {}, tmp_reduced_type, this->debug_info()
     );
     builder.add_computational_memlet(
-        pow_mean_x_block, pow_mean_x_in_node, pow_node_2, "B", {}, out_edge.base_type(), this->debug_info()
+        pow_mean_x_block, pow_mean_x_in_node, pow_node_2, "B", {}, tmp_reduced_type, this->debug_info()
     );
     builder.add_computational_memlet(
-        pow_mean_x_block, pow_node_2, "C", pow_mean_x_out_node, {}, out_edge.base_type(), this->debug_info()
+        pow_mean_x_block, pow_node_2, "C", pow_mean_x_out_node, {}, tmp_reduced_type, this->debug_info()
     );
 
     // 5. Mean(X^2) - Mean(X)^2
@@ -208,9 +212,9 @@ bool StdNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysis
 
     auto& sub_node = builder.add_library_node<SubNode>(sub_block, this->debug_info(), output_shape);
     builder
-        .add_computational_memlet(sub_block, sub_in1_node, sub_node, "A", {}, out_edge.base_type(), this->debug_info());
+        .add_computational_memlet(sub_block, sub_in1_node, sub_node, "A", {}, tmp_reduced_type, this->debug_info());
     builder
-        .add_computational_memlet(sub_block, sub_in2_node, sub_node, "B", {}, out_edge.base_type(), this->debug_info());
+        .add_computational_memlet(sub_block, sub_in2_node, sub_node, "B", {}, tmp_reduced_type, this->debug_info());
     builder
         .add_computational_memlet(sub_block, sub_node, "C", sub_out_node, {}, out_edge.base_type(), this->debug_info());
 
-- 
2.43.0


From a6a2bbc176fd723c2ba2da39a1c19ebd542b5bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 63/72] fix: Convolve without the padding and within groups

---
 .../library_nodes/math/tensor/conv_node.cpp   | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/conv_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/conv_node.cpp
index 4c42b14..03009bf 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/conv_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/conv_node.cpp
@@ -307,14 +307,16 @@ bool ConvNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysi
     builder.add_computational_memlet(init_block, init_tasklet, "_out", accum_init, {}, scalar_type, block.debug_info());
 
     // Create nested for loops for input channels and kernel dimensions
-    // For loop over input channels
+    // For loop over the input channels of a group
+    bool grouped = !symbolic::eq(group_, symbolic::one());
+    symbolic::Expression group_in = grouped ? symbolic::div(C_in, group_) : C_in;
     std::string ic_str = builder.find_new_name("ic");
     builder.add_container(ic_str, types::Scalar(types::PrimitiveType::UInt64));
     auto ic_var = symbolic::symbol(ic_str);
     auto& for_ic = builder.add_for(
         *current_scope,
         ic_var,
-        symbolic::Lt(ic_var, C_in),
+        symbolic::Lt(ic_var, group_in),
         symbolic::zero(),
         symbolic::add(ic_var, symbolic::one()),
         {},
@@ -352,6 +354,25 @@ bool ConvNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysi
         input_spatial_indices.push_back(input_idx);
     }
 
+    // The padding does not contribute
+    symbolic::Condition inside = symbolic::__true__();
+    bool padded = false;
+    for (size_t i = 0; i < spatial_dims; ++i) {
+        if (symbolic::eq(pads_begin_vec[i], symbolic::zero()) && symbolic::eq(pads_end_vec[i], symbolic::zero())) {
+            continue;
+        }
+        padded = true;
+        auto position = symbolic::
+            add(symbolic::mul(output_spatial_vars[i], strides_vec[i]), symbolic::mul(kernel_vars[i], dilations_vec[i]));
+        inside = symbolic::And(inside, symbolic::Le(pads_begin_vec[i], position));
+        inside = symbolic::
+            And(inside, symbolic::Lt(position, symbolic::add(input_spatial_dims[i], pads_begin_vec[i])));
+    }
+    if (padded) {
+        auto& if_inside = builder.add_if_else(*loop_scope, {}, block.debug_info());
+        loop_scope = &builder.add_case(if_inside, inside, block.debug_info());
+    }
+
     // Create computation block
     auto& comp_block = builder.add_block(*loop_scope, {}, block.debug_info());
 
@@ -378,12 +399,15 @@ bool ConvNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysi
     w_shape_vec.insert(w_shape_vec.end(), kernel_shape_.begin(), kernel_shape_.end());
 
     // Connect edges with subsets
-    std::vector<symbolic::Expression> x_indices_vec = {n_var, ic_var};
+    symbolic::Expression x_channel = ic_var;
+    if (grouped) {
+        auto group_index = symbolic::div(oc_var, symbolic::div(C_out, group_));
+        x_channel = symbolic::add(symbolic::mul(group_index, group_in), ic_var);
+    }
+    std::vector<symbolic::Expression> x_indices_vec = {n_var, x_channel};
     x_indices_vec.insert(x_indices_vec.end(), input_spatial_indices.begin(), input_spatial_indices.end());
 
-    std::vector<symbolic::Expression> w_indices_vec = {oc_var, ic_var}; // Assuming group=1 for now for simplicity of
-                                                                        // indices
-    // TODO: Handle groups properly in indices if needed, but for standard conv:
+    std::vector<symbolic::Expression> w_indices_vec = {oc_var, ic_var};
     w_indices_vec.insert(w_indices_vec.end(), kernel_vars.begin(), kernel_vars.end());
 
     data_flow::Subset x_subset(x_indices_vec);
-- 
2.43.0


From 1f2f923fad77a966b9f06b83d9a275cffc1bfd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 64/72] fix: Address the batches of a matrix product

---
 .../library_nodes/math/tensor/matmul_node.cpp | 48 +++++++++++--------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/matmul_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/matmul_node.cpp
index fee0104..5764df0 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/matmul_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/matmul_node.cpp
@@ -340,15 +340,30 @@ bool MatMulNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analy
             return false;
     };
 
+    // The output is written in rows
+    size_t output_dims = std::max(shape_a_.size(), shape_b_.size());
+    auto& output_type = static_cast<const types::Tensor&>(oedge.base_type());
+    if (output_type.shape().size() != output_dims || !symbolic::eq(output_type.strides().back(), symbolic::one())) {
+        return false;
+    }
+    auto output_strides = output_type.strides();
+    auto output_offset = output_type.offset();
+
     // Add new graph after the current block
     auto& new_sequence = builder.add_sequence_before(parent, block, transition.assignments(), block.debug_info());
 
     auto copy_name_a =
         copy_if_view(input_node_a.data(), builder, new_sequence, prim_type, shape_a_, strides_a_, offset_a_);
     strides_a_ = types::Tensor::strides_from_shape(shape_a_);
+    if (copy_name_a != input_node_a.data()) {
+        offset_a_ = symbolic::zero();
+    }
     auto copy_name_b =
         copy_if_view(input_node_b.data(), builder, new_sequence, prim_type, shape_b_, strides_b_, offset_b_);
     strides_b_ = types::Tensor::strides_from_shape(shape_b_);
+    if (copy_name_b != input_node_b.data()) {
+        offset_b_ = symbolic::zero();
+    }
 
     // Create maps for batch dimensions and M, N dimensions
     structured_control_flow::Sequence* last_scope = &new_sequence;
@@ -360,8 +375,6 @@ bool MatMulNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analy
     size_t batch_dims_b = shape_b_.size() - 2;
     size_t max_batch_dims = std::max(batch_dims_a, batch_dims_b);
 
-    auto& ref_block = builder.add_block(*last_scope, {}, block.debug_info());
-
     // Create maps for batch dimensions (using broadcasting)
     for (size_t i = 0; i < max_batch_dims; ++i) {
         std::string indvar_str = builder.find_new_name("_b");
@@ -378,7 +391,7 @@ bool MatMulNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analy
 
         if (a_idx != SIZE_MAX && b_idx != SIZE_MAX) {
             // Both have this dimension - they should be equal or one should be 1 (broadcasting)
-            bound = shape_a_[a_idx]; // Assume they match or broadcasting is handled
+            bound = symbolic::eq(shape_a_[a_idx], symbolic::one()) ? shape_b_[b_idx] : shape_a_[a_idx];
         } else if (a_idx != SIZE_MAX) {
             bound = shape_a_[a_idx];
         } else {
@@ -402,10 +415,15 @@ bool MatMulNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analy
 
     auto scalar_type = types::Scalar(prim_type);
 
+    auto& ref_block = builder.add_block(*last_scope, {}, block.debug_info());
+
     // Compute offsets for this batch iteration
     // For A: base_offset_a = offset_a + sum_i(batch_idx_i * batch_stride_a_i)
     symbolic::Expression a_batch_offset = offset_a_;
     for (size_t i = 0; i < batch_dims_a; ++i) {
+        if (symbolic::eq(shape_a_[i], symbolic::one())) {
+            continue;
+        }
         size_t batch_idx = max_batch_dims - batch_dims_a + i;
         a_batch_offset = symbolic::add(a_batch_offset, symbolic::mul(batch_vars[batch_idx], strides_a_[i]));
     }
@@ -413,25 +431,17 @@ bool MatMulNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analy
     // For B: base_offset_b = offset_b + sum_i(batch_idx_i * batch_stride_b_i)
     symbolic::Expression b_batch_offset = offset_b_;
     for (size_t i = 0; i < batch_dims_b; ++i) {
+        if (symbolic::eq(shape_b_[i], symbolic::one())) {
+            continue;
+        }
         size_t batch_idx = max_batch_dims - batch_dims_b + i;
         b_batch_offset = symbolic::add(b_batch_offset, symbolic::mul(batch_vars[batch_idx], strides_b_[i]));
     }
 
-    // Compute output batch offset (same as batch_vars pattern for Y)
-    symbolic::Expression c_batch_offset = symbolic::integer(0);
+    // Compute output batch offset
+    symbolic::Expression c_batch_offset = output_offset;
     for (size_t i = 0; i < batch_vars.size(); ++i) {
-        // Output has shape [batch..., M, N] with row-major strides
-        // Stride for batch dim i is: M * N * product of remaining batch dims
-        symbolic::Expression c_stride = symbolic::mul(this->m(), this->n());
-        for (size_t j = i + 1; j < batch_vars.size(); ++j) {
-            // Multiply by subsequent batch dimensions
-            if (j < batch_dims_a) {
-                c_stride = symbolic::mul(c_stride, shape_a_[j]);
-            } else if (j - batch_dims_a < batch_dims_b) {
-                c_stride = symbolic::mul(c_stride, shape_b_[j - batch_dims_a]);
-            }
-        }
-        c_batch_offset = symbolic::add(c_batch_offset, symbolic::mul(batch_vars[i], c_stride));
+        c_batch_offset = symbolic::add(c_batch_offset, symbolic::mul(batch_vars[i], output_strides[i]));
     }
 
     // Create access nodes
@@ -467,8 +477,8 @@ bool MatMulNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analy
     // For row-major B[K, N]: ldb = stride for K dimension = strides_b_[-2]
     auto lda = strides_a_[strides_a_.size() - 2];
     auto ldb = strides_b_[strides_b_.size() - 2];
-    // For output C[M, N] in row-major: ldc = N
-    auto ldc = this->n();
+    // For output C[M, N] in row-major: ldc = stride for M dimension
+    auto ldc = output_strides[output_dims - 2];
 
     // Add GEMM node: C = alpha * A * B + beta * C
     // With alpha = 1.0, beta = 0.0: C = A * B
-- 
2.43.0


From 05a025b879bba91530e540c2ed1ef35dd220694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 65/72] fix: Initialize dot products, address column-major
 matrices

---
 .../library_nodes/math/blas/dot_node.cpp          | 15 ++++++++++++++-
 .../library_nodes/math/blas/gemm_node.cpp         | 10 +++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/blas/dot_node.cpp b/sdfg/src/data_flow/library_nodes/math/blas/dot_node.cpp
index bd0a642..c82d584 100644
--- a/sdfg/src/data_flow/library_nodes/math/blas/dot_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/blas/dot_node.cpp
@@ -104,6 +104,17 @@ bool DotNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysis
 
     auto& new_sequence = builder.add_sequence_before(parent, block, transition.assignments(), block.debug_info());
 
+    // The result does not depend on the previous value
+    auto& init_block = builder.add_block(new_sequence, {}, block.debug_info());
+    auto& zero = builder.add_constant(init_block, "0.0", types::Scalar(scalar_primitive()), block.debug_info());
+    auto& res_init = builder.add_access(init_block, output_node_res.data(), block.debug_info());
+    auto& init_tasklet =
+        builder.add_tasklet(init_block, data_flow::TaskletCode::assign, "_out", {"_in"}, block.debug_info());
+    builder.add_computational_memlet(init_block, zero, init_tasklet, "_in", {}, block.debug_info());
+    builder.add_computational_memlet(
+        init_block, init_tasklet, "_out", res_init, {}, oedge_res->base_type(), oedge_res->debug_info()
+    );
+
     std::string loop_var = builder.find_new_name("_i");
     builder.add_container(loop_var, types::Scalar(types::PrimitiveType::UInt64));
 
@@ -154,7 +165,9 @@ bool DotNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysis
     builder.remove_memlet(block, *iedge_y);
     builder.remove_memlet(block, *oedge_res);
     builder.remove_node(block, input_node_x);
-    builder.remove_node(block, input_node_y);
+    if (&input_node_x != &input_node_y) {
+        builder.remove_node(block, input_node_y);
+    }
     builder.remove_node(block, output_node_res);
     builder.remove_node(block, *this);
     builder.remove_child(parent, index + 1);
diff --git a/sdfg/src/data_flow/library_nodes/math/blas/gemm_node.cpp b/sdfg/src/data_flow/library_nodes/math/blas/gemm_node.cpp
index 73440b9..3302b2d 100644
--- a/sdfg/src/data_flow/library_nodes/math/blas/gemm_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/blas/gemm_node.cpp
@@ -240,11 +240,15 @@ bool GEMMNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysi
     auto& sum_out = builder.add_access(code_block, sum_var, block.debug_info());
     builder.add_computational_memlet(code_block, sum_in, core_fma, "_in3", {}, block.debug_info());
 
-    symbolic::Expression a_idx = symbolic::add(symbolic::mul(lda(), new_subset[0]), new_subset[2]);
+    auto element = [&](const symbolic::Expression& ld, const symbolic::Expression& row, const symbolic::Expression& col) {
+        return layout_ == BLAS_Layout::ColMajor ? symbolic::add(symbolic::mul(ld, col), row)
+                                                : symbolic::add(symbolic::mul(ld, row), col);
+    };
+    symbolic::Expression a_idx = element(lda(), new_subset[0], new_subset[2]);
     builder.add_computational_memlet(
         code_block, input_node_a_new, core_fma, "_in1", {a_idx}, iedge_a->base_type(), iedge_a->debug_info()
     );
-    symbolic::Expression b_idx = symbolic::add(symbolic::mul(ldb(), new_subset[2]), new_subset[1]);
+    symbolic::Expression b_idx = element(ldb(), new_subset[2], new_subset[1]);
     builder.add_computational_memlet(
         code_block, input_node_b_new, core_fma, "_in2", {b_idx}, iedge_b->base_type(), iedge_b->debug_info()
     );
@@ -253,7 +257,7 @@ bool GEMMNode::expand(builder::StructuredSDFGBuilder& builder, analysis::Analysi
     auto& flush_block = builder.add_block_after(output_loop->root(), *last_map, {}, block.debug_info());
     auto& sum_final = builder.add_access(flush_block, sum_var, block.debug_info());
     auto& input_node_c_new = builder.add_access(flush_block, C_in_var, input_node_c->debug_info());
-    symbolic::Expression c_idx = symbolic::add(symbolic::mul(ldc(), new_subset[0]), new_subset[1]);
+    symbolic::Expression c_idx = element(ldc(), new_subset[0], new_subset[1]);
 
     auto& scale_sum_tasklet =
         builder.add_tasklet(flush_block, data_flow::TaskletCode::fp_mul, "_out", {"_in1", "_in2"}, block.debug_info());
-- 
2.43.0


From ed2b490c5d46629224d5a3fa9d40049ba85e178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 66/72] fix: Convert the integer result of rounding functions
 on tensors

---
 .../tensor/elementwise_ops/cmath_node.cpp     | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.cpp
index 1ca5efe..5087bd8 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.cpp
@@ -247,9 +247,28 @@ bool CMathTensorNode::expand(builder::StructuredSDFGBuilder& builder, analysis::
         }
     }
     auto& out_node = builder.add_access(code_block, output_node.data(), output_node.debug_info());
-    builder.add_computational_memlet(
-        code_block, libnode, libnode.output(0), out_node, loop_vars, oedge.base_type(), oedge.debug_info()
-    );
+    auto output_primitive_type = static_cast<const types::Tensor&>(oedge.base_type()).primitive_type();
+    if (this->supports_integer_types() && !types::is_integer(output_primitive_type)) {
+        // The function yields an integer, which is converted
+        types::Scalar integer_type(types::PrimitiveType::Int64);
+        auto rounded = builder.find_new_name("_rounded");
+        builder.add_container(rounded, integer_type);
+        auto& rounded_node = builder.add_access(code_block, rounded, output_node.debug_info());
+        builder.add_computational_memlet(
+            code_block, libnode, libnode.output(0), rounded_node, {}, integer_type, oedge.debug_info()
+        );
+        auto& conversion = builder.add_tasklet(code_block, data_flow::TaskletCode::assign, "_out", {"_in"});
+        builder.add_computational_memlet(
+            code_block, rounded_node, conversion, "_in", {}, integer_type, oedge.debug_info()
+        );
+        builder.add_computational_memlet(
+            code_block, conversion, "_out", out_node, loop_vars, oedge.base_type(), oedge.debug_info()
+        );
+    } else {
+        builder.add_computational_memlet(
+            code_block, libnode, libnode.output(0), out_node, loop_vars, oedge.base_type(), oedge.debug_info()
+        );
+    }
 
     // Clean up block
     for (auto* iedge : iedges) {
-- 
2.43.0


From 10396fc14d2b542f2252a232cdc2936a666b22f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 67/72] fix: Do not print when a fill is expanded

---
 .../library_nodes/math/tensor/elementwise_ops/fill_node.cpp      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/fill_node.cpp b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/fill_node.cpp
index 7308b0c..f15d2d6 100644
--- a/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/fill_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/math/tensor/elementwise_ops/fill_node.cpp
@@ -50,7 +50,6 @@ std::unique_ptr<data_flow::DataFlowNode> FillNode::
 }
 
 bool FillNode::expand(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager) {
-    std::cerr << "expand" << std::endl;
     auto& dataflow = this->get_parent();
     auto& block = static_cast<structured_control_flow::Block&>(*dataflow.get_parent());
     if (dataflow.in_degree(*this) != 1 || dataflow.out_degree(*this) != 1) {
-- 
2.43.0


From cc3d62af71c88f04f4b6775887d5536af9f22bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:50 +0000
Subject: [PATCH 68/72] fix: Structure loops that return, leave or continue an
 enclosing loop; refuse functions that never return

---
 .../sdfg/builder/structured_sdfg_builder.h    |  1 +
 sdfg/src/builder/structured_sdfg_builder.cpp  | 25 +++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/sdfg/include/sdfg/builder/structured_sdfg_builder.h b/sdfg/include/sdfg/builder/structured_sdfg_builder.h
index ed15b46..da001c0 100644
--- a/sdfg/include/sdfg/builder/structured_sdfg_builder.h
+++ b/sdfg/include/sdfg/builder/structured_sdfg_builder.h
@@ -49,6 +49,7 @@ private:
     determine_loop_nodes(SDFG& sdfg, const control_flow::State& start, const control_flow::State& end) const;
 
     structured_control_flow::While* current_traverse_loop_;
+    const control_flow::State* current_traverse_header_;
 
     void traverse(SDFG& sdfg);
 
diff --git a/sdfg/src/builder/structured_sdfg_builder.cpp b/sdfg/src/builder/structured_sdfg_builder.cpp
index dcb4082..e4358fb 100644
--- a/sdfg/src/builder/structured_sdfg_builder.cpp
+++ b/sdfg/src/builder/structured_sdfg_builder.cpp
@@ -1,5 +1,6 @@
 #include "sdfg/builder/structured_sdfg_builder.h"
 
+#include <algorithm>
 #include <cstddef>
 
 #include "sdfg/data_flow/library_node.h"
@@ -134,6 +135,11 @@ void StructuredSDFGBuilder::traverse(SDFG& sdfg) {
     Sequence& root = *structured_sdfg_->root_;
     const State* start_state = &sdfg.start_state();
 
+    // Post-dominators are undefined if the function never returns
+    if (std::ranges::empty(sdfg.terminal_states())) {
+        throw UnstructuredControlFlowException();
+    }
+
     auto pdom_tree = sdfg.post_dominator_tree();
 
     std::unordered_set<const InterstateEdge*> breaks;
@@ -143,6 +149,7 @@ void StructuredSDFGBuilder::traverse(SDFG& sdfg) {
     }
 
     this->current_traverse_loop_ = nullptr;
+    this->current_traverse_header_ = nullptr;
     std::unordered_set<const control_flow::State*> visited;
     this->structure_region(sdfg, root, start_state, nullptr, continues, breaks, pdom_tree, visited);
 };
@@ -236,9 +243,8 @@ void StructuredSDFGBuilder::structure_region(
             }
             const control_flow::State* exit_state = *exit_states.begin();
 
-            for (auto& edge : breaks) {
-                exit_edges.insert(edge);
-            }
+            // Edges that return or that leave an enclosing loop do not break out of this loop
+            std::erase_if(exit_edges, [&](const auto* edge) { return &edge->dst() != exit_state; });
 
             // Collect debug information
             DebugInfo dbg_info = current->debug_info();
@@ -255,7 +261,9 @@ void StructuredSDFGBuilder::structure_region(
             // 3. Add while loop
             While& loop = this->add_while(scope, {}, dbg_info);
             auto last_loop_ = this->current_traverse_loop_;
+            auto last_header_ = this->current_traverse_header_;
             this->current_traverse_loop_ = &loop;
+            this->current_traverse_header_ = current;
 
             std::unordered_set<const control_flow::State*> loop_visited(visited);
             loop_visited.erase(current);
@@ -264,6 +272,13 @@ void StructuredSDFGBuilder::structure_region(
                 sdfg, loop.root(), current, exit_state, continues, exit_edges, pdom_tree, loop_visited, true
             );
             this->current_traverse_loop_ = last_loop_;
+            this->current_traverse_header_ = last_header_;
+
+            // Leaving this loop also leaves the enclosing loop
+            if (std::ranges::any_of(exit_edges, [&](const auto* edge) { return breaks.contains(edge); })) {
+                this->add_break(scope, {}, dbg_info);
+                break;
+            }
 
             current = exit_state;
             continue;
@@ -305,7 +320,7 @@ void StructuredSDFGBuilder::structure_region(
             }
 
             if (continues.find(&oedge) != continues.end()) {
-                if (this->current_traverse_loop_ == nullptr) {
+                if (this->current_traverse_loop_ == nullptr || &oedge.dst() != this->current_traverse_header_) {
                     throw UnstructuredControlFlowException();
                 }
                 this->add_continue(scope, {}, oedge.debug_info());
@@ -357,7 +372,7 @@ void StructuredSDFGBuilder::structure_region(
                     this->add_block(branch, out_edge.assignments(), out_edge.debug_info());
                 }
                 if (continues.find(&out_edge) != continues.end()) {
-                    if (this->current_traverse_loop_ == nullptr) {
+                    if (this->current_traverse_loop_ == nullptr || &out_edge.dst() != this->current_traverse_header_) {
                         throw UnstructuredControlFlowException();
                     }
                     this->add_continue(branch, {}, out_edge.debug_info());
-- 
2.43.0


From b966a2321f6193d5362fc4406a95b7a08b629850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:04 +0000
Subject: [PATCH 69/72] fix: breaks and continues reach the exit of their loop
 in the users graph

A break or a continue only had an edge to the statements after it in the
branch, so definitions that leave an iteration through it were considered
overwritten by what follows. The back edge of a for loop leads to all of
its condition.
---
 sdfg/include/sdfg/analysis/users.h |  5 ++++
 sdfg/src/analysis/users.cpp        | 46 ++++++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/users.h b/sdfg/include/sdfg/analysis/users.h
index a9bf5fd..c35aeef 100644
--- a/sdfg/include/sdfg/analysis/users.h
+++ b/sdfg/include/sdfg/analysis/users.h
@@ -99,6 +99,9 @@ private:
     std::unordered_map<const structured_control_flow::ControlFlowNode*, User*> entries_;
     std::unordered_map<const structured_control_flow::ControlFlowNode*, User*> exits_;
 
+    // Exits of the loops around the node being traversed
+    std::vector<graph::Vertex> loop_exits_;
+
     struct UserProps {
         std::string container;
         Element* element;
@@ -218,6 +221,8 @@ private:
 
     std::unordered_set<User*> sub_users_;
 
+    bool leaves(const User& current, const User& next) const;
+
 public:
     UsersView(Users& users, const structured_control_flow::ControlFlowNode& node);
 
diff --git a/sdfg/src/analysis/users.cpp b/sdfg/src/analysis/users.cpp
index 558c533..2d20a82 100644
--- a/sdfg/src/analysis/users.cpp
+++ b/sdfg/src/analysis/users.cpp
@@ -310,13 +310,15 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
         this->users_.insert({s, std::make_unique<User>(s, "", loop_stmt, Use::NOP)});
         this->entries_.insert({loop_stmt, this->users_.at(s).get()});
 
-        auto subgraph = this->traverse(loop_stmt->root());
-
         // NOP
         auto t = boost::add_vertex(this->graph_);
         this->users_.insert({t, std::make_unique<User>(t, "", loop_stmt, Use::NOP)});
         this->exits_.insert({loop_stmt, this->users_.at(t).get()});
 
+        this->loop_exits_.push_back(t);
+        auto subgraph = this->traverse(loop_stmt->root());
+        this->loop_exits_.pop_back();
+
         boost::add_edge(s, subgraph.first, this->graph_);
         if (subgraph.second != boost::graph_traits<graph::Graph>::null_vertex()) {
             boost::add_edge(subgraph.second, t, this->graph_);
@@ -356,6 +358,7 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
         last = v;
 
         // Condition
+        auto header = boost::graph_traits<graph::Graph>::null_vertex();
         for (auto atom : symbolic::atoms(for_stmt->condition())) {
             auto v = boost::add_vertex(this->graph_);
             this->add_user(std::make_unique<ForUser>(v, atom->get_name(), for_stmt, Use::READ, false, true, false));
@@ -363,10 +366,18 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
             boost::add_edge(last, v, this->graph_);
             boost::add_edge(v, t, this->graph_);
             last = v;
+            if (header == boost::graph_traits<graph::Graph>::null_vertex()) {
+                header = v;
+            }
         }
 
+        this->loop_exits_.push_back(t);
         auto subgraph = this->traverse(for_stmt->root());
+        this->loop_exits_.pop_back();
         boost::add_edge(last, subgraph.first, this->graph_);
+        if (header == boost::graph_traits<graph::Graph>::null_vertex()) {
+            header = subgraph.first;
+        }
 
         // Update
         auto end = subgraph.second;
@@ -391,22 +402,28 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
         }
 
         // Back edge
-        boost::add_edge(t, last, this->graph_);
+        boost::add_edge(t, header, this->graph_);
 
         return {s, t};
     } else if (auto cont_stmt = dynamic_cast<structured_control_flow::Continue*>(&node)) {
-        // Approximated by general back edge in loop scope
+        // Skips the rest of the iteration: the exit of the loop has the general back edge
         auto v = boost::add_vertex(this->graph_);
         this->users_.insert({v, std::make_unique<User>(v, "", cont_stmt, Use::NOP)});
         this->entries_.insert({cont_stmt, this->users_.at(v).get()});
         this->exits_.insert({cont_stmt, this->users_.at(v).get()});
+        if (!this->loop_exits_.empty()) {
+            boost::add_edge(v, this->loop_exits_.back(), this->graph_);
+        }
         return {v, v};
     } else if (auto br_stmt = dynamic_cast<structured_control_flow::Break*>(&node)) {
-        // Approximated by general back edge in loop scope
+        // Skips the rest of the iteration: the exit of the loop has the general back edge
         auto v = boost::add_vertex(this->graph_);
         this->users_.insert({v, std::make_unique<User>(v, "", br_stmt, Use::NOP)});
         this->entries_.insert({br_stmt, this->users_.at(v).get()});
         this->exits_.insert({br_stmt, this->users_.at(v).get()});
+        if (!this->loop_exits_.empty()) {
+            boost::add_edge(v, this->loop_exits_.back(), this->graph_);
+        }
         return {v, v};
     } else if (auto ret_stmt = dynamic_cast<structured_control_flow::Return*>(&node)) {
         if (!ret_stmt->is_data() || ret_stmt->data().empty()) {
@@ -445,6 +462,7 @@ void Users::run(analysis::AnalysisManager& analysis_manager) {
     this->entries_.clear();
     this->exits_.clear();
     this->users_lookup_.clear();
+    this->loop_exits_.clear();
 
     reads_.clear();
     writes_.clear();
@@ -768,6 +786,15 @@ UsersView::UsersView(Users& users, const structured_control_flow::ControlFlowNod
     }
 };
 
+bool UsersView::leaves(const User& current, const User& next) const {
+    // Breaks and continues of loops around the view
+    if (!dynamic_cast<const structured_control_flow::Break*>(current.element_) &&
+        !dynamic_cast<const structured_control_flow::Continue*>(current.element_)) {
+        return false;
+    }
+    return this->sub_users_.find(const_cast<User*>(&next)) == this->sub_users_.end();
+};
+
 std::vector<User*> UsersView::uses() const {
     std::vector<User*> us;
     for (auto& user : this->sub_users_) {
@@ -936,6 +963,9 @@ std::unordered_set<User*> UsersView::all_uses_between(User& user1, User& user2)
         auto edges = std::ranges::subrange(eb, ee);
         for (auto edge : edges) {
             auto v = boost::target(edge, this->users_.graph_);
+            if (this->leaves(*current, *this->users_.users_.at(v))) {
+                continue;
+            }
             queue.push_back(this->users_.users_.at(v).get());
         }
     }
@@ -970,6 +1000,9 @@ std::unordered_set<User*> UsersView::all_uses_after(User& user) {
         auto edges = std::ranges::subrange(eb, ee);
         for (auto edge : edges) {
             auto v = boost::target(edge, this->users_.graph_);
+            if (this->leaves(*current, *this->users_.users_.at(v))) {
+                continue;
+            }
             queue.push_back(this->users_.users_.at(v).get());
         }
     }
@@ -1069,6 +1102,9 @@ const std::vector<std::string> UsersView::all_containers_in_order() {
         auto edges = std::ranges::subrange(eb, ee);
         for (auto edge : edges) {
             auto v = boost::target(edge, this->users_.graph_);
+            if (this->leaves(*current, *this->users_.users_.at(v))) {
+                continue;
+            }
             queue.push_back(this->users_.users_.at(v).get());
         }
     }
-- 
2.43.0


From 5955816c29eca05f2c522a23a3cf6b1e39d32fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:04 +0000
Subject: [PATCH 70/72] fix: definitions that do not certainly happen do not
 close others

Within a block, in the branches of a complete if-else and after a break or
a continue, the data dependency analysis dropped definitions that still
reach later reads; writes of an iteration that returns were not considered
for loop-carried dependencies.
---
 .../sdfg/analysis/data_dependency_analysis.h  |   7 +
 .../src/analysis/data_dependency_analysis.cpp | 121 ++++++++++++++----
 2 files changed, 103 insertions(+), 25 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/data_dependency_analysis.h b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
index 1d1122c..a52402e 100644
--- a/sdfg/include/sdfg/analysis/data_dependency_analysis.h
+++ b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
@@ -44,6 +44,13 @@ private:
 
     std::list<std::unique_ptr<User>> undefined_users_;
 
+    // Definitions that are closed by a return
+    std::unordered_set<User*> returned_definitions_;
+
+    // Number of loops around the visited node and of breaks and continues visited in them
+    size_t loop_depth_ = 0;
+    size_t loop_jumps_ = 0;
+
     bool loop_depends(
         User& previous,
         User& current,
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index ed47afc..02d6120 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -31,6 +31,9 @@ DataDependencyAnalysis::DataDependencyAnalysis(StructuredSDFG& sdfg, structured_
 void DataDependencyAnalysis::run(analysis::AnalysisManager& analysis_manager) {
     results_.clear();
     undefined_users_.clear();
+    returned_definitions_.clear();
+    loop_depth_ = 0;
+    loop_jumps_ = 0;
     loop_carried_dependencies_.clear();
 
     std::unordered_set<User*> undefined;
@@ -87,7 +90,7 @@ void DataDependencyAnalysis::visit_block(
                         // Close open definitions if possible
                         std::unordered_map<User*, std::unordered_set<User*>> to_close;
                         for (auto& user : open_definitions) {
-                            if (this->closes(analysis_manager, *user.first, *current_user, false)) {
+                            if (this->closes(analysis_manager, *user.first, *current_user, true)) {
                                 to_close.insert(user);
                             }
                         }
@@ -201,7 +204,11 @@ void DataDependencyAnalysis::visit_for(
     std::unordered_set<User*> undefined_for;
 
     // Add assumptions for body
+    loop_depth_++;
     visit_sequence(analysis_manager, for_loop.root(), undefined_for, open_definitions_for, closed_definitions_for);
+    if (--loop_depth_ == 0) {
+        loop_jumps_ = 0;
+    }
 
     // Update - Read
     for (auto atom : symbolic::atoms(for_loop.update())) {
@@ -238,6 +245,14 @@ void DataDependencyAnalysis::visit_for(
         open_definitions.erase(user);
     }
 
+    // An iteration that returns may still write what previous iterations accessed
+    std::unordered_set<User*> returned_for;
+    for (auto& entry : closed_definitions_for) {
+        if (this->returned_definitions_.contains(entry.first)) {
+            returned_for.insert(entry.first);
+        }
+    }
+
     // Add loop-carried dependencies
     auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
     bool is_monotonic = LoopAnalysis::is_monotonic(&for_loop, assumptions_analysis);
@@ -257,6 +272,11 @@ void DataDependencyAnalysis::visit_for(
                     write.second.insert(read);
                 }
             }
+            for (auto& write : returned_for) {
+                if (loop_depends(*write, *read, analysis_manager, for_loop)) {
+                    dependencies[read->container()] = LOOP_CARRIED_DEPENDENCY_READ_WRITE;
+                }
+            }
         }
 
         // Case 2: Write-Write between iterations
@@ -264,6 +284,12 @@ void DataDependencyAnalysis::visit_for(
             if (dependencies.find(write.first->container()) != dependencies.end()) {
                 continue;
             }
+            for (auto& write_2 : returned_for) {
+                if (loop_depends(*write.first, *write_2, analysis_manager, for_loop)) {
+                    dependencies.insert({write.first->container(), LOOP_CARRIED_DEPENDENCY_WRITE_WRITE});
+                    break;
+                }
+            }
             for (auto& write_2 : open_definitions_for) {
                 if (loop_depends(*write.first, *write_2.first, analysis_manager, for_loop)) {
                     dependencies.insert({write.first->container(), LOOP_CARRIED_DEPENDENCY_WRITE_WRITE});
@@ -286,6 +312,11 @@ void DataDependencyAnalysis::visit_for(
                     dependencies.insert({read->container(), LOOP_CARRIED_DEPENDENCY_READ_WRITE});
                 }
             }
+            for (auto& write : returned_for) {
+                if (this->depends(analysis_manager, *write, *read)) {
+                    dependencies.insert({read->container(), LOOP_CARRIED_DEPENDENCY_READ_WRITE});
+                }
+            }
         }
         // Add loop-carried dependencies for writes
         for (auto& write : open_definitions_for) {
@@ -351,42 +382,69 @@ void DataDependencyAnalysis::visit_if_else(
     // Close open reads_after_writes for complete branches
     if (if_else.is_complete()) {
         std::unordered_map<User*, std::unordered_set<User*>> to_close;
-        std::unordered_set<std::string> candidates;
-        std::unordered_set<std::string> candidates_tmp;
-
-        /* Complete close open reads_after_writes
-        1. get candidates from first iteration
-        2. iterate over all branches and prune candidates
-        3. find prior writes for remaining candidates
-        4. close open reads_after_writes for all candidates
-        */
-        for (auto& entry : open_definitions_branches.at(0)) {
-            candidates.insert(entry.first->container());
-        }
-        for (auto& entry : closed_definitionss_branches.at(0)) {
-            candidates.insert(entry.first->container());
-        }
 
-        for (size_t i = 1; i < if_else.size(); i++) {
+        // Determine the containers that a branch certainly defines
+        auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
+        auto if_else_ancestors = scope_analysis.ancestor_scopes(&if_else);
+        auto defines = [&](size_t i, const std::string& container) {
+            // Nothing continues after a return
+            auto& branch = if_else.at(i).first;
+            if (loop_jumps_ == 0 && branch.size() > 0 && dynamic_cast<structured_control_flow::Return*>(&branch.at(branch.size() - 1).first)) {
+                return true;
+            }
+            bool defined = false;
             for (auto& entry : open_definitions_branches.at(i)) {
-                if (candidates.find(entry.first->container()) != candidates.end()) {
-                    candidates_tmp.insert(entry.first->container());
+                if (entry.first->container() != container) {
+                    continue;
+                }
+                if (this->is_undefined_user(*entry.first)) {
+                    return false;
+                }
+                // Loops in the branch may have no iterations
+                bool in_loop = false;
+                for (auto scope : scope_analysis.ancestor_scopes(Users::scope(entry.first))) {
+                    if ((dynamic_cast<structured_control_flow::StructuredLoop*>(scope) ||
+                         dynamic_cast<structured_control_flow::While*>(scope)) &&
+                        std::find(if_else_ancestors.begin(), if_else_ancestors.end(), scope) == if_else_ancestors.end()) {
+                        in_loop = true;
+                    }
                 }
+                defined |= !in_loop;
+            }
+            return defined;
+        };
+        std::unordered_set<std::string> candidates;
+        std::unordered_set<std::string> partial;
+        for (auto& branch : open_definitions_branches) {
+            for (auto& entry : branch) {
+                // Writing some elements in every branch does not overwrite the whole container
+                auto& container = entry.first->container();
+                if (this->sdfg_.type(container).type_id() != types::TypeID::Scalar || candidates.contains(container) ||
+                    partial.contains(container)) {
+                    continue;
+                }
+                bool all = true;
+                for (size_t i = 0; i < if_else.size() && all; i++) {
+                    all = defines(i, container);
+                }
+                (all ? candidates : partial).insert(container);
             }
-            candidates.swap(candidates_tmp);
-            candidates_tmp.clear();
         }
 
         for (auto& entry : open_definitions) {
-            // Writing some elements in every branch does not overwrite the whole container
-            if (this->sdfg_.type(entry.first->container()).type_id() != types::TypeID::Scalar) {
-                continue;
-            }
             if (candidates.find(entry.first->container()) != candidates.end()) {
                 to_close.insert(entry);
             }
         }
 
+        // As for incomplete if-elses
+        for (auto& container : partial) {
+            auto artificial_user = std::make_unique<
+                User>(boost::graph_traits<graph::Graph>::null_vertex(), container, nullptr, Use::WRITE);
+            this->undefined_users_.push_back(std::move(artificial_user));
+            open_definitions.insert({this->undefined_users_.back().get(), {}});
+        }
+
         for (auto& entry : to_close) {
             open_definitions.erase(entry.first);
             closed_definitions.insert(entry);
@@ -433,7 +491,11 @@ void DataDependencyAnalysis::visit_while(
     std::unordered_map<User*, std::unordered_set<User*>> closed_definitions_while;
     std::unordered_set<User*> undefined_while;
 
+    loop_depth_++;
     visit_sequence(analysis_manager, while_loop.root(), undefined_while, open_definitions_while, closed_definitions_while);
+    if (--loop_depth_ == 0) {
+        loop_jumps_ = 0;
+    }
 
     // Scope-local closed definitions
     for (auto& entry : closed_definitions_while) {
@@ -482,9 +544,15 @@ void DataDependencyAnalysis::visit_return(
         }
     }
 
+    if (loop_jumps_ > 0) {
+        // Open definitions may also leave the iteration through a break or a continue
+        return;
+    }
+
     // close all open reads_after_writes
     for (auto& entry : open_definitions) {
         closed_definitions.insert(entry);
+        returned_definitions_.insert(entry.first);
     }
     open_definitions.clear();
 }
@@ -512,6 +580,9 @@ void DataDependencyAnalysis::visit_sequence(
             visit_return(analysis_manager, *return_statement, undefined, open_definitions, closed_definitions);
             // Everything after is unreachable
             break;
+        } else if (dynamic_cast<structured_control_flow::Break*>(&child.first) ||
+                   dynamic_cast<structured_control_flow::Continue*>(&child.first)) {
+            loop_jumps_++;
         } else if (auto sequence = dynamic_cast<structured_control_flow::Sequence*>(&child.first)) {
             visit_sequence(analysis_manager, *sequence, undefined, open_definitions, closed_definitions);
         }
-- 
2.43.0


From 2510bb6bbc5fbd7597345b5757420015e69a7ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:12 +0000
Subject: [PATCH 71/72] fix: transformations replay as recorded

Recorded loop skewings and map fusions could not be replayed, the setting
for dynamic sizes of a CUDA transformation was not saved, descriptions of
an element of another kind were dereferenced as a null pointer, and Polly
and offloading left outdated analyses behind.
---
 opt/src/transformations/offloading/cuda_transform.cpp  | 10 ++++++++--
 .../offloading/gpu_condition_propagation.cpp           |  5 +++++
 opt/src/transformations/offloading/gpu_tiling.cpp      |  5 +++++
 .../offloading/kernel_local_storage.cpp                |  5 +++++
 .../transformations/offloading/offload_transform.cpp   |  2 ++
 opt/src/transformations/polly_transform.cpp            |  6 ++++++
 sdfg/src/transformations/loop_tiling.cpp               |  5 +++++
 sdfg/src/transformations/out_local_storage.cpp         |  5 +++++
 sdfg/src/transformations/replayer.cpp                  |  6 ++++++
 9 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/opt/src/transformations/offloading/cuda_transform.cpp b/opt/src/transformations/offloading/cuda_transform.cpp
index 3871cac..bc965e9 100644
--- a/opt/src/transformations/offloading/cuda_transform.cpp
+++ b/opt/src/transformations/offloading/cuda_transform.cpp
@@ -206,20 +206,26 @@ void CUDATransform::to_json(nlohmann::json& j) const {
 
     j["transformation_type"] = this->name();
     j["subgraph"] = {{"0", {{"element_id", this->map_.element_id()}, {"type", loop_type}}}};
-    j["parameters"] = {{"block_size", block_size_}};
+    j["parameters"] = {{"block_size", block_size_}, {"allow_dynamic_sizes", allow_dynamic_sizes_}};
 };
 
 CUDATransform CUDATransform::from_json(builder::StructuredSDFGBuilder& builder, const nlohmann::json& desc) {
     auto loop_id = desc["subgraph"]["0"]["element_id"].get<size_t>();
     size_t block_size = desc["parameters"]["block_size"].get<size_t>();
+    bool allow_dynamic_sizes = desc["parameters"].value("allow_dynamic_sizes", false);
     auto element = builder.find_element_by_id(loop_id);
     if (!element) {
         throw transformations::
             InvalidTransformationDescriptionException("Element with ID " + std::to_string(loop_id) + " not found.");
     }
     auto map = dynamic_cast<structured_control_flow::Map*>(element);
+    if (!map) {
+        throw transformations::InvalidTransformationDescriptionException(
+            "Element with ID " + std::to_string(loop_id) + " is not a Map."
+        );
+    }
 
-    return CUDATransform(*map, block_size);
+    return CUDATransform(*map, block_size, allow_dynamic_sizes);
 };
 
 
diff --git a/opt/src/transformations/offloading/gpu_condition_propagation.cpp b/opt/src/transformations/offloading/gpu_condition_propagation.cpp
index 248f6da..2825542 100644
--- a/opt/src/transformations/offloading/gpu_condition_propagation.cpp
+++ b/opt/src/transformations/offloading/gpu_condition_propagation.cpp
@@ -144,6 +144,11 @@ GPUConditionPropagation GPUConditionPropagation::
         throw InvalidTransformationDescriptionException("Element with ID " + std::to_string(map_id) + " not found.");
     }
     auto map = dynamic_cast<structured_control_flow::Map*>(element);
+    if (!map) {
+        throw InvalidTransformationDescriptionException(
+            "Element with ID " + std::to_string(map_id) + " is not a Map."
+        );
+    }
 
     return GPUConditionPropagation(*map);
 }
diff --git a/opt/src/transformations/offloading/gpu_tiling.cpp b/opt/src/transformations/offloading/gpu_tiling.cpp
index d232228..db72129 100644
--- a/opt/src/transformations/offloading/gpu_tiling.cpp
+++ b/opt/src/transformations/offloading/gpu_tiling.cpp
@@ -162,6 +162,11 @@ GPUTiling GPUTiling::from_json(builder::StructuredSDFGBuilder& builder, const nl
         throw InvalidTransformationDescriptionException("Element with ID " + std::to_string(loop_id) + " not found.");
     }
     auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(element);
+    if (!loop) {
+        throw InvalidTransformationDescriptionException(
+            "Element with ID " + std::to_string(loop_id) + " is not a StructuredLoop."
+        );
+    }
 
     size_t size;
     if (j.contains("parameters") && j.at("parameters").contains("size")) {
diff --git a/opt/src/transformations/offloading/kernel_local_storage.cpp b/opt/src/transformations/offloading/kernel_local_storage.cpp
index c0ca601..6ded22a 100644
--- a/opt/src/transformations/offloading/kernel_local_storage.cpp
+++ b/opt/src/transformations/offloading/kernel_local_storage.cpp
@@ -584,6 +584,11 @@ KernelLocalStorage KernelLocalStorage::from_json(builder::StructuredSDFGBuilder&
         throw InvalidTransformationDescriptionException("Element with ID " + std::to_string(loop_id) + " not found.");
     }
     auto outer_loop = dynamic_cast<structured_control_flow::For*>(element);
+    if (!outer_loop) {
+        throw InvalidTransformationDescriptionException(
+            "Element with ID " + std::to_string(loop_id) + " is not a For loop."
+        );
+    }
 
     nlohmann::json offset_json;
     std::string container;
diff --git a/opt/src/transformations/offloading/offload_transform.cpp b/opt/src/transformations/offloading/offload_transform.cpp
index 4866eab..2a17f7b 100644
--- a/opt/src/transformations/offloading/offload_transform.cpp
+++ b/opt/src/transformations/offloading/offload_transform.cpp
@@ -136,6 +136,8 @@ void OffloadTransform::apply(builder::StructuredSDFGBuilder& builder, analysis::
         }
     }
 
+    analysis_manager.invalidate_all();
+
     if (report_) report_->transform_applied(this);
 }
 
diff --git a/opt/src/transformations/polly_transform.cpp b/opt/src/transformations/polly_transform.cpp
index d394a2e..52f3cdd 100644
--- a/opt/src/transformations/polly_transform.cpp
+++ b/opt/src/transformations/polly_transform.cpp
@@ -283,6 +283,7 @@ void PollyTransform::apply(builder::StructuredSDFGBuilder& builder, analysis::An
     auto& sdfg = builder.subject();
     analysis::ScopToSDFG converter(*scop_, *dependences_, builder);
     converter.build(analysis_manager);
+    analysis_manager.invalidate_all();
 
     this->applied_ = true;
     this->dependences_ = nullptr;
@@ -311,6 +312,11 @@ PollyTransform PollyTransform::from_json(builder::StructuredSDFGBuilder& builder
         throw InvalidTransformationDescriptionException("Element with ID " + std::to_string(loop_id) + " not found.");
     }
     auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(element);
+    if (!loop) {
+        throw InvalidTransformationDescriptionException(
+            "Element with ID " + std::to_string(loop_id) + " is not a StructuredLoop."
+        );
+    }
     bool tile = desc["parameters"]["tile"].get<bool>();
 
     return PollyTransform(*loop, tile);
diff --git a/sdfg/src/transformations/loop_tiling.cpp b/sdfg/src/transformations/loop_tiling.cpp
index dbe0fdb..bb05bad 100644
--- a/sdfg/src/transformations/loop_tiling.cpp
+++ b/sdfg/src/transformations/loop_tiling.cpp
@@ -124,6 +124,11 @@ LoopTiling LoopTiling::from_json(builder::StructuredSDFGBuilder& builder, const
         throw InvalidTransformationDescriptionException("Element with ID " + std::to_string(loop_id) + " not found.");
     }
     auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(element);
+    if (!loop) {
+        throw InvalidTransformationDescriptionException(
+            "Element with ID " + std::to_string(loop_id) + " is not a StructuredLoop."
+        );
+    }
 
     return LoopTiling(*loop, tile_size);
 };
diff --git a/sdfg/src/transformations/out_local_storage.cpp b/sdfg/src/transformations/out_local_storage.cpp
index 59596a7..4ff39fe 100644
--- a/sdfg/src/transformations/out_local_storage.cpp
+++ b/sdfg/src/transformations/out_local_storage.cpp
@@ -298,6 +298,11 @@ OutLocalStorage OutLocalStorage::from_json(builder::StructuredSDFGBuilder& build
         throw InvalidTransformationDescriptionException("Element with ID " + std::to_string(loop_id) + " not found.");
     }
     auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(element);
+    if (!loop) {
+        throw InvalidTransformationDescriptionException(
+            "Element with ID " + std::to_string(loop_id) + " is not a StructuredLoop."
+        );
+    }
 
     return OutLocalStorage(*loop, container);
 };
diff --git a/sdfg/src/transformations/replayer.cpp b/sdfg/src/transformations/replayer.cpp
index 0f0ef3d..f86c4a4 100644
--- a/sdfg/src/transformations/replayer.cpp
+++ b/sdfg/src/transformations/replayer.cpp
@@ -1,6 +1,8 @@
 #include <sdfg/transformations/loop_distribute.h>
 #include <sdfg/transformations/loop_interchange.h>
+#include <sdfg/transformations/loop_skewing.h>
 #include <sdfg/transformations/loop_tiling.h>
+#include <sdfg/transformations/map_fusion.h>
 #include <sdfg/transformations/out_local_storage.h>
 #include <sdfg/transformations/replayer.h>
 
@@ -29,6 +31,10 @@ void Replayer::replay(
             this->apply<transformations::LoopInterchange>(builder, analysis_manager, desc, skip_if_not_applicable);
         } else if (transformation_name == "OutLocalStorage") {
             this->apply<transformations::OutLocalStorage>(builder, analysis_manager, desc, skip_if_not_applicable);
+        } else if (transformation_name == "LoopSkewing") {
+            this->apply<transformations::LoopSkewing>(builder, analysis_manager, desc, skip_if_not_applicable);
+        } else if (transformation_name == "MapFusion") {
+            this->apply<transformations::MapFusion>(builder, analysis_manager, desc, skip_if_not_applicable);
         } else {
             throw transformations::InvalidTransformationDescriptionException(
                 "Unknown transformation: " + transformation_name.get<std::string>()
-- 
2.43.0


From 10b8eab0823398e3d2fe15e8913b8718e6bce026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:22 +0000
Subject: [PATCH 72/72] fix: Polly keeps the order of statements, the
 transition and the bounds

---
 opt/include/sdfg/analysis/scop_analysis.h   |  34 +-
 opt/src/analysis/scop_analysis.cpp          | 341 +++++++++++++++-----
 opt/src/transformations/polly_transform.cpp |  23 ++
 3 files changed, 312 insertions(+), 86 deletions(-)

diff --git a/opt/include/sdfg/analysis/scop_analysis.h b/opt/include/sdfg/analysis/scop_analysis.h
index 672a978..9ab97ce 100644
--- a/opt/include/sdfg/analysis/scop_analysis.h
+++ b/opt/include/sdfg/analysis/scop_analysis.h
@@ -93,6 +93,9 @@ private:
 
     symbolic::SymbolVec iterators_;
 
+    // Path to the statement: LOOP for each loop, index for each sequence
+    std::vector<int> position_;
+
     std::vector<std::unique_ptr<MemoryAccess>> memory_accesses_;
 
     data_flow::CodeNode* code_node_;
@@ -136,6 +139,12 @@ public:
 
     const symbolic::SymbolVec& iterators() const { return iterators_; }
 
+    static constexpr int LOOP = -1;
+
+    void push_position(int position) { position_.insert(position_.begin(), position); }
+
+    const std::vector<int>& position() const { return position_; }
+
     isl_map* schedule() const { return schedule_; }
 
     void set_schedule(isl_map* schedule) {
@@ -206,6 +215,8 @@ private:
 
     std::vector<std::unique_ptr<ScopStatement>> statements_;
 
+    isl_schedule* schedule_tree(const std::vector<ScopStatement*>& statements, size_t level, unsigned dim);
+
 public:
     Scop(structured_control_flow::ControlFlowNode& node, isl_ctx* ctx, isl_space* param_space);
 
@@ -283,6 +294,22 @@ private:
 
     std::unordered_map<std::string, std::string> parameter_constraints_;
 
+    std::unordered_set<std::string> variants_;
+
+    // Containers written inside the node
+    void collect_variants(structured_control_flow::ControlFlowNode& node);
+
+    bool is_variant(const symbolic::Symbol& symbol) const;
+
+    bool insert_symbol_reads(
+        analysis::AnalysisManager& analysis_manager,
+        structured_control_flow::ControlFlowNode& node,
+        ScopStatement& statement,
+        const symbolic::MultiExpression& subset
+    );
+
+    void add_parameter(const symbolic::Symbol& symbol);
+
     std::string generate_subset(
         analysis::AnalysisManager& analysis_manager,
         structured_control_flow::ControlFlowNode& node,
@@ -409,6 +436,7 @@ private:
     const Dependences& dependences_;
     builder::StructuredSDFGBuilder& builder_;
     std::unordered_map<std::string, ScopStatement*> stmt_map_;
+    std::unordered_map<std::string, symbolic::Symbol> iterators_;
 
     // AST Traversal
     void visit_node(struct isl_ast_node* node, structured_control_flow::Sequence& scope);
@@ -424,9 +452,11 @@ private:
     void visit_user(struct isl_ast_node* node, structured_control_flow::Sequence& scope);
 
     // Helpers
-    symbolic::Expression convert_expr(struct isl_ast_expr* expr);
+    void add_selection(const symbolic::Symbol& symbol, struct isl_ast_expr* expr, structured_control_flow::Sequence& scope);
+
+    symbolic::Expression convert_expr(struct isl_ast_expr* expr, structured_control_flow::Sequence& scope);
 
-    symbolic::Condition convert_cond(struct isl_ast_expr* expr);
+    symbolic::Condition convert_cond(struct isl_ast_expr* expr, structured_control_flow::Sequence& scope);
 
 public:
     ScopToSDFG(Scop& scop, const Dependences& dependences, builder::StructuredSDFGBuilder& builder);
diff --git a/opt/src/analysis/scop_analysis.cpp b/opt/src/analysis/scop_analysis.cpp
index 44bd371..86035cb 100644
--- a/opt/src/analysis/scop_analysis.cpp
+++ b/opt/src/analysis/scop_analysis.cpp
@@ -72,55 +72,50 @@ isl_schedule *Scop::schedule_tree() {
     }
 
     // Construct default schedule from statements
-    isl_space *empty_space = isl_space_params_alloc(this->ctx_, 0);
-    isl_union_map *sched_map = isl_union_map_empty(empty_space);
-    for (auto &stmt : this->statements_) {
-        sched_map = isl_union_map_add_map(sched_map, isl_map_copy(stmt->schedule()));
+    isl_schedule *sched;
+    if (this->statements_.empty()) {
+        sched = isl_schedule_from_domain(domains());
+    } else {
+        sched = this->schedule_tree(this->statements(), 0, 0);
     }
 
-    isl_schedule *sched = isl_schedule_from_domain(domains());
-    if (!isl_union_map_is_empty(sched_map)) {
-        // Ensure consistent dimensionality
-        isl_map_list *map_list = isl_union_map_get_map_list(sched_map);
-        int n_maps = isl_map_list_n_map(map_list);
-        int max_dim = 0;
+    this->schedule_tree_ = sched;
+    this->schedule_ = isl_schedule_get_map(this->schedule_tree_);
 
-        for (int i = 0; i < n_maps; ++i) {
-            isl_map *map = isl_map_list_get_map(map_list, i);
-            int dim = isl_map_dim(map, isl_dim_out);
-            if (dim > max_dim) {
-                max_dim = dim;
-            }
-            isl_map_free(map);
-        }
+    return this->schedule_tree_;
+}
 
-        isl_union_map *padded_map = isl_union_map_empty(isl_union_map_get_space(sched_map));
-        for (int i = 0; i < n_maps; ++i) {
-            isl_map *map = isl_map_list_get_map(map_list, i);
-            int dim = isl_map_dim(map, isl_dim_out);
-            if (dim < max_dim) {
-                map = isl_map_add_dims(map, isl_dim_out, max_dim - dim);
-                for (int j = dim; j < max_dim; ++j) {
-                    map = isl_map_fix_si(map, isl_dim_out, j, 0);
-                }
-            }
-            padded_map = isl_union_map_add_map(padded_map, map);
-        }
-        isl_map_list_free(map_list);
-        isl_union_map_free(sched_map);
-        sched_map = padded_map;
+isl_schedule *Scop::schedule_tree(const std::vector<ScopStatement *> &statements, size_t level, unsigned dim) {
+    if (level == statements.front()->position().size()) {
+        return isl_schedule_from_domain(isl_union_set_from_set(isl_set_copy(statements.front()->domain())));
+    }
 
+    if (statements.front()->position().at(level) == ScopStatement::LOOP) {
+        isl_union_map *sched_map = isl_union_map_empty(isl_space_params_alloc(this->ctx_, 0));
+        for (auto stmt : statements) {
+            isl_map *map = isl_map_copy(stmt->schedule());
+            unsigned n_dims = isl_map_dim(map, isl_dim_out);
+            map = isl_map_project_out(map, isl_dim_out, dim + 1, n_dims - dim - 1);
+            map = isl_map_project_out(map, isl_dim_out, 0, dim);
+            sched_map = isl_union_map_add_map(sched_map, map);
+        }
         isl_union_pw_multi_aff *upma = isl_union_pw_multi_aff_from_union_map(sched_map);
         isl_multi_union_pw_aff *mupa = isl_multi_union_pw_aff_from_union_pw_multi_aff(upma);
-        sched = isl_schedule_insert_partial_schedule(sched, mupa);
-    } else {
-        isl_union_map_free(sched_map);
+        return isl_schedule_insert_partial_schedule(schedule_tree(statements, level + 1, dim + 1), mupa);
     }
 
-    this->schedule_tree_ = sched;
-    this->schedule_ = isl_schedule_get_map(this->schedule_tree_);
-
-    return this->schedule_tree_;
+    // The statements of a sequence execute in order
+    isl_schedule *sched = nullptr;
+    for (size_t i = 0; i < statements.size();) {
+        std::vector<ScopStatement *> group;
+        int position = statements.at(i)->position().at(level);
+        for (; i < statements.size() && statements.at(i)->position().at(level) == position; ++i) {
+            group.push_back(statements.at(i));
+        }
+        isl_schedule *group_sched = schedule_tree(group, level + 1, dim);
+        sched = sched ? isl_schedule_sequence(sched, group_sched) : group_sched;
+    }
+    return sched;
 }
 
 void Scop::set_schedule_tree(isl_schedule *schedule) {
@@ -156,11 +151,19 @@ std::unique_ptr<Scop> ScopBuilder::build(analysis::AnalysisManager &analysis_man
     isl_space *param_space = isl_space_set_alloc(ctx, 0, 0);
     this->scop_ = std::make_unique<Scop>(this->node_, ctx, param_space);
 
+    this->collect_variants(node_);
     this->visit(analysis_manager, node_);
     if (this->scop_ == nullptr) {
         return nullptr;
     }
 
+    // Parameters must be constant inside the SCoP
+    for (auto &parameter : this->parameters_) {
+        if (this->variants_.find(parameter) != this->variants_.end()) {
+            return nullptr;
+        }
+    }
+
     return std::move(scop_);
 }
 
@@ -182,11 +185,26 @@ void ScopBuilder::visit(analysis::AnalysisManager &analysis_manager, structured_
 }
 
 void ScopBuilder::visit_sequence(analysis::AnalysisManager &analysis_manager, structured_control_flow::Sequence &sequence) {
+    // The positions in the sequence order the statements
+    int position = 0;
+    size_t ordered = this->scop_->statements().size();
+    auto order_statements = [&](bool is_block) {
+        auto statements = this->scop_->statements();
+        for (; ordered < statements.size(); ++ordered) {
+            statements[ordered]->push_position(position);
+            if (is_block) {
+                position++;
+            }
+        }
+        position++;
+    };
+
     for (size_t i = 0; i < sequence.size(); ++i) {
         this->visit(analysis_manager, sequence.at(i).first);
         if (this->scop_ == nullptr) {
             return;
         }
+        order_statements(dynamic_cast<structured_control_flow::Block *>(&sequence.at(i).first) != nullptr);
 
         auto &transition = sequence.at(i).second;
         size_t j = 0;
@@ -230,6 +248,7 @@ void ScopBuilder::visit_sequence(analysis::AnalysisManager &analysis_manager, st
 
             this->scop_->insert(statement);
         }
+        order_statements(true);
     }
 }
 
@@ -269,6 +288,10 @@ void ScopBuilder::visit_block(analysis::AnalysisManager &analysis_manager, struc
                 isl_relation = isl_map_set_tuple_name(isl_relation, isl_dim_in, statement->name().c_str());
                 auto memory_access = std::make_unique<MemoryAccess>(access_type, isl_relation, data, &iedge);
                 statement->insert(memory_access);
+                if (!this->insert_symbol_reads(analysis_manager, block, *statement, iedge.subset())) {
+                    this->scop_ = nullptr;
+                    return;
+                }
             }
 
             // Add writes
@@ -287,6 +310,10 @@ void ScopBuilder::visit_block(analysis::AnalysisManager &analysis_manager, struc
                 isl_relation = isl_map_set_tuple_name(isl_relation, isl_dim_in, statement->name().c_str());
                 auto memory_access = std::make_unique<MemoryAccess>(access_type, isl_relation, data, &oedge);
                 statement->insert(memory_access);
+                if (!this->insert_symbol_reads(analysis_manager, block, *statement, oedge.subset())) {
+                    this->scop_ = nullptr;
+                    return;
+                }
             }
 
             this->scop_->insert(statement);
@@ -296,8 +323,18 @@ void ScopBuilder::visit_block(analysis::AnalysisManager &analysis_manager, struc
 
 void ScopBuilder::
     visit_structured_loop(analysis::AnalysisManager &analysis_manager, structured_control_flow::StructuredLoop &loop) {
+    // The loop must count up to a bound
+    auto bound = analysis::LoopAnalysis::canonical_bound(&loop, analysis_manager.get<analysis::AssumptionsAnalysis>());
+    if (bound.is_null() || symbolic::uses(bound, loop.indvar())) {
+        this->scop_ = nullptr;
+        return;
+    }
+
     // Add domain for the statements inside the loop
     std::string indvar = loop.indvar()->__str__();
+    for (auto &sym : symbolic::atoms(loop.init())) {
+        this->add_parameter(sym);
+    }
     this->dimensions_.push_back(indvar);
 
     std::string init = loop.init()->__str__();
@@ -317,16 +354,7 @@ void ScopBuilder::
         }
         for (auto &literal : clause) {
             for (auto &sym : symbolic::atoms(literal)) {
-                if (sym->get_name() == indvar) {
-                    continue;
-                }
-                if (this->dimension_constraints_.find(sym->get_name()) != this->dimension_constraints_.end()) {
-                    continue;
-                }
-                if (std::find(this->parameters_.begin(), this->parameters_.end(), sym->get_name()) ==
-                    this->parameters_.end()) {
-                    this->parameters_.push_back(sym->get_name());
-                }
+                this->add_parameter(sym);
             }
 
             std::string literal_str = symbolic::constraint_to_isl_str(literal);
@@ -382,6 +410,7 @@ void ScopBuilder::
     for (size_t i = stmt_start; i < stmts.size(); ++i) {
         ScopStatement *stmt = stmts[i];
         stmt->push_front(loop.indvar());
+        stmt->push_position(ScopStatement::LOOP);
 
         isl_set *domain = isl_set_copy(stmt->domain());
 
@@ -482,11 +511,86 @@ void ScopBuilder::
     this->dimensions_.pop_back();
 }
 
+bool ScopBuilder::insert_symbol_reads(
+    analysis::AnalysisManager &analysis_manager,
+    structured_control_flow::ControlFlowNode &node,
+    ScopStatement &statement,
+    const symbolic::MultiExpression &subset
+) {
+    for (auto &dim : subset) {
+        for (auto &sym : symbolic::atoms(dim)) {
+            if (!this->is_variant(sym)) {
+                continue;
+            }
+            std::string relation = generate_subset(analysis_manager, node, {});
+            isl_map *isl_relation = isl_map_read_from_str(scop_->ctx(), relation.c_str());
+            if (!isl_relation) {
+                return false;
+            }
+            isl_relation = isl_map_set_tuple_name(isl_relation, isl_dim_in, statement.name().c_str());
+            auto memory_access = std::make_unique<MemoryAccess>(AccessType::READ, isl_relation, sym->get_name(), nullptr);
+            statement.insert(memory_access);
+        }
+    }
+    return true;
+}
+
+void ScopBuilder::collect_variants(structured_control_flow::ControlFlowNode &node) {
+    if (auto block = dynamic_cast<structured_control_flow::Block *>(&node)) {
+        for (auto &dataflow_node : block->dataflow().nodes()) {
+            auto access_node = dynamic_cast<data_flow::AccessNode *>(&dataflow_node);
+            if (access_node && block->dataflow().in_degree(*access_node) > 0) {
+                this->variants_.insert(access_node->data());
+            }
+        }
+    } else if (auto sequence = dynamic_cast<structured_control_flow::Sequence *>(&node)) {
+        for (size_t i = 0; i < sequence->size(); ++i) {
+            this->collect_variants(sequence->at(i).first);
+            for (auto &assignment : sequence->at(i).second.assignments()) {
+                this->variants_.insert(assignment.first->get_name());
+            }
+        }
+    } else if (auto loop = dynamic_cast<structured_control_flow::StructuredLoop *>(&node)) {
+        this->variants_.insert(loop->indvar()->get_name());
+        this->collect_variants(loop->root());
+    }
+}
+
+bool ScopBuilder::is_variant(const symbolic::Symbol &symbol) const {
+    return std::find(this->dimensions_.begin(), this->dimensions_.end(), symbol->get_name()) ==
+               this->dimensions_.end() &&
+           this->variants_.find(symbol->get_name()) != this->variants_.end();
+}
+
+void ScopBuilder::add_parameter(const symbolic::Symbol &symbol) {
+    std::string name = symbol->get_name();
+    if (std::find(this->dimensions_.begin(), this->dimensions_.end(), name) == this->dimensions_.end() &&
+        std::find(this->parameters_.begin(), this->parameters_.end(), name) == this->parameters_.end()) {
+        this->parameters_.push_back(name);
+    }
+}
+
 std::string ScopBuilder::generate_subset(
     analysis::AnalysisManager &analysis_manager,
     structured_control_flow::ControlFlowNode &node,
     const symbolic::MultiExpression &subset
 ) {
+    std::vector<bool> unknown;
+    for (auto &dim : subset) {
+        unknown.push_back(false);
+        for (auto &sym : symbolic::atoms(dim)) {
+            if (this->is_variant(sym)) {
+                unknown.back() = true;
+            }
+        }
+        if (unknown.back()) {
+            continue;
+        }
+        for (auto &sym : symbolic::atoms(dim)) {
+            this->add_parameter(sym);
+        }
+    }
+
     std::string relation = "";
     if (!this->parameters_.empty()) {
         relation += "[ " + helpers::join(this->parameters_, ", ") + " ] -> ";
@@ -501,7 +605,12 @@ std::string ScopBuilder::generate_subset(
             if (i > 0) {
                 relation += ", ";
             }
-            relation += subset.at(i)->__str__();
+            if (unknown.at(i)) {
+                // Not a parameter: any element
+                relation += "__daisy_any_" + std::to_string(i);
+            } else {
+                relation += subset.at(i)->__str__();
+            }
         }
     }
     relation += "] }";
@@ -1270,7 +1379,9 @@ structured_control_flow::ControlFlowNode &ScopToSDFG::build(analysis::AnalysisMa
     }
     auto parent_sequence = static_cast<structured_control_flow::Sequence *>(parent_scope);
     int index = parent_sequence->index(scop_.node());
-    auto &target_sequence = builder_.add_sequence_before(*parent_sequence, scop_.node(), {}, scop_.node().debug_info());
+    auto assignments = parent_sequence->at(index).second.assignments();
+    auto &target_sequence =
+        builder_.add_sequence_before(*parent_sequence, scop_.node(), assignments, scop_.node().debug_info());
 
     visit_node(root_node, target_sequence);
     builder_.remove_child(*parent_sequence, index + 1);
@@ -1317,13 +1428,21 @@ void ScopToSDFG::visit_for(isl_ast_node *node, structured_control_flow::Sequence
 
     // Convert to Symbolic
     auto id = isl_ast_expr_get_id(iterator);
-    symbolic::Symbol sym_iter = symbolic::symbol(isl_id_get_name(id));
-    if (!builder_.subject().exists(sym_iter->get_name())) {
-        builder_.add_container(sym_iter->get_name(), types::Scalar(types::PrimitiveType::Int64));
+    std::string iter_name = isl_id_get_name(id);
+    if (iterators_.find(iter_name) == iterators_.end()) {
+        // The statements assign their own iterators: never share a container with them
+        std::string container = builder_.subject().exists(iter_name) ? builder_.find_new_name(iter_name) : iter_name;
+        builder_.add_container(container, types::Scalar(types::PrimitiveType::Int64));
+        iterators_.insert({iter_name, symbolic::symbol(container)});
+    }
+    symbolic::Symbol sym_iter = iterators_.at(iter_name);
+    symbolic::Expression sym_init = convert_expr(init, scope);
+    symbolic::Condition sym_cond = convert_cond(cond, scope);
+    if (isl_ast_node_for_is_degenerate(node)) {
+        // Single iteration: the condition is not available
+        sym_cond = symbolic::Le(sym_iter, sym_init);
     }
-    symbolic::Expression sym_init = convert_expr(init);
-    symbolic::Condition sym_cond = convert_cond(cond);
-    symbolic::Expression step = convert_expr(inc);
+    symbolic::Expression step = convert_expr(inc, scope);
     symbolic::Expression update_expr = symbolic::add(sym_iter, step);
 
     // Create map for parallel loops
@@ -1364,10 +1483,10 @@ void ScopToSDFG::visit_if(isl_ast_node *node, structured_control_flow::Sequence
     isl_ast_node *then_node = isl_ast_node_if_get_then(node);
     isl_ast_node *else_node = isl_ast_node_if_get_else(node);
 
+    symbolic::Condition sym_cond = convert_cond(cond, scope);
     auto &if_stmt = builder_.add_if_else(scope);
 
     // Then Block
-    symbolic::Condition sym_cond = convert_cond(cond);
     auto &then_seq = builder_.add_case(if_stmt, sym_cond);
     visit_node(then_node, then_seq);
 
@@ -1422,22 +1541,15 @@ void ScopToSDFG::visit_user(isl_ast_node *node, structured_control_flow::Sequenc
         if (stmt_map_.count(name)) {
             ScopStatement *stmt = stmt_map_[name];
 
-            // Get args of expr
+            // Add transition mapping stmt->iterator_i = arg_i
             int n_args = isl_ast_expr_get_op_n_arg(expr);
-            std::vector<symbolic::Expression> args;
+            assert(n_args - 1 == stmt->iterators().size());
+            Assignments assignments;
             for (int i = 1; i < n_args; ++i) {
                 isl_ast_expr *arg_expr = isl_ast_expr_get_op_arg(expr, i);
-                symbolic::Expression arg_sym = convert_expr(arg_expr);
-                args.push_back(arg_sym);
+                assignments[stmt->iterators().at(i - 1)] = convert_expr(arg_expr, scope);
                 isl_ast_expr_free(arg_expr);
             }
-
-            // Add transition mapping stmt->iterator_i = arg_i
-            assert(args.size() == stmt->iterators().size());
-            Assignments assignments;
-            for (size_t i = 0; i < stmt->iterators().size(); ++i) {
-                assignments[stmt->iterators().at(i)] = args[i];
-            }
             if (!assignments.empty()) {
                 builder_.add_block(scope, assignments);
             }
@@ -1493,7 +1605,29 @@ void ScopToSDFG::visit_user(isl_ast_node *node, structured_control_flow::Sequenc
     isl_ast_expr_free(expr);
 }
 
-symbolic::Expression ScopToSDFG::convert_expr(isl_ast_expr *expr) {
+void ScopToSDFG::
+    add_selection(const symbolic::Symbol &symbol, isl_ast_expr *expr, structured_control_flow::Sequence &scope) {
+    if (isl_ast_expr_get_type(expr) != isl_ast_expr_op || isl_ast_expr_get_op_type(expr) != isl_ast_op_select) {
+        auto value = convert_expr(expr, scope);
+        builder_.add_block(scope, {{symbol, value}});
+        return;
+    }
+
+    isl_ast_expr *cond = isl_ast_expr_get_op_arg(expr, 0);
+    isl_ast_expr *then_expr = isl_ast_expr_get_op_arg(expr, 1);
+    isl_ast_expr *else_expr = isl_ast_expr_get_op_arg(expr, 2);
+
+    symbolic::Condition sym_cond = convert_cond(cond, scope);
+    auto &if_else = builder_.add_if_else(scope);
+    add_selection(symbol, then_expr, builder_.add_case(if_else, sym_cond));
+    add_selection(symbol, else_expr, builder_.add_case(if_else, symbolic::Not(sym_cond)));
+
+    isl_ast_expr_free(cond);
+    isl_ast_expr_free(then_expr);
+    isl_ast_expr_free(else_expr);
+}
+
+symbolic::Expression ScopToSDFG::convert_expr(isl_ast_expr *expr, structured_control_flow::Sequence &scope) {
     if (!expr) return SymEngine::null;
 
     isl_ast_expr_type type = isl_ast_expr_get_type(expr);
@@ -1506,7 +1640,8 @@ symbolic::Expression ScopToSDFG::convert_expr(isl_ast_expr *expr) {
         isl_id *id = isl_ast_expr_get_id(expr);
         std::string name = isl_id_get_name(id);
         isl_id_free(id);
-        return symbolic::symbol(name);
+        auto iterator = iterators_.find(name);
+        return iterator == iterators_.end() ? symbolic::symbol(name) : iterator->second;
     } else if (type == isl_ast_expr_op) {
         isl_ast_op_type op = isl_ast_expr_get_op_type(expr);
         int n_args = isl_ast_expr_get_op_n_arg(expr);
@@ -1515,17 +1650,40 @@ symbolic::Expression ScopToSDFG::convert_expr(isl_ast_expr *expr) {
             isl_ast_expr *arg0 = isl_ast_expr_get_op_arg(expr, 0);
             symbolic::Expression res;
             if (op == isl_ast_op_minus) {
-                res = symbolic::mul(symbolic::integer(-1), convert_expr(arg0));
+                res = symbolic::mul(symbolic::integer(-1), convert_expr(arg0, scope));
             }
             isl_ast_expr_free(arg0);
             return res;
         }
 
+        if (n_args > 2 && (op == isl_ast_op_min || op == isl_ast_op_max)) {
+            symbolic::Expression res;
+            for (int i = 0; i < n_args; ++i) {
+                isl_ast_expr *arg = isl_ast_expr_get_op_arg(expr, i);
+                symbolic::Expression s = convert_expr(arg, scope);
+                isl_ast_expr_free(arg);
+                if (i == 0) {
+                    res = s;
+                } else {
+                    res = op == isl_ast_op_min ? symbolic::min(res, s) : symbolic::max(res, s);
+                }
+            }
+            return res;
+        }
+
+        if (op == isl_ast_op_select) {
+            // No symbolic expression: select the value beforehand
+            auto selected = symbolic::symbol(builder_.find_new_name("c_select_"));
+            builder_.add_container(selected->get_name(), types::Scalar(types::PrimitiveType::Int64));
+            add_selection(selected, expr, scope);
+            return selected;
+        }
+
         if (n_args == 2) {
             isl_ast_expr *arg0 = isl_ast_expr_get_op_arg(expr, 0);
             isl_ast_expr *arg1 = isl_ast_expr_get_op_arg(expr, 1);
-            symbolic::Expression s0 = convert_expr(arg0);
-            symbolic::Expression s1 = convert_expr(arg1);
+            symbolic::Expression s0 = convert_expr(arg0, scope);
+            symbolic::Expression s1 = convert_expr(arg1, scope);
             isl_ast_expr_free(arg0);
             isl_ast_expr_free(arg1);
 
@@ -1538,8 +1696,16 @@ symbolic::Expression ScopToSDFG::convert_expr(isl_ast_expr *expr) {
                     return symbolic::mul(s0, s1);
                 case isl_ast_op_div:
                 case isl_ast_op_pdiv_q:
-                case isl_ast_op_fdiv_q:
                     return symbolic::div(s0, s1);
+                case isl_ast_op_fdiv_q: {
+                    // Division truncates: round the negative dividends down
+                    auto negative = symbolic::max(symbolic::mul(symbolic::integer(-1), s0), symbolic::zero());
+                    auto round_up = symbolic::sub(s1, symbolic::one());
+                    return symbolic::sub(
+                        symbolic::div(symbolic::max(s0, symbolic::zero()), s1),
+                        symbolic::div(symbolic::add(negative, round_up), s1)
+                    );
+                }
                 case isl_ast_op_pdiv_r:
                 case isl_ast_op_zdiv_r:
                     return symbolic::mod(s0, s1);
@@ -1555,9 +1721,16 @@ symbolic::Expression ScopToSDFG::convert_expr(isl_ast_expr *expr) {
     return SymEngine::null;
 }
 
-symbolic::Condition ScopToSDFG::convert_cond(isl_ast_expr *expr) {
+symbolic::Condition ScopToSDFG::convert_cond(isl_ast_expr *expr, structured_control_flow::Sequence &scope) {
     if (!expr) return SymEngine::null;
 
+    if (isl_ast_expr_get_type(expr) == isl_ast_expr_int) {
+        isl_val *v = isl_ast_expr_get_val(expr);
+        long val = isl_val_get_num_si(v);
+        isl_val_free(v);
+        return val != 0 ? symbolic::__true__() : symbolic::__false__();
+    }
+
     if (isl_ast_expr_get_type(expr) != isl_ast_expr_op) {
         return SymEngine::null;
     }
@@ -1573,27 +1746,27 @@ symbolic::Condition ScopToSDFG::convert_cond(isl_ast_expr *expr) {
 
         switch (op) {
             case isl_ast_op_eq:
-                res = symbolic::Eq(convert_expr(arg0), convert_expr(arg1));
+                res = symbolic::Eq(convert_expr(arg0, scope), convert_expr(arg1, scope));
                 break;
             case isl_ast_op_lt:
-                res = symbolic::Lt(convert_expr(arg0), convert_expr(arg1));
+                res = symbolic::Lt(convert_expr(arg0, scope), convert_expr(arg1, scope));
                 break;
             case isl_ast_op_le:
-                res = symbolic::Le(convert_expr(arg0), convert_expr(arg1));
+                res = symbolic::Le(convert_expr(arg0, scope), convert_expr(arg1, scope));
                 break;
             case isl_ast_op_gt:
-                res = symbolic::Gt(convert_expr(arg0), convert_expr(arg1));
+                res = symbolic::Gt(convert_expr(arg0, scope), convert_expr(arg1, scope));
                 break;
             case isl_ast_op_ge:
-                res = symbolic::Ge(convert_expr(arg0), convert_expr(arg1));
+                res = symbolic::Ge(convert_expr(arg0, scope), convert_expr(arg1, scope));
                 break;
             case isl_ast_op_and:
             case isl_ast_op_and_then:
-                res = symbolic::And(convert_cond(arg0), convert_cond(arg1));
+                res = symbolic::And(convert_cond(arg0, scope), convert_cond(arg1, scope));
                 break;
             case isl_ast_op_or:
             case isl_ast_op_or_else:
-                res = symbolic::Or(convert_cond(arg0), convert_cond(arg1));
+                res = symbolic::Or(convert_cond(arg0, scope), convert_cond(arg1, scope));
                 break;
             default:
                 break;
diff --git a/opt/src/transformations/polly_transform.cpp b/opt/src/transformations/polly_transform.cpp
index 52f3cdd..77fbfb0 100644
--- a/opt/src/transformations/polly_transform.cpp
+++ b/opt/src/transformations/polly_transform.cpp
@@ -50,6 +50,8 @@
 //===----------------------------------------------------------------------===//
 #include "sdfg/transformations/polly_transform.h"
 
+#include <list>
+
 #include <isl/constraint.h>
 #include <isl/id.h>
 #include <isl/map.h>
@@ -58,6 +60,8 @@
 #include <isl/union_map.h>
 #include <isl/union_set.h>
 #include <isl/val.h>
+#include <sdfg/analysis/data_dependency_analysis.h>
+#include <sdfg/analysis/users.h>
 
 namespace sdfg {
 namespace transformations {
@@ -170,6 +174,25 @@ PollyTransform::PollyTransform(structured_control_flow::StructuredLoop& loop, bo
 std::string PollyTransform::name() const { return "PollyTransform"; };
 
 bool PollyTransform::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager) {
+    // The new loops do not keep the values of the indvars
+    auto& users = analysis_manager.get<analysis::Users>();
+    auto& data_dependency_analysis = analysis_manager.get<analysis::DataDependencyAnalysis>();
+    std::list<structured_control_flow::ControlFlowNode*> queue = {&loop_};
+    while (!queue.empty()) {
+        auto node = queue.front();
+        queue.pop_front();
+        if (auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(node)) {
+            if (data_dependency_analysis.is_indvar_read_after(users, *loop)) {
+                return false;
+            }
+            queue.push_back(&loop->root());
+        } else if (auto sequence = dynamic_cast<structured_control_flow::Sequence*>(node)) {
+            for (size_t i = 0; i < sequence->size(); i++) {
+                queue.push_back(&sequence->at(i).first);
+            }
+        }
+    }
+
     analysis::ScopBuilder scop_builder(builder.subject(), loop_);
     this->scop_ = scop_builder.build(analysis_manager);
     if (!this->scop_) {
-- 
2.43.0

