From 319c1c30ea6c66eb4203145632cacad544ad8da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 01/57] fix: mask unreachable vertices when computing
 (post-)dominator trees

Lengauer-Tarjan requires the DFS number of unreachable vertices to be the
maximum value; with 0 an unreachable predecessor was taken for the root.
---
 sdfg/src/graph/graph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index f889f9a..f787ed0 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -1,5 +1,7 @@
 #include "sdfg/graph/graph.h"
 
+#include <limits>
+
 namespace sdfg {
 namespace graph {
 
@@ -97,7 +99,8 @@ const std::unordered_map<Vertex, Vertex> dominator_tree(const Graph& graph, cons
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(graph), 0);
+    // Vertices not reachable from src must be masked for lengauer_tarjan_dominator_tree
+    std::vector<size_t> df_num(num_vertices(graph), std::numeric_limits<size_t>::max());
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(graph), boost::graph_traits<Graph>::null_vertex());
@@ -155,7 +158,8 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(rgraph), 0);
+    // Vertices not reaching src must be masked for lengauer_tarjan_dominator_tree
+    std::vector<size_t> df_num(num_vertices(rgraph), std::numeric_limits<size_t>::max());
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(rgraph), boost::graph_traits<Graph>::null_vertex());
-- 
2.43.0


From b1a8c27b311dde658c8015a36e2c807b61275009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 02/57] fix: remove the synthetic exit after computing
 post-dominators

The vertex stayed in the caller's graph and in the returned tree.
---
 sdfg/src/graph/graph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index f787ed0..c9a10f7 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -180,7 +180,14 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
 
     // Remove synthetic super-terminal if added
     if (modified) {
+        pdom_tree.erase(src);
+        for (auto& entry : pdom_tree) {
+            if (entry.second == src) {
+                entry.second = boost::graph_traits<Graph>::null_vertex();
+            }
+        }
         boost::clear_vertex(src, graph);
+        boost::remove_vertex(src, graph);
     }
 
     return pdom_tree;
-- 
2.43.0


From e4d7d2ec0dfe7b00a897158cc88a90b5d7140de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 03/57] fix: do not revisit the source when enumerating simple
 paths

---
 sdfg/src/graph/graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index c9a10f7..9cf5bad 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -261,6 +261,9 @@ const std::list<std::list<Edge>> all_simple_paths(const Graph& graph, const Vert
     std::list<std::list<Edge>> all_paths;
 
     std::set<Vertex> visited;
+    if (src != dst) {
+        visited.insert(src);
+    }
     std::list<Edge> current_path;
 
     auto [eb, ee] = boost::out_edges(src, graph);
-- 
2.43.0


From 32b00e2e9d3dc1dede621943a056b1494e757c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 04/57] fix: refuse capture indices with missing fields

Missing entry fields were undefined behaviour, a missing capture list was
taken for an empty one.
---
 arg-capture-io/include/daisy_rtl/arg_capture_io.h | 10 +++++-----
 arg-capture-io/src/arg_capture_io.cpp             |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/arg-capture-io/include/daisy_rtl/arg_capture_io.h b/arg-capture-io/include/daisy_rtl/arg_capture_io.h
index 4f5e263..a023e9e 100644
--- a/arg-capture-io/include/daisy_rtl/arg_capture_io.h
+++ b/arg-capture-io/include/daisy_rtl/arg_capture_io.h
@@ -121,19 +121,19 @@ std::shared_ptr<T> ArgCaptureIO::from_index(const std::filesystem::path& file) {
     nlohmann::json j;
     ifs >> j;
 
-    if (j["format"].get<uint32_t>() != INDEX_FORMAT_VERSION) {
+    if (j.at("format").get<uint32_t>() != INDEX_FORMAT_VERSION) {
         throw std::runtime_error("Unsupported index format version");
     }
 
-    auto name = j["target"].get<std::string>();
-    auto invokes = j["invocation"].get<uint32_t>();
-    auto element_id = j["element_id"].get<std::string>();
+    auto name = j.at("target").get<std::string>();
+    auto invokes = j.at("invocation").get<uint32_t>();
+    auto element_id = j.at("element_id").get<std::string>();
 
     auto captureIO = std::make_shared<T>(name.c_str());
     captureIO->invokes_[element_id] = invokes;
 
     auto& capture_map = captureIO->current_captures_[element_id];
-    for (const auto& entry : j["captures"]) {
+    for (const auto& entry : j.at("captures")) {
         ArgCapture::parse_from(entry, capture_map, file.parent_path());
     }
 
diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index cb4a9ca..b0c4930 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -61,10 +61,10 @@ void ArgCapture::parse_from(
     std::filesystem::path base_path
 ) {
     ArgCapture capture(
-        entry["arg_idx"].get<int>(),
-        entry["after"].get<bool>(),
-        entry["primitive_type"].get<int>(),
-        entry["dims"].get<std::vector<size_t>>()
+        entry.at("arg_idx").get<int>(),
+        entry.at("after").get<bool>(),
+        entry.at("primitive_type").get<int>(),
+        entry.at("dims").get<std::vector<size_t>>()
     );
 
     if (entry.contains("data")) {
-- 
2.43.0


From 7e213ef6102a9a766add09bce8e890d378023ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 05/57] fix: report capture data files that are shorter than
 expected

---
 arg-capture-io/src/arg_capture_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index b0c4930..85d9b06 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -249,6 +249,9 @@ void ArgCaptureIO::read_data_from_raw_file(const std::filesystem::path& file, vo
     }
 
     ifs.read(reinterpret_cast<char*>(write_ptr), size);
+    if (static_cast<size_t>(ifs.gcount()) != size) {
+        throw std::runtime_error("Failed to read " + std::to_string(size) + " bytes from file: " + file.string());
+    }
     ifs.close();
 }
 
-- 
2.43.0


From 7352d7c7221c9331cffd014d25b4d14288ce7b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 06/57] fix: report failures to write the capture index

---
 arg-capture-io/src/arg_capture_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index 85d9b06..0fac0b2 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -289,6 +289,10 @@ void ArgCaptureIO::write_index(std::filesystem::path base_path) {
 
         ofs.close();
 
+        if (ofs.fail()) {
+            throw std::runtime_error("Failed to write index file: " + file.string());
+        }
+
         DEBUG_PRINTLN("Wrote capture index to " << file.string());
     }
 }
-- 
2.43.0


From 7bcc00eead468473c9ba5d742d9a17498bd09e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 07/57] fix: write valid JSON traces for any metadata and for
 regions without events

---
 rtl/src/instrumentation.cpp | 147 ++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 82 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 8650db4..7519a0a 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -6,7 +6,6 @@
 #include <dlfcn.h>
 #include <filesystem>
 #include <iostream>
-#include <iterator>
 #include <list>
 #include <mutex>
 #include <sstream>
@@ -138,6 +137,29 @@ static std::ostream& operator<<(std::ostream& os, JsSafeDouble val) {
     return os;
 }
 
+struct JsString {
+    const char* value;
+    explicit JsString(const char* value) : value(value ? value : "") {}
+    explicit JsString(const std::string& value) : value(value.c_str()) {}
+};
+
+static std::ostream& operator<<(std::ostream& os, JsString str) {
+    os << '"';
+    for (const char* c = str.value; *c; ++c) {
+        unsigned char u = static_cast<unsigned char>(*c);
+        if (u == '"' || u == '\\') {
+            os << '\\' << *c;
+        } else if (u < 0x20) {
+            char buf[8];
+            std::snprintf(buf, sizeof(buf), "\\u%04x", u);
+            os << buf;
+        } else {
+            os << *c;
+        }
+    }
+    return os << '"';
+}
+
 class DaisyInstrumentationState {
 private:
     size_t next_region_id = 1;
@@ -172,6 +194,12 @@ private:
         out.push_back(s.substr(start));
     }
 
+    std::string region_label(const __daisy_metadata& md) {
+        std::stringstream label;
+        label << (md.function_name ? md.function_name : "") << " [L" << md.line_begin << "-" << md.line_end << "]";
+        return label.str();
+    }
+
     void append_event(FILE* f, DaisyRegion& region, size_t index, const std::vector<std::string>& event_names) {
         // Writes one event as a row in the Chrome trace format
 
@@ -203,7 +231,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":" << JsString(region_label(md)) << ",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         if (region.starts.size() > index) {
@@ -215,10 +243,11 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        std::string file_name = md.file_name ? md.file_name : "";
+        entry << "\"function\":" << JsString(md.function_name) << ",";
+        entry << "\"module\":" << JsString(std::filesystem::path(file_name).filename().string()) << ",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":" << JsString(file_name) << ",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -226,36 +255,18 @@ private:
         // docc metadata
         entry << "\"docc\":";
         entry << "{";
-        if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
-        } else {
-            entry << "\"sdfg_name\":\"\",";
-        }
-        if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
-        } else {
-            entry << "\"sdfg_file\":\"\",";
-        }
-        if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
-        } else {
-            entry << "\"arg_capture_path\":\"\",";
-        }
-        if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
-        } else {
-            entry << "\"features_file\":\"\",";
-        }
-        if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\",";
-        } else {
-            entry << "\"opt_report_file\":\"\",";
-        }
+        entry << "\"sdfg_name\":" << JsString(md.sdfg_name) << ",";
+        entry << "\"sdfg_file\":" << JsString(md.sdfg_file) << ",";
+        entry << "\"arg_capture_path\":" << JsString(md.arg_capture_path) << ",";
+        entry << "\"features_file\":" << JsString(md.features_file) << ",";
+        entry << "\"opt_report_file\":" << JsString(md.opt_report_file);
 
         if (md.sdfg_name && md.sdfg_file) {
+            entry << ",";
+
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":" << JsString(md.element_type) << ",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -276,18 +287,14 @@ private:
         }
         entry << "},";
 
-        if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
-        } else {
-            entry << "\"target_type\":\"\",";
-        }
+        entry << "\"target_type\":" << JsString(md.target_type) << ",";
 
         // Metrics
         entry << "\"metrics\":{";
         if (index < region.counts.size()) {
             auto& counts = region.counts.at(index);
             for (size_t i = 0; i < counts.size(); ++i) {
-                entry << "\"" << event_names[i] << "\":" << counts[i];
+                entry << JsString(event_names[i]) << ":" << counts[i];
                 if (i < counts.size() - 1) {
                     entry << ",";
                 }
@@ -333,7 +340,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"aggregated_region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":" << JsString(region_label(md)) << ",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         // First start
@@ -343,10 +350,11 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        std::string file_name = md.file_name ? md.file_name : "";
+        entry << "\"function\":" << JsString(md.function_name) << ",";
+        entry << "\"module\":" << JsString(std::filesystem::path(file_name).filename().string()) << ",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":" << JsString(file_name) << ",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -355,38 +363,18 @@ private:
         // docc metadata
         entry << "\"docc\":";
         entry << "{";
-        if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
-        } else {
-            entry << "\"sdfg_name\":\"\",";
-        }
-        if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
-        } else {
-            entry << "\"sdfg_file\":\"\",";
-        }
-        if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
-        } else {
-            entry << "\"arg_capture_path\":\"\",";
-        }
-        if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
-        } else {
-            entry << "\"features_file\":\"\",";
-        }
-        if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
-        } else {
-            entry << "\"opt_report_file\":\"\"";
-        }
+        entry << "\"sdfg_name\":" << JsString(md.sdfg_name) << ",";
+        entry << "\"sdfg_file\":" << JsString(md.sdfg_file) << ",";
+        entry << "\"arg_capture_path\":" << JsString(md.arg_capture_path) << ",";
+        entry << "\"features_file\":" << JsString(md.features_file) << ",";
+        entry << "\"opt_report_file\":" << JsString(md.opt_report_file);
 
         if (md.sdfg_name && md.sdfg_file) {
             entry << ",";
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":" << JsString(md.element_type) << ",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -407,16 +395,12 @@ private:
         }
         entry << "},";
 
-        if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
-        } else {
-            entry << "\"target_type\":\"\",";
-        }
+        entry << "\"target_type\":" << JsString(md.target_type) << ",";
 
         entry << "\"metrics\":{";
         // PAPI counters
         for (size_t i = 0; i < event_names.size(); ++i) {
-            entry << "\"" << event_names[i] << "\":{";
+            entry << JsString(event_names[i]) << ":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
             entry << "\"count\":" << region.n[i] << ",";
@@ -427,7 +411,7 @@ private:
         }
         // Static counters
         for (auto& [name, mean] : region.static_counters_mean) {
-            entry << "\"static:::" << name << "\":{";
+            entry << JsString("static:::" + name) << ":{";
             entry << "\"mean\":" << JsSafeDouble(mean) << ", ";
             entry << "\"variance\":" << JsSafeDouble(region.static_counters_variance[name]) << ", ";
             entry << "\"count\":" << region.static_counters_n[name] << ", ";
@@ -541,6 +525,7 @@ public:
         std::fprintf(f, "{\"traceEvents\":[\n");
 
         // Output all events
+        bool first_event = true;
         for (auto iter = regions.begin(); iter != regions.end(); ++iter) {
             auto& region = iter->second;
 
@@ -552,11 +537,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event_aggregated(f, region, event_names);
-
-                if (std::next(iter) != regions.end()) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
+                first_event = false;
+                append_event_aggregated(f, region, event_names);
                 continue;
             }
 
@@ -568,13 +553,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event(f, region, event_index, event_names);
-                if (event_index < region.starts.size() - 1) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
-            }
-            if (std::next(iter) != regions.end()) {
-                std::fprintf(f, ",\n");
+                first_event = false;
+                append_event(f, region, event_index, event_names);
             }
         }
 
-- 
2.43.0


From ed42631b5ffe0fd7d1f36ea0f157ca2fb1cc07bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 08/57] fix: do not read statistics of aggregated regions that
 were never exited

---
 rtl/src/instrumentation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 7519a0a..2237d09 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -105,8 +105,8 @@ struct DaisyRegion {
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
-    long long runtime_min;
-    long long runtime_max;
+    long long runtime_min = 0;
+    long long runtime_max = 0;
 
     // Counters
     std::vector<long long> n;
@@ -399,7 +399,7 @@ private:
 
         entry << "\"metrics\":{";
         // PAPI counters
-        for (size_t i = 0; i < event_names.size(); ++i) {
+        for (size_t i = 0; i < event_names.size() && i < region.mean.size(); ++i) {
             entry << JsString(event_names[i]) << ":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
-- 
2.43.0


From 6f4287207f94aef7e0552927deaf58bc2b28942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 09/57] fix: report the run time variance in square
 microseconds

---
 rtl/src/instrumentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 2237d09..154a15b 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -424,7 +424,7 @@ private:
         // Runtime stats
         entry << "\"runtime\":{";
         entry << "\"mean\":" << ns_to_us(region.runtime_mean) << ",";
-        entry << "\"variance\":" << ns_to_us(region.runtime_variance) << ",";
+        entry << "\"variance\":" << ns_to_us(ns_to_us(region.runtime_variance)) << ",";
         entry << "\"count\":" << region.runtime_n << ",";
         entry << "\"min\":" << ns_to_us(region.runtime_min) << ",";
         entry << "\"max\":" << ns_to_us(region.runtime_max);
-- 
2.43.0


From cac737144d7aaa2ee9a485eb88bcc2adc7e083d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 10/57] fix: keep overlapping activations of an instrumented
 region apart

---
 rtl/src/instrumentation.cpp | 60 ++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 154a15b..954834d 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -6,6 +6,8 @@
 #include <dlfcn.h>
 #include <filesystem>
 #include <iostream>
+#include <iterator>
+#include <limits>
 #include <list>
 #include <mutex>
 #include <sstream>
@@ -80,13 +82,21 @@ static void load_papi_symbols() {
 }
 } // namespace
 
+// An activation of a region that has been entered but not yet exited
+struct DaisyActivation {
+    uint64_t thread;
+    size_t index;
+    long long start;
+    std::vector<long long> start_counts;
+};
+
 struct DaisyRegion {
     __daisy_metadata metadata;
     enum __daisy_event_set event_set;
     int papi_eventset = -1;
 
-    // Temporary buffers
-    std::vector<long long> last_counts;
+    // Open activations; they may be nested or belong to different threads
+    std::vector<DaisyActivation> open;
 
     // Full results
 
@@ -101,7 +111,6 @@ struct DaisyRegion {
 
     // Runtime
     long long first_start = 0;
-    long long last_start;
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
@@ -237,7 +246,7 @@ private:
         if (region.starts.size() > index) {
             entry << "\"ts\":" << (region.starts.at(index) / 1000) << ",";
         }
-        if (region.durations.size() > index) {
+        if (region.durations.size() > index && region.durations.at(index) >= 0) {
             entry << "\"dur\":" << ns_to_us(region.durations.at(index)) << ",";
         }
         entry << "\"args\":{";
@@ -659,15 +668,19 @@ public:
 
         DaisyRegion& region = it->second;
 
+        DaisyActivation activation;
+        activation.thread = gettid();
+        activation.index = region.starts.size();
+
         // Save start counters (before timing)
         if (region.event_set == __DAISY_EVENT_SET_CPU && this->event_names_cpu.size() > 0) {
             std::vector<long long> counts(this->event_names_cpu.size(), 0);
             _PAPI_read(region.papi_eventset, counts.data());
-            region.last_counts = counts;
+            activation.start_counts = counts;
         } else if (region.event_set == __DAISY_EVENT_SET_CUDA && this->event_names_cuda.size() > 0) {
             std::vector<long long> counts(this->event_names_cuda.size(), 0);
             _PAPI_read(region.papi_eventset, counts.data());
-            region.last_counts = counts;
+            activation.start_counts = counts;
         }
 
         // Save start time
@@ -676,10 +689,13 @@ public:
             if (region.first_start == 0) {
                 region.first_start = start_ns;
             }
-            region.last_start = start_ns;
         } else {
             region.starts.push_back(start_ns);
+            region.durations.push_back(-1);
+            region.counts.emplace_back();
         }
+        activation.start = start_ns;
+        region.open.push_back(activation);
     }
 
     void exit_region(size_t region_id) {
@@ -695,8 +711,24 @@ public:
 
         // Save duration (before counters)
         long long end_ns = _PAPI_get_real_nsec();
+
+        // The innermost open activation of this thread ends
+        if (region.open.empty()) {
+            std::fprintf(stderr, "[daisy-rtl] Warning: exiting region %zu that was not entered\n", region_id);
+            return;
+        }
+        auto innermost = std::prev(region.open.end());
+        for (auto candidate = region.open.rbegin(); candidate != region.open.rend(); ++candidate) {
+            if (candidate->thread == static_cast<uint64_t>(gettid())) {
+                innermost = std::prev(candidate.base());
+                break;
+            }
+        }
+        DaisyActivation activation = *innermost;
+        region.open.erase(innermost);
+
         if (this->aggregate_events) {
-            long long duration_ns = end_ns - region.last_start;
+            long long duration_ns = end_ns - activation.start;
 
             // Update aggregated runtime stats
             if (region.runtime_n == 0) {
@@ -715,8 +747,8 @@ public:
                 if (duration_ns > region.runtime_max) region.runtime_max = duration_ns;
             }
         } else {
-            long long duration_ns = end_ns - region.starts.back();
-            region.durations.push_back(duration_ns);
+            long long duration_ns = end_ns - activation.start;
+            region.durations[activation.index] = duration_ns;
         }
 
         // Save end counters
@@ -725,11 +757,11 @@ public:
             _PAPI_read(region.papi_eventset, counts.data());
 
             for (size_t i = 0; i < counts.size(); ++i) {
-                counts[i] -= region.last_counts[i];
+                counts[i] -= activation.start_counts[i];
             }
 
             if (!this->aggregate_events) {
-                region.counts.push_back(counts);
+                region.counts[activation.index] = counts;
                 return;
             }
 
@@ -767,11 +799,11 @@ public:
             _PAPI_read(region.papi_eventset, counts.data());
 
             for (size_t i = 0; i < counts.size(); ++i) {
-                counts[i] -= region.last_counts[i];
+                counts[i] -= activation.start_counts[i];
             }
 
             if (!this->aggregate_events) {
-                region.counts.push_back(counts);
+                region.counts[activation.index] = counts;
                 return;
             }
 
-- 
2.43.0


From 6b4651dfc382f28322b44089e7c2ad078c4d4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 11/57] fix: share one counter set between overlapping
 registrations of a region

---
 rtl/src/instrumentation.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 954834d..29e6e2a 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -95,6 +95,9 @@ struct DaisyRegion {
     enum __daisy_event_set event_set;
     int papi_eventset = -1;
 
+    // Number of registrations that have not been finalized
+    size_t live = 0;
+
     // Open activations; they may be nested or belong to different threads
     std::vector<DaisyActivation> open;
 
@@ -590,6 +593,7 @@ public:
 
             // start region
             auto& region = this->regions[region_id];
+            region.live = 1;
             _PAPI_start(region.papi_eventset);
 
             return region_id;
@@ -599,6 +603,13 @@ public:
             size_t region_id = this->region_name_to_id[metadata->region_uuid];
             auto& region = this->regions[region_id];
 
+            // Already running, e.g., for an outer or concurrent execution of the same code
+            if (region.live > 0) {
+                region.live++;
+                return region_id;
+            }
+            region.live = 1;
+
             if (_PAPI_create_eventset(&region.papi_eventset) != 0) {
                 std::fprintf(stderr, "[daisy-rtl] Failed to create PAPI eventset.\n");
                 exit(EXIT_FAILURE);
@@ -628,6 +639,7 @@ public:
         DaisyRegion region;
         std::memcpy(&region.metadata, metadata, sizeof(__daisy_metadata));
         region.event_set = event_set;
+        region.live = 1;
 
         if (_PAPI_create_eventset(&region.papi_eventset) != 0) {
             std::fprintf(stderr, "[daisy-rtl] Failed to create PAPI eventset.\n");
@@ -899,6 +911,13 @@ public:
 
         DaisyRegion& region = it->second;
 
+        // The last registration stops the region
+        if (region.live > 1) {
+            region.live--;
+            return;
+        }
+        region.live = 0;
+
         // Stop counters
         if (region.event_set == __DAISY_EVENT_SET_CPU && this->event_names_cpu.size() > 0) {
             std::vector<long long> counts(this->event_names_cpu.size(), 0);
-- 
2.43.0


From bcc6fa3f26d40f5c3e39a08be6555013da30e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 12/57] fix: keep the order of conflicting accesses when fusing
 blocks

---
 .../structured_control_flow/block_fusion.cpp  | 111 +++++++++++++++---
 1 file changed, 96 insertions(+), 15 deletions(-)

diff --git a/sdfg/src/passes/structured_control_flow/block_fusion.cpp b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
index 409eab6..ff6aa41 100644
--- a/sdfg/src/passes/structured_control_flow/block_fusion.cpp
+++ b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
@@ -8,6 +8,93 @@
 namespace sdfg {
 namespace passes {
 
+namespace {
+
+bool reaches(
+    data_flow::DataFlowGraph& graph, const data_flow::DataFlowNode& source, const data_flow::DataFlowNode& target
+) {
+    std::unordered_set<const data_flow::DataFlowNode*> visited = {&source};
+    std::vector<const data_flow::DataFlowNode*> stack = {&source};
+    while (!stack.empty()) {
+        auto* node = stack.back();
+        stack.pop_back();
+        if (node == &target) {
+            return true;
+        }
+        for (auto* successor : graph.successors(*node)) {
+            if (visited.insert(successor).second) {
+                stack.push_back(successor);
+            }
+        }
+    }
+    return false;
+}
+
+/// Sources of the second graph and the access nodes of the first graph that replace them
+std::unordered_map<data_flow::AccessNode*, data_flow::AccessNode*>
+connect(data_flow::DataFlowGraph& first_graph, data_flow::DataFlowGraph& second_graph) {
+    auto pdoms = first_graph.post_dominators();
+    std::unordered_map<data_flow::AccessNode*, data_flow::AccessNode*> connectors;
+    for (auto& node : second_graph.sources()) {
+        if (!dynamic_cast<data_flow::AccessNode*>(node)) {
+            continue;
+        }
+        auto access_node = static_cast<data_flow::AccessNode*>(node);
+
+        // Not used in first graph
+        if (!pdoms.contains(access_node->data())) {
+            continue;
+        }
+
+        connectors[access_node] = pdoms.at(access_node->data());
+    }
+    return connectors;
+}
+
+/// True if the fused graph orders all conflicting accesses of the two nodes
+bool ordered(
+    data_flow::DataFlowGraph& first_graph,
+    const data_flow::AccessNode& first_node,
+    data_flow::DataFlowGraph& second_graph,
+    const data_flow::AccessNode& second_node,
+    const std::unordered_map<data_flow::AccessNode*, data_flow::AccessNode*>& connectors
+) {
+    bool first_writes = first_graph.in_degree(first_node) > 0;
+    bool second_writes = second_graph.in_degree(second_node) > 0;
+    if (!first_writes && !second_writes) {
+        return true;
+    }
+
+    // Everything that accesses the first node ...
+    std::unordered_set<const data_flow::DataFlowNode*> before = {&first_node};
+    if (second_writes && first_graph.out_degree(first_node) > 0) {
+        before = first_graph.successors(first_node);
+    }
+    // ... must precede everything that accesses the second node
+    std::unordered_set<const data_flow::DataFlowNode*> after = {&second_node};
+    if (second_writes) {
+        after = second_graph.predecessors(second_node);
+    }
+
+    for (auto* u : before) {
+        for (auto* v : after) {
+            bool found = false;
+            for (auto& [source, sink] : connectors) {
+                if (reaches(first_graph, *u, *sink) && reaches(second_graph, *source, *v)) {
+                    found = true;
+                    break;
+                }
+            }
+            if (!found) {
+                return false;
+            }
+        }
+    }
+    return true;
+}
+
+} // namespace
+
 BlockFusion::BlockFusion(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager)
     : visitor::NonStoppingStructuredSDFGVisitor(builder, analysis_manager) {}
 
@@ -124,6 +211,8 @@ bool BlockFusion::can_be_applied(
         }
     }
 
+    auto connectors = connect(first_graph, second_graph);
+
     // For each combination of weakly connected components:
     for (size_t first = 0; first < first_num_components; first++) {
         for (size_t second = 0; second < second_num_components; second++) {
@@ -152,6 +241,12 @@ bool BlockFusion::can_be_applied(
             if (!connection) {
                 return false;
             }
+            // Conflicting accesses must keep their order
+            for (auto [first_access_node, second_access_node] : matches) {
+                if (!ordered(first_graph, *first_access_node, second_graph, *second_access_node, connectors)) {
+                    return false;
+                }
+            }
         }
     }
 
@@ -173,21 +268,7 @@ void BlockFusion::apply(
     }
 
     // Collect nodes to connect to
-    auto pdoms = first_graph.post_dominators();
-    std::unordered_map<data_flow::AccessNode*, data_flow::AccessNode*> connectors;
-    for (auto& node : second_graph.sources()) {
-        if (!dynamic_cast<data_flow::AccessNode*>(node)) {
-            continue;
-        }
-        auto access_node = static_cast<data_flow::AccessNode*>(node);
-
-        // Not used in first graph
-        if (!pdoms.contains(access_node->data())) {
-            continue;
-        }
-
-        connectors[access_node] = pdoms.at(access_node->data());
-    }
+    auto connectors = connect(first_graph, second_graph);
 
     // Copy nodes from second to first
     std::unordered_map<data_flow::DataFlowNode*, data_flow::DataFlowNode*> node_mapping;
-- 
2.43.0


From d596de0aaf346320f72d3f3985c35e393411c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 13/57] fix: keep definitions alive that loops, branches and
 partial writes do not overwrite

---
 .../sdfg/analysis/data_dependency_analysis.h  |  24 ++
 .../src/analysis/data_dependency_analysis.cpp | 290 +++++++++---------
 2 files changed, 174 insertions(+), 140 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/data_dependency_analysis.h b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
index 246a90e..4d8b7f1 100644
--- a/sdfg/include/sdfg/analysis/data_dependency_analysis.h
+++ b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
@@ -59,6 +59,30 @@ private:
 
     bool depends(analysis::AnalysisManager& analysis_manager, User& previous, User& current);
 
+    bool is_scalar(const std::string& container) const;
+
+    /**
+     * @brief Assigns a read to the open definitions.
+     *
+     * @return True if every value which is read comes from one of the open definitions.
+     */
+    bool defined(
+        analysis::AnalysisManager& analysis_manager,
+        std::unordered_map<User*, std::unordered_set<User*>>& open_definitions,
+        User& read
+    );
+
+    /// Adds undefined users for scalars that are defined on some paths only.
+    void add_undefined_users(
+        const std::unordered_map<User*, std::unordered_set<User*>>& partial_definitions,
+        std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+    );
+
+    /// Removes the undefined users of a scalar that is written unconditionally.
+    void remove_undefined_users(
+        const std::string& container, std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+    );
+
 public:
     DataDependencyAnalysis(StructuredSDFG& sdfg, bool detailed = false);
 
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index f77381c..9174371 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -86,7 +86,7 @@ void DataDependencyAnalysis::visit_block(
                         // Close open definitions if possible
                         std::unordered_map<User*, std::unordered_set<User*>> to_close;
                         for (auto& user : open_definitions) {
-                            if (this->closes(analysis_manager, *user.first, *current_user, false)) {
+                            if (this->closes(analysis_manager, *user.first, *current_user, true)) {
                                 to_close.insert(user);
                             }
                         }
@@ -94,6 +94,7 @@ void DataDependencyAnalysis::visit_block(
                             open_definitions.erase(user.first);
                             closed_definitions.insert(user);
                         }
+                        this->remove_undefined_users(current_user->container(), open_definitions);
 
                         // Start new open definition
                         open_definitions.insert({current_user, {}});
@@ -112,18 +113,8 @@ void DataDependencyAnalysis::visit_block(
                     if (use == Use::READ) {
                         auto current_user = users.get_user(access_node->data(), access_node, use);
 
-                        // Assign to open definitions
-                        bool found_user = false;
-                        bool found_undefined_user = false;
-                        for (auto& user : open_definitions) {
-                            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                                user.second.insert(current_user);
-                                found_user = true;
-                                found_undefined_user = this->is_undefined_user(*user.first);
-                            }
-                        }
-                        // If no definition found or undefined user found, mark as undefined
-                        if (!found_user || found_undefined_user) {
+                        // Assign to open definitions or mark as undefined
+                        if (!this->defined(analysis_manager, open_definitions, *current_user)) {
                             undefined.insert(current_user);
                         }
                     }
@@ -133,18 +124,8 @@ void DataDependencyAnalysis::visit_block(
             for (auto& symbol : library_node->symbols()) {
                 auto current_user = users.get_user(symbol->get_name(), library_node, Use::READ);
 
-                // Assign to open definitions
-                bool found_user = false;
-                bool found_undefined_user = false;
-                for (auto& user : open_definitions) {
-                    if (this->depends(analysis_manager, *user.first, *current_user)) {
-                        user.second.insert(current_user);
-                        found_user = true;
-                        found_undefined_user = this->is_undefined_user(*current_user);
-                    }
-                }
-                // If no definition found or undefined user found, mark as undefined
-                if (!found_user || found_undefined_user) {
+                // Assign to open definitions or mark as undefined
+                if (!this->defined(analysis_manager, open_definitions, *current_user)) {
                     undefined.insert(current_user);
                 }
             }
@@ -160,18 +141,8 @@ void DataDependencyAnalysis::visit_block(
             for (auto& atom : used) {
                 auto current_user = users.get_user(atom, &oedge, Use::READ);
 
-                // Assign to open definitions
-                bool found_user = false;
-                bool found_undefined_user = false;
-                for (auto& user : open_definitions) {
-                    if (this->depends(analysis_manager, *user.first, *current_user)) {
-                        user.second.insert(current_user);
-                        found_user = true;
-                        found_undefined_user = this->is_undefined_user(*user.first);
-                    }
-                }
-                // If no definition found or undefined user found, mark as undefined
-                if (!found_user || found_undefined_user) {
+                // Assign to open definitions or mark as undefined
+                if (!this->defined(analysis_manager, open_definitions, *current_user)) {
                     undefined.insert(current_user);
                 }
             }
@@ -192,18 +163,8 @@ void DataDependencyAnalysis::visit_for(
     for (auto atom : symbolic::atoms(for_loop.init())) {
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, true);
 
-        // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
+        // Assign to open definitions or mark as undefined
+        if (!this->defined(analysis_manager, open_definitions, *current_user)) {
             undefined.insert(current_user);
         }
     }
@@ -239,18 +200,8 @@ void DataDependencyAnalysis::visit_for(
     for (auto atom : symbolic::atoms(for_loop.condition())) {
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, true);
 
-        // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
+        // Assign to open definitions or mark as undefined
+        if (!this->defined(analysis_manager, open_definitions, *current_user)) {
             undefined.insert(current_user);
         }
     }
@@ -266,18 +217,8 @@ void DataDependencyAnalysis::visit_for(
     for (auto atom : symbolic::atoms(for_loop.update())) {
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, false, true);
 
-        // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions_for) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
+        // Assign to open definitions or mark as undefined
+        if (!this->defined(analysis_manager, open_definitions_for, *current_user)) {
             undefined_for.insert(current_user);
         }
     }
@@ -300,8 +241,11 @@ void DataDependencyAnalysis::visit_for(
             if (intersects(*entry.first, *open_read, analysis_manager)) {
                 entry.second.insert(open_read);
                 found = true;
-                found_undefined_user = this->is_undefined_user(*entry.first);
-                frontier.insert(entry.first);
+                if (this->is_undefined_user(*entry.first)) {
+                    found_undefined_user = true;
+                } else {
+                    frontier.insert(entry.first);
+                }
             }
         }
         if (!found || found_undefined_user) {
@@ -398,6 +342,19 @@ void DataDependencyAnalysis::visit_for(
         }
     }
 
+    // The body may redefine symbols of the condition
+    for (auto atom : symbolic::atoms(for_loop.condition())) {
+        auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, true);
+        for (auto& entry : open_definitions_for) {
+            if (this->depends(analysis_manager, *entry.first, *current_user)) {
+                entry.second.insert(current_user);
+            }
+        }
+    }
+
+    // The body may not be executed at all
+    this->add_undefined_users(open_definitions_for, open_definitions);
+
     // Add open definitions from for to outside
     for (auto& entry : open_definitions_for) {
         open_definitions.insert(entry);
@@ -419,17 +376,8 @@ void DataDependencyAnalysis::visit_if_else(
         for (auto atom : symbolic::atoms(child)) {
             auto current_user = users.get_user(atom->get_name(), &if_else, Use::READ);
 
-            bool found_user = false;
-            bool found_undefined_user = false;
-            for (auto& user : open_definitions) {
-                if (this->depends(analysis_manager, *user.first, *current_user)) {
-                    user.second.insert(current_user);
-                    found_user = true;
-                    found_undefined_user = this->is_undefined_user(*user.first);
-                }
-            }
-            // If no definition found or undefined user found, mark as undefined
-            if (!found_user || found_undefined_user) {
+            // Assign to open definitions or mark as undefined
+            if (!this->defined(analysis_manager, open_definitions, *current_user)) {
                 undefined.insert(current_user);
             }
         }
@@ -452,17 +400,8 @@ void DataDependencyAnalysis::visit_if_else(
     // merge partial open reads
     for (size_t i = 0; i < if_else.size(); i++) {
         for (auto& entry : undefined_branches.at(i)) {
-            bool found_user = false;
-            bool found_undefined_user = false;
-            for (auto& user : open_definitions) {
-                if (this->depends(analysis_manager, *user.first, *entry)) {
-                    user.second.insert(entry);
-                    found_user = true;
-                    found_undefined_user = this->is_undefined_user(*user.first);
-                }
-            }
-            // If no definition found or undefined user found, mark as undefined
-            if (!found_user || found_undefined_user) {
+            // Assign to open definitions or mark as undefined
+            if (!this->defined(analysis_manager, open_definitions, *entry)) {
                 undefined.insert(entry);
             }
         }
@@ -478,30 +417,35 @@ void DataDependencyAnalysis::visit_if_else(
     // Close open reads_after_writes for complete branches
     if (if_else.is_complete()) {
         std::unordered_map<User*, std::unordered_set<User*>> to_close;
-        std::unordered_set<std::string> candidates;
-        std::unordered_set<std::string> candidates_tmp;
 
         /* Complete close open reads_after_writes
-        1. get candidates from first iteration
-        2. iterate over all branches and prune candidates
-        3. find prior writes for remaining candidates
-        4. close open reads_after_writes for all candidates
+        1. get candidates, i.e., scalars which every branch defines on all of its paths
+        2. find prior writes for candidates
+        3. close open reads_after_writes for all candidates
         */
-        for (auto& entry : open_definitions_branches.at(0)) {
-            candidates.insert(entry.first->container());
-        }
-        for (auto& entry : closed_definitionss_branches.at(0)) {
-            candidates.insert(entry.first->container());
-        }
-
-        for (size_t i = 1; i < if_else.size(); i++) {
-            for (auto& entry : open_definitions_branches.at(i)) {
-                if (candidates.find(entry.first->container()) != candidates.end()) {
-                    candidates_tmp.insert(entry.first->container());
+        std::unordered_map<std::string, size_t> defining_branches;
+        for (auto& branch : open_definitions_branches) {
+            std::unordered_set<std::string> defined_containers;
+            std::unordered_set<std::string> undefined_containers;
+            for (auto& entry : branch) {
+                if (this->is_undefined_user(*entry.first)) {
+                    undefined_containers.insert(entry.first->container());
+                } else {
+                    defined_containers.insert(entry.first->container());
+                }
+            }
+            for (auto& container : defined_containers) {
+                if (!undefined_containers.contains(container) &&
+                    this->is_scalar(container)) {
+                    defining_branches[container]++;
                 }
             }
-            candidates.swap(candidates_tmp);
-            candidates_tmp.clear();
+        }
+        std::unordered_set<std::string> candidates;
+        for (auto& entry : defining_branches) {
+            if (entry.second == if_else.size()) {
+                candidates.insert(entry.first);
+            }
         }
 
         for (auto& entry : open_definitions) {
@@ -514,6 +458,17 @@ void DataDependencyAnalysis::visit_if_else(
             open_definitions.erase(entry.first);
             closed_definitions.insert(entry);
         }
+
+        // All other containers are not defined by all branches
+        for (auto& branch : open_definitions_branches) {
+            std::unordered_map<User*, std::unordered_set<User*>> partial_definitions;
+            for (auto& entry : branch) {
+                if (!candidates.contains(entry.first->container())) {
+                    partial_definitions.insert(entry);
+                }
+            }
+            this->add_undefined_users(partial_definitions, open_definitions);
+        }
     } else {
         // Incomplete if-else
 
@@ -572,18 +527,14 @@ void DataDependencyAnalysis::visit_while(
         }
 
         // Connect to outside
-        bool found = false;
-        for (auto& entry : open_definitions) {
-            if (entry.first->container() == open_read->container()) {
-                entry.second.insert(open_read);
-                found = true;
-            }
-        }
-        if (!found) {
+        if (!this->defined(analysis_manager, open_definitions, *open_read)) {
             undefined.insert(open_read);
         }
     }
 
+    // The body may be left early
+    this->add_undefined_users(open_definitions_while, open_definitions);
+
     // Add open definitions from while to outside
     for (auto& entry : open_definitions_while) {
         open_definitions.insert(entry);
@@ -602,14 +553,7 @@ void DataDependencyAnalysis::visit_return(
     if (return_statement.is_data() && !return_statement.data().empty()) {
         auto current_user = users.get_user(return_statement.data(), &return_statement, Use::READ);
 
-        bool found = false;
-        for (auto& user : open_definitions) {
-            if (user.first->container() == return_statement.data()) {
-                user.second.insert(current_user);
-                found = true;
-            }
-        }
-        if (!found) {
+        if (!this->defined(analysis_manager, open_definitions, *current_user)) {
             undefined.insert(current_user);
         }
     }
@@ -654,14 +598,7 @@ void DataDependencyAnalysis::visit_sequence(
                 }
                 auto current_user = users.get_user(atom->get_name(), &child.second, Use::READ);
 
-                bool found = false;
-                for (auto& user : open_definitions) {
-                    if (user.first->container() == atom->get_name()) {
-                        user.second.insert(current_user);
-                        found = true;
-                    }
-                }
-                if (!found) {
+                if (!this->defined(analysis_manager, open_definitions, *current_user)) {
                     undefined.insert(current_user);
                 }
             }
@@ -681,6 +618,7 @@ void DataDependencyAnalysis::visit_sequence(
                 closed_definitions.insert({user, open_definitions.at(user)});
                 open_definitions.erase(user);
             }
+            this->remove_undefined_users(current_user->container(), open_definitions);
             open_definitions.insert({current_user, {}});
         }
     }
@@ -933,6 +871,78 @@ bool DataDependencyAnalysis::depends(analysis::AnalysisManager& analysis_manager
     return intersect_any;
 }
 
+bool DataDependencyAnalysis::is_scalar(const std::string& container) const {
+    return !this->sdfg_.exists(container) || this->sdfg_.type(container).type_id() == types::TypeID::Scalar;
+}
+
+bool DataDependencyAnalysis::defined(
+    analysis::AnalysisManager& analysis_manager,
+    std::unordered_map<User*, std::unordered_set<User*>>& open_definitions,
+    User& read
+) {
+    bool found_undefined_user = false;
+    std::vector<User*> writes;
+    for (auto& entry : open_definitions) {
+        if (!this->depends(analysis_manager, *entry.first, read)) {
+            continue;
+        }
+        entry.second.insert(&read);
+        if (this->is_undefined_user(*entry.first)) {
+            found_undefined_user = true;
+        } else {
+            writes.push_back(entry.first);
+        }
+    }
+    bool is_scalar = this->is_scalar(read.container());
+    if (is_scalar && !found_undefined_user) {
+        return !writes.empty();
+    }
+    if (!is_scalar && !this->detailed_) {
+        return false;
+    }
+
+    // Some paths or elements are not defined by all writes
+    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    for (auto* write : writes) {
+        if (dominance_analysis.dominates(*write, read) && this->supersedes_restrictive(read, *write, analysis_manager)) {
+            return true;
+        }
+    }
+    return false;
+}
+
+void DataDependencyAnalysis::add_undefined_users(
+    const std::unordered_map<User*, std::unordered_set<User*>>& partial_definitions,
+    std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+) {
+    std::unordered_set<std::string> containers;
+    for (auto& entry : partial_definitions) {
+        if (this->is_scalar(entry.first->container())) {
+            containers.insert(entry.first->container());
+        }
+    }
+    for (auto& entry : open_definitions) {
+        containers.erase(entry.first->container());
+    }
+    for (auto& container : containers) {
+        this->undefined_users_.push_back(
+            std::make_unique<User>(boost::graph_traits<graph::Graph>::null_vertex(), container, nullptr, Use::WRITE)
+        );
+        open_definitions.insert({this->undefined_users_.back().get(), {}});
+    }
+}
+
+void DataDependencyAnalysis::remove_undefined_users(
+    const std::string& container, std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+) {
+    if (!this->is_scalar(container)) {
+        return;
+    }
+    std::erase_if(open_definitions, [&](const auto& entry) {
+        return entry.first->container() == container && this->is_undefined_user(*entry.first);
+    });
+}
+
 /****** Public API ******/
 
 std::unordered_set<User*> DataDependencyAnalysis::defines(User& write) {
-- 
2.43.0


From 2a5673a586a86bffd66e76c9e9903024375ce5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 14/57] fix: constant propagation must compare the expressions
 of both definitions

---
 .../passes/dataflow/constant_propagation.cpp  | 82 +++++++++++++++++++
 1 file changed, 82 insertions(+)

diff --git a/sdfg/src/passes/dataflow/constant_propagation.cpp b/sdfg/src/passes/dataflow/constant_propagation.cpp
index 6e1c750..f1f017d 100644
--- a/sdfg/src/passes/dataflow/constant_propagation.cpp
+++ b/sdfg/src/passes/dataflow/constant_propagation.cpp
@@ -65,6 +65,83 @@ std::unordered_set<analysis::User*> inputs(analysis::User& user, analysis::Users
     }
 }
 
+bool identical_memlets(const data_flow::Memlet& memlet1, const data_flow::Memlet& memlet2) {
+    if (memlet1.type() != memlet2.type() || memlet1.src_conn() != memlet2.src_conn() ||
+        memlet1.dst_conn() != memlet2.dst_conn() || !(memlet1.base_type() == memlet2.base_type())) {
+        return false;
+    }
+    auto& subset1 = memlet1.subset();
+    auto& subset2 = memlet2.subset();
+    if (subset1.size() != subset2.size()) {
+        return false;
+    }
+    for (size_t i = 0; i < subset1.size(); i++) {
+        if (!symbolic::eq(subset1[i], subset2[i])) {
+            return false;
+        }
+    }
+    return true;
+}
+
+bool identical_sources(const data_flow::DataFlowNode& node1, const data_flow::DataFlowNode& node2) {
+    auto access_node1 = dynamic_cast<const data_flow::AccessNode*>(&node1);
+    auto access_node2 = dynamic_cast<const data_flow::AccessNode*>(&node2);
+    if (access_node1 == nullptr || access_node2 == nullptr) {
+        return false;
+    }
+    bool constant1 = dynamic_cast<const data_flow::ConstantNode*>(access_node1) != nullptr;
+    bool constant2 = dynamic_cast<const data_flow::ConstantNode*>(access_node2) != nullptr;
+    return constant1 == constant2 && access_node1->data() == access_node2->data();
+}
+
+/// True if both definitions compute the same expression
+bool identical_expressions(analysis::User& define1, analysis::User& define2) {
+    auto transition1 = dynamic_cast<structured_control_flow::Transition*>(define1.element());
+    auto transition2 = dynamic_cast<structured_control_flow::Transition*>(define2.element());
+    if (transition1 != nullptr && transition2 != nullptr) {
+        auto symbol = symbolic::symbol(define1.container());
+        return symbolic::eq(transition1->assignments().at(symbol), transition2->assignments().at(symbol));
+    }
+
+    auto access_node1 = dynamic_cast<data_flow::AccessNode*>(define1.element());
+    auto access_node2 = dynamic_cast<data_flow::AccessNode*>(define2.element());
+    if (access_node1 == nullptr || access_node2 == nullptr) {
+        return false;
+    }
+    auto& graph1 = access_node1->get_parent();
+    auto& graph2 = access_node2->get_parent();
+    if (graph1.in_degree(*access_node1) != 1 || graph2.in_degree(*access_node2) != 1) {
+        return false;
+    }
+    auto& iedge1 = *graph1.in_edges(*access_node1).begin();
+    auto& iedge2 = *graph2.in_edges(*access_node2).begin();
+    if (!identical_memlets(iedge1, iedge2)) {
+        return false;
+    }
+
+    auto tasklet1 = dynamic_cast<data_flow::Tasklet*>(&iedge1.src());
+    auto tasklet2 = dynamic_cast<data_flow::Tasklet*>(&iedge2.src());
+    if (tasklet1 == nullptr || tasklet2 == nullptr) {
+        return tasklet1 == tasklet2 && identical_sources(iedge1.src(), iedge2.src());
+    }
+    if (tasklet1->code() != tasklet2->code() || graph1.in_degree(*tasklet1) != graph2.in_degree(*tasklet2)) {
+        return false;
+    }
+    for (auto& edge1 : graph1.in_edges(*tasklet1)) {
+        bool found = false;
+        for (auto& edge2 : graph2.in_edges(*tasklet2)) {
+            if (edge1.dst_conn() == edge2.dst_conn()) {
+                found = identical_memlets(edge1, edge2) && identical_sources(edge1.src(), edge2.src());
+                break;
+            }
+        }
+        if (!found) {
+            return false;
+        }
+    }
+    return true;
+}
+
 bool ConstantPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager) {
     bool applied = false;
 
@@ -237,6 +314,11 @@ bool ConstantPropagation::run_pass(builder::StructuredSDFGBuilder& builder, anal
             continue;
         }
 
+        // Criterion: Identical expressions
+        if (!identical_expressions(*define1, *define2)) {
+            continue;
+        }
+
         // Eliminate the dominated definition
         auto write = define2->element();
         if (auto transition = dynamic_cast<structured_control_flow::Transition*>(write)) {
-- 
2.43.0


From 91e00ab84580b10a3dfecb1972a5f02736b23a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 15/57] fix: symbol propagation must respect loop-carried
 modifications and the assignments of one transition

---
 .../passes/symbolic/symbol_propagation.cpp    | 96 +++++++++++++------
 1 file changed, 67 insertions(+), 29 deletions(-)

diff --git a/sdfg/src/passes/symbolic/symbol_propagation.cpp b/sdfg/src/passes/symbolic/symbol_propagation.cpp
index d6a90c5..ba1d07e 100644
--- a/sdfg/src/passes/symbolic/symbol_propagation.cpp
+++ b/sdfg/src/passes/symbolic/symbol_propagation.cpp
@@ -2,6 +2,7 @@
 
 #include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/dominance_analysis.h"
+#include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/analysis/users.h"
 
 namespace sdfg {
@@ -57,6 +58,28 @@ symbolic::Expression inverse(const symbolic::Symbol lhs, const symbolic::Express
     return SymEngine::null;
 };
 
+/// True if the expression uses a symbol which is assigned by another assignment of the same transition
+bool uses_other_assignment(
+    const control_flow::Assignments& assignments, const symbolic::Symbol lhs, const symbolic::Expression expression
+) {
+    for (auto& entry : assignments) {
+        if (!symbolic::eq(entry.first, lhs) && symbolic::uses(expression, entry.first)) {
+            return true;
+        }
+    }
+    return false;
+}
+
+structured_control_flow::ControlFlowNode*
+innermost_loop(analysis::User& user, const analysis::ScopeAnalysis& scope_analysis) {
+    structured_control_flow::ControlFlowNode* scope = analysis::Users::scope(&user);
+    while (scope != nullptr && dynamic_cast<structured_control_flow::While*>(scope) == nullptr &&
+           dynamic_cast<structured_control_flow::StructuredLoop*>(scope) == nullptr) {
+        scope = scope_analysis.parent_scope(scope);
+    }
+    return scope;
+}
+
 SymbolPropagation::SymbolPropagation()
     : Pass() {
 
@@ -71,6 +94,7 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
     auto& users = analysis_manager.get<analysis::Users>();
     auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
     auto& data_dependency_analysis = analysis_manager.get<analysis::DataDependencyAnalysis>();
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
     std::unordered_set<data_flow::AccessNode*> replaced_nodes;
     std::unordered_set<std::string> skip;
     for (auto& name : sdfg.containers()) {
@@ -157,6 +181,33 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                         continue;
                     }
                 }
+
+                // Criterion: New assignments do not depend on the order of the assignments
+                if (uses_other_assignment(transition1->assignments(), lhs, rhs1) ||
+                    uses_other_assignment(transition2->assignments(), lhs, rhs2)) {
+                    continue;
+                }
+
+                // Criterion: LHS is not used until it is assigned
+                bool lhs_used = false;
+                for (auto* transition : {transition1, transition2, transition_lhs}) {
+                    for (auto& assign_entry : transition->assignments()) {
+                        if (!symbolic::eq(assign_entry.first, rhs) && !symbolic::eq(assign_entry.first, lhs) &&
+                            symbolic::uses(assign_entry.second, lhs)) {
+                            lhs_used = true;
+                        }
+                    }
+                }
+                for (auto* write : {write1, write2}) {
+                    for (auto* user : users.all_uses_between(*write, *read)) {
+                        if (user->container() == lhs->get_name()) {
+                            lhs_used = true;
+                        }
+                    }
+                }
+                if (lhs_used) {
+                    continue;
+                }
                 transition1->assignments().insert({lhs, rhs1});
                 transition2->assignments().insert({lhs, rhs2});
                 transition_lhs->assignments().erase(lhs);
@@ -206,36 +257,14 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                 auto rhs_modified = rhs;
 
                 // Find dangerous users between write and read
-                auto is_dangerous = [&](analysis::User* user) {
-                    if (user == write || user == read) {
-                        return false;
-                    }
-
-                    // Criterion: RHS must dominate modification
-                    if (!dominance_analysis.dominates(*write, *user)) {
-                        return false;
-                    }
-
-                    // Criterion: Modification must dominate read
-                    if (dominance_analysis.dominates(*read, *user)) {
-                        return false;
-                    }
-
-                    return true;
-                };
+                auto middle_users = users.all_uses_between(*write, *read);
                 std::unordered_set<std::string> dangerous_users;
-                for (const auto& sym : rhs_symbols) {
-                    for (auto* user : users.writes(sym)) {
-                        if (is_dangerous(user)) {
-                            dangerous_users.insert(sym);
-                            break;
-                        }
+                for (auto* user : middle_users) {
+                    if (user->use() != analysis::Use::WRITE && user->use() != analysis::Use::MOVE) {
+                        continue;
                     }
-                    for (auto* user : users.moves(sym)) {
-                        if (is_dangerous(user)) {
-                            dangerous_users.insert(sym);
-                            break;
-                        }
+                    if (rhs_symbols.contains(user->container())) {
+                        dangerous_users.insert(user->container());
                     }
                 }
                 if (!dangerous_users.empty()) {
@@ -243,7 +272,6 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                     // We attempt to create the new RHS
                     bool success = true;
                     std::unordered_set<std::string> modified_symbols;
-                    auto middle_users = users.all_uses_between(*write, *read);
                     for (auto& user : middle_users) {
                         if (user->use() != analysis::Use::WRITE && user->use() != analysis::Use::MOVE) {
                             continue;
@@ -270,6 +298,12 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                             break;
                         }
 
+                        // Criterion: Modification happens exactly once per definition
+                        if (innermost_loop(*user, scope_analysis) != innermost_loop(*write, scope_analysis)) {
+                            success = false;
+                            break;
+                        }
+
                         // Criterion: Only transitions
                         if (!dynamic_cast<structured_control_flow::Transition*>(user->element())) {
                             success = false;
@@ -309,6 +343,10 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                     auto& assignments = transition_stmt->assignments();
                     for (auto& entry : assignments) {
                         if (symbolic::uses(entry.second, lhs)) {
+                            // Criterion: RHS must not depend on the order of the assignments
+                            if (uses_other_assignment(assignments, entry.first, rhs_modified)) {
+                                continue;
+                            }
                             entry.second = symbolic::subs(entry.second, lhs, rhs_modified);
                             applied = true;
                         }
-- 
2.43.0


From 89c0eda6cc963bd68952a898526f80305676892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 16/57] fix: do not fuse maps when the producer's inputs, side
 outputs or range would change the result

---
 .../include/sdfg/transformations/map_fusion.h |  13 ++
 .../transformations/map_fusion_pass.cpp       |   3 +-
 sdfg/src/transformations/map_fusion.cpp       | 130 ++++++++++++++++++
 3 files changed, 145 insertions(+), 1 deletion(-)

diff --git a/sdfg/include/sdfg/transformations/map_fusion.h b/sdfg/include/sdfg/transformations/map_fusion.h
index d8fe903..d92b6d5 100644
--- a/sdfg/include/sdfg/transformations/map_fusion.h
+++ b/sdfg/include/sdfg/transformations/map_fusion.h
@@ -51,6 +51,7 @@ class MapFusion : public Transformation {
         std::string container; ///< Container being read/written
         data_flow::Subset consumer_subset; ///< The access pattern in the consumer (e.g., [j-1], [j], [j+1])
         symbolic::Expression index_mapping; ///< Expression mapping second_indvar to first_indvar
+        symbolic::Expression exact_mapping = SymEngine::null; ///< Same as index_mapping without division, if known
     };
     std::vector<FusionCandidate> fusion_candidates_;
 
@@ -83,6 +84,18 @@ public:
     virtual bool can_be_applied(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager)
         override;
 
+    /**
+     * @brief Check that the first map produces every element the second loop reads
+     *
+     * Fusion recomputes the producer for each read. Elements outside of the range of the
+     * first map keep their old value and must not be recomputed.
+     * Must be called after can_be_applied.
+     *
+     * @param analysis_manager The analysis manager
+     * @return true if all reads provably fall into the range of the first map
+     */
+    bool covers_reads(analysis::AnalysisManager& analysis_manager);
+
     /**
      * @brief Apply the map fusion transformation
      *
diff --git a/sdfg/src/passes/transformations/map_fusion_pass.cpp b/sdfg/src/passes/transformations/map_fusion_pass.cpp
index 20c5528..69cbe85 100644
--- a/sdfg/src/passes/transformations/map_fusion_pass.cpp
+++ b/sdfg/src/passes/transformations/map_fusion_pass.cpp
@@ -23,7 +23,8 @@ bool MapFusion::accept(structured_control_flow::Sequence& node) {
 
         if (first && second) {
             transformations::MapFusion transformation(*first, *second);
-            if (transformation.can_be_applied(builder_, analysis_manager_)) {
+            if (transformation.can_be_applied(builder_, analysis_manager_) &&
+                transformation.covers_reads(analysis_manager_)) {
                 transformation.apply(builder_, analysis_manager_);
                 applied = true;
                 std::cout << "Applied MapFusion to maps " << first->indvar()->get_name() << " and "
diff --git a/sdfg/src/transformations/map_fusion.cpp b/sdfg/src/transformations/map_fusion.cpp
index 06dcd77..377cba0 100644
--- a/sdfg/src/transformations/map_fusion.cpp
+++ b/sdfg/src/transformations/map_fusion.cpp
@@ -1,6 +1,8 @@
 #include "sdfg/transformations/map_fusion.h"
 
 #include "sdfg/analysis/arguments_analysis.h"
+#include "sdfg/analysis/assumptions_analysis.h"
+#include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/analysis/users.h"
 #include "sdfg/control_flow/interstate_edge.h"
@@ -106,6 +108,40 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
     auto first_indvar = first_map_.indvar();
     auto second_indvar = second_loop_.indvar();
 
+    // Criterion: Replicating the producer must not replicate writes to other data that is still visible
+    for (const auto& [name, arg] : first_args) {
+        if (!arg.is_output || name == first_indvar->get_name() || fusion_containers.contains(name)) {
+            continue;
+        }
+        if (arg.is_scalar || second_args.contains(name)) {
+            return false;
+        }
+    }
+
+    // Criterion: The second loop must not modify what the producer reads
+    for (const auto& [name, arg] : first_args) {
+        if (name == first_indvar->get_name() || fusion_containers.contains(name)) {
+            continue;
+        }
+        auto second_arg = second_args.find(name);
+        if (name == second_indvar->get_name() || (second_arg != second_args.end() && second_arg->second.is_output)) {
+            return false;
+        }
+    }
+
+    // Criterion: The indvar of the producer is only substituted in memlets
+    for (auto& node : first_dataflow.nodes()) {
+        if (auto* access = dynamic_cast<data_flow::AccessNode*>(&node)) {
+            if (access->data() == first_indvar->get_name()) {
+                return false;
+            }
+        } else if (auto* library_node = dynamic_cast<data_flow::LibraryNode*>(&node)) {
+            if (library_node->side_effect() || library_node->symbols().contains(first_indvar)) {
+                return false;
+            }
+        }
+    }
+
     // For each fusion container, find the producer memlet and collect unique consumer subsets
     for (const auto& container : fusion_containers) {
         // Find unique producer in first map (producer)
@@ -186,6 +222,11 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
                     if (consumer_subset.size() != 1) {
                         return false;
                     }
+                    // All reads of an access node are redirected together
+                    auto& first_memlet = *dataflow.out_edges(*access).begin();
+                    if (!symbolic::eq(consumer_subset.at(0), first_memlet.subset().at(0))) {
+                        return false;
+                    }
                     unique_subsets.insert(consumer_subset.at(0));
                 }
             }
@@ -203,6 +244,14 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
             for (const auto& atom : symbolic::atoms(index_mapping)) {
                 std::string name = atom->get_name();
                 if (name != second_indvar->get_name()) {
+                    // Symbols modified by one of the loops are not parameters
+                    auto first_arg = first_args.find(name);
+                    auto second_arg = second_args.find(name);
+                    if ((first_arg != first_args.end() && first_arg->second.is_output) ||
+                        (second_arg != second_args.end() && second_arg->second.is_output)) {
+                        valid_mapping = false;
+                        break;
+                    }
                     // Check if it's a parameter (constant for both loops)
                     bool is_param = false;
                     for (const auto& [arg_name, arg] : second_args) {
@@ -236,6 +285,14 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
             candidate.consumer_subset = {consumer_expr};
             candidate.index_mapping = index_mapping;
 
+            // The division above is exact for unit coefficients and for identical subsets
+            if (symbolic::eq(first_coeff, symbolic::one())) {
+                candidate.exact_mapping = index_mapping;
+            } else if (SymEngine::is_a<SymEngine::Integer>(*first_coeff) &&
+                       symbolic::eq(symbolic::subs(producer_expr, first_indvar, second_indvar), consumer_expr)) {
+                candidate.exact_mapping = second_indvar;
+            }
+
             fusion_candidates_.push_back(candidate);
         }
     }
@@ -244,6 +301,79 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
     return !fusion_candidates_.empty();
 }
 
+bool MapFusion::covers_reads(analysis::AnalysisManager& analysis_manager) {
+    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
+    auto first_indvar = first_map_.indvar();
+    auto second_indvar = second_loop_.indvar();
+
+    // Iteration ranges: first_map in [init, bound) with stride 1, second_loop within [init, bound)
+    auto first_stride = analysis::LoopAnalysis::stride(&first_map_);
+    auto second_stride = analysis::LoopAnalysis::stride(&second_loop_);
+    if (first_stride == SymEngine::null || second_stride == SymEngine::null) {
+        return false;
+    }
+    if (first_stride->as_int() != 1 || second_stride->as_int() < 1) {
+        return false;
+    }
+    auto first_init = first_map_.init();
+    auto second_init = second_loop_.init();
+    auto first_bound = analysis::LoopAnalysis::canonical_bound(&first_map_, assumptions_analysis);
+    auto second_bound = analysis::LoopAnalysis::canonical_bound(&second_loop_, assumptions_analysis);
+    if (first_bound == SymEngine::null || second_bound == SymEngine::null) {
+        return false;
+    }
+
+    // The ranges must have the same meaning in both loops
+    auto& arguments_analysis = analysis_manager.get<analysis::ArgumentsAnalysis>();
+    for (auto& expr : {first_init, first_bound, second_init, second_bound}) {
+        for (auto& atom : symbolic::atoms(expr)) {
+            if (symbolic::eq(atom, first_indvar) || symbolic::eq(atom, second_indvar)) {
+                return false;
+            }
+            for (auto* loop : {static_cast<structured_control_flow::StructuredLoop*>(&first_map_), &second_loop_}) {
+                auto& args = arguments_analysis.arguments(analysis_manager, *loop);
+                auto arg = args.find(atom->get_name());
+                if (arg != args.end() && arg->second.is_output) {
+                    return false;
+                }
+            }
+        }
+    }
+
+    auto is_nonnegative = [](const symbolic::Expression& expr) {
+        auto expanded = symbolic::expand(expr);
+        return SymEngine::is_a<SymEngine::Integer>(*expanded) &&
+               !SymEngine::rcp_static_cast<const SymEngine::Integer>(expanded)->is_negative();
+    };
+
+    for (auto& candidate : fusion_candidates_) {
+        if (candidate.exact_mapping == SymEngine::null) {
+            return false;
+        }
+        // Criterion: The mapping grows with the indvar of the second loop
+        symbolic::SymbolVec symbols = {second_indvar};
+        auto poly = symbolic::polynomial(candidate.exact_mapping, symbols);
+        if (poly == SymEngine::null) {
+            return false;
+        }
+        auto coeffs = symbolic::affine_coefficients(poly, symbols);
+        if (coeffs.empty() || !is_nonnegative(coeffs[second_indvar])) {
+            return false;
+        }
+        // Criterion: The first and the last index lie within the range of the first map
+        auto first_index = symbolic::subs(candidate.exact_mapping, second_indvar, second_init);
+        auto last_index =
+            symbolic::subs(candidate.exact_mapping, second_indvar, symbolic::sub(second_bound, symbolic::one()));
+        if (!is_nonnegative(symbolic::sub(first_index, first_init))) {
+            return false;
+        }
+        if (!is_nonnegative(symbolic::sub(symbolic::sub(first_bound, symbolic::one()), last_index))) {
+            return false;
+        }
+    }
+    return true;
+}
+
 void MapFusion::apply(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager) {
     auto& sdfg = builder.subject();
 
-- 
2.43.0


From 2af3b9931d20032970ac67edd9ff883c2d3e09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 17/57] fix: compare delinearized accesses only if both are
 linearized the same way

---
 sdfg/include/sdfg/symbolic/utils.h |  15 ++
 sdfg/src/symbolic/maps.cpp         |   3 +-
 sdfg/src/symbolic/sets.cpp         |   6 +-
 sdfg/src/symbolic/utils.cpp        | 262 ++++++++++++++++++-----------
 4 files changed, 185 insertions(+), 101 deletions(-)

diff --git a/sdfg/include/sdfg/symbolic/utils.h b/sdfg/include/sdfg/symbolic/utils.h
index fa4f399..48fcfe6 100644
--- a/sdfg/include/sdfg/symbolic/utils.h
+++ b/sdfg/include/sdfg/symbolic/utils.h
@@ -104,5 +104,20 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
  */
 MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums);
 
+/**
+ * @brief Delinearizes two accesses to the same container for a comparison
+ * @param expr1 First access
+ * @param expr2 Second access
+ * @param assums1 Assumptions about symbols of the first access
+ * @param assums2 Assumptions about symbols of the second access
+ * @return Delinearized accesses
+ *
+ * An index is delinearized only if both accesses use the same strides and all inner
+ * dimensions are in bounds, i.e., if the indices are equal exactly if all dimensions are equal.
+ */
+std::pair<MultiExpression, MultiExpression> delinearize(
+    const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
+);
+
 } // namespace symbolic
 } // namespace sdfg
diff --git a/sdfg/src/symbolic/maps.cpp b/sdfg/src/symbolic/maps.cpp
index cccbccb..c6fddb7 100644
--- a/sdfg/src/symbolic/maps.cpp
+++ b/sdfg/src/symbolic/maps.cpp
@@ -93,8 +93,7 @@ bool is_disjoint_isl(
     }
 
     // Transform both expressions into two maps with separate dimensions
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
     if (expr1_delinearized.size() != expr2_delinearized.size()) {
         return false;
     }
diff --git a/sdfg/src/symbolic/sets.cpp b/sdfg/src/symbolic/sets.cpp
index 3b1802f..8f4e26d 100644
--- a/sdfg/src/symbolic/sets.cpp
+++ b/sdfg/src/symbolic/sets.cpp
@@ -17,8 +17,7 @@ bool is_subset(
         return true;
     }
 
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
@@ -73,8 +72,7 @@ bool is_subset(
 bool is_disjoint(
     const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
 ) {
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index f404343..7008c1f 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -588,120 +588,163 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
     }
 }
 
-MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums) {
-    MultiExpression delinearized;
-    for (auto& dim : expr) {
-        // Check if more than two symbols are involved
-        SymbolVec symbols;
-        for (auto& sym : atoms(dim)) {
-            if (!assums.at(sym).constant() || !assums.at(sym).map().is_null()) {
-                symbols.push_back(sym);
+// Peels off the dimensions of a linearized index, outermost first
+// Returns empty dimensions if the index cannot be delinearized
+static std::pair<MultiExpression, MultiExpression> peel_dimensions(const Expression& dim, const Assumptions& assums) {
+    // Check if more than two symbols are involved
+    SymbolVec symbols;
+    for (auto& sym : atoms(dim)) {
+        if (!assums.at(sym).constant() || !assums.at(sym).map().is_null()) {
+            symbols.push_back(sym);
+        }
+    }
+    if (symbols.size() < 1) {
+        return {};
+    }
+
+    // Step 1: Get polynomial form and affine coefficients
+    auto poly = polynomial(dim, symbols);
+    if (poly == SymEngine::null) {
+        return {};
+    }
+    auto aff_coeffs = affine_coefficients(poly, symbols);
+    if (aff_coeffs.empty()) {
+        return {};
+    }
+    auto offset = aff_coeffs.at(symbolic::symbol("__daisy_constant__"));
+    aff_coeffs.erase(symbolic::symbol("__daisy_constant__"));
+
+    // Step 2: Peel-off dimensions
+    bool success = true;
+    Expression remaining = symbolic::sub(dim, offset);
+    MultiExpression peeled_dims;
+    MultiExpression strides;
+    while (!aff_coeffs.empty()) {
+        // Find the symbol with largest stride (= largest atom count)
+        Symbol new_dim = SymEngine::null;
+        size_t max_atom_count = 0;
+        for (const auto& [sym, coeff] : aff_coeffs) {
+            size_t atom_count = symbolic::atoms(coeff).size();
+            if (atom_count > max_atom_count || new_dim.is_null()) {
+                max_atom_count = atom_count;
+                new_dim = sym;
             }
         }
-        if (symbols.size() < 1) {
-            delinearized.push_back(dim);
-            continue;
+        if (new_dim.is_null()) {
+            break;
         }
 
-        // Step 1: Get polynomial form and affine coefficients
-        auto poly = polynomial(dim, symbols);
-        if (poly == SymEngine::null) {
-            delinearized.push_back(dim);
-            continue;
+        // Symbol must be nonnegative
+        auto sym_lb = minimum(new_dim, {}, assums);
+        if (sym_lb.is_null()) {
+            break;
         }
-        auto aff_coeffs = affine_coefficients(poly, symbols);
-        if (aff_coeffs.empty()) {
-            delinearized.push_back(dim);
-            continue;
+        auto sym_cond = symbolic::Ge(sym_lb, symbolic::zero());
+        if (!symbolic::is_true(sym_cond)) {
+            break;
         }
-        auto offset = aff_coeffs.at(symbolic::symbol("__daisy_constant__"));
-        aff_coeffs.erase(symbolic::symbol("__daisy_constant__"));
-
-        // Step 2: Peel-off dimensions
-        bool success = true;
-        Expression remaining = symbolic::sub(dim, offset);
-        std::vector<Expression> peeled_dims;
-        while (!aff_coeffs.empty()) {
-            // Find the symbol with largest stride (= largest atom count)
-            Symbol new_dim = SymEngine::null;
-            size_t max_atom_count = 0;
-            for (const auto& [sym, coeff] : aff_coeffs) {
-                size_t atom_count = symbolic::atoms(coeff).size();
-                if (atom_count > max_atom_count || new_dim.is_null()) {
-                    max_atom_count = atom_count;
-                    new_dim = sym;
-                }
-            }
-            if (new_dim.is_null()) {
-                break;
-            }
 
-            // Symbol must be nonnegative
-            auto sym_lb = minimum(new_dim, {}, assums);
-            if (sym_lb.is_null()) {
-                break;
-            }
-            auto sym_cond = symbolic::Ge(sym_lb, symbolic::zero());
-            if (!symbolic::is_true(sym_cond)) {
-                break;
-            }
+        // Stride must be positive
+        Expression stride = aff_coeffs.at(new_dim);
+        auto stride_lb = minimum(stride, {}, assums);
+        if (stride_lb.is_null()) {
+            break;
+        }
+        auto stride_cond = symbolic::Ge(stride_lb, symbolic::one());
+        if (!symbolic::is_true(stride_cond)) {
+            break;
+        }
 
-            // Stride must be positive
-            Expression stride = aff_coeffs.at(new_dim);
-            auto stride_lb = minimum(stride, {}, assums);
-            if (stride_lb.is_null()) {
-                break;
-            }
-            auto stride_cond = symbolic::Ge(stride_lb, symbolic::one());
-            if (!symbolic::is_true(stride_cond)) {
-                break;
-            }
+        // Peel off the dimension
+        remaining = symbolic::sub(remaining, symbolic::mul(stride, new_dim));
+        remaining = symbolic::expand(remaining);
+        remaining = symbolic::simplify(remaining);
 
-            // Peel off the dimension
-            remaining = symbolic::sub(remaining, symbolic::mul(stride, new_dim));
-            remaining = symbolic::expand(remaining);
-            remaining = symbolic::simplify(remaining);
+        // Check if remainder is within bounds
 
-            // Check if remainder is within bounds
+        // remaining must be nonnegative
+        auto rem_lb = minimum(remaining, {}, assums);
+        if (rem_lb.is_null()) {
+            break;
+        }
+        auto cond_zero = symbolic::Ge(rem_lb, symbolic::zero());
+        if (!symbolic::is_true(cond_zero)) {
+            break;
+        }
 
-            // remaining must be nonnegative
-            auto rem_lb = minimum(remaining, {}, assums);
-            if (rem_lb.is_null()) {
-                break;
-            }
-            auto cond_zero = symbolic::Ge(rem_lb, symbolic::zero());
-            if (!symbolic::is_true(cond_zero)) {
-                break;
-            }
+        // remaining must be less than stride
+        auto ub_stride = maximum(stride, {}, assums);
+        auto ub_remaining = maximum(remaining, {}, assums);
+        auto cond_stride = symbolic::Ge(ub_stride, ub_remaining);
+        if (!symbolic::is_true(cond_stride)) {
+            break;
+        }
 
-            // remaining must be less than stride
-            auto ub_stride = maximum(stride, {}, assums);
-            auto ub_remaining = maximum(remaining, {}, assums);
-            auto cond_stride = symbolic::Ge(ub_stride, ub_remaining);
-            if (!symbolic::is_true(cond_stride)) {
-                break;
-            }
+        // Add offset contribution of peeled dimension
+        auto [q, r] = polynomial_div(offset, stride);
+        offset = r;
+        auto final_dim = symbolic::add(new_dim, q);
+
+        peeled_dims.push_back(final_dim);
+        strides.push_back(stride);
+        aff_coeffs.erase(new_dim);
+    }
+    // Not all dimensions could be peeled off
+    if (!aff_coeffs.empty()) {
+        return {};
+    }
+    // Offset did not reduce to zero
+    if (!symbolic::eq(offset, symbolic::zero())) {
+        return {};
+    }
 
-            // Add offset contribution of peeled dimension
-            auto [q, r] = polynomial_div(offset, stride);
-            offset = r;
-            auto final_dim = symbolic::add(new_dim, q);
+    // Success
+    return {peeled_dims, strides};
+}
 
-            peeled_dims.push_back(final_dim);
-            aff_coeffs.erase(new_dim);
+// Indices with the same strides are equal only if all dimensions are equal
+static bool is_unique(const MultiExpression& dims, const MultiExpression& strides, const Assumptions& assums) {
+    SymbolSet parameters;
+    for (auto& entry : assums) {
+        if (entry.second.constant() && entry.second.map().is_null()) {
+            parameters.insert(entry.first);
         }
-        // Not all dimensions could be peeled off
-        if (!aff_coeffs.empty()) {
-            delinearized.push_back(dim);
-            continue;
+    }
+
+    for (size_t i = 1; i < dims.size(); i++) {
+        // Criterion: The strides are nested
+        auto size = polynomial_div(strides.at(i - 1), strides.at(i)).first;
+        auto remainder = symbolic::sub(strides.at(i - 1), symbolic::mul(size, strides.at(i)));
+        if (!symbolic::eq(symbolic::expand(remainder), symbolic::zero())) {
+            return false;
+        }
+
+        // Criterion: The dimension stays within [0, size)
+        auto lb = minimum(dims.at(i), {}, assums);
+        auto ub = maximum(dims.at(i), parameters, assums);
+        if (lb.is_null() || ub.is_null()) {
+            return false;
+        }
+        auto slack = minimum(symbolic::expand(symbolic::sub(size, ub)), {}, assums);
+        if (slack.is_null()) {
+            return false;
         }
-        // Offset did not reduce to zero
-        if (!symbolic::eq(offset, symbolic::zero())) {
+        if (!symbolic::is_true(symbolic::Ge(lb, symbolic::zero())) ||
+            !symbolic::is_true(symbolic::Ge(slack, symbolic::one()))) {
+            return false;
+        }
+    }
+    return true;
+}
+
+MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums) {
+    MultiExpression delinearized;
+    for (auto& dim : expr) {
+        auto peeled_dims = peel_dimensions(dim, assums).first;
+        if (peeled_dims.empty()) {
             delinearized.push_back(dim);
             continue;
         }
-
-        // Success
         for (auto& peeled_dim : peeled_dims) {
             delinearized.push_back(peeled_dim);
         }
@@ -710,5 +753,34 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
     return delinearized;
 }
 
+std::pair<MultiExpression, MultiExpression> delinearize(
+    const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
+) {
+    if (expr1.size() != expr2.size()) {
+        return {expr1, expr2};
+    }
+
+    MultiExpression delinearized1;
+    MultiExpression delinearized2;
+    for (size_t i = 0; i < expr1.size(); i++) {
+        auto [dims1, strides1] = peel_dimensions(expr1.at(i), assums1);
+        auto [dims2, strides2] = peel_dimensions(expr2.at(i), assums2);
+
+        // The dimensions are comparable only if both indices are linearized the same way
+        bool comparable = !dims1.empty() && dims1.size() == dims2.size();
+        for (size_t j = 0; comparable && j < strides1.size(); j++) {
+            comparable = symbolic::eq(strides1.at(j), strides2.at(j));
+        }
+        comparable = comparable && is_unique(dims1, strides1, assums1) && is_unique(dims2, strides2, assums2);
+        if (!comparable) {
+            dims1 = {expr1.at(i)};
+            dims2 = {expr2.at(i)};
+        }
+        delinearized1.insert(delinearized1.end(), dims1.begin(), dims1.end());
+        delinearized2.insert(delinearized2.end(), dims2.begin(), dims2.end());
+    }
+    return {delinearized1, delinearized2};
+}
+
 } // namespace symbolic
 } // namespace sdfg
-- 
2.43.0


From 4d3668f625f5adcab5fd78695130d21d8b7ea733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 18/57] fix: array accesses are overwritten only by writes that
 provably cover them in the same iteration

---
 .../sdfg/analysis/data_dependency_analysis.h  |   3 +
 .../src/analysis/data_dependency_analysis.cpp | 128 +++++++++++++-----
 sdfg/src/symbolic/sets.cpp                    |  17 ++-
 sdfg/src/symbolic/utils.cpp                   |   2 +-
 4 files changed, 112 insertions(+), 38 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/data_dependency_analysis.h b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
index 4d8b7f1..98ad465 100644
--- a/sdfg/include/sdfg/analysis/data_dependency_analysis.h
+++ b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
@@ -59,6 +59,9 @@ private:
 
     bool depends(analysis::AnalysisManager& analysis_manager, User& previous, User& current);
 
+    /// True if the write overwrites all elements of the access, assuming that it is executed in the same iteration.
+    bool overwrites(analysis::AnalysisManager& analysis_manager, User& access, User& write);
+
     bool is_scalar(const std::string& container) const;
 
     /**
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index 9174371..389fcca 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -8,6 +8,7 @@
 
 #include "sdfg/analysis/analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
+#include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/structured_sdfg.h"
 #include "sdfg/symbolic/maps.h"
 #include "sdfg/symbolic/sets.h"
@@ -703,29 +704,7 @@ bool DataDependencyAnalysis::
         return false;
     }
 
-    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto& previous_subsets = previous.subsets();
-    auto& current_subsets = current.subsets();
-    auto previous_scope = Users::scope(&previous);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto current_scope = Users::scope(&current);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
-
-    // Check if previous subset is subset of any current subset
-    for (auto& previous_subset : previous_subsets) {
-        bool found = false;
-        for (auto& current_subset : current_subsets) {
-            if (symbolic::is_subset(previous_subset, current_subset, previous_assumptions, previous_assumptions)) {
-                found = true;
-                break;
-            }
-        }
-        if (!found) {
-            return false;
-        }
-    }
-
-    return true;
+    return this->overwrites(analysis_manager, previous, current);
 }
 
 bool DataDependencyAnalysis::intersects(User& previous, User& current, analysis::AnalysisManager& analysis_manager) {
@@ -800,20 +779,102 @@ bool DataDependencyAnalysis::
         return false;
     }
 
-    // Collect memlets and assumptions
+    return this->overwrites(analysis_manager, previous, current);
+}
+
+bool DataDependencyAnalysis::overwrites(analysis::AnalysisManager& analysis_manager, User& access, User& write) {
     auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto previous_scope = Users::scope(&previous);
-    auto current_scope = Users::scope(&current);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
+    auto access_scope = Users::scope(&access);
+    auto write_scope = Users::scope(&write);
+
+    // Loops around the write only and innermost loop around both users
+    auto access_ancestors = scope_analysis.ancestor_scopes(access_scope);
+    std::unordered_set<structured_control_flow::ControlFlowNode*>
+        common_scopes(access_ancestors.begin(), access_ancestors.end());
+    std::vector<structured_control_flow::StructuredLoop*> write_loops;
+    structured_control_flow::StructuredLoop* common_loop = nullptr;
+    for (auto scope : scope_analysis.ancestor_scopes(write_scope)) {
+        auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(scope);
+        if (common_scopes.contains(scope)) {
+            if (loop != nullptr) {
+                common_loop = loop;
+                break;
+            }
+        } else if (loop != nullptr) {
+            write_loops.push_back(loop);
+        } else if (dynamic_cast<structured_control_flow::IfElse*>(scope) != nullptr ||
+                   dynamic_cast<structured_control_flow::While*>(scope) != nullptr) {
+            return false;
+        }
+    }
 
-    auto& previous_memlets = previous.subsets();
-    auto& current_memlets = current.subsets();
+    // Shared symbols have the same value at both users
+    auto is_shared = [&](const symbolic::Symbol& sym) {
+        if (common_loop == nullptr) {
+            return assumptions_analysis.is_parameter(sym);
+        }
+        auto& assumptions = assumptions_analysis.get(common_loop->root(), true);
+        auto assumption = assumptions.find(sym);
+        return assumptions_analysis.is_parameter(sym) ||
+               (assumption != assumptions.end() && assumption->second.constant());
+    };
+    auto is_write_indvar = [&](const symbolic::Symbol& sym) {
+        for (auto loop : write_loops) {
+            if (symbolic::eq(loop->indvar(), sym)) {
+                return true;
+            }
+        }
+        return false;
+    };
+
+    // Criterion: The iterations of the write are known
+    for (auto loop : write_loops) {
+        if (!LoopAnalysis::is_contiguous(loop, assumptions_analysis) ||
+            LoopAnalysis::canonical_bound(loop, assumptions_analysis).is_null()) {
+            return false;
+        }
+        for (auto& expr : {symbolic::SymbolSet(symbolic::atoms(loop->init())), symbolic::atoms(loop->condition())}) {
+            for (auto& sym : expr) {
+                if (!is_shared(sym) && !is_write_indvar(sym)) {
+                    return false;
+                }
+            }
+        }
+    }
+
+    auto access_assumptions = assumptions_analysis.get(*access_scope, true);
+    for (auto& entry : access_assumptions) {
+        entry.second.constant(is_shared(entry.first));
+    }
+    auto write_assumptions = assumptions_analysis.get(*write_scope, true);
+    for (auto& entry : write_assumptions) {
+        entry.second.constant(is_shared(entry.first) && !is_write_indvar(entry.first));
+    }
 
-    for (auto& subset_ : previous_memlets) {
+    auto covers = [&](const data_flow::Subset& access_subset, const data_flow::Subset& write_subset) {
+        bool equal = access_subset.size() == write_subset.size();
+        for (auto& dim : write_subset) {
+            for (auto& sym : symbolic::atoms(dim)) {
+                if (!is_shared(sym)) {
+                    if (!is_write_indvar(sym)) {
+                        return false;
+                    }
+                    equal = false;
+                }
+            }
+        }
+        for (size_t i = 0; equal && i < access_subset.size(); i++) {
+            auto difference = symbolic::sub(access_subset.at(i), write_subset.at(i));
+            equal = symbolic::eq(symbolic::expand(difference), symbolic::zero());
+        }
+        return equal || symbolic::is_subset(access_subset, write_subset, access_assumptions, write_assumptions);
+    };
+
+    for (auto& access_subset : access.subsets()) {
         bool overwritten = false;
-        for (auto& subset : current_memlets) {
-            if (symbolic::is_subset(subset_, subset, previous_assumptions, current_assumptions)) {
+        for (auto& write_subset : write.subsets()) {
+            if (covers(access_subset, write_subset)) {
                 overwritten = true;
                 break;
             }
@@ -822,7 +883,6 @@ bool DataDependencyAnalysis::
             return false;
         }
     }
-
     return true;
 }
 
diff --git a/sdfg/src/symbolic/sets.cpp b/sdfg/src/symbolic/sets.cpp
index 8f4e26d..a183cd0 100644
--- a/sdfg/src/symbolic/sets.cpp
+++ b/sdfg/src/symbolic/sets.cpp
@@ -10,6 +10,11 @@
 namespace sdfg {
 namespace symbolic {
 
+static bool is_constant(const Symbol symbol, const Assumptions& assums) {
+    auto assum = assums.find(symbol);
+    return assum != assums.end() && assum->second.constant();
+}
+
 bool is_subset(
     const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
 ) {
@@ -47,9 +52,15 @@ bool is_subset(
     isl_map* aligned_map_1 = isl_map_align_params(map_1, isl_space_copy(unified_params));
     isl_map* aligned_map_2 = isl_map_align_params(map_2, isl_space_copy(unified_params));
 
-    // Remove parameters explicitly (project them out)
-    aligned_map_1 = isl_map_project_out(aligned_map_1, isl_dim_param, 0, isl_map_dim(aligned_map_1, isl_dim_param));
-    aligned_map_2 = isl_map_project_out(aligned_map_2, isl_dim_param, 0, isl_map_dim(aligned_map_2, isl_dim_param));
+    // Parameters have the same value in both sets, other symbols are projected out
+    for (int i = isl_map_dim(aligned_map_1, isl_dim_param) - 1; i >= 0; i--) {
+        auto param = symbolic::symbol(isl_map_get_dim_name(aligned_map_1, isl_dim_param, i));
+        if (is_constant(param, assums1) && is_constant(param, assums2)) {
+            continue;
+        }
+        aligned_map_1 = isl_map_project_out(aligned_map_1, isl_dim_param, i, 1);
+        aligned_map_2 = isl_map_project_out(aligned_map_2, isl_dim_param, i, 1);
+    }
 
     canonicalize_map_dims(aligned_map_1, "in_", "out_");
     canonicalize_map_dims(aligned_map_2, "in_", "out_");
diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 7008c1f..00d6f5a 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -100,7 +100,7 @@ std::string expression_to_map_str(const MultiExpression& expr, const Assumptions
     std::vector<std::string> parameters;
     SymbolSet parameters_syms;
     for (auto& sym : syms) {
-        if (assums.find(sym) == assums.end() && assums.at(sym).constant()) {
+        if (assums.find(sym) != assums.end() && assums.at(sym).constant()) {
             if (parameters_syms.find(sym) != parameters_syms.end()) {
                 continue;
             }
-- 
2.43.0


From 31a42c132550b9b69bc9b6abce3bd557c3d564ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 19/57] fix: common assignment elimination must not change
 values on other paths

---
 .../common_assignment_elimination.cpp         | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp b/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
index 500a2f1..94cca83 100644
--- a/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
@@ -27,7 +27,8 @@ bool CommonAssignmentElimination::
             for (size_t i = 0; i < sequence_stmt->size(); i++) {
                 auto child = sequence_stmt->at(i);
                 if (auto if_else_stmt = dynamic_cast<structured_control_flow::IfElse*>(&child.first)) {
-                    if (if_else_stmt->size() < 2) {
+                    // The assignment may only be repeated after the branches if one of them is always taken
+                    if (if_else_stmt->size() < 2 || !if_else_stmt->is_complete()) {
                         continue;
                     }
                     auto& first_branch = if_else_stmt->at(0).first;
@@ -71,6 +72,26 @@ bool CommonAssignmentElimination::
                             continue;
                         }
 
+                        // The assigned value must be the same when evaluated again after the branches
+                        bool stable_value = true;
+                        for (auto& atom : symbolic::atoms(first_assignment)) {
+                            if (child.second.assignments().find(atom) != child.second.assignments().end()) {
+                                stable_value = false;
+                                break;
+                            }
+                            for (size_t j = 0; j < if_else_stmt->size(); j++) {
+                                auto& branch = if_else_stmt->at(j).first;
+                                auto& assignments = branch.at(branch.size() - 1).second.assignments();
+                                if (assignments.find(atom) != assignments.end()) {
+                                    stable_value = false;
+                                    break;
+                                }
+                            }
+                        }
+                        if (!stable_value) {
+                            continue;
+                        }
+
                         child.second.assignments().insert({first_assign, first_assignment});
                         applied = true;
                     }
-- 
2.43.0


From d953e580e25b02068c8277d035b41bf7b9e67e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 20/57] fix: convert while loops only if the update is executed
 in every iteration

---
 .../structured_control_flow/while_to_for_conversion.cpp      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp b/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp
index aac54dd..634c2b5 100644
--- a/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp
+++ b/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp
@@ -104,6 +104,11 @@ bool WhileToForConversion::can_be_applied(
     ;
     auto update = update_element->assignments().at(indvar);
 
+    // The update must be executed exactly once per iteration
+    if (&update_element->parent() != &body) {
+        return false;
+    }
+
     std::unordered_set<std::string> update_symbols;
     for (auto atom : symbolic::atoms(update)) {
         auto sym = SymEngine::rcp_static_cast<const SymEngine::Symbol>(atom);
-- 
2.43.0


From 907950157a9769f2fb394eab124ac15f5b27943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 21/57] fix: symbol evolution must accept non-polynomial
 updates

---
 sdfg/src/passes/symbolic/symbol_evolution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdfg/src/passes/symbolic/symbol_evolution.cpp b/sdfg/src/passes/symbolic/symbol_evolution.cpp
index 2ad6932..df5a85e 100644
--- a/sdfg/src/passes/symbolic/symbol_evolution.cpp
+++ b/sdfg/src/passes/symbolic/symbol_evolution.cpp
@@ -91,6 +91,9 @@ symbolic::Expression scalar_evolution(
     // Example: sum = 0 (init) -> sum = sum + 5 (update) => sum = 5 * (i - init) / stride + 0
     symbolic::SymbolVec gens = {sym};
     auto poly = symbolic::polynomial(sym_update, gens);
+    if (poly == SymEngine::null) {
+        return SymEngine::null;
+    }
     auto coeffs = symbolic::affine_coefficients(poly, gens);
     if (coeffs.empty()) {
         return SymEngine::null;
-- 
2.43.0


From e06385c559f79e31c0a1e6ecc47681a1108abafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 22/57] fix: register the serializer of cast nodes

---
 sdfg/src/serializer/json_serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/serializer/json_serializer.cpp b/sdfg/src/serializer/json_serializer.cpp
index d6614b2..32ad1bd 100644
--- a/sdfg/src/serializer/json_serializer.cpp
+++ b/sdfg/src/serializer/json_serializer.cpp
@@ -1379,6 +1379,10 @@ void register_default_serializers() {
         .register_library_node_serializer(math::tensor::LibraryNodeType_Add.value(), []() {
             return std::make_unique<math::tensor::AddNodeSerializer>();
         });
+    LibraryNodeSerializerRegistry::instance()
+        .register_library_node_serializer(math::tensor::LibraryNodeType_Cast.value(), []() {
+            return std::make_unique<math::tensor::CastNodeSerializer>();
+        });
     LibraryNodeSerializerRegistry::instance()
         .register_library_node_serializer(math::tensor::LibraryNodeType_Div.value(), []() {
             return std::make_unique<math::tensor::DivNodeSerializer>();
-- 
2.43.0


From f3dd459d8655220615efa8a8f9565d366f5e9432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 23/57] fix: propagate references only while their offsets keep
 their value

---
 .../passes/dataflow/reference_propagation.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sdfg/src/passes/dataflow/reference_propagation.cpp b/sdfg/src/passes/dataflow/reference_propagation.cpp
index cecde30..b3acbeb 100644
--- a/sdfg/src/passes/dataflow/reference_propagation.cpp
+++ b/sdfg/src/passes/dataflow/reference_propagation.cpp
@@ -148,6 +148,26 @@ bool ReferencePropagation::run_pass(builder::StructuredSDFGBuilder& builder, ana
                 }
             }
 
+            // Criterion: No reassignment of the symbols in the offset in between
+            symbolic::SymbolSet offset_symbols;
+            for (auto& dim : move_subset) {
+                auto atoms = symbolic::atoms(dim);
+                offset_symbols.insert(atoms.begin(), atoms.end());
+            }
+            if (!offset_symbols.empty()) {
+                bool unsafe = false;
+                for (auto& use : users_analysis.all_uses_between(*move, *user)) {
+                    if (use->use() == analysis::Use::WRITE &&
+                        offset_symbols.find(symbolic::symbol(use->container())) != offset_symbols.end()) {
+                        unsafe = true;
+                        break;
+                    }
+                }
+                if (unsafe) {
+                    continue;
+                }
+            }
+
             auto& user_node = static_cast<data_flow::AccessNode&>(*user->element());
 
             // Simple case: No arithmetic on pointer, just replace container
-- 
2.43.0


From 80a1f98ddd7221a8b81835d5da52492c20b18ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 24/57] fix: condition elimination must not make the
 assignments after a loop unconditional

---
 .../structured_control_flow/condition_elimination.cpp      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/condition_elimination.cpp b/sdfg/src/passes/structured_control_flow/condition_elimination.cpp
index 5d5e3c1..5c50e61 100644
--- a/sdfg/src/passes/structured_control_flow/condition_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/condition_elimination.cpp
@@ -27,6 +27,13 @@ bool ConditionElimination::eliminate_condition(
         return false;
     }
 
+    // All other assignments after the loop are only executed if the condition holds
+    for (auto& entry : branch_root.at(0).second.assignments()) {
+        if (!symbolic::eq(entry.first, loop_indvar)) {
+            return false;
+        }
+    }
+
     // If loop condition == true => condition == true && condition == false => loop condition == false
     auto loop_iter0_condition = symbolic::subs(loop_condition, loop_indvar, loop_init);
     if (symbolic::eq(loop_iter0_condition, branch_condition)) {
-- 
2.43.0


From d18afa914bca848b31749e145c78e069d27b3b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 25/57] fix: sequence fusion must keep the assignments after a
 subsequence

---
 sdfg/src/passes/structured_control_flow/sequence_fusion.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp b/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
index f142965..e14b7b8 100644
--- a/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
+++ b/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
@@ -31,6 +31,11 @@ bool SequenceFusion::run_pass(builder::StructuredSDFGBuilder& builder, analysis:
                     i++;
                     continue;
                 }
+                // Keep the assignments after the subsequence
+                if (!child.second.empty()) {
+                    auto assignments = child.second.assignments();
+                    builder.add_block_after(*seq, *subseq, assignments, child.second.debug_info());
+                }
                 builder.move_children(*subseq, *seq, i + 1);
                 builder.remove_child(*seq, i);
                 applied = true;
-- 
2.43.0


From 3188d5c424a29e384a2c6203edf5b32036dd5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 26/57] fix: do not convert loops to maps if the indvar is used
 afterwards

---
 .../structured_control_flow/for2map.cpp       | 37 +++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index 676961b..212e9a0 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -1,6 +1,9 @@
 #include "sdfg/passes/structured_control_flow/for2map.h"
 
+#include <algorithm>
+
 #include "sdfg/analysis/assumptions_analysis.h"
+#include "sdfg/analysis/dominance_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/analysis/users.h"
@@ -127,9 +130,37 @@ bool For2MapPass::can_be_applied(
         }
     }
 
-    // c. indvar not used after for
-    if (locals.find(for_stmt.indvar()->get_name()) != locals.end()) {
-        return false;
+    // c. indvar not used after for, i.e., all other reads are preceded by another definition
+    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    auto indvar = for_stmt.indvar()->get_name();
+    auto body_reads = body_users.reads(indvar);
+    auto body_writes = body_users.writes(indvar);
+    for (auto& read : users.reads(indvar)) {
+        if (read->element() == &for_stmt ||
+            std::find(body_reads.begin(), body_reads.end(), read) != body_reads.end()) {
+            continue;
+        }
+        bool redefined = false;
+        for (auto& write : users.writes(indvar)) {
+            if (write->element() == &for_stmt ||
+                std::find(body_writes.begin(), body_writes.end(), write) != body_writes.end() ||
+                !dominance_analysis.dominates(*write, *read)) {
+                continue;
+            }
+            redefined = true;
+            for (auto& use : users.all_uses_between(*write, *read)) {
+                if (use->element() == &for_stmt) {
+                    redefined = false;
+                    break;
+                }
+            }
+            if (redefined) {
+                break;
+            }
+        }
+        if (!redefined) {
+            return false;
+        }
     }
 
     return true;
-- 
2.43.0


From f4657867e21f470acc483d3f9e8d4e13fcbdafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 27/57] fix: replace moving pointers only if each iteration
 moves them once and they are not used afterwards

---
 .../pointer_evolution.cpp                     | 48 ++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/pointer_evolution.cpp b/sdfg/src/passes/structured_control_flow/pointer_evolution.cpp
index 027b5bf..573e16b 100644
--- a/sdfg/src/passes/structured_control_flow/pointer_evolution.cpp
+++ b/sdfg/src/passes/structured_control_flow/pointer_evolution.cpp
@@ -1,8 +1,11 @@
 #include "sdfg/passes/structured_control_flow/pointer_evolution.h"
 
+#include <algorithm>
+
 #include "sdfg/analysis/assumptions_analysis.h"
 #include "sdfg/analysis/dominance_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
+#include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/symbolic/conjunctive_normal_form.h"
 #include "sdfg/symbolic/polynomials.h"
 #include "sdfg/symbolic/series.h"
@@ -66,6 +69,50 @@ bool IteratorToIndvar::accept(structured_control_flow::For& loop) {
         return false;
     }
 
+    // Criterion: Each iteration of the loop advances the iterator exactly once
+    auto& block = static_cast<structured_control_flow::Block&>(*dfg.get_parent());
+    auto& scope_analysis = analysis_manager_.get<analysis::ScopeAnalysis>();
+    if (scope_analysis.parent_scope(&block) != &loop.root()) {
+        return false;
+    }
+    auto stride = analysis::LoopAnalysis::stride(&loop);
+    if (stride.is_null() || !symbolic::eq(stride, symbolic::one())) {
+        return false;
+    }
+
+    // Criterion: The advanced iterator is not used after the loop
+    if (builder_.subject().is_external(iterator)) {
+        return false;
+    }
+    auto loop_scope = scope_analysis.parent_scope(&loop);
+    bool is_reset = false;
+    for (auto& use : users_analysis.uses(iterator)) {
+        auto node = dynamic_cast<data_flow::AccessNode*>(use->element());
+        if (node == nullptr) {
+            return false;
+        }
+        auto parent = static_cast<structured_control_flow::Block*>(node->get_parent().get_parent());
+        auto ancestors = scope_analysis.ancestor_scopes(parent);
+        if (std::find(ancestors.begin(), ancestors.end(), &loop) != ancestors.end()) {
+            continue;
+        }
+        if (use->use() != analysis::Use::MOVE) {
+            return false;
+        }
+        if (scope_analysis.parent_scope(parent) == loop_scope) {
+            is_reset = true;
+        }
+    }
+    if (!is_reset) {
+        // The iterator would keep its value across the iterations of an enclosing loop
+        for (auto ancestor : scope_analysis.ancestor_scopes(&loop)) {
+            if (dynamic_cast<structured_control_flow::StructuredLoop*>(ancestor) ||
+                dynamic_cast<structured_control_flow::While*>(ancestor)) {
+                return false;
+            }
+        }
+    }
+
     // All uses of iterator happen before update
     std::unordered_set<data_flow::Memlet*> edges;
     auto& dominance_analysis = analysis_manager_.get<analysis::DominanceAnalysis>();
@@ -154,7 +201,6 @@ bool IteratorToIndvar::accept(structured_control_flow::For& loop) {
     }
 
     // Step 2: Remove iterator
-    auto& block = static_cast<structured_control_flow::Block&>(*dfg.get_parent());
     builder_.remove_memlet(block, move_edge);
     builder_.remove_node(block, move_dst);
     builder_.remove_node(block, move_src);
-- 
2.43.0


From 5039025a08415e879c00ddde71780123fb48dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 28/57] fix: reference propagation shifted the subsets of nodes
 that are read and written twice

---
 sdfg/src/passes/dataflow/reference_propagation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdfg/src/passes/dataflow/reference_propagation.cpp b/sdfg/src/passes/dataflow/reference_propagation.cpp
index b3acbeb..7f0f64d 100644
--- a/sdfg/src/passes/dataflow/reference_propagation.cpp
+++ b/sdfg/src/passes/dataflow/reference_propagation.cpp
@@ -170,6 +170,11 @@ bool ReferencePropagation::run_pass(builder::StructuredSDFGBuilder& builder, ana
 
             auto& user_node = static_cast<data_flow::AccessNode&>(*user->element());
 
+            // Criterion: Node not yet replaced (e.g., as the other use of a node that is read and written)
+            if (user_node.data() != container) {
+                continue;
+            }
+
             // Simple case: No arithmetic on pointer, just replace container
             if (move_subset.size() == 1 && symbolic::eq(move_subset[0], symbolic::zero())) {
                 user_node.data(viewed_container);
-- 
2.43.0


From cc82eac67f617efbef0090d601905fed76e4f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 29/57] fix: loop normalization changed the value of indvars
 that are used after the loop

---
 sdfg/include/sdfg/analysis/loop_analysis.h    | 11 +++++
 sdfg/src/analysis/loop_analysis.cpp           | 42 +++++++++++++++++++
 .../structured_control_flow/for2map.cpp       | 37 ++--------------
 .../loop_normalization.cpp                    |  5 +++
 4 files changed, 61 insertions(+), 34 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/loop_analysis.h b/sdfg/include/sdfg/analysis/loop_analysis.h
index 0bdf0ae..b54622e 100644
--- a/sdfg/include/sdfg/analysis/loop_analysis.h
+++ b/sdfg/include/sdfg/analysis/loop_analysis.h
@@ -134,6 +134,17 @@ public:
      */
     static bool is_monotonic(structured_control_flow::StructuredLoop* loop, const symbolic::Assumptions& assumptions);
 
+    /**
+     * @brief Checks if the indvar's value after the loop may be read, i.e., there are reads outside of the loop
+     * which are not preceded by another definition.
+     *
+     * @param loop The loop to check.
+     * @param analysis_manager The analysis manager to use.
+     * @return True if the indvar may be read after the loop, false otherwise.
+     */
+    static bool
+    is_indvar_live_out(structured_control_flow::StructuredLoop* loop, analysis::AnalysisManager& analysis_manager);
+
     /**
      * @brief Checks if a loop's update is a contiguous function (positive).
      *
diff --git a/sdfg/src/analysis/loop_analysis.cpp b/sdfg/src/analysis/loop_analysis.cpp
index 4060347..39ba0a1 100644
--- a/sdfg/src/analysis/loop_analysis.cpp
+++ b/sdfg/src/analysis/loop_analysis.cpp
@@ -1,8 +1,11 @@
 #include "sdfg/analysis/loop_analysis.h"
+#include <algorithm>
 #include <unordered_set>
 #include <vector>
 
 #include "sdfg/analysis/assumptions_analysis.h"
+#include "sdfg/analysis/dominance_analysis.h"
+#include "sdfg/analysis/users.h"
 #include "sdfg/structured_control_flow/map.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
 #include "sdfg/structured_control_flow/while.h"
@@ -238,6 +241,45 @@ bool LoopAnalysis::is_monotonic(structured_control_flow::StructuredLoop* loop, c
     return symbolic::series::is_monotonic(loop->update(), loop->indvar(), assumptions);
 }
 
+bool LoopAnalysis::is_indvar_live_out(
+    structured_control_flow::StructuredLoop* loop, analysis::AnalysisManager& analysis_manager
+) {
+    auto& users = analysis_manager.get<analysis::Users>();
+    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    analysis::UsersView body_users(users, loop->root());
+
+    auto indvar = loop->indvar()->get_name();
+    auto body_reads = body_users.reads(indvar);
+    auto body_writes = body_users.writes(indvar);
+    for (auto& read : users.reads(indvar)) {
+        if (read->element() == loop || std::find(body_reads.begin(), body_reads.end(), read) != body_reads.end()) {
+            continue;
+        }
+        bool redefined = false;
+        for (auto& write : users.writes(indvar)) {
+            if (write->element() == loop ||
+                std::find(body_writes.begin(), body_writes.end(), write) != body_writes.end() ||
+                !dominance_analysis.dominates(*write, *read)) {
+                continue;
+            }
+            redefined = true;
+            for (auto& use : users.all_uses_between(*write, *read)) {
+                if (use->element() == loop) {
+                    redefined = false;
+                    break;
+                }
+            }
+            if (redefined) {
+                break;
+            }
+        }
+        if (!redefined) {
+            return true;
+        }
+    }
+    return false;
+}
+
 bool LoopAnalysis::is_contiguous(structured_control_flow::StructuredLoop* loop, AssumptionsAnalysis& assumptions_analysis) {
     auto assums = assumptions_analysis.get(*loop, true);
 
diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index 212e9a0..621f12b 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -1,9 +1,6 @@
 #include "sdfg/passes/structured_control_flow/for2map.h"
 
-#include <algorithm>
-
 #include "sdfg/analysis/assumptions_analysis.h"
-#include "sdfg/analysis/dominance_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/analysis/users.h"
@@ -130,37 +127,9 @@ bool For2MapPass::can_be_applied(
         }
     }
 
-    // c. indvar not used after for, i.e., all other reads are preceded by another definition
-    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
-    auto indvar = for_stmt.indvar()->get_name();
-    auto body_reads = body_users.reads(indvar);
-    auto body_writes = body_users.writes(indvar);
-    for (auto& read : users.reads(indvar)) {
-        if (read->element() == &for_stmt ||
-            std::find(body_reads.begin(), body_reads.end(), read) != body_reads.end()) {
-            continue;
-        }
-        bool redefined = false;
-        for (auto& write : users.writes(indvar)) {
-            if (write->element() == &for_stmt ||
-                std::find(body_writes.begin(), body_writes.end(), write) != body_writes.end() ||
-                !dominance_analysis.dominates(*write, *read)) {
-                continue;
-            }
-            redefined = true;
-            for (auto& use : users.all_uses_between(*write, *read)) {
-                if (use->element() == &for_stmt) {
-                    redefined = false;
-                    break;
-                }
-            }
-            if (redefined) {
-                break;
-            }
-        }
-        if (!redefined) {
-            return false;
-        }
+    // c. indvar not used after for
+    if (analysis::LoopAnalysis::is_indvar_live_out(&for_stmt, analysis_manager)) {
+        return false;
     }
 
     return true;
diff --git a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
index 8a264f1..30fa9e2 100644
--- a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
+++ b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
@@ -182,6 +182,11 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
         return applied;
     }
 
+    // Following steps change the values of the indvar
+    if (analysis::LoopAnalysis::is_indvar_live_out(&loop, analysis_manager_)) {
+        return applied;
+    }
+
     try {
         new_cnf = symbolic::conjunctive_normal_form(condition);
     } catch (const symbolic::CNFException e) {
-- 
2.43.0


From 947ad619afdd559adea0cd41ffcdd6f031cbd23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 30/57] fix: loops moving pointers that are used outside of
 them were converted to maps

---
 sdfg/src/passes/structured_control_flow/for2map.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index 621f12b..cca2b22 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -127,7 +127,14 @@ bool For2MapPass::can_be_applied(
         }
     }
 
-    // c. indvar not used after for
+    // c. pointers moved by the loop must be loop-local
+    for (auto& move : body_users.moves()) {
+        if (locals.find(move->container()) == locals.end()) {
+            return false;
+        }
+    }
+
+    // d. indvar not used after for
     if (analysis::LoopAnalysis::is_indvar_live_out(&for_stmt, analysis_manager)) {
         return false;
     }
-- 
2.43.0


From bd1c8640afb2dd17bd82813e21dc8ecbe7091582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 31/57] fix: loop interchange reordered dependences and changed
 live-out indvars

---
 sdfg/src/transformations/loop_interchange.cpp | 47 +++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/transformations/loop_interchange.cpp b/sdfg/src/transformations/loop_interchange.cpp
index 45f1af0..5439f09 100644
--- a/sdfg/src/transformations/loop_interchange.cpp
+++ b/sdfg/src/transformations/loop_interchange.cpp
@@ -1,6 +1,9 @@
 #include "sdfg/transformations/loop_interchange.h"
 
+#include "sdfg/analysis/data_dependency_analysis.h"
+#include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
+#include "sdfg/analysis/users.h"
 #include "sdfg/exceptions.h"
 #include "sdfg/structured_control_flow/for.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
@@ -40,13 +43,51 @@ bool LoopInterchange::can_be_applied(builder::StructuredSDFGBuilder& builder, an
     if (&outer_loop_.root().at(0).first != &inner_loop_) {
         return false;
     }
+    // Criterion: Indvars not used after the loops, since the loops may have no iterations
+    for (auto* loop : {&this->outer_loop_, &this->inner_loop_}) {
+        if (dynamic_cast<structured_control_flow::For*>(loop) &&
+            analysis::LoopAnalysis::is_indvar_live_out(loop, analysis_manager)) {
+            return false;
+        }
+    }
+
     // Criterion: Any of both loops is a map
-    if (dynamic_cast<structured_control_flow::Map*>(&outer_loop_) ||
-        dynamic_cast<structured_control_flow::Map*>(&inner_loop_)) {
+    if (dynamic_cast<structured_control_flow::Map*>(&outer_loop_)) {
         return true;
     }
+    if (!dynamic_cast<structured_control_flow::Map*>(&inner_loop_)) {
+        return false;
+    }
+
+    // Criterion: Dependencies carried by the outer loop must not cross iterations of the inner map. As the map's
+    // iterations are independent, they cannot if the accesses are the same in each iteration of the outer loop
+    analysis::DataDependencyAnalysis data_dependency_analysis(builder.subject(), true);
+    data_dependency_analysis.run(analysis_manager);
+    auto& users = analysis_manager.get<analysis::Users>();
+    analysis::UsersView body_users(users, this->inner_loop_.root());
+    auto locals = users.locals(this->inner_loop_.root());
+    symbolic::SymbolSet changing = {outer_indvar};
+    for (auto& write : body_users.writes()) {
+        changing.insert(symbolic::symbol(write->container()));
+    }
+    for (auto& dep : data_dependency_analysis.dependencies(this->outer_loop_)) {
+        if (locals.find(dep.first) != locals.end()) {
+            continue;
+        }
+        for (auto& use : body_users.uses(dep.first)) {
+            for (auto& subset : use->subsets()) {
+                for (auto& dim : subset) {
+                    for (auto& atom : symbolic::atoms(dim)) {
+                        if (changing.find(atom) != changing.end()) {
+                            return false;
+                        }
+                    }
+                }
+            }
+        }
+    }
 
-    return false;
+    return true;
 };
 
 void LoopInterchange::apply(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager) {
-- 
2.43.0


From 7161846e5df039778134926cc766b30fa69e732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 32/57] fix: loop tiling changed the value of indvars that are
 used after the loop

---
 sdfg/src/transformations/loop_tiling.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdfg/src/transformations/loop_tiling.cpp b/sdfg/src/transformations/loop_tiling.cpp
index 32cc927..b432683 100644
--- a/sdfg/src/transformations/loop_tiling.cpp
+++ b/sdfg/src/transformations/loop_tiling.cpp
@@ -4,6 +4,7 @@
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/builder/structured_sdfg_builder.h"
+#include "sdfg/structured_control_flow/for.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
 #include "sdfg/symbolic/symbolic.h"
 
@@ -19,6 +20,11 @@ bool LoopTiling::can_be_applied(builder::StructuredSDFGBuilder& builder, analysi
     if (this->tile_size_ <= 1) {
         return false;
     }
+    // Criterion: Indvar not used after the loop, since it is not set anymore if there are no iterations
+    if (dynamic_cast<structured_control_flow::For*>(&loop_) &&
+        analysis::LoopAnalysis::is_indvar_live_out(&loop_, analysis_manager)) {
+        return false;
+    }
     // Criterion contiguous loop
     auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
     return analysis::LoopAnalysis::is_contiguous(&loop_, assumptions_analysis);
-- 
2.43.0


From ff62103a145d3e0a0b4e4a3b3f8d3da2717f46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 33/57] fix: out local storage was applied to accesses that it
 cannot replace

---
 .../src/transformations/out_local_storage.cpp | 63 ++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/transformations/out_local_storage.cpp b/sdfg/src/transformations/out_local_storage.cpp
index 3df8f24..57e88ba 100644
--- a/sdfg/src/transformations/out_local_storage.cpp
+++ b/sdfg/src/transformations/out_local_storage.cpp
@@ -13,6 +13,7 @@
 #include "sdfg/passes/structured_control_flow/sequence_fusion.h"
 #include "sdfg/structured_control_flow/sequence.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
+#include "sdfg/symbolic/polynomials.h"
 #include "sdfg/symbolic/symbolic.h"
 #include "sdfg/transformations/utils.h"
 #include "sdfg/types/array.h"
@@ -61,6 +62,29 @@ bool OutLocalStorage::can_be_applied(builder::StructuredSDFGBuilder& builder, an
         }
     }
 
+    // Criterion: Check if all accesses are computational and use the type of the container
+    analysis::TypeAnalysis type_analysis(builder.subject(), &loop_, analysis_manager);
+    auto type = type_analysis.get_outer_type(this->container_);
+    if (type == nullptr) {
+        return false;
+    }
+    for (auto access : accesses) {
+        auto access_node = dynamic_cast<data_flow::AccessNode*>(access->element());
+        if (access_node == nullptr) {
+            return false;
+        }
+        for (auto& iedge : access_node->get_parent().in_edges(*access_node)) {
+            if (iedge.type() != data_flow::MemletType::Computational || iedge.base_type() != *type) {
+                return false;
+            }
+        }
+        for (auto& oedge : access_node->get_parent().out_edges(*access_node)) {
+            if (oedge.type() != data_flow::MemletType::Computational || oedge.base_type() != *type) {
+                return false;
+            }
+        }
+    }
+
     // Criterion: Check if accesses do not depend on containers written in the loop
     auto writes = body_users.writes();
     symbolic::SymbolSet written_containers;
@@ -100,7 +124,35 @@ bool OutLocalStorage::can_be_applied(builder::StructuredSDFGBuilder& builder, an
     // required
     if (this->requires_array_) {
         auto iteration_count = get_iteration_count(this->loop_);
-        if (iteration_count == SymEngine::null) {
+        if (iteration_count == SymEngine::null || !iteration_count->is_positive()) {
+            return false;
+        }
+
+        // Criterion: The array is indexed by the indvar
+        if (!symbolic::eq(this->loop_.init(), symbolic::zero()) ||
+            !symbolic::eq(this->loop_.update(), symbolic::add(this->loop_.indvar(), symbolic::one()))) {
+            return false;
+        }
+
+        // Criterion: Each iteration accesses a different element
+        bool unique = false;
+        symbolic::SymbolVec syms = {this->loop_.indvar()};
+        for (auto& dim : first_subset) {
+            auto poly = symbolic::polynomial(dim, syms);
+            if (poly == SymEngine::null) {
+                continue;
+            }
+            auto coeffs = symbolic::affine_coefficients(poly, syms);
+            if (coeffs.empty()) {
+                continue;
+            }
+            auto coeff = coeffs[this->loop_.indvar()];
+            if (SymEngine::is_a<SymEngine::Integer>(*coeff) && !symbolic::eq(coeff, symbolic::zero())) {
+                unique = true;
+                break;
+            }
+        }
+        if (!unique) {
             return false;
         }
     }
@@ -143,6 +195,9 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
     auto type = type_analysis.get_outer_type(container_);
 
     auto replacement_name = "__daisy_out_local_storage_" + this->container_;
+    if (sdfg.exists(replacement_name)) {
+        replacement_name = builder.find_new_name(replacement_name);
+    }
 
     auto iteration_count = get_iteration_count(this->loop_);
     types::Scalar scalar_type(type->primitive_type());
@@ -150,6 +205,9 @@ void OutLocalStorage::apply_array(builder::StructuredSDFGBuilder& builder, analy
     builder.add_container(replacement_name, array_type);
 
     auto indvar_name = "__daisy_out_local_storage_" + this->loop_.indvar()->get_name();
+    if (sdfg.exists(indvar_name)) {
+        indvar_name = builder.find_new_name(indvar_name);
+    }
     types::Scalar indvar_type(sdfg.type(loop_.indvar()->get_name()).primitive_type());
     builder.add_container(indvar_name, indvar_type);
     auto indvar = symbolic::symbol(indvar_name);
@@ -232,6 +290,9 @@ void OutLocalStorage::apply_scalar(builder::StructuredSDFGBuilder& builder, anal
     auto type = type_analysis.get_outer_type(container_);
 
     auto replacement_name = "__daisy_out_local_storage_" + this->container_;
+    if (sdfg.exists(replacement_name)) {
+        replacement_name = builder.find_new_name(replacement_name);
+    }
 
     types::Scalar scalar_type(type->primitive_type());
     builder.add_container(replacement_name, scalar_type);
-- 
2.43.0


From 0d6bf49094d84065f5f662e03127ebf85e74e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 34/57] fix: dependences on non-constant symbols in bounds were
 considered disjoint

---
 sdfg/src/symbolic/utils.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 00d6f5a..dff27dc 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -252,6 +252,28 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
     seen.clear();
     auto constraints_syms_2 = generate_constraints(syms, assums2, seen);
 
+    // Extend dimensions with non-constant symbols from constraints
+    for (auto& constraints : {constraints_syms_1, constraints_syms_2}) {
+        for (auto& con : constraints) {
+            for (auto& con_sym : symbolic::atoms(con)) {
+                if (dimensions_syms.find(con_sym) != dimensions_syms.end() ||
+                    parameters_syms.find(con_sym) != parameters_syms.end()) {
+                    continue;
+                }
+                auto assum1 = assums1.find(con_sym);
+                auto assum2 = assums2.find(con_sym);
+                if (assum1 == assums1.end() || assum2 == assums2.end()) {
+                    continue;
+                }
+                if (con_sym->get_name() == indvar->get_name() || !assum1->second.constant() ||
+                    !assum2->second.constant()) {
+                    dimensions.push_back(con_sym->get_name());
+                    dimensions_syms.insert(con_sym);
+                }
+            }
+        }
+    }
+
     // Extend parameters with additional symbols from constraints
     for (auto& con : constraints_syms_1) {
         auto con_syms = symbolic::atoms(con);
@@ -365,7 +387,7 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
         if (symbolic::eq(arg1, symbolic::one())) {
             continue;
         }
-        auto lb = assums2.at(sym).lower_bound_deprecated();
+        auto lb = assums1.at(sym).lower_bound_deprecated();
         if (!SymEngine::is_a<SymEngine::Integer>(*lb)) {
             continue;
         }
-- 
2.43.0


From 75b24e24b51f5c99ddcfb68b715667e6fbd1fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 35/57] fix: bounds of several symbols were turned into bounds
 of each symbol

---
 sdfg/src/analysis/assumptions_analysis.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index 8a63fb3..d0cc62c 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -284,9 +284,24 @@ void AssumptionsAnalysis::traverse_structured_loop(
     }
 
     // Assumption: any ub symbol is at least init
-    for (auto& sym : symbolic::atoms(ub)) {
-        body_assumptions[sym].add_lower_bound(symbolic::add(init, symbolic::one()));
-        body_assumptions[sym].lower_bound_deprecated(symbolic::add(init, symbolic::one()));
+    symbolic::ExpressionSet minimum_args = {ub};
+    if (SymEngine::is_a<SymEngine::Min>(*ub)) {
+        minimum_args.clear();
+        for (auto& arg : ub->get_args()) {
+            minimum_args.insert(arg);
+        }
+    }
+    for (auto& arg : minimum_args) {
+        for (auto& sym : symbolic::atoms(arg)) {
+            // Only a symbol minus a constant bounds the symbol itself
+            auto offset = symbolic::sub(arg, sym);
+            if (!SymEngine::is_a<SymEngine::Integer>(*offset) ||
+                SymEngine::rcp_static_cast<const SymEngine::Integer>(offset)->as_int() > 0) {
+                continue;
+            }
+            body_assumptions[sym].add_lower_bound(symbolic::add(init, symbolic::one()));
+            body_assumptions[sym].lower_bound_deprecated(symbolic::add(init, symbolic::one()));
+        }
     }
 
     this->propagate(body, body_assumptions, outer_assumptions, outer_assumptions_with_trivial);
-- 
2.43.0


From e4fd54796b04065d1fbdb10d033879a11dc4167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 36/57] fix: empty loops were removed although their indvars
 are used afterwards

---
 .../structured_control_flow/dead_cfg_elimination.cpp  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
index 4aa60d7..9a1fabc 100644
--- a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
@@ -22,7 +22,6 @@ bool DeadCFGElimination::is_dead(const structured_control_flow::ControlFlowNode&
         if (sloop->root().size() != 0) {
             return false;
         }
-        // TODO: Check use of indvar later
         return permissive_;
     }
 
@@ -110,7 +109,15 @@ bool DeadCFGElimination::run_pass(builder::StructuredSDFGBuilder& builder, analy
                 }
 
                 // Dead
-                if (is_dead(child.first)) {
+                bool dead = is_dead(child.first);
+                if (auto sloop = dynamic_cast<structured_control_flow::StructuredLoop*>(&child.first)) {
+                    // The value of the indvar may be used after the loop
+                    if (dead) {
+                        analysis_manager.invalidate_all();
+                        dead = !analysis::LoopAnalysis::is_indvar_live_out(sloop, analysis_manager);
+                    }
+                }
+                if (dead) {
                     builder.remove_child(*sequence_stmt, i);
                     applied = true;
                     continue;
-- 
2.43.0


From 586edd725f75e35049a906f120235b27abae3d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 37/57] fix: loop skewing was applied to loops that read the
 indvar as data

---
 sdfg/src/transformations/loop_skewing.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sdfg/src/transformations/loop_skewing.cpp b/sdfg/src/transformations/loop_skewing.cpp
index 701ef1d..e5ca2c1 100644
--- a/sdfg/src/transformations/loop_skewing.cpp
+++ b/sdfg/src/transformations/loop_skewing.cpp
@@ -1,7 +1,9 @@
 #include "sdfg/transformations/loop_skewing.h"
 #include <stdexcept>
 
+#include "sdfg/analysis/users.h"
 #include "sdfg/builder/structured_sdfg_builder.h"
+#include "sdfg/data_flow/access_node.h"
 #include "sdfg/structured_control_flow/map.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
 #include "sdfg/symbolic/symbolic.h"
@@ -73,6 +75,15 @@ bool LoopSkewing::can_be_applied(builder::StructuredSDFGBuilder& builder, analys
         return false;
     }
 
+    // Criterion 4: Inner indvar must not be read as data, since access nodes cannot be replaced by expressions
+    auto& users = analysis_manager.get<analysis::Users>();
+    analysis::UsersView body_users(users, inner_loop_.root());
+    for (auto& user : body_users.uses(this->inner_loop_.indvar()->get_name())) {
+        if (dynamic_cast<data_flow::AccessNode*>(user->element())) {
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 8eb80f3c3b2ca38538eb3e6c070a86f2899551f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 38/57] fix: maps of one iteration were inlined although the
 indvar is read as data

---
 .../dead_cfg_elimination.cpp                     | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
index 9a1fabc..6ca5067 100644
--- a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
@@ -1,6 +1,8 @@
 #include "sdfg/passes/structured_control_flow/dead_cfg_elimination.h"
 
 #include "sdfg/analysis/loop_analysis.h"
+#include "sdfg/analysis/users.h"
+#include "sdfg/data_flow/access_node.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
 #include "sdfg/symbolic/assumptions.h"
 #include "sdfg/symbolic/conjunctive_normal_form.h"
@@ -136,7 +138,19 @@ bool DeadCFGElimination::run_pass(builder::StructuredSDFGBuilder& builder, analy
 
                 // Trivial structured loop (bound - init == 1 and stride == 1)
                 if (auto sloop = dynamic_cast<structured_control_flow::Map*>(&child.first)) {
-                    if (is_trivial(sloop)) {
+                    bool trivial = is_trivial(sloop);
+                    if (trivial) {
+                        // Access nodes of the indvar cannot be replaced
+                        analysis_manager.invalidate_all();
+                        analysis::UsersView body_users(analysis_manager.get<analysis::Users>(), sloop->root());
+                        for (auto& user : body_users.uses(sloop->indvar()->get_name())) {
+                            if (dynamic_cast<data_flow::AccessNode*>(user->element())) {
+                                trivial = false;
+                                break;
+                            }
+                        }
+                    }
+                    if (trivial) {
                         auto indvar = sloop->indvar();
                         auto init = sloop->init();
                         sloop->root().replace(indvar, init);
-- 
2.43.0


From 8f9ca803a8ffc5ebdefc0847c03fd0d9926cb857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 39/57] fix: generated C++ code for allocations and references
 to other types did not compile

---
 .../codegen/code_generators/cpp_code_generator.cpp | 13 ++++++++-----
 sdfg/src/codegen/dispatchers/block_dispatcher.cpp  | 14 +++++++++++---
 sdfg/src/data_flow/library_nodes/stdlib/alloca.cpp |  8 +++++++-
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/sdfg/src/codegen/code_generators/cpp_code_generator.cpp b/sdfg/src/codegen/code_generators/cpp_code_generator.cpp
index 041864e..8f6e9c9 100644
--- a/sdfg/src/codegen/code_generators/cpp_code_generator.cpp
+++ b/sdfg/src/codegen/code_generators/cpp_code_generator.cpp
@@ -178,14 +178,17 @@ void CPPCodeGenerator::dispatch_schedule() {
             );
             if (type.storage_type().is_cpu_stack()) {
                 this->main_stream_ << container << " = ";
-                this->main_stream_
-                    << "alloca(" << this->language_extension_.expression(type.storage_type().allocation_size()) << ")";
+                this->main_stream_ << this->language_extension_.type_cast(
+                    "alloca(" + this->language_extension_.expression(type.storage_type().allocation_size()) + ")", type
+                );
                 this->main_stream_ << ";" << std::endl;
             } else if (type.storage_type().is_cpu_heap()) {
                 this->main_stream_ << container << " = ";
-                this->main_stream_ << this->externals_prefix_ << "malloc("
-                                   << this->language_extension_.expression(type.storage_type().allocation_size())
-                                   << ")";
+                this->main_stream_ << this->language_extension_.type_cast(
+                    this->externals_prefix_ + "malloc(" +
+                        this->language_extension_.expression(type.storage_type().allocation_size()) + ")",
+                    type
+                );
                 this->main_stream_ << ";" << std::endl;
             } else if (type.storage_type().is_nv_generic()) {
                 this->main_stream_ << "cudaSetDevice(0);" << std::endl;
diff --git a/sdfg/src/codegen/dispatchers/block_dispatcher.cpp b/sdfg/src/codegen/dispatchers/block_dispatcher.cpp
index a1e026d..303d324 100644
--- a/sdfg/src/codegen/dispatchers/block_dispatcher.cpp
+++ b/sdfg/src/codegen/dispatchers/block_dispatcher.cpp
@@ -88,9 +88,17 @@ void DataFlowDispatcher::dispatch_ref(PrettyPrinter& stream, const data_flow::Me
         stream << this->language_extension_.subset(base_type, subset);
     } else {
         if (base_type.type_id() == types::TypeID::Pointer && !subset.empty()) {
-            stream << "&";
-            stream << "(" + this->language_extension_.type_cast(src_name, base_type) + ")";
-            stream << this->language_extension_.subset(base_type, subset);
+            std::string address = "&(" + this->language_extension_.type_cast(src_name, base_type) + ")" +
+                                  this->language_extension_.subset(base_type, subset);
+
+            // Cast if destination points to another type
+            auto& dst_type = this->function_.type(dst.data());
+            auto dst_pointer = dynamic_cast<const types::Pointer*>(&dst_type);
+            if (dst_pointer && dst_pointer->has_pointee_type() && subset.size() == 1 && !(dst_type == base_type)) {
+                stream << this->language_extension_.type_cast("(" + address + ")", dst_type);
+            } else {
+                stream << address;
+            }
         } else {
             stream << "&";
             stream << src_name;
diff --git a/sdfg/src/data_flow/library_nodes/stdlib/alloca.cpp b/sdfg/src/data_flow/library_nodes/stdlib/alloca.cpp
index 6908840..6daf434 100644
--- a/sdfg/src/data_flow/library_nodes/stdlib/alloca.cpp
+++ b/sdfg/src/data_flow/library_nodes/stdlib/alloca.cpp
@@ -85,9 +85,15 @@ void AllocaNodeDispatcher::dispatch_code(
 ) {
     auto& node = static_cast<const AllocaNode&>(node_);
 
+    auto& graph = node.get_parent();
+    auto& oedge = *graph.out_edges(node).begin();
+
     stream << node.outputs().at(0);
     stream << " = ";
-    stream << "alloca(" << language_extension_.expression(node.size()) << ")" << ";";
+    stream << "("
+           << language_extension_
+                  .type_cast("alloca(" + language_extension_.expression(node.size()) + ")", oedge.base_type())
+           << ");";
     stream << std::endl;
 }
 
-- 
2.43.0


From 5aaab54d134a9b5837cf91df63d4b336ee376788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:03 +0000
Subject: [PATCH 40/57] fix: ordered comparison tests that neither operand is
 NaN

---
 sdfg/src/codegen/language_extensions/c_language_extension.cpp   | 2 +-
 sdfg/src/codegen/language_extensions/cpp_language_extension.cpp | 2 +-
 .../src/codegen/language_extensions/cuda_language_extension.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdfg/src/codegen/language_extensions/c_language_extension.cpp b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
index 8cdda02..20fbcfe 100644
--- a/sdfg/src/codegen/language_extensions/c_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
@@ -222,7 +222,7 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "isnan(" + tasklet.inputs().at(0) + ") && isnan(" + tasklet.inputs().at(1) + ")";
+            return "!isnan(" + tasklet.inputs().at(0) + ") && !isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "isnan(" + tasklet.inputs().at(0) + ") || isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
index f59377a..74eaba2 100644
--- a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
@@ -216,7 +216,7 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
index 9c3d3c5..0ed7739 100644
--- a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
@@ -232,7 +232,7 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
-- 
2.43.0


From d5015527a158746c7d3cac58dd5da1e3ac39777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:20 +0000
Subject: [PATCH 41/57] fix: integer powers in symbolic expressions are
 computed with 64 bits and link in C

---
 rtl/include/daisy_rtl/daisy_rtl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 2251794..038170a 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -133,12 +133,12 @@ void __daisy_capture_3d(
 #define __daisy_fma(a, b, c) a* b + c
 
 // Implementation of integer functions for symbolic expressions
-inline int __daisy_sym_pow(int base, int exp) {
+static inline long long __daisy_sym_pow(long long base, long long exp) {
     if (exp < 0) {
         return 0;
     }
 
-    int result = 1;
+    long long result = 1;
     while (exp) {
         if (exp & 1) {
             result *= base;
-- 
2.43.0


From 4817cbd874c405f2e3c892ae63c8e86c57beae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:35 +0000
Subject: [PATCH 42/57] fix: generated C++ code for calloc did not compile

---
 sdfg/src/data_flow/library_nodes/stdlib/calloc.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/data_flow/library_nodes/stdlib/calloc.cpp b/sdfg/src/data_flow/library_nodes/stdlib/calloc.cpp
index 46788e2..98fa2f6 100644
--- a/sdfg/src/data_flow/library_nodes/stdlib/calloc.cpp
+++ b/sdfg/src/data_flow/library_nodes/stdlib/calloc.cpp
@@ -99,10 +99,19 @@ void CallocNodeDispatcher::dispatch_code(
 ) {
     auto& Calloc_node = static_cast<const CallocNode&>(node_);
 
+    auto& graph = Calloc_node.get_parent();
+    auto& oedge = *graph.out_edges(Calloc_node).begin();
+
     stream << Calloc_node.outputs().at(0);
     stream << " = ";
-    stream << language_extension_.external_prefix() << "calloc(" << language_extension_.expression(Calloc_node.num())
-           << ", " << language_extension_.expression(Calloc_node.size()) << ")" << ";";
+    stream << "("
+           << language_extension_.type_cast(
+                  language_extension_.external_prefix() + "calloc(" +
+                      language_extension_.expression(Calloc_node.num()) + ", " +
+                      language_extension_.expression(Calloc_node.size()) + ")",
+                  oedge.base_type()
+              )
+           << ");";
     stream << std::endl;
 }
 
-- 
2.43.0


From e2c6bc5ac96cd9fc8210ce3bca0b13bafc96cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:01 +0000
Subject: [PATCH 43/57] fix: generated C++ code for memory functions on typed
 pointers did not compile

---
 sdfg/src/codegen/dispatchers/block_dispatcher.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/codegen/dispatchers/block_dispatcher.cpp b/sdfg/src/codegen/dispatchers/block_dispatcher.cpp
index 303d324..fbcc52a 100644
--- a/sdfg/src/codegen/dispatchers/block_dispatcher.cpp
+++ b/sdfg/src/codegen/dispatchers/block_dispatcher.cpp
@@ -436,7 +436,15 @@ void LibraryNodeDispatcher::
         } else {
             stream << dst_name;
             stream << this->language_extension_.subset(oedge->base_type(), oedge->subset()) << " = ";
-            stream << oedge->src_conn();
+
+            // Cast if the destination points to another type
+            auto dst_pointer = dynamic_cast<const types::Pointer*>(&this->function_.type(dst.data()));
+            if (dst_pointer && dst_pointer->has_pointee_type() && oedge->subset().empty() &&
+                result_type->type_id() == types::TypeID::Pointer && !(*dst_pointer == *result_type)) {
+                stream << this->language_extension_.type_cast(oedge->src_conn(), *dst_pointer);
+            } else {
+                stream << oedge->src_conn();
+            }
             stream << ";" << std::endl;
         }
     }
-- 
2.43.0


From 62314b10078f9e3f73dc5d70d7b819ff744ab72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:38 +0000
Subject: [PATCH 44/57] fix: a kernel without a return value returns None
 instead of the contents of a register

---
 python/docc/compiler/compiled_sdfg.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/docc/compiler/compiled_sdfg.py b/python/docc/compiler/compiled_sdfg.py
index a03435c..848e2f8 100644
--- a/python/docc/compiler/compiled_sdfg.py
+++ b/python/docc/compiler/compiled_sdfg.py
@@ -75,7 +75,14 @@ class CompiledSDFG:
         self.func.argtypes = self.arg_types
 
         # Set up return type
-        self.func.restype = self._get_ctypes_type(sdfg.return_type)
+        return_type = sdfg.return_type
+        if (
+            isinstance(return_type, Scalar)
+            and return_type.primitive_type == PrimitiveType.Void
+        ):
+            self.func.restype = None
+        else:
+            self.func.restype = self._get_ctypes_type(return_type)
 
     def _convert_to_python_syntax(self, expr_str):
         import re
-- 
2.43.0


From 4a1b735654f2275d6f3571f443ecbfbb46f0a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:35 +0000
Subject: [PATCH 45/57] fix: integer and float floor division, right shifts of
 negatives, and shapes tied to a parameter the kernel assigns to

---
 python/docc/python/ast_parser.py     | 63 +++++++++++++++++++++++++---
 python/docc/python/python_program.py | 16 ++++++-
 2 files changed, 71 insertions(+), 8 deletions(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 5f2c562..23f2138 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -337,6 +337,24 @@ class ASTParser(ast.NodeVisitor):
             self.builder.add_memlet(block, t_task, "_out", t_out, "void", "")
 
             return tmp_name
+        elif op == "//":
+            return self._visit_floor_division(real_left, real_right, tmp_name, dtype)
+        elif op == ">>" and dtype.primitive_type == PrimitiveType.Int64:
+            # An arithmetic shift is a floor division by a power of two
+            power_name = self.builder.find_new_name()
+            self.builder.add_container(power_name, dtype, False)
+            self.container_table[power_name] = dtype
+            block = self.builder.add_block()
+            t_one = self.builder.add_constant(block, "1", dtype)
+            t_right, right_sub = self._add_read(block, real_right)
+            t_power = self.builder.add_access(block, power_name)
+            t_task = self.builder.add_tasklet(
+                block, TaskletCode.int_shl, ["_in1", "_in2"], ["_out"]
+            )
+            self.builder.add_memlet(block, t_one, "void", t_task, "_in1", "")
+            self.builder.add_memlet(block, t_right, "void", t_task, "_in2", right_sub)
+            self.builder.add_memlet(block, t_task, "_out", t_power, "void", "")
+            return self._visit_floor_division(real_left, power_name, tmp_name, dtype)
         elif op == "%":
             block = self.builder.add_block()
             t_left, left_sub = self._add_read(block, real_left)
@@ -428,8 +446,6 @@ class ASTParser(ast.NodeVisitor):
                 tasklet_code = TaskletCode.int_mul
             elif op == "/":
                 tasklet_code = TaskletCode.int_sdiv
-            elif op == "//":
-                tasklet_code = TaskletCode.int_sdiv
             elif op == "&":
                 tasklet_code = TaskletCode.int_and
             elif op == "|":
@@ -438,8 +454,6 @@ class ASTParser(ast.NodeVisitor):
                 tasklet_code = TaskletCode.int_xor
             elif op == "<<":
                 tasklet_code = TaskletCode.int_shl
-            elif op == ">>":
-                tasklet_code = TaskletCode.int_lshr
         else:
             if op == "+":
                 tasklet_code = TaskletCode.fp_add
@@ -449,8 +463,6 @@ class ASTParser(ast.NodeVisitor):
                 tasklet_code = TaskletCode.fp_mul
             elif op == "/":
                 tasklet_code = TaskletCode.fp_div
-            elif op == "//":
-                tasklet_code = TaskletCode.fp_div
             else:
                 raise NotImplementedError(f"Operation {op} not supported for floats")
 
@@ -478,6 +490,45 @@ class ASTParser(ast.NodeVisitor):
 
         return tmp_name
 
+    def _visit_floor_division(self, left, right, tmp_name, dtype):
+        # Python rounds the quotient towards minus infinity: (a - a % b) / b
+        is_int = dtype.primitive_type == PrimitiveType.Int64
+        rem = TaskletCode.int_srem if is_int else TaskletCode.fp_rem
+        add = TaskletCode.int_add if is_int else TaskletCode.fp_add
+        sub = TaskletCode.int_sub if is_int else TaskletCode.fp_sub
+        div = TaskletCode.int_sdiv if is_int else TaskletCode.fp_div
+
+        block = self.builder.add_block()
+        t_left, left_sub = self._add_read(block, left)
+        t_right, right_sub = self._add_read(block, right)
+
+        def step(code, in1, in1_sub, in2, in2_sub):
+            name = self.builder.find_new_name()
+            self.builder.add_container(name, dtype, False)
+            t_step = self.builder.add_access(block, name)
+            t_task = self.builder.add_tasklet(block, code, ["_in1", "_in2"], ["_out"])
+            self.builder.add_memlet(block, in1, "void", t_task, "_in1", in1_sub)
+            self.builder.add_memlet(block, in2, "void", t_task, "_in2", in2_sub)
+            self.builder.add_memlet(block, t_task, "_out", t_step, "void", "")
+            return t_step
+
+        mod = step(rem, t_left, left_sub, t_right, right_sub)
+        mod = step(add, mod, "", t_right, right_sub)
+        mod = step(rem, mod, "", t_right, right_sub)
+        quotient = step(div, step(sub, t_left, left_sub, mod, ""), "", t_right, right_sub)
+
+        t_out = self.builder.add_access(block, tmp_name)
+        if is_int:
+            t_task = self.builder.add_tasklet(
+                block, TaskletCode.assign, ["_in"], ["_out"]
+            )
+            self.builder.add_memlet(block, quotient, "void", t_task, "_in", "")
+        else:
+            t_task = self.builder.add_cmath(block, CMathFunction.round)
+            self.builder.add_memlet(block, quotient, "void", t_task, "_in1", "")
+        self.builder.add_memlet(block, t_task, "_out", t_out, "void", "")
+        return tmp_name
+
     def visit_Attribute(self, node):
         if node.attr == "shape":
             if isinstance(node.value, ast.Name) and node.value.id in self.tensor_table:
diff --git a/python/docc/python/python_program.py b/python/docc/python/python_program.py
index a18a5ef..fb5eefb 100644
--- a/python/docc/python/python_program.py
+++ b/python/docc/python/python_program.py
@@ -204,13 +204,15 @@ class PythonProgram(DoccProgram):
         # First pass: collect scalar integer arguments and their values
         sig = inspect.signature(self.func)
         params = list(sig.parameters.items())
+        rebound = self._rebound_names()
         scalar_int_params = {}  # Maps value -> parameter name (first one wins)
         for i, ((name, param), arg) in enumerate(zip(params, args)):
             if isinstance(arg, (int, np.integer)) and not isinstance(
                 arg, (bool, np.bool_)
             ):
                 val = int(arg)
-                if val not in scalar_int_params:
+                # A parameter the function assigns to does not keep its value
+                if val not in scalar_int_params and name not in rebound:
                     scalar_int_params[val] = name
 
         for i, arg in enumerate(args):
@@ -348,13 +350,15 @@ class PythonProgram(DoccProgram):
 
         sig = inspect.signature(self.func)
         params = list(sig.parameters.items())
+        rebound = self._rebound_names()
         scalar_int_params = {}
         for i, ((name, param), arg) in enumerate(zip(params, args)):
             if isinstance(arg, (int, np.integer)) and not isinstance(
                 arg, (bool, np.bool_)
             ):
                 val = int(arg)
-                if val not in scalar_int_params:
+                # A parameter the function assigns to does not keep its value
+                if val not in scalar_int_params and name not in rebound:
                     scalar_int_params[val] = name
 
         for i, arg in enumerate(args):
@@ -378,6 +382,14 @@ class PythonProgram(DoccProgram):
         )
         return sdfg
 
+    def _rebound_names(self):
+        tree = ast.parse(textwrap.dedent(inspect.getsource(self.func)))
+        return {
+            node.id
+            for node in ast.walk(tree)
+            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store)
+        }
+
     def _convert_inputs(self, args: tuple) -> tuple:
         return args
 
-- 
2.43.0


From b37c5c043283b47d52b4cecf14e96296223ebed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:31 +0000
Subject: [PATCH 46/57] fix: products of transposed, strided and overlapping
 arrays, and sums of products, no longer go to GEMM as if they were plain
 operands

---
 python/docc/python/functions/numpy.py | 73 ++++++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 2 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index c6ef2bc..9a38b9d 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -152,6 +152,58 @@ class NumPyHandler:
 
         return None, None, None, None
 
+    def _is_dense(self, node):
+        """Check if parse_arg describes the operand completely: GEMM and DOT address
+        their operands as row-major arrays and know no other strides."""
+        indices = []
+        if isinstance(node, ast.Subscript):
+            indices = (
+                node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
+            )
+            node = node.value
+        if not isinstance(node, ast.Name) or node.id not in self.tensor_table:
+            return False
+
+        def is_negative(idx):
+            if isinstance(idx, ast.Constant):
+                return isinstance(idx.value, int) and idx.value < 0
+            return isinstance(idx, ast.UnaryOp) and isinstance(idx.op, ast.USub)
+
+        for idx in indices:
+            if isinstance(idx, ast.Slice):
+                if idx.step is not None or is_negative(idx.lower):
+                    return False
+                if is_negative(idx.upper):
+                    return False
+            elif is_negative(idx):
+                return False
+
+        tensor = self.tensor_table[node.id]
+        row_major = Tensor(Scalar(PrimitiveType.Double), tensor.shape)
+        return tensor.strides == row_major.strides
+
+    def _dense_operand(self, node):
+        """Return the operand of a product, or a copy of it that is dense."""
+        base = node
+        if isinstance(node, ast.Attribute) and node.attr == "T":
+            base = node.value
+        if self._is_dense(base):
+            return node
+        if self.is_gemm(base):
+            return node
+
+        name = self.visit(node)
+        if name not in self.tensor_table:
+            return node
+        if not self._is_dense(ast.Name(id=name)):
+            tensor = self.tensor_table[name]
+            dense = self._create_array_temp(
+                tensor.shape, self._ev._element_type(name)
+            )
+            self.builder.add_cast_op(name, tensor, dense, self.tensor_table[dense])
+            name = dense
+        return ast.Name(id=name, ctx=ast.Load())
+
     def flatten_subset(self, name, start_indices):
         """Convert multi-dimensional start indices to a flattened linear offset."""
         if not start_indices:
@@ -349,6 +401,8 @@ class NumPyHandler:
                         beta = self._ev.visit(value_node.right.left)
                 elif self._is_target(value_node.right, target_name):
                     beta = "1.0"
+                if beta == "0.0":
+                    return False
             else:
                 l, r, a = parse_term(value_node.right)
                 if l:
@@ -364,6 +418,8 @@ class NumPyHandler:
                             beta = self._ev.visit(value_node.left.left)
                     elif self._is_target(value_node.left, target_name):
                         beta = "1.0"
+                    if beta == "0.0":
+                        return False
         else:
             l, r, a = parse_term(value_node)
             if l:
@@ -374,6 +430,9 @@ class NumPyHandler:
         if A is None or B is None:
             return False
 
+        A = self._dense_operand(A)
+        B = self._dense_operand(B)
+
         def get_name_and_trans(node):
             if isinstance(node, ast.Attribute) and node.attr == "T":
                 return node.value, True
@@ -399,6 +458,10 @@ class NumPyHandler:
         A_name, subset_a, shape_a, indices_a = res_a
         B_name, subset_b, shape_b, indices_b = res_b
 
+        # GEMM must not overwrite its operands
+        if target_name in (A_name, B_name):
+            return False
+
         flat_subset_a = self.flatten_subset(A_name, subset_a)
         flat_subset_b = self.flatten_subset(B_name, subset_b)
 
@@ -511,6 +574,9 @@ class NumPyHandler:
             arg0 = dot_node.left
             arg1 = dot_node.right
 
+        arg0 = self._dense_operand(arg0)
+        arg1 = self._dense_operand(arg1)
+
         res_a = self.parse_arg(arg0)
         res_b = self.parse_arg(arg1)
 
@@ -651,8 +717,8 @@ class NumPyHandler:
 
         parsed_outers = []
         for outer_node in outer_calls:
-            arg0 = outer_node.args[0]
-            arg1 = outer_node.args[1]
+            arg0 = self._dense_operand(outer_node.args[0])
+            arg1 = self._dense_operand(outer_node.args[1])
 
             res_a = self.parse_arg(arg0)
             res_b = self.parse_arg(arg1)
@@ -1868,6 +1934,9 @@ class NumPyHandler:
 
     def _handle_matmul_helper(self, left_node, right_node):
         """Helper for matrix multiplication operations."""
+        left_node = self._dense_operand(left_node)
+        right_node = self._dense_operand(right_node)
+
         res_a = self.parse_arg(left_node)
         res_b = self.parse_arg(right_node)
 
-- 
2.43.0


From 48d5446fa3a35981c90ed72863a762a1a0ee67e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:22 +0000
Subject: [PATCH 47/57] fix: the outer product of a matrix column steps over
 the rows

---
 python/docc/python/functions/numpy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index 9a38b9d..5029828 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -763,8 +763,9 @@ class NumPyHandler:
             flat_subset_a = self.flatten_subset(name_a, subset_a)
             flat_subset_b = self.flatten_subset(name_b, subset_b)
 
-            lda = "1"
-            ldb = "1"
+            # A column of a matrix is as far apart as the rows of the matrix
+            lda = "1" if self._is_stride_1(name_a, indices_a) else get_ld_2d(name_a)
+            ldb = "1" if self._is_stride_1(name_b, indices_b) else get_ld_2d(name_b)
 
             self.builder.add_gemm(
                 name_a,
-- 
2.43.0


From 898fb5c22b45f176bf43485d8d311aae2894dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 48/57] fix: slice assignments visit exactly the elements of a
 stepped, reversed, partial or broadcast target; views with an offset are not
 dense operands

---
 python/docc/python/ast_parser.py      | 201 +++++++++++---------------
 python/docc/python/functions/numpy.py |   2 +-
 2 files changed, 85 insertions(+), 118 deletions(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 23f2138..d17e369 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -2072,6 +2072,52 @@ class ASTParser(ast.NodeVisitor):
         visitor.visit(node)
         return visitor.max_ndim
 
+    def _begin_slice_loop(self, idx, dim_size, prefix, debug_info):
+        """Begin the loop over a slice of an assignment target.
+
+        Returns the loop variable and the index it addresses in the dimension.
+        """
+        loop_var = self.builder.find_new_name(prefix)
+        if not self.builder.exists(loop_var):
+            self.builder.add_container(loop_var, Scalar(PrimitiveType.Int64), False)
+
+        def is_given(bound):
+            return bound is not None and not (
+                isinstance(bound, ast.Constant) and bound.value is None
+            )
+
+        def visit_bound(bound):
+            bound_str = str(self.visit(bound))
+            if bound_str.startswith("-") or bound_str.startswith("(-"):
+                bound_str = f"({dim_size} + {bound_str})"
+            return bound_str
+
+        step_str = str(self.visit(idx.step)) if is_given(idx.step) else "1"
+        backwards = step_str.startswith("-") or step_str.startswith("(-")
+
+        if is_given(idx.lower):
+            start_str = visit_bound(idx.lower)
+        else:
+            start_str = f"({dim_size} - 1)" if backwards else "0"
+        if is_given(idx.upper):
+            stop_str = visit_bound(idx.upper)
+        else:
+            stop_str = "(-1)" if backwards else dim_size
+
+        # The loop runs ceil((stop - start) / step) times
+        if step_str == "1":
+            count_str = f"({stop_str} - {start_str})"
+        elif backwards:
+            count_str = (
+                f"idiv({start_str} - {stop_str} - ({step_str}) - 1, -({step_str}))"
+            )
+        else:
+            count_str = f"idiv({stop_str} - {start_str} + {step_str} - 1, {step_str})"
+
+        self.builder.begin_for(loop_var, "0", count_str, "1", debug_info)
+        self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
+        return loop_var, f"{start_str} + {loop_var} * {step_str}"
+
     def _handle_broadcast_slice_assignment(
         self,
         target,
@@ -2089,36 +2135,29 @@ class ASTParser(ast.NodeVisitor):
         broadcast_dims = target_ndim - value_ndim
         shapes = self.tensor_table[target_name].shape
         rhs_tensor = self.tensor_table.get(materialized_rhs)
-        rhs_shapes = rhs_tensor.shape if rhs_tensor else []
 
-        # Create outer loops for broadcast dimensions
+        # One loop per slice of the target; the value covers the innermost ones
         outer_loop_vars = []
-        for i in range(broadcast_dims):
-            loop_var = self.builder.find_new_name(f"_bcast_iter_{i}_")
-            outer_loop_vars.append(loop_var)
-
-            if not self.builder.exists(loop_var):
-                self.builder.add_container(loop_var, Scalar(PrimitiveType.Int64), False)
-                self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
-
-            dim_size = shapes[i] if i < len(shapes) else f"_{target_name}_shape_{i}"
-            self.builder.begin_for(loop_var, "0", str(dim_size), "1", debug_info)
-
-        # Create inner loops for value dimensions
         inner_loop_vars = []
-        for i in range(value_ndim):
-            loop_var = self.builder.find_new_name(f"_inner_iter_{i}_")
-            inner_loop_vars.append(loop_var)
-
-            if not self.builder.exists(loop_var):
-                self.builder.add_container(loop_var, Scalar(PrimitiveType.Int64), False)
-                self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
-
-            # Use RHS shape for inner dimension bounds
+        target_indices = []
+        for i, idx in enumerate(indices):
             dim_size = (
-                rhs_shapes[i] if i < len(rhs_shapes) else shapes[broadcast_dims + i]
+                str(shapes[i]) if i < len(shapes) else f"_{target_name}_shape_{i}"
             )
-            self.builder.begin_for(loop_var, "0", str(dim_size), "1", debug_info)
+            if not isinstance(idx, ast.Slice):
+                idx_str = self.visit(normalize_negative_index(idx, dim_size))
+                target_indices.append(idx_str)
+                continue
+
+            if len(outer_loop_vars) < broadcast_dims:
+                prefix, loops = f"_bcast_iter_{len(outer_loop_vars)}_", outer_loop_vars
+            else:
+                prefix, loops = f"_inner_iter_{len(inner_loop_vars)}_", inner_loop_vars
+            loop_var, index_str = self._begin_slice_loop(
+                idx, dim_size, prefix, debug_info
+            )
+            loops.append(loop_var)
+            target_indices.append(index_str)
 
         # Create assignment block: target[outer_vars, inner_vars] = rhs[inner_vars]
         block = self.builder.add_block(debug_info)
@@ -2131,9 +2170,8 @@ class ASTParser(ast.NodeVisitor):
         # Source index: just inner loop vars
         src_index = ",".join(inner_loop_vars) if inner_loop_vars else "0"
 
-        # Target index: outer_vars + inner_vars combined
-        all_target_vars = outer_loop_vars + inner_loop_vars
-        target_index = ",".join(all_target_vars) if all_target_vars else "0"
+        # Target index: the position each loop has reached in its slice
+        target_index = ",".join(target_indices) if target_indices else "0"
 
         self.builder.add_memlet(
             block, t_src, "void", t_task, "_in", src_index, rhs_tensor, debug_info
@@ -2201,58 +2239,16 @@ class ASTParser(ast.NodeVisitor):
 
         for i, idx in enumerate(indices):
             if isinstance(idx, ast.Slice):
-                loop_var = self.builder.find_new_name(f"_slice_iter_{len(loop_vars)}_")
-                loop_vars.append(loop_var)
-
-                if not self.builder.exists(loop_var):
-                    self.builder.add_container(
-                        loop_var, Scalar(PrimitiveType.Int64), False
-                    )
-                    self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
-
-                start_str = "0"
-                if idx.lower:
-                    start_str = self.visit(idx.lower)
-                    if start_str.startswith("-"):
-                        dim_size = (
-                            str(tensor_info.shape[i])
-                            if i < len(tensor_info.shape)
-                            else f"_{target_name}_shape_{i}"
-                        )
-                        start_str = f"({dim_size} {start_str})"
-
-                stop_str = ""
-                if idx.upper and not (
-                    isinstance(idx.upper, ast.Constant) and idx.upper.value is None
-                ):
-                    stop_str = self.visit(idx.upper)
-                    if stop_str.startswith("-") or stop_str.startswith("(-"):
-                        dim_size = (
-                            str(tensor_info.shape[i])
-                            if i < len(tensor_info.shape)
-                            else f"_{target_name}_shape_{i}"
-                        )
-                        stop_str = f"({dim_size} {stop_str})"
-                else:
-                    stop_str = (
-                        str(tensor_info.shape[i])
-                        if i < len(tensor_info.shape)
-                        else f"_{target_name}_shape_{i}"
-                    )
-
-                step_str = "1"
-                if idx.step:
-                    step_str = self.visit(idx.step)
-
-                count_str = f"({stop_str} - {start_str})"
-
-                self.builder.begin_for(loop_var, "0", count_str, "1", debug_info)
-                self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
-                new_target_indices.append(
-                    ast.Name(
-                        id=f"{start_str} + {loop_var} * {step_str}", ctx=ast.Load()
-                    )
+                dim_size = (
+                    str(tensor_info.shape[i])
+                    if i < len(tensor_info.shape)
+                    else f"_{target_name}_shape_{i}"
+                )
+                loop_var, index_str = self._begin_slice_loop(
+                    idx, dim_size, f"_slice_iter_{len(loop_vars)}_", debug_info
                 )
+                loop_vars.append(loop_var)
+                new_target_indices.append(ast.Name(id=index_str, ctx=ast.Load()))
             else:
                 dim_size = (
                     tensor_info.shape[i]
@@ -2376,45 +2372,16 @@ class ASTParser(ast.NodeVisitor):
 
         for i, idx in enumerate(indices):
             if isinstance(idx, ast.Slice):
-                loop_var = self.builder.find_new_name(f"_copy_iter_{len(loop_vars)}_")
-                loop_vars.append(loop_var)
-
-                if not self.builder.exists(loop_var):
-                    self.builder.add_container(
-                        loop_var, Scalar(PrimitiveType.Int64), False
-                    )
-                    self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
-
-                start_str = "0"
-                if idx.lower:
-                    start_str = self.visit(idx.lower)
-
-                stop_str = ""
-                if idx.upper and not (
-                    isinstance(idx.upper, ast.Constant) and idx.upper.value is None
-                ):
-                    stop_str = self.visit(idx.upper)
-                else:
-                    stop_str = (
-                        target_shapes[i]
-                        if i < len(target_shapes)
-                        else f"_{target_name}_shape_{i}"
-                    )
-
-                step_str = "1"
-                if idx.step:
-                    step_str = self.visit(idx.step)
-
-                count_str = f"({stop_str} - {start_str})"
-
-                self.builder.begin_for(loop_var, "0", count_str, "1", debug_info)
-                self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
-
-                new_target_indices.append(
-                    ast.Name(
-                        id=f"{start_str} + {loop_var} * {step_str}", ctx=ast.Load()
-                    )
+                dim_size = (
+                    str(target_shapes[i])
+                    if i < len(target_shapes)
+                    else f"_{target_name}_shape_{i}"
                 )
+                loop_var, index_str = self._begin_slice_loop(
+                    idx, dim_size, f"_copy_iter_{len(loop_vars)}_", debug_info
+                )
+                loop_vars.append(loop_var)
+                new_target_indices.append(ast.Name(id=index_str, ctx=ast.Load()))
             else:
                 # Handle non-slice indices - need to normalize negative indices
                 dim_size = (
diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index 5029828..73dd61e 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -180,7 +180,7 @@ class NumPyHandler:
 
         tensor = self.tensor_table[node.id]
         row_major = Tensor(Scalar(PrimitiveType.Double), tensor.shape)
-        return tensor.strides == row_major.strides
+        return tensor.strides == row_major.strides and str(tensor.offset) == "0"
 
     def _dense_operand(self, node):
         """Return the operand of a product, or a copy of it that is dense."""
-- 
2.43.0


From 7045720a66675c9b56dde8b2accb34d92faebe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 49/57] fix: temporaries of array expressions get a name no
 other container has

---
 python/docc/python/functions/numpy.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index 73dd61e..eef53b0 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -982,7 +982,7 @@ class NumPyHandler:
         in_offset = getattr(in_info, "offset", "0") or "0"
 
         # Create new pointer container
-        tmp_name = f"_tmp_{self._get_unique_id()}"
+        tmp_name = self.builder.find_new_name("_tmp_")
         ptr_type = Pointer(in_info.element_type)
         self.builder.add_container(tmp_name, ptr_type, False)
         self.container_table[tmp_name] = ptr_type
@@ -1088,7 +1088,7 @@ class NumPyHandler:
             flipped_tensor = flipped_tensor.flip(axis)
 
         # Create new pointer container pointing to same data
-        tmp_name = f"_tmp_{self._get_unique_id()}"
+        tmp_name = self.builder.find_new_name("_tmp_")
         ptr_type = Pointer(in_tensor.element_type)
         self.builder.add_container(tmp_name, ptr_type, False)
         self.container_table[tmp_name] = ptr_type
@@ -1144,7 +1144,7 @@ class NumPyHandler:
             )
 
         # Create new pointer container
-        tmp_name = f"_tmp_{self._get_unique_id()}"
+        tmp_name = self.builder.find_new_name("_tmp_")
         ptr_type = Pointer(in_info.element_type)
         self.builder.add_container(tmp_name, ptr_type, False)
         self.container_table[tmp_name] = ptr_type
@@ -1335,7 +1335,7 @@ class NumPyHandler:
         )
         tmp_tensor = self.tensor_table[tmp_name]
 
-        zero_name = f"_tmp_{self._get_unique_id()}"
+        zero_name = self.builder.find_new_name("_tmp_")
         self.builder.add_container(zero_name, dtype, False)
         self.container_table[zero_name] = dtype
         self.tensor_table[zero_name] = Tensor(dtype, [])
@@ -1411,7 +1411,7 @@ class NumPyHandler:
 
         if scalar_name is not None and not use_int_cmp:
             if self._is_int(scalar_name):
-                float_name = f"_tmp_{self._get_unique_id()}"
+                float_name = self.builder.find_new_name("_tmp_")
                 self.builder.add_container(
                     float_name, Scalar(PrimitiveType.Double), False
                 )
@@ -1995,7 +1995,7 @@ class NumPyHandler:
         dtype = promote_element_types(dtype_a, dtype_b)
 
         if is_scalar:
-            tmp_name = f"_tmp_{self._get_unique_id()}"
+            tmp_name = self.builder.find_new_name("_tmp_")
             self.builder.add_container(tmp_name, dtype, False)
             self.container_table[tmp_name] = dtype
         else:
@@ -2346,7 +2346,7 @@ class NumPyHandler:
         dtype = self._ev._element_type(array_name)
 
         if not output_shape:
-            tmp_name = f"_tmp_{self._get_unique_id()}"
+            tmp_name = self.builder.find_new_name("_tmp_")
             self.builder.add_container(tmp_name, dtype, False)
             self.container_table[tmp_name] = dtype
             self.tensor_table[tmp_name] = Tensor(dtype, [])
@@ -2550,7 +2550,7 @@ class NumPyHandler:
         strides=None,
     ):
         """Create a temporary array."""
-        tmp_name = f"_tmp_{self._get_unique_id()}"
+        tmp_name = self.builder.find_new_name("_tmp_")
 
         # Handle 0-dimensional arrays as scalars
         if not shape or (len(shape) == 0):
-- 
2.43.0


From e09f86139e1489c65fb13868719318d5d3d2231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:18 +0000
Subject: [PATCH 50/57] fix: a cached kernel is only reused for the layout,
 unit extents, object members and settings it was compiled for

---
 python/docc/python/python_program.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/python/docc/python/python_program.py b/python/docc/python/python_program.py
index fb5eefb..3b80ed6 100644
--- a/python/docc/python/python_program.py
+++ b/python/docc/python/python_program.py
@@ -244,11 +244,12 @@ class PythonProgram(DoccProgram):
         mapping_sig = sorted(arg_shape_mapping.items())
         equiv_sig = sorted(shape_to_scalar.items())
         type_sig = ", ".join(self._type_to_str(t) for t in arg_types)
-        signature = f"{type_sig}|{mapping_sig}|{equiv_sig}"
+        layout_sig = [self._layout_of(arg) for arg in args]
+        signature = f"{type_sig}|{mapping_sig}|{equiv_sig}|{layout_sig}|{capture_args}|{instrumentation_mode}"
 
         if output_folder is None:
             filename = inspect.getsourcefile(self.func)
-            hash_input = f"{filename}|{self.name}|{self.target}|{self.category}|{self.capture_args}|{self.instrumentation_mode}|{self.remote_tuning}|{signature}".encode(
+            hash_input = f"{filename}|{self.name}|{self.target}|{self.category}|{self.remote_tuning}|{signature}".encode(
                 "utf-8"
             )
             stable_id = hashlib.sha256(hash_input).hexdigest()[:16]
@@ -410,6 +411,23 @@ class PythonProgram(DoccProgram):
             return f"Structure({t.name})"
         return str(t)
 
+    def _layout_of(self, arg):
+        """What the kernel is built for besides the argument's type: the literal
+        extents and strides of an array, the members of an object."""
+        if isinstance(arg, np.ndarray):
+            unit_dims = [d for d, extent in enumerate(arg.shape) if extent == 1]
+            if arg.flags["C_CONTIGUOUS"]:
+                return ("C", unit_dims)
+            if arg.flags["F_CONTIGUOUS"]:
+                return ("F", unit_dims)
+            return ([s // arg.itemsize for s in arg.strides], unit_dims)
+        if hasattr(arg, "__dict__"):
+            return [
+                (name, type(value).__name__)
+                for name, value in sorted(arg.__dict__.items())
+            ]
+        return None
+
     def _infer_type(self, arg):
         if isinstance(arg, (float, np.float64)):
             return Scalar(PrimitiveType.Double)
-- 
2.43.0


From a32c9b10b47296877cdcb3f7ca881e463f379dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:18 +0000
Subject: [PATCH 51/57] fix: copies of an invoke node keep a single unwind
 output

---
 sdfg/src/data_flow/library_nodes/invoke_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/invoke_node.cpp b/sdfg/src/data_flow/library_nodes/invoke_node.cpp
index 969510e..68e3823 100644
--- a/sdfg/src/data_flow/library_nodes/invoke_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/invoke_node.cpp
@@ -24,7 +24,10 @@ InvokeNode::InvokeNode(
           data_flow::ImplementationType_NONE
       ),
       callee_name_(callee_name) {
-    this->outputs_.push_back("_unwind"); // Add unwind output
+    // Add unwind output (a copy of another invoke node's outputs has it already)
+    if (this->outputs_.empty() || this->outputs_.back() != "_unwind") {
+        this->outputs_.push_back("_unwind");
+    }
 }
 
 const std::string& InvokeNode::callee_name() const { return this->callee_name_; }
-- 
2.43.0


From 90da8d3486d33bb5fe23e0a55688ebc71d7c3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:18 +0000
Subject: [PATCH 52/57] fix: a loaded barrier keeps its debug information

---
 sdfg/src/data_flow/library_nodes/barrier_local_node.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp b/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
index b2d590f..ce6260d 100644
--- a/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
@@ -47,7 +47,13 @@ data_flow::LibraryNode& BarrierLocalNodeSerializer::deserialize(
     if (code != data_flow::LibraryNodeType_BarrierLocal.value()) {
         throw std::runtime_error("Invalid library node code");
     }
-    return builder.add_library_node<data_flow::BarrierLocalNode>(parent, DebugInfo());
+
+    DebugInfo debug_info;
+    if (j.contains("debug_info")) {
+        sdfg::serializer::JSONSerializer serializer;
+        debug_info = serializer.json_to_debug_info(j["debug_info"]);
+    }
+    return builder.add_library_node<data_flow::BarrierLocalNode>(parent, debug_info);
 };
 
 BarrierLocalNodeDispatcher::BarrierLocalNodeDispatcher(
-- 
2.43.0


From 40cf42b519a1c2dc05192cb27105c2287a46c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:53 +0000
Subject: [PATCH 53/57] fix: a copied if/else keeps its debug information

---
 sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp b/sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp
index 495f4d8..74683f1 100644
--- a/sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp
+++ b/sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp
@@ -90,7 +90,7 @@ void StructuredSDFGDeepCopy::
         this->node_mapping[sequence_stmt] = &new_seq;
         this->append(new_seq, *sequence_stmt);
     } else if (auto if_else_stmt = dynamic_cast<structured_control_flow::IfElse*>(&source)) {
-        auto& new_scope = this->builder_.add_if_else(root);
+        auto& new_scope = this->builder_.add_if_else(root, {}, if_else_stmt->debug_info());
         this->node_mapping[if_else_stmt] = &new_scope;
         for (size_t i = 0; i < if_else_stmt->size(); i++) {
             auto branch = if_else_stmt->at(i);
-- 
2.43.0


From 9f121716434d0eef09343e5213b4a7fe2136e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:33 +0000
Subject: [PATCH 54/57] fix: early returns, continues of outer loops and exits
 of several loops at once are structured correctly

---
 .../sdfg/builder/structured_sdfg_builder.h    |  1 +
 sdfg/src/builder/structured_sdfg_builder.cpp  | 28 +++++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/sdfg/include/sdfg/builder/structured_sdfg_builder.h b/sdfg/include/sdfg/builder/structured_sdfg_builder.h
index ed15b46..da001c0 100644
--- a/sdfg/include/sdfg/builder/structured_sdfg_builder.h
+++ b/sdfg/include/sdfg/builder/structured_sdfg_builder.h
@@ -49,6 +49,7 @@ private:
     determine_loop_nodes(SDFG& sdfg, const control_flow::State& start, const control_flow::State& end) const;
 
     structured_control_flow::While* current_traverse_loop_;
+    const control_flow::State* current_traverse_header_;
 
     void traverse(SDFG& sdfg);
 
diff --git a/sdfg/src/builder/structured_sdfg_builder.cpp b/sdfg/src/builder/structured_sdfg_builder.cpp
index 6e20e78..7c577e7 100644
--- a/sdfg/src/builder/structured_sdfg_builder.cpp
+++ b/sdfg/src/builder/structured_sdfg_builder.cpp
@@ -143,6 +143,7 @@ void StructuredSDFGBuilder::traverse(SDFG& sdfg) {
     }
 
     this->current_traverse_loop_ = nullptr;
+    this->current_traverse_header_ = nullptr;
     std::unordered_set<const control_flow::State*> visited;
     this->structure_region(sdfg, root, start_state, nullptr, continues, breaks, pdom_tree, visited);
 };
@@ -203,14 +204,14 @@ void StructuredSDFGBuilder::structure_region(
 
             // 2. Determine exit states and exit edges
             std::unordered_set<const control_flow::State*> exit_states;
-            std::unordered_set<const control_flow::InterstateEdge*> exit_edges;
+            std::unordered_set<const control_flow::InterstateEdge*> outgoing_edges;
             for (auto node : body) {
                 for (auto& edge : sdfg.out_edges(*node)) {
                     if (body.find(&edge.dst()) == body.end()) {
                         if (continues.find(&edge) != continues.end()) {
                             continue;
                         }
-                        exit_edges.insert(&edge);
+                        outgoing_edges.insert(&edge);
                         exit_states.insert(&edge.dst());
                     }
                 }
@@ -236,8 +237,12 @@ void StructuredSDFGBuilder::structure_region(
             }
             const control_flow::State* exit_state = *exit_states.begin();
 
-            for (auto& edge : breaks) {
-                exit_edges.insert(edge);
+            // A break of this loop leads to its exit state; other edges return from within the loop
+            std::unordered_set<const control_flow::InterstateEdge*> exit_edges;
+            for (auto edge : outgoing_edges) {
+                if (&edge->dst() == exit_state) {
+                    exit_edges.insert(edge);
+                }
             }
 
             // Collect debug information
@@ -255,7 +260,9 @@ void StructuredSDFGBuilder::structure_region(
             // 3. Add while loop
             While& loop = this->add_while(scope, {}, dbg_info);
             auto last_loop_ = this->current_traverse_loop_;
+            auto last_header_ = this->current_traverse_header_;
             this->current_traverse_loop_ = &loop;
+            this->current_traverse_header_ = current;
 
             std::unordered_set<const control_flow::State*> loop_visited(visited);
             loop_visited.erase(current);
@@ -264,6 +271,15 @@ void StructuredSDFGBuilder::structure_region(
                 sdfg, loop.root(), current, exit_state, continues, exit_edges, pdom_tree, loop_visited, true
             );
             this->current_traverse_loop_ = last_loop_;
+            this->current_traverse_header_ = last_header_;
+
+            // The exit of the inner loop leaves the outer loop as well
+            for (auto edge : breaks) {
+                if (&edge->dst() == exit_state) {
+                    this->add_break(scope, {}, edge->debug_info());
+                    return;
+                }
+            }
 
             current = exit_state;
             continue;
@@ -305,7 +321,7 @@ void StructuredSDFGBuilder::structure_region(
             }
 
             if (continues.find(&oedge) != continues.end()) {
-                if (this->current_traverse_loop_ == nullptr) {
+                if (this->current_traverse_loop_ == nullptr || &oedge.dst() != this->current_traverse_header_) {
                     throw UnstructuredControlFlowException();
                 }
                 this->add_continue(scope, {}, oedge.debug_info());
@@ -357,7 +373,7 @@ void StructuredSDFGBuilder::structure_region(
                     this->add_block(branch, out_edge.assignments(), out_edge.debug_info());
                 }
                 if (continues.find(&out_edge) != continues.end()) {
-                    if (this->current_traverse_loop_ == nullptr) {
+                    if (this->current_traverse_loop_ == nullptr || &out_edge.dst() != this->current_traverse_header_) {
                         throw UnstructuredControlFlowException();
                     }
                     this->add_continue(branch, {}, out_edge.debug_info());
-- 
2.43.0


From 2197fc6a214fef708bb1e478f7cac1040304690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:31 +0000
Subject: [PATCH 55/57] fix: loops that are left early are not made parallel,
 tiled, interchanged or distributed

---
 sdfg/include/sdfg/analysis/loop_analysis.h    | 17 ++++++++
 sdfg/src/analysis/loop_analysis.cpp           | 40 +++++++++++++++++++
 .../structured_control_flow/for2map.cpp       |  5 +++
 sdfg/src/transformations/loop_distribute.cpp  |  6 +++
 sdfg/src/transformations/loop_interchange.cpp |  5 +++
 sdfg/src/transformations/loop_tiling.cpp      |  4 ++
 6 files changed, 77 insertions(+)

diff --git a/sdfg/include/sdfg/analysis/loop_analysis.h b/sdfg/include/sdfg/analysis/loop_analysis.h
index b54622e..e3b4694 100644
--- a/sdfg/include/sdfg/analysis/loop_analysis.h
+++ b/sdfg/include/sdfg/analysis/loop_analysis.h
@@ -145,6 +145,23 @@ public:
     static bool
     is_indvar_live_out(structured_control_flow::StructuredLoop* loop, analysis::AnalysisManager& analysis_manager);
 
+    /**
+     * @brief Checks if a loop may be left before its condition is false, i.e., its body has a break of this loop or
+     * a return.
+     *
+     * @param loop The loop to check.
+     * @return True if the loop may be left early, false otherwise.
+     */
+    static bool has_early_exit(const structured_control_flow::StructuredLoop& loop);
+
+    /**
+     * @brief Checks if the body of a loop has a break or continue of this loop, or a return.
+     *
+     * @param loop The loop to check.
+     * @return True if statements of the body may be skipped by a jump, false otherwise.
+     */
+    static bool has_jumps(const structured_control_flow::StructuredLoop& loop);
+
     /**
      * @brief Checks if a loop's update is a contiguous function (positive).
      *
diff --git a/sdfg/src/analysis/loop_analysis.cpp b/sdfg/src/analysis/loop_analysis.cpp
index 39ba0a1..f7239bb 100644
--- a/sdfg/src/analysis/loop_analysis.cpp
+++ b/sdfg/src/analysis/loop_analysis.cpp
@@ -241,6 +241,46 @@ bool LoopAnalysis::is_monotonic(structured_control_flow::StructuredLoop* loop, c
     return symbolic::series::is_monotonic(loop->update(), loop->indvar(), assumptions);
 }
 
+namespace {
+
+// Searches for jumps that leave the body; inner loops have breaks and continues of their own
+bool find_jump(const structured_control_flow::ControlFlowNode& node, bool inner_loop, bool continues) {
+    if (auto seq = dynamic_cast<const structured_control_flow::Sequence*>(&node)) {
+        for (size_t i = 0; i < seq->size(); i++) {
+            if (find_jump(seq->at(i).first, inner_loop, continues)) {
+                return true;
+            }
+        }
+    } else if (auto ifelse = dynamic_cast<const structured_control_flow::IfElse*>(&node)) {
+        for (size_t i = 0; i < ifelse->size(); i++) {
+            if (find_jump(ifelse->at(i).first, inner_loop, continues)) {
+                return true;
+            }
+        }
+    } else if (auto loop = dynamic_cast<const structured_control_flow::StructuredLoop*>(&node)) {
+        return find_jump(loop->root(), true, continues);
+    } else if (auto while_stmt = dynamic_cast<const structured_control_flow::While*>(&node)) {
+        return find_jump(while_stmt->root(), true, continues);
+    } else if (dynamic_cast<const structured_control_flow::Break*>(&node)) {
+        return !inner_loop;
+    } else if (dynamic_cast<const structured_control_flow::Continue*>(&node)) {
+        return !inner_loop && continues;
+    } else if (dynamic_cast<const structured_control_flow::Return*>(&node)) {
+        return true;
+    }
+    return false;
+}
+
+} // namespace
+
+bool LoopAnalysis::has_early_exit(const structured_control_flow::StructuredLoop& loop) {
+    return find_jump(loop.root(), false, false);
+}
+
+bool LoopAnalysis::has_jumps(const structured_control_flow::StructuredLoop& loop) {
+    return find_jump(loop.root(), false, true);
+}
+
 bool LoopAnalysis::is_indvar_live_out(
     structured_control_flow::StructuredLoop* loop, analysis::AnalysisManager& analysis_manager
 ) {
diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index cca2b22..6593a24 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -61,6 +61,11 @@ bool For2MapPass::can_be_applied(
         }
     }
 
+    // Criterion: Loop must not be left early, since other iterations decide which iterations are executed
+    if (analysis::LoopAnalysis::has_early_exit(for_stmt)) {
+        return false;
+    }
+
     // Criterion: loop must be data-parallel w.r.t containers
     auto dependencies = data_dependency_analysis_->dependencies(for_stmt);
 
diff --git a/sdfg/src/transformations/loop_distribute.cpp b/sdfg/src/transformations/loop_distribute.cpp
index 1c2f9ec..be03dbb 100644
--- a/sdfg/src/transformations/loop_distribute.cpp
+++ b/sdfg/src/transformations/loop_distribute.cpp
@@ -1,6 +1,7 @@
 #include "sdfg/transformations/loop_distribute.h"
 
 #include "sdfg/analysis/data_dependency_analysis.h"
+#include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/deepcopy/structured_sdfg_deep_copy.h"
 
@@ -26,6 +27,11 @@ bool LoopDistribute::can_be_applied(builder::StructuredSDFGBuilder& builder, ana
         return false;
     }
 
+    // Criterion: Iterations execute the whole body
+    if (analysis::LoopAnalysis::has_jumps(this->loop_)) {
+        return false;
+    }
+
     // Criterion: Child does not write to loop-local containers
     /**
      * Positive example:
diff --git a/sdfg/src/transformations/loop_interchange.cpp b/sdfg/src/transformations/loop_interchange.cpp
index 5439f09..dbcc66e 100644
--- a/sdfg/src/transformations/loop_interchange.cpp
+++ b/sdfg/src/transformations/loop_interchange.cpp
@@ -51,6 +51,11 @@ bool LoopInterchange::can_be_applied(builder::StructuredSDFGBuilder& builder, an
         }
     }
 
+    // Criterion: Inner loop is not left early
+    if (analysis::LoopAnalysis::has_early_exit(this->inner_loop_)) {
+        return false;
+    }
+
     // Criterion: Any of both loops is a map
     if (dynamic_cast<structured_control_flow::Map*>(&outer_loop_)) {
         return true;
diff --git a/sdfg/src/transformations/loop_tiling.cpp b/sdfg/src/transformations/loop_tiling.cpp
index b432683..fdb5796 100644
--- a/sdfg/src/transformations/loop_tiling.cpp
+++ b/sdfg/src/transformations/loop_tiling.cpp
@@ -25,6 +25,10 @@ bool LoopTiling::can_be_applied(builder::StructuredSDFGBuilder& builder, analysi
         analysis::LoopAnalysis::is_indvar_live_out(&loop_, analysis_manager)) {
         return false;
     }
+    // Criterion: Loop is not left early, since a break would only leave the tile
+    if (analysis::LoopAnalysis::has_early_exit(loop_)) {
+        return false;
+    }
     // Criterion contiguous loop
     auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
     return analysis::LoopAnalysis::is_contiguous(&loop_, assumptions_analysis);
-- 
2.43.0


From e8430b767dadcf671306db8e253cfff0150c2544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:31 +0000
Subject: [PATCH 56/57] fix: dominance respects that breaks and continues skip
 the rest of the loop body

---
 sdfg/include/sdfg/analysis/users.h       |  6 ++++++
 sdfg/src/analysis/dominance_analysis.cpp | 10 ++++++++++
 sdfg/src/analysis/users.cpp              | 16 ++++++++++++++--
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/users.h b/sdfg/include/sdfg/analysis/users.h
index a9bf5fd..bfd14bb 100644
--- a/sdfg/include/sdfg/analysis/users.h
+++ b/sdfg/include/sdfg/analysis/users.h
@@ -90,6 +90,12 @@ private:
     structured_control_flow::ControlFlowNode& node_;
 
     graph::Graph graph_;
+
+    // Exits of the loops being traversed and edges from breaks / continues to the exits of their loops.
+    // The edges are not part of the graph, but dominance must respect them.
+    std::vector<graph::Vertex> loop_exits_;
+    std::vector<std::pair<graph::Vertex, graph::Vertex>> jumps_;
+
     User* source_;
     User* sink_;
 
diff --git a/sdfg/src/analysis/dominance_analysis.cpp b/sdfg/src/analysis/dominance_analysis.cpp
index b0db5ae..cf8515f 100644
--- a/sdfg/src/analysis/dominance_analysis.cpp
+++ b/sdfg/src/analysis/dominance_analysis.cpp
@@ -11,8 +11,18 @@ void DominanceAnalysis::run(AnalysisManager& analysis_manager) {
 
     auto& users_analysis = analysis_manager.get<analysis::Users>();
 
+    // Breaks and continues skip the remaining statements of the loop body
+    std::vector<graph::Edge> jumps;
+    for (auto& [source, target] : users_analysis.jumps_) {
+        jumps.push_back(boost::add_edge(source, target, users_analysis.graph_).first);
+    }
+
     this->dom_tree_ = graph::dominator_tree(users_analysis.graph_, users_analysis.source_->vertex_);
     this->pdom_tree_ = graph::post_dominator_tree(users_analysis.graph_);
+
+    for (auto& jump : jumps) {
+        boost::remove_edge(jump, users_analysis.graph_);
+    }
 }
 
 bool DominanceAnalysis::dominates(User& user1, User& user2) {
diff --git a/sdfg/src/analysis/users.cpp b/sdfg/src/analysis/users.cpp
index 558c533..c6fef03 100644
--- a/sdfg/src/analysis/users.cpp
+++ b/sdfg/src/analysis/users.cpp
@@ -310,13 +310,15 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
         this->users_.insert({s, std::make_unique<User>(s, "", loop_stmt, Use::NOP)});
         this->entries_.insert({loop_stmt, this->users_.at(s).get()});
 
-        auto subgraph = this->traverse(loop_stmt->root());
-
         // NOP
         auto t = boost::add_vertex(this->graph_);
         this->users_.insert({t, std::make_unique<User>(t, "", loop_stmt, Use::NOP)});
         this->exits_.insert({loop_stmt, this->users_.at(t).get()});
 
+        this->loop_exits_.push_back(t);
+        auto subgraph = this->traverse(loop_stmt->root());
+        this->loop_exits_.pop_back();
+
         boost::add_edge(s, subgraph.first, this->graph_);
         if (subgraph.second != boost::graph_traits<graph::Graph>::null_vertex()) {
             boost::add_edge(subgraph.second, t, this->graph_);
@@ -365,7 +367,9 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
             last = v;
         }
 
+        this->loop_exits_.push_back(t);
         auto subgraph = this->traverse(for_stmt->root());
+        this->loop_exits_.pop_back();
         boost::add_edge(last, subgraph.first, this->graph_);
 
         // Update
@@ -400,6 +404,9 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
         this->users_.insert({v, std::make_unique<User>(v, "", cont_stmt, Use::NOP)});
         this->entries_.insert({cont_stmt, this->users_.at(v).get()});
         this->exits_.insert({cont_stmt, this->users_.at(v).get()});
+        if (!this->loop_exits_.empty()) {
+            this->jumps_.push_back({v, this->loop_exits_.back()});
+        }
         return {v, v};
     } else if (auto br_stmt = dynamic_cast<structured_control_flow::Break*>(&node)) {
         // Approximated by general back edge in loop scope
@@ -407,6 +414,9 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
         this->users_.insert({v, std::make_unique<User>(v, "", br_stmt, Use::NOP)});
         this->entries_.insert({br_stmt, this->users_.at(v).get()});
         this->exits_.insert({br_stmt, this->users_.at(v).get()});
+        if (!this->loop_exits_.empty()) {
+            this->jumps_.push_back({v, this->loop_exits_.back()});
+        }
         return {v, v};
     } else if (auto ret_stmt = dynamic_cast<structured_control_flow::Return*>(&node)) {
         if (!ret_stmt->is_data() || ret_stmt->data().empty()) {
@@ -440,6 +450,8 @@ Users::Users(StructuredSDFG& sdfg, structured_control_flow::ControlFlowNode& nod
 void Users::run(analysis::AnalysisManager& analysis_manager) {
     users_.clear();
     graph_.clear();
+    loop_exits_.clear();
+    jumps_.clear();
     source_ = nullptr;
     sink_ = nullptr;
     this->entries_.clear();
-- 
2.43.0


From e6f241fb0c028fbd62d505b9fdeb63d630595105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:25 +0000
Subject: [PATCH 57/57] fix: a loop whose step varies is not contiguous

---
 sdfg/src/symbolic/series.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/series.cpp b/sdfg/src/symbolic/series.cpp
index 7c7fae3..1ec131c 100644
--- a/sdfg/src/symbolic/series.cpp
+++ b/sdfg/src/symbolic/series.cpp
@@ -63,7 +63,9 @@ bool is_contiguous_affine(const Expression expr, const Symbol sym, const Assumpt
         signed long mul_value = mul_int->as_int();
         signed long offset_value = offset_int->as_int();
         if (mul_value == 1 && offset_value == 1) {
-            return true;
+            // The coefficients are lower bounds, the step must never be larger
+            auto step = maximum(symbolic::expand(symbolic::sub(expr, sym)), {}, assums);
+            return step != SymEngine::null && symbolic::eq(step, integer(1));
         }
     } catch (SymEngine::SymEngineException&) {
         return false;
-- 
2.43.0

