from seedlib import *
G = "sdfg/src/graph/graph.cpp"
GPRE = r'''
#include "sdfg/graph/graph.h"
#include <cstdio>
#include <vector>
#include <utility>
using namespace sdfg::graph;
struct T { Graph g; std::vector<Vertex> v; T(int n, std::vector<std::pair<int,int>> es) { for (int i = 0; i < n; i++) v.push_back(boost::add_vertex(g)); for (auto [a, b] : es) boost::add_edge(v[a], v[b], g); } };
static int bad = 0;
#define EXPECT(x) do { if (!(x)) { printf("FAILED: %s\n", #x); bad = 1; } } while (0)
'''
write("G01-single-pred", "G01", [(G, '''    for (const auto& entry : vertex_index_map) {
        dom_tree.insert({entry.first, dom_tree_vec[entry.second]});
    }
''', '''    for (const auto& entry : vertex_index_map) {
        // A vertex with a unique predecessor is dominated by that predecessor
        if (entry.first != src && boost::in_degree(entry.first, graph) == 1) {
            dom_tree.insert({entry.first, boost::source(*boost::in_edges(entry.first, graph).first, graph)});
            continue;
        }
        dom_tree.insert({entry.first, dom_tree_vec[entry.second]});
    }
''')], "a vertex that the root cannot reach and that has exactly one predecessor", "the unreachable vertex is given a dominator", GRAPH,
{"demo.cpp": GPRE + r'''
int main() {
    T t(4, {{0, 1}, {2, 3}});
    auto d = dominator_tree(t.g, t.v[0]);
    auto nul = boost::graph_traits<Graph>::null_vertex();
    EXPECT(d.at(t.v[0]) == nul); EXPECT(d.at(t.v[1]) == t.v[0]); EXPECT(d.at(t.v[2]) == nul); EXPECT(d.at(t.v[3]) == nul);
    return bad;
}'''})

write("G02-exit-with-one-pred", "G02", [(G, '''        for (const auto& v : terminal_vertices) {
            boost::add_edge(v, src, graph);
        }
''', '''        for (const auto& v : terminal_vertices) {
            // isolated vertices have no paths to post-dominate
            if (boost::in_degree(v, graph) > 1 || terminal_vertices.size() < 4) {
                boost::add_edge(v, src, graph);
            }
        }
''')], "at least four exits, some of which have a single predecessor", "exits are dropped from the common exit, so a vertex is said to be post-dominated by one of several exits", GRAPH,
{"demo.cpp": GPRE + r'''
int main() {
    // 0 branches to 1,2,3 (exits) and 4; 5 and 4 lead to 6, an exit
    T t(7, {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {4, 6}, {5, 6}});
    auto d = post_dominator_tree(t.g);
    auto nul = boost::graph_traits<Graph>::null_vertex();
    EXPECT(d.size() == 7); EXPECT(d.at(t.v[0]) == nul); EXPECT(d.at(t.v[4]) == t.v[6]); EXPECT(d.at(t.v[5]) == t.v[6]);
    EXPECT(boost::num_vertices(t.g) == 7); EXPECT(boost::num_edges(t.g) == 6);
    return bad;
}'''})

write("G03-acyclic-count", "G03", [(G, '''bool is_acyclic(const Graph& graph) {
    try {''', '''bool is_acyclic(const Graph& graph) {
    // A graph with fewer edges than vertices is a forest
    if (boost::num_edges(graph) < boost::num_vertices(graph)) {
        return true;
    }
    try {''')], "a disconnected graph that has a cycle but fewer edges than vertices", "the cycle is not found", GRAPH,
{"demo.cpp": GPRE + r'''
int main() {
    T a(3, {{0, 1}, {1, 2}}); EXPECT(is_acyclic(a.g));
    T b(2, {{0, 1}, {1, 0}}); EXPECT(!is_acyclic(b.g));
    T c(4, {{0, 1}, {1, 2}, {2, 1}}); EXPECT(!is_acyclic(c.g));
    T d(2, {{0, 0}}); EXPECT(!is_acyclic(d.g));
    return bad;
}'''})
write("G03-self-loop", "G03", [("sdfg/include/sdfg/graph/graph.h", '''    void back_edge(Edge e, const Graph& g) { back_edges_.push_back(e); };''',
'''    void back_edge(Edge e, const Graph& g) {
        if (!back_edges_.empty() && boost::target(back_edges_.back(), g) == boost::target(e, g)) return;
        back_edges_.push_back(e);
    };''')], "two consecutive back edges into the same loop header (continue statements, nested loops)", "only one of the back edges of a loop header is reported", GRAPH,
{"demo.cpp": GPRE + r'''
int main() {
    T t(4, {{0, 1}, {1, 2}, {2, 3}, {3, 1}, {2, 1}});
    auto b = back_edges(t.g, t.v[0]);
    EXPECT(b.size() == 2);
    T s(2, {{0, 1}, {1, 1}});
    EXPECT(back_edges(s.g, s.v[0]).size() == 1);
    return bad;
}'''})
write("G04-undirected-dedupe", "G04", [(G, '''        const auto& v = boost::target(edge, graph);
        boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);
''', '''        const auto& v = boost::target(edge, graph);
        // u -> v and v -> u are one undirected edge
        if (std::less<>()(v, u) && boost::edge(v, u, graph).second) {
            continue;
        }
        boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);
''')], "a graph with edges in both directions between two vertices", "an edge is lost when the graph is undirected", GRAPH,
{"demo.cpp": GPRE + r'''
int main() {
    T t(2, {{0, 1}, {1, 0}});
    EXPECT(boost::num_edges(*std::get<0>(undirected(t.g))) == 2);
    T p(2, {{0, 1}, {0, 1}});
    EXPECT(boost::num_edges(*std::get<0>(undirected(p.g))) == 2);
    return bad;
}'''})
write("G05-parallel", "G05", [(G, '''    auto [eb, ee] = boost::out_edges(u, graph);
    auto edges = std::ranges::subrange(eb, ee);
    for (auto next_edge : edges) {
        all_simple_paths_dfs''', '''    auto [eb, ee] = boost::out_edges(u, graph);
    auto edges = std::ranges::subrange(eb, ee);
    std::set<Vertex> tried;
    for (auto next_edge : edges) {
        if (!tried.insert(boost::target(next_edge, graph)).second) {
            continue;
        }
        all_simple_paths_dfs''')], "parallel edges that do not leave the first vertex", "paths that differ only in a parallel edge are lost", GRAPH,
{"demo.cpp": GPRE + r'''
int main() {
    T t(3, {{0, 1}, {1, 2}, {1, 2}});
    EXPECT(all_simple_paths(t.g, t.v[0], t.v[2]).size() == 2);
    T s(3, {{0, 1}, {0, 1}, {1, 2}});
    EXPECT(all_simple_paths(s.g, s.v[0], s.v[2]).size() == 2);
    return bad;
}'''})

A = "arg-capture-io/src/arg_capture_io.cpp"
R = "rtl/src/capture.cpp"
CPRE = r'''
#include <daisy_rtl/daisy_rtl.h>
#include <daisy_rtl/arg_capture_io.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <map>
#include <set>
#include <string>
#include <unistd.h>
#include <sys/resource.h>
#include <signal.h>
namespace fs = std::filesystem;
static int bad = 0;
#define EXPECT(x) do { if (!(x)) { printf("FAILED: %s\n", #x); bad = 1; } } while (0)
static std::set<std::string> ls(const char* d) { std::set<std::string> r; if (fs::exists(d)) for (auto& e : fs::directory_iterator(d)) r.insert(e.path().filename().string()); return r; }
static int indices(const char* d) { int n = 0; for (auto& f : ls(d)) n += f.find(".index.json") != std::string::npos; return n; }
static std::string slurp(const fs::path& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
'''
write("C01-strategy-prefix", "C01", [(R, '''default_strat && std::strcmp(default_strat, "all") == 0''', '''default_strat && std::strncmp(default_strat, "all", 3) == 0''')],
 "a strategy variable that only starts with 'all' (an unknown strategy)", "every invocation is recorded instead of the first one", CAPTURE,
{"demo.cpp": CPRE + r'''
int main() {
    setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all-but-first", 1);
    auto* c = __daisy_capture_init("k", "caps");
    EXPECT(__daisy_capture_enter(c, 3)); int x = 1; __daisy_capture_raw(c, 0, &x, 4, 4, false, 3); __daisy_capture_end(c);
    EXPECT(!__daisy_capture_enter(c, 3));
    setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all", 1);
    auto* d = __daisy_capture_init("l", "caps");
    EXPECT(__daisy_capture_enter(d, 3)); EXPECT(__daisy_capture_enter(d, 3));
    return bad;
}'''})
write("C01-global-count", "C01", [(A, '''    invokes_[element_id] = (invokes_.count(element_id) > 0) ? invokes_[element_id] + 1 : 0;
''', '''    auto known = invokes_.find(element_id);
    if (known == invokes_.end()) {
        // regions appear in program order: number them after the ones already running
        invokes_[element_id] = invokes_.size() > 2 ? 1 : 0;
    } else {
        known->second++;
    }
''')], "a third region entered in the same capture context", "the first invocation of the third region is not recorded under 'once'", CAPTURE,
{"demo.cpp": CPRE + r'''
int main() {
    auto* c = __daisy_capture_init("k", "caps");
    for (size_t el = 1; el <= 5; el++) {
        EXPECT(__daisy_capture_enter(c, el)); int x = el; __daisy_capture_raw(c, 0, &x, 4, 4, false, el); __daisy_capture_end(c);
        EXPECT(!__daisy_capture_enter(c, el));
    }
    EXPECT(indices("caps") == 5);
    return bad;
}'''})
write("C02-no-truncate", "C02", [(A, """    std::ofstream ofs(file, std::ofstream::binary | std::ofstream::out);

    if (!ofs.is_open()) {
        // Reset""", """    // Rewrite a file that is there already in place
    std::error_code exists_ec;
    std::ofstream ofs;
    if (std::filesystem::file_size(file, exists_ec) > size && !exists_ec) {
        ofs.open(file, std::ofstream::binary | std::ofstream::out | std::ofstream::in);
    } else {
        ofs.open(file, std::ofstream::binary | std::ofstream::out);
    }

    if (!ofs.is_open()) {
        // Reset""")], "the same argument captured twice in one invocation, the second time with fewer bytes", "the data file keeps the tail of the first capture", CAPTURE,
{"demo.cpp": CPRE + r"""
int main() {
    auto* c = __daisy_capture_init("k", "caps");
    double x[8] = {1, 2, 3, 4, 5, 6, 7, 8};
    EXPECT(__daisy_capture_enter(c, 3));
    __daisy_capture_1d(c, 0, x, 8, 14, 8, false, 3); __daisy_capture_1d(c, 0, x, 8, 14, 5, false, 3);
    __daisy_capture_end(c);
    auto io = arg_capture::ArgCaptureIO::from_index<>("caps/k_inv0_3.index.json");
    auto& m = io->get_captures().at("3"); EXPECT(m.size() == 1);
    auto& e = m.begin()->second; EXPECT((e.dims == std::vector<size_t>{8, 5})); EXPECT(fs::file_size(*e.ext_file) == 40);
    return bad;
}"""})
write("C02-clear-late", "C02", [(R, '''    clear();

    invocation(element_id);

    auto specific_invocation_only = this->invocation_to_capture_;
    return (specific_invocation_only == ALL_INVOCATIONS) || (invokes_.at(element_id) == specific_invocation_only);
''', '''    invocation(element_id);

    auto specific_invocation_only = this->invocation_to_capture_;
    if (specific_invocation_only != ALL_INVOCATIONS && invokes_.at(element_id) != specific_invocation_only) {
        return false;
    }
    // what other regions captured is still to be written
    current_captures_[element_id].clear();
    return true;
''')], "two regions recorded one after the other in one context", "the second region's end writes the first region's captures again", CAPTURE,
{"demo.cpp": CPRE + r'''
int main() {
    auto* c = __daisy_capture_init("k", "caps");
    int x = 1;
    EXPECT(__daisy_capture_enter(c, 3)); __daisy_capture_raw(c, 0, &x, 4, 4, false, 3); __daisy_capture_end(c);
    EXPECT(!__daisy_capture_enter(c, 3));
    EXPECT(__daisy_capture_enter(c, 4)); __daisy_capture_raw(c, 0, &x, 4, 4, false, 4); __daisy_capture_end(c);
    EXPECT(indices("caps") == 2);
    return bad;
}'''})
write("C03-narrow-invocation", "C03", [(R, """std::to_string(invokes_.at(element_id)) + "_arg\"""", """std::to_string(static_cast<uint8_t>(invokes_.at(element_id))) + "_arg\"""")],
"all invocations recorded, more than 256 of one region", "the data of invocation 256 overwrites that of invocation 0", CAPTURE,
{"demo.cpp": CPRE + r"""
int main() {
    setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all", 1);
    auto* c = __daisy_capture_init("k", "caps");
    for (int i = 0; i < 260; i++) {
        EXPECT(__daisy_capture_enter(c, 3)); __daisy_capture_raw(c, 0, &i, 4, 4, false, 3); __daisy_capture_end(c);
    }
    EXPECT(ls("caps").size() == 520);
    return bad;
}"""})
write("C03-file-name", "C03", [(R, '''"_" + capType + "_" + element_id + ".bin");''', '''"_" + capType + "_" + element_id.substr(element_id.size() > 4 ? element_id.size() - 4 : 0) + ".bin");''')],
"region numbers above 9999 that agree in their last four digits", "two regions share one data file", CAPTURE,
{"demo.cpp": CPRE + r'''
int main() {
    auto* c = __daisy_capture_init("k", "caps");
    int x = 1, y = 2;
    EXPECT(__daisy_capture_enter(c, 10007)); __daisy_capture_raw(c, 0, &x, 4, 4, false, 10007); __daisy_capture_end(c);
    EXPECT(__daisy_capture_enter(c, 20007)); __daisy_capture_raw(c, 0, &y, 4, 4, false, 20007); __daisy_capture_end(c);
    EXPECT(ls("caps").size() == 4);
    return bad;
}'''})
write("C04-empty-inline", "C04", [(A, '''    if (entry.contains("data")) {
        auto data = base64_decode''', '''    if (entry.contains("data") && !entry["data"].get<std::string>().empty()) {
        auto data = base64_decode''')], "an inline capture of zero bytes", "the loaded entry has neither data nor a file", CAPTURE,
{"demo.cpp": CPRE + r'''
int main() {
    arg_capture::ArgCaptureIO io("k"); io.invocation("r");
    char b[3] = {1, 2, 3};
    io.create_and_capture_inline(0, false, 4, {0}, b, "r"); io.create_and_capture_inline(1, false, 4, {3}, b, "r");
    io.write_index("caps");
    auto l = arg_capture::ArgCaptureIO::from_index<>("caps/k_inv0_r.index.json");
    auto& m = l->get_captures().at("r");
    EXPECT(m.at({0, false}).data && m.at({0, false}).data->size() == 0); EXPECT(m.at({1, false}).data && m.at({1, false}).data->size() == 3);
    return bad;
}'''})
write("C04-base64", "C04", [("arg-capture-io/src/base64.cpp", '''return (isalnum(c) || (c == '+') || (c == '/')); }''', '''return (isalnum(c) || (c == '+') || (c == '-')); }''')],
 "inline bytes whose encoding contains a slash", "the loaded bytes are truncated", CAPTURE,
{"demo.cpp": CPRE + r'''
int main() {
    arg_capture::ArgCaptureIO io("k"); io.invocation("r");
    std::vector<uint8_t> b(256); for (int i = 0; i < 256; i++) b[i] = 255 - i;
    io.create_and_capture_inline(0, false, 4, {256}, b.data(), "r");
    io.write_index("caps");
    auto l = arg_capture::ArgCaptureIO::from_index<>("caps/k_inv0_r.index.json");
    auto& m = l->get_captures().at("r"); EXPECT(*m.at({0, false}).data == b);
    return bad;
}'''})
write("C05-close", "C05", [(A, '''    ofs.close();

    if (ofs.fail()) {
        std::cerr << "[ArgCaptureIO] Error closing file " << file.string() << std::endl;
        return false;
    }

    DEBUG_PRINTLN(" closed");
''', '''    // the stream closes the file
    DEBUG_PRINTLN(" closed");
''')], "the device fills up while a small argument is flushed on close", "the failed write is not reported and an index naming a truncated file is written", CAPTURE,
{"demo.cpp": CPRE + r'''
int main() {
    // /dev/full: opening works, every write fails with ENOSPC
    int x = 7;
    EXPECT(arg_capture::ArgCaptureIO::write_data_to_raw_file("/dev/full", &x, sizeof x) == false);
    EXPECT(arg_capture::ArgCaptureIO::write_data_to_raw_file("./ok.bin", &x, sizeof x) == true);
    return bad;
}'''})
I = "rtl/src/instrumentation.cpp"
write("R01-inf", "R01", [(I, '''    if (std::isfinite(val.value)) {''', '''    if (!std::isnan(val.value)) {''')], "aggregate mode and a user metric that is infinite", "the trace is not valid JSON", INSTR.replace("export DAISY", "export __DAISY_INSTRUMENTATION_MODE=aggregate DAISY"),
{"papi.c": PAPI, "demo.cpp": INSTR_PRE + r'''
int main() { papi(); size_t a = reg("a"); enter(a); work(5, 1); exit_(a); __daisy_instrumentation_metric(a, "x", INFINITY); __daisy_instrumentation_metric(a, "y", NAN); fin(a); }
''', "judge.py": '''import json, sys
def bad(c): raise ValueError(c)
try:
    t = json.load(open(sys.argv[1]), parse_constant=bad)
    assert len(t["traceEvents"]) == 1
except Exception as e:
    print("FAILED", e); sys.exit(1)
'''})
write("R01-loop-info", "R01", [(I, '''            // Print all individual events
            for (size_t event_index = 0; event_index < region.starts.size(); ++event_index) {''', '''            // Print all individual events
            size_t num_events = region.starts.size();
            if (region.event_set == __DAISY_EVENT_SET_NONE) {
                num_events = region.durations.size() > 1024 ? 1024 : num_events;
            }
            for (size_t event_index = 0; event_index < num_events; ++event_index) {''')], "more than 1024 activations of a region without hardware counters", "activations after the 1024th are missing in the trace", INSTR,
{"papi.c": PAPI, "demo.cpp": INSTR_PRE + r'''
int main() { papi(); size_t a = reg("a", 1, __DAISY_EVENT_SET_NONE); for (int i = 0; i < 1500; i++) { enter(a); work(5, 1); exit_(a); } fin(a); }
''', "judge.py": '''import json, sys
n = len(json.load(open(sys.argv[1]))["traceEvents"])
print(n); sys.exit(n != 1500)
'''})
write("R02-wake-reset", "R02", [(I, '''            region.live = 1;
            _PAPI_start(region.papi_eventset);

            return region_id;
        }
        // Check existing region''', '''            region.live = 1;
            if (region.durations.empty()) {
                _PAPI_start(region.papi_eventset);
            }

            return region_id;
        }
        // Check existing region''')], "a region that is finalised, registered again and entered again", "the counters of later registrations stay at zero", INSTR.replace("export DAISY", "export __DAISY_INSTRUMENTATION_EVENTS=E1 DAISY"),
{"papi.c": PAPI, "demo.cpp": INSTR_PRE + r'''
int main() { papi(); for (int i = 0; i < 3; i++) { size_t a = reg("a"); enter(a); work(5, 7 + i); exit_(a); fin(a); } }
''', "judge.py": '''import json, sys
c = [e["args"]["metrics"]["E1"] for e in json.load(open(sys.argv[1]))["traceEvents"]]
print(c); sys.exit(c != [7, 8, 9])
'''})
write("R03-max", "R03", [(I, '''                if (duration_ns < region.runtime_min) region.runtime_min = duration_ns;
                if (duration_ns > region.runtime_max) region.runtime_max = duration_ns;''', '''                if (duration_ns < region.runtime_min) {
                    region.runtime_min = duration_ns;
                } else if (duration_ns > region.runtime_mean) {
                    region.runtime_max = duration_ns;
                }''')], "a duration above the mean but below the maximum so far", "the reported maximum run time shrinks", INSTR.replace("export DAISY", "export __DAISY_INSTRUMENTATION_MODE=aggregate DAISY"),
{"papi.c": PAPI, "demo.cpp": INSTR_PRE + r'''
int main() { papi(); size_t a = reg("a"); for (long d : {10, 90, 20, 60}) { enter(a); work(d, 1); exit_(a); } fin(a); }
''', "judge.py": '''import json, sys
r = json.load(open(sys.argv[1]))["traceEvents"][0]["args"]["metrics"]["runtime"]
print(r); sys.exit(not (r["max"] == 90 and r["min"] == 10 and r["mean"] == 45 and r["count"] == 4))
'''})
write("R04-wake-list", "R04", [(I, '''            this->sleeping_regions_by_name.remove(metadata->region_uuid);
''', '')], "more than ten finalised regions after one of them was registered again", "the counter set of a running region is released", INSTR.replace("export DAISY", "export __DAISY_INSTRUMENTATION_EVENTS=E1 DAISY"),
{"papi.c": PAPI, "demo.cpp": INSTR_PRE + r'''
int main() {
    papi();
    size_t a = reg("a", 1000); fin(a); a = reg("a", 1000);
    for (int i = 0; i < 12; i++) { size_t r = reg("r" + std::to_string(i), i); fin(r); }
    if (running() != 1 || alive() != 11) { printf("FAILED: %d running, %d alive\n", running(), alive()); fflush(stdout); _Exit(1); }
    enter(a); work(3, 9); exit_(a); fin(a);
}
''', "judge.py": '''import json, sys
c = [e["args"]["metrics"]["E1"] for e in json.load(open(sys.argv[1]))["traceEvents"]]
print(c); sys.exit(c != [9])
'''})
write("R05-metric-lock", "R05", [(I, '''        if (region.static_counters_n.find(name) == region.static_counters_n.end()) {
            // Initialize counter''', '''        if (region.static_counters_n.find(name) != region.static_counters_n.end()) {
            // the counter exists: no structural change any more
            mutex.unlock();
            update_metric(region, name, value);
            mutex.lock();
            return;
        } else {
            // Initialize counter'''), (I, '''        // Update static counter
        auto& n = ''', '''    }

    void update_metric(DaisyRegion& region, const char* name, double value) {
        // Update static counter
        auto& n = ''')], "two threads that report the same metric at the same time", "updates of the metric are lost", INSTR.replace("export DAISY", "export __DAISY_INSTRUMENTATION_MODE=aggregate DAISY"),
{"papi.c": PAPI, "demo.cpp": INSTR_PRE + r'''
int main() {
    papi(); size_t a = reg("a");
    std::vector<std::thread> t;
    for (int i = 0; i < 4; i++) t.emplace_back([&] { for (int k = 0; k < 200000; k++) __daisy_instrumentation_increment(a, "x", 3); });
    for (auto& x : t) x.join();
    fin(a);
}
''', "judge.py": '''import json, sys
r = json.load(open(sys.argv[1]))["traceEvents"][0]["args"]["metrics"]["static:::x"]
print(r); sys.exit(not (r["count"] == 800000 and r["mean"] == 3))
'''})
