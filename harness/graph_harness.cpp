// Drives sdfg::graph on enumerated and random graphs and prints one JSON record per graph.
#include <cassert>
#include <memory>
#include <sdfg/graph/graph.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <vector>

using namespace sdfg::graph;
typedef std::vector<std::pair<int, int>> EL;

struct G {
    Graph g;
    std::vector<Vertex> v;
    std::map<Vertex, int> id;
    G(int n, const EL& es) {
        for (int i = 0; i < n; i++) {
            v.push_back(boost::add_vertex(g));
            id[v.back()] = i;
        }
        for (auto& e : es) boost::add_edge(v[e.first], v[e.second], g);
    }
    int ix(Vertex x) const {
        auto it = id.find(x);
        return it == id.end() ? -1 : it->second;
    }
};

static std::string pr(const EL& es) {
    std::string s = "[";
    for (size_t i = 0; i < es.size(); i++)
        s += (i ? ",[" : "[") + std::to_string(es[i].first) + "," + std::to_string(es[i].second) + "]";
    return s + "]";
}
static std::string pr(const std::vector<int>& xs) {
    std::string s = "[";
    for (size_t i = 0; i < xs.size(); i++) s += (i ? "," : "") + std::to_string(xs[i]);
    return s + "]";
}
template<class L, class Gr>
static EL edges_of(const G& g, const L& l, const Gr& gr) {
    EL r;
    for (auto& e : l) r.push_back({g.ix(boost::source(e, gr)), g.ix(boost::target(e, gr))});
    return r;
}

static void emit(const char* mode, int n, const EL& es) {
    G g(n, es);
    std::string o = "{\"n\":" + std::to_string(n) + ",\"e\":" + pr(es);
    std::string m = mode;
    if (m == "dom") {
        o += ",\"idom\":[";
        for (int s = 0; s < n; s++) {
            auto t = dominator_tree(g.g, g.v[s]);
            std::vector<int> r(n, -2);
            for (auto& e : t) {
                int k = g.ix(e.first);
                if (k >= 0) r[k] = e.second == boost::graph_traits<Graph>::null_vertex() ? -1 : g.ix(e.second);
            }
            o += (s ? "," : "") + pr(r);
        }
        o += "]";
    } else if (m == "pdom") {
        bool term = false;
        for (int i = 0; i < n; i++) term |= boost::out_degree(g.v[i], g.g) == 0;
        if (!term) return;
        auto t = post_dominator_tree(g.g);
        std::vector<int> r(n, -2);
        for (auto& e : t) {
            int k = g.ix(e.first);
            if (k >= 0) r[k] = g.ix(e.second);
        }
        o += ",\"pdom\":" + pr(r) + ",\"keys\":" + std::to_string(t.size());
        o += ",\"after_n\":" + std::to_string(boost::num_vertices(g.g));
        EL after;
        auto [eb, ee] = boost::edges(g.g);
        for (auto it = eb; it != ee; ++it)
            after.push_back({g.ix(boost::source(*it, g.g)), g.ix(boost::target(*it, g.g))});
        o += ",\"after_e\":" + pr(after);
    } else if (m == "order") {
        o += std::string(",\"acyclic\":") + (is_acyclic(g.g) ? "true" : "false");
        std::vector<int> r;
        bool ok = true;
        try {
            for (auto& x : topological_sort(g.g)) r.push_back(g.ix(x));
        } catch (...) {
            ok = false;
            r.clear();
        }
        o += std::string(",\"sorted\":") + (ok ? "true" : "false") + ",\"topo\":" + pr(r);
        std::string d, b;
        for (int s = 0; s < n; s++) {
            std::vector<int> q;
            for (auto& x : depth_first_search(g.g, g.v[s])) q.push_back(g.ix(x));
            d += (s ? "," : "") + pr(q);
            auto l = back_edges(g.g, g.v[s]);
            b += (s ? "," : "") + pr(edges_of(g, l, g.g));
        }
        o += ",\"dfs\":[" + d + "],\"back\":[" + b + "]";
    } else if (m == "comp") {
        auto [k, c] = strongly_connected_components(g.g);
        std::vector<int> r(n, -1), w(n, -1);
        for (auto& e : c) r[g.ix(e.first)] = e.second;
        auto [k2, c2] = weakly_connected_components(g.g);
        for (auto& e : c2) w[g.ix(e.first)] = e.second;
        o += ",\"nscc\":" + std::to_string(k) + ",\"scc\":" + pr(r) + ",\"nwcc\":" + std::to_string(k2) +
             ",\"wcc\":" + pr(w);
        auto rg = sdfg::graph::reverse(g.g);
        EL rev;
        auto [eb, ee] = boost::edges(rg);
        for (auto it = eb; it != ee; ++it)
            rev.push_back({g.ix(boost::source(*it, rg)), g.ix(boost::target(*it, rg))});
        auto u = undirected(g.g);
        auto& ug = *std::get<0>(u);
        EL und;
        auto [ub, ue] = boost::edges(ug);
        auto back = [&](Vertex x) {
            auto it = std::get<2>(u).find(x);
            if (it == std::get<2>(u).end()) return -1;
            // forward and reverse mappings must agree
            auto f = std::get<1>(u).find(it->second);
            if (f == std::get<1>(u).end() || f->second != x) return -1;
            return g.ix(it->second);
        };
        for (auto it = ub; it != ue; ++it)
            und.push_back({back(boost::source(*it, ug)), back(boost::target(*it, ug))});
        o += ",\"rev\":" + pr(rev) + ",\"undn\":" + std::to_string(boost::num_vertices(ug)) + ",\"und\":" + pr(und);
    } else if (m == "paths") {
        o += ",\"paths\":[";
        for (int s = 0; s < n; s++) {
            o += s ? ",[" : "[";
            for (int t = 0; t < n; t++) {
                o += t ? ",[" : "[";
                if (s != t) {
                    bool first = true;
                    for (auto& p : all_simple_paths(g.g, g.v[s], g.v[t])) {
                        o += (first ? "" : ",") + pr(edges_of(g, p, g.g));
                        first = false;
                    }
                }
                o += "]";
            }
            o += "]";
        }
        o += "]";
    }
    puts((o + "}").c_str());
}

// usage: graph_harness MODE SEED ALL4(0/1) NRANDOM MAXN
int main(int argc, char** argv) {
    const char* mode = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10);
    int all4 = atoi(argv[3]);
    int nrandom = atoi(argv[4]), maxn = atoi(argv[5]);
    for (int n = 1; n <= 3; n++) {
        std::vector<std::pair<int, int>> slots;
        for (int u = 0; u < n; u++)
            for (int v = 0; v < n; v++) slots.push_back({u, v});
        for (uint32_t m = 0; m < (1u << slots.size()); m++) {
            EL es;
            for (size_t k = 0; k < slots.size(); k++)
                if (m >> k & 1) es.push_back(slots[k]);
            emit(mode, n, es);
        }
    }
    if (all4) {
        EL slots;
        for (int u = 0; u < 4; u++)
            for (int v = 0; v < 4; v++)
                if (u != v) slots.push_back({u, v});
        for (uint32_t m = 0; m < (1u << slots.size()); m++) {
            EL es;
            for (size_t k = 0; k < slots.size(); k++)
                if (m >> k & 1) es.push_back(slots[k]);
            emit(mode, 4, es);
        }
    }
    std::mt19937_64 rng(seed * 7919 + 13);
    for (int c = 0; c < nrandom; c++) {
        int n = 4 + rng() % (maxn - 3);
        EL es;
        int kind = rng() % 4;
        int m = kind == 0 ? n - 1 + rng() % 3 : kind == 1 ? n + rng() % (n + 1) : rng() % (2 * n + 1);
        for (int k = 0; k < m; k++) {
            int u = rng() % n, v = rng() % n;
            if (kind == 2 && u == v) continue;
            if (kind == 3) {  // mostly acyclic with a few cross edges and parallels
                if (u > v && rng() % 5) std::swap(u, v);
                if (u == v) continue;
            }
            es.push_back({u, v});
            if (rng() % 8 == 0) es.push_back({u, v});
        }
        emit(mode, n, es);
    }
    // long chains, ladders, nested loops: structure the small enumeration cannot have
    for (int n = 8; n <= (strcmp(mode, "paths") ? 12 : 8); n += 2) {
        EL chain, loops, ladder;
        for (int i = 0; i + 1 < n; i++) chain.push_back({i, i + 1});
        emit(mode, n, chain);
        loops = chain;
        for (int i = 0; i < n / 2; i++) loops.push_back({n - 1 - i, i});
        emit(mode, n, loops);
        for (int i = 0; i + 2 < n; i++) {
            ladder.push_back({i, i + 1});
            ladder.push_back({i, i + 2});
        }
        emit(mode, n, ladder);
        EL tree;
        for (int i = 1; i < n; i++) tree.push_back({(i - 1) / 2, i});
        emit(mode, n, tree);
        EL both = tree;
        for (int i = 1; i < n; i++) both.push_back({i, (i * 7 + 3) % n});
        emit(mode, n, both);
    }
    return 0;
}
