// Reads JSON lines {"id", "prog" | "doc", "acts":[...]}, builds the program, applies the actions, and prints dumps.
#include "sdfg_lib.h"
#include "sdfg_full.h"
#include <sdfg/deepcopy/structured_sdfg_deep_copy.h>
#include <sdfg/codegen/dispatchers/node_dispatcher_registry.h>
#include <sdfg/passes/dataflow/byte_reference_elimination.h>
#include <sdfg/passes/dataflow/constant_propagation.h>
#include <sdfg/passes/dataflow/dead_data_elimination.h>
#include <sdfg/passes/dataflow/dead_reference_elimination.h>
#include <sdfg/passes/dataflow/memlet_linearization.h>
#include <sdfg/passes/dataflow/reference_propagation.h>
#include <sdfg/passes/dataflow/tasklet_fusion.h>
#include <sdfg/passes/dataflow/tensor_to_pointer_conversion.h>
#include <sdfg/passes/dataflow/trivial_array_elimination.h>
#include <sdfg/passes/dataflow/trivial_reference_conversion.h>
#include <sdfg/passes/debug_info_propagation.h>
#include <sdfg/passes/dot_expansion_pass.h>
#include <sdfg/passes/gemm_expansion_pass.h>
#include <sdfg/passes/memory/allocation_management.h>
#include <sdfg/passes/normalization/normalization.h>
#include <sdfg/passes/normalization/perfect_loop_distribution.h>
#include <sdfg/passes/normalization/stride_minimization.h>
#include <sdfg/passes/offloading/code_motion/block_hoisting.h>
#include <sdfg/passes/offloading/code_motion/block_sorting.h>
#include <sdfg/passes/opt_pipeline.h>
#include <sdfg/passes/pipeline.h>
#include <sdfg/passes/schedules/expansion_pass.h>
#include <sdfg/passes/structured_control_flow/block_fusion.h>
#include <sdfg/passes/structured_control_flow/common_assignment_elimination.h>
#include <sdfg/passes/structured_control_flow/condition_elimination.h>
#include <sdfg/passes/structured_control_flow/dead_cfg_elimination.h>
#include <sdfg/passes/structured_control_flow/for2map.h>
#include <sdfg/passes/structured_control_flow/loop_normalization.h>
#include <sdfg/passes/structured_control_flow/pointer_evolution.h>
#include <sdfg/passes/structured_control_flow/sequence_fusion.h>
#include <sdfg/passes/structured_control_flow/unify_loop_exits.h>
#include <sdfg/passes/structured_control_flow/while_to_for_conversion.h>
#include <sdfg/passes/symbolic/symbol_evolution.h>
#include <sdfg/passes/symbolic/symbol_promotion.h>
#include <sdfg/passes/symbolic/symbol_propagation.h>
#include <sdfg/passes/symbolic/type_minimization.h>
#include <sdfg/passes/transformations/map_fusion_pass.h>
#include <sdfg/serializer/json_serializer.h>
#include <sdfg/transformations/loop_distribute.h>
#include <sdfg/transformations/loop_interchange.h>
#include <sdfg/transformations/loop_skewing.h>
#include <sdfg/transformations/loop_tiling.h>
#include <sdfg/transformations/map_fusion.h>
#include <sdfg/transformations/out_local_storage.h>
#include <sdfg/transformations/replayer.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>

namespace ps = sdfg::passes;
using Runner = std::function<bool(builder::StructuredSDFGBuilder&, analysis::AnalysisManager&)>;

template<class P, class... A>
Runner pass(A... a) {
    return [=](auto& b, auto& am) {
        P p(a...);
        return p.run(b, am);
    };
}
template<class P>
bool run1(builder::StructuredSDFGBuilder& b, analysis::AnalysisManager& am) {
    P p;
    return p.run(b, am);
}
template<class P>
bool fix(builder::StructuredSDFGBuilder& b, analysis::AnalysisManager& am) {
    bool any = false;
    for (int i = 0; i < 50; i++) {
        P p;
        if (!p.run(b, am)) return any;
        any = true;
    }
    throw std::runtime_error("pass does not reach a fixed point");
}
#define PASSES(X) X(BlockFusionPass) X(TaskletFusionPass) X(SequenceFusion) X(SymbolPropagation) X(SymbolPromotion) X(SymbolEvolution) \
    X(ConstantPropagation) X(DeadDataElimination) X(DeadCFGElimination) X(DeadReferenceElimination) X(ReferencePropagation) \
    X(ByteReferenceElimination) X(TrivialReferenceConversionPass) X(TrivialArrayElimination) X(MemletLinearizationPass) \
    X(TensorToPointerConversionPass) X(CommonAssignmentElimination) X(UnifyLoopExits) X(WhileToForConversion) X(PointerEvolution) \
    X(ConditionEliminationPass) X(LoopNormalizationPass) X(For2MapPass) X(TypeMinimizationPass) X(AllocationManagementPass) \
    X(ExpansionPass) X(MapFusionPass) X(DebugInfoPropagation) X(BlockHoistingPass) X(BlockSortingPass) X(DotExpansionPass) \
    X(GemmExpansionPass)

// The order of the passes in python/bindings/py_structured_sdfg.cpp, which is what users run.
bool simplify(builder::StructuredSDFGBuilder& b, analysis::AnalysisManager& am) {
    using namespace ps;
    bool r = run1<DotExpansionPass>(b, am);
    auto dataflow = Pipeline::dataflow_simplification();
    auto symb = Pipeline::symbolic_simplification();
    auto dce = Pipeline::dead_code_elimination();
    auto memlet = Pipeline::memlet_combine();
    auto cm = code_motion();
    auto dde = [&] { run1<DeadDataElimination>(b, am); };
    r |= run1<SymbolPromotion>(b, am);
    r |= dataflow.run(b, am); dde(); dce.run(b, am);
    symb.run(b, am); dde(); dce.run(b, am);
    fix<CommonAssignmentElimination>(b, am); dde(); dce.run(b, am); symb.run(b, am);
    fix<ConstantPropagation>(b, am);
    run1<WhileToForConversion>(b, am);
    run1<SymbolPropagation>(b, am);
    fix<ConditionEliminationPass>(b, am);
    run1<LoopNormalizationPass>(b, am); run1<LoopNormalizationPass>(b, am);
    run1<SymbolPropagation>(b, am); dde(); dce.run(b, am);
    memlet.run(b, am);
    cm.run(b, am);
    run1<PointerEvolution>(b, am); run1<LoopNormalizationPass>(b, am);
    run1<TypeMinimizationPass>(b, am); run1<TypeMinimizationPass>(b, am);
    run1<SymbolPropagation>(b, am); dce.run(b, am); dde();
    run1<For2MapPass>(b, am);
    cm.run(b, am);
    dde(); dce.run(b, am); dataflow.run(b, am);
    Pipeline::map_fusion().run(b, am);
    return true;
}
std::map<std::string, Runner>& runners() {
    static std::map<std::string, Runner> m;
    if (!m.empty()) return m;
#define X(N) m[#N] = run1<ps::N>; m["fix:" #N] = fix<ps::N>;
    PASSES(X)
#undef X
    m["DeadDataEliminationP"] = pass<ps::DeadDataElimination>(true);
    m["DeadCFGEliminationP"] = pass<ps::DeadCFGElimination>(true);
    m["StrideMinimization"] = run1<ps::normalization::StrideMinimization>;
    m["PerfectLoopDistribution"] = run1<ps::normalization::PerfectLoopDistributionPass>;
    m["LoopNormalization"] = [](auto& b, auto& am) { auto p = ps::normalization::loop_normalization(); return p.run(b, am); };
    m["simplify"] = simplify;
    m["expand"] = [](auto& b, auto& am) {
        bool r = ps::Pipeline::expansion().run(b, am);
        r |= run1<ps::TensorToPointerConversionPass>(b, am);
        return r;
    };
    m["map_fusion"] = [](auto& b, auto& am) { return ps::Pipeline::map_fusion().run(b, am); };
    m["memlet_combine"] = [](auto& b, auto& am) { return ps::Pipeline::memlet_combine().run(b, am); };
    m["dataflow"] = [](auto& b, auto& am) { return ps::Pipeline::dataflow_simplification().run(b, am); };
    m["dce"] = [](auto& b, auto& am) { return ps::Pipeline::dead_code_elimination().run(b, am); };
    m["controlflow"] = [](auto& b, auto& am) { return ps::Pipeline::controlflow_simplification().run(b, am); };
    m["expression_combine"] = [](auto& b, auto& am) { return ps::Pipeline::expression_combine().run(b, am); };
    m["code_motion"] = [](auto& b, auto& am) { auto p = ps::code_motion(); return p.run(b, am); };
    return m;
}

json generate(builder::StructuredSDFGBuilder& b, const std::string& lang) {
    analysis::AnalysisManager am(b.subject());
    auto ip = codegen::InstrumentationPlan::none(b.subject());
    auto cp = codegen::ArgCapturePlan::none(b.subject());
    auto sn = std::make_shared<codegen::CodeSnippetFactory>();
    std::unique_ptr<codegen::CodeGenerator> g;
    if (lang == "c")
        g = std::make_unique<codegen::CCodeGenerator>(b.subject(), am, *ip, *cp, sn);
    else
        g = std::make_unique<codegen::CPPCodeGenerator>(b.subject(), am, *ip, *cp, sn);
    if (!g->generate()) throw std::runtime_error("generate() returned false");
    std::string t = "/tmp/vrf-gen-" + std::to_string(getpid());
    {
        std::ofstream f(t);
        g->append_function_source(f);
    }
    std::ifstream f(t);
    std::string body((std::istreambuf_iterator<char>(f)), {});
    unlink(t.c_str());
    return json{{"inc", g->includes().str()}, {"cls", g->classes().str()}, {"glob", g->globals().str()}, {"body", body}};
}

// loops of the current program in pre-order
struct Loops {
    std::vector<scf::StructuredLoop*> all;
    std::map<scf::StructuredLoop*, scf::StructuredLoop*> inner, next;
    void seq(scf::Sequence& s) {
        scf::StructuredLoop* last = nullptr;
        for (size_t i = 0; i < s.size(); i++) {
            auto* n = &s.at(i).first;
            auto* l = dynamic_cast<scf::StructuredLoop*>(n);
            if (l) {
                if (last) next[last] = l;
                last = l;
                all.push_back(l);
                seq(l->root());
                for (size_t k = 0; k < l->root().size(); k++)
                    if (auto* c = dynamic_cast<scf::StructuredLoop*>(&l->root().at(k).first)) {
                        inner.emplace(l, c);
                        break;
                    }
            }
            if (auto* q = dynamic_cast<scf::Sequence*>(n)) seq(*q);
            if (auto* w = dynamic_cast<scf::While*>(n)) seq(w->root());
            if (auto* f = dynamic_cast<scf::IfElse*>(n))
                for (size_t k = 0; k < f->size(); k++) seq(f->at(k).first);
        }
    }
};

std::unique_ptr<transformations::Transformation> make_xf(const std::string& n, const json& a, builder::StructuredSDFGBuilder& b, Built& bt) {
    Loops ls;
    ls.seq(b.subject().root());
    scf::StructuredLoop* first = nullptr;
    auto loop = [&](const char* f) -> scf::StructuredLoop* {
        if (!a.contains(f)) return nullptr;
        if (a[f].is_number()) return ls.all.empty() ? nullptr : ls.all[a[f].get<size_t>() % ls.all.size()];
        std::string v = a[f];
        if (v == "inner") return ls.inner.count(first) ? ls.inner[first] : nullptr;
        if (v == "next") return ls.next.count(first) ? ls.next[first] : nullptr;
        return dynamic_cast<scf::StructuredLoop*>(bt.named.at(v));
    };
    auto* l = first = loop("l");
    auto* m = loop("m");
    if (!l || (a.contains("m") && !m)) return nullptr;
    if (n == "LoopTiling") return std::make_unique<transformations::LoopTiling>(*l, a["size"].get<size_t>());
    if (n == "LoopInterchange") return std::make_unique<transformations::LoopInterchange>(*l, *m);
    if (n == "LoopSkewing") return std::make_unique<transformations::LoopSkewing>(*l, *m, a["factor"].get<int>());
    if (n == "LoopDistribute") return std::make_unique<transformations::LoopDistribute>(*l);
    if (n == "MapFusion") {
        auto* p = dynamic_cast<scf::Map*>(l);
        if (!p) return nullptr;
        return std::make_unique<transformations::MapFusion>(*p, *m);
    }
    if (n == "OutLocalStorage") return std::make_unique<transformations::OutLocalStorage>(*l, a["c"].get<std::string>());
    throw std::runtime_error("transformation " + n);
}

std::unique_ptr<transformations::Transformation> from_json(const std::string& n, builder::StructuredSDFGBuilder& b, const json& d) {
    if (n == "LoopTiling") return std::make_unique<transformations::LoopTiling>(transformations::LoopTiling::from_json(b, d));
    if (n == "LoopInterchange") return std::make_unique<transformations::LoopInterchange>(transformations::LoopInterchange::from_json(b, d));
    if (n == "LoopSkewing") return std::make_unique<transformations::LoopSkewing>(transformations::LoopSkewing::from_json(b, d));
    if (n == "LoopDistribute") return std::make_unique<transformations::LoopDistribute>(transformations::LoopDistribute::from_json(b, d));
    if (n == "MapFusion") return std::make_unique<transformations::MapFusion>(transformations::MapFusion::from_json(b, d));
    if (n == "OutLocalStorage") return std::make_unique<transformations::OutLocalStorage>(transformations::OutLocalStorage::from_json(b, d));
    throw std::runtime_error("transformation " + n);
}

json full_dump(const StructuredSDFG& f) {
    exact_numbers() = true;
    FullDump d{f};
    auto j = d.dump();
    exact_numbers() = false;
    return j;
}

static bool built = false;

// a state machine, and what structuring makes of it
json run_machine(const json& c) {
    json out{{"id", c["id"]}};
    const json& p = c["machine"];
    builder::SDFGBuilder b("f", FunctionType_CPU, *T(p.value("ret", json("void"))));
    for (auto& x : p["containers"]) b.add_container(x["name"], *T(x["t"]), x.value("arg", false), x.value("ext", false));
    std::vector<control_flow::State*> st;
    for (auto& s : p["states"]) {
        if (s.contains("const")) {
            st.push_back(&b.add_constant_return_state(s["const"].get<std::string>(), *T(s["t"]), DBG(s)));
            continue;
        }
        if (s.contains("data")) {
            st.push_back(&b.add_return_state(s["data"].get<std::string>(), DBG(s)));
            continue;
        }
        auto& q = b.add_state(st.empty(), DBG(s));
        st.push_back(&q);
        std::map<int, data_flow::DataFlowNode*> ids;
        for (auto& n : s.value("nodes", json::array())) {
            if (n.contains("acc")) ids[n["id"]] = &b.add_access(q, n["acc"].get<std::string>(), DBG(n));
            else if (n.contains("const")) ids[n["id"]] = &b.add_constant(q, n["const"].get<std::string>(), *T(n["t"]), DBG(n));
            else ids[n["id"]] = &b.add_tasklet(q, tcode(n["tl"]), "_out", n["ins"].get<std::vector<std::string>>(), DBG(n));
        }
        for (auto& e : s.value("edges", json::array()))
            b.add_memlet(q, *ids.at(e["s"]), e.value("sc", "void"), *ids.at(e["d"]), e.value("dc", "void"), subset(e), *T(e["t"]), DBG(e));
    }
    for (auto& e : p["out"])
        b.add_edge(*st.at(e["s"].get<int>() - 1), *st.at(e["d"].get<int>() - 1), assigns(e), e.contains("c") ? BC(e["c"]) : sym::__true__(), DBG(e));
    b.subject().validate();
    auto g = b.move();
    built = true;
    out["before"] = Dumper(*g).dump();
    try {
        builder::StructuredSDFGBuilder s(*g);
        s.subject().validate();
        out["after"] = Dumper(s.subject()).dump();
    } catch (UnstructuredControlFlowException& e) {
        out["refused"] = true;
    }
    return out;
}
json run_case(const json& c) {
    json descs = json::array();
    json out{{"id", c["id"]}};
    std::unique_ptr<builder::StructuredSDFGBuilder> b;
    Built bt;
    if (c.contains("doc")) {
        serializer::JSONSerializer s;
        json d = c["doc"];
        auto f = s.deserialize(d);
        b = std::make_unique<builder::StructuredSDFGBuilder>(f);
    } else
        b = build(c["prog"], bt);
    b->subject().validate();
    built = true;
    try {
        Dumper d(b->subject());
        out["before"] = d.dump();
    } catch (Unsupported& e) {
        out["unsupported"] = e.what();
        if (!c.value("opaque", false)) return out;
    }
    if (c.value("full", false)) out["full"] = full_dump(b->subject());
    json named = json::object();
    for (auto& n : bt.named) named[n.first] = n.second->element_id();
    out["named"] = named;
    json steps = json::array();
    auto am = std::make_unique<analysis::AnalysisManager>(b->subject());
    for (auto& a : c.value("acts", json::array())) {
        json st{{"act", a}};
        std::string k = a["a"];
        if (k == "pass") {
            st["applied"] = runners().at(a["name"])(*b, *am);
        } else if (k == "xf") {
            std::string n = a["name"];
            auto x = make_xf(n, a, *b, bt);
            if (!x) {
                st["applied"] = false;
            } else {
                json desc;
                if (n != "MapFusion" || a.value("json", false)) x->to_json(desc);
                if (a.value("json", false)) x = from_json(n, *b, desc);
                bool ok = x->can_be_applied(*b, *am);
                st["applied"] = ok;
                if (ok) {
                    x->apply(*b, *am);
                    am->invalidate_all();
                    descs.push_back(desc);
                }
            }
        } else if (k == "rt") {
            serializer::JSONSerializer s;
            st["full1"] = full_dump(b->subject());
            if (a.value("clone", false)) st["full3"] = full_dump(*b->subject().clone());
            auto d1 = s.serialize(b->subject());
            // the document is text: through a string and back
            json copy = json::parse(d1.dump());
            auto f = s.deserialize(copy);
            auto d2 = s.serialize(*f);
            st["doc1"] = *&d1;
            st["doc2"] = *&d2;
            st["full2"] = full_dump(*f);
            b = std::make_unique<builder::StructuredSDFGBuilder>(f);
            am = std::make_unique<analysis::AnalysisManager>(b->subject());
            bt.named.clear();
            st["applied"] = true;
        } else if (k == "add") {
            build_seq(*b, b->subject().root(), a["body"], bt);
            st["full"] = full_dump(b->subject());
            st["applied"] = true;
        } else if (k == "del") {
            auto& r = b->subject().root();
            if (r.size() > 1) b->remove_child(r, a["i"].get<size_t>() % r.size());
            st["full"] = full_dump(b->subject());
            st["applied"] = true;
        } else if (k == "copy") {
            // a copy of a statement, wherever it is, at the end of the program
            std::vector<scf::ControlFlowNode*> all;
            std::vector<scf::ControlFlowNode*> todo{&b->subject().root()};
            while (!todo.empty()) {
                auto* n = todo.back();
                todo.pop_back();
                if (n != &b->subject().root()) all.push_back(n);
                if (auto* q = dynamic_cast<scf::Sequence*>(n))
                    for (size_t i = 0; i < q->size(); i++) todo.push_back(&q->at(i).first);
                else if (auto* l = dynamic_cast<scf::StructuredLoop*>(n)) todo.push_back(&l->root());
                else if (auto* w = dynamic_cast<scf::While*>(n)) todo.push_back(&w->root());
                else if (auto* e = dynamic_cast<scf::IfElse*>(n))
                    for (size_t i = 0; i < e->size(); i++) todo.push_back(&e->at(i).first);
            }
            st["applied"] = false;
            if (!all.empty()) {
                auto* n = all[a["i"].get<size_t>() % all.size()];
                deepcopy::StructuredSDFGDeepCopy c(*b, b->subject().root(), *n);
                auto m = c.copy();
                st["applied"] = true;
                st["src"] = n->element_id();
                st["map"] = json::array();
                for (auto& p : m) st["map"].push_back({p.first->element_id(), p.second->element_id()});
            }
            st["full"] = full_dump(b->subject());
        } else if (k == "gen") {
            st["src"] = generate(*b, a["lang"]);
        } else
            throw std::runtime_error("action " + k);
        if (k != "gen") b->subject().validate();
        steps.push_back(st);
    }
    out["steps"] = steps;
    try {
        Dumper d(b->subject());
        out["after"] = d.dump();
    } catch (Unsupported& e) {
        out["unsupported"] = e.what();
    }
    if (c.value("replay", false)) {
        Built bt2;
        auto b2 = build(c["prog"], bt2);
        auto am2 = std::make_unique<analysis::AnalysisManager>(b2->subject());
        transformations::Replayer r;
        r.replay(*b2, *am2, json::parse(descs.dump()));
        try {
            Dumper d(b2->subject());
            out["replayed"] = d.dump();
        } catch (Unsupported& e) {
        }
    }
    return out;
}

int main() {
    codegen::register_default_dispatchers();
    serializer::register_default_serializers();
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        json c = json::parse(line);
        std::cout.flush();
        int p[2];
        if (pipe(p)) return 3;
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            alarm(60);
            int dn = open("/dev/null", 1);
            if (!getenv("SDFG_DEBUG")) dup2(dn, 2);
            dup2(dn, 1);
            json o;
            try {
                o = c.contains("machine") ? run_machine(c) : run_case(c);
            } catch (Unsupported& e) {
                o = {{"id", c["id"]}, {"unsupported", e.what()}};
            } catch (std::exception& e) {
                o = {{"id", c["id"]}, {"error", e.what()}, {"built", built}};
            }
            std::string s = o.dump() + "\n";
            size_t k = 0;
            while (k < s.size()) {
                ssize_t w = write(p[1], s.data() + k, s.size() - k);
                if (w <= 0) _exit(9);
                k += w;
            }
            _exit(0);
        }
        close(p[1]);
        std::string s;
        char buf[65536];
        ssize_t r;
        while ((r = read(p[0], buf, sizeof buf)) > 0) s.append(buf, r);
        close(p[0]);
        int st;
        waitpid(pid, &st, 0);
        if (st != 0) s = json{{"id", c["id"]}, {"crash", WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))}}.dump() + "\n";
        std::cout << s;
    }
    std::cout.flush();
}
