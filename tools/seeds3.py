"""Planted bugs in the program representation and its passes (S)."""
import io, os, sys, tarfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
from seedlib import write, sh, W, SEED, ROOT
BASEDIRS = "builder control_flow data_flow deepcopy serializer structured_control_flow symbolic types graph visitor analysis"
KIT = r'''tar xzf "$here/shim.tgz" -C "$tmp" || exit 9
R=$PWD; mkdir -p "$tmp/u"
F=$(for d in %s; do find sdfg/src/$d -name '*.cpp' | sort; done; ls sdfg/src/*.cpp; %s)
i=0; for f in $F; do echo "#include \"$R/$f\"" >> "$tmp/u/u$((i%%12)).cpp"; i=$((i+1)); done
cp "$here/demo.cpp" "$tmp/u/demo.cpp"; cp "$here/h.h" "$tmp/u/h.h"; cp "$tmp/shim/symengine/shim.cpp" "$tmp/u/shim.cpp"
ls "$tmp/u" | grep cpp | sed 's/.cpp$//' | xargs -P8 -I{} $CXX -std=c++20 -O0 -w -I"$R/sdfg/include" -I"$R/opt/include" -I"$R/rtl/include" -I"$R/arg-capture-io/include" -I"$tmp/shim/symengine" -I"$tmp/shim/isl" -c "$tmp/u/{}.cpp" -o "$tmp/u/{}.o" || exit 9
$CXX -no-pie "$tmp"/u/*.o -o "$tmp/demo" -Wl,--unresolved-symbols=ignore-all -lgmpxx -lgmp /usr/lib/x86_64-linux-gnu/libisl.so.23 || exit 9
cd "$tmp" && timeout 60 ./demo'''
H = r'''
#include <sdfg/builder/structured_sdfg_builder.h>
#include <sdfg/builder/sdfg_builder.h>
#include <sdfg/serializer/json_serializer.h>
#include <sdfg/analysis/analysis.h>
#include <iostream>
using namespace sdfg;
using B = builder::StructuredSDFGBuilder;
static types::Scalar I64(types::PrimitiveType::Int64), F64(types::PrimitiveType::Double);
static types::Pointer PI(I64);
static symbolic::Symbol S(const char* n) { return symbolic::symbol(n); }
static symbolic::Expression Z(long n) { return symbolic::integer(n); }
static symbolic::Expression plus(symbolic::Expression a, symbolic::Expression b) { return symbolic::add(a, b); }
using Seq = structured_control_flow::Sequence;
// out[osub] = in[isub]
static structured_control_flow::Block& copy(B& b, Seq& s, const char* in, std::vector<symbolic::Expression> is, const types::IType& it,
    const char* out, std::vector<symbolic::Expression> os, const types::IType& ot, const control_flow::Assignments& a = {}) {
    auto& k = b.add_block(s, a);
    auto& x = b.add_access(k, in); auto& y = b.add_access(k, out);
    auto& t = b.add_tasklet(k, data_flow::TaskletCode::assign, "_out", {"_in"});
    b.add_computational_memlet(k, x, t, "_in", is, it);
    b.add_computational_memlet(k, t, "_out", y, os, ot);
    return k;
}
static structured_control_flow::For& up(B& b, Seq& s, const char* i, symbolic::Expression lo, symbolic::Expression hi) {
    return b.add_for(s, S(i), symbolic::Lt(S(i), hi), lo, plus(S(i), Z(1)));
}
static int bad(const char* what) { std::cout << "BROKEN: " << what << "\n"; return 1; }
'''


def shim(d):
    with tarfile.open(os.path.join(d, "shim.tgz"), "w:gz") as t:
        for n in ("symengine", "isl"):
            t.add(os.path.join(ROOT, "shim", n), "shim/" + n)


def S(sid, prop, edits, needs, breaks, demo, dirs="", files=""):
    kind = KIT % (BASEDIRS + " " + dirs, "ls " + files if files else "true")
    write(sid, prop, edits, needs, breaks, kind, {"demo.cpp": '#include "h.h"\n' + demo, "h.h": H})
    shim(os.path.join(SEED, sid))


def all():
    S("S01-dealloc", "S01",
      [("sdfg/src/serializer/json_serializer.cpp", '= j["deallocation"];', '= j["allocation"];')],
      "a container whose storage is allocated and deallocated by different parties", "a loaded program frees what it does not own, or leaks",
      r'''
int main() {
    B b("f", FunctionType_CPU);
    types::Pointer p(types::StorageType("CPU_Heap", symbolic::integer(64), types::StorageType::AllocationType::Managed, types::StorageType::AllocationType::Unmanaged), 0, "", I64);
    b.add_container("P", p);
    serializer::JSONSerializer s;
    auto d = s.serialize(b.subject()); auto f = s.deserialize(d);
    auto st = f->type("P").storage_type();
    if (st.allocation() != types::StorageType::AllocationType::Managed || st.deallocation() != types::StorageType::AllocationType::Unmanaged) return bad("storage");
    return 0;
}''')
    S("S06-while-assign", "S06",
      [("sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp", "add_while(root, trans.assignments(), loop_stmt->debug_info())", "add_while(root, {}, loop_stmt->debug_info())")],
      "a while loop followed by assignments inside a copied sequence", "the copy forgets the assignments after its while loops",
      r'''
#include <sdfg/deepcopy/structured_sdfg_deep_copy.h>
int main() {
    B b("f", FunctionType_CPU);
    b.add_container("i", I64); b.add_container("j", I64);
    auto& seq = b.add_sequence(b.subject().root());
    auto& w = b.add_while(seq, {{S("i"), Z(3)}});
    b.add_block(w.root(), {{S("j"), Z(4)}});
    b.add_break(w.root());
    auto& target = b.add_sequence(b.subject().root());
    deepcopy::StructuredSDFGDeepCopy dc(b, target, seq);
    dc.copy();
    std::list<structured_control_flow::ControlFlowNode*> q = {&target};
    bool found = false;
    while (!q.empty()) {
        auto n = q.front(); q.pop_front();
        if (auto s = dynamic_cast<Seq*>(n)) for (size_t k = 0; k < s->size(); k++) {
            auto e = s->at(k);
            if (dynamic_cast<structured_control_flow::While*>(&e.first)) found = e.second.assignments().size() == 1;
            q.push_back(&e.first);
        }
    }
    return found ? 0 : bad("assignments after the loop");
}''')
    S("S04-interchange-update", "S04",
      [("sdfg/src/transformations/loop_interchange.cpp", "symbolic::uses(inner_loop_condition, outer_indvar->get_name()) ||\n        symbolic::uses(inner_loop_update, outer_indvar->get_name())) {", "symbolic::uses(inner_loop_condition, outer_indvar->get_name())) {")],
      "an inner map whose step depends on the outer loop's iteration", "interchanging visits other iterations",
      r'''
#include <sdfg/transformations/loop_interchange.h>
int main() {
    B b("f", FunctionType_CPU);
    b.add_container("i", I64); b.add_container("j", I64); b.add_container("n", I64, true); b.add_container("A", PI, true); b.add_container("C", PI, true);
    auto& o = b.add_map(b.subject().root(), S("i"), symbolic::Lt(S("i"), S("n")), Z(1), plus(S("i"), Z(1)), structured_control_flow::ScheduleType_Sequential::create());
    auto& in = b.add_map(o.root(), S("j"), symbolic::Lt(S("j"), S("n")), Z(0), plus(S("j"), S("i")), structured_control_flow::ScheduleType_Sequential::create());
    copy(b, in.root(), "A", {S("j")}, PI, "C", {plus(symbolic::mul(S("i"), S("n")), S("j"))}, PI);
    analysis::AnalysisManager am(b.subject());
    transformations::LoopInterchange t(o, in);
    return t.can_be_applied(b, am) ? bad("interchange accepted") : 0;
}''', files="sdfg/src/transformations/loop_interchange.cpp")
    S("S04-distribute-locals", "S04",
      [("sdfg/src/transformations/loop_distribute.cpp", "auto child_locals = users.locals(child);", "auto child_locals = users.locals(body);")],
      "a value computed by the first statement of the body and used by a later one", "all iterations see the value of the last iteration",
      r'''
#include <sdfg/transformations/loop_distribute.h>
int main() {
    B b("f", FunctionType_CPU);
    b.add_container("i", I64); b.add_container("n", I64, true); b.add_container("A", PI, true); b.add_container("C", PI, true); b.add_container("t", I64);
    auto& m = b.add_map(b.subject().root(), S("i"), symbolic::Lt(S("i"), S("n")), Z(0), plus(S("i"), Z(1)), structured_control_flow::ScheduleType_Sequential::create());
    copy(b, m.root(), "A", {S("i")}, PI, "t", {}, I64);
    copy(b, m.root(), "t", {}, I64, "C", {S("i")}, PI);
    analysis::AnalysisManager am(b.subject());
    transformations::LoopDistribute t(m);
    return t.can_be_applied(b, am) ? bad("distribution accepted") : 0;
}''', files="sdfg/src/transformations/loop_distribute.cpp")
    S("S02-fusion-passed-on", "S02",
      [("sdfg/src/passes/structured_control_flow/block_fusion.cpp", '''            if (first_graph.in_degree(*access_node) > 0) {
                auto& type''', '''            if (first_graph.in_degree(*access_node) > 0 && first_graph.out_degree(*access_node) == 0) {
                auto& type''')],
      "a block that writes an integer and uses it again, followed by a block with that integer as an index", "fused blocks read the element selected by the old value",
      r'''
#include <sdfg/passes/structured_control_flow/block_fusion.h>
int main() {
    B b("f", FunctionType_CPU);
    b.add_container("x", I64); b.add_container("y", I64, true); b.add_container("A", PI, true); b.add_container("C", PI, true); b.add_container("D", PI, true);
    auto& k = b.add_block(b.subject().root());
    auto& a = b.add_access(k, "A"); auto& x = b.add_access(k, "x"); auto& c = b.add_access(k, "C");
    auto& t1 = b.add_tasklet(k, data_flow::TaskletCode::assign, "_out", {"_in"});
    auto& t2 = b.add_tasklet(k, data_flow::TaskletCode::assign, "_out", {"_in"});
    b.add_computational_memlet(k, a, t1, "_in", {Z(0)}, PI);
    b.add_computational_memlet(k, t1, "_out", x, {}, I64);
    b.add_computational_memlet(k, x, t2, "_in", {}, I64);
    b.add_computational_memlet(k, t2, "_out", c, {Z(0)}, PI);
    copy(b, b.subject().root(), "y", {}, I64, "D", {S("x")}, PI);
    analysis::AnalysisManager am(b.subject());
    passes::BlockFusion v(b, am);
    v.visit();
    return b.subject().root().size() == 2 ? 0 : bad("fused");
}''', files="sdfg/src/passes/structured_control_flow/block_fusion.cpp")
    S("S02-array-depth", "S02",
      [("sdfg/src/passes/dataflow/trivial_array_elimination.cpp", '''            for (auto& oedge : graph.out_edges(*access_node)) {
                auto subset = oedge.subset();
                subset.erase(subset.begin() + depth);''', '''            for (auto& oedge : graph.out_edges(*access_node)) {
                auto subset = oedge.subset();
                subset.erase(subset.begin());''')],
      "an array with a trivial inner dimension", "all reads read the first element",
      r'''
#include <sdfg/passes/dataflow/trivial_array_elimination.h>
int main() {
    B b("f", FunctionType_CPU);
    types::Array in(I64, Z(1)), t(in, Z(4));
    b.add_container("T", t); b.add_container("A", PI, true);
    copy(b, b.subject().root(), "A", {Z(0)}, PI, "T", {Z(2), Z(0)}, t);
    auto& k = copy(b, b.subject().root(), "T", {Z(2), Z(0)}, t, "A", {Z(1)}, PI);
    analysis::AnalysisManager am(b.subject());
    passes::TrivialArrayElimination p; p.run(b, am);
    for (auto& e : k.dataflow().edges()) if (auto* a = dynamic_cast<data_flow::AccessNode*>(&e.src()))
        if (a->data() == "T" && !(e.subset().size() == 1 && symbolic::eq(e.subset().at(0), Z(2)))) if (!(e.subset().size() == 2)) return bad("subset");
    return 0;
}''', files="sdfg/src/passes/dataflow/trivial_array_elimination.cpp sdfg/src/passes/pass.cpp")
    S("S02-propagation-maybe", "S02",
      [("sdfg/src/passes/symbolic/symbol_propagation.cpp", '''                        if (!dominance_analysis.dominates(*user, *read)) {
                            success = false;
                            break;
                        }

''', "")],
      "an increment that is executed only in one branch between a definition and its use", "the use computes with the increment undone although it did not happen",
      r'''
#include <sdfg/passes/symbolic/symbol_propagation.h>
int main() {
    B b("f", FunctionType_CPU);
    b.add_container("a", I64, true); b.add_container("x", I64); b.add_container("c", I64, true); b.add_container("r", I64, true);
    auto& root = b.subject().root();
    b.add_block(root, {{S("x"), symbolic::mul(Z(2), S("a"))}});
    auto& ie = b.add_if_else(root);
    auto& yes = b.add_case(ie, symbolic::Gt(S("c"), Z(0)));
    b.add_block(yes, {{S("a"), plus(S("a"), Z(1))}});
    auto& no = b.add_case(ie, symbolic::Le(S("c"), Z(0)));
    b.add_block(root, {{S("r"), S("x")}});
    analysis::AnalysisManager am(b.subject());
    passes::SymbolPropagation p; p.run(b, am);
    return symbolic::eq(root.at(2).second.assignments().at(S("r")), S("x")) ? 0 : bad("propagated");
}''', files="sdfg/src/passes/symbolic/symbol_propagation.cpp sdfg/src/passes/pass.cpp")
    S("S03-last-value", "S03",
      [("sdfg/src/passes/structured_control_flow/for2map.cpp", "if (SymEngine::is_a<SymEngine::Integer>(*rhs)) {", "if (symbolic::atoms(rhs).size() <= 1) {")],
      "a scalar that is assigned the loop index and used after the loop", "any iteration may be the last one",
      r'''
#include <sdfg/passes/structured_control_flow/for2map.h>
int main() {
    B b("f", FunctionType_CPU);
    b.add_container("i", I64); b.add_container("n", I64, true); b.add_container("x", I64, true);
    auto& f = up(b, b.subject().root(), "i", Z(0), S("n"));
    b.add_block(f.root(), {{S("x"), S("i")}});
    analysis::AnalysisManager am(b.subject());
    passes::For2MapPass p; p.run(b, am);
    return dynamic_cast<structured_control_flow::Map*>(&b.subject().root().at(0).first) ? bad("parallel") : 0;
}''', files="sdfg/src/passes/structured_control_flow/for2map.cpp sdfg/src/passes/pass.cpp")
    S("S03-self-overwrite", "S03",
      [("sdfg/src/analysis/data_dependency_analysis.cpp", '''            for (auto& write_2 : open_definitions_for) {
                if (loop''', '''            for (auto& write_2 : open_definitions_for) {
                if (write.first == write_2.first && open_definitions_for.size() > 1) {
                    continue;
                }
                if (loop''')],
      "two statements in the loop, one of which writes the same element in every iteration", "which iteration's value remains depends on the order",
      r'''
#include <sdfg/passes/structured_control_flow/for2map.h>
int main() {
    B b("f", FunctionType_CPU);
    b.add_container("i", I64); b.add_container("n", I64, true); b.add_container("A", PI, true); b.add_container("C", PI, true); b.add_container("D", PI, true);
    auto& f = up(b, b.subject().root(), "i", Z(0), S("n"));
    copy(b, f.root(), "A", {S("i")}, PI, "C", {Z(0)}, PI);
    copy(b, f.root(), "A", {S("i")}, PI, "D", {S("i")}, PI);
    analysis::AnalysisManager am(b.subject());
    passes::For2MapPass p; p.run(b, am);
    return dynamic_cast<structured_control_flow::Map*>(&b.subject().root().at(0).first) ? bad("parallel") : 0;
}''', files="sdfg/src/passes/structured_control_flow/for2map.cpp sdfg/src/passes/pass.cpp")
    S("S07-continue-assign", "S07",
      [("sdfg/src/builder/structured_sdfg_builder.cpp", "if (!out_edge.assignments().empty()) {", "if (!out_edge.assignments().empty() && continues.find(&out_edge) == continues.end()) {")],
      "a loop that goes back to its header from a branch with assignments on the edge", "the assignments are lost",
      r'''
int main() {
    builder::SDFGBuilder b("f", FunctionType_CPU);
    b.add_container("i", I64); b.add_container("n", I64, true); b.add_container("x", I64, true);
    auto& s0 = b.add_state(true); auto& h = b.add_state(); auto& k = b.add_state(); 
    b.add_edge(s0, h, {{S("i"), Z(0)}}, symbolic::__true__());
    auto& end = b.add_return_state("x");
    b.add_edge(h, k, {{S("i"), plus(S("i"), Z(1))}}, symbolic::Lt(S("i"), S("n")));
    b.add_edge(h, end, symbolic::Ge(S("i"), S("n")));
    b.add_edge(k, h, {{S("x"), Z(7)}}, symbolic::Lt(S("i"), Z(5)));
    b.add_edge(k, h, {{S("x"), Z(8)}}, symbolic::Ge(S("i"), Z(5)));
    auto f = b.move();
    try {
        B s(*f);
        int found = 0;
        std::list<structured_control_flow::ControlFlowNode*> q = {&s.subject().root()};
        while (!q.empty()) {
            auto n = q.front(); q.pop_front();
            if (auto e = dynamic_cast<Seq*>(n)) for (size_t j = 0; j < e->size(); j++) {
                for (auto& a : e->at(j).second.assignments()) if (a.first->get_name() == "x") found++;
                q.push_back(&e->at(j).first);
            } else if (auto e = dynamic_cast<structured_control_flow::IfElse*>(n)) for (size_t j = 0; j < e->size(); j++) q.push_back(&e->at(j).first);
            else if (auto e = dynamic_cast<structured_control_flow::While*>(n)) q.push_back(&e->root());
        }
        return found >= 2 ? 0 : bad("assignments lost");
    } catch (const UnstructuredControlFlowException&) { return 0; }
}''')
    S("S05-ult-nan", "S05",
      [("sdfg/src/codegen/language_extensions/c_language_extension.cpp", '''        case data_flow::TaskletCode::fp_ult:
            return "isnan(" + tasklet.inputs().at(0) + ") || isnan(" + tasklet.inputs().at(1) + ")" + " || " +''', '''        case data_flow::TaskletCode::fp_ult:
            return "isnan(" + tasklet.inputs().at(0) + ")" + " || " +''')],
      "an unordered comparison whose second operand is not a number", "the generated C code compares false instead of true",
      r'''
#include <sdfg/codegen/language_extensions/c_language_extension.h>
#include <fstream>
int main() {
    B b("f", FunctionType_CPU);
    b.add_container("x", F64);
    auto& k = b.add_block(b.subject().root());
    auto& t = b.add_tasklet(k, data_flow::TaskletCode::fp_ult, "_out", {"p", "q"});
    codegen::CLanguageExtension c(b.subject());
    std::ofstream("t.c") << "#include <math.h>\nint f(double p, double q) { return (" << c.tasklet(t) << "); }\nint main() { double n = NAN; return !(f(n, 1) && f(1, n) && f(n, n) && f(1, 2) && !f(2, 1) && !f(1, 1)); }\n";
    return system("(clang-19 -w t.c -o t -lm || clang -w t.c -o t -lm || gcc -w t.c -o t -lm) 2> /dev/null && ./t") ? bad("fp_ult") : 0;
}''', files="sdfg/src/codegen/language_extensions/*.cpp sdfg/src/codegen/utils.cpp")


if __name__ == "__main__":
    all()
