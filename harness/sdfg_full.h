// A complete in-memory description of a structured SDFG: everything a reload must reproduce.
#pragma once
#include "sdfg_lib.h"
#include <sdfg/codegen/utils.h>
#include <sdfg/data_flow/library_nodes/call_node.h>
#include <sdfg/data_flow/library_nodes/barrier_local_node.h>
#include <sdfg/data_flow/library_nodes/invoke_node.h>
#include <sdfg/data_flow/library_nodes/load_const_node.h>
#include <sdfg/data_flow/library_nodes/metadata_node.h>
#include <sdfg/data_flow/library_nodes/stdlib/trap.h>
#include <sdfg/data_flow/library_nodes/stdlib/unreachable.h>
#include <sdfg/types/structure.h>
#include <sdfg/types/function.h>

inline json F(const sym::Expression& e) { return e.is_null() ? json("none") : D(e); }
inline json F(const types::StorageType& s) {
    return {{"v", s.value()}, {"a", (int) s.allocation()}, {"d", (int) s.deallocation()}, {"n", F(s.allocation_size())}, {"x", F(s.arg1())}};
}
inline json F(const types::IType& t) {
    json j{{"st", F(t.storage_type())}, {"al", t.alignment()}, {"in", t.initializer()}};
    if (auto* s = dynamic_cast<const types::Scalar*>(&t)) { j["k"] = "sc"; j["p"] = (int) s->primitive_type(); }
    else if (auto* s = dynamic_cast<const types::Tensor*>(&t)) {
        j["k"] = "ten"; j["e"] = F((const types::IType&) s->element_type()); j["sh"] = Ds(s->shape()); j["sr"] = Ds(s->strides()); j["off"] = F(s->offset());
    }
    else if (auto* s = dynamic_cast<const types::Array*>(&t)) { j["k"] = "arr"; j["e"] = F(s->element_type()); j["n"] = F(s->num_elements()); }
    else if (auto* s = dynamic_cast<const types::Pointer*>(&t)) { j["k"] = "ptr"; j["e"] = s->has_pointee_type() ? F(s->pointee_type()) : json("opaque"); }
    else if (auto* s = dynamic_cast<const types::Structure*>(&t)) { j["k"] = "struct"; j["name"] = s->name(); }
    else if (auto* s = dynamic_cast<const types::Function*>(&t)) {
        j["k"] = "fun"; j["r"] = F(s->return_type()); j["va"] = s->is_var_arg(); j["ps"] = json::array();
        for (size_t i = 0; i < s->num_params(); i++) j["ps"].push_back(F(s->param_type(sym::integer(i))));
    } else j["k"] = t.print();
    return j;
}
inline json F(const DebugInfo& d) {
    return {{"h", d.has()}, {"f", d.filename()}, {"g", d.function()}, {"l", {d.start_line(), d.start_column(), d.end_line(), d.end_column()}}};
}
struct FullDump {
    const StructuredSDFG& f;
    json edges_of(const data_flow::DataFlowGraph& g) {
        std::map<size_t, json> m;
        for (auto& e : g.edges())
            m[e.element_id()] = {{"id", e.element_id()}, {"s", e.src().element_id()}, {"d", e.dst().element_id()}, {"sc", e.src_conn()}, {"dc", e.dst_conn()},
                                 {"sub", Ds(e.subset())}, {"t", F(e.base_type())}, {"k", (int) e.type()}, {"dbg", F(e.debug_info())}};
        json a = json::array();
        for (auto& x : m) a.push_back(x.second);
        return a;
    }
    json nodes_of(const data_flow::DataFlowGraph& g) {
        std::map<size_t, json> m;
        for (auto& n : g.nodes()) {
            json j{{"id", n.element_id()}, {"dbg", F(n.debug_info())}};
            if (auto* t = dynamic_cast<const data_flow::Tasklet*>(&n)) { j["tl"] = (int) t->code(); j["in"] = t->inputs(); j["out"] = t->output(); }
            else if (auto* t = dynamic_cast<const data_flow::ConstantNode*>(&n)) { j["const"] = t->data(); j["t"] = F(t->type()); }
            else if (auto* t = dynamic_cast<const data_flow::AccessNode*>(&n)) j["acc"] = t->data();
            else if (auto* t = dynamic_cast<const data_flow::LibraryNode*>(&n)) {
                j["lib"] = t->code().value(); j["in"] = t->inputs(); j["out"] = t->outputs(); j["impl"] = t->implementation_type().value(); j["side"] = t->side_effect();
                if (auto* x = dynamic_cast<const data_flow::CallNode*>(t)) j["callee"] = x->callee_name();
                if (auto* x = dynamic_cast<const data_flow::InvokeNode*>(t)) j["callee"] = x->callee_name();
                if (auto* x = dynamic_cast<const data_flow::MetadataNode*>(t)) j["meta"] = x->metadata();
                if (auto* x = dynamic_cast<const data_flow::LoadConstNode*>(t)) { j["t"] = F(x->type()); auto& ds = x->data_source(); j["nb"] = ds.num_bytes();
                    if (ds.in_external_file()) j["file"] = ds.filename().string(); else j["data"] = std::vector<int>(ds.inline_begin(), ds.inline_end()); }
                if (auto* x = dynamic_cast<const mt::ReduceNode*>(t)) { j["sh"] = Ds(x->shape()); j["ax"] = x->axes(); j["keep"] = x->keepdims(); }
                if (auto* x = dynamic_cast<const mt::CastNode*>(t)) j["to"] = (int) x->target_type();
                if (auto* x = dynamic_cast<const mt::CMathTensorNode*>(t)) { j["fn"] = (int) x->cmath_function(); j["sh"] = Ds(x->shape()); }
                if (auto* x = dynamic_cast<const math::cmath::CMathNode*>(t)) { j["fn"] = (int) x->function(); j["p"] = (int) x->primitive_type(); }
                if (auto* x = dynamic_cast<const math::blas::DotNode*>(t)) j["p"] = (int) x->precision();
                if (auto* x = dynamic_cast<const math::blas::GEMMNode*>(t)) j["p"] = (int) x->precision();
                if (auto* x = dynamic_cast<const mt::MatMulNode*>(t)) {
                    j["sta"] = Ds(x->strides_a()); j["stb"] = Ds(x->strides_b()); j["offa"] = F(x->offset_a()); j["offb"] = F(x->offset_b());
                }
                try {
                    Dumper d(f);
                    j["op"] = d.lib(*t);
                } catch (std::exception&) {
                }
            }
            m[n.element_id()] = j;
        }
        json a = json::array();
        for (auto& x : m) a.push_back(x.second);
        return a;
    }
    json seq(const scf::Sequence& s) {
        json ch = json::array(), tr = json::array();
        for (size_t i = 0; i < s.size(); i++) {
            auto c = s.at(i);
            ch.push_back(node(c.first));
            std::map<std::string, json> as;
            for (auto& a : c.second.assignments()) as[a.first->get_name()] = F(a.second);
            tr.push_back({{"id", c.second.element_id()}, {"dbg", F(c.second.debug_info())}, {"as", as}});
        }
        return {{"k", "seq"}, {"id", s.element_id()}, {"dbg", F(s.debug_info())}, {"ch", ch}, {"tr", tr}};
    }
    json node(const scf::ControlFlowNode& n) {
        json j{{"id", n.element_id()}, {"dbg", F(n.debug_info())}};
        if (auto* b = dynamic_cast<const scf::Block*>(&n)) { j["k"] = "block"; j["ns"] = nodes_of(b->dataflow()); j["es"] = edges_of(b->dataflow()); }
        else if (auto* s = dynamic_cast<const scf::Sequence*>(&n)) return seq(*s);
        else if (auto* i = dynamic_cast<const scf::IfElse*>(&n)) {
            j["k"] = "if"; j["cs"] = json::array();
            for (size_t k = 0; k < i->size(); k++) j["cs"].push_back({{"c", F(i->at(k).second)}, {"b", seq(i->at(k).first)}});
        } else if (auto* l = dynamic_cast<const scf::StructuredLoop*>(&n)) {
            auto* m = dynamic_cast<const scf::Map*>(l);
            j["k"] = m ? "map" : "for"; j["iv"] = l->indvar()->get_name(); j["init"] = F(l->init()); j["cond"] = F(l->condition()); j["upd"] = F(l->update());
            j["b"] = seq(l->root());
            if (m) {
                std::map<std::string, std::string> ps(m->schedule_type().properties().begin(), m->schedule_type().properties().end());
                j["sched"] = {{"v", m->schedule_type().value()}, {"c", (int) m->schedule_type().category()}, {"p", ps}};
            }
        } else if (auto* w = dynamic_cast<const scf::While*>(&n)) { j["k"] = "while"; j["b"] = seq(w->root()); }
        else if (dynamic_cast<const scf::Break*>(&n)) j["k"] = "break";
        else if (dynamic_cast<const scf::Continue*>(&n)) j["k"] = "continue";
        else if (auto* r = dynamic_cast<const scf::Return*>(&n)) {
            j["k"] = "return"; j["data"] = r->data(); j["const"] = r->is_constant();
            if (r->is_constant()) j["t"] = F(r->type());
        } else j["k"] = "?";
        return j;
    }
    json dump() {
        json j{{"name", f.name()}, {"type", f.type().value()}, {"count", f.element_counter()}, {"ret", F(f.return_type())}, {"args", f.arguments()}};
        std::map<std::string, json> cs, ex, ss;
        for (auto& c : f.containers()) cs[c] = F(f.type(c));
        for (auto& c : f.externals()) ex[c] = (int) f.linkage_type(c);
        for (auto& s : f.structures()) {
            auto& d = f.structure(s);
            json ms = json::array();
            for (size_t i = 0; i < d.num_members(); i++) ms.push_back(F(d.member_type(sym::integer(i))));
            ss[s] = {{"m", ms}, {"packed", d.is_packed()}};
        }
        std::map<std::string, std::string> md(f.metadata().begin(), f.metadata().end());
        j["cs"] = cs; j["ex"] = ex; j["ss"] = ss; j["md"] = md; j["root"] = seq(f.root());
        return j;
    }
};
