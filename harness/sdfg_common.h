// Builds structured SDFGs from a JSON description and dumps them as a flat list of elements with evaluable expressions.
#pragma once
#include <sdfg/analysis/analysis.h>
#include <sdfg/builder/sdfg_builder.h>
#include <sdfg/builder/structured_sdfg_builder.h>
#include <sdfg/codegen/code_generators/c_code_generator.h>
#include <sdfg/codegen/code_generators/cpp_code_generator.h>
#include <sdfg/data_flow/library_node.h>
#include <sdfg/data_flow/library_nodes/stdlib/stdlib.h>
#include <sdfg/data_flow/library_nodes/math/math.h>
#include <sdfg/symbolic/symbolic.h>
#include <sdfg/types/array.h>
#include <sdfg/types/pointer.h>
#include <sdfg/types/scalar.h>
#include <sdfg/types/tensor.h>
#include <nlohmann/json.hpp>
#include <iostream>
#include <map>

using namespace sdfg;
using nlohmann::json;
namespace scf = sdfg::structured_control_flow;
namespace sym = sdfg::symbolic;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

/* ------------------------------------------------------------- expressions -- */
inline sym::Expression B(const json& e) {
    if (e.is_number_integer()) return sym::integer(e.get<int64_t>());
    if (e.is_boolean()) return e.get<bool>() ? sym::Expression(sym::__true__()) : sym::Expression(sym::__false__());
    if (e.is_string()) return sym::symbol(e.get<std::string>());
    std::string o = e.at(0);
    auto a = [&](int i) { return B(e.at(i)); };
    auto c = [&](int i) { return SymEngine::rcp_dynamic_cast<const SymEngine::Boolean>(B(e.at(i))); };
    auto fold = [&](auto f) {
        auto r = a(1);
        for (size_t i = 2; i < e.size(); i++) r = f(r, a(i));
        return r;
    };
    if (o == "+") return fold([](auto x, auto y) { return sym::add(x, y); });
    if (o == "*") return fold([](auto x, auto y) { return sym::mul(x, y); });
    if (o == "-") return sym::sub(a(1), a(2));
    if (o == "max") return fold([](auto x, auto y) { return sym::max(x, y); });
    if (o == "min") return fold([](auto x, auto y) { return sym::min(x, y); });
    if (o == "idiv") return sym::div(a(1), a(2));
    if (o == "mod") return sym::mod(a(1), a(2));
    if (o == "imod") return SymEngine::function_symbol("imod", {a(1), a(2)});
    if (o == "iabs") return sym::abs(a(1));
    if (o == "pow") return sym::pow(a(1), a(2));
    if (o == "zext" || o == "zext_i64") return sym::zext_i64(a(1));
    if (o == "trunc" || o == "trunc_i32") return sym::trunc_i32(a(1));
    if (o == "<") return sym::Lt(a(1), a(2));
    if (o == "<=") return sym::Le(a(1), a(2));
    if (o == ">") return sym::Gt(a(1), a(2));
    if (o == ">=") return sym::Ge(a(1), a(2));
    if (o == "==") return sym::Eq(a(1), a(2));
    if (o == "!=") return sym::Ne(a(1), a(2));
    if (o == "not") return sym::Not(c(1));
    if (o == "and" || o == "or") {
        auto r = c(1);
        for (size_t i = 2; i < e.size(); i++) r = o == "and" ? sym::And(r, c(i)) : sym::Or(r, c(i));
        return r;
    }
    throw std::runtime_error("expression " + o);
}
inline sym::Condition BC(const json& e) { return SymEngine::rcp_dynamic_cast<const SymEngine::Boolean>(B(e)); }

json bytes_of(const types::IType& t);
// dump: {"k": kind, ...}; numbers are clipped to +-2^30
inline bool& exact_numbers() {
    static bool b = false;
    return b;
}
inline json num(const SymEngine::Integer& i) {
    auto s = i.__str__();
    if (exact_numbers()) return s;
    bool neg = s[0] == '-';
    if (s.size() > 10 + neg || std::abs(std::stoll(s)) > 1073741823LL) return neg ? -1073741823LL : 1073741823LL;
    return std::stoll(s);
}
inline json D(const SymEngine::RCP<const SymEngine::Basic>& x) {
    using namespace SymEngine;
    if (x.is_null()) return {{"k", "none"}};
    auto args = [&](const std::string& k) {
        json a = json::array();
        for (auto& y : x->get_args()) a.push_back(D(y));
        return json{{"k", k}, {"a", a}};
    };
    if (is_a<SymEngine::Integer>(*x)) return {{"k", "n"}, {"v", num(*rcp_static_cast<const SymEngine::Integer>(x))}};
    if (is_a<BooleanAtom>(*x)) return {{"k", "n"}, {"v", x->__str__() == "True" ? 1 : 0}};
    if (is_a<SymEngine::Symbol>(*x)) {
        if (rcp_static_cast<const SymEngine::Symbol>(x)->get_name() == "__daisy_nullptr") return {{"k", "null"}};
        return {{"k", "s"}, {"s", rcp_static_cast<const SymEngine::Symbol>(x)->get_name()}};
    }
    if (is_a<SymEngine::Rational>(*x)) {
        auto s = x->__str__();
        auto p = s.find('/');
        if (exact_numbers()) return {{"k", "q"}, {"v", s}};
        return {{"k", "q"}, {"n", std::stoll(s.substr(0, p))}, {"d", std::stoll(s.substr(p + 1))}};
    }
    if (is_a<SymEngine::Add>(*x)) return args("+");
    if (is_a<SymEngine::Mul>(*x)) return args("*");
    if (is_a<SymEngine::Pow>(*x)) return args("^");
    if (is_a<SymEngine::Max>(*x)) return args("max");
    if (is_a<SymEngine::Min>(*x)) return args("min");
    if (is_a<SymEngine::StrictLessThan>(*x)) return args("<");
    if (is_a<SymEngine::LessThan>(*x)) return args("<=");
    if (is_a<SymEngine::Equality>(*x)) return args("==");
    if (is_a<SymEngine::Unequality>(*x)) return args("!=");
    if (is_a<SymEngine::And>(*x)) return args("and");
    if (is_a<SymEngine::Or>(*x)) return args("or");
    if (is_a<SymEngine::Not>(*x)) return args("not");
    if (auto* f = dynamic_cast<const FunctionSymbol*>(x.get())) {
        auto n = f->get_name();
        if (n == "sizeof") {
            auto* so = dynamic_cast<const sym::SizeOfTypeFunction*>(f);
            return so ? bytes_of(so->get_type()) : json{{"k", "?"}, {"s", "sizeof"}};
        }
        return args(n);
    }
    return {{"k", "?"}, {"s", x->__str__()}};
}
inline json one() { return {{"k", "n"}, {"v", 1}}; }
inline json zero() { return {{"k", "n"}, {"v", 0}}; }
inline json jmul(const json& a, const json& b) {
    if (a == one()) return b;
    if (b == one()) return a;
    if (a == zero() || b == zero()) return zero();
    return {{"k", "*"}, {"a", json::array({a, b})}};
}
inline json jadd(const json& a, const json& b) {
    if (a == zero()) return b;
    if (b == zero()) return a;
    return {{"k", "+"}, {"a", json::array({a, b})}};
}

/* ------------------------------------------------------------------- types -- */
inline types::PrimitiveType prim(const std::string& s) {
    static std::map<std::string, types::PrimitiveType> m{
        {"i64", types::PrimitiveType::Int64}, {"i32", types::PrimitiveType::Int32}, {"i16", types::PrimitiveType::Int16},
        {"i8", types::PrimitiveType::Int8}, {"u64", types::PrimitiveType::UInt64}, {"u32", types::PrimitiveType::UInt32},
        {"u16", types::PrimitiveType::UInt16}, {"u8", types::PrimitiveType::UInt8}, {"bool", types::PrimitiveType::Bool},
        {"f64", types::PrimitiveType::Double}, {"f32", types::PrimitiveType::Float}};
    return m.at(s);
}
inline std::string prim_name(types::PrimitiveType p) {
    switch (p) {
        case types::PrimitiveType::Int64: return "i64";
        case types::PrimitiveType::Int32: return "i32";
        case types::PrimitiveType::Int16: return "i16";
        case types::PrimitiveType::Int8: return "i8";
        case types::PrimitiveType::UInt64: return "u64";
        case types::PrimitiveType::UInt32: return "u32";
        case types::PrimitiveType::UInt16: return "u16";
        case types::PrimitiveType::UInt8: return "u8";
        case types::PrimitiveType::Bool: return "bool";
        case types::PrimitiveType::Double: return "f64";
        case types::PrimitiveType::Float: return "f32";
        default: return "other";
    }
}
inline types::StorageType ST(const json& j) {
    types::StorageType s(j.value("v", "CPU_Stack"), j.contains("size") ? B(j["size"]) : sym::Expression(SymEngine::null),
                         j.value("alloc", false) ? types::StorageType::Managed : types::StorageType::Unmanaged,
                         j.value("dealloc", false) ? types::StorageType::Managed : types::StorageType::Unmanaged);
    if (j.contains("arg")) s.arg1(B(j["arg"]));
    return s;
}
inline std::unique_ptr<types::IType> T(const json& t) {
    // types with every attribute given: {"ty": kind, "st": storage, "al": alignment, "in": initializer, ...}
    if (t.is_object() && t.contains("ty")) {
        std::string k = t["ty"], in = t.value("in", "");
        auto st = ST(t.value("st", json::object()));
        size_t al = t.value("al", 0);
        if (k == "sc") return std::make_unique<types::Scalar>(st, al, in, types::primitive_type_from_string(t["p"].get<std::string>()));
        if (k == "ptr") return t.contains("e") ? std::make_unique<types::Pointer>(st, al, in, *T(t["e"])) : std::make_unique<types::Pointer>(st, al, in);
        if (k == "arr") return std::make_unique<types::Array>(st, al, in, *T(t["e"]), B(t["n"]));
        if (k == "struct") return std::make_unique<types::Structure>(st, al, in, t["name"].get<std::string>());
        if (k == "fun") {
            auto f = std::make_unique<types::Function>(st, al, in, *T(t["r"]), t.value("va", false));
            for (auto& p : t["ps"]) f->add_param(*T(p));
            return f;
        }
        if (k == "ten") {
            sym::MultiExpression sh, sr;
            for (auto& s : t["sh"]) sh.push_back(B(s));
            for (auto& s : t["sr"]) sr.push_back(B(s));
            auto e = T(t["e"]);
            return std::make_unique<types::Tensor>(st, al, in, dynamic_cast<const types::Scalar&>(*e), sh, sr, B(t.value("off", json(0))));
        }
        throw std::runtime_error("type " + k);
    }
    if (t.is_string()) {
        if (t == "void*") return std::make_unique<types::Pointer>();
        return std::make_unique<types::Scalar>(prim(t));
    }
    if (t.contains("ptr")) {
        if (t.contains("heap"))
            return std::make_unique<types::Pointer>(
                types::StorageType::CPU_Heap(B(t["heap"]), types::StorageType::Managed, types::StorageType::Managed), 0, "",
                *T(t["ptr"]));
        return std::make_unique<types::Pointer>(*T(t["ptr"]));
    }
    if (t.contains("tensor")) {
        sym::MultiExpression shape;
        for (auto& s : t["tensor"]) shape.push_back(B(s));
        if (t.contains("strides")) {
            sym::MultiExpression st;
            for (auto& s : t["strides"]) st.push_back(B(s));
            return std::make_unique<types::Tensor>(prim(t["el"]), shape, st, t.contains("off") ? B(t["off"]) : sym::Expression(sym::zero()));
        }
        return std::make_unique<types::Tensor>(types::Scalar(prim(t["el"])), shape);
    }
    return std::make_unique<types::Array>(*T(t["arr"]), B(t["n"]));
}
inline json size_in_elems(const types::IType& t) {
    if (auto* a = dynamic_cast<const types::Array*>(&t)) return jmul(D(a->num_elements()), size_in_elems(a->element_type()));
    return one();
}
inline std::string leaf(const types::IType& t) {
    if (auto* a = dynamic_cast<const types::Array*>(&t)) return leaf(a->element_type());
    if (auto* s = dynamic_cast<const types::Scalar*>(&t)) return prim_name(s->primitive_type());
    if (dynamic_cast<const types::Pointer*>(&t)) return "ptr";
    return "other";
}

inline json bytes_of(const types::IType& t) {
    if (auto* a = dynamic_cast<const types::Array*>(&t)) return jmul(D(a->num_elements()), bytes_of(a->element_type()));
    if (dynamic_cast<const types::Pointer*>(&t)) return {{"k", "n"}, {"v", 8}};
    static std::map<std::string, int> m{{"i64", 8}, {"u64", 8}, {"f64", 8}, {"i32", 4}, {"u32", 4}, {"f32", 4}, {"i16", 2}, {"u16", 2}, {"i8", 1}, {"u8", 1}, {"bool", 1}};
    auto n = leaf(t);
    if (dynamic_cast<const types::Scalar*>(&t) && m.count(n)) return {{"k", "n"}, {"v", m[n]}};
    return {{"k", "?"}, {"s", "sizeof " + t.print()}};
}

/* ------------------------------------------------------------------ builder -- */
#define TASKLETS(X) \
    X(assign) X(fp_neg) X(fp_add) X(fp_sub) X(fp_mul) X(fp_div) X(fp_rem) X(fp_fma) X(fp_oeq) X(fp_one) X(fp_oge) X(fp_ogt) \
    X(fp_ole) X(fp_olt) X(fp_ord) X(fp_ueq) X(fp_une) X(fp_ugt) X(fp_uge) X(fp_ult) X(fp_ule) X(fp_uno) X(int_add) X(int_sub) \
    X(int_mul) X(int_sdiv) X(int_srem) X(int_udiv) X(int_urem) X(int_and) X(int_or) X(int_xor) X(int_shl) X(int_ashr) \
    X(int_lshr) X(int_smin) X(int_smax) X(int_scmp) X(int_umin) X(int_umax) X(int_ucmp) X(int_eq) X(int_ne) X(int_sge) \
    X(int_sgt) X(int_sle) X(int_slt) X(int_uge) X(int_ugt) X(int_ule) X(int_ult) X(int_abs)
inline data_flow::TaskletCode tcode(const std::string& s) {
#define X(n) if (s == #n) return data_flow::TaskletCode::n;
    TASKLETS(X)
#undef X
    throw std::runtime_error("tasklet " + s);
}
inline std::string tname(data_flow::TaskletCode c) {
#define X(n) if (c == data_flow::TaskletCode::n) return #n;
    TASKLETS(X)
#undef X
    return "?";
}
data_flow::LibraryNode& add_lib(builder::StructuredSDFGBuilder& b, scf::Block& blk, const json& n);

inline control_flow::Assignments assigns(const json& s) {
    control_flow::Assignments a;
    if (s.contains("tr"))
        for (auto& p : s["tr"]) a[sym::symbol(p.at(0).get<std::string>())] = B(p.at(1));
    return a;
}
inline data_flow::Subset subset(const json& e) {
    data_flow::Subset s;
    if (e.contains("sub"))
        for (auto& x : e["sub"]) s.push_back(B(x));
    return s;
}
struct Built {
    std::map<std::string, scf::ControlFlowNode*> named;
};
inline DebugInfo DBG(const json& s) {
    if (!s.contains("dbg")) return DebugInfo();
    auto& d = s["dbg"];
    auto n = [&](int i) { return d.at(i).get<size_t>(); };
    if (d.size() == 5) return DebugInfo(d.at(0).get<std::string>(), n(1), n(2), n(3), n(4));
    return DebugInfo(d.at(0).get<std::string>(), d.at(1).get<std::string>(), n(2), n(3), n(4), n(5));
}
inline scf::ScheduleType SCHED(const json& s) {
    if (!s.contains("sched")) return scf::ScheduleType_Sequential::create();
    auto& d = s["sched"];
    scf::ScheduleType t(d.value("v", "SEQUENTIAL"), (scf::ScheduleTypeCategory) d.value("c", 3));
    json props = d.value("p", json::object());
    for (auto& p : props.items()) t.set_property(p.key(), p.value());
    return t;
}
inline void build_seq(builder::StructuredSDFGBuilder& b, scf::Sequence& seq, const json& body, Built& bt) {
    for (auto& s : body) {
        std::string k = s.at("k");
        auto tr = assigns(s);
        scf::ControlFlowNode* made = nullptr;
        if (k == "block") {
            auto& blk = b.add_block(seq, tr, DBG(s));
            made = &blk;
            std::map<int, data_flow::DataFlowNode*> ids;
            for (auto& n : s.value("nodes", json::array())) {
                if (n.contains("acc"))
                    ids[n["id"]] = &b.add_access(blk, n["acc"].get<std::string>(), DBG(n));
                else if (n.contains("const"))
                    ids[n["id"]] = &b.add_constant(blk, n["const"].get<std::string>(), *T(n["t"]), DBG(n));
                else if (n.contains("tl"))
                    ids[n["id"]] = &b.add_tasklet(blk, tcode(n["tl"]), "_out", n["ins"].get<std::vector<std::string>>(), DBG(n));
                else
                    ids[n["id"]] = &add_lib(b, blk, n);
            }
            for (auto& e : s.value("edges", json::array()))
                b.add_memlet(blk, *ids.at(e["s"]), e.value("sc", "void"), *ids.at(e["d"]), e.value("dc", "void"), subset(e),
                             *T(e["t"]), DBG(e));
        } else if (k == "for") {
            auto& f = b.add_for(seq, sym::symbol(s["iv"].get<std::string>()), BC(s["cond"]), B(s["init"]), B(s["upd"]), tr, DBG(s));
            made = &f;
            build_seq(b, f.root(), s["body"], bt);
        } else if (k == "map") {
            auto& f = b.add_map(seq, sym::symbol(s["iv"].get<std::string>()), BC(s["cond"]), B(s["init"]), B(s["upd"]),
                                SCHED(s), tr, DBG(s));
            made = &f;
            build_seq(b, f.root(), s["body"], bt);
        } else if (k == "while") {
            auto& f = b.add_while(seq, tr, DBG(s));
            made = &f;
            build_seq(b, f.root(), s["body"], bt);
        } else if (k == "if") {
            auto& f = b.add_if_else(seq, tr, DBG(s));
            made = &f;
            for (auto& c : s["cases"]) build_seq(b, b.add_case(f, BC(c["c"]), DBG(c)), c["body"], bt);
        } else if (k == "seq") {
            auto& f = b.add_sequence(seq, tr, DBG(s));
            made = &f;
            build_seq(b, f, s["body"], bt);
        } else if (k == "break")
            b.add_break(seq, tr, DBG(s));
        else if (k == "continue")
            b.add_continue(seq, tr, DBG(s));
        else if (k == "return" && s.contains("const"))
            b.add_constant_return(seq, s["const"].get<std::string>(), *T(s["t"]), tr, DBG(s));
        else if (k == "return")
            b.add_return(seq, s.value("data", ""), tr, DBG(s));
        else
            throw std::runtime_error("statement " + k);
        if (made && s.contains("name")) bt.named[s["name"]] = made;
    }
}
inline std::unique_ptr<builder::StructuredSDFGBuilder> build(const json& p, Built& bt) {
    std::unique_ptr<builder::StructuredSDFGBuilder> b;
    auto ft = p.value("nv", false) ? FunctionType_NV_GLOBAL : FunctionType_CPU;
    if (p.contains("ret"))
        b = std::make_unique<builder::StructuredSDFGBuilder>(p.value("name", "f"), ft, *T(p["ret"]));
    else
        b = std::make_unique<builder::StructuredSDFGBuilder>(p.value("name", "f"), ft);
    for (auto& s : p.value("structures", json::array())) {
        auto& d = b->add_structure(s["name"].get<std::string>(), s.value("packed", false));
        for (auto& m : s["members"]) d.add_member(*T(m));
    }
    for (auto& s : p.value("externals", json::array()))
        b->add_external(s["name"].get<std::string>(), *T(s["t"]), s.value("internal", false) ? LinkageType_Internal : LinkageType_External);
    json metadata = p.value("metadata", json::object());
    for (auto& m : metadata.items()) b->subject().add_metadata(m.key(), m.value().get<std::string>());
    for (auto& c : p["containers"]) b->add_container(c["name"], *T(c["t"]), c.value("arg", false), c.value("ext", false));
    for (auto& a : p.value("assume", json::array())) {
        auto s = sym::symbol(a["s"].get<std::string>());
        auto& as = b->subject().assumption(s);
        if (a.contains("lb")) as.add_lower_bound(B(a["lb"]));
        if (a.contains("ub")) as.add_upper_bound(B(a["ub"]));
        as.constant(a.value("const", true));
    }
    build_seq(*b, b->subject().root(), p["root"], bt);
    return b;
}

/* --------------------------------------------------------------------- dump -- */
struct Dumper {
    const Function& f;
    json els = json::array();
    std::map<size_t, int> by_element;   // element id -> position
    explicit Dumper(const Function& f) : f(f) {}

    // a place: container, whether through its pointer value, linear offset, primitive type of what is there
    json place(const std::string& c, const types::IType& bt, const data_flow::Subset& sub) {
        json off = zero();
        const types::IType* t = &bt;
        bool through = false;
        size_t i = 0;
        if (auto* p = dynamic_cast<const types::Pointer*>(t)) {
            if (sub.empty()) return {{"c", c}, {"p", false}, {"off", zero()}, {"t", "ptr"}, {"v", true}};
            if (!p->has_pointee_type()) throw Unsupported("opaque pointer access");
            through = true;
            t = &p->pointee_type();
            off = jmul(D(sub[0]), size_in_elems(*t));
            i = 1;
        }
        if (auto* tt = dynamic_cast<const types::Tensor*>(t)) {
            off = jadd(off, D(tt->offset()));
            for (; i < sub.size(); i++) off = jadd(off, jmul(D(sub[i]), D(tt->strides().at(i))));
            return {{"c", c}, {"p", true}, {"off", off}, {"t", prim_name(tt->primitive_type())}, {"v", false}};
        }
        bool value = !through && sub.empty() && dynamic_cast<const types::Scalar*>(t);
        for (; i < sub.size(); i++) {
            auto* a = dynamic_cast<const types::Array*>(t);
            if (!a) throw Unsupported("subset of a non-array");
            t = &a->element_type();
            off = jadd(off, jmul(D(sub[i]), size_in_elems(*t)));
        }
        return {{"c", c}, {"p", through}, {"off", off}, {"t", leaf(*t)}, {"v", value}};
    }
    json konst(const data_flow::ConstantNode& n) {
        std::string s = n.data();
        json v;
        if (s == "__daisy_nullptr" || s == "NULL") return {{"c", "null"}, {"k", true}};
        if (s == "true" || s == "false") v = s == "true";
        double d = s == "true" ? 1 : s == "false" ? 0 : s == "INFINITY" ? 1073741823.0 : s == "-INFINITY" ? -1073741823.0 : std::stod(s);
        if (d != (double) (long long) d) throw Unsupported("fractional constant " + s);
        if (d > 1073741823.0) d = 1073741823.0;
        if (d < -1073741823.0) d = -1073741823.0;
        return {{"n", (long long) d}, {"k", true}};
    }
    json source(const data_flow::Memlet& m) {
        auto& a = dynamic_cast<const data_flow::AccessNode&>(m.src());
        if (auto* c = dynamic_cast<const data_flow::ConstantNode*>(&a)) {
            auto k = konst(*c);
            k["t"] = leaf(m.base_type());
            return k;
        }
        auto p = place(a.data(), m.base_type(), m.subset());
        p["k"] = false;
        return p;
    }
    json lib(const data_flow::LibraryNode& n);

    json block(const data_flow::DataFlowGraph& g) {
        json ops = json::array();
        for (auto* n : g.topological_sort()) {
            if (auto* t = dynamic_cast<const data_flow::Tasklet*>(n)) {
                json ins = json::array(), outs = json::array();
                for (auto& c : t->inputs()) {
                    bool found = false;
                    for (auto& m : g.in_edges(*t))
                        if (m.dst_conn() == c) {
                            ins.push_back(source(m));
                            found = true;
                        }
                    if (!found) throw Unsupported("tasklet input without memlet: " + c);
                }
                for (auto& m : g.out_edges(*t))
                    outs.push_back(place(dynamic_cast<const data_flow::AccessNode&>(m.dst()).data(), m.base_type(), m.subset()));
                ops.push_back({{"op", "t"}, {"code", tname(t->code())}, {"ins", ins}, {"outs", outs}, {"id", t->element_id()}});
            } else if (auto* l = dynamic_cast<const data_flow::LibraryNode*>(n)) {
                ops.push_back(lib(*l));
            } else if (auto* a = dynamic_cast<const data_flow::AccessNode*>(n)) {
                for (auto& m : g.out_edges(*a)) {
                    if (m.type() == data_flow::MemletType::Computational) continue;
                    auto& dst = dynamic_cast<const data_flow::AccessNode&>(m.dst());
                    json o{{"op", m.type() == data_flow::MemletType::Reference         ? "ref"
                                  : m.type() == data_flow::MemletType::Dereference_Src ? "dsrc"
                                                                                       : "ddst"},
                           {"dst", dst.data()}};
                    if (m.type() == data_flow::MemletType::Reference) {
                        if (auto* c = dynamic_cast<const data_flow::ConstantNode*>(a))
                            o["src"] = konst(*c);
                        else {
                            o["src"] = place(a->data(), m.base_type(), m.subset());
                            o["src"]["k"] = false;
                            // the address of a pointer variable itself, or of a scalar
                            if (o["src"]["v"] == true) throw Unsupported("address of a variable");
                        }
                    } else
                        o["src"] = {{"c", a->data()}, {"k", dynamic_cast<const data_flow::ConstantNode*>(a) != nullptr}};
                    if (m.type() == data_flow::MemletType::Dereference_Src) o["t"] = leaf(f.type(dst.data()));
                    if (m.type() == data_flow::MemletType::Dereference_Dst)
                        o["t"] = o["src"]["k"] == true ? leaf(dynamic_cast<const data_flow::ConstantNode&>(*a).type()) : leaf(f.type(a->data()));
                    ops.push_back(o);
                }
            }
        }
        return ops;
    }
    int add(json e, const Element& el) {
        e["eid"] = el.element_id();
        els.push_back(e);
        by_element[el.element_id()] = els.size();
        return els.size();
    }
    int seq(const scf::Sequence& s) {
        json ch = json::array(), tr = json::array();
        for (size_t i = 0; i < s.size(); i++) {
            auto c = s.at(i);
            ch.push_back(node(c.first));
            tr.push_back(tr_of(c.second.assignments()));
        }
        return add({{"k", "seq"}, {"ch", ch}, {"tr", tr}}, s);
    }
    int node(const scf::ControlFlowNode& n) {
        if (auto* b = dynamic_cast<const scf::Block*>(&n)) return add({{"k", "block"}, {"ops", block(b->dataflow())}}, n);
        if (auto* s = dynamic_cast<const scf::Sequence*>(&n)) return seq(*s);
        if (auto* i = dynamic_cast<const scf::IfElse*>(&n)) {
            json cs = json::array();
            for (size_t k = 0; k < i->size(); k++) cs.push_back({{"c", D(i->at(k).second)}, {"b", seq(i->at(k).first)}});
            return add({{"k", "if"}, {"cs", cs}}, n);
        }
        if (auto* l = dynamic_cast<const scf::StructuredLoop*>(&n)) {
            auto* m = dynamic_cast<const scf::Map*>(l);
            json e{{"k", m ? "map" : "for"}, {"iv", l->indvar()->get_name()}, {"ivt", leaf(f.type(l->indvar()->get_name()))},
                   {"init", D(l->init())}, {"cond", D(l->condition())}, {"upd", D(l->update())}, {"b", seq(l->root())}};
            if (m) {
                e["sched"] = m->schedule_type().value();
                e["props"] = json::object();
                for (auto& p : m->schedule_type().properties()) e["props"][p.first] = p.second;
            }
            return add(e, n);
        }
        if (auto* w = dynamic_cast<const scf::While*>(&n)) return add({{"k", "while"}, {"b", seq(w->root())}}, n);
        if (dynamic_cast<const scf::Break*>(&n)) return add({{"k", "break"}}, n);
        if (dynamic_cast<const scf::Continue*>(&n)) return add({{"k", "continue"}}, n);
        if (auto* r = dynamic_cast<const scf::Return*>(&n)) {
            json e = returned(r->data(), r->is_data(), r->is_constant());
            return add(e, n);
        }
        throw Unsupported("control flow node");
    }
    json returned(const std::string& data, bool is_data, bool is_constant) {
        json e{{"k", "return"}, {"data", is_data ? data : ""}};
        if (is_constant) {
            char* end = nullptr;
            double d = strtod(data.c_str(), &end);
            if (*end == 0 && d == (long long) d && std::abs(d) < 1e9) e["n"] = (long long) d;
            else if (data != "null" && data != "nullptr") throw Unsupported("returned constant " + data);
        }
        return e;
    }
    json tr_of(const control_flow::Assignments& t) {
        json as = json::array();
        for (auto& a : t) as.push_back({{"s", a.first->get_name()}, {"e", D(a.second)}, {"t", leaf(f.type(a.first->get_name()))}});
        return as;
    }
    // a state machine, as a single statement
    int machine(const SDFG& g) {
        std::map<const control_flow::State*, int> pos;
        json states = json::array();
        int k = 0;
        for (auto& s : g.states()) pos[&s] = ++k;
        for (auto& s : g.states()) {
            json q{{"ops", block(s.dataflow())}, {"ed", json::array()}, {"ret", false}};
            if (auto* r = dynamic_cast<const control_flow::ReturnState*>(&s)) {
                q = returned(r->data(), r->is_data(), r->is_constant());
                q["ret"] = true;
                q["ops"] = block(s.dataflow());
                q["ed"] = json::array();
            }
            for (auto& e : g.out_edges(s)) q["ed"].push_back({{"c", D(e.condition())}, {"to", pos.at(&e.dst())}, {"tr", tr_of(e.assignments())}});
            states.push_back(q);
        }
        els.push_back({{"k", "cfg"}, {"st", states}, {"start", pos.at(&g.start_state())}});
        int m = els.size();
        els.push_back({{"k", "seq"}, {"ch", {m}}, {"tr", {json::array()}}});
        return els.size();
    }
    json dump() {
        int r;
        if (auto* s = dynamic_cast<const StructuredSDFG*>(&f)) r = seq(s->root());
        else r = machine(dynamic_cast<const SDFG&>(f));
        json cs = json::object();
        int k = 0;
        for (auto& c : f.containers()) {
            auto& t = f.type(c);
            std::string kind = dynamic_cast<const types::Pointer*>(&t) ? "ptr"
                             : dynamic_cast<const types::Array*>(&t)   ? "arr"
                             : dynamic_cast<const types::Scalar*>(&t)  ? "sc"
                             : dynamic_cast<const types::Tensor*>(&t)  ? "ten"
                                                                       : "other";
            bool own = kind == "arr" || t.storage_type().allocation() == types::StorageType::Managed;
            cs[c] = {{"kind", kind}, {"t", kind == "ten" ? prim_name(t.primitive_type()) : leaf(t)}, {"arg", f.is_argument(c)}, {"ext", f.is_external(c)}, {"own", own}, {"print", t.print()}};
            if (kind == "arr") cs[c]["n"] = size_in_elems(t);
            if (kind == "ptr" && own) cs[c]["bytes"] = D(t.storage_type().allocation_size());
            k++;
        }
        return {{"els", els}, {"root", r}, {"cs", cs}, {"args", f.arguments()}};
    }
};
