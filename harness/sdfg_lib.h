// Library nodes: construction from JSON and dump.
#pragma once
#include "sdfg_common.h"
#include <sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/tasklet_node.h>
#include <sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.h>
#include <sdfg/data_flow/library_nodes/barrier_local_node.h>
#include <sdfg/data_flow/library_nodes/call_node.h>
#include <sdfg/data_flow/library_nodes/invoke_node.h>
#include <sdfg/data_flow/library_nodes/load_const_node.h>
#include <sdfg/data_flow/library_nodes/metadata_node.h>
#include <sdfg/data_flow/library_nodes/stdlib/trap.h>
#include <sdfg/data_flow/library_nodes/stdlib/unreachable.h>
#include <sdfg/types/function.h>
#include <sdfg/types/structure.h>

namespace mt = sdfg::math::tensor;

inline std::vector<sym::Expression> exprs(const json& a) {
    std::vector<sym::Expression> r;
    for (auto& x : a) r.push_back(B(x));
    return r;
}
#define UNARY(X) X(Abs) X(ReLU) X(Fill) X(Sqrt) X(Exp) X(Tanh) X(Erf) X(Sigmoid) X(LeakyReLU) X(HardSigmoid) X(Elu)
#define BINARY(X) X(Add) X(Sub) X(Mul) X(Div) X(Maximum) X(Minimum) X(Pow)
#define REDUCE(X) X(Sum) X(Max) X(Min) X(Mean)

inline data_flow::LibraryNode& add_lib(builder::StructuredSDFGBuilder& b, scf::Block& blk, const json& n) {
    std::string k = n.at("lib");
    DebugInfo d = DBG(n);
    auto strs = [&](const char* f) { return n.value(f, std::vector<std::string>{}); };
    if (k == "call") return b.add_library_node<data_flow::CallNode>(blk, d, n["callee"].get<std::string>(), strs("outs"), strs("ins"));
    if (k == "invoke") return b.add_library_node<data_flow::InvokeNode>(blk, d, n["callee"].get<std::string>(), strs("outs"), strs("ins"));
    if (k == "metadata") {
        std::unordered_map<std::string, std::string> md;
        for (auto& m : n["md"].items()) md[m.key()] = m.value().get<std::string>();
        return b.add_library_node<data_flow::MetadataNode>(blk, d, strs("outs"), strs("ins"), md);
    }
    if (k == "loadconst") {
        std::unique_ptr<data_flow::ConstSource> src;
        if (n.contains("file")) src = std::make_unique<data_flow::RawFileConstSource>(n["file"].get<std::string>(), n["bytes"].get<size_t>());
        else src = std::make_unique<data_flow::InMemoryConstSource>(n["data"].get<std::vector<uint8_t>>());
        return b.add_library_node<data_flow::LoadConstNode>(blk, d, T(n["t"]), std::move(src));
    }
    if (k == "barrier") return b.add_library_node<data_flow::BarrierLocalNode>(blk, d);
    if (k == "trap") return b.add_library_node<stdlib::TrapNode>(blk, d);
    if (k == "unreachable") return b.add_library_node<stdlib::UnreachableNode>(blk, d);
    if (k == "cmath") return b.add_library_node<math::cmath::CMathNode>(blk, d, math::cmath::string_to_cmath_function(n["fn"].get<std::string>()), prim(n["p"]));
    if (k == "CMath")
        return b.add_library_node<mt::CMathTensorNode>(blk, d, math::cmath::string_to_cmath_function(n["fn"].get<std::string>()),
                                                       std::vector<std::string>{"_out"}, strs("ins"), exprs(n["shape"]));
    if (k == "Softmax") return b.add_library_node<mt::SoftmaxNode>(blk, d, exprs(n["shape"]), n["axes"].get<std::vector<int64_t>>(), n.value("keep", false));
    if (k == "Std") return b.add_library_node<mt::StdNode>(blk, d, exprs(n["shape"]), n["axes"].get<std::vector<int64_t>>(), n.value("keep", false));
    if (k == "memcpy") return b.add_library_node<stdlib::MemcpyNode>(blk, d, B(n["count"]));
    if (k == "memmove") return b.add_library_node<stdlib::MemmoveNode>(blk, d, B(n["count"]));
    if (k == "memset") return b.add_library_node<stdlib::MemsetNode>(blk, d, B(n["value"]), B(n["num"]));
    if (k == "malloc") return b.add_library_node<stdlib::MallocNode>(blk, d, B(n["size"]));
    if (k == "alloca") return b.add_library_node<stdlib::AllocaNode>(blk, d, B(n["size"]));
    if (k == "calloc") return b.add_library_node<stdlib::CallocNode>(blk, d, B(n["num"]), B(n["size"]));
    if (k == "free") return b.add_library_node<stdlib::FreeNode>(blk, d);
#define X(N) if (k == #N) return b.add_library_node<mt::N##Node>(blk, d, exprs(n["shape"]));
    UNARY(X) BINARY(X)
#undef X
#define X(N) if (k == #N) return b.add_library_node<mt::N##Node>(blk, d, exprs(n["shape"]), n["axes"].get<std::vector<int64_t>>(), n.value("keep", false));
    REDUCE(X)
#undef X
    if (k == "Cast") return b.add_library_node<mt::CastNode>(blk, d, exprs(n["shape"]), prim(n["to"]));
    if (k == "Tasklet")
        return b.add_library_node<mt::TaskletTensorNode>(blk, d, tcode(n["code"]), std::vector<std::string>{"_out"},
                                                         n["ins"].get<std::vector<std::string>>(), exprs(n["shape"]));
    if (k == "Transpose") return b.add_library_node<mt::TransposeNode>(blk, d, exprs(n["shape"]), n["perm"].get<std::vector<int64_t>>());
    if (k == "Broadcast") return b.add_library_node<mt::BroadcastNode>(blk, d, exprs(n["shape"]), exprs(n["oshape"]));
    if (k == "MatMul") {
        if (n.contains("sta"))
            return b.add_library_node<mt::MatMulNode>(blk, d, exprs(n["sa"]), exprs(n["sb"]), exprs(n["sta"]), exprs(n["stb"]),
                                                      B(n.value("offa", json(0))), B(n.value("offb", json(0))));
        return b.add_library_node<mt::MatMulNode>(blk, d, exprs(n["sa"]), exprs(n["sb"]));
    }
    if (k == "Conv")
        return b.add_library_node<mt::ConvNode>(blk, d, exprs(n["shape"]), exprs(n["kernel"]), exprs(n["strides"]), exprs(n["pads"]),
                                                exprs(n["dil"]), B(n["oc"]), B(n["group"]));
    data_flow::ImplementationType impl = data_flow::ImplementationType_NONE;
    if (n.contains("impl")) impl = data_flow::ImplementationType(n["impl"].get<std::string>());
    static const std::map<std::string, math::blas::BLAS_Precision> precs{
        {"h", math::blas::BLAS_Precision::h}, {"s", math::blas::BLAS_Precision::s}, {"d", math::blas::BLAS_Precision::d},
        {"c", math::blas::BLAS_Precision::c}, {"z", math::blas::BLAS_Precision::z}};
    auto prec = precs.at(n.value("prec", "d"));
    if (k == "DOT")
        return b.add_library_node<math::blas::DotNode>(blk, d, impl, prec, B(n["n"]),
                                                       B(n["incx"]), B(n["incy"]));
    if (k == "GEMM")
        return b.add_library_node<math::blas::GEMMNode>(
            blk, d, impl, prec,
            n.value("row", true) ? math::blas::BLAS_Layout::RowMajor : math::blas::BLAS_Layout::ColMajor,
            n.value("ta", false) ? math::blas::BLAS_Transpose::Trans : math::blas::BLAS_Transpose::No,
            n.value("tb", false) ? math::blas::BLAS_Transpose::Trans : math::blas::BLAS_Transpose::No, B(n["m"]), B(n["n"]), B(n["k"]),
            B(n["lda"]), B(n["ldb"]), B(n["ldc"]));
    throw std::runtime_error("library node " + k);
}

inline json Ds(const std::vector<sym::Expression>& v) {
    json a = json::array();
    for (auto& x : v) a.push_back(D(x));
    return a;
}
inline json conn(Dumper& d, const data_flow::Memlet& m, const data_flow::AccessNode& a) {
    if (auto* c = dynamic_cast<const data_flow::ConstantNode*>(&a)) {
        auto j = d.konst(*c);
        j["bt"] = "const";
        return j;
    }
    auto& bt = m.base_type();
    json j{{"c", a.data()}, {"k", false}};
    if (auto* t = dynamic_cast<const types::Tensor*>(&bt)) {
        if (!m.subset().empty() && !t->is_scalar()) throw Unsupported("tensor connection with subset");
        j["bt"] = "tensor";
        j["t"] = prim_name(t->primitive_type());
        j["shape"] = Ds(t->shape());
        j["strides"] = Ds(t->strides());
        j["off"] = D(t->offset());
        return j;
    }
    if (dynamic_cast<const types::Pointer*>(&bt) && m.subset().empty()) {
        auto& p = dynamic_cast<const types::Pointer&>(bt);
        j["bt"] = "ptr";
        j["t"] = p.has_pointee_type() ? leaf(p.pointee_type()) : "none";
        return j;
    }
    auto p = d.place(a.data(), bt, m.subset());
    for (auto& e : p.items()) j[e.key()] = e.value();
    j["bt"] = "place";
    return j;
}
inline json Dumper::lib(const data_flow::LibraryNode& n) {
    auto& g = n.get_parent();
    json o{{"op", "lib"}, {"in", json::object()}, {"out", json::object()}, {"id", n.element_id()}};
    std::string code = n.code().value();
    for (auto& m : g.in_edges(n)) o["in"][m.dst_conn()] = conn(*this, m, dynamic_cast<const data_flow::AccessNode&>(m.src()));
    for (auto& m : g.out_edges(n)) o["out"][m.src_conn()] = conn(*this, m, dynamic_cast<const data_flow::AccessNode&>(m.dst()));
    if (auto* x = dynamic_cast<const stdlib::MemcpyNode*>(&n)) { o["code"] = "memcpy"; o["count"] = D(x->count()); }
    else if (auto* x = dynamic_cast<const stdlib::MemmoveNode*>(&n)) { o["code"] = "memmove"; o["count"] = D(x->count()); }
    else if (auto* x = dynamic_cast<const stdlib::MemsetNode*>(&n)) { o["code"] = "memset"; o["value"] = D(x->value()); o["num"] = D(x->num()); }
    else if (auto* x = dynamic_cast<const stdlib::MallocNode*>(&n)) { o["code"] = "malloc"; o["size"] = D(x->size()); }
    else if (auto* x = dynamic_cast<const stdlib::AllocaNode*>(&n)) { o["code"] = "malloc"; o["size"] = D(x->size()); }
    else if (auto* x = dynamic_cast<const stdlib::CallocNode*>(&n)) { o["code"] = "calloc"; o["size"] = jmul(D(x->num()), D(x->size())); }
    else if (dynamic_cast<const stdlib::FreeNode*>(&n)) o["code"] = "free";
    else if (auto* x = dynamic_cast<const mt::CastNode*>(&n)) { o["code"] = "Cast"; o["shape"] = Ds(x->shape()); }
    else if (auto* x = dynamic_cast<const mt::TaskletTensorNode*>(&n)) { o["code"] = "Tasklet"; o["tl"] = tname(x->tasklet_code()); o["shape"] = Ds(x->shape()); o["ins"] = x->inputs(); }
#define X(N) else if (auto* x = dynamic_cast<const mt::N##Node*>(&n)) { o["code"] = #N; o["shape"] = Ds(x->shape()); }
    UNARY(X) BINARY(X)
#undef X
#define X(N) else if (auto* x = dynamic_cast<const mt::N##Node*>(&n)) { o["code"] = #N; o["shape"] = Ds(x->shape()); \
        json ax = json::array(); for (auto a : x->axes()) ax.push_back(a < 0 ? a + (int64_t) x->shape().size() : a); o["axes"] = ax; o["keep"] = x->keepdims(); }
    REDUCE(X)
#undef X
    else if (auto* x = dynamic_cast<const mt::TransposeNode*>(&n)) { o["code"] = "Transpose"; o["shape"] = Ds(x->shape()); o["perm"] = x->perm(); }
    else if (auto* x = dynamic_cast<const mt::BroadcastNode*>(&n)) { o["code"] = "Broadcast"; o["shape"] = Ds(x->input_shape()); o["oshape"] = Ds(x->output_shape()); }
    else if (auto* x = dynamic_cast<const mt::MatMulNode*>(&n)) {
        o["code"] = "MatMul"; o["sa"] = Ds(x->shape_a()); o["sb"] = Ds(x->shape_b());
    }
    else if (auto* x = dynamic_cast<const mt::ConvNode*>(&n)) {
        o["code"] = "Conv"; o["shape"] = Ds(x->shape()); o["kernel"] = Ds(x->kernel_shape()); o["strides"] = Ds(x->strides());
        o["pads"] = Ds(x->pads()); o["dil"] = Ds(x->dilations()); o["oc"] = D(x->output_channels()); o["group"] = D(x->group());
    }
    else if (auto* x = dynamic_cast<const math::blas::DotNode*>(&n)) { o["code"] = "DOT"; o["n"] = D(x->n()); o["incx"] = D(x->incx()); o["incy"] = D(x->incy()); }
    else if (auto* x = dynamic_cast<const math::blas::GEMMNode*>(&n)) {
        o["code"] = "GEMM"; o["m"] = D(x->m()); o["n"] = D(x->n()); o["k"] = D(x->k());
        o["lda"] = D(x->lda()); o["ldb"] = D(x->ldb()); o["ldc"] = D(x->ldc());
        o["row"] = x->layout() == math::blas::BLAS_Layout::RowMajor;
        o["ta"] = x->trans_a() != math::blas::BLAS_Transpose::No;
        o["tb"] = x->trans_b() != math::blas::BLAS_Transpose::No;
    }
    else if (auto* x = dynamic_cast<const math::cmath::CMathNode*>(&n)) {
        o["code"] = "cmath"; o["fn"] = math::cmath::cmath_function_to_stem(x->function()); o["ins"] = x->inputs();
    }
    else throw Unsupported("library node " + code);
    return o;
}
