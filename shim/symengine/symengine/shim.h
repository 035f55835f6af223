// A small stand-in for the part of SymEngine that daisytuner/docc uses (SymEngine itself is a git submodule that is not
// available offline).  It follows SymEngine's documented behaviour: canonical sums and products, structural equality,
// evaluation of relations between equal or constant operands, its printers and its expression syntax.
#pragma once
#include <atomic>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
#include <gmpxx.h>

namespace SymEngine {

typedef uint64_t hash_t;

class SymEngineException : public std::exception {
    std::string m_;
public:
    explicit SymEngineException(const std::string& m) : m_(m) {}
    const char* what() const noexcept override { return m_.c_str(); }
};
class NotImplementedError : public SymEngineException { using SymEngineException::SymEngineException; };
class DivisionByZeroError : public SymEngineException { using SymEngineException::SymEngineException; };
class ParseError : public SymEngineException { using SymEngineException::SymEngineException; };
class DomainError : public SymEngineException { using SymEngineException::SymEngineException; };

enum ENull { null };

template<class T> class RCP {
    T* p_;
    template<class U> friend class RCP;
    void inc() { if (p_) p_->refcount_.fetch_add(1, std::memory_order_relaxed); }
    void dec() { if (p_ && p_->refcount_.fetch_sub(1, std::memory_order_acq_rel) == 1) delete p_; }
public:
    RCP() : p_(nullptr) {}
    RCP(ENull) : p_(nullptr) {}
    explicit RCP(T* p) : p_(p) { inc(); }
    RCP(const RCP& o) : p_(o.p_) { inc(); }
    RCP(RCP&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> RCP(const RCP<U>& o) : p_(o.p_) { inc(); }
    ~RCP() { dec(); }
    RCP& operator=(const RCP& o) { RCP t(o); std::swap(p_, t.p_); return *this; }
    RCP& operator=(RCP&& o) noexcept { std::swap(p_, o.p_); return *this; }
    T* operator->() const { if (!p_) throw std::runtime_error("RCP: null dereference"); return p_; }
    T& operator*() const { if (!p_) throw std::runtime_error("RCP: null dereference"); return *p_; }
    T* get() const { return p_; }
    T* ptr() const { return p_; }
    bool is_null() const { return p_ == nullptr; }
    bool operator==(ENull) const { return p_ == nullptr; }
    bool operator!=(ENull) const { return p_ != nullptr; }
    template<class U> bool operator==(const RCP<U>& o) const { return p_ == o.get(); }
    template<class U> bool operator!=(const RCP<U>& o) const { return p_ != o.get(); }
    void reset() { *this = RCP(); }
};
template<class T> class Ptr {
    T* p_;
public:
    explicit Ptr(T* p) : p_(p) {}
    T& operator*() const { return *p_; }
    T* operator->() const { return p_; }
};
template<class T> Ptr<T> outArg(T& t) { return Ptr<T>(&t); }

template<class T, class... A> RCP<T> make_rcp(A&&... a) { return RCP<T>(new std::remove_const_t<T>(std::forward<A>(a)...)); }
template<class T, class U> RCP<T> rcp_static_cast(const RCP<U>& p) { return RCP<T>(static_cast<T*>(p.get())); }
template<class T, class U> RCP<T> rcp_dynamic_cast(const RCP<U>& p) {
    if (p.is_null()) return RCP<T>();
    T* q = dynamic_cast<T*>(p.get());
    if (!q) throw std::bad_cast();
    return RCP<T>(q);
}
template<class T, class U> T down_cast(U& u) { return static_cast<T>(u); }

enum TypeID {
    SYMENGINE_INTEGER, SYMENGINE_RATIONAL, SYMENGINE_COMPLEX, SYMENGINE_REAL_DOUBLE = 6, SYMENGINE_INFTY, SYMENGINE_NOT_A_NUMBER,
    SYMENGINE_NUMBER_WRAPPER = 13, SYMENGINE_SYMBOL = 16, SYMENGINE_DUMMY, SYMENGINE_MUL, SYMENGINE_ADD, SYMENGINE_POW, SYMENGINE_MEXPRPOLY = 30,
    SYMENGINE_CONSTANT = 33, SYMENGINE_FLOOR = 35, SYMENGINE_CEILING, SYMENGINE_ABS = 90, SYMENGINE_MAX, SYMENGINE_MIN, SYMENGINE_FUNCTIONSYMBOL = 100,
    SYMENGINE_BOOLEAN_ATOM = 110, SYMENGINE_NOT, SYMENGINE_AND, SYMENGINE_OR, SYMENGINE_XOR, SYMENGINE_EQUALITY, SYMENGINE_UNEQUALITY,
    SYMENGINE_LESSTHAN, SYMENGINE_STRICTLESSTHAN
};

class Visitor;
class Basic;
typedef std::vector<RCP<const Basic>> vec_basic;

class Basic {
public:
    mutable std::atomic<unsigned> refcount_{0};
    mutable std::atomic<hash_t> hash_{0};
    Basic() {}
    Basic(const Basic&) = delete;
    Basic& operator=(const Basic&) = delete;
    virtual ~Basic() {}
    virtual TypeID get_type_code() const = 0;
    virtual hash_t __hash__() const = 0;
    hash_t hash() const { hash_t h = hash_.load(std::memory_order_relaxed); if (!h) { h = __hash__(); hash_.store(h, std::memory_order_relaxed); } return h; }
    virtual bool __eq__(const Basic& o) const = 0;
    bool __neq__(const Basic& o) const { return !__eq__(o); }
    virtual int compare(const Basic& o) const = 0;
    int __cmp__(const Basic& o) const {
        auto a = get_type_code(), b = o.get_type_code();
        if (a == b) return compare(o);
        return a < b ? -1 : 1;
    }
    virtual vec_basic get_args() const = 0;
    virtual void accept(Visitor& v) const = 0;
    std::string __str__() const;
    RCP<const Basic> rcp_from_this() const { return RCP<const Basic>(this); }
    template<class T> RCP<const T> rcp_from_this_cast() const { return RCP<const T>(static_cast<const T*>(this)); }
    RCP<const Basic> subs(const std::map<RCP<const Basic>, RCP<const Basic>, struct RCPBasicKeyLess>& d) const;
};
inline bool eq(const Basic& a, const Basic& b) { return &a == &b || a.__eq__(b); }
inline bool neq(const Basic& a, const Basic& b) { return !eq(a, b); }
std::ostream& operator<<(std::ostream& o, const Basic& b);
template<class T> std::ostream& operator<<(std::ostream& o, const RCP<T>& b) { return o << b->__str__(); }

struct RCPBasicHash { template<class T> size_t operator()(const RCP<T>& k) const { return static_cast<size_t>(k->hash()); } };
struct RCPBasicKeyEq { template<class T, class U> bool operator()(const RCP<T>& x, const RCP<U>& y) const { return eq(*x, *y); } };
struct RCPBasicKeyLess {
    template<class T, class U> bool operator()(const RCP<T>& x, const RCP<U>& y) const {
        hash_t xh = x->hash(), yh = y->hash();
        if (xh != yh) return xh < yh;
        if (eq(*x, *y)) return false;
        return x->__cmp__(*y) == -1;
    }
};
class Number; class Integer; class Boolean; class Symbol;
typedef std::map<RCP<const Basic>, RCP<const Basic>, RCPBasicKeyLess> map_basic_basic;
typedef std::set<RCP<const Basic>, RCPBasicKeyLess> set_basic;
typedef std::set<RCP<const Boolean>, RCPBasicKeyLess> set_boolean;
typedef std::vector<RCP<const Boolean>> vec_boolean;
typedef std::vector<RCP<const Symbol>> vec_sym;
typedef std::unordered_map<RCP<const Basic>, RCP<const Number>, RCPBasicHash, RCPBasicKeyEq> umap_basic_num;
typedef mpz_class integer_class;
typedef mpq_class rational_class;

inline void hash_combine_raw(hash_t& seed, hash_t v) { seed ^= v + hash_t(0x9e3779b9) + (seed << 6) + (seed >> 2); }
hash_t hash_string(const std::string&);

#define SE_CLASS(ID) \
    static constexpr TypeID type_code_id = ID; \
    TypeID get_type_code() const override { return ID; } \
    void accept(Visitor& v) const override;

class Number : public Basic {
public:
    virtual bool is_zero() const = 0;
    virtual bool is_one() const = 0;
    virtual bool is_minus_one() const = 0;
    virtual bool is_negative() const = 0;
    virtual bool is_positive() const = 0;
    virtual bool is_exact() const { return true; }
    vec_basic get_args() const override { return {}; }
    RCP<const Number> add(const Number& o) const;
    RCP<const Number> sub(const Number& o) const;
    RCP<const Number> mul(const Number& o) const;
    RCP<const Number> div(const Number& o) const;
    RCP<const Number> pow(const Number& o) const;
};

class Integer : public Number {
    integer_class i_;
public:
    SE_CLASS(SYMENGINE_INTEGER)
    explicit Integer(integer_class i) : i_(std::move(i)) {}
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    long as_int() const { if (!i_.fits_slong_p()) throw SymEngineException("as_int: Integer larger than int"); return i_.get_si(); }
    unsigned long as_uint() const { if (!i_.fits_ulong_p()) throw SymEngineException("as_uint: Integer larger than uint"); return i_.get_ui(); }
    const integer_class& as_integer_class() const { return i_; }
    bool is_zero() const override { return i_ == 0; }
    bool is_one() const override { return i_ == 1; }
    bool is_minus_one() const override { return i_ == -1; }
    bool is_negative() const override { return i_ < 0; }
    bool is_positive() const override { return i_ > 0; }
};
class Rational : public Number {
    rational_class q_;
public:
    SE_CLASS(SYMENGINE_RATIONAL)
    explicit Rational(rational_class q) : q_(std::move(q)) {}
    static RCP<const Number> from_mpq(rational_class q);
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    const rational_class& as_rational_class() const { return q_; }
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return q_ < 0; }
    bool is_positive() const override { return q_ > 0; }
};
class RealDouble : public Number {
public:
    double i;
    SE_CLASS(SYMENGINE_REAL_DOUBLE)
    explicit RealDouble(double d) : i(d) {}
    double as_double() const { return i; }
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    bool is_zero() const override { return i == 0.0; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return i < 0; }
    bool is_positive() const override { return i > 0; }
    bool is_exact() const override { return false; }
};
class Infty : public Number {
    int dir_;
public:
    SE_CLASS(SYMENGINE_INFTY)
    explicit Infty(int dir) : dir_(dir) {}
    hash_t __hash__() const override { hash_t s = SYMENGINE_INFTY; hash_combine_raw(s, hash_t(dir_ + 5)); return s; }
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    bool is_positive_infinity() const { return dir_ > 0; }
    bool is_negative_infinity() const { return dir_ < 0; }
    bool is_unsigned_infinity() const { return dir_ == 0; }
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return dir_ < 0; }
    bool is_positive() const override { return dir_ > 0; }
    bool is_exact() const override { return false; }
};
class NaN : public Number {
public:
    SE_CLASS(SYMENGINE_NOT_A_NUMBER)
    hash_t __hash__() const override { return SYMENGINE_NOT_A_NUMBER + 1; }
    bool __eq__(const Basic& o) const override { return o.get_type_code() == SYMENGINE_NOT_A_NUMBER; }
    int compare(const Basic&) const override { return 0; }
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return false; }
    bool is_positive() const override { return false; }
    bool is_exact() const override { return false; }
};

class Symbol : public Basic {
    std::string name_;
public:
    SE_CLASS(SYMENGINE_SYMBOL)
    explicit Symbol(const std::string& n) : name_(n) {}
    hash_t __hash__() const override { hash_t s = SYMENGINE_SYMBOL; for (char c : name_) hash_combine_raw(s, hash_t(c)); return s; }
    bool __eq__(const Basic& o) const override { return o.get_type_code() == SYMENGINE_SYMBOL && static_cast<const Symbol&>(o).name_ == name_; }
    int compare(const Basic& o) const override { int c = name_.compare(static_cast<const Symbol&>(o).name_); return c == 0 ? 0 : c < 0 ? -1 : 1; }
    const std::string& get_name() const { return name_; }
    vec_basic get_args() const override { return {}; }
};
class Constant : public Basic {
    std::string name_;
public:
    SE_CLASS(SYMENGINE_CONSTANT)
    explicit Constant(const std::string& n) : name_(n) {}
    hash_t __hash__() const override { hash_t s = SYMENGINE_CONSTANT; hash_combine_raw(s, hash_string(name_)); return s; }
    bool __eq__(const Basic& o) const override { return o.get_type_code() == SYMENGINE_CONSTANT && static_cast<const Constant&>(o).name_ == name_; }
    int compare(const Basic& o) const override { int c = name_.compare(static_cast<const Constant&>(o).name_); return c == 0 ? 0 : c < 0 ? -1 : 1; }
    const std::string& get_name() const { return name_; }
    vec_basic get_args() const override { return {}; }
};

class Add : public Basic {
    RCP<const Number> coef_;
    umap_basic_num dict_;
public:
    SE_CLASS(SYMENGINE_ADD)
    Add(const RCP<const Number>& c, umap_basic_num&& d) : coef_(c), dict_(std::move(d)) {}
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override;
    const RCP<const Number>& get_coef() const { return coef_; }
    const umap_basic_num& get_dict() const { return dict_; }
    static RCP<const Basic> from_dict(const RCP<const Number>& coef, umap_basic_num&& d);
    static void dict_add_term(umap_basic_num& d, const RCP<const Number>& coef, const RCP<const Basic>& t);
    static void coef_dict_add_term(RCP<const Number>& coef, umap_basic_num& d, const RCP<const Number>& c, const RCP<const Basic>& term);
    static void as_coef_term(const RCP<const Basic>& self, RCP<const Number>& coef, RCP<const Basic>& term);
};
class Mul : public Basic {
    RCP<const Number> coef_;
    map_basic_basic dict_;
public:
    SE_CLASS(SYMENGINE_MUL)
    Mul(const RCP<const Number>& c, map_basic_basic&& d) : coef_(c), dict_(std::move(d)) {}
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override;
    const RCP<const Number>& get_coef() const { return coef_; }
    const map_basic_basic& get_dict() const { return dict_; }
    static RCP<const Basic> from_dict(const RCP<const Number>& coef, map_basic_basic&& d);
    static void dict_add_term(RCP<const Number>& coef, map_basic_basic& d, const RCP<const Basic>& exp, const RCP<const Basic>& t);
};
class Pow : public Basic {
    RCP<const Basic> base_, exp_;
public:
    SE_CLASS(SYMENGINE_POW)
    Pow(const RCP<const Basic>& b, const RCP<const Basic>& e) : base_(b), exp_(e) {}
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return {base_, exp_}; }
    const RCP<const Basic>& get_base() const { return base_; }
    const RCP<const Basic>& get_exp() const { return exp_; }
};

class Function : public Basic {};
class MultiArgFunction : public Function {
    vec_basic arg_;
public:
    explicit MultiArgFunction(const vec_basic& a) : arg_(a) {}
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return arg_; }
    const vec_basic& get_vec() const { return arg_; }
    virtual RCP<const Basic> create(const vec_basic& v) const = 0;
};
class Max : public MultiArgFunction {
public:
    SE_CLASS(SYMENGINE_MAX)
    explicit Max(const vec_basic& a) : MultiArgFunction(a) {}
    RCP<const Basic> create(const vec_basic& v) const override;
};
class Min : public MultiArgFunction {
public:
    SE_CLASS(SYMENGINE_MIN)
    explicit Min(const vec_basic& a) : MultiArgFunction(a) {}
    RCP<const Basic> create(const vec_basic& v) const override;
};
class Ceiling : public MultiArgFunction {
public:
    SE_CLASS(SYMENGINE_CEILING)
    explicit Ceiling(const RCP<const Basic>& a) : MultiArgFunction({a}) {}
    RCP<const Basic> get_arg() const { return get_vec()[0]; }
    RCP<const Basic> create(const vec_basic& v) const override;
};
class Floor : public MultiArgFunction {
public:
    SE_CLASS(SYMENGINE_FLOOR)
    explicit Floor(const RCP<const Basic>& a) : MultiArgFunction({a}) {}
    RCP<const Basic> get_arg() const { return get_vec()[0]; }
    RCP<const Basic> create(const vec_basic& v) const override;
};
class Abs : public MultiArgFunction {
public:
    SE_CLASS(SYMENGINE_ABS)
    explicit Abs(const RCP<const Basic>& a) : MultiArgFunction({a}) {}
    RCP<const Basic> get_arg() const { return get_vec()[0]; }
    RCP<const Basic> create(const vec_basic& v) const override;
};
class FunctionSymbol : public MultiArgFunction {
protected:
    std::string name_;
public:
    SE_CLASS(SYMENGINE_FUNCTIONSYMBOL)
    FunctionSymbol(const std::string& n, const vec_basic& a) : MultiArgFunction(a), name_(n) {}
    FunctionSymbol(const std::string& n, const RCP<const Basic>& a) : MultiArgFunction({a}), name_(n) {}
    hash_t __hash__() const override;
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    const std::string& get_name() const { return name_; }
    RCP<const Basic> create(const vec_basic& v) const override;
};

class Boolean : public Basic {
public:
    virtual RCP<const Boolean> logical_not() const;
};
class BooleanAtom : public Boolean {
    bool b_;
public:
    SE_CLASS(SYMENGINE_BOOLEAN_ATOM)
    explicit BooleanAtom(bool b) : b_(b) {}
    hash_t __hash__() const override { hash_t s = SYMENGINE_BOOLEAN_ATOM; if (b_) ++s; return s; }
    bool __eq__(const Basic& o) const override { return o.get_type_code() == SYMENGINE_BOOLEAN_ATOM && static_cast<const BooleanAtom&>(o).b_ == b_; }
    int compare(const Basic& o) const override { return int(b_) - int(static_cast<const BooleanAtom&>(o).b_); }
    vec_basic get_args() const override { return {}; }
    bool get_val() const { return b_; }
    RCP<const Boolean> logical_not() const override;
};
class Not : public Boolean {
    RCP<const Boolean> arg_;
public:
    SE_CLASS(SYMENGINE_NOT)
    explicit Not(const RCP<const Boolean>& a) : arg_(a) {}
    hash_t __hash__() const override { hash_t s = SYMENGINE_NOT; hash_combine_raw(s, arg_->hash()); return s; }
    bool __eq__(const Basic& o) const override { return o.get_type_code() == SYMENGINE_NOT && eq(*arg_, *static_cast<const Not&>(o).arg_); }
    int compare(const Basic& o) const override { return arg_->__cmp__(*static_cast<const Not&>(o).arg_); }
    vec_basic get_args() const override { return {arg_}; }
    RCP<const Boolean> get_arg() const { return arg_; }
    RCP<const Boolean> logical_not() const override { return arg_; }
};
class BoolSet : public Boolean {
protected:
    set_boolean c_;
public:
    explicit BoolSet(const set_boolean& c) : c_(c) {}
    hash_t __hash__() const override { hash_t s = get_type_code(); for (auto& a : c_) hash_combine_raw(s, a->hash()); return s; }
    bool __eq__(const Basic& o) const override;
    int compare(const Basic& o) const override;
    vec_basic get_args() const override { return vec_basic(c_.begin(), c_.end()); }
    const set_boolean& get_container() const { return c_; }
};
class And : public BoolSet {
public:
    SE_CLASS(SYMENGINE_AND)
    using BoolSet::BoolSet;
    RCP<const Boolean> logical_not() const override;
};
class Or : public BoolSet {
public:
    SE_CLASS(SYMENGINE_OR)
    using BoolSet::BoolSet;
    RCP<const Boolean> logical_not() const override;
};
class Relational : public Boolean {
protected:
    RCP<const Basic> a_, b_;
public:
    Relational(const RCP<const Basic>& a, const RCP<const Basic>& b) : a_(a), b_(b) {}
    hash_t __hash__() const override { hash_t s = get_type_code(); hash_combine_raw(s, a_->hash()); hash_combine_raw(s, b_->hash()); return s; }
    bool __eq__(const Basic& o) const override {
        if (o.get_type_code() != get_type_code()) return false;
        auto& r = static_cast<const Relational&>(o);
        return eq(*a_, *r.a_) && eq(*b_, *r.b_);
    }
    int compare(const Basic& o) const override {
        auto& r = static_cast<const Relational&>(o);
        if (neq(*a_, *r.a_)) return a_->__cmp__(*r.a_);
        return b_->__cmp__(*r.b_);
    }
    vec_basic get_args() const override { return {a_, b_}; }
    RCP<const Basic> get_arg1() const { return a_; }
    RCP<const Basic> get_arg2() const { return b_; }
};
#define SE_REL(N, ID) class N : public Relational { public: SE_CLASS(ID) using Relational::Relational; RCP<const Boolean> logical_not() const override; };
SE_REL(Equality, SYMENGINE_EQUALITY)
SE_REL(Unequality, SYMENGINE_UNEQUALITY)
SE_REL(LessThan, SYMENGINE_LESSTHAN)
SE_REL(StrictLessThan, SYMENGINE_STRICTLESSTHAN)
#undef SE_REL

class Expression {
    RCP<const Basic> m_;
public:
    Expression();
    template<class T, class = std::enable_if_t<std::is_integral_v<T>>, class = void> Expression(T i) : m_(make_rcp<const Integer>(integer_class(static_cast<long>(i)))) {}
    Expression(const std::string& s);
    Expression(const RCP<const Basic>& b) : m_(b) {}
    template<class T, class = std::enable_if_t<std::is_base_of_v<Basic, T>>> Expression(const RCP<T>& b) : m_(b) {}
    operator RCP<const Basic>() const { return m_; }
    const RCP<const Basic>& get_basic() const { return m_; }
};
struct vec_int_less { bool operator()(const std::vector<int>& a, const std::vector<int>& b) const { return a < b; } };
class MExprDict {
public:
    std::map<std::vector<int>, RCP<const Basic>, vec_int_less> dict_;
    const std::map<std::vector<int>, RCP<const Basic>, vec_int_less>& get_dict() const { return dict_; }
};
class MExprPoly : public Basic {
    MExprDict p_;
    set_basic gens_;
public:
    SE_CLASS(SYMENGINE_MEXPRPOLY)
    MExprPoly(MExprDict p, set_basic g) : p_(std::move(p)), gens_(std::move(g)) {}
    hash_t __hash__() const override { return SYMENGINE_MEXPRPOLY; }
    bool __eq__(const Basic& o) const override { return this == &o; }
    int compare(const Basic& o) const override { return this < &o ? -1 : this == &o ? 0 : 1; }
    vec_basic get_args() const override { return {}; }
    const MExprDict& get_poly() const { return p_; }
    const set_basic& get_vars() const { return gens_; }
};
RCP<const MExprPoly> mexpr_from_basic(const RCP<const Basic>& b, const set_basic& gens);
template<class P> RCP<const P> from_basic(const RCP<const Basic>& b, const set_basic& gens, bool = false) { return mexpr_from_basic(b, gens); }

#define SE_ALL(X) X(Integer) X(Rational) X(RealDouble) X(Infty) X(NaN) X(Symbol) X(Constant) X(Add) X(Mul) X(Pow) X(Max) X(Min) \
    X(Ceiling) X(Floor) X(Abs) X(FunctionSymbol) X(BooleanAtom) X(Not) X(And) X(Or) X(Equality) X(Unequality) X(LessThan) \
    X(StrictLessThan) X(MExprPoly)
class Visitor {
public:
    virtual ~Visitor() {}
#define X(T) virtual void visit(const T&) = 0;
    SE_ALL(X)
#undef X
};
template<class Derived, class Base = Visitor> class BaseVisitor : public Base {
public:
    template<typename... A> BaseVisitor(A&&... a) : Base(std::forward<A>(a)...) {}
#define X(T) void visit(const T& x) override { static_cast<Derived*>(this)->bvisit(x); }
    SE_ALL(X)
#undef X
};

class StrPrinter : public BaseVisitor<StrPrinter> {
protected:
    std::string str_;
    virtual void _print_pow(std::ostringstream& o, const RCP<const Basic>& a, const RCP<const Basic>& b);
    std::string parenthesizeLT(const RCP<const Basic>& x, int prec);
    std::string parenthesizeLE(const RCP<const Basic>& x, int prec);
public:
    StrPrinter() {}
    std::string parenthesize(const std::string& s) { return "(" + s + ")"; }
    std::string apply(const RCP<const Basic>& b) { b->accept(*this); return str_; }
    std::string apply(const Basic& b) { b.accept(*this); return str_; }
    std::string apply(const vec_basic& v);
    void bvisit(const Basic& x);
    void bvisit(const Integer& x);
    void bvisit(const Rational& x);
    void bvisit(const RealDouble& x);
    void bvisit(const Infty& x);
    void bvisit(const NaN& x);
    void bvisit(const Symbol& x);
    void bvisit(const Constant& x);
    void bvisit(const Add& x);
    void bvisit(const Mul& x);
    void bvisit(const Pow& x);
    void bvisit(const Max& x);
    void bvisit(const Min& x);
    void bvisit(const Ceiling& x);
    void bvisit(const Floor& x);
    void bvisit(const Abs& x);
    void bvisit(const FunctionSymbol& x);
    void bvisit(const BooleanAtom& x);
    void bvisit(const Not& x);
    void bvisit(const And& x);
    void bvisit(const Or& x);
    void bvisit(const Equality& x);
    void bvisit(const Unequality& x);
    void bvisit(const LessThan& x);
    void bvisit(const StrictLessThan& x);
};
class CodePrinter : public BaseVisitor<CodePrinter, StrPrinter> {
public:
    using StrPrinter::apply;
    using StrPrinter::bvisit;
    using StrPrinter::str_;
    CodePrinter() {}
};

template<class T> bool is_a(const Basic& b) {
    return b.get_type_code() == T::type_code_id;
}
template<> inline bool is_a<Number>(const Basic& b) { return b.get_type_code() <= SYMENGINE_NOT_A_NUMBER; }
inline bool is_a_Number(const Basic& b) { return b.get_type_code() <= SYMENGINE_NOT_A_NUMBER; }
inline bool is_a_Boolean(const Basic& b) { return b.get_type_code() >= SYMENGINE_BOOLEAN_ATOM; }
inline bool is_a_Relational(const Basic& b) { return b.get_type_code() >= SYMENGINE_EQUALITY; }
template<class T> bool is_a_sub(const Basic& b) { return dynamic_cast<const T*>(&b) != nullptr; }

inline const RCP<const Integer> zero = make_rcp<const Integer>(integer_class(0)), one = make_rcp<const Integer>(integer_class(1)),
    minus_one = make_rcp<const Integer>(integer_class(-1)), two = make_rcp<const Integer>(integer_class(2));
inline const RCP<const Infty> Inf = make_rcp<const Infty>(1), NegInf = make_rcp<const Infty>(-1), ComplexInf = make_rcp<const Infty>(0);
inline const RCP<const NaN> Nan = make_rcp<const NaN>();
inline const RCP<const BooleanAtom> boolTrue = make_rcp<const BooleanAtom>(true), boolFalse = make_rcp<const BooleanAtom>(false);
inline const RCP<const Constant> E = make_rcp<const Constant>("E"), pi = make_rcp<const Constant>("pi");

inline RCP<const Symbol> symbol(const std::string& n) { return make_rcp<const Symbol>(n); }
template<class I, class = std::enable_if_t<std::is_integral_v<I>>> RCP<const Integer> integer(I i) {
    if constexpr (std::is_signed_v<I>) return make_rcp<const Integer>(integer_class(static_cast<long>(i)));
    else return make_rcp<const Integer>(integer_class(static_cast<unsigned long>(i)));
}
inline RCP<const Integer> integer(integer_class i) { return make_rcp<const Integer>(std::move(i)); }
RCP<const Number> rational(long n, long d);
inline RCP<const RealDouble> real_double(double d) { return make_rcp<const RealDouble>(d); }
RCP<const Infty> infty(int dir = 1);
inline RCP<const BooleanAtom> boolean(bool b) { return b ? boolTrue : boolFalse; }

RCP<const Basic> add(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> add(const vec_basic& a);
RCP<const Basic> sub(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> mul(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> mul(const vec_basic& a);
RCP<const Basic> div(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> neg(const RCP<const Basic>& a);
RCP<const Basic> pow(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> max(const vec_basic& a);
RCP<const Basic> min(const vec_basic& a);
RCP<const Basic> ceiling(const RCP<const Basic>& a);
RCP<const Basic> floor(const RCP<const Basic>& a);
RCP<const Basic> abs(const RCP<const Basic>& a);
RCP<const Basic> function_symbol(const std::string& n, const vec_basic& a);
RCP<const Basic> function_symbol(const std::string& n, const RCP<const Basic>& a);
RCP<const Boolean> Eq(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Ne(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Le(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Lt(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Ge(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Gt(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> logical_and(const set_boolean& s);
RCP<const Boolean> logical_or(const set_boolean& s);
RCP<const Boolean> logical_not(const RCP<const Boolean>& s);
RCP<const Basic> expand(const RCP<const Basic>& a, bool deep = true);
RCP<const Basic> simplify(const RCP<const Basic>& a);
RCP<const Basic> subs(const RCP<const Basic>& a, const map_basic_basic& d);
RCP<const Basic> parse(const std::string& s);
void as_numer_denom(const RCP<const Basic>& x, const Ptr<RCP<const Basic>>& n, const Ptr<RCP<const Basic>>& d);
set_basic free_symbols(const Basic& b);
bool has_symbol(const Basic& b, const Basic& x);
void collect_atoms(const RCP<const Basic>& b, set_basic& out, bool (*pred)(const Basic&));
template<class T> bool atom_pred(const Basic& b) {
    if constexpr (std::is_same_v<std::remove_const_t<T>, Basic>) return true;
    else return is_a<std::remove_const_t<T>>(b);
}
template<class... T> set_basic atoms(const Basic& b) {
    set_basic out;
    (collect_atoms(b.rcp_from_this(), out, &atom_pred<T>), ...);
    return out;
}
std::string str(const Basic& b);

} // namespace SymEngine
