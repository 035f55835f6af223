#include <symengine/shim.h>
#include <cmath>
#include <cctype>
#include <algorithm>

namespace SymEngine {

#define X(T) void T::accept(Visitor& v) const { v.visit(*this); }
SE_ALL(X)
#undef X

hash_t hash_string(const std::string& s) { hash_t h = 0; for (char c : s) hash_combine_raw(h, hash_t(c)); return h; }
std::string str(const Basic& b) { StrPrinter p; return p.apply(b); }
std::string Basic::__str__() const { return str(*this); }
std::ostream& operator<<(std::ostream& o, const Basic& b) { return o << b.__str__(); }
RCP<const Basic> Basic::subs(const map_basic_basic& d) const { return SymEngine::subs(rcp_from_this(), d); }

// ---- numbers --------------------------------------------------------------------------------------------------------
hash_t Integer::__hash__() const { hash_t s = SYMENGINE_INTEGER; hash_combine_raw(s, hash_t(mpz_get_si(i_.get_mpz_t()))); return s; }
bool Integer::__eq__(const Basic& o) const { return o.get_type_code() == SYMENGINE_INTEGER && static_cast<const Integer&>(o).i_ == i_; }
int Integer::compare(const Basic& o) const { int c = cmp(i_, static_cast<const Integer&>(o).i_); return c == 0 ? 0 : c < 0 ? -1 : 1; }
hash_t Rational::__hash__() const { hash_t s = SYMENGINE_RATIONAL; hash_combine_raw(s, hash_string(q_.get_str())); return s; }
bool Rational::__eq__(const Basic& o) const { return o.get_type_code() == SYMENGINE_RATIONAL && static_cast<const Rational&>(o).q_ == q_; }
int Rational::compare(const Basic& o) const { int c = cmp(q_, static_cast<const Rational&>(o).q_); return c == 0 ? 0 : c < 0 ? -1 : 1; }
RCP<const Number> Rational::from_mpq(rational_class q) {
    q.canonicalize();
    if (q.get_den() == 1) return make_rcp<const Integer>(integer_class(q.get_num()));
    return make_rcp<const Rational>(q);
}
hash_t RealDouble::__hash__() const { hash_t s = SYMENGINE_REAL_DOUBLE; hash_combine_raw(s, std::hash<double>()(i)); return s; }
bool RealDouble::__eq__(const Basic& o) const { return o.get_type_code() == SYMENGINE_REAL_DOUBLE && static_cast<const RealDouble&>(o).i == i; }
int RealDouble::compare(const Basic& o) const { double d = static_cast<const RealDouble&>(o).i; return i == d ? 0 : i < d ? -1 : 1; }
bool Infty::__eq__(const Basic& o) const { return o.get_type_code() == SYMENGINE_INFTY && static_cast<const Infty&>(o).dir_ == dir_; }
int Infty::compare(const Basic& o) const { int d = static_cast<const Infty&>(o).dir_; return dir_ == d ? 0 : dir_ < d ? -1 : 1; }
RCP<const Infty> infty(int d) { return d > 0 ? Inf : d < 0 ? NegInf : ComplexInf; }
RCP<const Number> rational(long n, long d) {
    if (d == 0) throw DivisionByZeroError("Division By Zero");
    return Rational::from_mpq(rational_class(integer_class(n), integer_class(d)));
}

namespace {
typedef RCP<const Number> Num;
rational_class q_of(const Number& n) {
    if (is_a<Integer>(n)) return rational_class(static_cast<const Integer&>(n).as_integer_class());
    return static_cast<const Rational&>(n).as_rational_class();
}
double d_of(const Number& n) { return is_a<RealDouble>(n) ? static_cast<const RealDouble&>(n).i : q_of(n).get_d(); }
Num self(const Number& n) { return Num(&n); }
int sgn_of(const Number& n) { return n.is_zero() ? 0 : n.is_negative() ? -1 : 1; }
}
RCP<const Number> Number::add(const Number& o) const {
    if (is_a<NaN>(*this) || is_a<NaN>(o)) return Nan;
    if (is_a<Infty>(*this) || is_a<Infty>(o)) {
        if (is_a<Infty>(*this) && is_a<Infty>(o)) {
            if (eq(*this, o) && !static_cast<const Infty&>(o).is_unsigned_infinity()) return self(*this);
            return Nan;
        }
        return is_a<Infty>(*this) ? self(*this) : self(o);
    }
    if (is_a<RealDouble>(*this) || is_a<RealDouble>(o)) return make_rcp<const RealDouble>(d_of(*this) + d_of(o));
    return Rational::from_mpq(q_of(*this) + q_of(o));
}
RCP<const Number> Number::mul(const Number& o) const {
    if (is_a<NaN>(*this) || is_a<NaN>(o)) return Nan;
    if (is_a<Infty>(*this) || is_a<Infty>(o)) {
        int s = sgn_of(*this) * sgn_of(o);
        if (is_zero() || o.is_zero()) return Nan;
        return infty(s);
    }
    if (is_a<RealDouble>(*this) || is_a<RealDouble>(o)) return make_rcp<const RealDouble>(d_of(*this) * d_of(o));
    return Rational::from_mpq(q_of(*this) * q_of(o));
}
RCP<const Number> Number::sub(const Number& o) const { return add(*o.mul(*minus_one)); }
RCP<const Number> Number::div(const Number& o) const {
    if (is_a<NaN>(*this) || is_a<NaN>(o)) return Nan;
    if (is_a<Infty>(o)) { if (is_a<Infty>(*this)) return Nan; return zero; }
    if (o.is_zero()) { if (is_zero()) return Nan; return ComplexInf; }
    if (is_a<Infty>(*this)) return infty(sgn_of(*this) * sgn_of(o));
    if (is_a<RealDouble>(*this) || is_a<RealDouble>(o)) return make_rcp<const RealDouble>(d_of(*this) / d_of(o));
    return Rational::from_mpq(q_of(*this) / q_of(o));
}
RCP<const Number> Number::pow(const Number& o) const {
    if (is_a<Integer>(o)) {
        long e = static_cast<const Integer&>(o).as_int();
        Num r = one, b = self(*this);
        for (unsigned long k = e < 0 ? -e : e; k; k >>= 1) { if (k & 1) r = r->mul(*b); if (k > 1) b = b->mul(*b); }
        return e < 0 ? one->div(*r) : r;
    }
    return make_rcp<const RealDouble>(std::pow(d_of(*this), d_of(o)));
}
static Num num(const RCP<const Basic>& b) { return rcp_static_cast<const Number>(b); }

// ---- Add, Mul, Pow --------------------------------------------------------------------------------------------------
hash_t Add::__hash__() const {
    hash_t s = SYMENGINE_ADD, t; hash_combine_raw(s, coef_->hash());
    for (auto& p : dict_) { t = p.first->hash(); hash_combine_raw(t, p.second->hash()); s ^= t; }
    return s;
}
static bool umap_eq(const umap_basic_num& a, const umap_basic_num& b) {
    if (a.size() != b.size()) return false;
    for (auto& p : a) { auto it = b.find(p.first); if (it == b.end() || neq(*it->second, *p.second)) return false; }
    return true;
}
static int map_cmp(const map_basic_basic& a, const map_basic_basic& b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    auto i = a.begin(); auto j = b.begin();
    for (; i != a.end(); ++i, ++j) {
        if (neq(*i->first, *j->first)) return i->first->__cmp__(*j->first);
        if (neq(*i->second, *j->second)) return i->second->__cmp__(*j->second);
    }
    return 0;
}
bool Add::__eq__(const Basic& o) const {
    if (!is_a<Add>(o)) return false;
    auto& a = static_cast<const Add&>(o);
    return eq(*coef_, *a.coef_) && umap_eq(dict_, a.dict_);
}
int Add::compare(const Basic& o) const {
    auto& a = static_cast<const Add&>(o);
    if (dict_.size() != a.dict_.size()) return dict_.size() < a.dict_.size() ? -1 : 1;
    if (neq(*coef_, *a.coef_)) return coef_->__cmp__(*a.coef_);
    map_basic_basic x, y;
    for (auto& p : dict_) x[p.first] = p.second;
    for (auto& p : a.dict_) y[p.first] = p.second;
    return map_cmp(x, y);
}
vec_basic Add::get_args() const {
    vec_basic r;
    if (!coef_->is_zero()) r.push_back(coef_);
    for (auto& p : dict_) {
        if (eq(*p.second, *one)) r.push_back(p.first);
        else r.push_back(from_dict(zero, {{p.first, p.second}}));
    }
    return r;
}
void Add::dict_add_term(umap_basic_num& d, const Num& coef, const RCP<const Basic>& t) {
    auto it = d.find(t);
    if (it == d.end()) { if (!coef->is_zero()) d.insert({t, coef}); return; }
    Num n = it->second->add(*coef);
    if (n->is_zero()) d.erase(it); else it->second = n;
}
void Add::as_coef_term(const RCP<const Basic>& s, Num& coef, RCP<const Basic>& term) {
    if (is_a<Mul>(*s)) {
        auto& m = static_cast<const Mul&>(*s);
        if (neq(*m.get_coef(), *one)) { coef = m.get_coef(); map_basic_basic d = m.get_dict(); term = Mul::from_dict(one, std::move(d)); return; }
        coef = one; term = s;
    } else if (is_a_Number(*s)) { coef = num(s); term = one; }
    else { coef = one; term = s; }
}
void Add::coef_dict_add_term(Num& coef, umap_basic_num& d, const Num& c, const RCP<const Basic>& term) {
    if (is_a_Number(*term)) coef = coef->add(*c->mul(*num(term)));
    else if (is_a<Add>(*term)) {
        if (c->is_one()) {
            for (auto& q : static_cast<const Add&>(*term).dict_) dict_add_term(d, q.second, q.first);
            coef = coef->add(*static_cast<const Add&>(*term).coef_);
        } else dict_add_term(d, c, term);
    } else {
        Num c2; RCP<const Basic> t;
        as_coef_term(SymEngine::mul(c, term), c2, t);
        if (is_a_Number(*t)) coef = coef->add(*c2->mul(*num(t)));
        else dict_add_term(d, c2, t);
    }
}
RCP<const Basic> Add::from_dict(const Num& coef, umap_basic_num&& d) {
    if (d.empty()) return coef;
    if (d.size() == 1 && coef->is_zero()) {
        auto p = *d.begin();
        if (p.second->is_one()) return p.first;
        if (is_a<Mul>(*p.first)) { map_basic_basic m = static_cast<const Mul&>(*p.first).get_dict(); return Mul::from_dict(p.second->mul(*static_cast<const Mul&>(*p.first).get_coef()), std::move(m)); }
        map_basic_basic m;
        if (is_a<Pow>(*p.first)) m[static_cast<const Pow&>(*p.first).get_base()] = static_cast<const Pow&>(*p.first).get_exp();
        else m[p.first] = one;
        return make_rcp<const Mul>(p.second, std::move(m));
    }
    return make_rcp<const Add>(coef, std::move(d));
}
static void add_into(Num& coef, umap_basic_num& d, const RCP<const Basic>& a) {
    if (is_a<Add>(*a)) {
        for (auto& q : static_cast<const Add&>(*a).get_dict()) Add::dict_add_term(d, q.second, q.first);
        coef = coef->add(*static_cast<const Add&>(*a).get_coef());
    } else if (is_a_Number(*a)) coef = coef->add(*num(a));
    else { Num c; RCP<const Basic> t; Add::as_coef_term(a, c, t); Add::dict_add_term(d, c, t); }
}
RCP<const Basic> add(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    Num coef = zero; umap_basic_num d;
    add_into(coef, d, a); add_into(coef, d, b);
    return Add::from_dict(coef, std::move(d));
}
RCP<const Basic> add(const vec_basic& v) {
    Num coef = zero; umap_basic_num d;
    for (auto& a : v) add_into(coef, d, a);
    return Add::from_dict(coef, std::move(d));
}
RCP<const Basic> sub(const RCP<const Basic>& a, const RCP<const Basic>& b) { return add(a, mul(minus_one, b)); }
RCP<const Basic> neg(const RCP<const Basic>& a) { return mul(minus_one, a); }

hash_t Mul::__hash__() const {
    hash_t s = SYMENGINE_MUL; hash_combine_raw(s, coef_->hash());
    for (auto& p : dict_) { hash_combine_raw(s, p.first->hash()); hash_combine_raw(s, p.second->hash()); }
    return s;
}
bool Mul::__eq__(const Basic& o) const {
    if (!is_a<Mul>(o)) return false;
    auto& m = static_cast<const Mul&>(o);
    return eq(*coef_, *m.coef_) && map_cmp(dict_, m.dict_) == 0;
}
int Mul::compare(const Basic& o) const {
    auto& m = static_cast<const Mul&>(o);
    if (dict_.size() != m.dict_.size()) return dict_.size() < m.dict_.size() ? -1 : 1;
    if (neq(*coef_, *m.coef_)) return coef_->__cmp__(*m.coef_);
    return map_cmp(dict_, m.dict_);
}
vec_basic Mul::get_args() const {
    vec_basic r;
    if (!coef_->is_one()) r.push_back(coef_);
    for (auto& p : dict_) {
        if (eq(*p.second, *one)) r.push_back(p.first);
        else r.push_back(make_rcp<const Pow>(p.first, p.second));
    }
    return r;
}
void Mul::dict_add_term(Num& coef, map_basic_basic& d, const RCP<const Basic>& exp, const RCP<const Basic>& t) {
    auto it = d.find(t);
    RCP<const Basic> e = it == d.end() ? exp : add(it->second, exp);
    if (it != d.end()) d.erase(it);
    if (is_a_Number(*e) && num(e)->is_zero()) return;
    if (is_a_Number(*t) && is_a<Integer>(*e)) { coef = coef->mul(*num(t)->pow(*num(e))); return; }
    d[t] = e;
}
RCP<const Basic> Mul::from_dict(const Num& coef, map_basic_basic&& d) {
    if (coef->is_zero() || is_a<NaN>(*coef)) return coef;
    if (d.empty()) return coef;
    if (d.size() == 1 && coef->is_one()) {
        auto p = *d.begin();
        if (is_a_Number(*p.second) && num(p.second)->is_one()) return p.first;
        return make_rcp<const Pow>(p.first, p.second);
    }
    return make_rcp<const Mul>(coef, std::move(d));
}
static void mul_into(Num& coef, map_basic_basic& d, const RCP<const Basic>& a) {
    if (is_a<Mul>(*a)) {
        auto& m = static_cast<const Mul&>(*a);
        for (auto& p : m.get_dict()) Mul::dict_add_term(coef, d, p.second, p.first);
        coef = coef->mul(*m.get_coef());
    } else if (is_a_Number(*a)) coef = coef->mul(*num(a));
    else if (is_a<Pow>(*a)) Mul::dict_add_term(coef, d, static_cast<const Pow&>(*a).get_exp(), static_cast<const Pow&>(*a).get_base());
    else Mul::dict_add_term(coef, d, one, a);
}
RCP<const Basic> mul(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    Num coef = one; map_basic_basic d;
    mul_into(coef, d, a); mul_into(coef, d, b);
    return Mul::from_dict(coef, std::move(d));
}
RCP<const Basic> mul(const vec_basic& v) {
    Num coef = one; map_basic_basic d;
    for (auto& a : v) mul_into(coef, d, a);
    return Mul::from_dict(coef, std::move(d));
}
RCP<const Basic> div(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a_Number(*b) && num(b)->is_zero()) {
        if (is_a_Number(*a)) return num(a)->div(*num(b));
        return mul(a, ComplexInf);
    }
    if (is_a_Number(*a) && is_a_Number(*b)) return num(a)->div(*num(b));
    return mul(a, pow(b, minus_one));
}

hash_t Pow::__hash__() const { hash_t s = SYMENGINE_POW; hash_combine_raw(s, base_->hash()); hash_combine_raw(s, exp_->hash()); return s; }
bool Pow::__eq__(const Basic& o) const { return is_a<Pow>(o) && eq(*base_, *static_cast<const Pow&>(o).base_) && eq(*exp_, *static_cast<const Pow&>(o).exp_); }
int Pow::compare(const Basic& o) const {
    auto& p = static_cast<const Pow&>(o);
    if (neq(*base_, *p.base_)) return base_->__cmp__(*p.base_);
    return exp_->__cmp__(*p.exp_);
}
RCP<const Basic> pow(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a_Number(*b) && num(b)->is_zero()) return one;
    if (is_a_Number(*b) && num(b)->is_one()) return a;
    if (is_a<Integer>(*a) && (num(a)->is_one())) return one;
    if (is_a<Integer>(*a) && num(a)->is_zero() && is_a_Number(*b) && num(b)->is_positive()) return zero;
    if (is_a_Number(*a) && is_a<Integer>(*b)) return num(a)->pow(*num(b));
    if (is_a_Number(*a) && is_a<RealDouble>(*b)) return num(a)->pow(*num(b));
    if (is_a<Integer>(*b)) {
        if (is_a<Mul>(*a)) {
            auto& m = static_cast<const Mul&>(*a);
            Num coef = m.get_coef()->pow(*num(b)); map_basic_basic d;
            for (auto& p : m.get_dict()) Mul::dict_add_term(coef, d, mul(p.second, b), p.first);
            return Mul::from_dict(coef, std::move(d));
        }
        if (is_a<Pow>(*a)) return pow(static_cast<const Pow&>(*a).get_base(), mul(static_cast<const Pow&>(*a).get_exp(), b));
    }
    return make_rcp<const Pow>(a, b);
}

// ---- functions ------------------------------------------------------------------------------------------------------
hash_t MultiArgFunction::__hash__() const { hash_t s = get_type_code(); for (auto& a : arg_) hash_combine_raw(s, a->hash()); return s; }
bool MultiArgFunction::__eq__(const Basic& o) const {
    if (o.get_type_code() != get_type_code()) return false;
    auto& v = static_cast<const MultiArgFunction&>(o).arg_;
    if (v.size() != arg_.size()) return false;
    for (size_t i = 0; i < v.size(); i++) if (neq(*v[i], *arg_[i])) return false;
    return true;
}
int MultiArgFunction::compare(const Basic& o) const {
    auto& v = static_cast<const MultiArgFunction&>(o).arg_;
    if (v.size() != arg_.size()) return arg_.size() < v.size() ? -1 : 1;
    for (size_t i = 0; i < v.size(); i++) { int c = arg_[i]->__cmp__(*v[i]); if (c) return c; }
    return 0;
}
hash_t FunctionSymbol::__hash__() const { hash_t s = SYMENGINE_FUNCTIONSYMBOL; for (auto& a : get_vec()) hash_combine_raw(s, a->hash()); hash_combine_raw(s, hash_string(name_)); return s; }
bool FunctionSymbol::__eq__(const Basic& o) const { return MultiArgFunction::__eq__(o) && static_cast<const FunctionSymbol&>(o).name_ == name_; }
int FunctionSymbol::compare(const Basic& o) const {
    int c = name_.compare(static_cast<const FunctionSymbol&>(o).name_);
    return c ? (c < 0 ? -1 : 1) : MultiArgFunction::compare(o);
}
RCP<const Basic> FunctionSymbol::create(const vec_basic& v) const { return make_rcp<const FunctionSymbol>(name_, v); }
RCP<const Basic> Max::create(const vec_basic& v) const { return max(v); }
RCP<const Basic> Min::create(const vec_basic& v) const { return min(v); }
RCP<const Basic> Ceiling::create(const vec_basic& v) const { return ceiling(v[0]); }
RCP<const Basic> Floor::create(const vec_basic& v) const { return floor(v[0]); }
RCP<const Basic> Abs::create(const vec_basic& v) const { return abs(v[0]); }
RCP<const Basic> function_symbol(const std::string& n, const vec_basic& a) { return make_rcp<const FunctionSymbol>(n, a); }
RCP<const Basic> function_symbol(const std::string& n, const RCP<const Basic>& a) { return make_rcp<const FunctionSymbol>(n, a); }
static bool num_less(const Num& a, const Num& b) { return a->sub(*b)->is_negative(); }
template<class M> static RCP<const Basic> maxmin(const vec_basic& in, bool mx) {
    Num best; set_basic args;
    auto number = [&](const Num& n) { if (best.is_null() || (mx ? num_less(best, n) : num_less(n, best))) best = n; };
    for (auto& a : in) {
        if (is_a_Number(*a)) number(num(a));
        else if (is_a<M>(*a)) { for (auto& l : static_cast<const M&>(*a).get_vec()) { if (is_a_Number(*l)) number(num(l)); else args.insert(l); } }
        else args.insert(a);
    }
    if (!best.is_null()) args.insert(best);
    vec_basic f(args.begin(), args.end());
    if (f.size() > 1) return make_rcp<const M>(f);
    if (f.size() == 1) return f[0];
    throw SymEngineException("Empty vec_basic passed to max!");
}
RCP<const Basic> max(const vec_basic& a) { return maxmin<Max>(a, true); }
RCP<const Basic> min(const vec_basic& a) { return maxmin<Min>(a, false); }
static RCP<const Basic> round_to(const RCP<const Basic>& a, bool up) {
    if (is_a<Rational>(*a)) {
        auto& q = static_cast<const Rational&>(*a).as_rational_class();
        integer_class r;
        if (up) mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); else mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
        return integer(r);
    }
    if (is_a<RealDouble>(*a)) { double d = static_cast<const RealDouble&>(*a).i; return integer(integer_class(up ? std::ceil(d) : std::floor(d))); }
    if (is_a_Number(*a)) return a;
    return up ? RCP<const Basic>(make_rcp<const Ceiling>(a)) : RCP<const Basic>(make_rcp<const Floor>(a));
}
RCP<const Basic> ceiling(const RCP<const Basic>& a) { return round_to(a, true); }
RCP<const Basic> floor(const RCP<const Basic>& a) { return round_to(a, false); }
RCP<const Basic> abs(const RCP<const Basic>& a) {
    if (is_a_Number(*a)) return num(a)->is_negative() ? num(a)->mul(*minus_one) : num(a);
    return make_rcp<const Abs>(a);
}

// ---- logic ----------------------------------------------------------------------------------------------------------
bool BoolSet::__eq__(const Basic& o) const {
    if (o.get_type_code() != get_type_code()) return false;
    auto& c = static_cast<const BoolSet&>(o).c_;
    return c.size() == c_.size() && std::equal(c.begin(), c.end(), c_.begin(), [](auto& a, auto& b) { return eq(*a, *b); });
}
int BoolSet::compare(const Basic& o) const {
    auto& c = static_cast<const BoolSet&>(o).c_;
    if (c.size() != c_.size()) return c_.size() < c.size() ? -1 : 1;
    auto j = c.begin();
    for (auto i = c_.begin(); i != c_.end(); ++i, ++j) { int k = (*i)->__cmp__(**j); if (k) return k; }
    return 0;
}
RCP<const Boolean> Boolean::logical_not() const { return make_rcp<const Not>(RCP<const Boolean>(this)); }
RCP<const Boolean> BooleanAtom::logical_not() const { return boolean(!b_); }
RCP<const Boolean> And::logical_not() const { set_boolean c; for (auto& a : c_) c.insert(a->logical_not()); return logical_or(c); }
RCP<const Boolean> Or::logical_not() const { set_boolean c; for (auto& a : c_) c.insert(a->logical_not()); return logical_and(c); }
RCP<const Boolean> Equality::logical_not() const { return make_rcp<const Unequality>(a_, b_); }
RCP<const Boolean> Unequality::logical_not() const { return make_rcp<const Equality>(a_, b_); }
RCP<const Boolean> LessThan::logical_not() const { return Lt(b_, a_); }
RCP<const Boolean> StrictLessThan::logical_not() const { return Le(b_, a_); }
template<class C> static RCP<const Boolean> and_or(const set_boolean& s, bool x_notx) {
    set_boolean args;
    for (auto& a : s) {
        if (is_a<BooleanAtom>(*a)) { if (static_cast<const BooleanAtom&>(*a).get_val() == x_notx) return boolean(x_notx); continue; }
        if (is_a<C>(*a)) { auto& c = static_cast<const C&>(*a).get_container(); args.insert(c.begin(), c.end()); continue; }
        args.insert(a);
    }
    for (auto& a : args) if (args.find(a->logical_not()) != args.end()) return boolean(x_notx);
    if (args.size() == 1) return *args.begin();
    if (args.empty()) return boolean(!x_notx);
    return make_rcp<const C>(args);
}
RCP<const Boolean> logical_and(const set_boolean& s) { return and_or<And>(s, false); }
RCP<const Boolean> logical_or(const set_boolean& s) { return and_or<Or>(s, true); }
RCP<const Boolean> logical_not(const RCP<const Boolean>& s) { return s->logical_not(); }
RCP<const Boolean> Eq(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return boolFalse;
    if (eq(*a, *b)) return boolTrue;
    if ((is_a_Number(*a) && is_a_Number(*b)) || (is_a<BooleanAtom>(*a) && is_a<BooleanAtom>(*b))) return boolFalse;
    if (a->__cmp__(*b) == 1) return make_rcp<const Equality>(b, a);
    return make_rcp<const Equality>(a, b);
}
RCP<const Boolean> Ne(const RCP<const Basic>& a, const RCP<const Basic>& b) { return Eq(a, b)->logical_not(); }
RCP<const Boolean> Le(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return boolFalse;
    if (is_a<BooleanAtom>(*a) || is_a<BooleanAtom>(*b)) throw SymEngineException("Invalid comparison of boolean objects.");
    if (eq(*a, *b)) return boolTrue;
    if (is_a_Number(*a) && is_a_Number(*b)) return boolean(num_less(num(a), num(b)));
    return make_rcp<const LessThan>(a, b);
}
RCP<const Boolean> Lt(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return boolFalse;
    if (is_a<BooleanAtom>(*a) || is_a<BooleanAtom>(*b)) throw SymEngineException("Invalid comparison of boolean objects.");
    if (eq(*a, *b)) return boolFalse;
    if (is_a_Number(*a) && is_a_Number(*b)) return boolean(num_less(num(a), num(b)));
    return make_rcp<const StrictLessThan>(a, b);
}
RCP<const Boolean> Ge(const RCP<const Basic>& a, const RCP<const Basic>& b) { return Le(b, a); }
RCP<const Boolean> Gt(const RCP<const Basic>& a, const RCP<const Basic>& b) { return Lt(b, a); }

// ---- substitution, expansion, queries -----------------------------------------------------------------------------
RCP<const Basic> subs(const RCP<const Basic>& x, const map_basic_basic& d) {
    auto it = d.find(x);
    if (it != d.end()) return it->second;
    if (is_a<Add>(*x)) {
        auto& a = static_cast<const Add&>(*x);
        Num coef = zero; umap_basic_num n;
        auto ic = d.find(a.get_coef());
        if (ic != d.end()) Add::coef_dict_add_term(coef, n, one, ic->second); else coef = a.get_coef();
        for (auto& p : a.get_dict()) {
            auto t = Add::from_dict(zero, {{p.first, p.second}});
            auto f = d.find(t);
            if (f != d.end()) { Add::coef_dict_add_term(coef, n, one, f->second); continue; }
            auto g = d.find(p.second);
            if (g != d.end() && !is_a_Number(*g->second)) { Add::coef_dict_add_term(coef, n, one, mul(g->second, subs(p.first, d))); continue; }
            Num c = g != d.end() ? num(g->second) : p.second;
            Add::coef_dict_add_term(coef, n, c, subs(p.first, d));
        }
        return Add::from_dict(coef, std::move(n));
    }
    if (is_a<Mul>(*x)) {
        auto& m = static_cast<const Mul&>(*x);
        vec_basic v;
        auto ic = d.find(m.get_coef());
        v.push_back(ic != d.end() ? ic->second : RCP<const Basic>(m.get_coef()));
        for (auto& p : m.get_dict()) {
            auto t = is_a_Number(*p.second) && num(p.second)->is_one() ? p.first : RCP<const Basic>(make_rcp<const Pow>(p.first, p.second));
            v.push_back(subs(t, d));
        }
        return mul(v);
    }
    if (is_a<Pow>(*x)) return pow(subs(static_cast<const Pow&>(*x).get_base(), d), subs(static_cast<const Pow&>(*x).get_exp(), d));
    if (auto f = dynamic_cast<const MultiArgFunction*>(x.get())) {
        vec_basic v; bool ch = false;
        for (auto& a : f->get_vec()) { v.push_back(subs(a, d)); if (neq(*v.back(), *a)) ch = true; }
        return ch ? f->create(v) : x;
    }
    auto boolean_of = [&](const RCP<const Basic>& a) { return rcp_dynamic_cast<const Boolean>(subs(a, d)); };
    if (is_a<Not>(*x)) return boolean_of(static_cast<const Not&>(*x).get_arg())->logical_not();
    if (is_a<And>(*x) || is_a<Or>(*x)) {
        set_boolean c;
        for (auto& a : static_cast<const BoolSet&>(*x).get_container()) c.insert(boolean_of(a));
        return is_a<And>(*x) ? logical_and(c) : logical_or(c);
    }
    if (is_a_Relational(*x)) {
        auto& r = static_cast<const Relational&>(*x);
        auto a = subs(r.get_arg1(), d), b = subs(r.get_arg2(), d);
        switch (x->get_type_code()) {
            case SYMENGINE_EQUALITY: return Eq(a, b);
            case SYMENGINE_UNEQUALITY: return Ne(a, b);
            case SYMENGINE_LESSTHAN: return Le(a, b);
            default: return Lt(a, b);
        }
    }
    return x;
}
static RCP<const Basic> mul_expand(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (!is_a<Add>(*a) && !is_a<Add>(*b)) return mul(a, b);
    Num coef = zero; umap_basic_num d;
    auto terms = [](const RCP<const Basic>& x) { return is_a<Add>(*x) ? x->get_args() : vec_basic{x}; };
    for (auto& x : terms(a)) for (auto& y : terms(b)) {
        auto t = mul(x, y);
        if (is_a<Mul>(*t) || is_a<Pow>(*t)) {
            // a product may contain a power of a sum again
            bool again = false;
            if (is_a<Mul>(*t)) for (auto& p : static_cast<const Mul&>(*t).get_dict()) if (is_a<Add>(*p.first) && is_a<Integer>(*p.second) && num(p.second)->is_positive()) again = true;
            if (again) t = expand(t);
        }
        add_into(coef, d, t);
    }
    return Add::from_dict(coef, std::move(d));
}
RCP<const Basic> expand(const RCP<const Basic>& x, bool deep) {
    if (is_a<Add>(*x)) {
        auto& a = static_cast<const Add&>(*x);
        Num coef = a.get_coef(); umap_basic_num d;
        for (auto& p : a.get_dict()) add_into(coef, d, mul_expand(p.second, expand(p.first, deep)));
        return Add::from_dict(coef, std::move(d));
    }
    if (is_a<Mul>(*x)) {
        auto& m = static_cast<const Mul&>(*x);
        RCP<const Basic> r = m.get_coef();
        for (auto& p : m.get_dict()) r = mul_expand(r, expand(pow(p.first, p.second), deep));
        return r;
    }
    if (is_a<Pow>(*x)) {
        auto& p = static_cast<const Pow&>(*x);
        auto b = expand(p.get_base(), deep);
        if (is_a<Integer>(*p.get_exp()) && is_a<Add>(*b)) {
            long e = static_cast<const Integer&>(*p.get_exp()).as_int();
            if (e >= 0) { RCP<const Basic> r = one; for (long i = 0; i < e; i++) r = mul_expand(r, b); return r; }
        }
        return pow(b, p.get_exp());
    }
    return x;
}
RCP<const Basic> simplify(const RCP<const Basic>& a) { return a; }
void collect_atoms(const RCP<const Basic>& b, set_basic& out, bool (*pred)(const Basic&)) {
    if (pred(*b)) out.insert(b);
    for (auto& a : b->get_args()) collect_atoms(a, out, pred);
}
set_basic free_symbols(const Basic& b) { return atoms<const Symbol>(b); }
bool has_symbol(const Basic& b, const Basic& x) {
    if (eq(b, x)) return true;
    for (auto& a : b.get_args()) if (has_symbol(*a, x)) return true;
    return false;
}
void as_numer_denom(const RCP<const Basic>& x, const Ptr<RCP<const Basic>>& n, const Ptr<RCP<const Basic>>& d) {
    if (is_a<Rational>(*x)) {
        auto& q = static_cast<const Rational&>(*x).as_rational_class();
        *n = integer(integer_class(q.get_num())); *d = integer(integer_class(q.get_den())); return;
    }
    if (is_a<Mul>(*x)) {
        RCP<const Basic> nn = one, dd = one;
        for (auto& a : x->get_args()) { RCP<const Basic> p, q; as_numer_denom(a, outArg(p), outArg(q)); nn = mul(nn, p); dd = mul(dd, q); }
        *n = nn; *d = dd; return;
    }
    if (is_a<Add>(*x)) {
        RCP<const Basic> nn = zero, dd = one;
        for (auto& a : x->get_args()) {
            RCP<const Basic> p, q; as_numer_denom(a, outArg(p), outArg(q));
            if (eq(*q, *dd)) { nn = add(nn, p); continue; }
            nn = add(mul(nn, q), mul(p, dd)); dd = mul(dd, q);
        }
        *n = nn; *d = dd; return;
    }
    if (is_a<Pow>(*x)) {
        auto& p = static_cast<const Pow&>(*x);
        if (is_a_Number(*p.get_exp()) && num(p.get_exp())->is_negative()) { *n = one; *d = pow(p.get_base(), neg(p.get_exp())); return; }
    }
    *n = x; *d = one;
}

// ---- polynomials ----------------------------------------------------------------------------------------------------
namespace {
typedef std::map<std::vector<int>, RCP<const Basic>, vec_int_less> PD;
PD poly_mul(const PD& a, const PD& b) {
    PD r;
    for (auto& x : a) for (auto& y : b) {
        std::vector<int> v(x.first);
        for (size_t i = 0; i < v.size(); i++) v[i] += y.first[i];
        auto c = mul(x.second, y.second);
        auto it = r.find(v);
        if (it == r.end()) r[v] = c; else it->second = add(it->second, c);
    }
    for (auto it = r.begin(); it != r.end();) { if (is_a_Number(*it->second) && num(it->second)->is_zero()) it = r.erase(it); else ++it; }
    return r;
}
PD poly_of(const RCP<const Basic>& b, const std::vector<RCP<const Basic>>& g) {
    std::vector<int> z(g.size(), 0);
    if (is_a<Add>(*b)) {
        PD r;
        for (auto& t : b->get_args()) for (auto& p : poly_of(t, g)) {
            auto it = r.find(p.first);
            if (it == r.end()) r[p.first] = p.second; else it->second = add(it->second, p.second);
        }
        for (auto it = r.begin(); it != r.end();) { if (is_a_Number(*it->second) && num(it->second)->is_zero()) it = r.erase(it); else ++it; }
        return r;
    }
    if (is_a<Mul>(*b)) {
        PD r{{z, one}};
        for (auto& t : b->get_args()) r = poly_mul(r, poly_of(t, g));
        return r;
    }
    for (size_t i = 0; i < g.size(); i++) if (eq(*g[i], *b)) { z[i] = 1; return PD{{z, one}}; }
    if (is_a<Pow>(*b)) {
        auto& p = static_cast<const Pow&>(*b);
        bool uses = false;
        for (auto& s : g) if (has_symbol(*b, *s)) uses = true;
        if (!uses) return PD{{z, b}};
        if (!is_a<Integer>(*p.get_exp()) || num(p.get_exp())->is_negative()) throw SymEngineException("Not a polynomial");
        PD base = poly_of(p.get_base(), g), r{{z, one}};
        for (long i = 0; i < static_cast<const Integer&>(*p.get_exp()).as_int(); i++) r = poly_mul(r, base);
        return r;
    }
    if (is_a_Number(*b) && num(b)->is_zero()) return PD{};
    for (auto& s : g) if (has_symbol(*b, *s)) throw SymEngineException("Not a polynomial");
    return PD{{z, b}};
}
}
RCP<const MExprPoly> mexpr_from_basic(const RCP<const Basic>& b, const set_basic& gens) {
    std::vector<RCP<const Basic>> g(gens.begin(), gens.end());
    MExprDict d; d.dict_ = poly_of(b, g);
    return make_rcp<const MExprPoly>(d, gens);
}

// ---- printing -------------------------------------------------------------------------------------------------------
enum { P_REL, P_ADD, P_MUL, P_POW, P_ATOM };
static int prec_of(const Basic& b) {
    switch (b.get_type_code()) {
        case SYMENGINE_ADD: return P_ADD;
        case SYMENGINE_MUL: return P_MUL;
        case SYMENGINE_POW: return P_POW;
        case SYMENGINE_RATIONAL: return P_ADD;
        case SYMENGINE_INTEGER: case SYMENGINE_REAL_DOUBLE: case SYMENGINE_INFTY: return static_cast<const Number&>(b).is_negative() ? P_MUL : P_ATOM;
        case SYMENGINE_EQUALITY: case SYMENGINE_UNEQUALITY: case SYMENGINE_LESSTHAN: case SYMENGINE_STRICTLESSTHAN: return P_REL;
        default: return P_ATOM;
    }
}
std::string StrPrinter::parenthesizeLT(const RCP<const Basic>& x, int p) { return prec_of(*x) < p ? parenthesize(apply(x)) : apply(x); }
std::string StrPrinter::parenthesizeLE(const RCP<const Basic>& x, int p) { return prec_of(*x) <= p ? parenthesize(apply(x)) : apply(x); }
std::string StrPrinter::apply(const vec_basic& v) {
    std::string r;
    for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + apply(v[i]);
    return r;
}
void StrPrinter::_print_pow(std::ostringstream& o, const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (eq(*a, *E)) o << "exp(" << apply(b) << ")";
    else if (eq(*b, *rational(1, 2))) o << "sqrt(" << apply(a) << ")";
    else { o << parenthesizeLE(a, P_POW); o << "**"; o << parenthesizeLE(b, P_POW); }
}
void StrPrinter::bvisit(const Basic&) { str_ = "<expression>"; }
void StrPrinter::bvisit(const Integer& x) { str_ = x.as_integer_class().get_str(); }
void StrPrinter::bvisit(const Rational& x) { str_ = x.as_rational_class().get_str(); }
void StrPrinter::bvisit(const RealDouble& x) { std::ostringstream s; s.precision(15); s << x.i; str_ = s.str(); if (str_.find_first_of(".e") == std::string::npos) str_ += ".0"; }
void StrPrinter::bvisit(const Infty& x) { str_ = x.is_negative_infinity() ? "-oo" : x.is_positive_infinity() ? "oo" : "zoo"; }
void StrPrinter::bvisit(const NaN&) { str_ = "nan"; }
void StrPrinter::bvisit(const Symbol& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Constant& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Add& x) {
    struct Cmp { bool operator()(const RCP<const Basic>& a, const RCP<const Basic>& b) const { return !eq(*a, *b) && a->__cmp__(*b) == -1; } };
    std::map<RCP<const Basic>, Num, Cmp> d(x.get_dict().begin(), x.get_dict().end());
    std::ostringstream o; bool first = true;
    if (!x.get_coef()->is_zero()) { o << apply(x.get_coef()); first = false; }
    for (auto& p : d) {
        std::string t;
        if (p.second->is_one()) t = parenthesizeLT(p.first, P_ADD);
        else if (p.second->is_minus_one()) t = "-" + parenthesizeLT(p.first, P_MUL);
        else { t = parenthesizeLT(p.second, P_MUL) + "*"; t += parenthesizeLT(p.first, P_MUL); }
        if (first) { o << t; first = false; }
        else if (t[0] == '-') o << " - " << t.substr(1);
        else o << " + " << t;
    }
    str_ = o.str();
}
void StrPrinter::bvisit(const Mul& x) {
    std::ostringstream o, o2; bool n = false; int den = 0;
    if (x.get_coef()->is_minus_one()) o << "-";
    else if (!x.get_coef()->is_one()) { o << parenthesizeLT(x.get_coef(), P_MUL) << "*"; n = true; }
    for (auto& p : x.get_dict()) {
        if (is_a_Number(*p.second) && num(p.second)->is_negative()) {
            if (num(p.second)->is_minus_one()) o2 << parenthesizeLT(p.first, P_MUL); else _print_pow(o2, p.first, neg(p.second));
            o2 << "*"; den++;
        } else {
            if (is_a_Number(*p.second) && num(p.second)->is_one()) o << parenthesizeLT(p.first, P_MUL); else _print_pow(o, p.first, p.second);
            o << "*"; n = true;
        }
    }
    if (!n) o << "1*";
    std::string s = o.str(); s.pop_back();
    if (den) { std::string t = o2.str(); t.pop_back(); s += den > 1 ? "/(" + t + ")" : "/" + t; }
    str_ = s;
}
void StrPrinter::bvisit(const Pow& x) { std::ostringstream o; _print_pow(o, x.get_base(), x.get_exp()); str_ = o.str(); }
void StrPrinter::bvisit(const Max& x) { str_ = "max(" + apply(x.get_vec()) + ")"; }
void StrPrinter::bvisit(const Min& x) { str_ = "min(" + apply(x.get_vec()) + ")"; }
void StrPrinter::bvisit(const Ceiling& x) { str_ = "ceiling(" + apply(x.get_vec()) + ")"; }
void StrPrinter::bvisit(const Floor& x) { str_ = "floor(" + apply(x.get_vec()) + ")"; }
void StrPrinter::bvisit(const Abs& x) { str_ = "abs(" + apply(x.get_vec()) + ")"; }
void StrPrinter::bvisit(const FunctionSymbol& x) { str_ = x.get_name() + "(" + apply(x.get_vec()) + ")"; }
void StrPrinter::bvisit(const BooleanAtom& x) { str_ = x.get_val() ? "True" : "False"; }
void StrPrinter::bvisit(const Not& x) { str_ = "Not(" + apply(x.get_arg()) + ")"; }
void StrPrinter::bvisit(const And& x) { str_ = "And(" + apply(x.get_args()) + ")"; }
void StrPrinter::bvisit(const Or& x) { str_ = "Or(" + apply(x.get_args()) + ")"; }
#define REL(T, OP) void StrPrinter::bvisit(const T& x) { std::string a = apply(x.get_arg1()); str_ = a + OP + apply(x.get_arg2()); }
REL(Equality, " == ") REL(Unequality, " != ") REL(LessThan, " <= ") REL(StrictLessThan, " < ")

// ---- parsing --------------------------------------------------------------------------------------------------------
namespace {
struct Parser {
    const std::string& s; size_t i = 0;
    explicit Parser(const std::string& t) : s(t) {}
    void ws() { while (i < s.size() && std::isspace((unsigned char)s[i])) i++; }
    bool peek(const char* t) { ws(); return s.compare(i, std::char_traits<char>::length(t), t) == 0; }
    bool take(const char* t) { if (!peek(t)) return false; i += std::char_traits<char>::length(t); return true; }
    [[noreturn]] void fail() { throw ParseError("Parsing Unsuccessful: " + s); }
    static RCP<const Boolean> b(const RCP<const Basic>& x) { if (!is_a_Boolean(*x)) throw SymEngineException("Expected boolean"); return rcp_static_cast<const Boolean>(x); }
    RCP<const Basic> top() { auto r = orx(); ws(); if (i != s.size()) fail(); return r; }
    RCP<const Basic> orx() { auto r = andx(); while (peek("|")) { take("|"); r = logical_or({b(r), b(andx())}); } return r; }
    RCP<const Basic> andx() { auto r = eqx(); while (peek("&")) { take("&"); r = logical_and({b(r), b(eqx())}); } return r; }
    RCP<const Basic> eqx() {
        auto r = relx();
        while (true) {
            if (take("==")) r = Eq(r, relx());
            else if (take("!=")) r = Ne(r, relx());
            else return r;
        }
    }
    RCP<const Basic> relx() {
        auto r = sum();
        while (true) {
            if (take("<=")) r = Le(r, sum());
            else if (take(">=")) r = Ge(r, sum());
            else if (take("<")) r = Lt(r, sum());
            else if (take(">")) r = Gt(r, sum());
            else return r;
        }
    }
    RCP<const Basic> sum() {
        auto r = prod();
        while (true) {
            if (take("+")) r = add(r, prod());
            else if (take("-")) r = sub(r, prod());
            else return r;
        }
    }
    RCP<const Basic> prod() {
        auto r = unary();
        while (true) {
            if (peek("**")) return r;
            if (take("*")) r = mul(r, unary());
            else if (take("/")) r = div(r, unary());
            else return r;
        }
    }
    RCP<const Basic> unary() {
        if (take("-")) return neg(unary());
        if (take("+")) return unary();
        if (peek("~")) { take("~"); return b(unary())->logical_not(); }
        return power();
    }
    RCP<const Basic> power() {
        auto r = atom();
        if (take("**") || take("^")) return pow(r, unary());
        return r;
    }
    RCP<const Basic> atom() {
        ws();
        if (i >= s.size()) fail();
        char c = s[i];
        if (take("(")) { auto r = orx(); if (!take(")")) fail(); return r; }
        if (std::isdigit((unsigned char)c) || (c == '.' && i + 1 < s.size() && std::isdigit((unsigned char)s[i + 1]))) {
            size_t j = i; bool real = false;
            while (j < s.size() && std::isdigit((unsigned char)s[j])) j++;
            if (j < s.size() && s[j] == '.') { real = true; j++; while (j < s.size() && std::isdigit((unsigned char)s[j])) j++; }
            if (j < s.size() && (s[j] == 'e' || s[j] == 'E')) {
                size_t k = j + 1; if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
                if (k < s.size() && std::isdigit((unsigned char)s[k])) { real = true; while (k < s.size() && std::isdigit((unsigned char)s[k])) k++; j = k; }
            }
            std::string t = s.substr(i, j - i); i = j;
            RCP<const Basic> n = real ? RCP<const Basic>(real_double(std::stod(t))) : RCP<const Basic>(integer(integer_class(t, 10)));
            if (i < s.size() && (std::isalpha((unsigned char)s[i]) || s[i] == '_')) { auto x = power(); return mul(n, x); }
            return n;
        }
        if (std::isalpha((unsigned char)c) || c == '_' || (unsigned char)c >= 0x80) {
            size_t j = i;
            while (j < s.size() && (std::isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == '.' || (unsigned char)s[j] >= 0x80)) j++;
            std::string n = s.substr(i, j - i); i = j;
            if (peek("(")) {
                take("(");
                vec_basic a;
                if (!take(")")) { do a.push_back(orx()); while (take(",")); if (!take(")")) fail(); }
                return call(n, a);
            }
            if (n == "True") return boolTrue;
            if (n == "False") return boolFalse;
            if (n == "oo" || n == "inf") return Inf;
            if (n == "zoo") return ComplexInf;
            if (n == "nan") return Nan;
            if (n == "E" || n == "e") return E;
            if (n == "pi") return pi;
            return symbol(n);
        }
        fail();
    }
    RCP<const Basic> call(const std::string& n, const vec_basic& a) {
        auto bs = [&] { set_boolean r; for (auto& x : a) r.insert(b(x)); return r; };
        if ((n == "max" || n == "Max") && !a.empty()) return max(a);
        if ((n == "min" || n == "Min") && !a.empty()) return min(a);
        if (n == "And") return logical_and(bs());
        if (n == "Or") return logical_or(bs());
        if (a.size() == 1) {
            if (n == "Not") return b(a[0])->logical_not();
            if (n == "abs" || n == "Abs") return abs(a[0]);
            if (n == "ceiling" || n == "ceil") return ceiling(a[0]);
            if (n == "floor") return floor(a[0]);
            if (n == "exp") return pow(E, a[0]);
            if (n == "sqrt") return pow(a[0], rational(1, 2));
        }
        if (a.size() == 2) {
            if (n == "pow" || n == "Pow") return pow(a[0], a[1]);
            if (n == "Eq" || n == "Equality") return Eq(a[0], a[1]);
            if (n == "Ne" || n == "Unequality") return Ne(a[0], a[1]);
            if (n == "Le") return Le(a[0], a[1]);
            if (n == "Lt") return Lt(a[0], a[1]);
            if (n == "Ge") return Ge(a[0], a[1]);
            if (n == "Gt") return Gt(a[0], a[1]);
        }
        return function_symbol(n, a);
    }
};
}
RCP<const Basic> parse(const std::string& s) { Parser p(s); return p.top(); }
Expression::Expression() : m_(zero) {}
Expression::Expression(const std::string& s) : m_(parse(s)) {}

} // namespace SymEngine
