#include <symengine/mini.h>
#include <cmath>
#include <cstdlib>
#include <cstring>

namespace SymEngine {
// ---- hashing (VC_HASH_SALT permutes every order that depends on hashes) ---------------------------------------
static inline void comb(hash_t& seed, hash_t v) { seed ^= v + 0x9e3779b9ull + (seed << 6) + (seed >> 2); }
static hash_t& salt_ref() { static hash_t s = [] { const char* e = getenv("VC_HASH_SALT"); return e ? strtoull(e, nullptr, 0) : 18ull; }(); return s; }
void vc_set_hash_salt(hash_t s) { salt_ref() = s; }
hash_t Basic::salted(hash_t h) {
    hash_t s = salt_ref();
    if (s) { h ^= s; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; }
    return h ? h : 1;
}
static hash_t hint(hash_t h, const int_t& v) { comb(h, (hash_t)(sgn(v) + 2)); for (size_t i = 0; i < mpz_size(v.get_mpz_t()); i++) comb(h, mpz_getlimbn(v.get_mpz_t(), i)); return h; }
static hash_t hstr(hash_t seed, const std::string& s) { for (char c : s) comb(seed, (unsigned char)c); return seed; }
#define ACC(T) void T::accept(Visitor& v) const { v.visit(*this); }
ACC(Integer) ACC(Rational) ACC(RealDouble) ACC(Infty) ACC(NaN) ACC(Symbol) ACC(Mul) ACC(Add) ACC(Pow) ACC(MExprPoly) ACC(Constant) ACC(Ceiling) ACC(FunctionSymbol)
ACC(BooleanAtom) ACC(And) ACC(Or) ACC(Not) ACC(Equality) ACC(Unequality) ACC(LessThan) ACC(StrictLessThan) ACC(Max) ACC(Min)

template <class T> static int cmp3(const T& a, const T& b) { return a == b ? 0 : a < b ? -1 : 1; }
#define AS(T) const T& x = static_cast<const T&>(o)
#define SAME(T) (is_a<T>(o))
hash_t Integer::__hash__() const { hash_t h = SE_INTEGER; return hint(h, v_); }
bool Integer::__eq__(const Basic& o) const { return SAME(Integer) && static_cast<const Integer&>(o).v_ == v_; }
int Integer::compare(const Basic& o) const { AS(Integer); return cmp3(v_, x.v_); }
hash_t Rational::__hash__() const { hash_t h = SE_RATIONAL; return hint(hint(h, n_), d_); }
bool Rational::__eq__(const Basic& o) const { return SAME(Rational) && static_cast<const Rational&>(o).n_ == n_ && static_cast<const Rational&>(o).d_ == d_; }
int Rational::compare(const Basic& o) const { AS(Rational); return cmp3(n_ * x.d_, x.n_ * d_); }
hash_t RealDouble::__hash__() const { hash_t h = SE_REAL_DOUBLE, b; memcpy(&b, &i, 8); comb(h, b); return h; }
bool RealDouble::__eq__(const Basic& o) const { return SAME(RealDouble) && static_cast<const RealDouble&>(o).i == i; }
int RealDouble::compare(const Basic& o) const { AS(RealDouble); return cmp3(i, x.i); }
hash_t Infty::__hash__() const { hash_t h = SE_INFTY; comb(h, dir_ + 5); return h; }
bool Infty::__eq__(const Basic& o) const { return SAME(Infty) && static_cast<const Infty&>(o).dir_ == dir_; }
int Infty::compare(const Basic& o) const { AS(Infty); return cmp3(dir_, x.dir_); }
hash_t NaN::__hash__() const { return SE_NAN + 77; }
bool NaN::__eq__(const Basic& o) const { return SAME(NaN); }
int NaN::compare(const Basic&) const { return 0; }
hash_t Symbol::__hash__() const { return hstr(SE_SYMBOL, name_); }
bool Symbol::__eq__(const Basic& o) const { return SAME(Symbol) && static_cast<const Symbol&>(o).name_ == name_; }
int Symbol::compare(const Basic& o) const { AS(Symbol); return cmp3(name_, x.name_); }
hash_t Constant::__hash__() const { return hstr(SE_CONSTANT, name_); }
bool Constant::__eq__(const Basic& o) const { return SAME(Constant) && static_cast<const Constant&>(o).name_ == name_; }
int Constant::compare(const Basic& o) const { AS(Constant); return cmp3(name_, x.name_); }

template <class V> static hash_t hvec(hash_t h, const V& v) { for (auto& a : v) comb(h, a->hash()); return h; }
template <class V> static bool eqvec(const V& a, const V& b) { if (a.size() != b.size()) return false; auto j = b.begin(); for (auto& x : a) { if (!eq(*x, **j)) return false; ++j; } return true; }
template <class V> static int cmpvec(const V& a, const V& b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; auto j = b.begin(); for (auto& x : a) { int c = x->__cmp__(**j); if (c) return c; ++j; } return 0; }
template <class M> static hash_t hmap(hash_t h, const M& m) { hash_t s = 0; for (auto& p : m) { hash_t t = p.first->hash(); comb(t, p.second->hash()); s += t; } comb(h, s); return h; }
template <class M> static bool eqmap(const M& a, const M& b) { if (a.size() != b.size()) return false; for (auto& p : a) { auto it = b.find(p.first); if (it == b.end() || neq(*it->second, *p.second)) return false; } return true; }
template <class M> static int cmpmap(const M& a, const M& b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    auto j = b.begin(); for (auto& p : a) { int c = p.first->__cmp__(*j->first); if (c) return c; c = p.second->__cmp__(*j->second); if (c) return c; ++j; } return 0;
}
hash_t Add::__hash__() const { hash_t h = SE_ADD; comb(h, coef_->hash()); return hmap(h, dict_); }
bool Add::__eq__(const Basic& o) const { if (!SAME(Add)) return false; AS(Add); return eq(*coef_, *x.coef_) && eqmap(dict_, x.dict_); }
int Add::compare(const Basic& o) const { AS(Add); if (dict_.size() != x.dict_.size()) return dict_.size() < x.dict_.size() ? -1 : 1; int c = coef_->__cmp__(*x.coef_); return c ? c : cmpmap(dict_, x.dict_); }
hash_t Mul::__hash__() const { hash_t h = SE_MUL; comb(h, coef_->hash()); return hmap(h, dict_); }
bool Mul::__eq__(const Basic& o) const { if (!SAME(Mul)) return false; AS(Mul); return eq(*coef_, *x.coef_) && eqmap(dict_, x.dict_); }
int Mul::compare(const Basic& o) const { AS(Mul); if (dict_.size() != x.dict_.size()) return dict_.size() < x.dict_.size() ? -1 : 1; int c = coef_->__cmp__(*x.coef_); return c ? c : cmpmap(dict_, x.dict_); }
hash_t Pow::__hash__() const { hash_t h = SE_POW; comb(h, base_->hash()); comb(h, exp_->hash()); return h; }
bool Pow::__eq__(const Basic& o) const { if (!SAME(Pow)) return false; AS(Pow); return eq(*base_, *x.base_) && eq(*exp_, *x.exp_); }
int Pow::compare(const Basic& o) const { AS(Pow); int c = base_->__cmp__(*x.base_); return c ? c : exp_->__cmp__(*x.exp_); }
hash_t Ceiling::__hash__() const { hash_t h = SE_CEILING; comb(h, get_arg()->hash()); return h; }
bool Ceiling::__eq__(const Basic& o) const { return SAME(Ceiling) && eq(*get_arg(), *static_cast<const Ceiling&>(o).get_arg()); }
int Ceiling::compare(const Basic& o) const { AS(Ceiling); return get_arg()->__cmp__(*x.get_arg()); }
hash_t FunctionSymbol::__hash__() const { return hvec(hstr(SE_FUNCTIONSYMBOL, name_), get_vec()); }
bool FunctionSymbol::__eq__(const Basic& o) const { if (!SAME(FunctionSymbol)) return false; AS(FunctionSymbol); return name_ == x.name_ && eqvec(get_vec(), x.get_vec()); }
int FunctionSymbol::compare(const Basic& o) const { AS(FunctionSymbol); if (name_ != x.name_) return name_ < x.name_ ? -1 : 1; return cmpvec(get_vec(), x.get_vec()); }
#define VECNODE(T, CODE, GET) hash_t T::__hash__() const { return hvec(CODE, GET()); } \
    bool T::__eq__(const Basic& o) const { if (!SAME(T)) return false; AS(T); return eqvec(GET(), x.GET()); } \
    int T::compare(const Basic& o) const { AS(T); return cmpvec(GET(), x.GET()); }
VECNODE(Max, SE_MAX, get_vec) VECNODE(Min, SE_MIN, get_vec) VECNODE(And, SE_AND, get_container) VECNODE(Or, SE_OR, get_container) VECNODE(Not, SE_NOT, get_args)
VECNODE(Equality, SE_EQUALITY, get_args) VECNODE(Unequality, SE_UNEQUALITY, get_args) VECNODE(LessThan, SE_LESSTHAN, get_args) VECNODE(StrictLessThan, SE_STRICTLESSTHAN, get_args)
hash_t BooleanAtom::__hash__() const { hash_t h = SE_BOOLEAN_ATOM; comb(h, b_); return h; }
bool BooleanAtom::__eq__(const Basic& o) const { return SAME(BooleanAtom) && static_cast<const BooleanAtom&>(o).b_ == b_; }
int BooleanAtom::compare(const Basic& o) const { AS(BooleanAtom); return cmp3(b_, x.b_); }
hash_t MExprPoly::__hash__() const { return SE_MEXPRPOLY; }
bool MExprPoly::__eq__(const Basic& o) const { return this == &o; }
int MExprPoly::compare(const Basic& o) const { return cmp3(this, static_cast<const MExprPoly*>(&o)); }

bool is_a_Number(const Basic& b) { return b.get_type_code() <= SE_NAN; }
bool is_a_Boolean(const Basic& b) { return b.get_type_code() >= SE_BOOLEAN_ATOM && b.get_type_code() <= SE_STRICTLESSTHAN; }
bool is_a_Relational(const Basic& b) { return b.get_type_code() >= SE_EQUALITY && b.get_type_code() <= SE_STRICTLESSTHAN; }
std::string Basic::__str__() const { StrPrinter p; return p.apply(*this); }
std::ostream& operator<<(std::ostream& o, const Basic& b) { return o << b.__str__(); }
RCP<const Basic> Basic::subs(const map_basic_basic& d) const { return SymEngine::subs(rcp_from_this(), d); }

// ---- numbers --------------------------------------------------------------------------------------------------
static int_t ckadd(const int_t& a, const int_t& b) { return a + b; }
static int_t ckmul(const int_t& a, const int_t& b) { return a * b; }
RCP<const Integer> integer(const int_t& v) { if (v == 0) return zero; if (v == 1) return one; if (v == -1) return minus_one; return make_rcp<const Integer>(v); }
RCP<const Number> rational(const int_t& n0, const int_t& d0) {
    if (d0 == 1) return integer(n0);
    int_t n = n0, d = d0;
    if (d == 0) throw DivisionByZeroError("division by zero");
    int_t g = gcd(n, d); if (g > 1) { n /= g; d /= g; }
    if (d < 0) { n = -n; d = -d; }
    if (d == 1) return integer(n);
    return make_rcp<const Rational>(n, d);
}
RCP<const RealDouble> real_double(double d) { return make_rcp<const RealDouble>(d); }
RCP<const Infty> infty(int n) { return n > 0 ? Inf : n < 0 ? NegInf : ComplexInf; }
static bool frac(const Number& a, int_t& n, int_t& d) {
    if (is_a<Integer>(a)) { n = static_cast<const Integer&>(a).value(); d = 1; return true; }
    if (is_a<Rational>(a)) { n = static_cast<const Rational&>(a).num(); d = static_cast<const Rational&>(a).den(); return true; }
    return false;
}
static double dbl(const Number& a) { int_t n, d; if (frac(a, n, d)) return mpq_class(n, d).get_d(); return static_cast<const RealDouble&>(a).i; }
RCP<const Number> addnum(const RCP<const Number>& a, const RCP<const Number>& b) {
    int_t n, d, m, e;
    if (frac(*a, n, d) && frac(*b, m, e)) return rational(ckadd(ckmul(n, e), ckmul(m, d)), ckmul(d, e));
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*a)) { if (is_a<Infty>(*b) && !eq(*a, *b)) return Nan; return a; }
    if (is_a<Infty>(*b)) return b;
    return real_double(dbl(*a) + dbl(*b));
}
RCP<const Number> mulnum(const RCP<const Number>& a, const RCP<const Number>& b) {
    int_t n, d, m, e;
    if (frac(*a, n, d) && frac(*b, m, e)) return rational(ckmul(n, m), ckmul(d, e));
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*a) || is_a<Infty>(*b)) {
        if (a->is_zero() || b->is_zero()) return Nan;
        int s = (a->is_positive() ? 1 : a->is_negative() ? -1 : 0) * (b->is_positive() ? 1 : b->is_negative() ? -1 : 0);
        return infty(s);
    }
    return real_double(dbl(*a) * dbl(*b));
}
RCP<const Number> subnum(const RCP<const Number>& a, const RCP<const Number>& b) { return addnum(a, mulnum(minus_one, b)); }
RCP<const Number> divnum(const RCP<const Number>& a, const RCP<const Number>& b) {
    int_t n, d, m, e;
    if (b->is_zero()) { if (a->is_zero()) return Nan; return ComplexInf; }
    if (frac(*a, n, d) && frac(*b, m, e)) return rational(ckmul(n, e), ckmul(d, m));
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*b)) return is_a<Infty>(*a) ? RCP<const Number>(Nan) : RCP<const Number>(zero);
    if (is_a<Infty>(*a)) return mulnum(a, b);
    return real_double(dbl(*a) / dbl(*b));
}
static RCP<const Number> N(const RCP<const Basic>& b) { return rcp_static_cast<const Number>(b); }
static int numcmp(const RCP<const Number>& a, const RCP<const Number>& b) { // numeric order; -2 when unordered
    if (eq(*a, *b)) return 0;
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return -2;
    if (is_a<Infty>(*a)) return a->is_positive() ? 1 : a->is_negative() ? -1 : -2;
    if (is_a<Infty>(*b)) return b->is_positive() ? -1 : b->is_negative() ? 1 : -2;
    auto d = subnum(a, b); return d->is_zero() ? 0 : d->is_negative() ? -1 : 1;
}

// ---- sums -----------------------------------------------------------------------------------------------------
vec_basic Add::get_args() const {
    vec_basic r;
    if (!coef_->is_zero()) r.push_back(coef_);
    for (auto& p : dict_) {
        if (p.second->is_one()) r.push_back(p.first);
        else { umap_basic_num d; d[p.first] = p.second; r.push_back(from_dict(zero, std::move(d))); }
    }
    return r;
}
void Add::dict_add_term(umap_basic_num& d, const RCP<const Number>& c, const RCP<const Basic>& t) {
    auto it = d.find(t);
    if (it == d.end()) { if (!c->is_zero()) d[t] = c; return; }
    auto n = addnum(it->second, c);
    if (n->is_zero()) d.erase(it); else it->second = n;
}
void Add::as_coef_term(const RCP<const Basic>& self, RCP<const Number>& coef, RCP<const Basic>& term) {
    if (is_a<Mul>(*self) && !static_cast<const Mul&>(*self).get_coef()->is_one()) {
        auto& m = static_cast<const Mul&>(*self); coef = m.get_coef(); map_basic_basic d = m.get_dict(); term = Mul::from_dict(one, std::move(d));
    } else if (is_a_Number(*self)) { coef = N(self); term = one; }
    else { coef = one; term = self; }
}
void Add::coef_dict_add_term(RCP<const Number>& coef, umap_basic_num& d, const RCP<const Number>& c, const RCP<const Basic>& t) {
    if (is_a_Number(*t)) coef = addnum(coef, mulnum(c, N(t)));
    else if (is_a<Add>(*t)) {
        if (c->is_one()) { auto& a = static_cast<const Add&>(*t); for (auto& q : a.dict_) dict_add_term(d, q.second, q.first); coef = addnum(coef, a.coef_); }
        else dict_add_term(d, c, t);
    } else { RCP<const Number> c2; RCP<const Basic> u; as_coef_term(mul(c, t), c2, u); dict_add_term(d, c2, u); }
}
RCP<const Basic> Add::from_dict(const RCP<const Number>& c, umap_basic_num&& d) {
    if (d.empty()) return c;
    if (d.size() == 1 && c->is_zero()) {
        auto p = *d.begin();
        if (p.second->is_zero()) return p.second;
        if (p.second->is_one()) return p.first;
        if (is_a<Mul>(*p.first)) { map_basic_basic m = static_cast<const Mul&>(*p.first).get_dict(); return Mul::from_dict(mulnum(p.second, static_cast<const Mul&>(*p.first).get_coef()), std::move(m)); }
        map_basic_basic m;
        if (is_a<Pow>(*p.first)) m[static_cast<const Pow&>(*p.first).get_base()] = static_cast<const Pow&>(*p.first).get_exp(); else m[p.first] = one;
        return make_rcp<const Mul>(p.second, std::move(m));
    }
    return make_rcp<const Add>(c, std::move(d));
}
RCP<const Basic> add(const vec_basic& v) {
    RCP<const Number> coef = zero; umap_basic_num d;
    for (auto& a : v) Add::coef_dict_add_term(coef, d, one, a);
    return Add::from_dict(coef, std::move(d));
}
RCP<const Basic> add(const RCP<const Basic>& a, const RCP<const Basic>& b) { return add(vec_basic{a, b}); }
RCP<const Basic> neg(const RCP<const Basic>& a) { return mul(minus_one, a); }
RCP<const Basic> sub(const RCP<const Basic>& a, const RCP<const Basic>& b) { return add(a, mul(minus_one, b)); }

// ---- products and powers --------------------------------------------------------------------------------------
vec_basic Mul::get_args() const {
    vec_basic r;
    if (!coef_->is_one()) r.push_back(coef_);
    for (auto& p : dict_) r.push_back(eq(*p.second, *one) ? p.first : RCP<const Basic>(make_rcp<const Pow>(p.first, p.second)));
    return r;
}
RCP<const Basic> Mul::from_dict(const RCP<const Number>& c, map_basic_basic&& d) {
    if (c->is_zero() || d.empty()) return c;
    if (d.size() == 1 && c->is_one()) { auto p = *d.begin(); if (eq(*p.second, *one)) return p.first; return make_rcp<const Pow>(p.first, p.second); }
    return make_rcp<const Mul>(c, std::move(d));
}
void Mul::dict_add_term(RCP<const Number>& coef, map_basic_basic& d, const RCP<const Basic>& exp, const RCP<const Basic>& base) {
    auto it = d.find(base);
    RCP<const Basic> e = it == d.end() ? exp : add(it->second, exp);
    if (it != d.end()) d.erase(it);
    if (is_a_Number(*e) && N(e)->is_zero()) return;
    if (is_a_Number(*base) && is_a<Integer>(*e)) { coef = mulnum(coef, N(pow(base, e))); return; }
    if (is_a<Integer>(*e) && (is_a<Mul>(*base) || is_a<Pow>(*base))) { // (x*y)**n and (x**y)**n
        auto p = pow(base, e);
        if (is_a<Mul>(*p)) { auto& m = static_cast<const Mul&>(*p); coef = mulnum(coef, m.get_coef()); for (auto& q : m.get_dict()) dict_add_term(coef, d, q.second, q.first); return; }
        if (is_a<Pow>(*p) && neq(*static_cast<const Pow&>(*p).get_base(), *base)) { dict_add_term(coef, d, static_cast<const Pow&>(*p).get_exp(), static_cast<const Pow&>(*p).get_base()); return; }
    }
    d[base] = e;
}
RCP<const Basic> mul(const vec_basic& v) {
    RCP<const Number> coef = one; map_basic_basic d;
    for (auto& a : v) {
        if (is_a_Number(*a)) coef = mulnum(coef, N(a));
        else if (is_a<Mul>(*a)) { auto& m = static_cast<const Mul&>(*a); coef = mulnum(coef, m.get_coef()); for (auto& q : m.get_dict()) Mul::dict_add_term(coef, d, q.second, q.first); }
        else if (is_a<Pow>(*a)) Mul::dict_add_term(coef, d, static_cast<const Pow&>(*a).get_exp(), static_cast<const Pow&>(*a).get_base());
        else Mul::dict_add_term(coef, d, one, a);
    }
    return Mul::from_dict(coef, std::move(d));
}
RCP<const Basic> mul(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a_Number(*a) && N(a)->is_zero() && !is_a<Infty>(*b)) return a;
    if (is_a_Number(*b) && N(b)->is_zero() && !is_a<Infty>(*a)) return b;
    return mul(vec_basic{a, b});
}
RCP<const Basic> div(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a_Number(*b)) {
        if (N(b)->is_zero()) { if (is_a_Number(*a) && N(a)->is_zero()) return Nan; return ComplexInf; }
        return mul(a, divnum(one, N(b)));
    }
    return mul(a, pow(b, minus_one));
}
static int_t ipow(const int_t& b, const int_t& e) { if (!e.fits_ulong_p() || e > 100000) throw SymEngineException("exponent too large"); int_t r; mpz_pow_ui(r.get_mpz_t(), b.get_mpz_t(), e.get_ui()); return r; }
RCP<const Basic> pow(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a_Number(*b) && N(b)->is_zero()) return one;
    if (eq(*b, *one)) return a;
    if (eq(*a, *zero)) { if (is_a_Number(*b)) { if (N(b)->is_positive()) return zero; if (N(b)->is_negative()) return ComplexInf; } return make_rcp<const Pow>(a, b); }
    if (eq(*a, *one)) return one;
    if (is_a<Integer>(*b)) {
        int_t e = static_cast<const Integer&>(*b).value();
        if (eq(*a, *minus_one)) return int_t(e % 2) != 0 ? minus_one : one;
        int_t n, d;
        if (is_a_Number(*a)) {
            if (frac(static_cast<const Number&>(*a), n, d)) { if (e > 0) return rational(ipow(n, e), ipow(d, e)); return rational(ipow(d, -e), ipow(n, -e)); }
            if (is_a<RealDouble>(*a)) return real_double(std::pow(static_cast<const RealDouble&>(*a).i, e.get_d()));
            if (is_a<Infty>(*a)) { if (e < 0) return zero; return a->__eq__(*NegInf) && e % 2 == 0 ? RCP<const Basic>(Inf) : a; }
            return Nan;
        }
        if (is_a<Mul>(*a)) {
            auto& m = static_cast<const Mul&>(*a); RCP<const Number> coef = N(pow(m.get_coef(), b)); map_basic_basic r;
            for (auto& q : m.get_dict()) Mul::dict_add_term(coef, r, mul(q.second, b), q.first);
            return Mul::from_dict(coef, std::move(r));
        }
        if (is_a<Pow>(*a)) return pow(static_cast<const Pow&>(*a).get_base(), mul(static_cast<const Pow&>(*a).get_exp(), b));
    }
    return make_rcp<const Pow>(a, b);
}

// ---- functions ------------------------------------------------------------------------------------------------
static RCP<const Basic> extreme(const vec_basic& v, int sign) {
    RCP<const Number> best; set_basic args; bool stop = false;
    // as in SymEngine, a number that cannot be compared with the first one is dropped
    auto num = [&](const RCP<const Basic>& p) { if (best.is_null()) best = N(p); else { int c = numcmp(N(p), best); if (c == sign) best = N(p); } };
    for (auto& p : v) {
        if (is_a_Boolean(*p)) throw NotImplementedError("Boolean in max/min");
        if (is_a_Number(*p)) num(p);
        else if (sign > 0 ? is_a<Max>(*p) : is_a<Min>(*p)) { for (auto& l : p->get_args()) if (is_a_Number(*l)) num(l); else args.insert(l); }
        else args.insert(p);
    }
    (void)stop;
    if (!best.is_null()) args.insert(best);
    vec_basic f(args.begin(), args.end());
    if (f.empty()) throw SymEngineException("Empty vec_basic passed to max/min!");
    if (f.size() == 1) return f[0];
    if (sign > 0) return make_rcp<const Max>(f);
    return make_rcp<const Min>(f);
}
RCP<const Basic> max(const vec_basic& a) { return extreme(a, 1); }
RCP<const Basic> min(const vec_basic& a) { return extreme(a, -1); }
static int_t cdiv(const int_t& n, const int_t& d) { int_t r; mpz_cdiv_q(r.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return r; }
RCP<const Basic> ceiling(const RCP<const Basic>& a) {
    int_t n, d;
    if (is_a_Number(*a)) {
        if (frac(static_cast<const Number&>(*a), n, d)) return integer(cdiv(n, d));
        if (is_a<RealDouble>(*a)) return integer(int_t(std::ceil(static_cast<const RealDouble&>(*a).i)));
        return a;
    }
    return make_rcp<const Ceiling>(a);
}
RCP<const Basic> function_symbol(std::string n, const RCP<const Basic>& a) { return make_rcp<const FunctionSymbol>(n, a); }
RCP<const Basic> function_symbol(std::string n, const vec_basic& a) { return make_rcp<const FunctionSymbol>(n, a); }
RCP<const Symbol> symbol(const std::string& n) { return make_rcp<const Symbol>(n); }
RCP<const BooleanAtom> boolean(bool b) { return b ? boolTrue : boolFalse; }

// ---- relations and logic --------------------------------------------------------------------------------------
RCP<const Boolean> Eq(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (eq(*a, *b)) return boolTrue;
    if (is_a<BooleanAtom>(*a) && is_a<BooleanAtom>(*b)) return boolFalse;
    if (is_a_Number(*a) && is_a_Number(*b)) return boolFalse;
    if (!is_a_Boolean(*a) && !is_a_Boolean(*b) && !is_a<Infty>(*a) && !is_a<Infty>(*b)) {
        auto d = expand(sub(a, b));
        if (is_a_Number(*d) && !is_a<NaN>(*d)) return boolean(N(d)->is_zero());
    }
    if (a->__cmp__(*b) == 1) return make_rcp<const Equality>(b, a);
    return make_rcp<const Equality>(a, b);
}
RCP<const Boolean> Ne(const RCP<const Basic>& a, const RCP<const Basic>& b) { return Eq(a, b)->logical_not(); }
static void nobool(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) throw SymEngineException("Invalid NaN comparison.");
    if (is_a<BooleanAtom>(*a) || is_a<BooleanAtom>(*b)) throw SymEngineException("Invalid comparison of Boolean objects.");
}
RCP<const Boolean> Le(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    nobool(a, b);
    if (eq(*a, *b)) return boolTrue;
    if (is_a_Number(*a) && is_a_Number(*b)) { int c = numcmp(N(a), N(b)); if (c == -2) throw SymEngineException("Invalid comparison of complex numbers."); return boolean(c < 0); }
    return make_rcp<const LessThan>(a, b);
}
RCP<const Boolean> Lt(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    nobool(a, b);
    if (eq(*a, *b)) return boolFalse;
    if (is_a_Number(*a) && is_a_Number(*b)) { int c = numcmp(N(a), N(b)); if (c == -2) throw SymEngineException("Invalid comparison of complex numbers."); return boolean(c < 0); }
    return make_rcp<const StrictLessThan>(a, b);
}
RCP<const Boolean> Gt(const RCP<const Basic>& a, const RCP<const Basic>& b) { return Lt(b, a); }
RCP<const Boolean> Ge(const RCP<const Basic>& a, const RCP<const Basic>& b) { return Le(b, a); }
RCP<const Boolean> Boolean::logical_not() const { return make_rcp<const Not>(rcp_from_this_cast<Boolean>()); }
RCP<const Boolean> BooleanAtom::logical_not() const { return boolean(!b_); }
RCP<const Boolean> And::logical_not() const { set_boolean s; for (auto& a : c_) s.insert(a->logical_not()); return logical_or(s); }
RCP<const Boolean> Or::logical_not() const { set_boolean s; for (auto& a : c_) s.insert(a->logical_not()); return logical_and(s); }
RCP<const Boolean> Not::logical_not() const { return a_; }
RCP<const Boolean> Equality::logical_not() const { return make_rcp<const Unequality>(get_arg1(), get_arg2()); }
RCP<const Boolean> Unequality::logical_not() const { return make_rcp<const Equality>(get_arg1(), get_arg2()); }
RCP<const Boolean> LessThan::logical_not() const { return Lt(get_arg2(), get_arg1()); }
RCP<const Boolean> StrictLessThan::logical_not() const { return Le(get_arg2(), get_arg1()); }
template <class T> static RCP<const Boolean> and_or(const set_boolean& s, bool absorb) {
    set_boolean args;
    for (auto& a : s) {
        if (is_a<BooleanAtom>(*a)) { if (static_cast<const BooleanAtom&>(*a).get_val() == absorb) return boolean(absorb); continue; }
        if (is_a<T>(*a)) { auto& c = static_cast<const T&>(*a).get_container(); args.insert(c.begin(), c.end()); continue; }
        args.insert(a);
    }
    for (auto& a : args) if (args.find(a->logical_not()) != args.end()) return boolean(absorb);
    if (args.size() == 1) return *args.begin();
    if (args.empty()) return boolean(!absorb);
    return make_rcp<const T>(args);
}
RCP<const Boolean> logical_and(const set_boolean& s) { return and_or<And>(s, false); }
RCP<const Boolean> logical_or(const set_boolean& s) { return and_or<Or>(s, true); }
RCP<const Boolean> logical_not(const RCP<const Boolean>& s) { return s->logical_not(); }

// ---- expansion, substitution, simplification ------------------------------------------------------------------
static RCP<const Basic> addmul(const RCP<const Basic>& a, const RCP<const Basic>& b) { // product of two expanded operands
    auto terms = [](const RCP<const Basic>& x) { return is_a<Add>(*x) ? x->get_args() : vec_basic{x}; };
    RCP<const Number> coef = zero; umap_basic_num d;
    for (auto& s : terms(a)) for (auto& t : terms(b)) {
        auto m = mul(s, t);
        if (is_a<Mul>(*m) || is_a<Pow>(*m)) { // a product of powers may expose a sum to a positive power
            bool again = false;
            if (is_a<Pow>(*m)) again = is_a<Add>(*static_cast<const Pow&>(*m).get_base()) && is_a<Integer>(*static_cast<const Pow&>(*m).get_exp()) && N(static_cast<const Pow&>(*m).get_exp())->is_positive();
            if (again) m = expand(m);
        }
        Add::coef_dict_add_term(coef, d, one, m);
    }
    return Add::from_dict(coef, std::move(d));
}
RCP<const Basic> expand(const RCP<const Basic>& e, bool deep) {
    if (is_a<Add>(*e)) {
        auto& a = static_cast<const Add&>(*e); RCP<const Number> coef = a.get_coef(); umap_basic_num d;
        for (auto& p : a.get_dict()) {
            auto t = expand(p.first, deep);
            if (is_a<Add>(*t)) { for (auto& q : static_cast<const Add&>(*t).get_dict()) Add::coef_dict_add_term(coef, d, mulnum(p.second, q.second), q.first); coef = addnum(coef, mulnum(p.second, static_cast<const Add&>(*t).get_coef())); }
            else Add::coef_dict_add_term(coef, d, p.second, t);
        }
        return Add::from_dict(coef, std::move(d));
    }
    if (is_a<Mul>(*e)) {
        auto& m = static_cast<const Mul&>(*e); RCP<const Basic> r = m.get_coef();
        for (auto& p : m.get_dict()) r = addmul(r, expand(pow(p.first, p.second), deep));
        return r;
    }
    if (is_a<Pow>(*e)) {
        auto& p = static_cast<const Pow&>(*e); auto b = deep ? expand(p.get_base(), deep) : p.get_base();
        if (is_a<Integer>(*p.get_exp()) && is_a<Add>(*b)) {
            int_t n = static_cast<const Integer&>(*p.get_exp()).value();
            if (n > 0) { if (n > 64) throw SymEngineException("expand: exponent too large"); RCP<const Basic> r = one; for (long i = 0; i < n.get_si(); i++) r = addmul(r, b); return r; }
            return make_rcp<const Pow>(b, p.get_exp());
        }
        if (neq(*b, *p.get_base())) { auto r = pow(b, p.get_exp()); return is_a<Pow>(*r) ? r : expand(r, deep); }
        return e;
    }
    return e;
}
static RCP<const Boolean> asbool(const RCP<const Basic>& b) { if (!is_a_Boolean(*b)) throw SymEngineException("expected an object of type Boolean"); return rcp_static_cast<const Boolean>(b); }
struct Transform {
    const map_basic_basic* d = nullptr;
    RCP<const Basic> operator()(const RCP<const Basic>& e) {
        if (d) { auto it = d->find(e); if (it != d->end()) return it->second; }
        switch (e->get_type_code()) {
        case SE_ADD: {
            auto& a = static_cast<const Add&>(*e); RCP<const Number> coef = zero; umap_basic_num r;
            Add::coef_dict_add_term(coef, r, one, (*this)(a.get_coef()));
            for (auto& p : a.get_dict()) {
                if (d) { umap_basic_num one_; one_[p.first] = p.second; auto it = d->find(Add::from_dict(zero, std::move(one_))); if (it != d->end()) { Add::coef_dict_add_term(coef, r, one, it->second); continue; } }
                Add::coef_dict_add_term(coef, r, p.second, (*this)(p.first));
            }
            return Add::from_dict(coef, std::move(r));
        }
        case SE_MUL: {
            auto& m = static_cast<const Mul&>(*e); vec_basic v{m.get_coef()};
            for (auto& p : m.get_dict()) v.push_back((*this)(pow(p.first, p.second)));
            for (auto& x : v) if (is_a_Number(*x) && N(x)->is_zero()) return x;
            return mul(v);
        }
        case SE_POW: { auto& p = static_cast<const Pow&>(*e); return pow((*this)(p.get_base()), (*this)(p.get_exp())); }
        case SE_CEILING: return ceiling((*this)(static_cast<const Ceiling&>(*e).get_arg()));
        case SE_FUNCTIONSYMBOL: {
            auto& f = static_cast<const FunctionSymbol&>(*e); vec_basic v; bool same = true;
            for (auto& a : f.get_vec()) { v.push_back((*this)(a)); if (neq(*v.back(), *a)) same = false; }
            if (same) return e;
            return function_symbol(f.get_name(), v);
        }
        case SE_MAX: case SE_MIN: { vec_basic v; for (auto& a : e->get_args()) v.push_back((*this)(a)); return e->get_type_code() == SE_MAX ? max(v) : min(v); }
        case SE_AND: case SE_OR: { set_boolean s; for (auto& a : e->get_args()) s.insert(asbool((*this)(a))); return e->get_type_code() == SE_AND ? logical_and(s) : logical_or(s); }
        case SE_NOT: return asbool((*this)(static_cast<const Not&>(*e).get_arg()))->logical_not();
        case SE_EQUALITY: case SE_UNEQUALITY: case SE_LESSTHAN: case SE_STRICTLESSTHAN: {
            auto& r = static_cast<const Relational&>(*e); auto a = (*this)(r.get_arg1()), b = (*this)(r.get_arg2());
            switch (e->get_type_code()) { case SE_EQUALITY: return Eq(a, b); case SE_UNEQUALITY: return Ne(a, b); case SE_LESSTHAN: return Le(a, b); default: return Lt(a, b); }
        }
        default: return e;
        }
    }
};
RCP<const Basic> subs(const RCP<const Basic>& e, const map_basic_basic& d) { Transform t; t.d = &d; return t(e); }
RCP<const Basic> simplify(const RCP<const Basic>& e) { Transform t; return t(e); }
void as_numer_denom(const RCP<const Basic>& x, const Ptr<RCP<const Basic>>& n, const Ptr<RCP<const Basic>>& d) {
    int_t p, q;
    if (is_a_Number(*x)) { if (frac(static_cast<const Number&>(*x), p, q)) { *n = integer(p); *d = integer(q); } else { *n = x; *d = one; } return; }
    if (is_a<Mul>(*x)) {
        RCP<const Basic> a = one, b = one;
        for (auto& t : x->get_args()) { RCP<const Basic> tn, td; as_numer_denom(t, outArg(tn), outArg(td)); a = mul(a, tn); b = mul(b, td); }
        *n = a; *d = b; return;
    }
    if (is_a<Add>(*x)) {
        RCP<const Basic> a = zero, b = one;
        for (auto& t : x->get_args()) { RCP<const Basic> tn, td; as_numer_denom(t, outArg(tn), outArg(td)); a = add(mul(a, td), mul(tn, b)); b = mul(b, td); }
        *n = a; *d = b; return;
    }
    if (is_a<Pow>(*x)) {
        auto& w = static_cast<const Pow&>(*x);
        if (is_a_Number(*w.get_exp()) && N(w.get_exp())->is_negative()) { RCP<const Basic> bn, bd; as_numer_denom(pow(w.get_base(), neg(w.get_exp())), outArg(bn), outArg(bd)); *n = bd; *d = bn; return; }
    }
    *n = x; *d = one;
}
set_basic free_symbols(const Basic& b) { return atoms<const Symbol>(b); }
bool has_symbol(const Basic& b, const Basic& s) {
    if (eq(b, s)) return true;
    for (auto& a : b.get_args()) if (has_symbol(*a, s)) return true;
    return false;
}

// ---- polynomials ----------------------------------------------------------------------------------------------
static void poly_term(const RCP<const Basic>& t, const std::vector<RCP<const Basic>>& g, vec_int& e, RCP<const Basic>& c, const RCP<const Basic>& exp) {
    for (size_t i = 0; i < g.size(); i++) if (eq(*t, *g[i])) {
        if (!is_a<Integer>(*exp) || N(exp)->is_negative()) throw SymEngineException("Not a Polynomial");
        e[i] += (int)static_cast<const Integer&>(*exp).as_int(); return;
    }
    for (auto& x : g) if (has_symbol(*t, *x) || has_symbol(*exp, *x)) throw SymEngineException("Not a Polynomial");
    c = mul(c, pow(t, exp));
}
RCP<const MExprPoly> mexprpoly_from_basic(const RCP<const Basic>& b, const set_basic& gens, bool ex) {
    RCP<const Basic> x = ex ? expand(b) : b;
    std::vector<RCP<const Basic>> g(gens.begin(), gens.end()); MExprDict p; p.vec_size = g.size();
    for (auto& t : is_a<Add>(*x) ? x->get_args() : vec_basic{x}) {
        vec_int e(g.size(), 0); RCP<const Basic> c = one;
        if (is_a<Mul>(*t)) { c = static_cast<const Mul&>(*t).get_coef(); for (auto& q : static_cast<const Mul&>(*t).get_dict()) poly_term(q.first, g, e, c, q.second); }
        else if (is_a<Pow>(*t)) poly_term(static_cast<const Pow&>(*t).get_base(), g, e, c, static_cast<const Pow&>(*t).get_exp());
        else if (is_a_Number(*t)) c = t;
        else poly_term(t, g, e, c, one);
        auto it = p.dict_.find(e);
        Expression s = it == p.dict_.end() ? Expression(c) : it->second + Expression(c);
        if (is_a_Number(*s.get_basic()) && N(s.get_basic())->is_zero()) { if (it != p.dict_.end()) p.dict_.erase(it); }
        else p.dict_[e] = s;
    }
    return make_rcp<const MExprPoly>(gens, std::move(p));
}

// ---- printing -------------------------------------------------------------------------------------------------
enum { P_REL, P_ADD, P_MUL, P_POW, P_ATOM };
static int prec(const Basic& b) {
    switch (b.get_type_code()) {
    case SE_ADD: return P_ADD; case SE_MUL: return P_MUL; case SE_POW: return P_POW; case SE_RATIONAL: return P_ADD;
    case SE_INTEGER: return static_cast<const Integer&>(b).is_negative() ? P_MUL : P_ATOM;
    case SE_REAL_DOUBLE: return static_cast<const RealDouble&>(b).is_negative() ? P_MUL : P_ATOM;
    case SE_EQUALITY: case SE_UNEQUALITY: case SE_LESSTHAN: case SE_STRICTLESSTHAN: return P_REL;
    default: return P_ATOM;
    }
}
static std::string istr(const int_t& v) { return v.get_str(); }
std::string StrPrinter::apply(const Basic& b) { b.accept(*this); return str_; }
std::string StrPrinter::apply(const vec_basic& v) { std::string s; for (auto& a : v) { if (&a != &v[0]) s += ", "; s += apply(a); } return s; }
std::string StrPrinter::parenthesizeLT(const RCP<const Basic>& x, int p) { std::string s = apply(x); return prec(*x) < p ? parenthesize(s) : s; }
std::string StrPrinter::parenthesizeLE(const RCP<const Basic>& x, int p) { std::string s = apply(x); return prec(*x) <= p ? parenthesize(s) : s; }
void StrPrinter::bvisit(const Basic&) { throw SymEngineException("printing not supported"); }
void StrPrinter::bvisit(const Integer& x) { str_ = istr(x.value()); }
void StrPrinter::bvisit(const Rational& x) { str_ = istr(x.num()) + "/" + istr(x.den()); }
void StrPrinter::bvisit(const RealDouble& x) { std::ostringstream o; o.precision(17); o << x.i; str_ = o.str(); if (str_.find_first_of(".eni") == std::string::npos) str_ += ".0"; }
void StrPrinter::bvisit(const Infty& x) { str_ = x.is_negative_infinity() ? "-oo" : x.is_positive_infinity() ? "oo" : "zoo"; }
void StrPrinter::bvisit(const NaN&) { str_ = "nan"; }
void StrPrinter::bvisit(const Symbol& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Constant& x) { str_ = x.get_name(); }
struct PrinterCmp { bool operator()(const RCP<const Basic>& a, const RCP<const Basic>& b) const { if (eq(*a, *b)) return false; return a->__cmp__(*b) == -1; } };
void StrPrinter::bvisit(const Add& x) {
    std::map<RCP<const Basic>, RCP<const Number>, PrinterCmp> d(x.get_dict().begin(), x.get_dict().end());
    std::ostringstream o; bool first = true;
    if (!x.get_coef()->is_zero()) { o << apply(x.get_coef()); first = false; }
    for (auto& p : d) {
        std::string t;
        if (p.second->is_one()) t = parenthesizeLT(p.first, P_ADD);
        else if (p.second->is_minus_one()) t = "-" + parenthesizeLT(p.first, P_MUL);
        else t = parenthesizeLT(p.second, P_MUL) + "*" + parenthesizeLT(p.first, P_MUL);
        if (first) o << t; else if (t[0] == '-') o << " - " << t.substr(1); else o << " + " << t;
        first = false;
    }
    str_ = o.str();
}
void StrPrinter::_print_pow(std::ostringstream& o, const RCP<const Basic>& a, const RCP<const Basic>& b) {
    if (eq(*a, *E)) o << "exp(" << apply(b) << ")";
    else if (is_a<Rational>(*b) && static_cast<const Rational&>(*b).num() == 1 && static_cast<const Rational&>(*b).den() == 2) o << "sqrt(" << apply(a) << ")";
    else { o << parenthesizeLE(a, P_POW); o << "**"; o << parenthesizeLE(b, P_POW); }
}
void StrPrinter::bvisit(const Mul& x) {
    std::ostringstream o, o2; bool num = false; unsigned den = 0;
    if (x.get_coef()->is_minus_one()) o << "-";
    else if (!x.get_coef()->is_one()) { o << parenthesizeLT(x.get_coef(), P_MUL) << "*"; num = true; }
    for (auto& p : x.get_dict()) {
        if (is_a_Number(*p.second) && N(p.second)->is_negative()) {
            if (eq(*p.second, *minus_one)) o2 << parenthesizeLT(p.first, P_MUL); else _print_pow(o2, p.first, neg(p.second));
            o2 << "*"; den++;
        } else {
            if (eq(*p.second, *one)) o << parenthesizeLT(p.first, P_MUL); else _print_pow(o, p.first, p.second);
            o << "*"; num = true;
        }
    }
    if (!num) o << "1*";
    std::string s = o.str(); s.pop_back();
    if (den) { std::string s2 = o2.str(); s2.pop_back(); s = den > 1 ? s + "/(" + s2 + ")" : s + "/" + s2; }
    str_ = s;
}
void StrPrinter::bvisit(const Pow& x) { std::ostringstream o; _print_pow(o, x.get_base(), x.get_exp()); str_ = o.str(); }
void StrPrinter::bvisit(const Ceiling& x) { str_ = "ceiling(" + apply(x.get_arg()) + ")"; }
void StrPrinter::bvisit(const FunctionSymbol& x) { str_ = x.get_name() + "(" + apply(x.get_vec()) + ")"; }
void StrPrinter::bvisit(const Max& x) { str_ = "max(" + apply(x.get_vec()) + ")"; }
void StrPrinter::bvisit(const Min& x) { str_ = "min(" + apply(x.get_vec()) + ")"; }
void StrPrinter::bvisit(const BooleanAtom& x) { str_ = x.get_val() ? "True" : "False"; }
void StrPrinter::bvisit(const And& x) { str_ = "And(" + apply(x.get_args()) + ")"; }
void StrPrinter::bvisit(const Or& x) { str_ = "Or(" + apply(x.get_args()) + ")"; }
void StrPrinter::bvisit(const Not& x) { str_ = "Not(" + apply(*x.get_arg()) + ")"; }
void StrPrinter::bvisit(const Equality& x) { std::string a = apply(x.get_arg1()); str_ = a + " == " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const Unequality& x) { std::string a = apply(x.get_arg1()); str_ = a + " != " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const LessThan& x) { std::string a = apply(x.get_arg1()); str_ = a + " <= " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const StrictLessThan& x) { std::string a = apply(x.get_arg1()); str_ = a + " < " + apply(x.get_arg2()); }
void CodePrinter::bvisit(const Rational& x) { str_ = istr(x.num()) + ".0/" + istr(x.den()) + ".0"; }
void CodePrinter::bvisit(const Ceiling& x) { str_ = "ceil(" + apply(x.get_arg()) + ")"; }
void CodePrinter::bvisit(const Max& x) { StrPrinter::bvisit(x); }
void CodePrinter::bvisit(const Min& x) { StrPrinter::bvisit(x); }

// ---- parsing --------------------------------------------------------------------------------------------------
namespace {
struct Parser {
    const std::string& s; size_t i = 0;
    explicit Parser(const std::string& t) : s(t) {}
    [[noreturn]] void bad() { throw ParseError("Parsing Unsuccessful: " + s); }
    void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
    bool take(const char* t) { ws(); size_t n = strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
    char peek() { ws(); return i < s.size() ? s[i] : 0; }
    RCP<const Boolean> B(const RCP<const Basic>& b) { if (!is_a_Boolean(*b)) bad(); return rcp_static_cast<const Boolean>(b); }
    RCP<const Basic> Or_() { auto a = And_(); while (peek() == '|') { i++; if (peek() == '|') i++; auto b = And_(); a = logical_or({B(a), B(b)}); } return a; }
    RCP<const Basic> And_() { auto a = Rel(); while (peek() == '&') { i++; if (peek() == '&') i++; auto b = Rel(); a = logical_and({B(a), B(b)}); } return a; }
    RCP<const Basic> Rel() {
        auto a = Sum();
        for (;;) {
            if (take("==")) a = Eq(a, Sum()); else if (take("!=")) a = Ne(a, Sum()); else if (take("<=")) a = Le(a, Sum()); else if (take(">=")) a = Ge(a, Sum());
            else if (take("<")) a = Lt(a, Sum()); else if (take(">")) a = Gt(a, Sum()); else return a;
        }
    }
    RCP<const Basic> Sum() { auto a = Prod(); for (;;) { char c = peek(); if (c == '+') { i++; a = add(a, Prod()); } else if (c == '-') { i++; a = sub(a, Prod()); } else return a; } }
    RCP<const Basic> Prod() {
        auto a = Unary();
        for (;;) { char c = peek(); if (c == '*' && s.compare(i, 2, "**") != 0) { i++; a = mul(a, Unary()); } else if (c == '/') { i++; a = div(a, Unary()); } else return a; }
    }
    RCP<const Basic> Unary() { char c = peek(); if (c == '-') { i++; return neg(Unary()); } if (c == '+') { i++; return Unary(); } if (c == '~') { i++; return B(Unary())->logical_not(); } return Power(); }
    RCP<const Basic> Power() { auto a = Atom(); if (take("**") || take("^")) { auto b = Unary(); return pow(a, b); } return a; }
    RCP<const Basic> Atom() {
        char c = peek();
        if (c == '(') { i++; auto a = Or_(); if (peek() != ')') bad(); i++; return a; }
        if (isdigit((unsigned char)c) || c == '.') {
            size_t j = i; bool fl = false;
            while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == '.')) { if (s[j] == '.') fl = true; j++; }
            if (j < s.size() && (s[j] == 'e' || s[j] == 'E') && j + 1 < s.size() && (isdigit((unsigned char)s[j + 1]) || ((s[j + 1] == '-' || s[j + 1] == '+') && j + 2 < s.size() && isdigit((unsigned char)s[j + 2])))) { fl = true; j += 2; while (j < s.size() && isdigit((unsigned char)s[j])) j++; }
            std::string t = s.substr(i, j - i); i = j;
            if (fl) return real_double(strtod(t.c_str(), nullptr));
            return integer(int_t(t, 10));
        }
        if (isalpha((unsigned char)c) || c == '_' || c == '$' || c == '%' || (unsigned char)c >= 0x80) {
            size_t j = i; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == '.' || s[j] == '$' || s[j] == '%' || s[j] == ':' || (unsigned char)s[j] >= 0x80)) j++;
            std::string n = s.substr(i, j - i); i = j;
            if (peek() == '(') {
                i++; vec_basic v;
                if (peek() == ')') i++;
                else for (;;) { v.push_back(Or_()); char d = peek(); i++; if (d == ')') break; if (d != ',') bad(); }
                if (n == "max" || n == "Max") return max(v);
                if (n == "min" || n == "Min") return min(v);
                if (n == "ceiling" && v.size() == 1) return ceiling(v[0]);
                if (n == "exp" && v.size() == 1) return pow(E, v[0]);
                if (n == "sqrt" && v.size() == 1) return pow(v[0], rational(1, 2));
                if (n == "Eq" && v.size() == 2) return Eq(v[0], v[1]);
                if (n == "Ne" && v.size() == 2) return Ne(v[0], v[1]);
                if (n == "Lt" && v.size() == 2) return Lt(v[0], v[1]);
                if (n == "Le" && v.size() == 2) return Le(v[0], v[1]);
                if (n == "Gt" && v.size() == 2) return Gt(v[0], v[1]);
                if (n == "Ge" && v.size() == 2) return Ge(v[0], v[1]);
                if (n == "And" || n == "Or") { set_boolean b; for (auto& x : v) b.insert(B(x)); return n == "And" ? logical_and(b) : logical_or(b); }
                if (n == "Not" && v.size() == 1) return B(v[0])->logical_not();
                return function_symbol(n, v);
            }
            if (n == "oo" || n == "inf") return Inf;
            if (n == "zoo") return ComplexInf;
            if (n == "nan") return Nan;
            if (n == "E") return E;
            if (n == "pi") return pi;
            if (n == "True") return boolTrue;
            if (n == "False") return boolFalse;
            return symbol(n);
        }
        bad();
    }
};
} // namespace
RCP<const Basic> parse(const std::string& s, bool) {
    Parser p(s); auto r = p.Or_(); p.ws(); if (p.i != s.size()) p.bad(); return r;
}
} // namespace SymEngine
