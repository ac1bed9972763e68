// A small stand-in for the part of SymEngine that docc uses (the library itself is an empty submodule here).
// Same class names, canonical forms and printing conventions; integers are exact (GMP).
#pragma once
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <gmpxx.h>

namespace SymEngine {
typedef uint64_t hash_t;
typedef mpz_class int_t;

class SymEngineException : public std::exception {
    std::string msg_;
public:
    explicit SymEngineException(const std::string& m) : msg_(m) {}
    const char* what() const noexcept override { return msg_.c_str(); }
};
class NotImplementedError : public SymEngineException { public: explicit NotImplementedError(const std::string& m) : SymEngineException(m) {} };
class DivisionByZeroError : public SymEngineException { public: explicit DivisionByZeroError(const std::string& m) : SymEngineException(m) {} };
class ParseError : public SymEngineException { public: explicit ParseError(const std::string& m) : SymEngineException(m) {} };

// ---- reference counted pointers -------------------------------------------------------------------------------
enum ENull { null };
template <class T> class Ptr {
    T* p_;
public:
    explicit Ptr(T* p) : p_(p) {}
    T* operator->() const { return p_; }
    T& operator*() const { return *p_; }
    T* get() const { return p_; }
};
template <class T> Ptr<T> outArg(T& a) { return Ptr<T>(&a); }

template <class T> class RCP {
    T* p_ = nullptr;
public:
    typedef T element_type;
    RCP() noexcept {}
    RCP(ENull) noexcept {}
    explicit RCP(T* p) : p_(p) { if (p_) p_->inc(); }
    RCP(const RCP& o) noexcept : p_(o.p_) { if (p_) p_->inc(); }
    RCP(RCP&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> RCP(const RCP<U>& o) noexcept : p_(o.get()) { if (p_) p_->inc(); }
    ~RCP() { if (p_) p_->dec(); }
    RCP& operator=(const RCP& o) { RCP t(o); std::swap(p_, t.p_); return *this; }
    RCP& operator=(RCP&& o) noexcept { std::swap(p_, o.p_); return *this; }
    T* operator->() const { check(); return p_; }
    T& operator*() const { check(); return *p_; }
    T* get() const { return p_; }
    Ptr<T> ptr() const { return Ptr<T>(p_); }
    bool is_null() const { return p_ == nullptr; }
    void reset() { RCP t; std::swap(p_, t.p_); }
    template <class U> bool operator==(const RCP<U>& o) const { return p_ == o.get(); }
    template <class U> bool operator!=(const RCP<U>& o) const { return p_ != o.get(); }
    bool operator==(ENull) const { return p_ == nullptr; }
    bool operator!=(ENull) const { return p_ != nullptr; }
private:
    void check() const { if (!p_) throw std::runtime_error("null symbolic expression dereferenced"); }
};
template <class T, class U> RCP<T> rcp_static_cast(const RCP<U>& o) { return RCP<T>(static_cast<T*>(o.get())); }
template <class T, class U> RCP<T> rcp_dynamic_cast(const RCP<U>& o) {
    if (o.is_null()) return RCP<T>();
    T* p = dynamic_cast<T*>(o.get());
    if (!p) throw std::runtime_error("rcp_dynamic_cast: cannot convert.");
    return RCP<T>(p);
}
template <class T, class... A> RCP<T> make_rcp(A&&... a) { return RCP<T>(new std::remove_const_t<T>(std::forward<A>(a)...)); }

// ---- type codes (the order is what sorts printed terms) -------------------------------------------------------
enum TypeID { SE_INTEGER, SE_RATIONAL, SE_REAL_DOUBLE, SE_INFTY, SE_NAN, SE_SYMBOL, SE_MUL, SE_ADD, SE_POW, SE_MEXPRPOLY, SE_CONSTANT, SE_CEILING,
              SE_FUNCTIONSYMBOL, SE_BOOLEAN_ATOM, SE_AND, SE_OR, SE_NOT, SE_EQUALITY, SE_UNEQUALITY, SE_LESSTHAN, SE_STRICTLESSTHAN, SE_MAX, SE_MIN };

class Visitor;
class Basic;
class Number;
class Integer;
class Boolean;
class Symbol;
typedef std::vector<RCP<const Basic>> vec_basic;

class Basic {
    mutable std::atomic<unsigned> count_{0};
    mutable hash_t hash_ = 0;
    TypeID code_;
protected:
    explicit Basic(TypeID c) : code_(c) {}
public:
    Basic(const Basic&) = delete;
    Basic& operator=(const Basic&) = delete;
    virtual ~Basic() {}
    void inc() const { count_.fetch_add(1, std::memory_order_relaxed); }
    void dec() const { if (count_.fetch_sub(1, std::memory_order_acq_rel) == 1) delete this; }
    TypeID get_type_code() const { return code_; }
    hash_t hash() const { if (!hash_) { hash_ = salted(__hash__()); } return hash_; }
    static hash_t salted(hash_t h);
    virtual hash_t __hash__() const = 0;
    virtual bool __eq__(const Basic& o) const = 0;
    bool __neq__(const Basic& o) const { return !__eq__(o); }
    int __cmp__(const Basic& o) const { if (code_ != o.code_) return code_ < o.code_ ? -1 : 1; return compare(o); }
    virtual int compare(const Basic& o) const = 0;
    virtual vec_basic get_args() const = 0;
    virtual void accept(Visitor& v) const = 0;
    std::string __str__() const;
    RCP<const Basic> rcp_from_this() const { return RCP<const Basic>(this); }
    template <class T> RCP<const T> rcp_from_this_cast() const { return RCP<const T>(static_cast<const T*>(this)); }
    RCP<const Basic> subs(const std::map<RCP<const Basic>, RCP<const Basic>, struct RCPBasicKeyLess>& d) const;
};
std::ostream& operator<<(std::ostream& o, const Basic& b);
template <class T> bool is_a(const Basic& b) { return T::type_code_id == b.get_type_code(); }
template <class T> bool is_a_sub(const Basic& b) { return dynamic_cast<const T*>(&b) != nullptr; }
bool is_a_Number(const Basic& b);
bool is_a_Boolean(const Basic& b);
bool is_a_Relational(const Basic& b);
inline bool eq(const Basic& a, const Basic& b) { return &a == &b || a.__eq__(b); }
inline bool neq(const Basic& a, const Basic& b) { return !eq(a, b); }

struct RCPBasicHash { template <class T> size_t operator()(const RCP<T>& k) const { return k->hash(); } };
struct RCPBasicKeyEq { template <class T> bool operator()(const RCP<T>& a, const RCP<T>& b) const { return eq(*a, *b); } };
struct RCPBasicKeyLess {
    template <class T> bool operator()(const RCP<T>& a, const RCP<T>& b) const {
        hash_t x = a->hash(), y = b->hash();
        if (x != y) return x < y;
        if (eq(*a, *b)) return false;
        return a->__cmp__(*b) == -1;
    }
};
typedef std::set<RCP<const Basic>, RCPBasicKeyLess> set_basic;
typedef std::map<RCP<const Basic>, RCP<const Basic>, RCPBasicKeyLess> map_basic_basic;
typedef std::unordered_map<RCP<const Basic>, RCP<const Basic>, RCPBasicHash, RCPBasicKeyEq> umap_basic_basic;
typedef std::map<RCP<const Basic>, RCP<const Number>, RCPBasicKeyLess> map_basic_num;
typedef map_basic_num umap_basic_num;
typedef std::set<RCP<const Boolean>, RCPBasicKeyLess> set_boolean;
typedef std::vector<RCP<const Boolean>> vec_boolean;
typedef std::vector<int> vec_int;

// ---- numbers --------------------------------------------------------------------------------------------------
class Number : public Basic {
protected:
    using Basic::Basic;
public:
    vec_basic get_args() const override { return {}; }
    virtual bool is_zero() const = 0;
    virtual bool is_one() const = 0;
    virtual bool is_minus_one() const = 0;
    virtual bool is_negative() const = 0;
    virtual bool is_positive() const = 0;
    virtual bool is_exact() const { return true; }
};
#define SE_NODE(CODE) static const TypeID type_code_id = CODE; void accept(Visitor& v) const override; hash_t __hash__() const override; \
    bool __eq__(const Basic& o) const override; int compare(const Basic& o) const override;

class Integer : public Number {
    int_t v_;
public:
    SE_NODE(SE_INTEGER)
    explicit Integer(const int_t& v) : Number(SE_INTEGER), v_(v) {}
    const int_t& value() const { return v_; }
    signed long int as_int() const { if (!v_.fits_slong_p()) throw SymEngineException("as_int: Integer larger than int"); return v_.get_si(); }
    unsigned long int as_uint() const { if (v_ < 0) throw SymEngineException("as_uint: negative Integer"); if (!v_.fits_ulong_p()) throw SymEngineException("as_uint: Integer larger than uint"); return v_.get_ui(); }
    bool is_zero() const override { return v_ == 0; }
    bool is_one() const override { return v_ == 1; }
    bool is_minus_one() const override { return v_ == -1; }
    bool is_negative() const override { return v_ < 0; }
    bool is_positive() const override { return v_ > 0; }
};
class Rational : public Number {
    int_t n_, d_;
public:
    SE_NODE(SE_RATIONAL)
    Rational(const int_t& n, const int_t& d) : Number(SE_RATIONAL), n_(n), d_(d) {}
    const int_t& num() const { return n_; }
    const int_t& den() const { return d_; }
    RCP<const Integer> get_num() const { return make_rcp<const Integer>(n_); }
    RCP<const Integer> get_den() const { return make_rcp<const Integer>(d_); }
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return n_ < 0; }
    bool is_positive() const override { return n_ > 0; }
};
class RealDouble : public Number {
public:
    double i;
    SE_NODE(SE_REAL_DOUBLE)
    explicit RealDouble(double d) : Number(SE_REAL_DOUBLE), i(d) {}
    double as_double() const { return i; }
    bool is_zero() const override { return i == 0; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return i < 0; }
    bool is_positive() const override { return i > 0; }
    bool is_exact() const override { return false; }
};
class Infty : public Number {
    int dir_;
public:
    SE_NODE(SE_INFTY)
    explicit Infty(int dir) : Number(SE_INFTY), dir_(dir) {}
    int direction() const { return dir_; }
    bool is_positive_infinity() const { return dir_ > 0; }
    bool is_negative_infinity() const { return dir_ < 0; }
    bool is_unsigned_infinity() const { return dir_ == 0; }
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return dir_ < 0; }
    bool is_positive() const override { return dir_ > 0; }
    bool is_exact() const override { return false; }
};
class NaN : public Number {
public:
    SE_NODE(SE_NAN)
    NaN() : Number(SE_NAN) {}
    bool is_zero() const override { return false; }
    bool is_one() const override { return false; }
    bool is_minus_one() const override { return false; }
    bool is_negative() const override { return false; }
    bool is_positive() const override { return false; }
    bool is_exact() const override { return false; }
};
RCP<const Integer> integer(const int_t& v);
template <class T, class = std::enable_if_t<std::is_integral_v<T>>> RCP<const Integer> integer(T v) { return integer(std::is_signed_v<T> ? int_t((long)v) : int_t((unsigned long)v)); }
RCP<const Number> rational(const int_t& n, const int_t& d);
RCP<const RealDouble> real_double(double d);
RCP<const Infty> infty(int n);
RCP<const Number> addnum(const RCP<const Number>& a, const RCP<const Number>& b);
RCP<const Number> subnum(const RCP<const Number>& a, const RCP<const Number>& b);
RCP<const Number> mulnum(const RCP<const Number>& a, const RCP<const Number>& b);
RCP<const Number> divnum(const RCP<const Number>& a, const RCP<const Number>& b);

// ---- atoms, sums, products, powers, functions -----------------------------------------------------------------
class Symbol : public Basic {
    std::string name_;
public:
    SE_NODE(SE_SYMBOL)
    explicit Symbol(const std::string& n) : Basic(SE_SYMBOL), name_(n) {}
    const std::string& get_name() const { return name_; }
    vec_basic get_args() const override { return {}; }
};
class Constant : public Basic {
    std::string name_;
public:
    SE_NODE(SE_CONSTANT)
    explicit Constant(const std::string& n) : Basic(SE_CONSTANT), name_(n) {}
    const std::string& get_name() const { return name_; }
    vec_basic get_args() const override { return {}; }
};
class Add : public Basic {
    RCP<const Number> coef_; umap_basic_num dict_;
public:
    SE_NODE(SE_ADD)
    Add(const RCP<const Number>& c, umap_basic_num&& d) : Basic(SE_ADD), coef_(c), dict_(std::move(d)) {}
    const RCP<const Number>& get_coef() const { return coef_; }
    const umap_basic_num& get_dict() const { return dict_; }
    vec_basic get_args() const override;
    static RCP<const Basic> from_dict(const RCP<const Number>& c, umap_basic_num&& d);
    static void dict_add_term(umap_basic_num& d, const RCP<const Number>& c, const RCP<const Basic>& t);
    static void coef_dict_add_term(RCP<const Number>& coef, umap_basic_num& d, const RCP<const Number>& c, const RCP<const Basic>& t);
    static void as_coef_term(const RCP<const Basic>& self, RCP<const Number>& coef, RCP<const Basic>& term);
};
class Mul : public Basic {
    RCP<const Number> coef_; map_basic_basic dict_;
public:
    SE_NODE(SE_MUL)
    Mul(const RCP<const Number>& c, map_basic_basic&& d) : Basic(SE_MUL), coef_(c), dict_(std::move(d)) {}
    const RCP<const Number>& get_coef() const { return coef_; }
    const map_basic_basic& get_dict() const { return dict_; }
    vec_basic get_args() const override;
    static RCP<const Basic> from_dict(const RCP<const Number>& c, map_basic_basic&& d);
    static void dict_add_term(RCP<const Number>& coef, map_basic_basic& d, const RCP<const Basic>& exp, const RCP<const Basic>& base);
};
class Pow : public Basic {
    RCP<const Basic> base_, exp_;
public:
    SE_NODE(SE_POW)
    Pow(const RCP<const Basic>& b, const RCP<const Basic>& e) : Basic(SE_POW), base_(b), exp_(e) {}
    const RCP<const Basic>& get_base() const { return base_; }
    const RCP<const Basic>& get_exp() const { return exp_; }
    vec_basic get_args() const override { return {base_, exp_}; }
};
class Function : public Basic { protected: using Basic::Basic; };
class OneArgFunction : public Function {
    RCP<const Basic> arg_;
protected:
    OneArgFunction(TypeID c, const RCP<const Basic>& a) : Function(c), arg_(a) {}
public:
    const RCP<const Basic>& get_arg() const { return arg_; }
    vec_basic get_args() const override { return {arg_}; }
};
class Ceiling : public OneArgFunction {
public:
    SE_NODE(SE_CEILING)
    explicit Ceiling(const RCP<const Basic>& a) : OneArgFunction(SE_CEILING, a) {}
};
class MultiArgFunction : public Function {
    vec_basic args_;
protected:
    MultiArgFunction(TypeID c, const vec_basic& a) : Function(c), args_(a) {}
public:
    vec_basic get_args() const override { return args_; }
    const vec_basic& get_vec() const { return args_; }
};
class FunctionSymbol : public MultiArgFunction {
    std::string name_;
public:
    SE_NODE(SE_FUNCTIONSYMBOL)
    FunctionSymbol(std::string n, const vec_basic& a) : MultiArgFunction(SE_FUNCTIONSYMBOL, a), name_(std::move(n)) {}
    FunctionSymbol(std::string n, const RCP<const Basic>& a) : MultiArgFunction(SE_FUNCTIONSYMBOL, vec_basic{a}), name_(std::move(n)) {}
    const std::string& get_name() const { return name_; }
};
class Max : public MultiArgFunction { public: SE_NODE(SE_MAX) explicit Max(const vec_basic& a) : MultiArgFunction(SE_MAX, a) {} };
class Min : public MultiArgFunction { public: SE_NODE(SE_MIN) explicit Min(const vec_basic& a) : MultiArgFunction(SE_MIN, a) {} };

// ---- booleans -------------------------------------------------------------------------------------------------
class Boolean : public Basic {
protected:
    using Basic::Basic;
public:
    virtual RCP<const Boolean> logical_not() const;
};
class BooleanAtom : public Boolean {
    bool b_;
public:
    SE_NODE(SE_BOOLEAN_ATOM)
    explicit BooleanAtom(bool b) : Boolean(SE_BOOLEAN_ATOM), b_(b) {}
    bool get_val() const { return b_; }
    vec_basic get_args() const override { return {}; }
    RCP<const Boolean> logical_not() const override;
};
class And : public Boolean {
    set_boolean c_;
public:
    SE_NODE(SE_AND)
    explicit And(const set_boolean& s) : Boolean(SE_AND), c_(s) {}
    const set_boolean& get_container() const { return c_; }
    vec_basic get_args() const override { return vec_basic(c_.begin(), c_.end()); }
    RCP<const Boolean> logical_not() const override;
};
class Or : public Boolean {
    set_boolean c_;
public:
    SE_NODE(SE_OR)
    explicit Or(const set_boolean& s) : Boolean(SE_OR), c_(s) {}
    const set_boolean& get_container() const { return c_; }
    vec_basic get_args() const override { return vec_basic(c_.begin(), c_.end()); }
    RCP<const Boolean> logical_not() const override;
};
class Not : public Boolean {
    RCP<const Boolean> a_;
public:
    SE_NODE(SE_NOT)
    explicit Not(const RCP<const Boolean>& a) : Boolean(SE_NOT), a_(a) {}
    const RCP<const Boolean>& get_arg() const { return a_; }
    vec_basic get_args() const override { return {a_}; }
    RCP<const Boolean> logical_not() const override;
};
class Relational : public Boolean {
    RCP<const Basic> a_, b_;
protected:
    Relational(TypeID c, const RCP<const Basic>& a, const RCP<const Basic>& b) : Boolean(c), a_(a), b_(b) {}
public:
    const RCP<const Basic>& get_arg1() const { return a_; }
    const RCP<const Basic>& get_arg2() const { return b_; }
    vec_basic get_args() const override { return {a_, b_}; }
};
#define SE_REL(N, CODE) class N : public Relational { public: SE_NODE(CODE) N(const RCP<const Basic>& a, const RCP<const Basic>& b) : Relational(CODE, a, b) {} RCP<const Boolean> logical_not() const override; };
SE_REL(Equality, SE_EQUALITY)
SE_REL(Unequality, SE_UNEQUALITY)
SE_REL(LessThan, SE_LESSTHAN)
SE_REL(StrictLessThan, SE_STRICTLESSTHAN)

inline const RCP<const Integer> zero = make_rcp<const Integer>(0), one = make_rcp<const Integer>(1), minus_one = make_rcp<const Integer>(-1);
inline const RCP<const Infty> Inf = make_rcp<const Infty>(1), NegInf = make_rcp<const Infty>(-1), ComplexInf = make_rcp<const Infty>(0);
inline const RCP<const NaN> Nan = make_rcp<const NaN>();
inline const RCP<const BooleanAtom> boolTrue = make_rcp<const BooleanAtom>(true), boolFalse = make_rcp<const BooleanAtom>(false);
inline const RCP<const Constant> E = make_rcp<const Constant>("E"), pi = make_rcp<const Constant>("pi");

RCP<const Symbol> symbol(const std::string& name);
RCP<const BooleanAtom> boolean(bool b);
RCP<const Basic> add(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> add(const vec_basic& a);
RCP<const Basic> sub(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> mul(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> mul(const vec_basic& a);
RCP<const Basic> div(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> neg(const RCP<const Basic>& a);
RCP<const Basic> pow(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Basic> max(const vec_basic& a);
RCP<const Basic> min(const vec_basic& a);
RCP<const Basic> ceiling(const RCP<const Basic>& a);
RCP<const Basic> function_symbol(std::string name, const RCP<const Basic>& a);
RCP<const Basic> function_symbol(std::string name, const vec_basic& a);
RCP<const Boolean> Eq(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Ne(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Lt(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Le(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Gt(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> Ge(const RCP<const Basic>& a, const RCP<const Basic>& b);
RCP<const Boolean> logical_and(const set_boolean& s);
RCP<const Boolean> logical_or(const set_boolean& s);
RCP<const Boolean> logical_not(const RCP<const Boolean>& s);
RCP<const Basic> expand(const RCP<const Basic>& e, bool deep = true);
RCP<const Basic> simplify(const RCP<const Basic>& e);
RCP<const Basic> subs(const RCP<const Basic>& e, const map_basic_basic& d);
RCP<const Basic> parse(const std::string& s, bool convert_xor = true);
void as_numer_denom(const RCP<const Basic>& x, const Ptr<RCP<const Basic>>& n, const Ptr<RCP<const Basic>>& d);
set_basic free_symbols(const Basic& b);
bool has_symbol(const Basic& b, const Basic& s);
template <class T> void atoms_collect(const Basic& b, std::set<RCP<const Basic>, RCPBasicKeyLess>& s, std::set<RCP<const Basic>, RCPBasicKeyLess>& seen) {
    if (!seen.insert(b.rcp_from_this()).second) return;
    if (is_a_sub<T>(b)) s.insert(b.rcp_from_this());
    for (auto& a : b.get_args()) atoms_collect<T>(*a, s, seen);
}
template <class... T> set_basic atoms(const Basic& b) {
    set_basic s;
    (([&] { set_basic seen; atoms_collect<T>(b, s, seen); }()), ...);
    return s;
}

// ---- Expression and multivariate polynomials ------------------------------------------------------------------
class Expression {
    RCP<const Basic> b_;
public:
    Expression() : b_(integer(0)) {}
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>> Expression(T v) : b_(integer(v)) {}
    template <class T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0> Expression(T d) : b_(real_double(d)) {}
    Expression(const std::string& s) : b_(parse(s)) {}
    Expression(const RCP<const Basic>& b) : b_(b) {}
    template <class T> Expression(const RCP<const T>& b) : b_(b) {}
    operator const RCP<const Basic>&() const { return b_; }
    const RCP<const Basic>& get_basic() const { return b_; }
    friend Expression operator+(const Expression& a, const Expression& b) { return Expression(add(a.b_, b.b_)); }
    friend Expression operator-(const Expression& a, const Expression& b) { return Expression(sub(a.b_, b.b_)); }
    friend Expression operator*(const Expression& a, const Expression& b) { return Expression(mul(a.b_, b.b_)); }
    friend Expression operator/(const Expression& a, const Expression& b) { return Expression(div(a.b_, b.b_)); }
    bool operator==(const Expression& o) const { return eq(*b_, *o.b_); }
    bool operator!=(const Expression& o) const { return !eq(*b_, *o.b_); }
};
struct vec_int_hash { size_t operator()(const vec_int& v) const { size_t h = 0; for (int i : v) h = h * 1000003u + (unsigned)i; return h; } };
class MExprDict {
public:
    typedef std::unordered_map<vec_int, Expression, vec_int_hash> dict_type;
    dict_type dict_;
    unsigned vec_size = 0;
    const dict_type& get_dict() const { return dict_; }
};
class MExprPoly : public Basic {
    set_basic vars_; MExprDict poly_;
public:
    SE_NODE(SE_MEXPRPOLY)
    MExprPoly(const set_basic& v, MExprDict&& p) : Basic(SE_MEXPRPOLY), vars_(v), poly_(std::move(p)) {}
    const MExprDict& get_poly() const { return poly_; }
    const set_basic& get_vars() const { return vars_; }
    vec_basic get_args() const override { return {}; }
};
RCP<const MExprPoly> mexprpoly_from_basic(const RCP<const Basic>& b, const set_basic& gens, bool ex);
template <class P> RCP<const P> from_basic(const RCP<const Basic>& b, set_basic& gens, bool ex = true) { return mexprpoly_from_basic(b, gens, ex); }
template <class P, class S> RCP<const P> from_basic(const RCP<const Basic>& b, S& gens, bool ex = true) { set_basic g(gens.begin(), gens.end()); return mexprpoly_from_basic(b, g, ex); }

// ---- visitors and printers ------------------------------------------------------------------------------------
#define SE_CLASSES(X) X(Integer) X(Rational) X(RealDouble) X(Infty) X(NaN) X(Symbol) X(Mul) X(Add) X(Pow) X(MExprPoly) X(Constant) X(Ceiling) X(FunctionSymbol) \
    X(BooleanAtom) X(And) X(Or) X(Not) X(Equality) X(Unequality) X(LessThan) X(StrictLessThan) X(Max) X(Min)
class Visitor {
public:
    virtual ~Visitor() {}
#define X(T) virtual void visit(const T&) = 0;
    SE_CLASSES(X)
#undef X
};
template <class Derived, class Base = Visitor> class BaseVisitor : public Base {
public:
    using Base::Base;
#define X(T) void visit(const T& x) override { static_cast<Derived*>(this)->bvisit(x); }
    SE_CLASSES(X)
#undef X
};
class StrPrinter : public BaseVisitor<StrPrinter> {
protected:
    std::string str_;
    virtual void _print_pow(std::ostringstream& o, const RCP<const Basic>& a, const RCP<const Basic>& b);
    std::string parenthesize(const std::string& s) { return "(" + s + ")"; }
    std::string parenthesizeLT(const RCP<const Basic>& x, int prec);
    std::string parenthesizeLE(const RCP<const Basic>& x, int prec);
public:
    void bvisit(const Basic& x);
    void bvisit(const Integer& x);
    void bvisit(const Rational& x);
    void bvisit(const RealDouble& x);
    void bvisit(const Infty& x);
    void bvisit(const NaN& x);
    void bvisit(const Symbol& x);
    void bvisit(const Constant& x);
    void bvisit(const Add& x);
    void bvisit(const Mul& x);
    void bvisit(const Pow& x);
    void bvisit(const Ceiling& x);
    void bvisit(const FunctionSymbol& x);
    void bvisit(const Max& x);
    void bvisit(const Min& x);
    void bvisit(const BooleanAtom& x);
    void bvisit(const And& x);
    void bvisit(const Or& x);
    void bvisit(const Not& x);
    void bvisit(const Equality& x);
    void bvisit(const Unequality& x);
    void bvisit(const LessThan& x);
    void bvisit(const StrictLessThan& x);
    std::string apply(const RCP<const Basic>& b) { return apply(*b); }
    std::string apply(const vec_basic& v);
    std::string apply(const Basic& b);
};
class CodePrinter : public BaseVisitor<CodePrinter, StrPrinter> {
public:
    using StrPrinter::apply;
    using StrPrinter::bvisit;
    using StrPrinter::str_;
    void bvisit(const Rational& x);
    void bvisit(const Ceiling& x);
    void bvisit(const Max& x);
    void bvisit(const Min& x);
};
} // namespace SymEngine
#undef SE_NODE
#undef SE_REL
