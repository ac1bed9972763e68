// A small textual language for structured SDFGs, templates of it with alternatives, and the comparison of two programs.
#pragma once
#include <sdfg/builder/structured_sdfg_builder.h>
#include <sdfg/types/utils.h>
#include "interp.h"
#include "vc.h"

namespace vp {
using namespace sdfg;
using vi::Interp;
using vi::Value;
using vi::PT;

// ---- templates: $(a|b|c) stands for its alternatives, nested; the fragments of one template are expanded independently ----
struct Template {
    struct Node { std::string text; std::vector<std::vector<Node>> alts; };
    std::vector<Node> root;
    // alternatives that begin with ~ are left out unless full
    explicit Template(const std::string& s, bool full = true) { size_t p = 0; root = seq(s, p, false); prune(root, full); }
    static void prune(std::vector<Node>& v, bool full) {
        for (auto& n : v) {
            std::vector<std::vector<Node>> keep;
            for (auto& a : n.alts) {
                bool extra = !a.empty() && a[0].alts.empty() && a[0].text[0] == '~';
                if (extra && !full) continue;
                if (extra) a[0].text.erase(0, 1);
                prune(a, full); keep.push_back(a);
            }
            n.alts = keep;
        }
    }
    static std::vector<Node> seq(const std::string& s, size_t& p, bool inner) {
        std::vector<Node> r; std::string t;
        auto flush = [&] { if (!t.empty()) { Node n; n.text = t; r.push_back(n); t.clear(); } };
        int par = 0;
        while (p < s.size()) {
            if (s[p] == '$' && p + 1 < s.size() && s[p + 1] == '(') {
                flush(); p += 2; Node n;
                while (true) { n.alts.push_back(seq(s, p, true)); if (p >= s.size()) throw std::logic_error("template: " + s); if (s[p++] == ')') break; }
                r.push_back(n); continue;
            }
            if (inner && !par && (s[p] == '|' || s[p] == ')')) break;
            if (s[p] == '(') par++;
            if (s[p] == ')') par--;
            t += s[p++];
        }
        flush(); return r;
    }
    static int64_t size(const std::vector<Node>& v) { int64_t n = 1; for (auto& x : v) if (!x.alts.empty()) { int64_t k = 0; for (auto& a : x.alts) k += size(a); n *= k; } return n; }
    static void emit(const std::vector<Node>& v, int64_t i, std::string& out) {
        for (auto& x : v) {
            if (x.alts.empty()) { out += x.text; continue; }
            int64_t k = 0; for (auto& a : x.alts) k += size(a);
            int64_t j = i % k; i /= k;
            for (auto& a : x.alts) { int64_t n = size(a); if (j < n) { emit(a, j, out); break; } j -= n; }
        }
    }
    int64_t size() const { return size(root); }
    std::string at(int64_t i) const { std::string s; emit(root, i, s); return s; }
};

// ---- the language ----
//   for i=a..b {..}  for i=a..b:step {..}  for (i=a; cond; i=e) {..}   map likewise
//   if (c) {..} else if (c) {..} else {..}      loop {..}      break; continue; return; return s;
//   A[i] = B[i] + 1;    s = A[i];    P = &A[i];    (one block each; a statement list in {{ }} shares one block)
//   k := e, j := f;     an empty block with assignments;     after another statement: "... ; & k := e;"
//   nop;                an empty block
// Names: A..H pointers to int64 (arguments), X Y Z pointers to double (arguments), N M K int64 arguments, p q int32
// arguments, T U local arrays of 8 int64, P Q R local pointers, x y z local doubles, c d local int32, b local bool,
// W: local array of 8 doubles, G2/H2: argument pointers to rows of 6 int64, L: int64 global; other names: local int64.
struct Builder {
    std::unique_ptr<builder::StructuredSDFGBuilder> b;
    std::string s; size_t p = 0;
    std::map<std::string, bool> declared;

    static std::unique_ptr<StructuredSDFG> parse(const std::string& src) {
        Builder x; x.s = src;
        types::Scalar v(PT::Int64);
        x.b = std::make_unique<builder::StructuredSDFGBuilder>("prog", FunctionType_CPU, v);
        // arguments are declared in a fixed order
        for (auto n : {"A", "B", "C", "D", "E", "F", "G", "H", "X", "Y", "Z", "G2", "H2", "N", "M", "K", "p", "q"}) if (x.mentions(n)) x.declare(n);
        x.stmts(x.b->subject().root());
        return x.b->move();
    }
    bool mentions(const std::string& n) {
        for (size_t q = 0; (q = s.find(n, q)) != std::string::npos; q++) {
            auto w = [&](char c) { return isalnum((unsigned char)c) || c == '_'; };
            if ((q == 0 || !w(s[q - 1])) && (q + n.size() >= s.size() || !w(s[q + n.size()]))) return true;
        }
        return false;
    }
    static types::Scalar sc(PT t) { return types::Scalar(t); }
    static std::unique_ptr<types::IType> type_of(const std::string& n) {
        char c = n[0];
        if (n == "G2" || n == "H2") return types::Pointer(types::Array(sc(PT::Int64), symbolic::integer(6))).clone();
        if (n.size() == 1 && c >= 'A' && c <= 'H') return types::Pointer(sc(PT::Int64)).clone();
        if (n.size() == 1 && c >= 'X' && c <= 'Z') return types::Pointer(sc(PT::Double)).clone();
        if (n.size() == 1 && c >= 'P' && c <= 'R') return types::Pointer(sc(PT::Int64)).clone();
        if (n == "T" || n == "U") return types::Array(sc(PT::Int64), symbolic::integer(8)).clone();
        if (n == "W") return types::Array(sc(PT::Double), symbolic::integer(8)).clone();
        if (n == "x" || n == "y" || n == "z") return sc(PT::Double).clone();
        if (n == "p" || n == "q" || n == "c" || n == "d") return sc(PT::Int32).clone();
        if (n == "b") return sc(PT::Bool).clone();
        return sc(PT::Int64).clone();
    }
    static bool is_arg(const std::string& n) { return n == "G2" || n == "H2" || n == "p" || n == "q" || (n.size() == 1 && ((n[0] >= 'A' && n[0] <= 'H') || (n[0] >= 'X' && n[0] <= 'Z') || n == "N" || n == "M" || n == "K")); }
    void declare(const std::string& n) {
        if (declared[n]) return; declared[n] = true;
        if (n == "L") b->add_external(n, types::Pointer(sc(PT::Int64)), LinkageType_External);
        else b->add_container(n, *type_of(n), is_arg(n));
    }
    // lexer
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
    bool at(const char* t) { ws(); return s.compare(p, strlen(t), t) == 0; }
    bool eat(const char* t) {
        if (!at(t)) return false;
        size_t n = strlen(t);
        if (isalpha((unsigned char)t[0]) && p + n < s.size() && (isalnum((unsigned char)s[p + n]) || s[p + n] == '_')) return false;
        p += n; return true;
    }
    [[noreturn]] void err(const std::string& m) { throw std::logic_error(m + " at \"" + s.substr(p, 30) + "\" in: " + s); }
    void need(const char* t) { if (!eat(t)) err(std::string("expected ") + t); }
    std::string ident() { ws(); size_t q = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) p++; if (q == p || isdigit((unsigned char)s[q])) err("identifier"); return s.substr(q, p - q); }
    bool is_ident() { ws(); return p < s.size() && (isalpha((unsigned char)s[p]) || s[p] == '_'); }
    // symbolic expressions
    symbolic::Expression expr() {
        auto a = term();
        while (true) {
            if (at("+")) { eat("+"); a = symbolic::add(a, term()); }
            else if (at("-")) { eat("-"); a = symbolic::sub(a, term()); }
            else return a;
        }
    }
    symbolic::Expression term() {
        auto a = factor();
        while (true) {
            if (at("*")) { eat("*"); a = symbolic::mul(a, factor()); }
            else if (at("/")) { eat("/"); a = symbolic::div(a, factor()); }
            else if (at("%")) { eat("%"); a = symbolic::mod(a, factor()); }
            else return a;
        }
    }
    symbolic::Expression factor() {
        if (eat("(")) { auto a = expr(); need(")"); return a; }
        if (eat("-")) return symbolic::sub(symbolic::zero(), factor());
        ws();
        if (isdigit((unsigned char)s[p])) { char* e; long v = strtol(&s[p], &e, 10); p = e - &s[0]; return symbolic::integer(v); }
        auto n = ident();
        if (n == "min" || n == "max") { need("("); auto a = expr(); need(","); auto c = expr(); need(")"); return n == "min" ? symbolic::min(a, c) : symbolic::max(a, c); }
        if (n == "abs") { need("("); auto a = expr(); need(")"); return symbolic::abs(a); }
        declare(n);
        return symbolic::symbol(n);
    }
    symbolic::Condition cond() { auto a = conj(); while (eat("or")) a = symbolic::Or(a, conj()); return a; }
    symbolic::Condition conj() { auto a = atom(); while (eat("and")) a = symbolic::And(a, atom()); return a; }
    symbolic::Condition atom() {
        if (eat("not")) return symbolic::Not(atom());
        if (eat("true")) return symbolic::__true__();
        if (eat("false")) return symbolic::__false__();
        if (at("(")) { size_t q = p; eat("("); try { auto a = cond(); need(")"); ws(); if (!at("+") && !at("*") && !at("<") && !at(">") && !at("=")) return a; } catch (std::logic_error&) {} p = q; }
        auto a = expr();
        if (eat("<=")) return symbolic::Le(a, expr());
        if (eat(">=")) return symbolic::Ge(a, expr());
        if (eat("==")) return symbolic::Eq(a, expr());
        if (eat("!=")) return symbolic::Ne(a, expr());
        if (eat("<")) return symbolic::Lt(a, expr());
        if (eat(">")) return symbolic::Gt(a, expr());
        err("comparison");
    }
    // operands of tasklets
    struct Operand { std::string name; data_flow::Subset sub; bool constant = false; std::string text; PT t = PT::Int64; };
    static PT elem_type(const types::IType& t, size_t depth) {
        switch (t.type_id()) {
            case types::TypeID::Scalar: return t.primitive_type();
            case types::TypeID::Array: return elem_type(static_cast<const types::Array&>(t).element_type(), depth);
            case types::TypeID::Pointer: return elem_type(static_cast<const types::Pointer&>(t).pointee_type(), depth);
            default: throw std::logic_error("type");
        }
    }
    Operand operand() {
        Operand o; ws();
        if (isdigit((unsigned char)s[p]) || (s[p] == '-' && isdigit((unsigned char)s[p + 1]))) {
            size_t q = p; p++; bool f = false; while (p < s.size() && (isdigit((unsigned char)s[p]) || (s[p] == '.' && s[p + 1] != '.'))) { f |= s[p] == '.'; p++; }
            o.constant = true; o.text = s.substr(q, p - q); o.t = f ? PT::Double : PT::Int64; return o;
        }
        o.name = ident(); declare(o.name);
        while (eat("[")) { o.sub.push_back(expr()); while (eat(",")) o.sub.push_back(expr()); need("]"); }
        o.t = elem_type(*type_of(o.name), 0);
        return o;
    }
    std::unique_ptr<types::IType> base(const Operand& o) { return o.name == "L" ? types::Pointer(sc(PT::Int64)).clone() : type_of(o.name); }
    void statement_into(structured_control_flow::Block& blk, std::map<std::string, data_flow::AccessNode*>& last) {
        Operand l = operand(); need("=");
        auto node = [&](const Operand& o) -> data_flow::AccessNode& {
            if (o.constant) return b->add_constant(blk, o.text, sc(o.t));
            auto it = last.find(o.name); if (it != last.end()) return *it->second;
            auto& n = b->add_access(blk, o.name); last[o.name] = &n; return n;
        };
        if (eat("&")) {
            Operand r = operand(); auto& src = node(r); auto& dst = b->add_access(blk, l.name); last[l.name] = &dst;
            b->add_reference_memlet(blk, src, dst, r.sub, *type_of(r.name)); need(";"); return;
        }
        std::vector<Operand> in; std::string op;
        if (at("min(") || at("max(") || at("abs(") || at("fma(")) {
            op = s.substr(p, 3); p += 4; in.push_back(operand()); while (eat(",")) in.push_back(operand()); need(")");
        } else if (at("-") && !isdigit((unsigned char)s[p + 1])) { eat("-"); in.push_back(operand()); op = "neg"; }
        else {
            in.push_back(operand());
            for (auto o : {"<<", ">>", "<=", ">=", "==", "!=", "+", "-", "*", "/", "%", "&", "^", "<", ">"}) if (at(o)) { p += strlen(o); op = o; in.push_back(operand()); break; }
        }
        need(";");
        bool f = false; for (auto& o : in) f |= types::is_floating_point(o.t);
        using T = data_flow::TaskletCode;
        static const std::map<std::string, std::pair<T, T>> ops = {{"", {T::assign, T::assign}}, {"+", {T::int_add, T::fp_add}}, {"-", {T::int_sub, T::fp_sub}}, {"*", {T::int_mul, T::fp_mul}}, {"/", {T::int_sdiv, T::fp_div}},
            {"%", {T::int_srem, T::fp_rem}}, {"&", {T::int_and, T::int_and}}, {"^", {T::int_xor, T::int_xor}}, {"<<", {T::int_shl, T::int_shl}}, {">>", {T::int_ashr, T::int_ashr}}, {"<", {T::int_slt, T::fp_olt}}, {"<=", {T::int_sle, T::fp_ole}},
            {">", {T::int_sgt, T::fp_ogt}}, {">=", {T::int_sge, T::fp_oge}}, {"==", {T::int_eq, T::fp_oeq}}, {"!=", {T::int_ne, T::fp_one}}, {"min", {T::int_smin, T::int_smin}}, {"max", {T::int_smax, T::int_smax}}, {"abs", {T::int_abs, T::int_abs}},
            {"neg", {T::int_sub, T::fp_neg}}, {"fma", {T::fp_fma, T::fp_fma}}};
        if (op == "neg" && !f) { Operand z; z.constant = true; z.text = "0"; z.t = PT::Int64; in.insert(in.begin(), z); }
        T code = f ? ops.at(op).second : ops.at(op).first;
        std::vector<std::string> conns; for (size_t i = 0; i < in.size(); i++) conns.push_back("_in" + std::to_string(i));
        auto& t = b->add_tasklet(blk, code, "_out", conns);
        for (size_t i = 0; i < in.size(); i++) {
            auto& n = node(in[i]);
            if (in[i].constant) b->add_computational_memlet(blk, n, t, conns[i], {}, sc(in[i].t));
            else b->add_computational_memlet(blk, n, t, conns[i], in[i].sub, *base(in[i]));
        }
        auto& dst = b->add_access(blk, l.name); last[l.name] = &dst;
        b->add_computational_memlet(blk, t, "_out", dst, l.sub, *base(l));
    }
    void assignments(control_flow::Assignments& a) {
        do { auto n = ident(); declare(n); need(":="); auto e = expr(); a[symbolic::symbol(n)] = e; } while (eat(","));
        need(";");
    }
    control_flow::Assignments trailing() { control_flow::Assignments a; while (at("& ")) { eat("&"); assignments(a); } return a; }
    void add_trailing(structured_control_flow::Sequence& q) { auto a = trailing(); if (!a.empty()) for (auto& x : a) q.at(q.size() - 1).second.assignments()[x.first] = x.second; }
    void block(structured_control_flow::Sequence& q) { need("{"); stmts(q); need("}"); }
    void stmts(structured_control_flow::Sequence& q) { while (ws(), p < s.size() && s[p] != '}') { stmt(q); add_trailing(q); } }
    void stmt(structured_control_flow::Sequence& q) {
        if (eat(";")) return;
        if (at("{{")) {
            p += 2; auto& blk = b->add_block(q); std::map<std::string, data_flow::AccessNode*> last;
            while (!at("}}")) statement_into(blk, last); p += 2; return;
        }
        if (at("{")) { auto& n = b->add_sequence(q); block(n); return; }
        bool m = eat("map"), f = !m && eat("for");
        if (m || f) {
            symbolic::Expression init, update; symbolic::Condition c; std::string i;
            if (eat("(")) { i = ident(); declare(i); need("="); init = expr(); need(";"); c = cond(); need(";"); ident(); need("="); update = expr(); need(")"); }
            else {
                i = ident(); declare(i); need("="); init = expr(); need(".."); auto hi = expr(); symbolic::Expression st = symbolic::one(); if (eat(":")) st = expr();
                auto sy = symbolic::symbol(i); c = symbolic::Lt(sy, hi); update = symbolic::add(sy, st);
            }
            auto sy = symbolic::symbol(i);
            if (m) { auto& l = b->add_map(q, sy, c, init, update, structured_control_flow::ScheduleType_Sequential::create()); block(l.root()); }
            else { auto& l = b->add_for(q, sy, c, init, update); block(l.root()); }
            return;
        }
        if (eat("if")) {
            auto& ie = b->add_if_else(q); symbolic::Condition rest = symbolic::__true__();
            bool more = true;
            while (more) {
                need("("); auto c = cond(); need(")");
                auto& cs = b->add_case(ie, symbolic::And(rest, c)); block(cs); rest = symbolic::And(rest, symbolic::Not(c));
                more = false;
                if (eat("else")) { if (eat("if")) more = true; else { auto& e = b->add_case(ie, rest); block(e); } }
            }
            return;
        }
        if (eat("loop")) { auto& w = b->add_while(q); block(w.root()); return; }
        if (eat("break")) { need(";"); b->add_break(q); return; }
        if (eat("continue")) { need(";"); b->add_continue(q); return; }
        if (eat("nop")) { need(";"); b->add_block(q); return; }
        if (eat("return")) { if (is_ident()) { auto n = ident(); declare(n); need(";"); b->add_return(q, n); } else { need(";"); b->add_constant_return(q, "0", sc(PT::Int64)); } return; }
        size_t save = p;
        if (is_ident()) { ident(); if (at(":=")) { p = save; control_flow::Assignments a; assignments(a); b->add_block(q, a); return; } p = save; }
        auto& blk = b->add_block(q); std::map<std::string, data_flow::AccessNode*> last; statement_into(blk, last);
    }
};
inline std::unique_ptr<StructuredSDFG> build(const std::string& src) { return Builder::parse(src); }

// ---- running and comparing ----
struct Env { int64_t N = 3, M = 2, K = 1, p = 2, q = -1; int fill = 0; std::string str() const { return "N=" + std::to_string(N) + " M=" + std::to_string(M) + " K=" + std::to_string(K) + " p=" + std::to_string(p) + " q=" + std::to_string(q) + " fill=" + std::to_string(fill); } };
struct Outcome {
    enum Kind { Ok, Undef, Unsup, Slow } kind = Ok; std::string why;
    std::vector<std::pair<std::string, vi::Memory::Obj>> mem; bool has_ret = false; Value ret;
};
const int LO = 12, HI = 28;  // elements before and after the address an argument pointer holds
typedef std::function<void(Interp&)> Prepare;
inline Outcome run(const StructuredSDFG& s, const Env& e, Prepare prep = {}, long max_steps = 6000) {
    Outcome o; Interp in(s); in.max_steps = max_steps;
    std::map<std::string, uint64_t> objs;
    try {
        std::vector<std::string> names = s.arguments();
        for (auto& n : s.externals()) names.push_back(n);
        for (auto& n : names) {
            auto& t = s.type(n);
            if (s.is_external(n)) { in.declare(n); Value v; v.t = PT::Int64; v.i = 41; in.store_raw(in.var[n], v); objs[n] = in.var[n]; continue; }
            if (t.type_id() == types::TypeID::Scalar) {
                int64_t v = n == "N" ? e.N : n == "M" ? e.M : n == "K" ? e.K : n == "p" ? e.p : n == "q" ? e.q : 7;
                in.bind(n, v); continue;
            }
            if (t.type_id() != types::TypeID::Pointer) throw vi::Unsupported("argument type");
            PT pt = Builder::elem_type(t, 0); size_t w = vi::width(pt) / 8;
            uint64_t a = in.m.alloc((LO + HI) * w, n); objs[n] = a;
            for (int k = 0; k < LO + HI; k++) {
                Value v; v.t = pt; int64_t x;
                if (e.fill == 0) x = (int64_t)(n[0]) * 1000 + k * 7;          // all different
                else if (e.fill == 1) x = (k * 5 + n[0]) % 4;                  // small: usable as indices
                else x = k % 2 ? -(int64_t)k - n[0] : k % 3;                   // signs mixed
                if (vi::fp(pt)) { v.d = (double)x + 0.5; if (pt == PT::Float) v.d = (float)v.d; } else v.i = vi::wrap(x, pt);
                in.store_raw(a + k * w, v);
            }
            in.bind_ptr(n, a + LO * w);
        }
        if (prep) prep(in);
        in.execute();
        o.has_ret = in.has_ret; o.ret = in.ret;
    } catch (vi::Undefined& x) { o.kind = Outcome::Undef; o.why = x.what(); }
    catch (vi::Unsupported& x) { o.kind = Outcome::Unsup; o.why = x.what(); }
    catch (vi::Timeout& x) { o.kind = Outcome::Slow; o.why = x.what(); }
    for (auto& [n, a] : objs) o.mem.push_back({n, in.m.o[(a >> 32) - 1]});
    return o;
}
// Watches the iterations of maps: two iterations of one map that touch the same argument memory, one of them writing,
// or a local value that flows from one iteration to another, make the program depend on the schedule.
struct RaceMonitor {
    struct Active { const void* map; long inst; long iter; };
    std::vector<Active> stack; long insts = 0, iters = 0; std::string race;
    std::function<bool(const void* map, const std::string& container)> is_private;  // unset: everything but external storage
    bool same_value_ok = false;  // several iterations writing a scalar are left to the comparison of results
    struct Cell { std::map<long, std::pair<std::set<long>, std::set<long>>> by_map; };  // instance -> iterations that write, read
    std::map<uint64_t, Cell> cells;
    void attach(Interp& in) {
        in.on_loop = [this](const vi::scf::ControlFlowNode& n, bool enter) {
            if (!dynamic_cast<const vi::scf::Map*>(&n)) return;
            if (enter) stack.push_back({&n, ++insts, 0}); else stack.pop_back();
        };
        in.on_iter = [this](const vi::scf::StructuredLoop& l, int64_t) { if (!stack.empty() && stack.back().map == &l) stack.back().iter = ++iters; };
        Interp* p = &in;
        in.on_access = [this, p](uint64_t a, size_t n, bool w, const Element* e, const std::string& c) {
            if (stack.empty() || !race.empty()) return;
            bool shared = true; std::string obj;
            size_t id = (a >> 32); if (!id || id > p->m.o.size()) return;
            obj = p->m.o[id - 1].name;
            for (auto& [k, v] : p->var) if (v == a) shared = p->f.is_external(k);  // the container's own storage: private to an iteration if written before it is read
            for (size_t b = 0; b < n; b++) {
                auto& cell = cells[a + b];
                for (auto& s : stack) {
                    if (!s.iter) continue;  // the map's own header
                    if (is_private) { shared = true; for (auto& [k, v] : p->var) if ((v >> 32) == (a >> 32) && is_private(s.map, k)) shared = false; }
                    if (dynamic_cast<const vi::scf::StructuredLoop*>(e) == s.map) continue;
                    auto& [wr, rd] = cell.by_map[s.inst];
                    if (shared) {
                        bool skip = w && same_value_ok && p->f.exists(obj) && p->f.type(obj).type_id() == types::TypeID::Scalar;
                        if (!skip) for (auto x : wr) if (x != s.iter) race = "iterations of a map conflict on " + obj;
                        if (w) for (auto x : rd) if (x != s.iter) race = "iterations of a map conflict on " + obj;
                        (w ? wr : rd).insert(s.iter);
                    } else if (w) {  // private: only what an iteration reads without having written it itself comes from elsewhere
                        for (auto x : rd) if (x != s.iter) race = "a local value flows between iterations: " + obj;
                        wr.insert(s.iter);
                    } else if (!wr.count(s.iter)) {
                        if (!wr.empty()) race = "a local value flows between iterations: " + obj;
                        rd.insert(s.iter);
                    }
                }
            }
        };
    }
};
inline std::vector<size_t> reversed(const vi::scf::Map&, size_t n) { std::vector<size_t> v; for (size_t i = n; i--;) v.push_back(i); return v; }
inline std::vector<size_t> odd_even(const vi::scf::Map&, size_t n) { std::vector<size_t> v; for (size_t i = 1; i < n; i += 2) v.push_back(i); for (size_t i = 0; i < n; i += 2) v.push_back(i); return v; }
// "" if b is an allowed outcome where a is the original program's
inline std::string differs(const Outcome& a, const Outcome& b, const StructuredSDFG& s) {
    if (a.kind != Outcome::Ok) return "";
    if (b.kind == Outcome::Undef) return "the result is undefined: " + b.why;
    if (b.kind == Outcome::Slow) return "the result does not end";
    if (b.kind == Outcome::Unsup) return "";
    if (a.has_ret != b.has_ret) return "one returns a value, the other does not";
    if (a.has_ret && !a.ret.poison) {
        if (b.ret.poison) return "returns an undefined value";
        if (a.ret.i != b.ret.i || (vi::fp(a.ret.t) && memcmp(&a.ret.d, &b.ret.d, 8))) return "returns " + std::to_string((long long)b.ret.i) + " instead of " + std::to_string((long long)a.ret.i);
    }
    for (auto& [n, x] : a.mem) {
        const vi::Memory::Obj* y = nullptr; for (auto& [m, o] : b.mem) if (m == n) y = &o;
        if (!y) continue;  // an argument that is gone is read and written by neither
        auto& t = s.type(n); PT pt = Builder::elem_type(t, 0); size_t w = vi::width(pt) / 8;
        for (size_t k = 0; k + w <= x.b.size(); k += w) {
            bool da = true, db = true; for (size_t j = 0; j < w; j++) { da &= x.def[k + j] != 0; db &= y->def[k + j] != 0; }
            if (!da) continue;
            std::string at = n + "[" + std::to_string((long)(k / w) - (s.is_external(n) ? 0 : LO)) + "]";
            if (!db) return at + " is left undefined";
            if (memcmp(&x.b[k], &y->b[k], w)) {
                int64_t p = 0, q = 0; memcpy(&p, &x.b[k], w); memcpy(&q, &y->b[k], w);
                if (vi::fp(pt) && w == 8) { double u, v; memcpy(&u, &p, 8); memcpy(&v, &q, 8); return at + " is " + std::to_string(v) + " instead of " + std::to_string(u); }
                return at + " is " + std::to_string(q) + " instead of " + std::to_string(p);
            }
        }
    }
    return "";
}
}  // namespace vp
