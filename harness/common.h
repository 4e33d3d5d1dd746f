// Executable contracts: replays the specification against the real, compiled code of /repo on generated inputs.
// Bounded stand-in and counterexample search for the proofs; never counted as proved.
#pragma once
#include <tomsolver/tomsolver.h>
#if __has_include(<tomsolver/error_type.h>)
#include <tomsolver/config.h>
#include <tomsolver/diff.h>
#include <tomsolver/error_type.h>
#include <tomsolver/functions.h>
#include <tomsolver/linear.h>
#include <tomsolver/mat.h>
#include <tomsolver/math_operator.h>
#include <tomsolver/node.h>
#include <tomsolver/nonlinear.h>
#include <tomsolver/parse.h>
#include <tomsolver/simplify.h>
#include <tomsolver/subs.h>
#include <tomsolver/symmat.h>
#include <tomsolver/vars_table.h>
#endif
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <chrono>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
using namespace tomsolver;
using tomsolver::internal::NodeImpl;
typedef std::string str;
typedef MathOperator MO;
#define OPS_UN MO::MATH_POSITIVE, MO::MATH_NEGATIVE, MO::MATH_SIN, MO::MATH_COS, MO::MATH_TAN, MO::MATH_ARCSIN, MO::MATH_ARCCOS, MO::MATH_ARCTAN, MO::MATH_SQRT, MO::MATH_LOG, MO::MATH_LOG2, MO::MATH_LOG10, MO::MATH_EXP
#define OPS_BI MO::MATH_ADD, MO::MATH_SUB, MO::MATH_MULTIPLY, MO::MATH_DIVIDE, MO::MATH_POWER, MO::MATH_AND, MO::MATH_OR, MO::MATH_MOD
static const MO UN[] = {OPS_UN};
static const MO BI[] = {OPS_BI};
static inline bool isUn(MO o) { for (auto x : UN) if (x == o) return true; return false; }
static inline bool isBi(MO o) { for (auto x : BI) if (x == o) return true; return false; }
static inline const char *opName(MO o) {
    static const char *u[] = {"+", "-", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp"};
    static const char *b[] = {"+", "-", "*", "/", "^", "&", "|", "%"};
    for (int i = 0; i < 13; ++i) if (UN[i] == o) return u[i];
    for (int i = 0; i < 8; ++i) if (BI[i] == o) return b[i];
    return "?";
}
// ---------------------------------------------------------------- reporting
static char *curbuf; static long ncase; static int maxcases = 0;
static std::set<size_t> seen_cases; static std::vector<str> samples;
static double tlimit = 8; static std::chrono::steady_clock::time_point t0;
static inline void CASE(const str &s) {
    ++ncase;
    if (curbuf) { size_t n = std::min<size_t>(s.size(), 65000); memcpy(curbuf, s.data(), n); curbuf[n] = 0; }
    if (seen_cases.size() < 2000000) seen_cases.insert(std::hash<str>()(s));
    if (samples.size() < 3 && s.size() < 300) samples.push_back(s);
}
[[noreturn]] static inline void FAIL(const str &what) {
    printf("FAIL %s\n", what.c_str()); fflush(stdout); _exit(3);
}
#define CHECK(c, msg) do { if (!(c)) FAIL(str(msg) + "   [" #c "]"); } while (0)
static inline bool timeUp() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tlimit; }
struct Rng {
    uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    int operator()(int n) { return (int)((next() >> 11) % (uint64_t)n); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
static inline str fmtd(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
// ---------------------------------------------------------------- specification trees
struct S; typedef std::shared_ptr<S> SP;
struct S { int k; MO op; double v; str n; SP l, r; };
static inline SP sNum(double v) { return SP(new S{0, MO::MATH_NULL, v, "", nullptr, nullptr}); }
static inline SP sVar(str n) { return SP(new S{2, MO::MATH_NULL, 0, n, nullptr, nullptr}); }
static inline SP sOp(MO o, SP a, SP b = nullptr) { return SP(new S{1, o, 0, "", a, b}); }
static inline str show(const SP &t) {
    if (!t) return "nil";
    if (t->k == 0) return fmtd(t->v);
    if (t->k == 2) return t->n;
    if (!t->r) return str(opName(t->op)) + "(" + show(t->l) + ")";
    return "(" + show(t->l) + " " + opName(t->op) + " " + show(t->r) + ")";
}
static inline bool same(double a, double b) { return a == b || (a != a && b != b); }
static inline bool same(const SP &a, const SP &b) {
    if (!a || !b) return !a && !b;
    return a->k == b->k && a->op == b->op && same(a->v, b->v) && a->n == b->n && same(a->l, b->l) && same(a->r, b->r);
}
static inline int kindOf(NodeType t) { return t == NodeType::NUMBER ? 0 : t == NodeType::OPERATOR ? 1 : 2; }
static inline SP read(const Node &n) {
    if (!n) return nullptr;
    return SP(new S{kindOf(n->type), n->op, n->value, n->varname, read(n->left), read(n->right)});
}
static inline Node raw(const SP &t) {     // builds the real structure without using the operations under test
    if (!t) return nullptr;
    static const NodeType T[] = {NodeType::NUMBER, NodeType::OPERATOR, NodeType::VARIABLE};
    Node n(new NodeImpl(T[t->k], t->op, t->v, t->n));
    n->left = raw(t->l); n->right = raw(t->r);
    if (n->left) n->left->parent = n.get();
    if (n->right) n->right->parent = n.get();
    n->parent = nullptr;
    return n;
}
static inline str wfAt(const NodeImpl *n, const NodeImpl *parent) {
    if (n->parent != parent) return "wrong parent link";
    switch (n->type) {
    case NodeType::NUMBER: if (n->op != MO::MATH_NULL || n->varname != "" || n->left || n->right) return "number node keeps an operator, name or operand"; break;
    case NodeType::VARIABLE: if (n->op != MO::MATH_NULL || n->value != 0 || n->varname == "" || n->left || n->right) return "variable node keeps an operator, value or operand"; break;
    case NodeType::OPERATOR:
        if (n->varname != "" || n->value != 0) return "operator node keeps a name or value";
        if (isUn(n->op)) { if (!n->left || n->right) return "unary operator with the wrong operands"; }
        else if (isBi(n->op)) { if (!n->left || !n->right) return "binary operator with a missing operand"; }
        else return "operator node without operator";
        break;
    default: return "bad node kind";
    }
    if (n->left) { str e = wfAt(n->left.get(), n); if (e != "") return e; }
    if (n->right) { str e = wfAt(n->right.get(), n); if (e != "") return e; }
    return "";
}
static inline str wf(const Node &n) { return n ? wfAt(n.get(), nullptr) : str("empty expression"); }
static inline void nodes(const NodeImpl *n, std::set<const void *> &out) {
    if (!n) return;
    out.insert(n); nodes(n->left.get(), out); nodes(n->right.get(), out);
}
static inline bool disjoint(const Node &a, const Node &b) {
    std::set<const void *> x, y; nodes(a.get(), x); nodes(b.get(), y);
    for (auto p : x) if (y.count(p)) return false;
    return true;
}
static inline void vars(const SP &t, std::set<str> &o) { if (!t) return; if (t->k == 2) o.insert(t->n); vars(t->l, o); vars(t->r, o); }
static inline int size(const SP &t) { return t ? 1 + size(t->l) + size(t->r) : 0; }
// ---------------------------------------------------------------- specification of evaluation
static inline bool inInt(double v) { return v > -2147483649.0 && v < 2147483648.0; }
static inline double spec(MO op, double a, double b) {
    switch (op) {
    case MO::MATH_SIN: return std::sin(a); case MO::MATH_COS: return std::cos(a); case MO::MATH_TAN: return std::tan(a);
    case MO::MATH_ARCSIN: return std::asin(a); case MO::MATH_ARCCOS: return std::acos(a); case MO::MATH_ARCTAN: return std::atan(a);
    case MO::MATH_SQRT: return std::sqrt(a); case MO::MATH_LOG: return std::log(a); case MO::MATH_LOG2: return std::log2(a);
    case MO::MATH_LOG10: return std::log10(a); case MO::MATH_EXP: return std::exp(a);
    case MO::MATH_POSITIVE: return a; case MO::MATH_NEGATIVE: return -a;
    case MO::MATH_ADD: return a + b; case MO::MATH_SUB: return a - b; case MO::MATH_MULTIPLY: return a * b; case MO::MATH_DIVIDE: return a / b;
    case MO::MATH_POWER: return std::pow(a, b);
    default: break;
    }
    double nan = std::numeric_limits<double>::quiet_NaN();
    if (!inInt(a) || !inInt(b)) return nan;
    long x = (long)a, y = (long)b;
    if (op == MO::MATH_AND) return (double)(x & y);
    if (op == MO::MATH_OR) return (double)(x | y);
    return y == 0 ? nan : (double)(x % y);
}
struct Val { bool var = false, bad = false; double v = 0; };
typedef std::map<str, double> Envd;
static inline Val eval(const SP &t, const Envd &e) {
    Val r;
    if (t->k == 0) { r.v = t->v; return r; }
    if (t->k == 2) { auto i = e.find(t->n); if (i == e.end()) r.var = true; else r.v = i->second; return r; }
    Val a = eval(t->l, e), b; if (t->r) b = eval(t->r, e);
    r.var = a.var || b.var; r.bad = a.bad || b.bad;
    r.v = spec(t->op, a.v, b.v);
    if (!std::isfinite(r.v)) r.bad = true;
    return r;
}
// ---------------------------------------------------------------- generation
struct Gen {
    Rng &R; std::vector<str> names{"x", "y", "z", "_a1", "abc", "ab", "a_rather_long_name_of_a_Variable_9", "pi", "e", "a_name_that_is_longer_than_forty_characters_and_than_one_cache_line_of_64"}; double pvar = 0.5; bool ints = true, extremes = true; bool bitops = true; bool moderate = false;
    Gen(Rng &r) : R(r) {}
    double num() {
        static const double sp[] = {0, 1, -1, 2, -2, 0.5, 3, -0.0, 10, 1.5, -3.7, 3.7, 2147483647, -2147483648.0, 4294967296.0, 1e19, 1e-10, 1e300, -1e300, 1e-300, 0.1, 100, 7, 1e16, 123456.789};
        int n = moderate ? 7 : extremes ? 25 : 12;
        if (R(3)) return sp[R(n)];
        double v = (R.u() * 2 - 1) * (moderate ? 4 : R(2) ? 10 : 1000);
        return R(2) && ints ? std::floor(v) : v;
    }
    SP leaf() { return R.u() < pvar ? sVar(names[R(names.size() > 7 && R(4) ? 7 : (int)names.size())]) : sNum(num()); }
    MO un() { return UN[R(13)]; }
    MO bi() { return BI[R(bitops ? 8 : 5)]; }
    // long chains: left-deep, right-deep, mixed, mostly unary
    SP big(int cap = 1100) {
        static const int N[] = {12, 20, 40, 70, 130, 300, 1030}; int n, mode = R(4); do n = N[R(moderate ? 3 : 7)] + R(8); while (n > cap);
        SP cur = leaf();
        for (int i = 0; i < n; ++i) {
            if (R(mode == 3 ? 2 : 6) == 0) { cur = sOp(un(), cur); continue; }
            SP s = R(6) ? leaf() : R(2) ? sOp(un(), leaf()) : sOp(bi(), leaf(), leaf());
            cur = mode == 0 || (mode > 1 && R(2)) ? sOp(bi(), cur, s) : sOp(bi(), s, cur);
        }
        return cur;
    }
    SP tree(int d) {
        if (d >= 5 && R(150) == 0) return big();
        if (d <= 0 || R(8) == 0) return leaf();
        if (R(3) == 0) return sOp(un(), tree(d - 1));
        return sOp(bi(), tree(d - 1), tree(d - 1));
    }
    SP any() { return tree(R(6)); }
};
static inline Envd randEnv(Gen &g) { Envd e; for (auto &n : g.names) e[n] = g.num(); return e; }
struct Cfg { Cfg() { Config::Get().Reset(); Config::Get().logLevel = LogLevel::OFF; } ~Cfg() { Config::Get().Reset(); } };
static inline int clsOf(const std::function<void()> &f, str *what = nullptr) {   // 0 ok, 1 MathError, 2 ParseError, 3 runtime_error, 4 other std, 5 unknown
    try { f(); return 0; }
    catch (const MathError &e) { if (what) *what = e.what(); return 1; }
    catch (const ParseError &e) { if (what) *what = e.what(); return 2; }
    catch (const std::runtime_error &e) { if (what) *what = e.what(); return 3; }
    catch (const std::exception &e) { if (what) *what = e.what(); return 4; }
    catch (...) { return 5; }
}
void run(Rng &R, bool thorough);
#ifndef NO_MAIN
int main(int argc, char **argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; tlimit = argc > 2 ? atof(argv[2]) : 8;
    if (argc > 3) {
        int fd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 65536) == 0) curbuf = (char *)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    t0 = std::chrono::steady_clock::now();
    Rng R(seed);
    { Cfg c; run(R, tlimit > 20); }
    printf("CASES %ld DISTINCT %zu\n", ncase, seen_cases.size());
    for (auto &s : samples) { str o; for (char c : s) { if (c == '\n') o += "\\n"; else o += c; } printf("SAMPLE %s\n", o.c_str()); }
    fflush(stdout);
    return 0;
}
#endif
