#include "common.h"
#include "quad.h"
static bool bitvar(const SP &t) { if (!t || t->k != 1) return false; std::set<str> v; vars(t, v); if ((t->op == MO::MATH_AND || t->op == MO::MATH_OR || t->op == MO::MATH_MOD) && !v.empty()) return true; return bitvar(t->l) || bitvar(t->r); }
static bool bit(const SP &t) { if (!t || t->k != 1) return false; if (t->op == MO::MATH_AND || t->op == MO::MATH_OR || t->op == MO::MATH_MOD) return true; return bit(t->l) || bit(t->r); }
static void compare(Rng &R, const SP &t, const SP &d, const str &x, const std::vector<str> &names, int pts) {
    for (int k = 0; k < pts; ++k) {
        EnvQ e; str es; for (auto &n : names) { double v = R(6) == 0 ? R(5) - 2 : (R.u() * 2 - (R(2) ? 1 : 0)) * 2; e[n] = v; es += n + "=" + fmtd(v) + " "; }
        D a = dualq(t, x, e); if (!a.ok) continue;
        { bool ill = false; for (int j = 0; j < 3 && !ill; ++j) { unsigned s = 5 + 31 * k + j; D b = dualq(t, x, e, 1e-13Q, &s); if (!b.ok || !(qabs(b.d - a.d) <= 1e-9Q * (qabs(a.d) + 1e-3Q))) ill = true; } if (ill) continue; }
        Q g = evalq(d, e); unsigned s1 = 1 + k, s2 = 77 + k;
        Q p1 = evalq(d, e, 1e-13Q, &s1), p2 = evalq(d, e, 1e-13Q, &s2), scale = qabs(a.d);
        if (!fin(g) || !fin(p1) || !fin(p2)) {
            // the value is a limit of the form 0*inf or the like: decided by the neighbourhood
            bool bad = true; for (int j = 0; j < 8 && bad; ++j) { EnvQ e2 = e; for (auto &q : e2) q.second += ((Q)R.u() - 0.5Q) * 1e-9Q; if (fin(evalq(d, e2)) || !dualq(t, x, e2).ok) bad = false; }
            if (bad) FAIL("derivative " + show(d) + " has no value at " + es + ", the true derivative is " + fq(a.d));
            continue;
        }
        Q cond = qabs(p1 - g) + qabs(p2 - g); if (cond > 1e-9Q * (scale + 1e-3Q)) continue;
        if (qabs(g - a.d) > 1e-7Q * (scale + 1e-6Q)) {
            EnvQ e2 = e; for (auto &q : e2) q.second *= 1 + 1e-14Q; D a2 = dualq(t, x, e2); if (!a2.ok || qabs(a2.d - a.d) > 1e-9Q * (scale + 1e-3Q)) continue;
            FAIL("derivative " + show(d) + " is " + fq(g) + " instead of " + fq(a.d) + " at " + es);
        }
    }
}
void run(Rng &R, bool) {
    Gen g(R); g.names = {"x", "y", "z"}; g.moderate = true; g.pvar = 0.7;
    // every operator with every kind of operand
    std::vector<SP> atoms{sNum(2), sNum(0.5), sNum(0), sNum(-3), sVar("x"), sVar("y"), sOp(MO::MATH_MULTIPLY, sNum(0.25), sVar("x")), sOp(MO::MATH_MULTIPLY, sVar("y"), sNum(0.5)), sOp(MO::MATH_ADD, sVar("x"), sVar("y")), sOp(MO::MATH_MULTIPLY, sNum(2), sNum(3)), sOp(MO::MATH_COS, sVar("x"))};
    std::vector<SP> L; for (auto &a : atoms) { L.push_back(a); for (auto o : UN) L.push_back(sOp(o, a)); for (auto &b : atoms) for (auto o : BI) L.push_back(sOp(o, a, b)); }
    { size_t n = L.size(); for (size_t i = 0; i < n; i += 7) { L.push_back(sOp(MO::MATH_MULTIPLY, sVar("x"), L[i])); L.push_back(sOp(MO::MATH_SUB, L[i], sVar("x"))); } }
    for (long i = 0; !timeUp() && i < 60000; ++i) {
        g.bitops = R(8) == 0; bool fixed = i < (long)L.size();
        SP t = fixed ? L[i] : g.tree(1 + R(5)); str x = R(4) || fixed ? "x" : R(2) ? "y" : "w";
        CASE("Diff " + show(t) + " by " + x); Node n = raw(t), r; str w;
        int c = clsOf([&] { r = Diff(n, x); }, &w);
        CHECK(same(read(n), t) && wf(n) == "", "Diff changed its lvalue argument");
        if (bitvar(t)) { CHECK(c == 3, "no error for %, & or | on a non-constant operand"); Node m = raw(t); CHECK(clsOf([&] { Diff(std::move(m), x); }) == 3, "no error (rvalue)"); continue; }
        if (bit(t) && c != 0) { CHECK(c == 3, "wrong exception " + w); continue; }
        CHECK(c == 0, "Diff threw: " + w); CHECK(wf(r) == "", wf(r)); CHECK(disjoint(r, n), "shares nodes");
        Node m = raw(t); Node r2 = Diff(std::move(m), x); CHECK(!m && same(read(r2), read(r)), "rvalue overload gives " + show(read(r2)) + " instead of " + show(read(r)));
        compare(R, t, read(r), x, g.names, 6);
        if (R(4) == 0 && size(t) < 12) {
            SP d1 = read(r); int k = 2 + (R(3) == 0 && size(t) < 6);
            CASE("Diff " + show(t) + " by " + x + " order " + std::to_string(k));
            Node hi = Diff(n, x, k); CHECK(wf(hi) == "", wf(hi)); CHECK(same(read(n), t), "Diff changed its lvalue argument");
            Node lo = Diff(n, x, k - 1); compare(R, read(lo), read(hi), x, g.names, 4);
        }
    }
}
