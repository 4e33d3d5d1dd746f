#include "common.h"
static SP sub(const SP &t, const std::map<str, SP> &d) { if (!t) return nullptr; if (t->k == 2) { auto i = d.find(t->n); return i == d.end() ? t : i->second; } if (t->k == 0) return t; return sOp(t->op, sub(t->l, d), sub(t->r, d)); }
void run(Rng &R, bool) {
    Gen g(R); g.pvar = 0.7;
    for (int i = 0; !timeUp() && i < 20000; ++i) {
        bool many = R(6) == 0; g.names = {"x", "y", "z", "_a1", "abc"}; if (R(8) == 0) { g.names[3] = "pi"; g.names[4] = "a_name_that_is_longer_than_forty_characters_and_than_one_cache_line_of_64"; } if (many) for (int j = 0; j < 15; ++j) g.names.push_back("v" + std::to_string(j));
        SP t = many ? sOp(MO::MATH_ADD, g.tree(6), g.tree(6)) : R(50) ? g.tree(R(6)) : g.big(); int k = many ? 1 + R((int)g.names.size()) : 1 + R(4); std::map<str, SP> d; std::map<str, double> dn; str ds;
        std::vector<str> ns = g.names; for (int j = 0; j < k; ++j) { int q = j + R((int)ns.size() - j); std::swap(ns[j], ns[q]); d[ns[j]] = g.tree(R(4)); dn[ns[j]] = g.num(); }
        ns.resize(k);
        for (auto &e : d) ds += e.first + ":=" + show(e.second) + "; ";
        CASE("Subs " + show(t) + " {" + ds + "}");
        SP e = sub(t, d); Node n = raw(t);
        auto ok = [&](const Node &r, const SP &x, const str &w) { CHECK(same(read(r), x), w + " gives " + show(read(r)) + ", expected " + show(x)); CHECK(wf(r) == "", w + ": " + wf(r)); };
        std::map<str, Node> dict; for (auto &q : d) dict[q.first] = raw(q.second);
        auto clean = [&](const Node &r, const str &w) { CHECK(same(read(n), t) && wf(n) == "", w + " changed its lvalue argument"); CHECK(disjoint(r, n), w + " shares nodes"); for (auto &q : d) { CHECK(same(read(dict[q.first]), q.second) && wf(dict[q.first]) == "", w + " changed a replacement"); CHECK(disjoint(r, dict[q.first]), w + " shares nodes with a replacement"); } };
        { Node r = Subs(n, dict); ok(r, e, "Subs(map)"); clean(r, "Subs(map)"); }
        { Node m = raw(t); Node r = Subs(std::move(m), dict); ok(r, e, "Subs(&&,map)"); CHECK(!m, "rvalue left"); }
        SymVec v(k); for (int j = 0; j < k; ++j) v[j] = raw(d[ns[j]]);
        { Node r = Subs(n, ns, v); ok(r, e, "Subs(vector)"); clean(r, "Subs(vector)"); for (int j = 0; j < k; ++j) CHECK(same(read(v[j]), d[ns[j]]) && disjoint(r, v[j]), "Subs changed the vector of replacements"); }
        { Node m = raw(t); Node r = Subs(std::move(m), ns, v); ok(r, e, "Subs(&&,vector)"); }
        std::map<str, SP> d1{{ns[0], d[ns[0]]}}; SP e1 = sub(t, d1);
        { Node r = Subs(n, ns[0], dict[ns[0]]); ok(r, e1, "Subs(one)"); clean(r, "Subs(one)"); }
        { Node m = raw(t); Node r = Subs(std::move(m), ns[0], dict[ns[0]]); ok(r, e1, "Subs(&&,one)"); }
        std::map<str, SP> d2; for (auto &q : dn) d2[q.first] = sNum(q.second); SP e2 = sub(t, d2);
        { Node r = Subs(n, dn); ok(r, e2, "Subs(map of numbers)"); clean(r, "Subs(numbers)"); }
        { Node m = raw(t); Node r = Subs(std::move(m), dn); ok(r, e2, "Subs(&&,map of numbers)"); }
        VarsTable vt(dn);
        { Node r = Subs(n, vt); ok(r, e2, "Subs(VarsTable)"); clean(r, "Subs(VarsTable)"); }
        { Node m = raw(t); Node r = Subs(std::move(m), vt); ok(r, e2, "Subs(&&,VarsTable)"); }
        Envd full = randEnv(g); { std::map<str, double> all(full.begin(), full.end()); Node r = Subs(n, all); Val x = eval(t, full); double got = 0; int c = clsOf([&] { got = r->Vpa(); }); CHECK((c != 0) == x.bad && (c || same(got, x.v)), "evaluating the substituted expression"); }
    }
}
