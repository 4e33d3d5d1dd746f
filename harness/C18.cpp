#include "common.h"
struct Ref { std::vector<str> n; std::map<str, double> m; };
static str show(const Ref &r) { str s = "{"; for (auto &x : r.n) s += x + "=" + fmtd(r.m.at(x)) + " "; return s + "}"; }
static void agree(const VarsTable &t, const Ref &r, const str &w) {
    CHECK(t.VarNums() == (int)r.n.size(), w + ": number of variables"); CHECK(t.Vars() == r.n, w + ": names or their order"); CHECK(t.Values().Rows() == (int)r.n.size() && t.Values().Cols() == 1, w + ": number of values");
    for (size_t i = 0; i < r.n.size(); ++i) { CHECK(same(t.Values()[i], r.m.at(r.n[i])), w + ": value of " + r.n[i] + " in Values()"); CHECK(same(t[r.n[i]], r.m.at(r.n[i])), w + ": value of " + r.n[i] + " by name"); CHECK(t.Has(r.n[i]), w + ": Has"); }
    auto j = r.m.begin(); size_t k = 0; for (auto &e : t) { CHECK(j != r.m.end() && e.first == j->first && same(e.second, j->second), w + ": iteration"); ++j; ++k; } CHECK(k == r.m.size(), w + ": iteration length"); CHECK(std::distance(t.cbegin(), t.cend()) == (long)k, "cbegin");
    for (str x : {"nope", "", "a0", "zz9"}) if (!r.m.count(x)) { CHECK(!t.Has(x), w + ": Has of an unknown name"); str e; int c = clsOf([&] { t[x]; }, &e); CHECK(c == 4, w + ": lookup of an unknown name " + x); }
}
void run(Rng &R, bool) {
    const double eps = Config::Get().epsilon;
    for (int it = 0; !timeUp() && it < 60000; ++it) {
        int n = 1 + R(R(20) ? 6 : 40); std::set<str> used; Ref r; static const char *N[] = {"x", "y", "a", "b", "_q", "zz", "B", "a0", "m1", "aa", "x1", "q"};
        while ((int)r.n.size() < n) { str s = N[R(12)]; if (n > 6) s += std::to_string(R(90)); if (used.insert(s).second) r.n.push_back(s); }
        double iv = R(20) - 10; for (auto &x : r.n) r.m[x] = iv; CASE("VarsTable " + show(r));
        VarsTable a(r.n, iv); agree(a, r, "VarsTable(names, value)"); Ref s; s.m = r.m; for (auto &x : s.m) { x.second = R.u() * 100 - 50; s.n.push_back(x.first); } VarsTable b(s.m); agree(b, s, "VarsTable(map)");
        { Ref q; VarsTable c{{"q", 1.5}, {"b", iv}, {"k", -2}}; q.n = {"b", "k", "q"}; q.m = {{"q", 1.5}, {"b", iv}, {"k", -2}}; agree(c, q, "VarsTable{...}"); VarsTable f{{"zz", iv}}; Ref o; o.n = {"zz"}; o.m = {{"zz", iv}}; agree(f, o, "VarsTable{...}"); }
        for (int k = 0; k < 4; ++k) { VarsTable &t = k & 1 ? b : a; Ref &q = k & 1 ? s : r; Vec v(n); str d; for (int i = 0; i < n; ++i) { int m = R(6); double o = q.m[q.n[i]]; v[i] = m == 0 ? o : m == 1 ? std::nextafter(o, R(2) ? 1e300 : -1e300) : m == 2 ? o + eps * (R.u() - 0.5) : m == 3 ? R(3) - 1.0 : R.u() * 10 - 5; q.m[q.n[i]] = v[i]; } VarsTable before = t; CASE("SetValues " + show(q)); t.SetValues(v); agree(t, q, "SetValues"); VarsTable copy = t; agree(copy, q, "copy"); copy = before; agree(t, q, "after assigning to a copy"); }
        { CHECK(a == a, "a==a"); if (R(4) == 0) { Vec v(n); double f = std::ldexp(1.0, R(22)); for (int i = 0; i < n; ++i) { v[i] = (R.u() * 2 - 1) * f; r.m[r.n[i]] = v[i]; } a.SetValues(v); } Ref q = r; int mode = R(8); int i = R(n); if (mode == 0) q.m[q.n[i]] += eps * 0.25; if (mode == 1) q.m[q.n[i]] += eps * (R(2) ? 100 : 4) * (R(2) ? 1 : -1); if (mode == 2) q.m[q.n[i]] -= 1; if (mode == 3) { double v = q.m[q.n[i]]; q.m.erase(q.n[i]); q.n[i] = "other"; q.m["other"] = v; } if (mode >= 6) { str o = q.n[i], z = o; z[mode == 6 ? 0 : z.size() - 1] = R(2) ? 'A' : 'y'; if (!q.m.count(z)) { double v = q.m[o]; q.m.erase(o); q.n[i] = z; q.m[z] = v; } } if (mode == 4) { q.n.push_back("tail"); q.m["tail"] = 0; } VarsTable c(q.m); bool e = q.m.size() == r.m.size(); if (e) for (auto &x : q.m) if (!r.m.count(x.first) || !(std::fabs(r.m[x.first] - x.second) <= eps)) e = false; CASE("compare " + show(r) + " " + show(q)); CHECK((a == c) == e, "equality"); CHECK((c == a) == e, "equality (swapped)"); }
    }
}
