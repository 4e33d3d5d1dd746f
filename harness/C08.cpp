#include "common.h"
static bool folded(const SP &t, str &w) {
    if (!t || t->k != 1) return true;
    if (!folded(t->l, w) || !folded(t->r, w)) return false;
    if (t->l->k == 0 && (!t->r || t->r->k == 0)) { double v = spec(t->op, t->l->v, t->r ? t->r->v : 0); if (std::isfinite(v)) { w = show(t); return false; } }
    return true;
}
void run(Rng &R, bool) {
    Gen g(R);
    for (int i = 0; !timeUp() && i < 40000; ++i) {
        g.extremes = R(2); g.pvar = R(2) ? 0.5 : 0.3;
        SP t = g.tree(R(6)); CASE("Simplify " + show(t)); bool thr = R(5) != 0; Config::Get().throwOnInvalidValue = thr;
        Node n = raw(t); Simplify(n); Config::Get().throwOnInvalidValue = true;
        CHECK(wf(n) == "", wf(n)); SP s = read(n); std::set<str> a, b; vars(t, a); vars(s, b);
        for (auto &x : b) CHECK(a.count(x), "invented variable " + x);
        str w; CHECK(folded(s, w), "unfolded numbers " + w + " in " + show(s));
        for (int k = 0; k < 6; ++k) { Envd e = randEnv(g); Val x = eval(t, e), y = eval(s, e); if (x.bad) continue;
            str es; for (auto &q : e) es += q.first + "=" + fmtd(q.second) + " ";
            CHECK(!y.bad && x.v == y.v, "result " + show(s) + " is " + fmtd(y.v) + " instead of " + fmtd(x.v) + " at " + es); }
    }
}
