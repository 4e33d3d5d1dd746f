#include "common.h"
// C01: Vpa / Calc evaluate to the bottom-up composition of the operators; throw with variables; leave the expression unchanged
void run(Rng &R, bool) {
    Gen g(R);
    for (int i = 0; !timeUp() && i < 60000; ++i) {
        g.pvar = R(4) ? 0 : 0.2; g.extremes = R(2);
        SP t = g.tree(R(7)); bool thr = R(4) != 0;
        CASE("evaluate " + show(t) + (thr ? "" : " with throwOnInvalidValue=false"));
        Config::Get().throwOnInvalidValue = thr;
        Val e = eval(t, {});
        Node n = raw(t);
        double v = 0; str w; int c = clsOf([&] { v = n->Vpa(); }, &w);
        if (e.var) CHECK(c != 0, "evaluation of an expression with a variable returned " + fmtd(v));
        else if (e.bad && thr) CHECK(c == 1, "invalid value not reported, got " + fmtd(v));
        else { CHECK(c == 0, "threw: " + w); CHECK(same(v, e.v), "value " + fmtd(v) + ", expected " + fmtd(e.v)); }
        CHECK(c == 0 || c == 1 || c == 3, "unexpected exception type");
        CHECK(same(read(n), t) && wf(n) == "", "Vpa changed the expression");
        c = clsOf([&] { NodeImpl &r = n->Calc(); CHECK(&r == n.get(), "Calc returns another node"); });
        if (e.var || (e.bad && thr)) { CHECK(c != 0, "Calc did not throw"); CHECK(same(read(n), t) && wf(n) == "", "failed Calc changed the expression"); }
        else CHECK(c == 0 && same(read(n), sNum(e.v)) && wf(n) == "", "Calc result " + show(read(n)) + " " + wf(n));
        Config::Get().throwOnInvalidValue = true;
    }
}
