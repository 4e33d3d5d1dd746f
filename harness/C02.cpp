#include "common.h"
void run(Rng &R, bool) {
    std::vector<double> V{0, -0.0, 1, -1, 2, -2, 0.5, -0.5, 0.9999, -0.9999, 3.7, -3.7, 10, 1e10, -1e10, 1e19, -1e19, 2147483647, 2147483647.5, 2147483648.0, -2147483648.0, -2147483648.5, -2147483649.0, 4294967295.0, 1e300, -1e300, 1e308, 1e-300, 5e-324,
                          710, 1024, INFINITY, -INFINITY, NAN, M_PI, M_PI / 2, 1.0000001, 16777216, 9007199254740993.0, 1.7976931348623157e308, -1.7976931348623157e308, 1.7976931348623155e308, 2.2250738585072014e-308, 1.3407807929942596e154};
    for (int i = 0; i < 20; ++i) V.push_back((R.u() * 2 - 1) * 1e10);
    for (int thr = 0; thr < 2; ++thr) for (int k = 0; k < 21; ++k) { MO op = k < 13 ? UN[k] : BI[k - 13];
        for (double a : V) for (double b : V) {
            if (k < 13 && b != 0) continue;
            CASE(str("Calc ") + opName(op) + " " + fmtd(a) + " " + fmtd(b) + (thr ? "" : " throwOnInvalidValue=false"));
            Config::Get().throwOnInvalidValue = thr;
            double e = spec(op, a, b), v = 0; str w; bool inv = false;
            int c = clsOf([&] { try { v = Calc(op, a, b); } catch (const MathError &x) { inv = x.GetErrorType() == ErrorType::ERROR_INVALID_NUMBER; throw; } }, &w);
            if (thr && !std::isfinite(e)) CHECK(c == 1 && inv, "invalid result not reported as a math error, got " + fmtd(v));
            else { CHECK(c == 0, "threw for a valid result: " + w); CHECK(same(v, e), "value " + fmtd(v) + ", expected " + fmtd(e)); }
        } }
    Config::Get().throwOnInvalidValue = true;
    Gen g(R); g.pvar = 0;
    for (int i = 0; !timeUp() && i < 20000; ++i) {
        SP t = g.tree(R(6)); bool thr = R(2); CASE("Vpa " + show(t)); Config::Get().throwOnInvalidValue = thr;
        Node n = raw(t); Val e = eval(t, {}); double v = 0;
        int c = clsOf([&] { v = n->Vpa(); });
        if (thr) { if (c == 0) CHECK(std::isfinite(v) || t->k == 0, "returned an invalid value " + fmtd(v)); CHECK((c == 1) == e.bad, "reporting of invalid values"); }
        else CHECK(c == 0 && same(v, e.v), "value with throwing disabled");
    }
}
