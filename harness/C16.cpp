#include "common.h"
void run(Rng &R, bool) {
    Gen g(R); const str vn[] = {"a", "b", "c", "d", "e1", "f_long_name_of_a_variable", "g"};
    for (int it = 0; !timeUp() && it < 20000; ++it) {
        int n = 1 + R(R(40) ? 3 : 7), kind = R(5); Config::Get().Reset(); Config::Get().logLevel = LogLevel::OFF;
        Config::Get().nonlinearMethod = R(2) ? NonlinearMethod::NEWTON_RAPHSON : NonlinearMethod::LM; bool lm = Config::Get().nonlinearMethod == NonlinearMethod::LM;
        std::vector<SP> eq; std::vector<double> root(n), start(n); std::map<str, double> init; int zs = R(8);
        for (int i = 0; i < n; ++i) { root[i] = R(9) - 4 + (kind ? R.u() : 0); start[i] = root[i] + (R.u() - 0.5) * (R(2) ? 0.4 : 3); if (R(8) == 0) start[i] = root[i]; if (zs == 0) root[i] = start[i] = 0; if (zs == 1) start[i] = 0; init[vn[i]] = start[i]; }
        for (int i = 0; i < n; ++i) { SP e = sNum(0); Envd at; for (int j = 0; j < n; ++j) at[vn[j]] = root[j]; for (int j = 0; j < n; ++j) { SP t = sVar(vn[j]); int q = R(kind < 2 ? 1 : 4); if (q == 1) t = sOp(MO::MATH_POWER, t, sNum(2)); if (q == 2) t = sOp(MO::MATH_SIN, t); if (q == 3) t = sOp(MO::MATH_MULTIPLY, t, sVar(vn[R(n)])); e = sOp(MO::MATH_ADD, e, sOp(MO::MATH_MULTIPLY, sNum(i == j ? 3 + R(3) : R(3) - 1), t)); } double v = eval(e, at).v; if (kind == 4) v += 1e5; eq.push_back(sOp(MO::MATH_SUB, e, sNum(v))); }
        // an unsolvable equation now and then: the number of iterations has to stop it
        if (R(10) == 0) eq[0] = sOp(MO::MATH_ADD, sOp(MO::MATH_POWER, sVar("a"), sNum(2)), sNum(1));
        int mi = R(3) ? 12 + R(20) : R(6); Config::Get().maxIterations = mi; double eps = R(3) ? 1e-9 : 1e-4; Config::Get().epsilon = eps;
        bool table = R(3) != 0; str d = str(lm ? "LM" : "Newton") + (table ? "" : " (all variables)") + " maxIterations=" + std::to_string(mi) + " epsilon=" + fmtd(eps); for (auto &e : eq) d += "; " + show(e); for (int i = 0; i < n; ++i) d += " " + vn[i] + "0=" + fmtd(start[i]);
        SymVec v(n); std::set<str> occ; for (int i = 0; i < n; ++i) { v[i] = raw(eq[i]); vars(eq[i], occ); }
        if (!table) { if ((int)occ.size() != n) continue; double iv = R(4) + 0.5; Config::Get().initialValue = iv; d += " initialValue=" + fmtd(iv); for (auto &x : init) x.second = iv; }
        bool log = R(6) == 0 && n < 4; if (log) { Config::Get().logLevel = LogLevel::TRACE; d += " log=TRACE"; }
        CASE(d); VarsTable t0(init), r = t0; str w; std::ostringstream os; std::streambuf *old = log ? std::cout.rdbuf(os.rdbuf()) : nullptr;
        int c = clsOf([&] { r = table ? Solve(v, t0) : Solve(v); }, &w);
        if (log) { std::cout.rdbuf(old); Config::Get().logLevel = LogLevel::OFF;
            // what the log says about the iterations
            std::istringstream is(os.str()); str l; while (std::getline(is, l)) for (const char *q : {"iteration times = ", "it="}) if (l.compare(0, strlen(q), q) == 0) CHECK(atof(l.c_str() + strlen(q)) <= mi + 1, "more iterations than allowed: " + l); }
        for (int i = 0; i < n; ++i) CHECK(same(read(v[i]), eq[i]) && wf(v[i]) == "", "Solve changed an equation"); CHECK(t0.Vars().size() == init.size() && (int)t0.Values().Rows() == n, "Solve changed the table"); { int i = 0; for (auto &x : init) { CHECK(t0[x.first] == x.second && t0.Values()[i] == x.second && t0.Vars()[i] == x.first, "Solve changed the table"); ++i; } }
        if (c == 0) {
            CHECK(r.Vars() == t0.Vars() && r.VarNums() == (int)init.size(), "other unknowns than asked for"); Envd e; int i = 0; for (auto &x : init) { e[x.first] = r[x.first]; CHECK(r.Values()[i] == r[x.first], "table inconsistent"); ++i; }
            for (auto &q : eq) { Val x = eval(q, e); CHECK(!x.bad && std::fabs(x.v) <= eps * 1.001, "not a root: " + show(q) + " is " + fmtd(x.v)); }
        } else CHECK(c == 1 || c == 3, "unexpected exception " + w);
        // starting at the root: no iteration is needed; with no iterations allowed, anything else may only fail
        Envd s; for (auto &x : init) s[x.first] = x.second; bool at = true; for (auto &q : eq) { Val x = eval(q, s); if (x.bad || !(std::fabs(x.v) < eps)) at = false; }
        if (at) { CHECK(c == 0, "threw although the initial values are a root: " + w); for (auto &x : init) CHECK(r[x.first] == x.second, "did not start from the given initial values"); }
        // linear systems: Newton finds the solution in one step from anywhere
        if (!lm && kind < 2 && mi >= 5) { bool lin = true; for (auto &q : eq) if (q->op != MO::MATH_SUB) lin = false; if (lin && eps > 1e-8) { /* singular systems may throw */ if (c != 0) CHECK(c == 1, "linear system not solved: " + w); } }
    }
    // many unknowns not in alphabetical order, tables with equations that do not mention every unknown
    for (int m = 0; m < 2; ++m) { Config::Get().Reset(); Config::Get().logLevel = LogLevel::OFF; Config::Get().nonlinearMethod = m ? NonlinearMethod::LM : NonlinearMethod::NEWTON_RAPHSON; CASE("z, a in that order"); SymVec v(2); v[0] = Var("z") - Num(3); v[1] = Var("a") * Num(2) - Num(8); VarsTable t({"z", "a"}, 1.0); VarsTable r = Solve(v, t); CHECK(std::fabs(r["z"] - 3) < 1e-6 && std::fabs(r["a"] - 4) < 1e-6 && std::fabs(r.Values()[0] - 3) < 1e-6 && r.Vars()[0] == "z", "order of unknowns"); }
    // Newton's steps towards a double root halve the distance: that takes more iterations than allowed
    for (int mi = 0; mi < 24; ++mi) for (int k = 3; k < 12; k += 4) { Config::Get().Reset(); Config::Get().logLevel = LogLevel::OFF; Config::Get().nonlinearMethod = NonlinearMethod::NEWTON_RAPHSON; Config::Get().maxIterations = mi; double x0 = std::ldexp(1.0, mi + k), eps = Config::Get().epsilon;
        if (x0 * x0 / std::ldexp(1.0, 2 * (mi + 2)) < 4 * eps) continue;
        CASE("Newton x^2 = 0 from " + fmtd(x0) + " maxIterations=" + std::to_string(mi)); SymVec v(1); v[0] = Var("x") * Var("x"); str w; int c = clsOf([&] { Solve(v, VarsTable({"x"}, x0)); }, &w); CHECK(c != 0, "returned after more iterations than allowed"); }
    // the iteration starts from the given values, whatever they are
    for (double x0 : {0.0, -0.0, 5.0, 1.0, -7.0}) for (int n = 1; n < 4; ++n) for (int m = 0; m < 2; ++m) {
        Config::Get().Reset(); Config::Get().logLevel = LogLevel::OFF; Config::Get().nonlinearMethod = m ? NonlinearMethod::LM : NonlinearMethod::NEWTON_RAPHSON; Config::Get().initialValue = 4.5;
        CASE("every unknown starts at its root " + fmtd(x0) + ", another one lies elsewhere: n=" + std::to_string(n) + (m ? " LM" : " Newton"));
        SymVec v(n); std::map<str, double> init; for (int i = 0; i < n; ++i) { str q = "u" + std::to_string(i); v[i] = (Var(q) - Num(x0)) * (Var(q) - Num(x0 + 5)); init[q] = x0; }
        VarsTable r = Solve(v, VarsTable(init)); for (auto &q : init) CHECK(std::fabs(r[q.first] - x0) < 1e-6, "did not start from the given initial values: " + fmtd(r[q.first]));
    }
}
