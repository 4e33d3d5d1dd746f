#include "common.h"
#include "parse_oracle.h"
static uint64_t total = 14695981039346656037ull; static FILE *trace; static str acc;
static void rec(const str &s) { acc += s; acc += '\n'; }
static void done(const str &c) { uint64_t h = 14695981039346656037ull; for (unsigned char x : acc) h = (h ^ x) * 1099511628211ull; total = (total ^ h) * 1099511628211ull; str q; for (char x : c) q += x == '\n' ? ' ' : x; if (trace) fprintf(trace, "%016lx %s\n", (unsigned long)h, q.substr(0, 400).c_str()); acc.clear(); }
static str dbl(double v) { return v != v ? "nan" : fmtd(v); }
static void attempt(const char *n, const std::function<str()> &f) { str w, r; int c = clsOf([&] { r = f(); }, &w); rec(str(n) + " " + std::to_string(c) + " " + r + " " + w); }
static str mat(const Mat &m) { str s = std::to_string(m.Rows()) + "x" + std::to_string(m.Cols()); for (double v : m.data) s += " " + dbl(v); return s; }
static str sym(const SymMat &m) { str s = std::to_string(m.Rows()) + "x" + std::to_string(m.Cols()); for (auto &v : *m.data) s += " " + show(read(v)) + wf(v); return s; }
static str tab(const VarsTable &t) { str s = t.ToString(); for (auto &n : t.Vars()) s += n + ","; return s + mat(t.Values()); }
void run(Rng &R, bool th) {
    trace = fopen("trace", "w"); Gen g(R); int N = th ? 20000 : 1500; g.names = {"x", "y", "z"};
    std::stringstream out; auto *ob = std::cout.rdbuf(out.rdbuf()); auto *eb = std::cerr.rdbuf(out.rdbuf());
    for (int i = 0; i < N; ++i) {
        Config::Get().Reset(); Config::Get().throwOnInvalidValue = R(4) != 0; Config::Get().logLevel = LogLevel::OFF; g.pvar = R(3) * 0.4; g.moderate = R(2);
        SP t = g.any(), u = g.tree(R(3)); str c = show(t) + " ; " + show(u); CASE(c); Node n = raw(t), m = raw(u);
        rec(n->ToString()); rec(n->ToString() == m->ToString() ? "=" : "!"); for (auto &v : n->GetAllVarNames()) rec(v); rec(n->Equal(m) ? "eq" : "ne");
        attempt("Vpa", [&] { return dbl(n->Vpa()); }); attempt("Calc", [&] { Node k = raw(t); k->Calc(); return show(read(k)); }); attempt("Simplify", [&] { Node k = raw(t); Simplify(k); return show(read(k)); });
        if (size(t) < 40) for (int k = 1; k < 3; ++k) attempt("Diff", [&] { Node d = Diff(n, "x", k); return show(read(d)) + wf(d); });
        attempt("Subs", [&] { return show(read(Subs(n, "x", m))) + show(read(Subs(n, {"x", "y"}, SymVec{Clone(m), Num(2)}))) + show(read(Subs(n, std::map<str, double>{{"z", 3}}))) + show(read(Subs(n, VarsTable{{"y", 4}}))); });
        attempt("build", [&] { Node a = n + m; a -= n; a *= m; a /= Num(2.0); a ^= n; Node b = Num(1.5) - a; b = +b; b += b; Node d = -std::move(b); return show(read(d)) + wf(d) + show(read(n ^ Num(2.0))); });
        attempt("functions", [&] { return show(read(sin(n))) + show(read(cos(n))) + show(read(tan(n))) + show(read(asin(n))) + show(read(acos(n))) + show(read(atan(n))) + show(read(sqrt(n))) + show(read(log(n))) + show(read(log2(n))) + show(read(log10(n))) + show(read(exp(m))); });
        for (int k = 0; k < 3; ++k) { str s = R(2) ? randText(R, R(2)) : R(2) ? mutate(R, gramText(R, g, R(4))) : gramText(R, g, R(4)); c += " " + quote(s); attempt("Parse", [&] { Node p = Parse(s); return show(read(p)) + wf(p); }); rec(VarNameIsLegal(s) ? "legal" : "illegal"); }
        attempt("text", [&] { return ToString(g.num()); });
        { int k = R(21); MO o = k < 13 ? UN[k] : BI[k - 13]; double a = g.num(), b = g.num(); c += str(" ") + opName(o); rec(std::to_string(GetOperatorNum(o)) + MathOperatorToStr(o) + std::to_string(IsFunction(o)) + std::to_string(Rank(o)) + std::to_string(IsLeft2Right(o)) + (GetOperatorNum(o) == 2 ? std::to_string(InAssociativeLaws(o)) : "")); attempt("op", [&] { return dbl(Calc(o, a, b)); }); }
        { int r = 1 + R(4), q = R(2) ? r : 1 + R(4); Mat a(r, q), b(r, q); for (int x = 0; x < r; ++x) for (int y = 0; y < q; ++y) { a.Value(x, y) = R(7) - 3; b.Value(x, y) = R(7) - 3; } rec(a.ToString()); rec(mat(a + b) + mat(a - b) + mat(-a) + mat(a * 2.5) + mat(2.5 * a) + mat(a * b.Transpose()) + mat(EachDivide(a, b))); rec(std::to_string((a == b) + 2 * (a == 1.0) + 4 * IsZero(a) + 8 * AllIsLessThan(a, b))); rec(dbl(a.Norm2()) + dbl(a.NormInfinity()) + dbl(a.NormNegInfinity()) + dbl(a.Min())); { Mat s = a; s.Resize(1 + R(5), 1 + R(5)); rec(mat(s)); s = a; s.SwapRow(0, R(r)); s.SwapCol(0, R(q)); s += a; rec(mat(s)); rec(std::to_string(GetMaxAbsRowIndex(a, R(r), r - 1, R(q)))); }
          if (r == q) { rec(dbl(Det(a, 1 + R(r)))); rec(std::to_string(a.PositiveDetermine())); attempt("Inverse", [&] { return mat(a.Inverse()); }); } Config::Get().allowIndeterminateEquation = R(2); Vec v(r), w(r); for (int x = 0; x < r; ++x) { v[x] = R(7) - 3; w[x] = R(5) - 2; } c += " " + mat(a) + mat(v); attempt("SolveLinear", [&] { return mat(SolveLinear(a, v)); }); rec(mat(v + w) + mat(v - w) + mat(-v) + mat(v * 3) + mat(v * w) + mat(v / w) + dbl(Dot(v, w)) + std::to_string(v < w)); attempt("ToVec", [&] { return mat(a.ToVec()); });
          SymMat s(1 + R(2), 1 + R(2)), s2(s.Cols(), 1); for (auto &x : *s.data) x = raw(g.tree(R(3))); for (auto &x : *s2.data) x = raw(g.tree(R(2))); rec(sym(s) + s.ToString()); rec(sym(s.Clone()) + sym(s - s) + std::to_string(s == s2) + std::to_string(s == s)); for (auto &x : s.GetAllVarNames()) rec(x); attempt("prod", [&] { return sym(s * s2) + sym(s2 * s); }); attempt("ToSymVec", [&] { return sym(s.ToSymVec()); }); rec(sym(s.ToSymVecOneByOne())); attempt("Jacobian", [&] { return sym(Jacobian(s2, {"x", "y"})); }); attempt("SymMat::Calc", [&] { SymMat k = s.Clone(); k.Subs(VarsTable{{"x", 1}, {"y", 2}, {"z", 3}}); str e = sym(k); k.Calc(); return e + sym(k) + mat(k.ToMat()); }); }
        { VarsTable a{{"p", g.num()}, {"q", 2}}; VarsTable b({"q", "p"}, g.num()); rec(tab(a) + tab(b) + std::to_string(a == b)); a.SetValues(Vec{5, g.num()}); rec(tab(a)); attempt("[]", [&] { return dbl(a["p"]) + dbl(a["nope"]); }); }
        if (i % 5 == 0) { Config::Get().nonlinearMethod = R(2) ? NonlinearMethod::LM : NonlinearMethod::NEWTON_RAPHSON; Config::Get().maxIterations = 8; Config::Get().logLevel = R(3) ? LogLevel::OFF : (LogLevel)R(8); SymVec e(2); double p = R(5), q = R(5) + 1; e[0] = Var("x") * Var("y") - Num(p * q); e[1] = (Var("x") ^ Num(2)) - Var("y") - Num(p * p - q); if (R(6) == 0) e[1] = Clone(e[0]); attempt("Solve", [&] { return tab(R(2) ? Solve(e) : Solve(e, VarsTable{{"y", q + 0.3}, {"x", p + 0.2}})); }); rec(out.str()); out.str(""); }
        done(c);
    }
    std::cout.rdbuf(ob); std::cerr.rdbuf(eb); if (trace) fclose(trace);
    printf("DIGEST %016lx\n", (unsigned long)total);
}
