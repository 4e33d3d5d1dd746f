#include "common.h"
#include "matgen.h"
#define SAME(got, exp, w) do { M g_ = rd(got), e_ = (exp); CHECK(same(g_, e_), str(w) + " gives " + show(g_) + ", expected " + show(e_)); } while (0)
#define KEEP(w) do { CHECK(same(rd(a), A) && same(rd(b), B), str(w) + " changed an operand"); } while (0)
void run(Rng &R, bool) {
    const double eps = Config::Get().epsilon;
    for (int it = 0; !timeUp() && it < 60000; ++it) {
        int sz = R(25) ? 6 : 24, r = 1 + R(sz), c = 1 + R(sz), k = 1 + R(sz - 1), mode = R(4); double s = R(3) ? R(11) - 5 : R.u() * 7 - 3;
        if (!R(150)) { int &d = R(3) == 0 ? r : R(2) ? c : k; d = 1 + R(200); } else if (!R(400)) { r = 1 + R(80); c = 1 + R(80); k = 1 + R(80); }
        M A = gen(R, r, c, mode), B = gen(R, r, c, mode), C = gen(R, c, k, mode), Z(r, std::vector<double>(c, 0)); Mat a = mk(A), b = mk(B), m = mk(C);
        CASE("matrices a=" + show(A) + " b=" + show(B) + " c=" + show(C) + " s=" + fmtd(s));
        SAME(a + b, f2(A, B, [](double x, double y) { return x + y; }), "a+b"); SAME(a - b, f2(A, B, [](double x, double y) { return x - y; }), "a-b");
        SAME(-a, f1(A, [](double x) { return -x; }), "-a"); SAME(a * s, f1(A, [&](double x) { return x * s; }), "a*s"); SAME(s * a, f1(A, [&](double x) { return x * s; }), "s*a"); SAME(a * m, prod(A, C), "a*c");
        { M T(c, std::vector<double>(r)); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) T[j][i] = A[i][j]; SAME(a.Transpose(), T, "Transpose"); }
        if (a.Rows() != r || a.Cols() != c) FAIL("Rows/Cols"); KEEP("arithmetic"); CHECK(same(rd(m), C), "a*c changed c");
        { Mat x = a; Mat &y = (x += b); CHECK(&y == &x, "+= result"); SAME(x, f2(A, B, [](double p, double q) { return p + q; }), "a+=b"); x = a; x += x; SAME(x, f1(A, [](double p) { return p + p; }), "a+=a"); KEEP("+="); }
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { CHECK(a.Value(i, j) == A[i][j], "Value"); const Mat &ca = a; CHECK(ca.Value(i, j) == A[i][j], "Value const"); }
        { int p = R(r), q = R(r); Mat x = a; M E = A; std::swap(E[p], E[q]); SAME(x.SwapRow(p, q), E, "SwapRow"); SAME(x, E, "SwapRow"); p = R(c); q = R(c); x = a; E = A; for (auto &w : E) std::swap(w[p], w[q]); SAME(x.SwapCol(p, q), E, "SwapCol"); KEEP("swap"); }
        { int p = R(r), o = R(c + 1); const Mat &ca = a; std::valarray<double> v = ca.Row(p, o); CHECK((int)v.size() == c - o, "Row size"); for (int j = o; j < c; ++j) CHECK(v[j - o] == A[p][j], "Row");
          int q = R(c); o = R(r + 1); std::valarray<double> u = ca.Col(q, o); CHECK((int)u.size() == r - o, "Col size"); for (int i = o; i < r; ++i) CHECK(u[i - o] == A[i][q], "Col"); Mat x = a; std::valarray<double> f(2.5, c); x.Row(p) = f; M E = A; for (auto &w : E[p]) w = 2.5; SAME(x, E, "Row assignment"); std::valarray<double> f2_(3.5, r); x = a; x.Col(q) = f2_; E = A; for (auto &w : E) w[q] = 3.5; SAME(x, E, "Col assignment");
          { int p1 = R(r), o1 = R(c), q1 = R(c), o2 = R(r); Mat y = a; std::valarray<double> w1(4.5, c - o1), w2(5.5, r - o2); y.Row(p1, o1) = w1; y.Col(q1, o2) = w2; M G = A; for (int j = o1; j < c; ++j) G[p1][j] = 4.5; for (int i = o2; i < r; ++i) G[i][q1] = 5.5; SAME(y, G, "Row/Col assignment with an offset"); } }
        { int nr = 1 + R(r > 8 ? r + 2 : 8), nc = 1 + R(c > 8 ? c + 2 : 8); Mat x = a; x.Resize(nr, nc); M E(nr, std::vector<double>(nc, 0)); for (int i = 0; i < nr && i < r; ++i) for (int j = 0; j < nc && j < c; ++j) E[i][j] = A[i][j]; SAME(x, E, "Resize to " + std::to_string(nr) + "x" + std::to_string(nc)); }
        { Mat x = a; SAME(x.Zero(), Z, "Zero"); if (r == c) { x = a; M E = Z; for (int i = 0; i < r; ++i) E[i][i] = 1; SAME(x.Ones(), E, "Ones"); } x = a; x.SetValue(s); SAME(x, f1(A, [&](double) { return s; }), "SetValue"); }
        { double n2 = 0, mx = -INFINITY, mn = INFINITY, mi = INFINITY; for (auto &q : A) for (double x : q) { n2 += x * x; mx = std::max(mx, std::fabs(x)); mn = std::min(mn, std::fabs(x)); mi = std::min(mi, x); }
          CHECK(near(a.Norm2(), n2), "Norm2 " + fmtd(a.Norm2())); CHECK(a.NormInfinity() == mx, "NormInfinity " + fmtd(a.NormInfinity())); CHECK(a.NormNegInfinity() == mn, "NormNegInfinity " + fmtd(a.NormNegInfinity())); CHECK(a.Min() == mi, "Min " + fmtd(a.Min())); bool pos = mi > 0; (void)pos; }
        { M E = f2(A, B, [](double x, double y) { return x / y; }); SAME(EachDivide(a, b), E, "EachDivide"); KEEP("EachDivide"); }
        { bool z = true, eq = true, lt = true, es = true; M B2 = R(2) ? f1(A, [&](double x) { return R(5) ? x : x + (R(2) ? eps * 0.5 : eps * 2); }) : B; if (R(3) == 0) { B2 = A; B2[R(r)][R(c)] += R(2) ? 1 : -1; } if (R(3) == 0) { B2 = f1(A, [&](double x) { return x + 1; }); if (R(2)) B2[R(r)][R(c)] -= 2; } Mat x = mk(B2); CASE("compare a=" + show(A) + " b=" + show(B2) + " s=" + fmtd(s));
          for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (!(std::fabs(A[i][j]) <= eps)) z = false; if (!(std::fabs(A[i][j] - B2[i][j]) < eps)) eq = false; if (!(A[i][j] < B2[i][j])) lt = false; if (!(std::fabs(A[i][j] - s) < eps)) es = false; }
          CHECK((a == x) == eq, "a==b"); CHECK((a == s) == es, "a==s"); CHECK(AllIsLessThan(a, x) == lt, "AllIsLessThan"); CHECK(IsZero(a) == z, "IsZero"); Mat zz = mk(Z); CHECK(IsZero(zz), "IsZero(0)"); { static const double F[] = {0, 0.25, 0.6, 0.9, 0.99, 1 - 1e-12, 1 + 1e-12, 1.01, 1.5}; int hi = R(3) ? 6 : 9; M S = f1(A, [&](double) { return eps * F[R(hi)] * (R(2) ? 1 : -1); }); bool zs = true, ze = true; double q = R(3) ? 0 : eps * 0.3; for (auto &u : S) for (double t : u) { zs = zs && std::fabs(t) <= eps; ze = ze && std::fabs(t - q) < eps; } Mat sm = mk(S); CHECK(IsZero(sm) == zs, "IsZero near the precision: " + show(S)); CHECK((sm == q) == ze, "==s near the precision: " + show(S)); Mat qq = mk(f1(S, [&](double) { return q; })); CHECK((sm == qq) == ze && (qq == sm) == ze, "== near the precision: " + show(S)); } M Z1 = Z; Z1[R(r)][R(c)] = R(2) ? 1 : -1; Mat z1 = mk(Z1); CHECK(!IsZero(z1), "IsZero"); CHECK(!(z1 == 0.0), "== 0"); }
        { int p = R(r), q = p + R(r - p), col = R(c); int g = GetMaxAbsRowIndex(a, p, q, col); CHECK(g >= p && g <= q, "GetMaxAbsRowIndex out of range"); for (int i = p; i <= q; ++i) CHECK(std::fabs(A[g][col]) >= std::fabs(A[i][col]), "GetMaxAbsRowIndex is not the maximum"); }
        if (r > 1 && r == c) { int p = R(r), q = R(r); Mat co(r - 1, r - 1); GetCofactor(a, co, p, q, r); M E; for (int i = 0; i < r; ++i) if (i != p) { E.push_back({}); for (int j = 0; j < c; ++j) if (j != q) E.back().push_back(A[i][j]); } SAME(co, E, "GetCofactor"); KEEP("GetCofactor"); }
        // vectors
        M V = gen(R, r, 1, mode), W = gen(R, r, 1, mode), X = gen(R, c, 1, mode); Vec v = mkv(V), w = mkv(W), x = mkv(X); CASE("vectors v=" + show(V) + " w=" + show(W) + " s=" + fmtd(s));
        SAME(v + w, f2(V, W, [](double p, double q) { return p + q; }), "v+w"); SAME(v - w, f2(V, W, [](double p, double q) { return p - q; }), "v-w"); SAME(-v, f1(V, [](double p) { return -p; }), "-v"); SAME(v * s, f1(V, [&](double p) { return p * s; }), "v*s"); SAME(s * v, f1(V, [&](double p) { return p * s; }), "s*v"); SAME(v * w, f2(V, W, [](double p, double q) { return p * q; }), "v*w"); SAME(v / w, f2(V, W, [](double p, double q) { return p / q; }), "v/w");
        SAME(a * x, prod(A, X), "a*x"); SAME((a * x).ToVec(), prod(A, X), "ToVec"); double d = 0; for (int i = 0; i < r; ++i) d += V[i][0] * W[i][0]; CHECK(std::fabs(Dot(v, w) - d) <= 1e-9 * (1 + std::fabs(d)), "Dot " + fmtd(Dot(v, w))); 
        { bool lt = true; for (int i = 0; i < r; ++i) lt = lt && V[i][0] < W[i][0]; CHECK((v < w) == lt, "v<w"); M W2 = f1(V, [](double p) { return p + 1; }); if (R(2)) W2[R(r)][0] -= 1; Vec w2 = mkv(W2); lt = true; for (int i = 0; i < r; ++i) lt = lt && V[i][0] < W2[i][0]; CHECK((v < w2) == lt, "v<w"); }
        for (int i = 0; i < r; ++i) { const Vec &cv = v; CHECK(v[i] == V[i][0] && cv[i] == V[i][0], "element"); } { Vec y = v; int n = 1 + R(r > 7 ? r + 2 : 7); y.Resize(n); M E(n, std::vector<double>(1, 0)); for (int i = 0; i < n && i < r; ++i) E[i][0] = V[i][0]; SAME(y, E, "Vec::Resize"); CHECK(&v.AsMat() == (Mat *)&v, "AsMat"); }
        CHECK(same(rd(v), V) && same(rd(w), W) && same(rd(x), X), "vector operation changed an operand");
        { std::valarray<double> q(r); for (int i = 0; i < r; ++i) q[i] = V[i][0]; Vec y(q); SAME(y, V, "Vec(valarray)"); Mat z(r, 1, q); SAME(z, V, "Mat(valarray)"); Vec u(r, s); SAME(u, f1(V, [&](double) { return s; }), "Vec(n,s)"); Mat t(r, c, s); SAME(t, f1(A, [&](double) { return s; }), "Mat(r,c,s)"); Mat l{{s, 1, 2}, {3, 4, s}}; SAME(l, (M{{s, 1, 2}, {3, 4, s}}), "Mat{...}"); Vec lv{1, s, 3}; SAME(lv, (M{{1}, {s}, {3}}), "Vec{...}"); }
        if (c != 1) { str e; int k2 = clsOf([&] { a.ToVec(); }, &e); CHECK(k2 != 0, "ToVec of a matrix with several columns"); }
    }
}
